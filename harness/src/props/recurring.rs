//! Recurring components: events, to-dos and journals with a rule, by meaning and in the library.
use super::c27::offset;
use crate::build;
use crate::cal::{self, D, DAY};
use crate::generate::{self, Opt};
use crate::lift::Lift;
use crate::model::*;
use crate::tape::Src;
use std::cmp::Ordering;

#[derive(Clone, Debug)]
pub struct Rec {
    pub kind: Kind,
    pub start: D,
    /// End of an event, due date of a to-do.
    pub end: Option<D>,
    pub rule: R,
    pub exdates: Vec<D>,
}

impl Rec {
    /// All its dates.
    pub fn dates(&self) -> impl Iterator<Item = D> + '_ {
        [Some(self.start), self.end, self.rule.until]
            .into_iter()
            .flatten()
            .chain(self.exdates.iter().copied())
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Any {
    Event(Box<ikal::VEvent>),
    Todo(Box<ikal::VTodo>),
    Journal(Box<ikal::VJournal>),
}

#[macro_export]
macro_rules! on_rec {
    ($any:expr, $x:ident => $e:expr) => {
        match $any {
            $crate::props::recurring::Any::Event($x) => $e,
            $crate::props::recurring::Any::Todo($x) => $e,
            $crate::props::recurring::Any::Journal($x) => $e,
        }
    };
}

macro_rules! each {
    ($any:expr, $x:ident => $iter:expr) => {
        match $any {
            Any::Event($x) => {
                Box::new($iter.map(|y| Any::Event(Box::new(y)))) as Box<dyn Iterator<Item = Any>>
            }
            Any::Todo($x) => Box::new($iter.map(|y| Any::Todo(Box::new(y)))),
            Any::Journal($x) => Box::new($iter.map(|y| Any::Journal(Box::new(y)))),
        }
    };
}

/// The bound of a window: the library takes anything that converts to a date.
#[derive(Clone, Copy, Debug)]
pub enum Bound {
    Date(ikal::Date),
    Naive(chrono::NaiveDate),
    DateTime(ikal::DateTime),
    NaiveDateTime(chrono::NaiveDateTime),
}

impl Bound {
    /// One of the types that can hold the value.
    pub fn of(s: &mut Src, d: D) -> Bound {
        match (d, s.usize(3)) {
            (D::Date(_), 1) => Bound::Naive(d.naive_date()),
            (D::Naive(_), 1) => Bound::NaiveDateTime(d.naive_dt()),
            (D::Naive(_) | D::Utc(_), 2) => Bound::DateTime(d.to_dt()),
            _ => Bound::Date(d.to_date()),
        }
    }

    pub fn date(self) -> ikal::Date {
        match self {
            Bound::Date(d) => d,
            Bound::Naive(d) => d.into(),
            Bound::DateTime(d) => d.into(),
            Bound::NaiveDateTime(d) => d.into(),
        }
    }
}

/// Ways of taking occurrences from an iterator, besides one by one.
#[derive(Clone, Copy, Debug)]
pub enum How {
    Nth(usize),
    Skip(usize),
    Step(usize),
    Take(usize),
    Find(usize),
    Peek,
    Fold,
    Last,
}

/// The same occurrences, whichever way they are taken: `occ` are the first ones, all of them when
/// `ended`.
pub fn otherwise<T: PartialEq + std::fmt::Debug>(
    s: &mut Src,
    any: &Any,
    occ: &[T],
    ended: bool,
    of: impl Fn(&Any) -> T,
) -> Result<(), String> {
    let n = occ.len();
    let k = if ended {
        s.usize(n + 3)
    } else {
        s.usize(n.max(1))
    };
    let how = match s.usize(if ended { 8 } else { 6 }) {
        0 => How::Nth(k),
        1 => How::Skip(k),
        2 => How::Step(k.max(1)),
        3 => How::Take(k),
        4 if k < n || ended => How::Find(k),
        5 => How::Peek,
        6 => How::Last,
        7 => How::Fold,
        _ => How::Nth(k),
    };
    if n == 0 && !ended {
        return Ok(());
    }
    let (got, want) = any.taken(how, n, ended);
    if got.len() != want.len() || got.iter().zip(&want).any(|(a, i)| of(a) != occ[*i]) {
        return Err(format!(
            "taken by {how:?}: {} instead of {} out of {n}: {:?} instead of {:?}",
            got.len(),
            want.len(),
            got.iter().take(4).map(&of).collect::<Vec<_>>(),
            want.iter().take(4).map(|i| &occ[*i]).collect::<Vec<_>>(),
        ));
    }
    let (low, high) = any.size_hint();
    if (ended && low > n) || high.is_some_and(|h| h < n) {
        return Err(format!("{n} occurrences, announced as {low} to {high:?}"));
    }
    if ended && any.count() != n {
        return Err(format!("{} counted, {n} one by one", any.count()));
    }
    Ok(())
}

impl Any {
    pub fn expand(&self) -> Box<dyn Iterator<Item = Any> + '_> {
        each!(self, x => x.recurrent())
    }

    /// Occurrences taken in one of the ways an iterator offers, and which ones they have to be, of
    /// the `n` first: all there are when `ended`.
    pub fn taken(&self, how: How, n: usize, ended: bool) -> (Vec<Any>, Vec<usize>) {
        let all = |it: Box<dyn Iterator<Item = Any>>, want: usize| {
            it.take(want + usize::from(ended)).collect::<Vec<_>>()
        };
        match how {
            How::Nth(k) => {
                let it = each!(self, x => {
                    let mut it = x.recurrent();
                    let first = it.nth(k);
                    first.into_iter().chain(it)
                });
                (all(it, n.saturating_sub(k)), (k.min(n)..n).collect())
            }
            How::Skip(k) => (
                all(each!(self, x => x.recurrent().skip(k)), n.saturating_sub(k)),
                (k.min(n)..n).collect(),
            ),
            How::Step(k) => {
                let want = (0..n).step_by(k).collect::<Vec<_>>();
                let it = each!(self, x => x.recurrent().step_by(k));
                (all(it, want.len()), want)
            }
            How::Last => {
                let it = each!(self, x => x.recurrent().last().into_iter());
                (it.collect(), (0..n).last().into_iter().collect())
            }
            How::Fold => {
                let it = each!(self, x => x.recurrent().fold(Vec::new(), |mut v, x| {
                    v.push(x);
                    v
                }).into_iter());
                (it.collect(), (0..n).collect())
            }
            How::Peek => {
                let it = each!(self, x => {
                    let mut it = x.recurrent().peekable();
                    it.peek();
                    it
                });
                (all(it, n), (0..n).collect())
            }
            How::Take(k) => {
                // as far as asked, then the rest
                let it = each!(self, x => {
                    let mut it = x.recurrent();
                    let v = it.by_ref().take(k).collect::<Vec<_>>();
                    v.into_iter().chain(it)
                });
                (all(it, n), (0..n).collect())
            }
            How::Find(k) => {
                let it = each!(self, x => {
                    let mut i = 0;
                    x.recurrent().find(|_| {
                        i += 1;
                        i > k
                    }).into_iter()
                });
                (it.collect(), (k.min(n)..n).take(1).collect())
            }
        }
    }

    pub fn count(&self) -> usize {
        on_rec!(self, x => x.recurrent().count())
    }

    pub fn size_hint(&self) -> (usize, Option<usize>) {
        on_rec!(self, x => x.recurrent().size_hint())
    }

    pub fn at(&self, b: Bound) -> Box<dyn Iterator<Item = Any>> {
        match b {
            Bound::Date(b) => each!(self, x => x.recurrent().at(b)),
            Bound::Naive(b) => each!(self, x => x.recurrent().at(b)),
            Bound::DateTime(b) => each!(self, x => x.recurrent().at(b)),
            Bound::NaiveDateTime(b) => each!(self, x => x.recurrent().at(b)),
        }
    }

    pub fn after(&self, b: Bound) -> Box<dyn Iterator<Item = Any>> {
        match b {
            Bound::Date(b) => each!(self, x => x.recurrent().after(b)),
            Bound::Naive(b) => each!(self, x => x.recurrent().after(b)),
            Bound::DateTime(b) => each!(self, x => x.recurrent().after(b)),
            Bound::NaiveDateTime(b) => each!(self, x => x.recurrent().after(b)),
        }
    }

    pub fn between(&self, a: Bound, b: Bound) -> Box<dyn Iterator<Item = Any>> {
        match (a, b) {
            (Bound::Naive(a), Bound::Naive(b)) => each!(self, x => x.recurrent().between(a, b)),
            (Bound::DateTime(a), Bound::DateTime(b)) => {
                each!(self, x => x.recurrent().between(a, b))
            }
            (Bound::NaiveDateTime(a), Bound::NaiveDateTime(b)) => {
                each!(self, x => x.recurrent().between(a, b))
            }
            (a, b) => {
                let (a, b) = (a.date(), b.date());
                each!(self, x => x.recurrent().between(a, b))
            }
        }
    }

    pub fn start(&self) -> Option<D> {
        match self {
            Any::Event(x) => Some(D::of_date(&x.dtstart)),
            Any::Todo(x) => x.dtstart.as_ref().map(D::of_date),
            Any::Journal(x) => Some(D::of_date(&x.dtstart)),
        }
    }

    pub fn end(&self) -> Option<D> {
        match self {
            Any::Event(x) => x.dtend.as_ref().map(D::of_date),
            Any::Todo(x) => x.due.as_ref().map(D::of_date),
            Any::Journal(_) => None,
        }
    }

    pub fn clear_exdates(&mut self) {
        on_rec!(self, x => x.exdate.clear());
    }

    pub fn rule(&self) -> Option<&ikal::Recur> {
        on_rec!(self, x => x.rrule.as_ref())
    }

    pub fn lift(&self) -> Norm {
        on_rec!(self, x => x.lift())
    }

    pub fn write(&self) -> Result<String, ikal::Error> {
        on_rec!(self, x => ikal::ser::ical(x.as_ref()))
    }

    pub fn read(&self, text: &str) -> Result<Any, ikal::Error> {
        Ok(match self {
            Any::Event(_) => Any::Event(Box::new(text.parse()?)),
            Any::Todo(_) => Any::Todo(Box::new(text.parse()?)),
            Any::Journal(_) => Any::Journal(Box::new(text.parse()?)),
        })
    }
}

/// What may be generated.
#[derive(Clone, Copy)]
pub struct Gen {
    /// Any kind of start, or only those whose steps are fixed or local.
    pub utc_monthly: bool,
    pub utc: bool,
    pub exdates: bool,
    /// Other properties, alarms and extensions.
    pub content: bool,
    pub interval_zero: bool,
    /// Ends that are a date where the start has a time, or the reverse.
    pub other_end: bool,
}

pub fn start(s: &mut Src, utc: bool) -> D {
    if s.chance(1, 6) {
        // next to a change of the local clock, or a few steps before
        let t = super::c27::instant(s) - s.range(0, 3) * s.pick(&[3600, DAY, 7 * DAY]);
        let t = t.max(cal::days(1, 1, 1) * DAY);
        return match s.usize(if utc { 3 } else { 2 }) {
            0 => D::Date(t.div_euclid(DAY)),
            1 => D::Naive(t),
            _ => D::Utc(t),
        };
    }
    let day = match s.weighted(&[4, 3, 2, 1]) {
        0 => cal::days(s.range(1995, 2035), s.range(1, 12), s.range(1, 28)),
        1 => {
            let y = s.range(1995, 2035);
            let m = s.range(1, 12);
            cal::days(y, m, cal::month_len(y, m) - s.range(0, 2))
        }
        2 => cal::days(s.pick(&[2000, 2004, 2024, 1996, 2096, 1896]), 2, 29),
        _ => s.range(cal::days(1, 1, 1), cal::days(9000, 12, 31)),
    };
    let t = day * DAY + generate::secs_of_day(s);
    match s.usize(if utc { 3 } else { 2 }) {
        0 => D::Date(day),
        1 => D::Naive(t),
        _ => D::Utc(t),
    }
}

pub fn rec(s: &mut Src, g: &Gen) -> Rec {
    let kind = s.pick(&[Kind::Event, Kind::Todo, Kind::Journal]);
    let start = start(s, g.utc);
    let mut freq = s.pick(&FREQS).to_string();
    if matches!(start, D::Utc(_)) && !g.utc_monthly && (freq == "MONTHLY" || freq == "YEARLY") {
        freq = "WEEKLY".into();
    }
    let interval = match s.weighted(&[4, 3, 1]) {
        0 => 1,
        1 => s.range(2, 13),
        _ => s.range(i64::from(!g.interval_zero), 255),
    };
    let mut rule = R {
        freq,
        interval,
        ..R::default()
    };
    let step = |k: i64| cal::candidate(start, &rule.freq, interval, k).unwrap_or(start);
    match s.weighted(&[3, 4, 4]) {
        1 => {
            rule.count = Some(if s.chance(1, 8) {
                s.range(0, 255)
            } else {
                s.range(1, 12)
            })
        }
        2 => {
            // on an occurrence, just before, just after, or anywhere
            let near = step(s.range(0, 14));
            let t = near.secs() + s.pick(&[0, 0, 1, -1, 60, -60, DAY, -DAY, DAY / 2]);
            let t = t.clamp(cal::days(0, 1, 1) * DAY, cal::days(9999, 12, 31) * DAY);
            rule.until = Some(match (start, s.weighted(&[4, 1, 1])) {
                (D::Date(_), 0) | (_, 1) => D::Date(t.div_euclid(DAY)),
                (D::Utc(_), _) => D::Utc(t),
                (D::Date(_), _) if !g.utc => D::Naive(t),
                (D::Date(_), _) => {
                    if s.chance(1, 2) {
                        D::Utc(t)
                    } else {
                        D::Naive(t)
                    }
                }
                _ => D::Naive(t),
            });
            if s.chance(1, 8) {
                // both: the first one reached
                rule.count = Some(s.range(1, 16));
            }
        }
        _ => (),
    }
    let mut exdates = Vec::new();
    if g.exdates {
        let n = s.count(8);
        for _ in 0..n {
            let near = step(s.range(0, 12));
            exdates.push(match s.weighted(&[6, 1, 1, 1, 1]) {
                0 => near,
                // beside an occurrence
                1 => match near {
                    D::Date(d) => D::Date(d + s.range(-3, 3)),
                    D::Naive(t) => D::Naive(t + s.pick(&[1, -1, 60, 3600, DAY])),
                    D::Utc(t) => D::Utc(t + s.pick(&[1, -1, 60, 3600, DAY])),
                },
                // of another kind: equal to no occurrence
                2 => match near {
                    D::Date(d) => D::Naive(d * DAY),
                    d => D::Date(d.day()),
                },
                3 => start,
                _ => generate::date(
                    s,
                    &Opt {
                        utc: g.utc,
                        ..Opt::read()
                    },
                ),
            });
            if s.chance(1, 6) {
                let again = s.pick(&exdates);
                exdates.push(again);
            }
        }
        if s.chance(1, 20) {
            // a run of excluded occurrences
            let n = if s.chance(1, 3) {
                s.range(30, 300)
            } else {
                s.range(2, 30)
            };
            exdates.extend((0..n).map(step));
        }
        if s.chance(1, 3) {
            s.shuffle(&mut exdates);
        }
    }
    let end = if kind != Kind::Journal && s.chance(2, 3) {
        let n = match s.usize(4) {
            0 => s.range(0, 48) * 1800,
            1 => s.range(0, 40) * DAY,
            2 => s.range(0, 100_000),
            _ => 0,
        };
        // before the start, sometimes
        let n = if s.chance(1, 10) { -n } else { n };
        // steps of whole days move a date and a time alike
        let other = g.other_end && s.chance(1, 5);
        Some(match start {
            D::Date(d) if other => D::Naive(d * DAY + n),
            D::Naive(t)
                if other
                    && matches!(
                        rule.freq.as_str(),
                        "DAILY" | "WEEKLY" | "MONTHLY" | "YEARLY"
                    ) =>
            {
                D::Date((t + n).div_euclid(DAY))
            }
            D::Date(d) => D::Date(d + n.div_euclid(DAY)),
            D::Naive(t) => D::Naive(t + n),
            D::Utc(t) => D::Utc(t + n),
        })
    } else {
        None
    };
    Rec {
        kind,
        start,
        end,
        rule,
        exdates,
    }
}

/// The component in the library: its content is generated.
pub fn build(s: &mut Src, g: &Gen, r: &Rec) -> Any {
    let o = if g.content {
        Opt {
            utc: g.utc,
            density: 20,
            ..Opt::built()
        }
    } else {
        Opt {
            density: 0,
            ext: false,
            params: false,
            utc: false,
            ..Opt::built()
        }
    };
    let mut c = generate::comp(s, &o, r.kind);
    if !g.content {
        c.subs.clear();
    }
    c.props.retain(|p| {
        !matches!(
            p.name.as_str(),
            "DTSTART" | "DTEND" | "DUE" | "RRULE" | "EXDATE" | "RDATE"
        )
    });
    match r.kind {
        Kind::Event => {
            let mut e = build::event(s, false, &c);
            e.dtstart = r.start.to_date();
            e.dtend = r.end.map(|d| d.to_date());
            e.rrule = Some(build::recur(&r.rule));
            e.exdate = r.exdates.iter().map(D::to_date).collect();
            Any::Event(Box::new(e))
        }
        Kind::Todo => {
            let mut e = build::todo(s, false, &c);
            e.dtstart = Some(r.start.to_date());
            e.due = r.end.map(|d| d.to_date());
            e.rrule = Some(build::recur(&r.rule));
            e.exdate = r.exdates.iter().map(D::to_date).collect();
            Any::Todo(Box::new(e))
        }
        _ => {
            let mut e = build::journal(s, false, &c);
            e.dtstart = r.start.to_date();
            e.rrule = Some(build::recur(&r.rule));
            e.exdate = r.exdates.iter().map(D::to_date).collect();
            Any::Journal(Box::new(e))
        }
    }
}

/// Seconds of the local wall clock.
pub fn wall(d: D) -> i64 {
    match d {
        D::Utc(_) => D::of_naive_dt(&d.local().naive_local()),
        d => d.secs(),
    }
}

/// The order of dates: instants of one kind, otherwise local days or the local wall clock.
pub fn cmp(a: D, b: D) -> Ordering {
    match (a, b) {
        (D::Utc(a), D::Utc(b)) | (D::Naive(a), D::Naive(b)) => a.cmp(&b),
        (a, b) if a.has_time() && b.has_time() => wall(a).cmp(&wall(b)),
        (a, b) => wall(a).div_euclid(DAY).cmp(&wall(b).div_euclid(DAY)),
    }
}

/// The instants at which the local wall clock shows that time: one, two where the clock goes
/// back, none where it goes forward.
pub fn instants(wall: i64) -> Vec<i64> {
    let mut v: Vec<i64> = [-2 * DAY, -DAY, -DAY / 2, 0, DAY / 2, DAY, 2 * DAY]
        .iter()
        .map(|x| wall - offset(wall + x))
        .filter(|t| t + offset(*t) == wall)
        .collect();
    v.sort_unstable();
    v.dedup();
    v
}

/// Where a step by months or years from that time of the local wall clock may lead in the local zone: the same day and
/// time of day on the wall clock, whichever of the two instants it is where the clock goes back.
/// Where the clock never shows that time, the step may go on to the next month or year, or stay
/// near it: `true` for those.
pub fn local_next(wall: i64, freq: &str, interval: i64) -> Vec<(i64, bool)> {
    let start = D::Naive(wall);
    let mut v = Vec::new();
    for k in 1..=400 * 12 {
        let Some(next) = cal::candidate(start, freq, interval, k) else {
            continue;
        };
        if next.day() > cal::days(262_000, 1, 1) {
            break;
        }
        let found = instants(next.secs());
        if !found.is_empty() {
            v.extend(found.into_iter().map(|t| (t, false)));
            break;
        }
        v.push((next.secs() - offset(next.secs()), true));
    }
    v
}

/// The starts of the rule, in order, excluded ones included: at most `n`. The second value tells
/// whether these are all.
pub fn expected(start: D, rule: &R, n: usize) -> (Vec<D>, bool) {
    let mut v = Vec::new();
    let mut k = 0;
    // no month or year with the day can be further away than this
    let limit = 400 * 12 * (n as i64 + 1);
    while v.len() < n {
        if rule.count.is_some_and(|c| v.len() as i64 >= c) || k > limit {
            return (v, true);
        }
        let c = if k == 0 {
            Some(start)
        } else {
            cal::candidate(start, &rule.freq, rule.interval, k)
        };
        k += 1;
        let Some(c) = c else { continue };
        if rule.until.is_some_and(|u| cmp(c, u) == Ordering::Greater) {
            return (v, true);
        }
        v.push(c);
    }
    let done = rule.count.is_some_and(|c| v.len() as i64 >= c);
    (v, done)
}

pub fn label(cx: &mut crate::core::Cx, r: &Rec) {
    cx.label(format!("{:?}", r.kind));
    cx.label(format!("{} {}", r.rule.freq, r.start.kind()));
    cx.label(match (r.rule.count, r.rule.until) {
        (Some(_), _) => "count",
        (_, Some(_)) => "until",
        _ => "endless",
    });
    if r.start.day() > 0
        && cal::civil(r.start.day()).2 > 28
        && matches!(r.rule.freq.as_str(), "MONTHLY" | "YEARLY")
    {
        cx.label("days to skip");
    }
    if !r.exdates.is_empty() {
        cx.label("exceptions");
    }
}

pub fn starts(v: &[Any]) -> Vec<D> {
    v.iter().filter_map(Any::start).collect()
}

/// Short list for messages.
pub fn show(v: &[D]) -> String {
    let t = v.iter().take(12).map(D::text).collect::<Vec<_>>().join(" ");
    if v.len() > 12 {
        format!("{t} … ({})", v.len())
    } else {
        t
    }
}
