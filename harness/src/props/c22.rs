use super::ZONES;
use super::recurring::{self, Bound, Gen};
use crate::cal::{D, DAY};
use crate::core::{Cx, Def, Res};
use crate::tape::Src;
use std::cmp::Ordering;

pub static DEF: Def = Def {
    id: "C22",
    rule: "a recurring component and windows that begin and end at, just before, just after or between its occurrences, before its start or after its end, empty or reversed, with bounds of every type: what between, after and at select is what filtering the full expansion selects, the same values in the same order, and queries on a window that ends are run to their end. Non-trivial: the window selects some of the occurrences and leaves some out. Distinct by component and window.",
    zones: ZONES,
    quick: 1_120_000,
    thorough: 5_000_000,
    tape: 500,
    run,
    exhaustive: None,
    witnesses: &[],
};

fn run(s: &mut Src, cx: &mut Cx) -> Res {
    let mut g = Gen {
        utc: true,
        utc_monthly: true,
        exdates: true,
        content: s.chance(1, 8),
        interval_zero: true,
        other_end: s.chance(1, 8),
    };
    let mut r = recurring::rec(s, &g);
    if matches!(r.start, D::Date(_)) && matches!(r.rule.freq.as_str(), "MINUTELY" | "SECONDLY") {
        r.rule.freq = "HOURLY".into();
    }
    // windows that are thousands of occurrences away
    let far = s.chance(1, 1500);
    let skip = if far {
        g.content = false;
        r.rule.count = None;
        r.rule.until = None;
        s.far()
    } else {
        0
    };
    let any = recurring::build(s, &g, &r);
    let n = s.pick(&[20, 60, 8]);
    let full = any.expand().skip(skip).take(n).collect::<Vec<_>>();
    let ended = full.len() < n;
    let starts = recurring::starts(&full);
    recurring::label(cx, &r);
    let Some(last) = starts.last().copied() else {
        cx.label("no occurrence");
        return Ok(());
    };
    if last.day() > crate::cal::days(262_000, 1, 1) {
        cx.label("at the end of time");
        return Ok(());
    }
    // Elsewhere than in UTC, a UTC start and a bound of another kind are ordered by the wall
    // clock, which is not monotonous: only bounds of the same kind there.
    let is_utc = cx.is_utc();
    let utc_start = matches!(r.start, D::Utc(_));
    let sub_day = matches!(r.rule.freq.as_str(), "HOURLY" | "MINUTELY" | "SECONDLY");
    let bound = |s: &mut Src| -> D {
        let near = match s.weighted(&[6, 1, 1]) {
            0 => starts[s.usize(starts.len())],
            1 => r.start,
            _ => last,
        };
        let t = near.secs()
            + match s.weighted(&[3, 2, 2]) {
                0 => 0,
                1 => s.pick(&[1, -1, 60, -60, 3600, -3600]),
                _ => s.range(-40, 40) * s.pick(&[DAY, 3600, 7 * DAY]),
            };
        if !is_utc && utc_start {
            return D::Utc(t);
        }
        // the occurrences of a date by the hour are a date, then date-times: days only
        if sub_day && matches!(r.start, D::Date(_)) {
            return D::Date(t.div_euclid(DAY));
        }
        match (near, s.weighted(&[3, 1, 1])) {
            (_, 1) => D::Date(t.div_euclid(DAY)),
            (_, 2) if is_utc => D::Utc(t),
            (_, 2) => D::Naive(t),
            (D::Date(_), _) => D::Date(t.div_euclid(DAY)),
            (D::Naive(_), _) => D::Naive(t),
            (D::Utc(_), _) => D::Utc(t),
        }
    };
    let before = |d: &D, b: D| recurring::cmp(*d, b) == Ordering::Less;
    let check = |what: String, expected: &[recurring::Any], got: &[recurring::Any]| -> Res {
        if expected == got {
            return Ok(());
        }
        Err(format!(
            "{what}:\n    full {}\nexpected {}\n     got {}",
            recurring::show(&starts),
            recurring::show(&recurring::starts(expected)),
            recurring::show(&recurring::starts(got))
        ))
    };
    let select = |from: Option<D>, to: Option<D>| {
        full.iter()
            .filter(|x| {
                x.start().is_some_and(|d| {
                    from.is_none_or(|f| !before(&d, f)) && to.is_none_or(|t| before(&d, t))
                })
            })
            .cloned()
            .collect::<Vec<_>>()
    };
    let selected = |cx: &mut Cx, v: &[recurring::Any]| {
        cx.nontrivial_if(!v.is_empty() && v.len() < full.len());
        cx.label(match v.len() {
            0 => "none selected",
            m if m == full.len() => "all selected",
            _ => "some selected",
        });
    };
    // the expansion drawn covers windows that end no later than its last occurrence
    let covered = |d: D| ended || (!before(&last, d));
    // and those that begin after the ones that were skipped
    let reached = |d: D| !far || before(&starts[0], d);
    if far {
        cx.label("far away");
    }

    // queries enumerate the series: the beginning of the window is within reach
    let step = match r.rule.freq.as_str() {
        "SECONDLY" => 1,
        "MINUTELY" => 60,
        "HOURLY" => 3600,
        _ => DAY,
    } * r.rule.interval.max(1);
    let near = |d: D| (d.secs() - last.secs()) / step < 300;

    let (a, b) = (bound(s), bound(s));
    let (x, y) = (Bound::of(s, a), Bound::of(s, b));
    cx.note(format!("{r:?} between {x:?} and {y:?}, in {}", cx.zone));
    if covered(b) && near(a) && reached(a) {
        let expected = select(Some(a), Some(b));
        selected(cx, &expected);
        let mut it = any.between(x, y);
        let mut got = Vec::new();
        while let Some(o) = it.next() {
            got.push(o);
            if got.len() > n {
                break;
            }
        }
        check(
            format!("between {} and {}", a.text(), b.text()),
            &expected,
            &got,
        )?;
    }
    if covered(a) && reached(a) {
        let expected = select(Some(a), None);
        selected(cx, &expected);
        let mut it = any.after(x);
        let mut got = Vec::new();
        for _ in 0..expected.len() {
            got.extend(it.next());
        }
        check(format!("after {}", a.text()), &expected, &got)?;
        if ended && let Some(o) = it.next() {
            return Err(format!("after {}: one more at {:?}", a.text(), o.start()));
        }
    }
    // a day: of the local calendar for a date, 24 hours from a date-time
    if is_utc || !utc_start {
        let end = match a {
            D::Date(d) => D::Date(d + 1),
            D::Naive(t) => D::Naive(t + DAY),
            D::Utc(t) => D::Utc(t + DAY),
        };
        if covered(end) && reached(a) {
            let expected = select(Some(a), Some(end));
            selected(cx, &expected);
            let got = any.at(x).take(n + 1).collect::<Vec<_>>();
            check(format!("at {}", a.text()), &expected, &got)?;
        }
    }
    Ok(())
}
