use super::{ZONES, describe, ok, same};
use crate::build;
use crate::cal::{self, D, DAY};
use crate::core::{Cx, Def, Res, Witness};
use crate::generate::{self, Opt};
use crate::lift::{self, Any};
use crate::model::*;
use crate::reader;
use crate::render;
use crate::tape::Src;
use std::sync::OnceLock;

pub static DEF: Def = Def {
    id: "C27",
    rule: "timestamps marked as UTC, two thirds of them within hours of an offset change of the local zone (found by scanning the zone from 1890 to 2040), in every property that takes one of every kind of component and stand-alone: read as that instant, written with its digits, never refused. Eight local zones, one per worker. Non-trivial: a timestamp within a day of an offset change, or a zone other than UTC. Distinct by text and zone.",
    zones: ZONES,
    quick: 960_000,
    thorough: 5_000_000,
    tape: 1000,
    run,
    exhaustive: None,
    witnesses: &[
        Witness {
            key: "write-local",
            run: write_local,
        },
        Witness {
            key: "standalone-local",
            run: standalone_local,
        },
    ],
};

const T: i64 = 1_721_000_000;

fn write_local(cx: &mut Cx) -> Res {
    let d = D::Utc(T);
    cx.note(d.text());
    let out = ok("a date-time", ikal::ser::ical(&d.to_dt()))?;
    if out == d.text() {
        Ok(())
    } else {
        Err(format!("{} is written {out}", d.text()))
    }
}

fn standalone_local(cx: &mut Cx) -> Res {
    let d = D::Utc(T);
    cx.note(d.text());
    let r = ok("a date-time", d.text().parse::<ikal::DateTime>())?;
    if D::of_dt(&r) == d {
        Ok(())
    } else {
        Err(format!("{} is read as {r:?}", d.text()))
    }
}

pub fn offset(t: i64) -> i64 {
    D::of_naive_dt(&D::Utc(t).local().naive_local()) - t
}

/// Instants where the offset of the local zone changes.
pub fn changes() -> &'static [i64] {
    static C: OnceLock<Vec<i64>> = OnceLock::new();
    C.get_or_init(|| {
        let mut v = Vec::new();
        let (mut day, end) = (cal::days(1890, 1, 1), cal::days(2040, 1, 1));
        while day < end {
            let (mut a, mut b) = (day * DAY, (day + 1) * DAY);
            if offset(a) != offset(b) {
                while b - a > 1 {
                    let m = (a + b) / 2;
                    if offset(a) == offset(m) { a = m } else { b = m }
                }
                v.push(b);
            }
            day += 1;
        }
        v
    })
}

pub fn instant(s: &mut Src) -> i64 {
    // the local wall clock too is in the years that have a text
    instant_any(s).clamp(cal::days(0, 1, 3) * DAY, cal::days(9998, 1, 1) * DAY)
}

fn instant_any(s: &mut Src) -> i64 {
    let c = changes();
    if c.is_empty() || s.chance(1, 3) {
        return generate::day(s) * DAY + generate::secs_of_day(s);
    }
    // recent changes more often
    let i = if s.chance(1, 2) {
        c.len() - 1 - s.usize(c.len().min(60))
    } else {
        s.usize(c.len())
    };
    let t = c[i];
    // the digits of the instant, or those of its wall clock, near the change
    let t = match s.usize(3) {
        0 => t,
        1 => t + offset(t),
        _ => t + offset(t - 1),
    };
    t + match s.usize(4) {
        0 => s.pick(&[0, -1, 1, 1800, -1800, 3600, -3600, 3599, 3601, -3601]),
        1 => s.range(-7200, 7200),
        2 => s.range(-DAY, DAY),
        _ => s.range(-120, 120) * 60,
    }
}

/// Digits of the local wall clock, marked as UTC.
fn local(d: D) -> D {
    match d {
        D::Utc(t) => D::Utc(t + offset(t)),
        d => d,
    }
}

fn map_p(p: &P, f: &dyn Fn(D) -> D) -> P {
    match p {
        P::End(a, b) => P::End(f(*a), f(*b)),
        P::Dur(a, n) => P::Dur(f(*a), *n),
    }
}

fn map_v(v: &V, f: &dyn Fn(D) -> D) -> V {
    match v {
        V::Date(d) => V::Date(f(*d)),
        V::Dates(ds) => V::Dates(ds.iter().map(|d| f(*d)).collect()),
        V::Periods(ps) => V::Periods(ps.iter().map(|p| map_p(p, f)).collect()),
        V::Period(p) => V::Period(map_p(p, f)),
        V::Recur(r) => {
            let mut r = r.clone();
            r.until = r.until.map(f);
            V::Recur(r)
        }
        v => v.clone(),
    }
}

/// Where a written value is that of the known finding, takes it for the right one.
fn tolerate(expected: &Norm, actual: &mut Norm) -> bool {
    let mut any = false;
    for (name, es) in &expected.props {
        let Some(vs) = actual.props.get_mut(name) else {
            continue;
        };
        for (e, a) in es.iter().zip(vs) {
            if e.1 != a.1 && map_v(&e.1, &local) == a.1 {
                a.1 = e.1.clone();
                any = true;
            }
        }
    }
    for (g, es) in &expected.subs {
        if let Some(vs) = actual.subs.get_mut(g) {
            for (e, a) in es.iter().zip(vs) {
                any |= tolerate(e, a);
            }
        }
    }
    any
}

fn check_written(cx: &Cx, what: &str, expected: &Norm, out: &str) -> Res {
    let mut strict = reader::read(out).map_err(|e| format!("malformed output: {e}\n{out}"))?;
    if cx.is_known("write-local") {
        tolerate(expected, &mut strict);
    }
    same(what, expected, &strict)
}

/// A value read stand-alone.
fn check_alone(cx: &Cx, t: i64, what: &str, r: Result<D, ikal::Error>) -> Res {
    let text = D::Utc(t).text();
    let mut good = vec![D::Utc(t)];
    let mut refusable = false;
    if cx.is_known("standalone-local") && !cx.is_utc() {
        use chrono::TimeZone as _;
        let m = chrono::Local.from_local_datetime(&D::Naive(t).naive_dt());
        let l = [m.clone().earliest(), m.latest()];
        refusable = l[0].is_none();
        good.extend(
            l.iter()
                .flatten()
                .map(|l| D::Utc(D::of_naive_dt(&l.naive_utc()))),
        );
    }
    match r {
        Ok(d) if good.contains(&d) => Ok(()),
        Err(_) if refusable => Ok(()),
        Ok(d) => Err(format!(
            "{what} {text} is read as {d:?} instead of {:?}",
            D::Utc(t)
        )),
        Err(e) => Err(format!("{what} {text} is refused: {e}")),
    }
}

fn check_text(cx: &Cx, d: D, what: &str, out: &str) -> Res {
    if out == d.text() || cx.is_known("write-local") && out == local(d).text() {
        Ok(())
    } else {
        Err(format!("{what} {} is written {out}", d.text()))
    }
}

fn near_change(t: i64) -> bool {
    let c = changes();
    let i = c.partition_point(|x| *x < t - DAY);
    c.get(i).is_some_and(|x| (x - t).abs() <= DAY)
}

fn alone(s: &mut Src, cx: &mut Cx) -> Res {
    let t = instant(s);
    let d = D::Utc(t);
    let text = d.text();
    cx.note(format!("{text} {}", cx.zone));
    cx.nontrivial_if(near_change(t) || !cx.is_utc());
    let n = generate::positive(s) % (400 * DAY) + 1;
    let end = D::Utc(t + n);
    // read
    check_alone(
        cx,
        t,
        "the date-time",
        text.parse::<ikal::DateTime>().map(|d| D::of_dt(&d)),
    )?;
    check_alone(
        cx,
        t,
        "the date",
        text.parse::<ikal::Date>().map(|d| D::of_date(&d)),
    )?;
    check_alone(
        cx,
        t,
        "the trigger",
        text.parse::<ikal::Trigger>()
            .map(|x| match lift::trigger(&x) {
                V::Date(d) => d,
                _ => D::Date(0),
            }),
    )?;
    let naive = D::Naive(t);
    let r = ok(
        "a date-time without zone",
        naive.text().parse::<ikal::DateTime>(),
    )?;
    if D::of_dt(&r) != naive {
        return Err(format!("{} is read as {r:?}", naive.text()));
    }
    // these are read as in a component
    for (p, text) in [
        (P::End(d, end), format!("{text}/{}", end.text())),
        (P::Dur(d, n), format!("{text}/PT{n}S")),
    ] {
        let x = ok(&format!("the period {text}"), text.parse::<ikal::Period>())?;
        if lift::period(&x) != p {
            return Err(format!("the period {text} is read as {x:?}"));
        }
        let out = ok("a period", ikal::ser::ical(&x))?;
        let (a, b) = out.split_once('/').ok_or("a period without /")?;
        check_text(cx, d, "the start of a period", a)?;
        if let P::End(_, e) = p {
            check_text(cx, e, "the end of a period", b)?;
        }
    }
    let rule = format!("FREQ=DAILY;UNTIL={text}");
    let x = ok(&rule, rule.parse::<ikal::Recur>())?;
    if x.until.as_ref().map(D::of_date) != Some(d) {
        return Err(format!("{rule} is read as {x:?}"));
    }
    let out = ok("a rule", ikal::ser::ical(&x))?;
    let until = out
        .split(';')
        .find_map(|p| p.strip_prefix("UNTIL="))
        .unwrap_or_default();
    check_text(cx, d, "UNTIL", until)?;
    // written
    let dt = d.to_dt();
    check_text(
        cx,
        d,
        "the date-time",
        &ok("a date-time", ikal::ser::ical(&dt))?,
    )?;
    check_text(cx, d, "the date-time printed", &dt.to_string())?;
    check_text(
        cx,
        d,
        "the date",
        &ok("a date", ikal::ser::ical(&d.to_date()))?,
    )?;
    check_text(cx, d, "the date printed", &d.to_date().to_string())?;
    let tr = ok("a trigger", ikal::ser::ical(&ikal::Trigger::DateTime(dt)))?;
    check_text(
        cx,
        d,
        "the trigger",
        tr.strip_prefix("VALUE=DATE-TIME:").unwrap_or(&tr),
    )
}

/// Moves every date-time of a component to a critical instant.
fn move_dates(s: &mut Src, c: &mut Comp, near: &mut bool) {
    let mut f = |d: D| match d {
        D::Date(_) => d,
        D::Naive(_) if s.chance(1, 2) => d,
        _ => {
            let t = instant(s);
            *near |= near_change(t);
            D::Utc(t)
        }
    };
    for p in &mut c.props {
        let mut fixed = |p: &P| match p {
            P::End(a, b) => P::End(f(*a), f(*b)),
            P::Dur(a, n) => P::Dur(f(*a), *n),
        };
        match &mut p.value {
            V::Periods(ps) => ps.iter_mut().for_each(|p| *p = fixed(p)),
            V::Period(p) => *p = fixed(p),
            V::Date(d) => *d = f(*d),
            V::Dates(ds) => ds.iter_mut().for_each(|d| *d = f(*d)),
            V::Recur(r) => r.until = r.until.map(&mut f),
            _ => (),
        }
    }
    for c in &mut c.subs {
        move_dates(s, c, near);
    }
}

fn component(s: &mut Src, cx: &mut Cx) -> Res {
    let o = Opt {
        density: s.pick(&[25, 60]),
        comps: 3,
        ext: false,
        ..Opt::read()
    };
    let mut c = generate::any(s, &o);
    let mut near = false;
    move_dates(s, &mut c, &mut near);
    let n = c.norm();
    let text = render::doc(s, &o, &c).plain();
    cx.note(format!("{}\n{text}", cx.zone));
    describe(cx, &c);
    cx.nontrivial_if(near || !cx.is_utc());
    let any = ok("a well-formed component", Any::read(c.kind, &text))?;
    same("read", &n, &any.lift())?;
    let out = ok("writing", any.write())?;
    check_written(cx, "written", &n, &out)?;
    // what is written is always read
    ok("what is written", Any::read(c.kind, &out))?;
    let built = build::any(s, false, &c);
    let out = ok("writing", built.write())?;
    check_written(cx, "built and written", &n, &out)
}

fn run(s: &mut Src, cx: &mut Cx) -> Res {
    if s.chance(1, 2) {
        cx.label("stand-alone");
        alone(s, cx)
    } else {
        cx.label("component");
        component(s, cx)
    }
}
