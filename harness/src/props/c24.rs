use super::ZONES;
use super::recurring::{self, Gen};
use crate::cal::{self, D, DAY};
use crate::core::{Cx, Def, Res};
use crate::model::*;
use crate::tape::Src;

pub static DEF: Def = Def {
    id: "C24",
    rule: "a recurring component with any start (also next to both ends of representable time, and around daylight-saving changes), rule (all parts, interval and count zero), exception dates and end; occurrences are drawn to the end of the series or up to a limit, printed and written, in eight local zones; after nothing comes nothing. Non-trivial: an extreme start, a local zone with daylight saving, or the end of the series reached. Distinct by component.",
    zones: ZONES,
    quick: 960_000,
    thorough: 5_000_000,
    tape: 500,
    run,
    exhaustive: None,
    witnesses: &[],
};

/// Years that chrono can hold.
const FIRST: i64 = -262_143;
const LAST: i64 = 262_142;

fn run(s: &mut Src, cx: &mut Cx) -> Res {
    let g = Gen {
        utc: true,
        utc_monthly: true,
        exdates: true,
        content: s.chance(1, 8),
        interval_zero: true,
        other_end: s.chance(1, 8),
    };
    let mut r = recurring::rec(s, &g);
    let extreme = s.chance(1, 2);
    if extreme {
        let day = match s.usize(5) {
            0 => cal::days(LAST, 12, 31) - s.range(0, 3),
            1 => cal::days(LAST, 12, 31) - s.range(3, 800),
            2 => cal::days(FIRST, 1, 1) + s.range(0, 3),
            3 => cal::days(FIRST, 1, 1) + s.range(3, 800),
            _ => cal::days(LAST - s.range(0, 300), 2, 28) + s.range(0, 2),
        };
        let t = day * DAY + s.pick(&[0, DAY - 1, DAY / 2, 3600]);
        r.start = match s.usize(3) {
            0 => D::Date(day),
            1 => D::Naive(t),
            _ => {
                // local forms need a day on each side
                let day = day.clamp(cal::days(FIRST, 1, 1) + 2, cal::days(LAST, 12, 31) - 2);
                D::Utc(day * DAY + t.rem_euclid(DAY))
            }
        };
        r.rule.freq = s.pick(&FREQS).to_string();
        r.exdates.clear();
        r.end = match (r.kind, r.start) {
            (Kind::Journal, _) | (_, D::Utc(_)) => None,
            (_, d) if s.chance(1, 2) => Some(d),
            (_, D::Date(d)) => Some(D::Date(
                (d + s.range(-2, 400)).clamp(cal::days(FIRST, 1, 1), cal::days(LAST, 12, 31)),
            )),
            (_, d) => Some(D::Naive(
                (d.secs() + s.range(-DAY, 400 * DAY))
                    .clamp(cal::days(FIRST, 1, 1) * DAY, cal::days(LAST, 12, 31) * DAY),
            )),
        };
    }
    // all the parts of a rule
    if s.chance(1, 3) {
        let x = crate::generate::recur(s, &crate::generate::Opt::built());
        r.rule.by = x.by;
        r.rule.by_day = x.by_day;
        r.rule.wkst = x.wkst;
    }
    if s.chance(1, 10) {
        r.rule.interval = 0;
    }
    if s.chance(1, 10) {
        r.rule.count = Some(0);
    }
    if !extreme && s.chance(1, 3000) {
        // so many exceptions that a step per exception may not take room for good
        cx.label("thousands of exceptions");
        let n = s.pick(&[1500, 4000, 8000]);
        r.rule.count = None;
        r.rule.until = None;
        let step = |k| cal::candidate(r.start, &r.rule.freq, r.rule.interval, k);
        r.exdates = (0..n)
            .filter_map(step)
            .filter(|d| d.day() < cal::days(LAST - 100, 1, 1))
            .collect();
    }
    if r.exdates.len() < 1000 {
        cx.note(format!("{r:?} in {}", cx.zone));
    } else {
        cx.note(format!(
            "{} exceptions; {:?} in {}",
            r.exdates.len(),
            recurring::Rec {
                exdates: Vec::new(),
                ..r.clone()
            },
            cx.zone
        ));
    }
    recurring::label(cx, &r);
    let any = recurring::build(s, &g, &r);
    let n = if s.chance(1, 4000) {
        s.far()
    } else if cx.thorough {
        s.pick(&[60, 400, 3000])
    } else {
        s.pick(&[40, 200, 600])
    };
    let mut it = any.expand();
    let mut drawn = 0;
    let mut last = None;
    for _ in 0..n {
        match it.next() {
            Some(x) => {
                drawn += 1;
                last = Some(x);
            }
            None => break,
        }
    }
    let over = drawn < n;
    cx.nontrivial_if(extreme || over || !cx.is_utc());
    cx.label(if over { "ended" } else { "not ended" });
    if extreme {
        cx.label("extreme start");
    }
    if over {
        for _ in 0..5 {
            if let Some(x) = it.next() {
                return Err(format!(
                    "an occurrence at {:?} after the end of the series",
                    x.start()
                ));
            }
        }
    }
    // what is drawn can be printed, written and expanded
    if let Some(x) = last {
        let _ = format!("{x:?}");
        let _ = x.write();
        let _ = x.expand().next();
    }
    // endless: it does not end before the end of time
    let local = matches!(r.start, D::Utc(_))
        && matches!(r.rule.freq.as_str(), "MONTHLY" | "YEARLY")
        && !cx.is_utc();
    if over && !extreme && r.rule.count.is_none() && r.rule.until.is_none() && !local {
        let (all, _) = recurring::expected(r.start, &r.rule, n + r.exdates.len());
        let more = all
            .into_iter()
            .filter(|d| !r.exdates.contains(d))
            .nth(drawn);
        if let Some(d) = more
            && d.day() < cal::days(LAST - 100, 1, 1)
        {
            return Err(format!(
                "an endless series from {} ends after {drawn} occurrences, before {}",
                r.start.text(),
                d.text()
            ));
        }
    }
    // queries return too, on windows that few steps reach
    if extreme {
        // the day that begins with the series, up to the last one
        let x = recurring::Bound::of(s, r.start);
        let first = any.at(x).next();
        let expected = any.expand().next();
        if first != expected {
            return Err(format!("at {x:?}: {first:?} instead of {expected:?}"));
        }
        let _ = any.at(x).take(100).count();
        let _ = any.between(x, x).take(100).count();
        let _ = any.after(x).take(3).count();
    } else {
        let step = |k| cal::candidate(r.start, &r.rule.freq, r.rule.interval, k).unwrap_or(r.start);
        let k = s.range(0, 30);
        let (a, b) = (step(k), step(k + s.range(0, 3)));
        let (x, y) = (recurring::Bound::of(s, a), recurring::Bound::of(s, b));
        let _ = any.between(x, y).take(100).count();
        let _ = any.after(x).take(3).count();
        if !matches!(r.rule.freq.as_str(), "SECONDLY" | "MINUTELY") {
            let _ = any.at(x).take(100).count();
        }
    }
    Ok(())
}
