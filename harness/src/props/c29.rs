use super::recurring::{self, Gen};
use super::{ZONES, c27};
use crate::build;
use crate::cal::{self, D, DAY};
use crate::core::{Cx, Def, Res};
use crate::tape::Src;
use std::cmp::Ordering;

pub static DEF: Def = Def {
    id: "C29",
    rule: "a rule with any parts and a start of any kind (month ends and leap days favoured): one to forty steps of `rule + date` in each of its five forms (date, date-time, and chrono's three types) against the reference steps (the local wall clock's for instants and rules by the month or year in a zone other than UTC: half of those starts lead next to a change of offset), against one another and against the expansion of a component with the rule, its end included. Non-trivial: always. Distinct by rule and start.",
    zones: ZONES,
    quick: 1_200_000,
    thorough: 6_000_000,
    tape: 300,
    run,
    exhaustive: None,
    witnesses: &[],
};

/// A start one of whose first steps leads next to a change of offset of the local zone.
fn near_change(s: &mut Src, freq: &str, interval: i64) -> D {
    let all = c27::changes();
    let at = s.pick(all);
    let wall = at + c27::offset(at) + s.range(-120, 120) * 60 + s.pick(&[0, 0, 1, -1, 30]);
    let months = s.range(1, 3) * interval * if freq == "YEARLY" { 12 } else { 1 };
    let (y, m, d) = cal::civil(wall.div_euclid(DAY));
    let m = y * 12 + m - 1 - months;
    let (y, m) = (m.div_euclid(12), m.rem_euclid(12) + 1);
    let day = cal::days(y.max(1), m, d.min(cal::month_len(y.max(1), m)));
    let wall = day * DAY + wall.rem_euclid(DAY);
    D::Utc(match recurring::instants(wall).as_slice() {
        [] => wall,
        v => s.pick(v),
    })
}

fn run(s: &mut Src, cx: &mut Cx) -> Res {
    let g = Gen {
        utc: true,
        utc_monthly: true,
        exdates: false,
        content: false,
        interval_zero: true,
        other_end: false,
    };
    let mut r = recurring::rec(s, &g);
    // bounds and other parts have no influence on a step
    let bounds = s.chance(1, 2);
    if !bounds {
        r.rule.count = None;
        r.rule.until = None;
    }
    if s.chance(1, 4) {
        let x = crate::generate::recur(s, &crate::generate::Opt::built());
        r.rule.by = x.by;
        r.rule.by_day = x.by_day;
        r.rule.wkst = x.wkst;
    }
    // elsewhere than in UTC, months and years are those of the local wall clock
    let mut local = matches!(r.start, D::Utc(_))
        && matches!(r.rule.freq.as_str(), "MONTHLY" | "YEARLY")
        && !cx.is_utc();
    if local && s.chance(1, 2) || !cx.is_utc() && s.chance(1, 40) {
        if !local {
            r.rule.freq = s.pick(&["MONTHLY", "YEARLY"]).into();
            local = true;
        }
        r.start = near_change(s, &r.rule.freq, r.rule.interval.max(1));
    }
    let rule = build::recur(&r.rule);
    let n = s.pick(&[3, 8, 1, 40]);
    cx.note(format!(
        "{} + {:?}, {n} steps, in {}",
        r.start.text(),
        r.rule,
        cx.zone
    ));
    recurring::label(cx, &r);
    cx.nontrivial();
    let mut endless = r.rule.clone();
    endless.count = None;
    endless.until = None;
    let (expected, _) = recurring::expected(r.start, &endless, n + 1);
    let limit = cal::days(262_000, 1, 1);
    let mut here = r.start.to_date();
    for k in 1..=n {
        if !local && expected.get(k).is_none_or(|d| d.day() > limit)
            || D::of_date(&here).day() > limit
        {
            break;
        }
        cx.step();
        let next = rule.clone() + here;
        let d = D::of_date(&next);
        if !local && d != expected[k] {
            return Err(format!(
                "step {k} from {here:?} is {next:?} instead of {:?}",
                expected[k]
            ));
        }
        if local && let ikal::Date::DateTime(ikal::DateTime::Local(at)) = here {
            let wall = D::of_naive_dt(&at.naive_local());
            let may = recurring::local_next(wall, &r.rule.freq, r.rule.interval.max(1));
            let ok = matches!(d, D::Utc(x) if may
                .iter()
                .any(|(y, near)| if *near { (x - y).abs() <= 3 * 3600 } else { x == *y }));
            if !may.is_empty() && !ok {
                return Err(format!(
                    "step {k} from {here:?} is {next:?}, not the same time of day on the local clock: {may:?}"
                ));
            }
            if may.iter().filter(|x| !x.1).count() > 1 {
                cx.label("step to an ambiguous local time");
            }
            if may.iter().any(|x| x.1) {
                cx.label("step to a skipped local time");
            }
        }
        if next <= here
            && !(next.date_naive() == here.date_naive() && next.has_time() != here.has_time())
        {
            return Err(format!("step {k} from {here:?} goes to {next:?}"));
        }
        // the other forms
        match here {
            ikal::Date::Date(date) => {
                if !matches!(r.rule.freq.as_str(), "HOURLY" | "MINUTELY" | "SECONDLY") {
                    let x: chrono::NaiveDate = rule.clone() + date;
                    if ikal::Date::Date(x) != next {
                        return Err(format!(
                            "{date} + rule is {x}, as a date of the library it is {next:?}"
                        ));
                    }
                }
            }
            ikal::Date::DateTime(dt) => {
                let x: ikal::DateTime = rule.clone() + dt;
                if ikal::Date::DateTime(x) != next {
                    return Err(format!("{dt:?} + rule is {x:?}, as a date it is {next:?}"));
                }
                let y = match dt {
                    ikal::DateTime::Naive(t) => ikal::DateTime::Naive(rule.clone() + t),
                    ikal::DateTime::Local(t) => ikal::DateTime::Local(rule.clone() + t),
                };
                if y != x {
                    return Err(format!(
                        "{dt:?} + rule is {y:?} with chrono's type, {x:?} with the library's"
                    ));
                }
            }
        }
        here = next;
    }
    // the expansion takes the same steps
    let any = recurring::build(s, &g, &r);
    let take = n.min(if local { 40 } else { 8 });
    let mut here = r.start.to_date();
    let mut items = any.expand();
    for k in 0..take {
        let ends = r.rule.count.is_some_and(|c| k as i64 >= c)
            || r.rule
                .until
                .is_some_and(|u| recurring::cmp(D::of_date(&here), u) == Ordering::Greater);
        let far = D::of_date(&here).day() > limit;
        match items.next() {
            None if ends || far => break,
            None => return Err(format!("the expansion ends before {here:?}")),
            Some(_) if ends => return Err(format!("the expansion goes on at {here:?}")),
            Some(x) => {
                if x.start() != Some(D::of_date(&here)) {
                    return Err(format!(
                        "the expansion goes to {:?}, the rule to {here:?}",
                        x.start()
                    ));
                }
            }
        }
        if far {
            break;
        }
        here = rule.clone() + here;
    }
    Ok(())
}
