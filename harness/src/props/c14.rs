use super::{ZONES, ordered};
use crate::cal::{self, D, DAY};
use crate::core::{Cx, Def, Res};
use crate::generate::{self, Opt};
use crate::tape::Src;
use std::cmp::Ordering;

pub static DEF: Def = Def {
    id: "C14",
    rule: "two or three dates or date-times, close to one another or to daylight-saving changes of the local zone or anywhere in years 0000 to 9999, and a duration: comparisons, differences, sums and conversions against the harness's own arithmetic, in eight local zones; the order by cmp, operators, max, min, clamp and sort. Non-trivial: two values of different kinds, or closer than two days. Distinct by values.",
    zones: ZONES,
    quick: 6_000_000,
    thorough: 12_000_000,
    tape: 36,
    run,
    exhaustive: None,
    witnesses: &[],
};

fn cmp(what: &str, a: &ikal::Date, b: &ikal::Date, expected: Ordering) -> Res {
    let c = a.cmp(b);
    if c != expected {
        return Err(format!(
            "{what}: {a:?} compares {c:?} to {b:?}, expected {expected:?}"
        ));
    }
    Ok(())
}

/// Seconds of the wall clock.
fn wall(d: D) -> i64 {
    match d {
        D::Utc(_) => D::of_naive_dt(&d.local().naive_local()),
        d => d.secs(),
    }
}

fn run(s: &mut Src, cx: &mut Cx) -> Res {
    let o = Opt::read();
    let base = match s.weighted(&[2, 2, 1]) {
        0 => cal::days(2024, 1, 1) * DAY + s.range(0, 366 * DAY),
        1 => generate::day(s) * DAY + generate::secs_of_day(s),
        _ => super::c27::instant(s),
    };
    let one = |s: &mut Src| -> D {
        let t = match s.weighted(&[3, 2, 2, 2]) {
            0 => base,
            1 => base + s.range(-3 * 3600, 3 * 3600),
            2 => base + s.range(-3, 3) * DAY,
            _ => return generate::date(s, &o),
        };
        let t = t.clamp(cal::days(0, 1, 2) * DAY, cal::days(9999, 12, 30) * DAY);
        match s.usize(3) {
            0 => D::Date(t.div_euclid(DAY)),
            1 => D::Naive(t),
            _ => D::Utc(t),
        }
    };
    let (a, b, c) = (one(s), one(s), one(s));
    cx.note(format!("{a:?} {b:?} {c:?} {}", cx.zone));
    cx.label(format!("{}-{}", a.kind(), b.kind()));
    cx.nontrivial_if(a.kind() != b.kind() || (a.secs() - b.secs()).abs() < 2 * DAY);
    let (x, y, z) = (a.to_date(), b.to_date(), c.to_date());

    // the order
    match (a, b) {
        (D::Date(m), D::Date(n)) => cmp("dates", &x, &y, m.cmp(&n))?,
        (D::Naive(m), D::Naive(n)) => cmp("date-times", &x, &y, m.cmp(&n))?,
        (D::Utc(m), D::Utc(n)) => cmp("UTC date-times", &x, &y, m.cmp(&n))?,
        (D::Date(m), d) | (d, D::Date(m)) => {
            let e = m.cmp(&wall(d).div_euclid(DAY));
            let e = if let D::Date(_) = a { e } else { e.reverse() };
            cmp("a date and a date-time", &x, &y, e)?;
        }
        _ => (),
    }
    if x.cmp(&y) != y.cmp(&x).reverse() {
        return Err(format!(
            "{x:?} {:?} {y:?}, but {y:?} {:?} {x:?}",
            x.cmp(&y),
            y.cmp(&x)
        ));
    }
    ordered(&x, &y, x.cmp(&y))?;
    if x.cmp(&x) != Ordering::Equal || x != a.to_date() {
        return Err(format!("{x:?} is not equal to itself"));
    }
    if a.kind() == b.kind() {
        if (x == y) != (x.cmp(&y) == Ordering::Equal) || (x == y) != (a == b) {
            return Err(format!("equality of {x:?} and {y:?}"));
        }
        if b.kind() == c.kind() && x <= y && y <= z && x > z {
            return Err(format!("{x:?} <= {y:?} <= {z:?} but not {x:?} <= {z:?}"));
        }
    }

    // date-times
    let (p, q) = (a.to_dt(), b.to_dt());
    let (ad, bd) = (D::of_dt(&p), D::of_dt(&q));
    if a.has_time() && b.has_time() {
        if p.cmp(&q) != x.cmp(&y)
            || p.cmp(&q) != q.cmp(&p).reverse()
            || p.partial_cmp(&q) != Some(p.cmp(&q))
        {
            return Err(format!(
                "date-times {p:?} and {q:?} do not compare as their dates do"
            ));
        }
    }
    if ad.kind() == bd.kind() {
        let d = (p - q).num_seconds();
        let e = ad.secs() - bd.secs();
        if d != e {
            return Err(format!("{p:?} - {q:?} is {d} s instead of {e} s"));
        }
    } else {
        let d = (p - q).num_seconds();
        if d != -(q - p).num_seconds() {
            return Err(format!(
                "{p:?} - {q:?} is not the opposite of {q:?} - {p:?}"
            ));
        }
    }

    ordered(&p, &q, p.cmp(&q))?;

    // adding
    let n = match s.usize(4) {
        0 => s.range(-200_000, 200_000),
        1 => s.range(-400, 400) * DAY,
        2 => s.range(-600_000_000_000, 600_000_000_000),
        _ => s.range(-1_000_000_000, 1_000_000_000),
    };
    let sum = p + chrono::TimeDelta::seconds(n);
    if (sum - p).num_seconds() != n {
        return Err(format!(
            "{p:?} + {n} s - {p:?} is {} s",
            (sum - p).num_seconds()
        ));
    }
    if D::of_dt(&sum).kind() != ad.kind() || D::of_dt(&sum).secs() != ad.secs() + n {
        return Err(format!("{p:?} + {n} s is {sum:?}"));
    }
    let minus = p - chrono::TimeDelta::seconds(n);
    if D::of_naive_dt(&minus) != wall(ad) - n {
        return Err(format!("{p:?} - {n} s is {minus:?}"));
    }
    let sum = x + chrono::TimeDelta::seconds(n);
    let expected = match a {
        // whole days: what is less than a day is dropped
        D::Date(d) => D::Date(d + n / DAY),
        D::Naive(t) => D::Naive(t + n),
        D::Utc(t) => D::Utc(t + n),
    };
    if n % DAY == 0 || a.has_time() {
        if D::of_date(&sum) != expected {
            return Err(format!("{x:?} + {n} s is {sum:?} instead of {expected:?}"));
        }
    }

    // conversions
    let w = wall(a);
    let day = D::Date(w.div_euclid(DAY)).naive_date();
    let time = D::Naive(w).naive_dt();
    if x.date_naive() != day || chrono::NaiveDate::from(x) != day {
        return Err(format!(
            "the day of {x:?} is {} or {}",
            x.date_naive(),
            chrono::NaiveDate::from(x)
        ));
    }
    if x.has_time() != a.has_time() {
        return Err(format!("has_time of {x:?}"));
    }
    let dt = ikal::DateTime::from(x);
    if D::of_dt(&dt) != D::of_dt(&p) {
        return Err(format!("{x:?} as a date-time is {dt:?}"));
    }
    if dt.date_naive() != day || dt.naive() != time || chrono::NaiveDateTime::from(dt) != time {
        return Err(format!(
            "{dt:?}: day {}, naive {}",
            dt.date_naive(),
            dt.naive()
        ));
    }
    let back = ikal::Date::from(dt);
    if a.has_time() && back != x {
        return Err(format!("{x:?} as a date-time and back is {back:?}"));
    }
    if ikal::Date::from(day) != ikal::Date::Date(day)
        || D::of_date(&ikal::Date::from(time)) != D::Naive(w)
    {
        return Err(format!("from {day} or {time}"));
    }
    if D::of_dt(&ikal::DateTime::from(time)) != D::Naive(w) {
        return Err(format!("from {time}"));
    }
    match (dt, chrono::DateTime::<chrono::Local>::try_from(dt)) {
        (ikal::DateTime::Local(l), Ok(r)) if l == r => (),
        (ikal::DateTime::Naive(n), Ok(r)) if r.naive_local() == n => (),
        (ikal::DateTime::Naive(n), Err(_))
            if n.and_local_timezone(chrono::Local) == chrono::LocalResult::None =>
        {
            cx.label("a local time that does not exist");
        }
        (d, r) => return Err(format!("{d:?} as a local date-time is {r:?}")),
    }
    if let D::Utc(_) = a {
        let l = a.local();
        if D::of_date(&ikal::Date::from(l)) != a || D::of_dt(&ikal::DateTime::from(l)) != a {
            return Err(format!("from {l}"));
        }
    }
    if x.format("%Y%m%d").to_string() != day.format("%Y%m%d").to_string()
        || dt.format("%H%M%S").to_string() != time.format("%H%M%S").to_string()
    {
        return Err(format!(
            "{x:?} is formatted {} {}",
            x.format("%Y%m%d"),
            dt.format("%H%M%S")
        ));
    }
    Ok(())
}
