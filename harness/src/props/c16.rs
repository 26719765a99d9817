use super::{ZONES, ok, ordered};
use crate::cal::{self, D, DAY};
use crate::core::{Cx, Def, Res};
use crate::lift;
use crate::model::*;
use crate::reader;
use crate::render;
use crate::tape::Src;

pub static DEF: Def = Def {
    id: "C16",
    rule: "one to eight periods by start and end or start and duration (one in 16 backwards), in comma-separated lists over one to four FREEBUSY and RDATE lines; parts, count, order and lengths are checked, and what is written back; both spellings of each period report the same length and all compare by it, in eight local zones with starts and ends around daylight-saving changes. Non-trivial: two periods or more. Distinct by text.",
    zones: ZONES,
    quick: 840_000,
    thorough: 5_000_000,
    tape: 120,
    run,
    exhaustive: None,
    witnesses: &[],
};

fn period(s: &mut Src) -> P {
    let start = match s.weighted(&[2, 1, 1, 1]) {
        3 => super::c27::instant(s).max(cal::days(1, 1, 1) * DAY),
        0 => cal::days(2024, 1, 1) * DAY + s.range(0, 366 * 24) * 3600 + s.pick(&[0, 0, 1800, 59]),
        1 => s.range(cal::days(1, 1, 1), cal::days(9990, 1, 1)) * DAY + s.range(0, DAY - 1),
        _ => cal::days(2000, 1, 1) * DAY + s.range(0, 20 * 366 * DAY),
    };
    let mut len = match s.usize(4) {
        0 => s.range(0, 48) * 1800,
        1 => s.range(0, 400) * DAY,
        2 => s.range(0, 1_000_000),
        _ => 0,
    };
    // backwards: the length is what is stated all the same
    if s.chance(1, 16) && start > cal::days(5, 1, 1) * DAY {
        len = -len;
    }
    let utc = s.chance(1, 2);
    let d = |t| if utc { D::Utc(t) } else { D::Naive(t) };
    if s.chance(1, 2) {
        P::End(d(start), d(start + len))
    } else {
        P::Dur(d(start), len)
    }
}

fn length(p: &P) -> i64 {
    match p {
        P::End(a, b) => b.secs() - a.secs(),
        P::Dur(_, n) => *n,
    }
}

fn other(p: &P) -> P {
    match p {
        P::End(a, b) => P::Dur(*a, b.secs() - a.secs()),
        P::Dur(a @ D::Utc(t), n) => P::End(*a, D::Utc(t + n)),
        P::Dur(a, n) => P::End(*a, D::Naive(a.secs() + n)),
    }
}

fn utc(p: &P) -> bool {
    matches!(p, P::End(D::Utc(_), _) | P::Dur(D::Utc(_), _))
}

fn check(what: &str, expected: &[P], got: &[ikal::Period]) -> Res {
    let lifted = got.iter().map(lift::period).collect::<Vec<_>>();
    if lifted != expected {
        return Err(format!(
            "{what}: read as {lifted:?} instead of {expected:?}"
        ));
    }
    for (p, g) in expected.iter().zip(got) {
        let n = g.duration();
        if n != chrono::TimeDelta::seconds(length(p)) {
            return Err(format!(
                "{what}: the length of {p:?} is {} s, reported {n}",
                length(p)
            ));
        }
    }
    Ok(())
}

fn run(s: &mut Src, cx: &mut Cx) -> Res {
    let n = 1 + s.count(7);
    let periods = (0..n).map(|_| period(s)).collect::<Vec<_>>();
    cx.nontrivial_if(n >= 2);
    cx.label(format!("{n} periods"));
    // lists over lines
    let mut lines: Vec<Vec<P>> = vec![vec![]];
    for p in &periods {
        if !lines.last().is_some_and(Vec::is_empty) && s.chance(1, 3) {
            lines.push(vec![]);
        }
        if let Some(l) = lines.last_mut() {
            l.push(p.clone());
        }
    }
    let mut body = String::new();
    let mut dates = String::new();
    for l in &lines {
        let t = l
            .iter()
            .map(|p| render::period_text(s, p))
            .collect::<Vec<_>>()
            .join(",");
        let param = s.pick(&["", ";FBTYPE=BUSY-UNAVAILABLE", ";X-P=\"a:b,c\""]);
        body.push_str(&format!("FREEBUSY{param}:{t}\r\n"));
        dates.push_str(&format!("RDATE;VALUE=PERIOD:{t}\r\n"));
    }
    let text =
        format!("BEGIN:VFREEBUSY\r\nUID:1\r\nDTSTAMP:20240101T000000\r\n{body}END:VFREEBUSY\r\n");
    cx.note(&text);
    let f = ok("a free/busy", text.parse::<ikal::VFreebusy>())?;
    check("FREEBUSY", &periods, &f.freebusy)?;
    let text = format!(
        "BEGIN:VEVENT\r\nUID:1\r\nDTSTAMP:20240101T000000\r\nDTSTART:20240101T000000\r\n{dates}END:VEVENT\r\n"
    );
    let e = ok("an event", text.parse::<ikal::VEvent>())?;
    let got = e
        .rdate
        .iter()
        .flat_map(|r| match r {
            ikal::RDate::Period(p) => p.clone(),
            ikal::RDate::Date(_) => vec![],
        })
        .collect::<Vec<_>>();
    check("RDATE", &periods, &got)?;

    // the other spelling has the same length
    let others = periods.iter().map(other).collect::<Vec<_>>();
    let t = others
        .iter()
        .map(|p| render::period_text(s, p))
        .collect::<Vec<_>>()
        .join(",");
    let text = format!(
        "BEGIN:VFREEBUSY\r\nUID:1\r\nDTSTAMP:20240101T000000\r\nFREEBUSY:{t}\r\nEND:VFREEBUSY\r\n"
    );
    let f2 = ok("a free/busy", text.parse::<ikal::VFreebusy>())?;
    check("FREEBUSY", &others, &f2.freebusy)?;
    for (a, b) in f.freebusy.iter().zip(&f2.freebusy) {
        if a.duration() != b.duration() {
            return Err(format!(
                "{a:?} lasts {}, {b:?} lasts {}",
                a.duration(),
                b.duration()
            ));
        }
    }

    // periods compare by their length
    let all = f
        .freebusy
        .iter()
        .zip(&periods)
        .chain(f2.freebusy.iter().zip(&others))
        .collect::<Vec<_>>();
    for (a, pa) in &all {
        for (b, pb) in &all {
            let n = length(pa).cmp(&length(pb));
            ordered(*a, *b, n)?;
            match (a, b) {
                (ikal::Period::StartEnd(a), ikal::Period::StartEnd(b)) => ordered(a, b, n)?,
                (ikal::Period::StartDur(a), ikal::Period::StartDur(b)) => ordered(a, b, n)?,
                _ => (),
            }
        }
    }

    // stand-alone: elsewhere than in UTC, the known finding of C27 concerns UTC date-times
    for p in &periods {
        if utc(p) && !cx.is_utc() {
            continue;
        }
        let t = render::period_text(s, p);
        let x = ok("a period", t.parse::<ikal::Period>())?;
        check(&t, std::slice::from_ref(p), std::slice::from_ref(&x))?;
        let out = x.to_string();
        if reader::period(&out).as_ref() != Ok(p) {
            return Err(format!("{p:?} is printed {out}"));
        }
        let out = ok("a period", ikal::ser::ical(&x))?;
        if reader::period(&out).as_ref() != Ok(p) {
            return Err(format!("{p:?} is written {out}"));
        }
    }
    // written back
    if cx.is_utc() || !periods.iter().any(utc) {
        let out = ok("a free/busy", ikal::ser::ical(&f))?;
        let n = reader::read(&out).map_err(|e| format!("{e}\n{out}"))?;
        let got = n
            .props
            .get("FREEBUSY")
            .into_iter()
            .flatten()
            .map(|x| x.1.clone())
            .collect::<Vec<_>>();
        let expected = periods
            .iter()
            .map(|p| V::Period(p.clone()))
            .collect::<Vec<_>>();
        if got != expected {
            return Err(format!("FREEBUSY: written {got:?} instead of {expected:?}"));
        }
        let back = ok("a free/busy", out.parse::<ikal::VFreebusy>())?;
        check("FREEBUSY written and read back", &periods, &back.freebusy)?;
        let out = ok("an event", ikal::ser::ical(&e))?;
        let back = ok("an event", out.parse::<ikal::VEvent>())?;
        if back.rdate != e.rdate {
            return Err(format!(
                "RDATE: {:?} is written and read back as {:?}",
                e.rdate, back.rdate
            ));
        }
        let n = reader::read(&out).map_err(|e| format!("{e}\n{out}"))?;
        let got = n
            .props
            .get("RDATE")
            .into_iter()
            .flatten()
            .flat_map(|x| match &x.1 {
                V::Periods(p) => p.clone(),
                _ => vec![],
            })
            .collect::<Vec<_>>();
        if got != periods {
            return Err(format!("RDATE: written {got:?} instead of {periods:?}"));
        }
    }
    Ok(())
}
