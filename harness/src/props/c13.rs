use super::{UTC, ok};
use crate::cal::{self, D, DAY};
use crate::core::{Cx, Def, Exhaustive, Res};
use crate::generate::{self, Opt};
use crate::model::*;
use crate::tape::Src;

pub static DEF: Def = Def {
    id: "C13",
    rule: "every day of the years 0000 to 9999 and every second of a day are enumerated, with the days each month does not have; random dates and date-times of every kind are written and read stand-alone and in properties of every kind of component; texts of dates or times that do not exist are refused. Non-trivial: always. Distinct by text.",
    zones: UTC,
    quick: 900_000,
    thorough: 5_000_000,
    tape: 40,
    run,
    exhaustive: Some(Exhaustive {
        what: "all 3 652 425 days of the years 0000-9999 and the non-existing days 00 and up to 32 of every month (one case per month); all 86 400 seconds of a day (one case per minute); hours, minutes and seconds 00-99 out of range",
        total: |_| 120_000 + 1440 + 100,
        run: enumerate,
    }),
    witnesses: &[],
};

fn read(text: &str) -> Result<D, String> {
    Ok(D::of_date(&ok(
        &format!("the date {text}"),
        text.parse::<ikal::Date>(),
    )?))
}

fn refused(text: &str) -> Res {
    if let Ok(d) = text.parse::<ikal::Date>() {
        return Err(format!("{text} is read as {d:?}"));
    }
    if let Ok(d) = text.parse::<ikal::DateTime>() {
        return Err(format!("{text} is read as {d:?}"));
    }
    Ok(())
}

fn alone(d: D) -> Res {
    let text = d.text();
    let r = read(&text)?;
    if r != d {
        return Err(format!("{text} is read as {r:?} instead of {d:?}"));
    }
    let out = d.to_date().to_string();
    if out != text {
        return Err(format!("{d:?} is printed {out} instead of {text}"));
    }
    let out = ok("a date", ikal::ser::ical(&d.to_date()))?;
    let expected = match d {
        D::Date(_) => format!("VALUE=DATE:{text}"),
        _ => text.clone(),
    };
    if out != expected {
        return Err(format!("{d:?} is written {out} instead of {expected}"));
    }
    if d.has_time() {
        let r = ok(
            &format!("the date-time {text}"),
            text.parse::<ikal::DateTime>(),
        )?;
        if D::of_dt(&r) != d {
            return Err(format!("{text} is read as {r:?} instead of {d:?}"));
        }
        let out = d.to_dt().to_string();
        if out != text {
            return Err(format!("{d:?} is printed {out} instead of {text}"));
        }
        let out = ok("a date-time", ikal::ser::ical(&d.to_dt()))?;
        if out != text {
            return Err(format!("{d:?} is written {out} instead of {text}"));
        }
    }
    Ok(())
}

fn enumerate(i: u64, cx: &mut Cx) -> Res {
    cx.nontrivial();
    let i = i as i64;
    if i < 120_000 {
        let (y, m) = (i / 12, i % 12 + 1);
        cx.note(format!("{y:04}{m:02}01…"));
        for day in 1..=cal::month_len(y, m) {
            cx.step();
            let d = D::Date(cal::days(y, m, day));
            let text = format!("{y:04}{m:02}{day:02}");
            if d.text() != text {
                unreachable!("{text}");
            }
            let r = read(&text)?;
            if r != d {
                return Err(format!("{text} is read as {r:?}"));
            }
            let out = d.to_date().to_string();
            if out != text {
                return Err(format!("{d:?} is printed {out}"));
            }
        }
        for day in [0].into_iter().chain(cal::month_len(y, m) + 1..=32) {
            let text = format!("{y:04}{m:02}{day:02}");
            refused(&text)?;
            if i % 50 == 0 {
                refused(&format!("{text}T000000"))?;
                refused(&format!("{text}T235959Z"))?;
            }
        }
        if m == 1 {
            refused(&format!("{y:04}0001"))?;
            refused(&format!("{y:04}1301"))?;
        }
        let last = D::Naive(cal::days(y, m, cal::month_len(y, m)) * DAY + i % DAY);
        alone(last)?;
        alone(D::Utc(last.secs()))?;
    } else if i < 121_440 {
        let minute = i - 120_000;
        cx.note(format!("every second of minute {minute}"));
        for sec in 0..60 {
            cx.step();
            let t = cal::days(2024, 2, 29) * DAY + minute * 60 + sec;
            alone(D::Naive(t))?;
            alone(D::Utc(t))?;
        }
    } else {
        let n = i - 121_440;
        cx.note(format!("times out of range: {n}"));
        for z in ["", "Z"] {
            if n > 23 {
                refused(&format!("20240229T{n:02}0000{z}"))?;
            }
            if n > 59 {
                refused(&format!("20240229T00{n:02}00{z}"))?;
            }
            if n > 60 {
                refused(&format!("20240229T0000{n:02}{z}"))?;
            }
        }
    }
    Ok(())
}

/// The date in one property of one component: its text, and where it is found.
fn run(s: &mut Src, cx: &mut Cx) -> Res {
    let o = Opt::read();
    let d = generate::date(s, &o);
    cx.note(d.text());
    cx.nontrivial();
    cx.label(d.kind());
    alone(d)?;
    let t = d.text();
    let v = if d.has_time() { "" } else { ";VALUE=DATE" };
    // as a date-time where only these are possible
    let dt = if d.has_time() { d } else { D::Naive(d.secs()) };
    let dtt = dt.text();
    let stamp = format!("UID:1\r\nDTSTAMP:{dtt}\r\n");
    let check = |what: &str, got: Option<D>, d: D| -> Res {
        if got == Some(d) {
            Ok(())
        } else {
            Err(format!("{what}: {} is read as {got:?}", d.text()))
        }
    };
    let rd = |what: &str, got: &[ikal::RDate], n: usize, d: D| -> Res {
        let got = got
            .iter()
            .flat_map(|r| match crate::lift::rdate(r) {
                V::Dates(v) => v,
                _ => vec![],
            })
            .collect::<Vec<_>>();
        if got == vec![d; n] {
            Ok(())
        } else {
            Err(format!("{what}: {} is read as {got:?}", d.text()))
        }
    };
    match s.usize(6) {
        0 => {
            let text = format!(
                "BEGIN:VEVENT\r\n{stamp}DTSTART{v}:{t}\r\nDTEND{v}:{t}\r\nCREATED:{dtt}\r\nLAST-MODIFIED:{dtt}\r\nEXDATE{v}:{t},{t}\r\nRDATE{v}:{t},{t},{t}\r\nRRULE:FREQ=DAILY;UNTIL={t}\r\nEND:VEVENT\r\n"
            );
            let e = ok("an event", text.parse::<ikal::VEvent>())?;
            check("DTSTAMP", Some(D::of_dt(&e.dtstamp)), dt)?;
            check("DTSTART", Some(D::of_date(&e.dtstart)), d)?;
            check("DTEND", e.dtend.as_ref().map(D::of_date), d)?;
            check("CREATED", e.created.as_ref().map(D::of_dt), dt)?;
            check("LAST-MODIFIED", e.last_modified.as_ref().map(D::of_dt), dt)?;
            check("EXDATE", e.exdate.get(1).map(D::of_date), d)?;
            rd("RDATE", &e.rdate, 3, d)?;
            check(
                "UNTIL",
                e.rrule
                    .as_ref()
                    .and_then(|r| r.until.as_ref())
                    .map(D::of_date),
                d,
            )?;
            let out = ok("an event", ikal::ser::ical(&e))?;
            for l in [
                format!("DTSTAMP:{dtt}\r\n"),
                format!("DTSTART{v}:{t}\r\n"),
                format!("DTEND{v}:{t}\r\n"),
                format!("CREATED:{dtt}\r\n"),
                format!("LAST-MODIFIED:{dtt}\r\n"),
            ] {
                if !out.contains(&l) {
                    return Err(format!("{l:?} is not in what is written: {out}"));
                }
            }
        }
        1 => {
            let text = format!(
                "BEGIN:VTODO\r\n{stamp}DTSTART{v}:{t}\r\nDUE{v}:{t}\r\nCOMPLETED:{dtt}\r\nCREATED:{dtt}\r\nEND:VTODO\r\n"
            );
            let e = ok("a to-do", text.parse::<ikal::VTodo>())?;
            check("DTSTART", e.dtstart.as_ref().map(D::of_date), d)?;
            check("DUE", e.due.as_ref().map(D::of_date), d)?;
            check("COMPLETED", e.completed.as_ref().map(D::of_dt), dt)?;
            check("CREATED", e.created.as_ref().map(D::of_dt), dt)?;
            let out = ok("a to-do", ikal::ser::ical(&e))?;
            for l in [format!("DUE{v}:{t}\r\n"), format!("COMPLETED:{dtt}\r\n")] {
                if !out.contains(&l) {
                    return Err(format!("{l:?} is not in what is written: {out}"));
                }
            }
        }
        2 => {
            let text = format!(
                "BEGIN:VJOURNAL\r\n{stamp}DTSTART{v}:{t}\r\nEXDATE{v}:{t}\r\nEND:VJOURNAL\r\n"
            );
            let e = ok("a journal", text.parse::<ikal::VJournal>())?;
            check("DTSTART", Some(D::of_date(&e.dtstart)), d)?;
            check("EXDATE", e.exdate.first().map(D::of_date), d)?;
        }
        3 => {
            let text = format!(
                "BEGIN:VFREEBUSY\r\n{stamp}DTSTART{v}:{t}\r\nDTEND{v}:{t}\r\nFREEBUSY:{dtt}/{dtt},{dtt}/PT1H\r\nEND:VFREEBUSY\r\n"
            );
            let e = ok("a free/busy", text.parse::<ikal::VFreebusy>())?;
            check("DTSTART", e.dtstart.as_ref().map(D::of_date), d)?;
            check("DTEND", e.dtend.as_ref().map(D::of_date), d)?;
            let p = e
                .freebusy
                .iter()
                .map(crate::lift::period)
                .collect::<Vec<_>>();
            if p != [P::End(dt, dt), P::Dur(dt, 3600)] {
                return Err(format!("FREEBUSY: {dtt} is read as {p:?}"));
            }
        }
        4 => {
            let text = format!(
                "BEGIN:VTIMEZONE\r\nTZID:x\r\nLAST-MODIFIED:{dtt}\r\nBEGIN:STANDARD\r\nDTSTART{v}:{t}\r\nTZOFFSETFROM:+0100\r\nTZOFFSETTO:+0200\r\nRDATE{v}:{t}\r\nEND:STANDARD\r\nEND:VTIMEZONE\r\n"
            );
            let e = ok("a time zone", text.parse::<ikal::VTimezone>())?;
            check("LAST-MODIFIED", e.last_modified.as_ref().map(D::of_dt), dt)?;
            let o = e.standard.first().ok_or("no observance")?;
            check("DTSTART", Some(D::of_date(&o.dtstart)), d)?;
            rd("RDATE", &o.rdate, 1, d)?;
        }
        _ => {
            let text = format!(
                "BEGIN:VALARM\r\nACTION:AUDIO\r\nTRIGGER;VALUE=DATE-TIME:{dtt}\r\nEND:VALARM\r\n"
            );
            let e = ok("an alarm", text.parse::<ikal::valarm::Audio>())?;
            match &e.trigger {
                ikal::Trigger::DateTime(x) => check("TRIGGER", Some(D::of_dt(x)), dt)?,
                t => return Err(format!("TRIGGER: {dtt} is read as {t:?}")),
            }
            match dtt.parse::<ikal::Trigger>() {
                Ok(ikal::Trigger::DateTime(x)) => check("a trigger", Some(D::of_dt(&x)), dt)?,
                t => return Err(format!("the trigger {dtt} is read as {t:?}")),
            }
        }
    }
    // one character less, more or other
    let mut cs = t.chars().collect::<Vec<_>>();
    let i = s.usize(cs.len());
    match s.usize(3) {
        0 => drop(cs.remove(i)),
        1 => cs.insert(i, s.pick(&['0', '9', ' ', 'Z', 'T', '-', 'x', 'é'])),
        _ => cs[i] = s.pick(&['0', '9', ' ', 'Z', 'T', '-', 'x', 'é', '3', '6']),
    }
    let near: String = cs.into_iter().collect();
    match D::read(&near) {
        None => {
            // a 60th second is a leap second: either answer will do
            if !(near.len() >= 15 && near[..].get(13..15) == Some("60")) {
                refused(&near)?;
            }
        }
        Some(d) => alone(d)?,
    }
    Ok(())
}
