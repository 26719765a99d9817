use super::{UTC, damage, ok};
use crate::build;
use crate::core::{Cx, Def, Res, Witness};
use crate::generate::{self, Opt};
use crate::lift;
use crate::model::*;
use crate::reader;
use crate::render;
use crate::tape::Src;

pub static DEF: Def = Def {
    id: "C18",
    rule: "a rule with any of its parts, in any order, with signed numbers and lists, read stand-alone, converted and in a property; a rule built field by field, written, judged by the strict reader and read back; rules without a frequency or with an unreadable part are refused. Non-trivial: three parts or more. Distinct by text.",
    zones: UTC,
    quick: 1_500_000,
    thorough: 9_000_000,
    tape: 160,
    run,
    exhaustive: None,
    witnesses: &[Witness {
        key: "wide-numbers",
        run: wide,
    }],
};

/// RFC 5545 allows these numbers.
fn wide(cx: &mut Cx) -> Res {
    for t in [
        "FREQ=DAILY;COUNT=300",
        "FREQ=DAILY;INTERVAL=256",
        "FREQ=YEARLY;BYYEARDAY=200",
        "FREQ=YEARLY;BYSETPOS=-366;BYDAY=MO",
    ] {
        cx.note(t);
        ok(&format!("the rule {t}"), t.parse::<ikal::Recur>())?;
    }
    Ok(())
}

fn event(rule: &str) -> String {
    format!(
        "BEGIN:VEVENT\r\nUID:1\r\nDTSTAMP:20240101T000000\r\nDTSTART:20240101T000000\r\nRRULE:{rule}\r\nSEQUENCE:1\r\nEND:VEVENT\r\n"
    )
}

fn refused(text: &str) -> Res {
    if let Ok(r) = text.parse::<ikal::Recur>() {
        return Err(format!("the rule {text} is read as {r:?}"));
    }
    if let Ok(e) = event(text).parse::<ikal::VEvent>() {
        return Err(format!("RRULE:{text} is read as {:?}", e.rrule));
    }
    Ok(())
}

fn run(s: &mut Src, cx: &mut Cx) -> Res {
    let mut r = generate::recur(s, &Opt::read());
    if s.chance(1, 4) {
        // more parts
        let x = generate::recur(s, &Opt::read());
        r.by.extend(x.by);
        if r.by_day.is_empty() {
            r.by_day = x.by_day;
        }
    }
    let text = render::recur_text(s, &r);
    cx.note(&text);
    let parts = text.split(';').count();
    cx.label(format!("{} parts", parts.min(8)));
    cx.nontrivial_if(parts >= 3);
    let read = |what: &str,
                got: Result<ikal::Recur, ikal::Error>,
                text: &str,
                r: &R|
     -> Result<ikal::Recur, String> {
        let got = ok(&format!("{what} {text}"), got)?;
        let l = lift::recur(&got);
        if l == *r {
            Ok(got)
        } else {
            Err(format!("{what} {text} is read as {l:?} instead of {r:?}"))
        }
    };
    let value = read("the rule", text.parse(), &text, &r)?;
    read("the rule", ikal::Recur::try_from(text.as_str()), &text, &r)?;
    read("the rule", ikal::Recur::try_from(text.clone()), &text, &r)?;
    let e = ok(
        &format!("an event with RRULE:{text}"),
        event(&text).parse::<ikal::VEvent>(),
    )?;
    match &e.rrule {
        Some(x) if *x == value => (),
        x => {
            return Err(format!(
                "RRULE:{text} is read as {x:?} instead of {value:?}"
            ));
        }
    }

    // written: exactly its parts
    let mut b = generate::recur(s, &Opt::built());
    if s.chance(1, 3) {
        b = r.clone();
    }
    let built = build::recur(&b);
    let out = ok("writing", ikal::ser::ical(&built))?;
    cx.note(&out);
    match reader::recur(&out) {
        Ok(x) if x == b => (),
        x => return Err(format!("{b:?} is written {out}, which means {x:?}")),
    }
    let back = read("the rule", out.parse(), &out, &b)?;
    if back != built {
        return Err(format!("{built:?} is written {out} and read back {back:?}"));
    }
    let mut ev = ikal::VEvent::default();
    ev.rrule = Some(built);
    let text2 = ok("an event", ikal::ser::ical(&ev))?;
    let back = ok("an event", text2.parse::<ikal::VEvent>())?;
    if back.rrule != ev.rrule {
        return Err(format!(
            "{:?} is written {text2} and read back {:?}",
            ev.rrule, back.rrule
        ));
    }

    // refusals
    let mut parts = text.split(';').map(str::to_string).collect::<Vec<_>>();
    let i = s.usize(parts.len());
    let bad = match s.usize(5) {
        0 => {
            parts.retain(|p| !p.starts_with("FREQ="));
            if parts.is_empty() {
                return Ok(());
            }
            parts.join(";")
        }
        1 => s.pick(damage::bad_values(Ty::Recur)).to_string(),
        2 => {
            let bad = s.pick(&["x", " ", "!", "1.5", "MOO", ",", "-", "é"]);
            parts[i].push_str(bad);
            parts.join(";")
        }
        3 => {
            // the value of a part is emptied
            let k = parts[i].split('=').next().unwrap_or_default().to_string();
            parts[i] = format!("{k}=");
            parts.join(";")
        }
        _ => {
            let bad = s.pick(&[
                "BYDAY=XX",
                "BYDAY=MO,",
                "WKST=XX",
                "COUNT=x",
                "INTERVAL=-1",
                "UNTIL=20240230",
                "BYMONTH=x",
                "BYHOUR=1;;",
                "BYSECOND=1,,2",
                "BYSETPOS=-",
                "BYWEEKNO=1 2",
                "COUNT=-5",
                "UNTIL=20240101T250000Z",
                "BYDAY=1",
                "BYDAY=M",
                "BYMINUTE=0x1",
                "UNTIL=",
            ]);
            let k = bad.split('=').next().unwrap_or_default();
            parts.retain(|p| p.split('=').next() != Some(k));
            parts.insert(i.min(parts.len()), bad.to_string());
            parts.join(";")
        }
    };
    cx.label("refusal");
    refused(&bad)
}
