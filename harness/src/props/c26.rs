use super::{UTC, ok, same, wrap};
use crate::build;
use crate::core::{Cx, Def, Res};
use crate::generate::{self, Opt};
use crate::lift::{Any, ENTRIES};
use crate::model::*;
use crate::reader;
use crate::render::{self, Doc, Line};
use crate::tape::Src;

pub static DEF: Def = Def {
    id: "C26",
    rule: "one to six (rarely hundreds of) alarms of any kinds and content, the action anywhere among the properties, alone, in an event and directly in a calendar: read under the kind of their action with their content and order, by the type of their kind too (refused by the others), written as alarm components, read back equal; built and converted alarms likewise; with the action or a required property taken out, or another action, refused together with what contains them. Non-trivial: two alarms or more, or a damaged one. Distinct by text.",
    zones: UTC,
    quick: 120_000,
    thorough: 4_000_000,
    tape: 1100,
    run,
    exhaustive: None,
    witnesses: &[],
};

fn kind_of(a: &ikal::VAlarm) -> Kind {
    match a {
        ikal::VAlarm::Audio(_) => Kind::Audio,
        ikal::VAlarm::Display(_) => Kind::Display,
        ikal::VAlarm::Email(_) => Kind::Email,
    }
}

/// The list of alarms against their meaning.
fn list(what: &str, expected: &[Comp], got: &[ikal::VAlarm]) -> Res {
    if got.len() != expected.len() {
        return Err(format!(
            "{what}: {} alarms instead of {}",
            got.len(),
            expected.len()
        ));
    }
    for (i, (e, g)) in expected.iter().zip(got).enumerate() {
        if kind_of(g) != e.kind {
            return Err(format!(
                "{what}: alarm {i} is {:?} instead of {:?}",
                kind_of(g),
                e.kind
            ));
        }
        same(
            &format!("{what}: alarm {i}"),
            &e.norm(),
            &Any::Alarm(Box::new(g.clone())).lift(),
        )?;
    }
    Ok(())
}

fn host(kind: Kind, alarms: &str) -> String {
    let event = format!(
        "BEGIN:VEVENT\r\nUID:1\r\nDTSTAMP:20240101T000000Z\r\nDTSTART:20240101T000000Z\r\n{alarms}END:VEVENT\r\n"
    );
    match kind {
        Kind::Calendar => wrap(Kind::Event, alarms),
        _ => event,
    }
}

/// Written, judged, read back.
fn round(what: &str, c: &Comp, any: &Any) -> Res {
    let out = ok(&format!("writing {what}"), any.write())?;
    if !out.starts_with("BEGIN:VALARM\r\n") || !out.ends_with("\r\nEND:VALARM\r\n") {
        return Err(format!("{what} is not written as an alarm: {out}"));
    }
    let strict = reader::read(&out).map_err(|e| format!("malformed output: {e}\n{out}"))?;
    same(&format!("{what}, written"), &c.norm(), &strict)?;
    let back = ok(&format!("{what}, written"), Any::read(c.kind, &out))?;
    same(&format!("{what}, read back"), &c.norm(), &back.lift())?;
    let Any::Alarm(a) = &back else {
        return Err("not an alarm".into());
    };
    if kind_of(a) != c.kind {
        return Err(format!("{what} is read back as {:?}", kind_of(a)));
    }
    Ok(())
}

fn holds(s: &mut Src, cx: &mut Cx, alarms: &[Comp], docs: &[Doc]) -> Res {
    let mut texts = Vec::new();
    for (c, d) in alarms.iter().zip(docs) {
        let text = if s.chance(1, 2) {
            d.plain()
        } else {
            render::fold(s, &d.flat())
        };
        let mut all = Vec::new();
        for e in ENTRIES {
            all.push(ok("an alarm", Any::read_by(c.kind, &text, e))?);
        }
        for any in &all {
            let Any::Alarm(a) = any else {
                return Err("not an alarm".into());
            };
            list(
                "alone",
                std::slice::from_ref(c),
                std::slice::from_ref(a.as_ref()),
            )?;
        }
        round("an alarm", c, &all[0])?;
        for k in ALARMS {
            for e in ENTRIES {
                let r = Any::read_alarm_kind(k, &text, e);
                match (k == c.kind, r) {
                    (true, Ok(a)) => {
                        same("by the type of its kind", &c.norm(), &a.lift())?;
                        round("an alarm by the type of its kind", c, &a)?;
                    }
                    (true, Err(e)) => return Err(format!("refused by the type of its kind: {e}")),
                    (false, Ok(a)) => return Err(format!("{:?} is read as {}", c.kind, a.debug())),
                    (false, Err(_)) => (),
                }
            }
        }
        texts.push(text);
    }
    let all = texts.concat();
    let text = host(Kind::Event, &all);
    let e = ok("an event with alarms", text.parse::<ikal::VEvent>())?;
    list("in an event", alarms, &e.alarms)?;
    let out = ok("an event with alarms", ikal::ser::ical(&e))?;
    let strict = reader::read(&out).map_err(|e| format!("malformed output: {e}\n{out}"))?;
    let norms = alarms.iter().map(Comp::norm).collect::<Vec<_>>();
    let subs = |what: &str, n: &Norm| -> Res {
        let got = n.subs.get("VALARM").map(Vec::as_slice).unwrap_or_default();
        if got.len() != norms.len() {
            return Err(format!(
                "{what}: {} alarms instead of {}",
                got.len(),
                norms.len()
            ));
        }
        norms
            .iter()
            .zip(got)
            .try_for_each(|(e, g)| same(what, e, g))
    };
    subs("written in an event", &strict)?;
    let back = ok("an event with alarms", out.parse::<ikal::VEvent>())?;
    list("in an event, read back", alarms, &back.alarms)?;

    // in a calendar: directly, with events around
    let bare = host(Kind::Event, "");
    let parts = match s.usize(3) {
        0 => all.clone(),
        1 => format!("{bare}{all}{bare}"),
        _ => {
            // events between the alarms
            let mut t = String::new();
            for x in &texts {
                if s.chance(1, 2) {
                    t.push_str(&bare);
                }
                t.push_str(x);
            }
            t
        }
    };
    let text = host(
        Kind::Calendar,
        &format!("{parts}{}", host(Kind::Event, &all)),
    );
    cx.note(&text);
    let c = ok("a calendar with alarms", text.parse::<ikal::VCalendar>())?;
    list("in a calendar", alarms, &c.alarms)?;
    let inner = c.events.last().ok_or("no event")?;
    list("in an event of a calendar", alarms, &inner.alarms)?;
    let out = ok("a calendar with alarms", ikal::ser::ical(&c))?;
    let strict = reader::read(&out).map_err(|e| format!("malformed output: {e}\n{out}"))?;
    subs("written in a calendar", &strict)?;
    let back = ok("a calendar with alarms", out.parse::<ikal::VCalendar>())?;
    list("in a calendar, read back", alarms, &back.alarms)?;
    let inner = back.events.last().ok_or("no event")?;
    list(
        "in an event of a calendar, read back",
        alarms,
        &inner.alarms,
    )?;

    // built, and converted from its kind (the conversion sets the action)
    for c in alarms {
        let a = build::alarm(s, false, c);
        round("a built alarm", c, &Any::Alarm(Box::new(a.clone())))?;
        let mut plain = c.clone();
        for p in &mut plain.props {
            if p.name == "ACTION" {
                p.params.clear();
            }
        }
        let other = ikal::Text::from("OTHER");
        let converted = match a {
            ikal::VAlarm::Audio(mut x) => {
                x.action = other;
                ikal::VAlarm::from(x)
            }
            ikal::VAlarm::Display(mut x) => {
                x.action = other;
                ikal::VAlarm::from(x)
            }
            ikal::VAlarm::Email(mut x) => {
                x.action = other;
                ikal::VAlarm::from(x)
            }
        };
        list(
            "converted",
            std::slice::from_ref(&plain),
            std::slice::from_ref(&converted),
        )?;
        round(
            "a converted alarm",
            &plain,
            &Any::Alarm(Box::new(converted)),
        )?;
    }
    Ok(())
}

fn required(kind: Kind) -> Vec<&'static str> {
    table(kind)
        .iter()
        .filter(|r| r.2 == Mode::Req)
        .map(|r| r.0)
        .collect()
}

fn refused(s: &mut Src, cx: &mut Cx, alarms: &[Comp], docs: &[Doc]) -> Res {
    let i = s.usize(docs.len());
    let kind = alarms[i].kind;
    let mut docs = docs.to_vec();
    let d = &mut docs[i];
    let what;
    if s.chance(1, 2) {
        let name = s.pick(&required(kind));
        what = format!("without {name}");
        d.lines.retain(|l| l.name != name);
        if s.chance(1, 3) {
            // what resembles it is not it
            let text = s.pick(&[
                format!("X-{name}:AUDIO"),
                format!("{name}S:AUDIO"),
                format!("X{name}:-PT5M"),
            ]);
            let at = s.usize(d.lines.len() + 1);
            d.lines.insert(
                at,
                Line {
                    name: String::new(),
                    ty: None,
                    text,
                },
            );
        }
    } else {
        let other = match s.usize(3) {
            // another kind that requires more
            0 if kind == Kind::Audio => "DISPLAY".to_string(),
            0 if kind == Kind::Display => "EMAIL".to_string(),
            1 => {
                let mut t = generate::action(kind).to_string();
                match s.usize(4) {
                    0 => t.insert(s.usize(t.len() + 1), s.pick(&['X', ' ', '-', '1', 'O'])),
                    1 => drop(t.remove(s.usize(t.len()))),
                    2 => t.insert_str(0, "X-"),
                    _ => t.push_str(",EMAIL"),
                }
                t
            }
            _ => s
                .pick(&[
                    "",
                    "PROCEDURE",
                    "NONE",
                    "URI",
                    "X-FOO",
                    "SOUND",
                    "AUDIO;EMAIL",
                    "AUDIO DISPLAY",
                ])
                .to_string(),
        };
        what = format!("ACTION:{other}");
        for l in &mut d.lines {
            if l.name == "ACTION" {
                l.text = format!("ACTION:{other}");
            }
        }
    }
    cx.label(if what.starts_with('w') {
        "required taken out"
    } else {
        "other action"
    });
    let text = d.plain();
    cx.note(format!("{what}\n{text}"));
    for e in ENTRIES {
        if let Ok(a) = Any::read_by(kind, &text, e) {
            return Err(format!("an alarm {what} is read as {}", a.debug()));
        }
        for k in ALARMS {
            if let Ok(a) = Any::read_alarm_kind(k, &text, e) {
                return Err(format!("an alarm {what} is read as {}", a.debug()));
            }
        }
    }
    let all = docs.iter().map(Doc::plain).collect::<String>();
    let event = host(Kind::Event, &all);
    if let Ok(a) = event.parse::<ikal::VEvent>() {
        return Err(format!("an event with an alarm {what} is read as {a:#?}"));
    }
    for text in [
        host(Kind::Calendar, &all),
        host(Kind::Calendar, &event),
        host(Kind::Calendar, &format!("{event}{}", host(Kind::Event, ""))),
    ] {
        if let Ok(a) = text.parse::<ikal::VCalendar>() {
            return Err(format!("a calendar with an alarm {what} is read as {a:#?}"));
        }
    }
    Ok(())
}

fn run(s: &mut Src, cx: &mut Cx) -> Res {
    let o = Opt {
        density: s.pick(&[25, 60, 90]),
        ..Opt::read()
    };
    let n = 1 + s.count(5);
    let alarms = (0..n)
        .map(|_| {
            let k = s.pick(&ALARMS);
            generate::comp(s, &o, k)
        })
        .collect::<Vec<_>>();
    let docs = alarms
        .iter()
        .map(|c| render::doc(s, &o, c))
        .collect::<Vec<_>>();
    for c in &alarms {
        cx.label(format!("kind={:?}", c.kind));
    }
    cx.nontrivial_if(n > 1);
    if s.chance(1, 3) {
        cx.nontrivial();
        refused(s, cx, &alarms, &docs)
    } else {
        cx.label("well-formed");
        holds(s, cx, &alarms, &docs)
    }
}
