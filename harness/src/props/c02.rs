use super::{ZONES, describe, document, ok, same};
use crate::core::{Cx, Def, Res, Witness};
use crate::generate::Opt;
use crate::lift::{Any, ENTRIES};
use crate::render;
use crate::tape::Src;

pub static DEF: Def = Def {
    id: "C02",
    rule: "a component generated by meaning (every kind, every property of the tables, nested components, extension properties, parameters) and rendered in one of its spellings (order of lines, list splitting, escapes, number and duration forms, folding); what is read must mean what was generated. Non-trivial: at least four properties. Distinct by text.",
    zones: ZONES,
    quick: 760_000,
    thorough: 6_000_000,
    tape: 2500,
    run,
    exhaustive: None,
    witnesses: &[Witness {
        key: "recurrence-id",
        run: recurrence_id,
    }],
};

fn run(s: &mut Src, cx: &mut Cx) -> Res {
    let density = s.pick(&[25, 8, 60, 95]);
    let o = Opt {
        density,
        long: true,
        ..Opt::read()
    };
    let (c, d) = document(s, &o, false);
    let text = render::fold(s, &d.flat());
    cx.note(&text);
    describe(cx, &c);
    cx.nontrivial_if(c.size() >= 4);
    let e = s.pick(&ENTRIES);
    let any = if c.kind.is_alarm() && s.chance(1, 2) {
        ok(
            "a well-formed alarm",
            Any::read_alarm_kind(c.kind, &text, e),
        )?
    } else {
        ok("a well-formed component", Any::read_by(c.kind, &text, e))?
    };
    same("what is read", &c.norm(), &any.lift())
}

/// RFC 5545 3.8.4.4: RECURRENCE-ID is a property of events, to-dos and journals.
fn recurrence_id(cx: &mut Cx) -> Res {
    let text = "BEGIN:VEVENT\r\nUID:1\r\nDTSTAMP:20240101T000000Z\r\nDTSTART:20240101T000000Z\r\nRECURRENCE-ID:20240102T000000Z\r\nEND:VEVENT\r\n";
    cx.note(text);
    let e = ok("an event", text.parse::<ikal::VEvent>())?;
    if e.recurid.is_some() {
        Ok(())
    } else {
        Err("RECURRENCE-ID is not read as the recurrence identifier".into())
    }
}
