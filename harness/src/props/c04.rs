use super::{ZONES, damage, document, wrap};
use crate::core::{Cx, Def, Res};
use crate::generate::Opt;
use crate::lift::{Any, ENTRIES};
use crate::model::*;
use crate::render;
use crate::tape::Src;

pub static DEF: Def = Def {
    id: "C04",
    rule: "a well-formed calendar or component with one defect: a mandatory property removed, a value replaced or completed so that it is not of its type, a malformed content line, an unknown nested component, a missing or wrong END. Read alone, in a calendar and folded: always refused; the same document without the defect is accepted. Non-trivial: every case with a defect. Distinct by text.",
    zones: ZONES,
    quick: 800_000,
    thorough: 5_000_000,
    tape: 1600,
    run,
    exhaustive: None,
    witnesses: &[],
};

fn run(s: &mut Src, cx: &mut Cx) -> Res {
    let o = Opt {
        density: s.pick(&[25, 10, 50]),
        comps: 3,
        ..Opt::read()
    };
    let (c, mut d) = document(s, &o, false);
    let good = d.plain();
    let Some((what, flat)) = damage::defect(s, &mut d) else {
        cx.label("no defect applies");
        return Ok(());
    };
    cx.label(format!("defect: {}", category(&what)));
    cx.label(format!("kind={:?}", c.kind));
    let lines = flat.unwrap_or_else(|| d.flat());
    let plain = render::join(&lines);
    cx.note(&what);
    cx.note(&plain);
    if let Err(e) = Any::read(c.kind, &good) {
        return Err(format!("the document is refused before the defect: {e}"));
    }
    cx.nontrivial();
    let mut texts = vec![(c.kind, plain.clone())];
    if c.kind != Kind::Calendar {
        texts.push((Kind::Calendar, wrap(c.kind, &plain)));
    }
    // A folded variant: the logical lines are the same.
    texts.push((
        c.kind,
        render::fold(
            s,
            &plain
                .trim_end_matches("\r\n")
                .split("\r\n")
                .map(str::to_string)
                .collect::<Vec<_>>(),
        ),
    ));
    for (kind, t) in texts {
        cx.step();
        let e = s.pick(&ENTRIES);
        if let Ok(v) = Any::read_by(kind, &t, e) {
            return Err(format!(
                "accepted with a defect ({what}): {}",
                crate::core::cut(&v.debug(), 1500)
            ));
        }
    }
    Ok(())
}

fn category(what: &str) -> String {
    // the part of the description that does not depend on the values
    let mut it = what.split(' ');
    let _kind = it.next();
    it.take(3)
        .map(|w| w.split([':', ';']).next().unwrap_or(w))
        .collect::<Vec<_>>()
        .join(" ")
}
