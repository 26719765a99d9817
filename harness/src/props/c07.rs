use super::{UTC, describe, ok, same};
use crate::build;
use crate::core::{Cx, Def, Res};
use crate::generate::{self, Opt};
use crate::lift::{Any, ENTRIES};
use crate::tape::Src;

pub static DEF: Def = Def {
    id: "C07",
    rule: "a component built field by field from a generated meaning (texts stored escaped, plain or mixed), written and read back: same meaning. Non-trivial: at least four values. Distinct by written text.",
    zones: UTC,
    quick: 560_000,
    thorough: 6_000_000,
    tape: 1600,
    run,
    exhaustive: None,
    witnesses: &[],
};

fn run(s: &mut Src, cx: &mut Cx) -> Res {
    let density = s.pick(&[25, 8, 60, 95]);
    let o = Opt {
        density,
        long: true,
        ..Opt::built()
    };
    let c = generate::any(s, &o);
    let any = build::any(s, false, &c);
    cx.note(any.debug());
    describe(cx, &c);
    cx.nontrivial_if(c.size() >= 4);
    let text = ok("writing", any.write())?;
    cx.note(&text);
    same(
        "the harness builds another component than intended",
        &c.norm(),
        &any.lift(),
    )
    .map_err(|e| format!("built otherwise: {e}"))?;
    let e = s.pick(&ENTRIES);
    let back = if matches!(any, Any::Audio(_) | Any::Display(_) | Any::Email(_)) {
        ok("what is written", Any::read_alarm_kind(c.kind, &text, e))?
    } else {
        ok("what is written", Any::read_by(c.kind, &text, e))?
    };
    same("written and read back", &c.norm(), &back.lift())
}
