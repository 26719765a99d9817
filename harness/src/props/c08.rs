use super::{UTC, damage, describe, document, ok, same};
use crate::core::{Cx, Def, Res};
use crate::generate::Opt;
use crate::lift::Any;
use crate::model::*;
use crate::render;
use crate::tape::Src;

pub static DEF: Def = Def {
    id: "C08",
    rule: "a rendered calendar or component, as it is or with one to four edits (characters, values, lines) or a leap second, kept when it is accepted: read, written, read, written. Equal values and equal outputs. Non-trivial: accepted with an edit, or at least four properties. Distinct by text.",
    zones: UTC,
    quick: 600_000,
    thorough: 7_000_000,
    tape: 2200,
    run,
    exhaustive: None,
    witnesses: &[],
};

pub fn cycle(cx: &mut Cx, kind: Kind, text: &str, own: bool) -> Result<bool, String> {
    let read = |t: &str| {
        if own {
            Any::read_alarm_kind(kind, t, crate::lift::Entry::Parse)
        } else {
            Any::read(kind, t)
        }
    };
    let Ok(a) = read(text) else {
        return Ok(false);
    };
    cx.step();
    let first = ok("writing what was read", a.write())?;
    let b = ok(
        &format!("reading what was written ({first:?})"),
        read(&first),
    )?;
    same(
        &format!("read, written as {first:?} and read"),
        &a.lift(),
        &b.lift(),
    )?;
    // leap seconds, which the meanings of dates leave out
    let leaps = (leaps(&a.debug()), leaps(&b.debug()));
    if leaps.0 != leaps.1 {
        return Err(format!(
            "{} leap seconds were read; what is written has {}: {first:?}",
            leaps.0, leaps.1
        ));
    }
    let second = ok("writing again", b.write())?;
    if first != second {
        return Err(format!("written first as {first:?}\nthen as {second:?}"));
    }
    Ok(true)
}

/// How many times of day at second 60 are printed.
fn leaps(debug: &str) -> usize {
    let digits = |x: &[u8]| x.iter().all(u8::is_ascii_digit);
    debug
        .as_bytes()
        .windows(9)
        .filter(|w| w[0] == b'T' && digits(&w[1..3]) && digits(&w[4..6]) && &w[6..] == b":60")
        .count()
}

/// A time of day of the text is moved to a leap second.
fn leap(s: &mut Src, text: &mut String) {
    let times = text
        .as_bytes()
        .windows(7)
        .enumerate()
        .filter(|(_, w)| w[0] == b'T' && w[1..].iter().all(u8::is_ascii_digit))
        .map(|x| x.0)
        .collect::<Vec<_>>();
    if !times.is_empty() {
        let at = s.pick(&times);
        if s.chance(1, 2) {
            text.replace_range(at + 1..at + 7, "235960");
        } else {
            text.replace_range(at + 5..at + 7, "60");
        }
    }
}

fn run(s: &mut Src, cx: &mut Cx) -> Res {
    let o = Opt {
        density: s.pick(&[25, 8, 60]),
        recurid: true,
        offset_secs: true,
        long: true,
        ..Opt::read()
    };
    let (c, d) = document(s, &o, false);
    let mut text = render::fold(s, &d.flat());
    let n = s.weighted(&[3, 4, 2, 1, 1]);
    for _ in 0..n {
        damage::edit(s, &mut text);
    }
    if s.chance(1, 12) {
        leap(s, &mut text);
    }
    cx.note(&text);
    describe(cx, &c);
    let own = c.kind.is_alarm() && s.chance(1, 2);
    let accepted = cycle(cx, c.kind, &text, own)?;
    cx.label(format!(
        "edits={n} {}",
        if accepted { "accepted" } else { "refused" }
    ));
    cx.nontrivial_if(accepted && (n > 0 || c.size() >= 4));
    if n == 0 && !accepted {
        return Err("a well-formed text is refused".into());
    }
    Ok(())
}
