use super::{UTC, describe, ok, same};
use crate::build;
use crate::core::{Cx, Def, Res, Witness};
use crate::generate::{self, Opt};
use crate::lift::Any;
use crate::model::*;
use crate::reader;
use crate::render;
use crate::tape::Src;

pub static DEF: Def = Def {
    id: "C12",
    rule: "a component of any kind with one to eight extension properties per component (fixed and random names, names that resemble modelled ones or belong to another kind of component, raw values with backslashes, separators, long and empty values, parameters) between its other properties: read, written, judged by the strict reader, read back; or built and written. Non-trivial: always. Distinct by text.",
    zones: UTC,
    quick: 640_000,
    thorough: 5_000_000,
    tape: 1700,
    run,
    exhaustive: None,
    witnesses: &[Witness {
        key: "duplicate-name",
        run: duplicate,
    }],
};

fn name(s: &mut Src, kind: Kind) -> String {
    const CHARS: &[u8] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-";
    let random = |s: &mut Src| {
        let n = 1 + s.usize(12);
        let mut t = String::new();
        for _ in 0..n {
            t.push(CHARS[s.usize(CHARS.len())] as char);
        }
        t
    };
    match s.weighted(&[4, 3, 3, 2, 3]) {
        0 => s.pick(&generate::EXT_NAMES).to_string(),
        1 => format!("X-{}", random(s)),
        2 => random(s),
        3 => {
            // letters of both cases: the name is kept as it is
            let mut t = match s.usize(3) {
                0 => s
                    .pick(&[
                        "Color",
                        "x-foo",
                        "X-Apple-Structured-Location",
                        "x-wr-calname",
                        "Image",
                        "color",
                    ])
                    .to_string(),
                1 => format!("x-{}", random(s)),
                _ => random(s),
            };
            if s.chance(1, 2) {
                t = t
                    .chars()
                    .map(|c| {
                        if s.chance(1, 2) {
                            c.to_ascii_lowercase()
                        } else {
                            c
                        }
                    })
                    .collect();
            }
            t
        }
        _ => {
            // a modelled name with something before or after
            let rows = table(kind);
            let n = rows[s.usize(rows.len())].0;
            match s.usize(4) {
                0 => format!("{n}{}", random(s)),
                1 => format!("X-{n}"),
                2 => format!("{n}-{}", random(s)),
                _ => format!("{}{n}", random(s)),
            }
        }
    }
}

fn add(s: &mut Src, o: &Opt, c: &mut Comp) {
    let n = 1 + s.count(7);
    for _ in 0..n {
        let name = name(s, c.kind);
        let taken = row(c.kind, &name.to_uppercase()).is_some()
            || c.props.iter().any(|p| p.name.eq_ignore_ascii_case(&name))
            || matches!(
                name.to_uppercase().as_str(),
                "BEGIN" | "END" | "RECURRENCE-ID"
            );
        if !taken {
            let p = generate::prop(s, o, c.kind, &name, Ty::Ext);
            let at = s.usize(c.props.len() + 1);
            c.props.insert(at, p);
        }
    }
    for c in &mut c.subs {
        add(s, o, c);
    }
}

fn run(s: &mut Src, cx: &mut Cx) -> Res {
    let o = Opt {
        density: s.pick(&[8, 25]),
        comps: 3,
        long: true,
        ..Opt::read()
    };
    let mut c = generate::any(s, &o);
    add(s, &o, &mut c);
    describe(cx, &c);
    cx.nontrivial();
    let any = if s.chance(1, 2) {
        let d = render::doc(s, &o, &c);
        let text = render::fold(s, &d.flat());
        cx.note(&text);
        cx.label("read");
        let any = ok("a well-formed component", Any::read(c.kind, &text))?;
        same("what is read", &c.norm(), &any.lift())?;
        any
    } else {
        let any = build::any(s, false, &c);
        cx.note(any.debug());
        cx.label("built");
        any
    };
    let written = ok("writing", any.write())?;
    let strict = reader::read(&written).map_err(|e| format!("malformed output: {e}\n{written}"))?;
    same("what is written", &c.norm(), &strict)?;
    let back = ok("what is written", Any::read(c.kind, &written))?;
    same("what is written and read back", &c.norm(), &back.lift())
}

/// Several extension properties may have the same name (RFC 5545 3.8.8.2).
fn duplicate(cx: &mut Cx) -> Res {
    let text = "BEGIN:VEVENT\r\nUID:1\r\nDTSTAMP:20240101T000000Z\r\nDTSTART:20240101T000000Z\r\nX-A:1\r\nX-A:2\r\nEND:VEVENT\r\n";
    cx.note(text);
    let e = ok("an event", text.parse::<ikal::VEvent>())?;
    let out = ok("an event", ikal::ser::ical(&e))?;
    if out.contains("X-A:1\r\n") && out.contains("X-A:2\r\n") {
        Ok(())
    } else {
        Err(format!(
            "only one of two properties of the same name is kept: {out}"
        ))
    }
}
