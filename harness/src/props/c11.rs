use super::{ZONES, describe, ok, same};
use crate::build;
use crate::core::{Cx, Def, Res, Witness};
use crate::generate::{self, Opt};
use crate::lift::Any;
use crate::model::*;
use crate::reader;
use crate::render;
use crate::tape::Src;

pub static DEF: Def = Def {
    id: "C11",
    rule: "a component with parameters on its texts, lists of texts, URIs, attachments and extension properties, with any characters but double quotes and line breaks (quoted lists apart): read, then written and judged by the strict reader and by reading; or built and written. The parameters are compared character for character. Non-trivial: at least one parameter. Distinct by text.",
    zones: ZONES,
    quick: 800_000,
    thorough: 5_000_000,
    tape: 1600,
    run,
    exhaustive: None,
    witnesses: &[Witness {
        key: "typed-params",
        run: typed_params,
    }],
};

/// Only what keeps parameters: texts, URIs, attachments, extensions; and what is mandatory.
fn only_params(s: &mut Src, o: &Opt, c: &mut Comp) {
    let kind = c.kind;
    c.props
        .retain(|p| p.ty.keeps_params() || row(kind, &p.name).is_some_and(|r| r.2 == Mode::Req));
    for p in &mut c.props {
        if p.ty.keeps_params() && s.chance(1, 2) {
            p.params = generate::params(s, o);
        }
        if let V::Date(d) = &p.value {
            // instants are another property's business
            p.value = V::Date(match d {
                crate::cal::D::Utc(n) => crate::cal::D::Naive(*n),
                d => *d,
            });
        }
    }
    for c in &mut c.subs {
        only_params(s, o, c);
    }
}

/// Characters that are neither double quotes nor line breaks, but seen as breaks or blanks by some.
fn control(s: &mut Src, c: &mut Comp) {
    for p in &mut c.props {
        // a list of quoted values is what it is
        for v in p.params.values_mut().filter(|v| !v.contains('"')) {
            if s.chance(1, 2) {
                let at = s.usize(v.chars().count() + 1);
                let at = v.char_indices().nth(at).map_or(v.len(), |x| x.0);
                v.insert(
                    at,
                    s.pick(&[
                        '\t', '\u{c}', '\u{b}', '\u{1}', '\0', '\u{7f}', '\u{1b}', '\u{1c}',
                        '\u{1e}', '\u{85}', '\u{2028}', '\u{2029}',
                    ]),
                );
            }
        }
    }
    for c in &mut c.subs {
        control(s, c);
    }
}

/// The texts and addresses of a program: what it makes them of, and what it sees of them.
fn values(s: &mut Src, o: &Opt) -> Res {
    let t = generate::text(s, o);
    let params = generate::params(s, o);
    let map = params.clone();
    let text = ikal::Text {
        params: map.clone(),
        text: t.clone(),
    };
    let seen: [(&str, String); 3] = [
        ("to_string", text.to_string()),
        ("deref", (*text).to_string()),
        ("as_ref", AsRef::<str>::as_ref(&text).to_string()),
    ];
    for (what, x) in seen {
        if x != t {
            return Err(format!("{what} of the text {t:?} is {x:?}"));
        }
    }
    let made: [(&str, ikal::Text); 3] = [
        ("from", ikal::Text::from(&t)),
        ("&str", t.as_str().into()),
        ("String", t.clone().into()),
    ];
    for (what, x) in made {
        if x.text != t || !x.params.is_empty() {
            return Err(format!("a text made of {t:?} ({what}) is {x:?}"));
        }
    }
    let uri = ikal::Uri::from(text.clone());
    if uri.params != map || uri.uri != t || uri.to_string() != t || &*uri != t.as_str() {
        return Err(format!("an address made of {text:?} is {uri:?}"));
    }
    Ok(())
}

fn run(s: &mut Src, cx: &mut Cx) -> Res {
    if s.chance(1, 30) {
        values(s, &Opt::read())?;
    }
    let o = Opt {
        utc: false,
        density: s.pick(&[25, 60, 8]),
        comps: 3,
        ..Opt::read()
    };
    let mut c = generate::any(s, &o);
    only_params(s, &o, &mut c);
    if s.chance(1, 8) {
        control(s, &mut c);
    }
    describe(cx, &c);
    cx.nontrivial_if(c.any(&|p| !p.params.is_empty()));
    let any = if s.chance(1, 2) {
        let d = render::doc(s, &o, &c);
        let text = render::fold(s, &d.flat());
        cx.note(&text);
        cx.label("read");
        let any = ok("a well-formed component", Any::read(c.kind, &text))?;
        same("parameters read", &c.norm(), &any.lift())?;
        any
    } else {
        cx.label("built");
        let any = build::any(s, false, &c);
        cx.note(any.debug());
        any
    };
    let written = ok("writing", any.write())?;
    let strict = reader::read(&written).map_err(|e| format!("malformed output: {e}\n{written}"))?;
    same(
        &format!("parameters written ({written:?})"),
        &c.norm(),
        &strict,
    )?;
    let back = ok("what is written", Any::read(c.kind, &written))?;
    same("parameters written and read back", &c.norm(), &back.lift())
}

/// Parameters of properties with a date, number, … value are recorded nowhere.
fn typed_params(cx: &mut Cx) -> Res {
    let text = "BEGIN:VEVENT\r\nUID:1\r\nDTSTAMP:20240101T000000Z\r\nDTSTART;TZID=Europe/Paris:20240101T000000\r\nPRIORITY;X-P=1:5\r\nEND:VEVENT\r\n";
    cx.note(text);
    let e = ok("an event", text.parse::<ikal::VEvent>())?;
    let out = ok("an event", ikal::ser::ical(&e))?;
    if out.contains("DTSTART;TZID=Europe/Paris:") && out.contains("PRIORITY;X-P=1:") {
        Ok(())
    } else {
        Err(format!("parameters are lost: {out}"))
    }
}
