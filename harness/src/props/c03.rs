use super::{ZONES, describe, document};
use crate::core::{Cx, Def, Res};
use crate::generate::Opt;
use crate::lift::{Any, ENTRIES};
use crate::props::damage;
use crate::render;
use crate::tape::Src;

pub static DEF: Def = Def {
    id: "C03",
    rule: "a rendered calendar or component (one time out of four with an edit inside a line) read unfolded and in several foldings: at 75 octets, at random places, between any two characters, at one given place of one line, with spaces and tabs, several times in a row; by one of the three conversions. Values must be equal, or all refused. Non-trivial: at least one fold. Distinct by folded text.",
    zones: ZONES,
    quick: 720_000,
    thorough: 4_000_000,
    tape: 1800,
    run,
    exhaustive: None,
    witnesses: &[],
};

fn run(s: &mut Src, cx: &mut Cx) -> Res {
    let o = Opt {
        density: s.pick(&[25, 10, 5]),
        comps: 3,
        recurid: true,
        ..Opt::read()
    };
    let (c, d) = document(s, &o, false);
    let mut lines = d.flat();
    if s.chance(1, 4) {
        let i = s.usize(lines.len());
        damage::edit(s, &mut lines[i]);
        // still one line: it neither breaks nor continues another one
        lines[i] = lines[i]
            .replace(['\r', '\n'], "")
            .trim_start_matches([' ', '\t'])
            .to_string();
    }
    let plain = render::join(&lines);
    // by one of the conversions
    let entry = s.pick(&ENTRIES);
    let expected = Any::read_by(c.kind, &plain, entry);
    cx.label(if expected.is_ok() {
        "accepted"
    } else {
        "refused"
    });
    describe(cx, &c);
    let n = 1 + s.usize(3);
    for _ in 0..n {
        let text = if s.chance(1, 3) {
            one_place(s, &lines)
        } else {
            render::fold(s, &lines)
        };
        cx.note(&text);
        cx.step();
        cx.nontrivial_if(text != plain);
        let actual = Any::read_by(c.kind, &text, entry);
        match (&expected, &actual) {
            (Ok(e), Ok(a)) if e == a => (),
            (Err(_), Err(_)) => (),
            (Ok(e), Ok(a)) => {
                let d = crate::model::diff(&e.lift(), &a.lift());
                return Err(format!(
                    "folding changes the value: {}",
                    d.unwrap_or_else(|| format!("{e:?}\nbecomes {a:?}"))
                ));
            }
            (Ok(_), Err(e)) => return Err(format!("folding makes the text refused: {e}")),
            (Err(e), Ok(_)) => {
                return Err(format!("folding makes the text accepted, unfolded: {e}"));
            }
        }
    }
    Ok(())
}

/// Folds one line at one place, one or several times in a row.
fn one_place(s: &mut Src, lines: &[String]) -> String {
    let mut lines = lines.to_vec();
    let i = s.usize(lines.len());
    let n = lines[i].chars().count();
    if n >= 2 {
        let k = 1 + s.usize(n - 1);
        let at = lines[i].char_indices().nth(k).map_or(0, |x| x.0);
        let blank = s.pick(&["\r\n ", "\r\n\t", "\r\n \r\n\t", "\r\n \r\n \r\n "]);
        lines[i].insert_str(at, blank);
    }
    render::join(&lines)
}
