use super::{ZONES, describe, document, ok};
use crate::core::{Cx, Def, Res};
use crate::generate::Opt;
use crate::lift::Any;
use crate::render;
use crate::tape::Src;

pub static DEF: Def = Def {
    id: "C05",
    rule: "a well-formed calendar or component text (folded at random) and its prefixes: every character boundary of texts up to 400 characters, otherwise every line boundary (of texts with very many, a sample), the last 60 characters and 40 random cuts. Every prefix that lacks the last character of the final END line is refused, the whole is accepted. Non-trivial: at least 10 prefixes. Distinct by text.",
    zones: ZONES,
    quick: 40_000,
    thorough: 500_000,
    tape: 1200,
    run,
    exhaustive: None,
    witnesses: &[],
};

fn run(s: &mut Src, cx: &mut Cx) -> Res {
    let o = Opt {
        density: s.pick(&[8, 25, 4, 1]),
        comps: 3,
        recurid: true,
        ..Opt::read()
    };
    let (c, d) = document(s, &o, false);
    let text = render::fold(s, &d.flat());
    cx.note(&text);
    describe(cx, &c);
    ok("the whole text", Any::read(c.kind, &text))?;
    // all the characters of the last line are needed
    let end = text.trim_end_matches(['\r', '\n', ' ', '\t']).len();
    let bounds = text[..end].char_indices().map(|x| x.0).collect::<Vec<_>>();
    let n = bounds.len();
    let cuts = if n <= 400 {
        bounds
    } else {
        let mut v = bounds[n - 60..].to_vec();
        for _ in 0..40 {
            v.push(bounds[s.usize(n)]);
        }
        let mut i = 0;
        while let Some(j) = text[i..end].find("\r\n") {
            i += j;
            v.extend([i, i + 1, i + 2]);
            i += 2;
        }
        v.retain(|x| text.is_char_boundary(*x) && *x < end);
        // texts with many lines: as many as are read in reasonable time
        let most = (4_000_000 / end).max(100);
        while v.len() > most {
            let i = 60 + s.usize(v.len() - 60);
            v.swap_remove(i);
        }
        v
    };
    cx.nontrivial_if(cuts.len() >= 10);
    for i in cuts {
        cx.step();
        if Any::read(c.kind, &text[..i]).is_ok() {
            return Err(format!(
                "the first {i} octets of {} are accepted: …{:?}",
                text.len(),
                &text[..i]
                    .chars()
                    .rev()
                    .take(60)
                    .collect::<Vec<_>>()
                    .into_iter()
                    .rev()
                    .collect::<String>()
            ));
        }
    }
    Ok(())
}
