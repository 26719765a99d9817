use super::{UTC, describe, ok, same};
use crate::build;
use crate::core::{Cx, Def, Res};
use crate::generate::{self, Opt};
use crate::model::*;
use crate::reader::{self, RComp};
use crate::tape::Src;
use std::collections::{BTreeMap, BTreeSet};

pub static DEF: Def = Def {
    id: "C09",
    rule: "a component built with any characters in its texts, parameters, classifications, URIs and extension values (line breaks of every kind, control characters, quotes, lines that look like content lines), written and judged by the harness's strict reader: physical lines, folds, content lines, nesting, and one line per value. With values iCalendar can express, the strict reader must also find the meaning. Non-trivial: at least four properties. Distinct by written text.",
    zones: UTC,
    quick: 1_200_000,
    thorough: 6_000_000,
    tape: 1400,
    run,
    exhaustive: None,
    witnesses: &[],
};

fn run(s: &mut Src, cx: &mut Cx) -> Res {
    let wild = s.chance(2, 3);
    let o = Opt {
        density: s.pick(&[25, 8, 60]),
        wild,
        offset_secs: true,
        long: true,
        ..Opt::built()
    };
    let c = generate::any(s, &o);
    let any = build::any(s, wild, &c);
    describe(cx, &c);
    cx.label(if wild {
        "any characters"
    } else {
        "well-formed values"
    });
    let text = ok("writing", any.write())?;
    cx.note(&text);
    cx.nontrivial_if(c.size() >= 4);
    cx.label(if text.lines().any(|l| l.starts_with(' ')) {
        "folded"
    } else {
        "not folded"
    });
    let tree = reader::tree(&text).map_err(|e| format!("malformed output: {e}\n{text}"))?;
    shape(&tree, &any.lift())?;
    if !wild {
        let n = reader::interp(&tree).map_err(|e| format!("malformed output: {e}\n{text}"))?;
        same("what is written means something else", &any.lift(), &n)?;
    }
    Ok(())
}

/// One line per value (lists: at least one), the same components.
fn shape(t: &RComp, n: &Norm) -> Res {
    if t.name != n.kind.name() {
        return Err(format!("{} is written for {}", t.name, n.kind.name()));
    }
    let mut names: BTreeMap<&str, usize> = BTreeMap::new();
    for l in &t.lines {
        *names.entry(&l.name).or_default() += 1;
    }
    let known = n
        .props
        .keys()
        .flat_map(|k| [Some(k.as_str()), k.rsplit('/').next()])
        .flatten()
        .collect::<BTreeSet<_>>();
    if !names.keys().all(|name| known.contains(name)) {
        return Err(format!(
            "a line that is no property of {}: {names:?}",
            t.name
        ));
    }
    for (name, v) in &n.props {
        let lines = names.get(name.as_str()).copied().unwrap_or(0);
        let list = row(n.kind, name).is_some_and(|r| r.2 == Mode::List);
        let good = if list {
            lines >= 1 && lines <= v.len()
        } else {
            lines == v.len()
        };
        if !good {
            return Err(format!(
                "{lines} lines for the {} values of {name} in {}",
                v.len(),
                t.name
            ));
        }
    }
    let count = t.subs.len();
    let expected = n.subs.values().map(Vec::len).sum::<usize>();
    if count != expected {
        return Err(format!(
            "{count} components instead of {expected} in {}",
            t.name
        ));
    }
    for (g, v) in &n.subs {
        let subs = t.subs.iter().filter(|s| s.name == *g).collect::<Vec<_>>();
        if subs.len() != v.len() {
            return Err(format!("{} {g} instead of {}", subs.len(), v.len()));
        }
        for (a, b) in subs.iter().zip(v) {
            shape(a, b)?;
        }
    }
    Ok(())
}
