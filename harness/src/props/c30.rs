use super::{ZONES, c06, describe, ok};
use crate::build;
use crate::core::{Cx, Def, Res};
use crate::generate::{self, Opt};
use crate::lift::Any;
use crate::model::*;
use crate::tape::Src;
use std::collections::BTreeMap;

pub static DEF: Def = Def {
    id: "C30",
    rule: "a built calendar, event or time zone with components (any characters in texts): what is written is its own lines, as written without its components, around the exact text of each component written alone, by kind in order, at every depth; a clone and a second writing give the same text, as do optional values; removing an event or moving it to the end changes its text only; one case in 4000 has up to 70 000 components. Non-trivial: at least one component inside. Distinct by text.",
    zones: ZONES,
    quick: 320_000,
    thorough: 3_000_000,
    tape: 1600,
    run,
    exhaustive: None,
    witnesses: &[],
};

/// The text of a container: its own lines and the texts of its components.
fn split(text: &str) -> Result<(Vec<&str>, Vec<(String, String)>), String> {
    let mut own = Vec::new();
    let mut subs: Vec<(String, String)> = Vec::new();
    let mut open: Vec<&str> = Vec::new();
    for l in text.split_inclusive("\r\n") {
        let t = l.trim_end_matches("\r\n");
        if let Some(name) = t.strip_prefix("BEGIN:") {
            open.push(name);
            if open.len() == 2 {
                subs.push((name.to_string(), String::new()));
            }
        }
        if open.len() < 2 {
            own.push(l);
        } else if let Some(s) = subs.last_mut() {
            s.1.push_str(l);
        }
        if let Some(name) = t.strip_prefix("END:")
            && open.pop() != Some(name)
        {
            return Err(format!("END:{name} does not match:\n{text}"));
        }
    }
    if !open.is_empty() {
        return Err(format!("{open:?} is not ended:\n{text}"));
    }
    Ok((own, subs))
}

/// The same without its components.
fn bare(any: &Any) -> Any {
    let mut x = any.clone();
    match &mut x {
        Any::Calendar(c) => {
            c.alarms.clear();
            c.events.clear();
            c.freebusy.clear();
            c.journals.clear();
            c.todo.clear();
            c.timezones.clear();
        }
        Any::Event(c) => c.alarms.clear(),
        Any::Timezone(c) => {
            c.standard.clear();
            c.daylight.clear();
        }
        _ => (),
    }
    x
}

fn check(any: &Any, cx: &mut Cx) -> Result<String, String> {
    cx.step();
    let text = ok("a component", any.write())?;
    if ok("a component", any.write())? != text || ok("a clone", any.clone().write())? != text {
        return Err("written again, the same component gives another text".into());
    }
    crate::on_any!(any, x => {
        let some = Some(x.as_ref().clone());
        if ok("an optional component", ikal::ser::ical(&some))? != text {
            return Err("an optional component is not written as the component is".into());
        }
    });
    let parts = c06::parts(any);
    if parts.is_empty() {
        return Ok(text);
    }
    let (own, subs) = split(&text)?;
    let alone = ok("a component without its components", bare(any).write())?;
    if own.concat() != alone {
        return Err(format!(
            "its own lines depend on its components:\n{}\nwithout them:\n{alone}",
            own.concat()
        ));
    }
    let mut got: BTreeMap<&str, Vec<&String>> = BTreeMap::new();
    for (name, t) in &subs {
        got.entry(name).or_default().push(t);
    }
    for (group, list) in &parts {
        let got = got.remove(group).unwrap_or_default();
        if got.len() != list.len() {
            return Err(format!(
                "{} {group} written instead of {}",
                got.len(),
                list.len()
            ));
        }
        for (i, (x, g)) in list.iter().zip(got).enumerate() {
            let alone = check(x, cx)?;
            if *g != alone {
                return Err(format!(
                    "{group} {i} is written inside as\n{g}\nand alone as\n{alone}"
                ));
            }
        }
    }
    if let Some(x) = got.keys().next() {
        return Err(format!("{x} is written, which is not there"));
    }
    Ok(text)
}

/// One component less, or moved: the texts of the others are the same.
fn change(s: &mut Src, c: &ikal::VCalendar) -> Res {
    if c.events.is_empty() {
        return Ok(());
    }
    let before = ok("a calendar", ikal::ser::ical(c))?;
    let mut less = c.clone();
    let i = s.usize(c.events.len());
    let gone = less.events.remove(i);
    let gone_text = ok("an event", ikal::ser::ical(&gone))?;
    let after = ok("a calendar", ikal::ser::ical(&less))?;
    let (_, a) = split(&before)?;
    let (_, b) = split(&after)?;
    let mut a = a;
    let at = a
        .iter()
        .enumerate()
        .filter(|(_, x)| x.0 == "VEVENT")
        .map(|x| x.0)
        .nth(i)
        .ok_or("an event is not written")?;
    let removed = a.remove(at);
    if removed.1 != gone_text || a != b {
        return Err(format!(
            "without event {i}, the other components are written otherwise:\n{before}\n{after}"
        ));
    }
    // put back last
    less.events.push(gone);
    let (_, mut c) =
        split(&ok("a calendar", ikal::ser::ical(&less))?).map(|(o, c)| (o.len(), c))?;
    let last = c
        .iter()
        .rposition(|x| x.0 == "VEVENT")
        .ok_or("an event is not written")?;
    let moved = c.remove(last);
    if moved.1 != gone_text || c != b {
        return Err("an event put last changes the others".into());
    }
    Ok(())
}

/// Thousands of components in one: each is written, whatever their number.
fn crowd(s: &mut Src, cx: &mut Cx) -> Res {
    let o = Opt {
        density: 2,
        ext: false,
        ..Opt::built()
    };
    let (outer, kinds): (Kind, &[Kind]) = match s.usize(4) {
        0 => (Kind::Event, &ALARMS),
        1 => (Kind::Timezone, &[Kind::Standard, Kind::Daylight]),
        _ => (Kind::Calendar, &TOP),
    };
    let mut c = generate::comp(s, &o, outer);
    let kind = s.pick(kinds);
    c.subs = vec![generate::comp(s, &o, kind)];
    c.subs[0].subs.clear();
    let n = match s.weighted(&[6, 6, 1]) {
        0 => s.range(250, 1100),
        1 => s.range(1100, 9000),
        _ => s.range(65_000, 70_000),
    };
    let one = c.subs[0].clone();
    c.subs.resize(n as usize, one);
    describe(cx, &c);
    cx.nontrivial();
    cx.label("crowd");
    check(&build::any(s, false, &c), cx).map(drop)
}

fn run(s: &mut Src, cx: &mut Cx) -> Res {
    if s.chance(1, 4000) {
        return crowd(s, cx);
    }
    let wild = s.chance(1, 3);
    let o = Opt {
        density: s.pick(&[8, 25]),
        wild,
        comps: 6,
        ..Opt::built()
    };
    let c = match s.usize(4) {
        0 => generate::comp(s, &o, Kind::Event),
        1 => generate::comp(s, &o, Kind::Timezone),
        _ => generate::calendar(s, &o),
    };
    let any = build::any(s, wild, &c);
    describe(cx, &c);
    cx.nontrivial_if(!c.subs.is_empty());
    let text = check(&any, cx)?;
    cx.note(&text);
    if let Any::Calendar(c) = &any {
        change(s, c)?;
    }
    Ok(())
}
