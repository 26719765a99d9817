use super::{ZONES, damage, describe, wrap};
use crate::core::{Cx, Def, Res};
use crate::generate::{self, Opt};
use crate::lift::{Any, ENTRIES};
use crate::model::*;
use crate::render::{self, Doc};
use crate::tape::Src;
use std::collections::BTreeMap;

pub static DEF: Def = Def {
    id: "C06",
    rule: "a calendar with components: each component of the value read equals its own text read alone, alarms of events likewise, the calendar's own properties are the same with any subset of the components; a component with edits inside its lines is refused alone exactly when its calendar is; the three conversions from text agree on each text, on texts with other ends, and on the texts of single values. Non-trivial: a calendar with two components or more, or an edited text. Distinct by text.",
    zones: ZONES,
    quick: 450_000,
    thorough: 3_000_000,
    tape: 2400,
    run,
    exhaustive: None,
    witnesses: &[],
};

fn run(s: &mut Src, cx: &mut Cx) -> Res {
    match s.weighted(&[5, 4, 2, 1]) {
        0 => slices(s, cx),
        1 => damaged(s, cx),
        3 => around(s, cx),
        _ => values(s, cx),
    }
}

fn agree(cx: &mut Cx, kind: Kind, text: &str) -> Result<Option<Any>, String> {
    let mut first: Option<Option<Any>> = None;
    let mut readers: Vec<(String, Result<Any, ikal::Error>)> = Vec::new();
    for e in ENTRIES {
        cx.step();
        readers.push((format!("{e:?}"), Any::read_by(kind, text, e)));
    }
    for (name, r) in readers {
        let r = r.ok();
        match &first {
            None => first = Some(r),
            Some(f) if *f == r => (),
            Some(f) => {
                return Err(format!(
                    "conversions disagree on {kind:?}: {name} {} what parsing {}",
                    if r.is_some() {
                        "reads otherwise or accepts"
                    } else {
                        "refuses"
                    },
                    if f.is_some() { "accepts" } else { "refuses" },
                ));
            }
        }
    }
    Ok(first.flatten())
}

/// The components of a calendar by group, in order.
pub(super) fn parts(any: &Any) -> BTreeMap<&'static str, Vec<Any>> {
    let mut m: BTreeMap<&'static str, Vec<Any>> = BTreeMap::new();
    match any {
        Any::Calendar(c) => {
            for x in &c.alarms {
                m.entry("VALARM")
                    .or_default()
                    .push(Any::Alarm(Box::new(x.clone())));
            }
            for x in &c.events {
                m.entry("VEVENT")
                    .or_default()
                    .push(Any::Event(Box::new(x.clone())));
            }
            for x in &c.freebusy {
                m.entry("VFREEBUSY")
                    .or_default()
                    .push(Any::Freebusy(Box::new(x.clone())));
            }
            for x in &c.journals {
                m.entry("VJOURNAL")
                    .or_default()
                    .push(Any::Journal(Box::new(x.clone())));
            }
            for x in &c.todo {
                m.entry("VTODO")
                    .or_default()
                    .push(Any::Todo(Box::new(x.clone())));
            }
            for x in &c.timezones {
                m.entry("VTIMEZONE")
                    .or_default()
                    .push(Any::Timezone(Box::new(x.clone())));
            }
        }
        Any::Event(c) => {
            for x in &c.alarms {
                m.entry("VALARM")
                    .or_default()
                    .push(Any::Alarm(Box::new(x.clone())));
            }
        }
        Any::Timezone(c) => {
            for x in &c.standard {
                m.entry("STANDARD")
                    .or_default()
                    .push(Any::Standard(Box::new(x.clone())));
            }
            for x in &c.daylight {
                m.entry("DAYLIGHT")
                    .or_default()
                    .push(Any::Daylight(Box::new(x.clone())));
            }
        }
        _ => (),
    }
    m
}

fn check_parts(s: &mut Src, cx: &mut Cx, c: &Comp, d: &Doc, any: &Any) -> Res {
    let parts = parts(any);
    let mut index: BTreeMap<&'static str, usize> = BTreeMap::new();
    for (sub, doc) in c.subs.iter().zip(&d.subs) {
        let i = index.entry(sub.kind.group()).or_default();
        let Some(inside) = parts.get(sub.kind.group()).and_then(|v| v.get(*i)) else {
            return Err(format!(
                "{:?} number {i} is not in its {:?}",
                sub.kind, c.kind
            ));
        };
        *i += 1;
        let text = if s.chance(1, 3) {
            render::fold(s, &doc.flat())
        } else {
            doc.plain()
        };
        let Some(alone) = agree(cx, sub.kind, &text)? else {
            return Err(format!(
                "refused alone, accepted inside {:?}:\n{text}",
                c.kind
            ));
        };
        if alone != *inside {
            let d = diff(&alone.lift(), &inside.lift())
                .unwrap_or_else(|| format!("{alone:?}\n{inside:?}"));
            return Err(format!(
                "{:?} inside {:?} is not what it is alone: {d}",
                sub.kind, c.kind
            ));
        }
        check_parts(s, cx, sub, doc, inside)?;
        // an alarm by the type of its kind
        if sub.kind.is_alarm() {
            let mut lifted = Vec::new();
            for e in ENTRIES {
                match Any::read_alarm_kind(sub.kind, &text, e) {
                    Ok(a) => lifted.push(a.lift()),
                    Err(e) => {
                        return Err(format!("{:?} is refused by its own type: {e}", sub.kind));
                    }
                }
            }
            for l in &lifted {
                if let Some(d) = diff(&alone.lift(), l) {
                    return Err(format!("{:?} by its own type: {d}", sub.kind));
                }
            }
        }
    }
    for (g, v) in &parts {
        if index.get(g).copied().unwrap_or(0) != v.len() {
            return Err(format!(
                "{} {g} instead of {}",
                v.len(),
                index.get(g).copied().unwrap_or(0)
            ));
        }
    }
    Ok(())
}

fn slices(s: &mut Src, cx: &mut Cx) -> Res {
    let o = Opt {
        density: s.pick(&[8, 25]),
        comps: 6,
        recurid: true,
        ..Opt::read()
    };
    let c = generate::calendar(s, &o);
    let d = render::doc(s, &o, &c);
    let text = render::fold(s, &d.flat());
    cx.note(&text);
    describe(cx, &c);
    cx.nontrivial_if(c.subs.len() >= 2);
    let Some(any) = agree(cx, Kind::Calendar, &text)? else {
        return Err("a well-formed calendar is refused".into());
    };
    check_parts(s, cx, &c, &d, &any)?;
    // the calendar's own properties, with other components
    let mut less = d.clone();
    let mut keep = vec![];
    for x in &d.subs {
        if s.chance(1, 2) {
            keep.push(x.clone());
        }
    }
    if s.chance(1, 3) {
        s.shuffle(&mut keep);
    }
    less.subs = keep;
    match Any::read(Kind::Calendar, &less.plain()) {
        Ok(l) => {
            let (mut a, mut b) = (any.lift(), l.lift());
            a.subs.clear();
            b.subs.clear();
            match diff(&a, &b) {
                None => Ok(()),
                Some(d) => Err(format!(
                    "the calendar's own properties depend on its components: {d}"
                )),
            }
        }
        Err(e) => Err(format!(
            "refused with only {} of the {} components: {e}",
            less.subs.len(),
            d.subs.len()
        )),
    }
}

fn damaged(s: &mut Src, cx: &mut Cx) -> Res {
    let o = Opt {
        density: s.pick(&[8, 25]),
        recurid: true,
        ..Opt::read()
    };
    let c = generate::any(s, &o);
    let mut d = render::doc(s, &o, &c);
    if d.lines.is_empty() || c.kind == Kind::Calendar {
        cx.label("nothing to edit");
        return Ok(());
    }
    let n = 1 + s.usize(2);
    for _ in 0..n {
        let i = s.usize(d.lines.len());
        let mut t = d.lines[i].text.clone();
        damage::edit(s, &mut t);
        let t = t.replace(['\r', '\n'], "");
        // lines that begin or end something change the structure: the two texts are then not alike
        let upper = t.trim_start().to_uppercase();
        if upper.starts_with("BEGIN")
            || upper.starts_with("END")
            || t.starts_with([' ', '\t'])
            || t.is_empty()
        {
            continue;
        }
        d.lines[i].text = t;
    }
    let text = d.plain();
    cx.note(&text);
    cx.nontrivial();
    let alone = agree(cx, c.kind, &text)?;
    let outer = wrap(c.kind, &text);
    let inside = agree(cx, Kind::Calendar, &outer)?;
    cx.label(match (&alone, &inside) {
        (Some(_), Some(_)) => "edited: both accepted",
        (None, None) => "edited: both refused",
        _ => "edited: disagreement",
    });
    match (alone, inside) {
        (Some(a), Some(b)) => {
            let mut p = parts(&b);
            let mut inside = p.remove(if c.kind == Kind::Standard || c.kind == Kind::Daylight {
                "VTIMEZONE"
            } else {
                c.kind.group()
            });
            if matches!(c.kind, Kind::Standard | Kind::Daylight) {
                inside = inside
                    .and_then(|v| v.first().map(parts))
                    .and_then(|mut m| m.remove(c.kind.group()));
            }
            if inside != Some(vec![a]) {
                return Err(
                    "an edited component is not the same alone and inside a calendar".into(),
                );
            }
            Ok(())
        }
        (None, None) => Ok(()),
        (Some(_), None) => Err("accepted alone, refused inside a calendar".into()),
        (None, Some(_)) => Err("refused alone, accepted inside a calendar".into()),
    }
}

/// Something before, after or instead of the ends of a text: the conversions still agree.
fn around(s: &mut Src, cx: &mut Cx) -> Res {
    let o = Opt {
        density: 8,
        comps: 1,
        recurid: true,
        ..Opt::read()
    };
    let c = generate::any(s, &o);
    let d = render::doc(s, &o, &c);
    let mut text = render::fold(s, &d.flat());
    const BITS: [&str; 16] = [
        "\r\n",
        " ",
        "\n",
        "\t",
        "\u{FEFF}",
        "\r\n\r\n",
        "\r",
        "\0",
        "x",
        "BEGIN:VCALENDAR\r\n",
        "END:VEVENT\r\n",
        " \r\n",
        "\u{A0}",
        "X-A:1\r\n",
        "\u{85}",
        ";",
    ];
    for _ in 0..1 + s.usize(2) {
        let bit = s.pick::<&str>(&BITS);
        match s.usize(7) {
            0 => text.insert_str(0, bit),
            1 => text.push_str(bit),
            2 => text.truncate(text.trim_end().len()),
            3 => text = text.replace("\r\n", "\n"),
            4 => drop(text.pop()),
            5 => {
                text.truncate(text.trim_end().len());
                text.push_str(bit);
            }
            _ => text = text.to_lowercase(),
        }
    }
    cx.note(&text);
    cx.nontrivial();
    let r = agree(cx, c.kind, &text)?;
    cx.label(if r.is_some() {
        "other ends: accepted"
    } else {
        "other ends: refused"
    });
    Ok(())
}

fn three<T>(name: &str, text: &str) -> Res
where
    T: std::str::FromStr<Err = ikal::Error>
        + for<'a> TryFrom<&'a str, Error = ikal::Error>
        + TryFrom<String, Error = ikal::Error>
        + PartialEq
        + std::fmt::Debug,
{
    let a = text.parse::<T>().ok();
    let b = T::try_from(text).ok();
    let c = T::try_from(text.to_string()).ok();
    if a == b && b == c {
        Ok(())
    } else {
        Err(format!(
            "{name} from {text:?}: parsed {a:?}, borrowed {b:?}, owned {c:?}"
        ))
    }
}

fn values(s: &mut Src, cx: &mut Cx) -> Res {
    let o = Opt::read();
    let ty = s.pick(&damage::VALUE_TYPES);
    let v = generate::value(s, &o, ty, Kind::Event);
    let mut text = render::value_text(s, &v);
    if let Ty::Recur = ty
        && s.chance(1, 3)
    {
        text = format!(
            "{}{}",
            s.pick(&["", "1", "-1", "+3", "53"]),
            s.pick(&WEEKDAYS)
        );
    }
    let n = s.usize(3);
    for _ in 0..n {
        damage::edit(s, &mut text);
    }
    cx.note(&text);
    cx.label(if n == 0 { "value" } else { "edited value" });
    cx.nontrivial_if(n > 0);
    three::<ikal::Period>("a period", &text)?;
    three::<ikal::Recur>("a rule", &text)?;
    three::<ikal::Freq>("a frequency", &text)?;
    three::<ikal::Weekday>("a weekday", &text)?;
    three::<ikal::WeekdayNum>("a numbered weekday", &text)?;
    three::<ikal::Class>("a classification", &text)?;
    three::<ikal::Status>("a status", &text)?;
    three::<ikal::TimeTransparency>("a transparency", &text)?;
    three::<ikal::Geo>("a position", &text)?;
    three::<ikal::RequestStatus>("a request status", &text)
}
