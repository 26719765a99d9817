use super::{UTC, ok};
use crate::build;
use crate::core::{Cx, Def, Exhaustive, Res, Witness};
use crate::generate::{self, Opt};
use crate::lift;
use crate::model::*;
use crate::reader;
use crate::render;
use crate::tape::Src;

pub static DEF: Def = Def {
    id: "C25",
    rule: "every name of every enumeration is read, written and read back and every other short text near them refused (edits of names, names of the other enumerations, ordinals -128..127 on every weekday); integers of every size, positions and request statuses with their text are read alone and in components of every kind, written and read back, texts out of range or malformed refused. Non-trivial: always. Distinct by text.",
    zones: UTC,
    quick: 1_600_000,
    thorough: 6_000_000,
    tape: 120,
    run,
    exhaustive: Some(Exhaustive {
        what: "every enumerated value, every ordinal -999..999 on every weekday, every single deletion, substitution, insertion or swap of a character of every name, every priority and percentage 0..999",
        total: |_| 8 + 2 + 3 + 7 + 7 + 1999 + 1000,
        run: enumerate,
    }),
    witnesses: &[Witness {
        key: "three-level-status",
        run: three_levels,
    }],
};

/// A status code of three levels (RFC 5545 3.8.8.3: "3.1.1").
fn three_levels(cx: &mut Cx) -> Res {
    let text = "BEGIN:VEVENT\r\nUID:1\r\nDTSTAMP:20240101T000000Z\r\nDTSTART:20240101T000000Z\r\nREQUEST-STATUS:3.1.1;Invalid;x\r\nEND:VEVENT\r\n";
    cx.note(text);
    let e = ok("an event", text.parse::<ikal::VEvent>())?;
    let out = ok("an event", ikal::ser::ical(&e))?;
    if out.contains("REQUEST-STATUS:3.1.1;Invalid;x\r\n") {
        Ok(())
    } else {
        Err(format!("the status code 3.1.1 is not kept: {out}"))
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum E {
    Status,
    Transp,
    Class,
    Freq,
    Weekday,
}

const ENUMS: [E; 5] = [E::Status, E::Transp, E::Class, E::Freq, E::Weekday];

fn names(e: E) -> &'static [&'static str] {
    match e {
        E::Status => &STATUSES,
        E::Transp => &TRANSPS,
        E::Class => &CLASSES,
        E::Freq => &FREQS,
        E::Weekday => &WEEKDAYS,
    }
}

/// All the ways to read `t`: the name of the value.
fn read(e: E, t: &str) -> Result<Option<String>, String> {
    macro_rules! all {
        ($ty:ty, $name:expr) => {{
            let name: fn(&$ty) -> String = $name;
            let x = t.parse::<$ty>().ok();
            let y = <$ty>::try_from(t).ok();
            let z = <$ty>::try_from(t.to_string()).ok();
            if x != y || x != z {
                return Err(format!("{t:?} is read as {x:?}, {y:?} and {z:?}"));
            }
            x.as_ref().map(name)
        }};
    }
    Ok(match e {
        E::Status => all!(ikal::Status, |x| lift::status(x).to_string()),
        E::Transp => all!(ikal::TimeTransparency, |x| lift::transp(x).to_string()),
        E::Class => all!(ikal::Class, lift::class),
        E::Freq => all!(ikal::Freq, |x| lift::freq(x).to_string()),
        E::Weekday => all!(ikal::Weekday, |x| lift::weekday(x).to_string()),
    })
}

/// What the value of a name is written and printed as.
fn written(e: E, name: &str) -> Result<[String; 2], String> {
    fn both<T: ikal::ser::Serialize + std::fmt::Display>(x: &T) -> Result<[String; 2], String> {
        Ok([ok("a value", ikal::ser::ical(x))?, x.to_string()])
    }
    match e {
        E::Status => both(&build::status(name)),
        E::Transp => both(&build::transp(name)),
        E::Class => both(&build::class(name)),
        E::Freq => both(&build::freq(name)),
        E::Weekday => both(&build::weekday(name)),
    }
}

fn good(e: E, name: &str) -> Res {
    let r = read(e, name)?;
    if r.as_deref() != Some(name) {
        return Err(format!("{e:?} {name} is read as {r:?}"));
    }
    for w in written(e, name)? {
        if w != name {
            return Err(format!("{e:?} {name} is written {w}"));
        }
    }
    Ok(())
}

/// A text that is perhaps not a name.
fn near(e: E, t: &str) -> Res {
    if names(e).contains(&t) {
        return good(e, t);
    }
    let r = read(e, t)?;
    let custom = e == E::Class
        && r.as_ref()
            .is_some_and(|r| r.to_uppercase() == t.to_uppercase());
    if r.is_none() && e != E::Class || custom {
        return Ok(());
    }
    Err(format!("{t:?} is read as the {e:?} {r:?}"))
}

/// The property through a component.
fn in_component(e: E, t: &str) -> Result<Option<String>, String> {
    let line = match e {
        E::Status => format!("STATUS:{t}\r\n"),
        E::Transp => format!("TRANSP:{t}\r\n"),
        E::Class => format!("CLASS:{t}\r\n"),
        E::Freq => format!("RRULE:FREQ={t}\r\n"),
        E::Weekday => format!("RRULE:FREQ=DAILY;BYDAY={t};WKST={t}\r\n"),
    };
    let text = format!(
        "BEGIN:VEVENT\r\nUID:1\r\nDTSTAMP:20240101T000000Z\r\nDTSTART:20240101T000000Z\r\n{line}END:VEVENT\r\n"
    );
    let Ok(v) = text.parse::<ikal::VEvent>() else {
        return Ok(None);
    };
    let out = ok("an event", ikal::ser::ical(&v))?;
    let rule = v.rrule.as_ref().map(lift::recur);
    let (r, expected) = match e {
        E::Status => (v.status.as_ref().map(|x| lift::status(x).to_string()), line),
        E::Transp => (v.transp.as_ref().map(|x| lift::transp(x).to_string()), line),
        E::Class => (v.class.as_ref().map(lift::class), line),
        E::Freq => (rule.map(|r| r.freq), format!("RRULE:FREQ={t};")),
        E::Weekday => {
            let r = rule.ok_or("no rule")?;
            let d = r.by_day.first().map(|d| d.1.clone());
            if r.wkst != d {
                return Err(format!(
                    "BYDAY={t} is read as {d:?} and WKST={t} as {:?}",
                    r.wkst
                ));
            }
            (d, format!("BYDAY={t}"))
        }
    };
    if r.as_deref() == Some(t) && names(e).contains(&t) && !out.contains(&expected) {
        return Err(format!("{expected:?} is not in what is written: {out}"));
    }
    Ok(r)
}

const EDITS: [char; 12] = ['A', 'S', 'E', 'D', '-', ' ', '1', '_', 'é', 'Y', 'T', 'P'];

fn edits(name: &str) -> Vec<String> {
    let cs = name.chars().collect::<Vec<_>>();
    let mut v = vec![name.to_lowercase(), format!("{name}{name}"), String::new()];
    for i in 0..=cs.len() {
        for c in EDITS {
            let mut x = cs.clone();
            x.insert(i, c);
            v.push(x.iter().collect());
        }
        if i == cs.len() {
            break;
        }
        let mut x = cs.clone();
        x[i] = x[i].to_ascii_lowercase();
        v.push(x.iter().collect());
        v.push(
            cs.iter()
                .enumerate()
                .map(|(j, c)| if j < i { *c } else { c.to_ascii_lowercase() })
                .collect(),
        );
        let mut x = cs.clone();
        x.remove(i);
        v.push(x.iter().collect());
        v.push(cs[..i].iter().collect());
        v.push(cs[i..].iter().collect());
        for c in EDITS {
            let mut x = cs.clone();
            x[i] = c;
            v.push(x.iter().collect());
        }
        if i + 1 < cs.len() {
            let mut x = cs.clone();
            x.swap(i, i + 1);
            v.push(x.iter().collect());
        }
    }
    v
}

fn enumerate(i: u64, cx: &mut Cx) -> Res {
    cx.nontrivial();
    let mut i = i as i64;
    for e in ENUMS {
        let n = names(e).len() as i64;
        if i < n {
            let name = names(e)[i as usize];
            cx.note(format!("{e:?} {name}"));
            good(e, name)?;
            if in_component(e, name)?.as_deref() != Some(name) {
                return Err(format!("the {e:?} {name} of an event is read otherwise"));
            }
            for t in edits(name) {
                cx.step();
                for e in ENUMS {
                    near(e, &t)?;
                }
            }
            for other in ENUMS {
                near(other, name)?;
            }
            return Ok(());
        }
        i -= n;
    }
    if i < 1999 {
        let ord = i - 999;
        cx.note(format!("ordinal {ord}"));
        for d in WEEKDAYS {
            cx.step();
            let mut texts = vec![format!("{ord}{d}")];
            if ord >= 0 {
                texts.push(format!("+{ord}{d}"));
            }
            if ord.abs() < 10 {
                texts.push(format!(
                    "{}0{}{d}",
                    if ord < 0 { "-" } else { "" },
                    ord.abs()
                ));
            }
            for t in texts {
                ordinal(&t, ord, d)?;
            }
        }
        return Ok(());
    }
    let n = i - 1999;
    cx.note(format!("integer {n}"));
    integer(
        "PRIORITY",
        &n.to_string(),
        Some(n as u64).filter(|n| *n < 10),
    )?;
    integer(
        "PERCENT-COMPLETE",
        &n.to_string(),
        Some(n as u64).filter(|n| *n <= 100),
    )?;
    integer("SEQUENCE", &n.to_string(), Some(n as u64))?;
    integer("REPEAT", &n.to_string(), Some(n as u64))
}

fn ordinal(t: &str, ord: i64, d: &str) -> Res {
    let x = t.parse::<ikal::WeekdayNum>().ok();
    let y = ikal::WeekdayNum::try_from(t).ok();
    let z = ikal::WeekdayNum::try_from(t.to_string()).ok();
    if x != y || x != z {
        return Err(format!("{t} is read as {x:?}, {y:?} and {z:?}"));
    }
    match x {
        Some(w) => {
            if w.ord.map(i64::from) != Some(ord) || lift::weekday(&w.weekday) != d {
                return Err(format!("{t} is read as {w:?}"));
            }
            let expected = format!("{ord}{d}");
            let out = ok("an ordinal weekday", ikal::ser::ical(&w))?;
            if out != expected || w.to_string() != expected {
                return Err(format!("{w:?} is written {out} and printed {w}"));
            }
        }
        // RFC 5545: 1 to 53
        None if ord != 0 && ord.abs() <= 53 => return Err(format!("{t} is refused")),
        None => (),
    }
    Ok(())
}

/// An integer of a property in each kind of component that has it.
fn integer(name: &str, t: &str, expected: Option<u64>) -> Res {
    let line = format!("{name}:{t}\r\n");
    let head = "UID:1\r\nDTSTAMP:20240101T000000Z\r\nDTSTART:20240101T000000Z\r\n";
    let check = |what: &str, r: Option<(Option<u64>, Result<String, ikal::Error>)>| -> Res {
        match (r, expected) {
            (None, None) => Ok(()),
            (None, Some(n)) => Err(format!("{what}: {name}:{t} is refused, expected {n}")),
            (Some((n, _)), None) => Err(format!("{what}: {name}:{t} is read as {n:?}")),
            (Some((n, out)), Some(e)) => {
                let out = ok(what, out)?;
                if n != Some(e) {
                    Err(format!("{what}: {name}:{t} is read as {n:?}"))
                } else if !out.contains(&format!("\r\n{name}:{e}\r\n")) {
                    Err(format!(
                        "{what}: {name}:{e} is not in what is written: {out}"
                    ))
                } else {
                    Ok(())
                }
            }
        }
    };
    macro_rules! comp {
        ($what:expr, $ty:ty, $text:expr, $field:ident) => {{
            let text: String = $text;
            let r = text
                .parse::<$ty>()
                .ok()
                .map(|x| (x.$field.map(u64::from), ikal::ser::ical(&x)));
            check($what, r)?;
        }};
    }
    let event = format!("BEGIN:VEVENT\r\n{head}{line}END:VEVENT\r\n");
    let todo = format!("BEGIN:VTODO\r\n{head}{line}END:VTODO\r\n");
    let journal = format!("BEGIN:VJOURNAL\r\n{head}{line}END:VJOURNAL\r\n");
    match name {
        "PRIORITY" => {
            comp!("an event", ikal::VEvent, event, priority);
            comp!("a to-do", ikal::VTodo, todo, priority);
        }
        "PERCENT-COMPLETE" => comp!("a to-do", ikal::VTodo, todo, percent_complete),
        "SEQUENCE" => {
            comp!("an event", ikal::VEvent, event, sequence);
            comp!("a to-do", ikal::VTodo, todo, sequence);
            comp!("a journal", ikal::VJournal, journal, sequence);
        }
        _ => {
            let text = format!(
                "BEGIN:VALARM\r\nACTION:AUDIO\r\nTRIGGER:-PT5M\r\nDURATION:PT5M\r\n{line}END:VALARM\r\n"
            );
            comp!("an audio alarm", ikal::valarm::Audio, text, repeat);
            let text = format!(
                "BEGIN:VALARM\r\nACTION:DISPLAY\r\nDESCRIPTION:d\r\nTRIGGER:-PT5M\r\nDURATION:PT5M\r\n{line}END:VALARM\r\n"
            );
            comp!("a display alarm", ikal::valarm::Display, text, repeat);
            let text = format!(
                "BEGIN:VALARM\r\nACTION:EMAIL\r\nDESCRIPTION:d\r\nSUMMARY:s\r\nTRIGGER:-PT5M\r\nDURATION:PT5M\r\n{line}END:VALARM\r\n"
            );
            comp!("an e-mail alarm", ikal::valarm::Email, text, repeat);
        }
    }
    Ok(())
}

fn same_f(a: f32, b: f32) -> bool {
    a == b
}

fn geo(s: &mut Src, cx: &mut Cx) -> Res {
    let (lat, lon) = (generate::float(s, 90), generate::float(s, 180));
    let t = format!(
        "{};{}",
        render::float_text(s, lat),
        render::float_text(s, lon)
    );
    cx.note(&t);
    let x = ok(&format!("the position {t}"), t.parse::<ikal::Geo>())?;
    let y = ok("a position", ikal::Geo::try_from(t.as_str()))?;
    let z = ok("a position", ikal::Geo::try_from(t.clone()))?;
    if !same_f(x.lat, lat) || !same_f(x.lon, lon) || x != y || x != z {
        return Err(format!("{t} is read as {x:?}, {y:?} and {z:?}"));
    }
    let out = ok("a position", ikal::ser::ical(&x))?;
    let back = ok(&format!("the position {out}"), out.parse::<ikal::Geo>())?;
    if back != x {
        return Err(format!("{x:?} is written {out} and read back {back:?}"));
    }
    if x.to_string() != out {
        return Err(format!("{x:?} is written {out} and printed {x}"));
    }
    for (name, text) in [
        (
            "VEVENT",
            format!(
                "BEGIN:VEVENT\r\nUID:1\r\nDTSTAMP:20240101T000000Z\r\nDTSTART:20240101T000000Z\r\nGEO:{t}\r\nEND:VEVENT\r\n"
            ),
        ),
        (
            "VTODO",
            format!("BEGIN:VTODO\r\nUID:1\r\nDTSTAMP:20240101T000000Z\r\nGEO:{t}\r\nEND:VTODO\r\n"),
        ),
    ] {
        let (g, o) = if name == "VEVENT" {
            let e = ok(name, text.parse::<ikal::VEvent>())?;
            (e.geo.clone(), ok(name, ikal::ser::ical(&e))?)
        } else {
            let e = ok(name, text.parse::<ikal::VTodo>())?;
            (e.geo.clone(), ok(name, ikal::ser::ical(&e))?)
        };
        if g.as_ref() != Some(&x) {
            return Err(format!("GEO:{t} of a {name} is read as {g:?}"));
        }
        if !o.replace("\r\n ", "").contains(&format!("GEO:{out}\r\n")) {
            return Err(format!("GEO:{out} is not in what is written: {o}"));
        }
    }
    // malformed
    let bad = match s.usize(9) {
        0 => t.replace(';', ","),
        1 => t.replace(';', ""),
        2 => format!("{t};1"),
        3 => format!("{t}x"),
        4 => t.split(';').next().unwrap_or("").to_string(),
        5 => format!("{lat};"),
        6 => format!(";{lon}"),
        7 => format!("{lat};nan"),
        _ => format!("inf;{lon}"),
    };
    if let Ok(g) = bad.parse::<ikal::Geo>() {
        return Err(format!("{bad:?} is read as {g:?}"));
    }
    Ok(())
}

fn request_status(s: &mut Src, cx: &mut Cx) -> Res {
    let o = Opt {
        wild: false,
        ..Opt::read()
    };
    let code = generate::statcode(s);
    let desc = generate::text(s, &o);
    let ext = if s.chance(1, 2) {
        Some(generate::text(s, &o))
    } else {
        None
    };
    let mut t = format!(
        "{};{}",
        render::float_text(s, code),
        render::encode_text(s, &desc)
    );
    if let Some(e) = &ext {
        t.push(';');
        t.push_str(&render::encode_text(s, e));
    }
    cx.note(&t);
    let expected = V::Rstatus(code, desc.clone(), ext.clone());
    let x = ok(
        &format!("the request status {t}"),
        t.parse::<ikal::RequestStatus>(),
    )?;
    let y = ok(
        "a request status",
        ikal::RequestStatus::try_from(t.as_str()),
    )?;
    let z = ok("a request status", ikal::RequestStatus::try_from(t.clone()))?;
    if x != y || x != z {
        return Err(format!("{t} is read as {x:?}, {y:?} and {z:?}"));
    }
    if lift::rstatus(&x) != expected {
        return Err(format!("{t} is read as {x:?}"));
    }
    let out = ok("a request status", ikal::ser::ical(&x))?;
    let back = ok(
        &format!("the request status {out}"),
        out.parse::<ikal::RequestStatus>(),
    )?;
    if lift::rstatus(&back) != expected {
        return Err(format!("{x:?} is written {out} and read back {back:?}"));
    }
    // built
    let mut b = ikal::RequestStatus::default();
    b.statcode = code;
    b.statdesc = build::stored(s, &desc, false);
    b.extdata = ext.as_ref().map(|e| build::stored(s, e, false));
    let out = ok("a request status", ikal::ser::ical(&b))?;
    let back = ok(
        &format!("the request status {out}"),
        out.parse::<ikal::RequestStatus>(),
    )?;
    if lift::rstatus(&back) != expected {
        return Err(format!("{b:?} is written {out} and read back {back:?}"));
    }
    // a code is major '.' minor
    let code = out.split(';').next().unwrap_or_default();
    if code.split('.').count() != 2
        || code
            .split('.')
            .any(|p| p.is_empty() || !p.bytes().all(|b| b.is_ascii_digit()))
    {
        return Err(format!("{b:?} is written {out}"));
    }
    // in components
    let head = "UID:1\r\nDTSTAMP:20240101T000000Z\r\nDTSTART:20240101T000000Z\r\n";
    let lines =
        format!("REQUEST-STATUS:{t}\r\nREQUEST-STATUS:2.0;Success\r\nREQUEST-STATUS:{t}\r\n");
    let kind = s.pick(&[Kind::Event, Kind::Todo, Kind::Journal, Kind::Freebusy]);
    let text = format!("BEGIN:{0}\r\n{head}{lines}END:{0}\r\n", kind.name());
    let any = ok(kind.name(), lift::Any::read(kind, &text))?;
    let vals = |n: &Norm| {
        n.props
            .get("REQUEST-STATUS")
            .map(|v| v.iter().map(|x| x.1.clone()).collect::<Vec<_>>())
    };
    let all = Some(vec![
        expected.clone(),
        V::Rstatus(2.0, "Success".into(), None),
        expected,
    ]);
    if vals(&any.lift()) != all {
        return Err(format!("{text} is read as {}", any.debug()));
    }
    let out = ok(kind.name(), any.write())?;
    let back = ok("what is written", lift::Any::read(kind, &out))?;
    if vals(&back.lift()) != all {
        return Err(format!("{out} is read as {}", back.debug()));
    }
    let strict = reader::read(&out).map_err(|e| format!("malformed output: {e}\n{out}"))?;
    if vals(&strict) != all {
        return Err(format!("{text} is written as {out}"));
    }
    // malformed
    let bad = s.pick(&[
        "",
        ";",
        "2.0",
        ";Success",
        "x;Success",
        "2.0,Success",
        "-;x",
        "nan;x",
        "inf;x",
        "2.0:x",
    ]);
    if let Ok(r) = bad.parse::<ikal::RequestStatus>() {
        return Err(format!("{bad:?} is read as {r:?}"));
    }
    Ok(())
}

fn run(s: &mut Src, cx: &mut Cx) -> Res {
    cx.nontrivial();
    match s.weighted(&[4, 4, 3, 3, 1]) {
        0 => {
            cx.label("integer");
            let name = s.pick(&["PRIORITY", "PERCENT-COMPLETE", "SEQUENCE", "REPEAT"]);
            let n = match s.usize(4) {
                0 => generate::uint(s),
                1 => s.below(130),
                2 => s.pick(&[
                    9,
                    10,
                    99,
                    100,
                    101,
                    255,
                    256,
                    u64::from(u32::MAX),
                    u64::from(u32::MAX) + 1,
                    u64::MAX,
                ]),
                _ => s.below(u64::MAX),
            };
            let max = match name {
                "PRIORITY" => 9,
                "PERCENT-COMPLETE" => 100,
                _ => u64::from(u32::MAX),
            };
            let t = format!("{}{n}", s.pick(&["", "", "+", "0", "000"]));
            cx.note(format!("{name}:{t}"));
            integer(name, &t, Some(n).filter(|n| *n <= max))?;
            let bad = match s.usize(9) {
                0 => format!("-{}", n.max(1)),
                1 => format!("{n} "),
                2 => format!(" {n}"),
                3 => format!("{n}.0"),
                4 => format!("{n}x"),
                5 => format!("x{n}"),
                6 => String::new(),
                7 => format!("0x{n}"),
                _ => format!("{n},{n}"),
            };
            integer(name, &bad, None)
        }
        1 => {
            cx.label("name");
            let e = s.pick(&ENUMS);
            let name = s.pick(names(e));
            let mut cs = name.chars().collect::<Vec<_>>();
            for _ in 0..1 + s.count(3) {
                let i = s.usize(cs.len() + 1);
                match s.usize(4) {
                    0 if i < cs.len() => drop(cs.remove(i)),
                    1 if i < cs.len() => cs[i] = s.pick(&EDITS),
                    2 if i < cs.len() => cs[i] = cs[i].to_ascii_lowercase(),
                    _ => cs.insert(i, s.pick(&EDITS)),
                }
            }
            let t: String = cs.into_iter().collect();
            cx.note(format!("{e:?} {t}"));
            near(e, &t)?;
            let alone = read(e, &t)?;
            // an empty rule part or a leading ordinal is another matter
            let inside = in_component(e, &t)?;
            let plain = !t.is_empty() && !t.starts_with(|c: char| c.is_ascii_digit() || c == '-');
            if (e != E::Weekday || plain)
                && !t.contains(' ')
                && alone != inside
                && !(e == E::Class && t.is_empty())
            {
                return Err(format!(
                    "{e:?} {t:?} is read as {alone:?} alone and as {inside:?} in an event"
                ));
            }
            Ok(())
        }
        2 => {
            cx.label("position");
            geo(s, cx)
        }
        3 => {
            cx.label("request status");
            request_status(s, cx)
        }
        _ => {
            cx.label("ordinal");
            let ord = s.range(-128, 127);
            let d = s.pick(&WEEKDAYS);
            let w = ikal::WeekdayNum {
                weekday: build::weekday(d),
                ord: Some(ord as i8),
            };
            cx.note(format!("{w:?}"));
            let t = ok("an ordinal weekday", ikal::ser::ical(&w))?;
            if t != format!("{ord}{d}") {
                return Err(format!("{w:?} is written {t}"));
            }
            ordinal(&t, ord, d)?;
            let none = ikal::WeekdayNum {
                weekday: build::weekday(d),
                ord: None,
            };
            let t = ok("a weekday", ikal::ser::ical(&none))?;
            let back = ok(d, d.parse::<ikal::WeekdayNum>())?;
            if t != d || back != none {
                return Err(format!("{none:?} is written {t}, {d} is read {back:?}"));
            }
            for bad in [
                format!("{d}{ord}"),
                format!("{ord}"),
                format!("{ord} {d}"),
                format!("--1{d}"),
                format!("{d}{d}"),
                format!("1{d}x"),
                format!("300{d}"),
            ] {
                if let Ok(w) = bad.parse::<ikal::WeekdayNum>() {
                    return Err(format!("{bad:?} is read as {w:?}"));
                }
            }
            Ok(())
        }
    }
}
