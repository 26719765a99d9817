use super::{UTC, ok};
use crate::core::{Cx, Def, Exhaustive, Res};
use crate::generate::{self, Opt};
use crate::model::*;
use crate::reader::{self, split_unescaped, text_strict};
use crate::render;
use crate::tape::Src;

pub static DEF: Def = Def {
    id: "C10",
    rule: "a text (any stored form: plain, escaped, partly escaped, with line breaks of every kind) written alone, as a property, in a list of texts, in a request status and in an alarm; URIs and attachments written; escaped texts and lists read. Every short string over the special characters is also enumerated. Non-trivial: a text with a character to escape. Distinct by texts.",
    zones: UTC,
    quick: 1_000_000,
    thorough: 6_000_000,
    tape: 500,
    run,
    exhaustive: Some(Exhaustive {
        what: "all strings of up to 5 (thorough: 6) of the characters \\ ; , LF n N CR a \"",
        total: |t| if t { count(6) } else { count(5) },
        run: enumerate,
    }),
    witnesses: &[],
};

const ALPHABET: [char; 9] = ['a', '\\', ';', ',', '\n', 'n', 'N', '\r', '"'];

const fn count(max: u32) -> u64 {
    let mut n = 0;
    let mut i = 0;
    while i <= max {
        n += 9u64.pow(i);
        i += 1;
    }
    n
}

fn enumerate(mut i: u64, cx: &mut Cx) -> Res {
    let mut len = 0;
    while i >= 9u64.pow(len) {
        i -= 9u64.pow(len);
        len += 1;
    }
    let mut t = String::new();
    for _ in 0..len {
        t.push(ALPHABET[(i % 9) as usize]);
        i /= 9;
    }
    cx.note(format!("{t:?}"));
    cx.nontrivial_if(special(&t));
    alone(&t)
}

fn special(t: &str) -> bool {
    t.contains(['\\', ';', ',', '\n', '\r'])
}

/// A written text value: everything escaped once, nothing else changed.
fn judge(what: &str, stored: &str, written: &str) -> Res {
    let m =
        text_strict(written).map_err(|e| format!("{what} {stored:?} written {written:?}: {e}"))?;
    if written.contains(['\r', '\n']) {
        return Err(format!(
            "{what} {stored:?} written with a line break: {written:?}"
        ));
    }
    if m != meaning(stored) {
        return Err(format!(
            "{what} {stored:?} written {written:?}, which means {m:?}"
        ));
    }
    // an escaped text is written unchanged
    if !stored.contains(['\r', '\n']) && text_strict(stored).is_ok() && written != stored {
        return Err(format!(
            "{what} {stored:?} is already escaped, written {written:?}"
        ));
    }
    Ok(())
}

fn alone(stored: &str) -> Res {
    let written = ok("a text", ikal::ser::ical(&ikal::Text::from(stored)))?;
    judge("text", stored, &written)?;
    let again = ok(
        "a text",
        ikal::ser::ical(&ikal::Text::from(written.as_str())),
    )?;
    if again != written {
        return Err(format!(
            "text {stored:?}: written {written:?}, then {again:?}"
        ));
    }
    let s: ikal::Text = stored.to_string().into();
    if ok("a text", ikal::ser::ical(&s))? != written {
        return Err(format!(
            "text {stored:?} made from an owned string is written otherwise"
        ));
    }
    // a URI has no escapes
    if !stored.contains(['\r', '\n']) {
        let u = ok("a URI", ikal::ser::ical(&ikal::Uri::from(stored)))?;
        if u != stored {
            return Err(format!("URI {stored:?} written {u:?}"));
        }
    }
    Ok(())
}

fn line<'a>(c: &'a reader::RComp, name: &str) -> Vec<&'a str> {
    c.lines
        .iter()
        .filter(|l| l.name == name)
        .map(|l| l.value.as_str())
        .collect()
}

fn run(s: &mut Src, cx: &mut Cx) -> Res {
    let wild = s.chance(1, 2);
    let o = Opt {
        wild,
        ..Opt::read()
    };
    let n = 1 + s.count(6);
    let mut texts = Vec::new();
    for _ in 0..n {
        let t = generate::text(s, &o);
        // stored in any form
        texts.push(if s.chance(1, 3) {
            render::encode_text(s, &t)
        } else {
            crate::build::stored(s, &t, wild)
        });
    }
    cx.note(format!("{texts:?}"));
    cx.nontrivial_if(texts.iter().any(|t| special(t)));
    for t in &texts {
        alone(t)?;
    }
    // lists and every place a text has in an event
    let uri = generate::uri(s, &Opt::read());
    let mut e = ikal::VEvent::default();
    e.categories = texts.iter().map(|t| t.as_str().into()).collect();
    e.resources = texts.iter().rev().map(|t| t.as_str().into()).collect();
    e.comment = texts.iter().map(|t| t.as_str().into()).collect();
    e.summary = Some(texts[0].as_str().into());
    e.location = Some(texts[n - 1].as_str().into());
    e.url = Some(uri.as_str().into());
    let params = generate::params(s, &Opt::read());
    if !params.is_empty() {
        // whatever the parameters say
        cx.label("with parameters");
        cx.note(format!("{params:?}"));
        let on = |t: &mut ikal::Text| t.params.clone_from(&params);
        e.categories.iter_mut().for_each(on);
        e.resources.iter_mut().take(1).for_each(on);
        e.comment.iter_mut().for_each(on);
        e.summary.iter_mut().for_each(on);
        e.location.iter_mut().for_each(on);
        e.url.iter_mut().for_each(|u| u.params.clone_from(&params));
    }
    e.attach = vec![uri.as_str().into()];
    e.attendee = vec![uri.as_str().into(); 2];
    let mut r = ikal::RequestStatus::default();
    r.statcode = 2.0;
    r.statdesc = texts[0].clone();
    r.extdata = Some(texts[n - 1].clone());
    e.rstatus = vec![r];
    let written = ok("an event", ikal::ser::ical(&e))?;
    let tree = reader::tree(&written).map_err(|m| format!("malformed output: {m}\n{written}"))?;
    let lists: [(&str, Vec<&String>); 2] = [
        ("CATEGORIES", texts.iter().collect()),
        ("RESOURCES", texts.iter().rev().collect()),
    ];
    for (name, expected) in lists {
        let got = line(&tree, name)
            .into_iter()
            .flat_map(|v| split_unescaped(v, ','))
            .collect::<Vec<_>>();
        if got.len() != expected.len() {
            return Err(format!(
                "{name}: {} texts written as {got:?}",
                expected.len()
            ));
        }
        for (e, g) in expected.iter().zip(got) {
            judge(name, e, g)?;
        }
    }
    for (e, g) in texts.iter().zip(line(&tree, "COMMENT")) {
        judge("COMMENT", e, g)?;
    }
    judge(
        "SUMMARY",
        &texts[0],
        line(&tree, "SUMMARY").first().ok_or("no SUMMARY")?,
    )?;
    judge(
        "LOCATION",
        &texts[n - 1],
        line(&tree, "LOCATION").first().ok_or("no LOCATION")?,
    )?;
    for name in ["URL", "ATTACH", "ATTENDEE"] {
        for g in line(&tree, name) {
            if g != uri {
                return Err(format!("{name}: {uri:?} written {g:?}"));
            }
        }
    }
    let rs = line(&tree, "REQUEST-STATUS");
    let rs = split_unescaped(rs.first().ok_or("no REQUEST-STATUS")?, ';');
    if rs.len() != 3 {
        return Err(format!("REQUEST-STATUS has {} parts: {rs:?}", rs.len()));
    }
    judge("REQUEST-STATUS", &texts[0], rs[1])?;
    judge("REQUEST-STATUS", &texts[n - 1], rs[2])?;

    // reading: the separators are the unescaped commas
    let meanings = (0..n)
        .map(|_| generate::text(s, &Opt::read()))
        .collect::<Vec<_>>();
    let value = meanings
        .iter()
        .map(|m| render::encode_text(s, m))
        .collect::<Vec<_>>()
        .join(",");
    let with = if s.chance(1, 4) {
        let (name, value) = s.pick(&generate::STANDARD_PARAMS);
        format!(";{name}={value}")
    } else {
        String::new()
    };
    let text = format!(
        "BEGIN:VEVENT\r\nUID:1\r\nDTSTAMP:20240101T000000\r\nDTSTART:20240101T000000\r\nCATEGORIES{with}:{value}\r\nRESOURCES:{value}\r\nEND:VEVENT\r\n"
    );
    cx.note(&text);
    let e = ok("an event", text.parse::<ikal::VEvent>())?;
    for (name, list) in [("CATEGORIES", &e.categories), ("RESOURCES", &e.resources)] {
        let got = list.iter().map(|t| meaning(&t.text)).collect::<Vec<_>>();
        if got != meanings {
            return Err(format!("{name}:{value} is read as {got:?}"));
        }
    }
    // what was read is written unchanged
    let back = ok("an event", ikal::ser::ical(&e))?;
    let tree = reader::tree(&back).map_err(|m| format!("malformed output: {m}\n{back}"))?;
    for name in ["CATEGORIES", "RESOURCES"] {
        let got = line(&tree, name).join(",");
        if got != value {
            return Err(format!("{name}:{value} is read, and written {got}"));
        }
    }
    Ok(())
}
