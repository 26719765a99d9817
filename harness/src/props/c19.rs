use super::ZONES;
use super::recurring::{self, Gen};
use crate::cal::{self, D};
use crate::core::{Cx, Def, Res, Witness};
use crate::model::{Kind, R, WEEKDAYS};
use crate::render;
use crate::tape::Src;

pub static DEF: Def = Def {
    id: "C19",
    rule: "an event, to-do or journal with a start of any kind (month ends and leap days favoured), a frequency, an interval, a count or an until date at, just before or just after an occurrence, both or neither; its first occurrences (all of them when they end) against the reference expansion, taken one by one and sometimes otherwise (nth, skip, step_by, take, find, peek, last, fold, count, size_hint). Non-trivial: two occurrences or more. Distinct by start and rule.",
    zones: ZONES,
    quick: 2_000_000,
    thorough: 8_000_000,
    tape: 400,
    run,
    exhaustive: None,
    witnesses: &[
        Witness {
            key: "by-parts",
            run: by_parts,
        },
        Witness {
            key: "rdate",
            run: rdate,
        },
    ],
};

/// RFC 5545 3.3.10: BYxxx parts limit or expand the set.
fn by_parts(cx: &mut Cx) -> Res {
    let text = "BEGIN:VEVENT\r\nUID:1\r\nDTSTAMP:20240101T000000\r\nDTSTART:20240101T000000\r\nRRULE:FREQ=WEEKLY;BYDAY=MO,WE;COUNT=4\r\nEND:VEVENT\r\n";
    cx.note(text);
    let e = super::ok("an event", text.parse::<ikal::VEvent>())?;
    let got = e
        .recurrent()
        .map(|x| D::of_date(&x.dtstart).text())
        .collect::<Vec<_>>();
    if got
        == [
            "20240101T000000",
            "20240103T000000",
            "20240108T000000",
            "20240110T000000",
        ]
    {
        Ok(())
    } else {
        Err(format!("BYDAY=MO,WE expands to {got:?}"))
    }
}

/// RFC 5545 3.8.5.2: RDATE adds occurrences.
fn rdate(cx: &mut Cx) -> Res {
    let text = "BEGIN:VEVENT\r\nUID:1\r\nDTSTAMP:20240101T000000\r\nDTSTART:20240101T000000\r\nRDATE:20240105T000000\r\nRRULE:FREQ=WEEKLY;COUNT=2\r\nEND:VEVENT\r\n";
    cx.note(text);
    let e = super::ok("an event", text.parse::<ikal::VEvent>())?;
    let got = e
        .recurrent()
        .map(|x| D::of_date(&x.dtstart).text())
        .collect::<Vec<_>>();
    if got == ["20240101T000000", "20240105T000000", "20240108T000000"] {
        Ok(())
    } else {
        Err(format!("with RDATE:20240105T000000, it expands to {got:?}"))
    }
}

/// Parts that say of each occurrence what the start already does: they leave the set as it is.
fn implied(s: &mut Src, start: D, rule: &mut R) {
    let (_, m, d) = cal::civil(start.day());
    let t = start.secs().rem_euclid(cal::DAY);
    let mut parts = match rule.freq.as_str() {
        "WEEKLY" => vec![("BYDAY", 0)],
        "MONTHLY" => vec![("BYMONTHDAY", d)],
        "YEARLY" => vec![("BYMONTH", m), ("BYMONTHDAY", d)],
        _ => vec![],
    };
    if start.has_time() {
        let level = match rule.freq.as_str() {
            "SECONDLY" => 0,
            "MINUTELY" => 1,
            "HOURLY" => 2,
            _ => 3,
        };
        parts.extend(
            [
                ("BYSECOND", t % 60),
                ("BYMINUTE", t / 60 % 60),
                ("BYHOUR", t / 3600),
            ]
            .into_iter()
            .take(level),
        );
    }
    // a day of each year takes its month too
    let all = rule.freq == "YEARLY" || s.chance(1, 2);
    for (name, x) in parts {
        if !all && s.chance(1, 2) {
            continue;
        }
        if name == "BYDAY" {
            // 1970-01-01 was a Thursday
            let names = ["MO", "TU", "WE", "TH", "FR", "SA", "SU"];
            let i = (start.day() + 3).rem_euclid(7) as usize;
            rule.by_day = vec![(None, names[i].to_string())];
        } else {
            rule.by.insert(name.to_string(), vec![x]);
        }
    }
    if s.chance(1, 3) {
        rule.wkst = Some(s.pick(&WEEKDAYS).to_string());
    }
}

/// The component, read from its text.
fn read(s: &mut Src, cx: &mut Cx, r: &recurring::Rec) -> Result<recurring::Any, String> {
    let date = |name: &str, d: D| {
        if let D::Date(_) = d {
            format!("{name};VALUE=DATE:{}", d.text())
        } else {
            format!("{name}:{}", d.text())
        }
    };
    let mut lines = vec![
        "UID:1".to_string(),
        "DTSTAMP:20240101T000000".to_string(),
        date("DTSTART", r.start),
        format!("RRULE:{}", render::recur_text(s, &r.rule)),
    ];
    if let Some(end) = r.end {
        lines.push(date(
            if r.kind == Kind::Event {
                "DTEND"
            } else {
                "DUE"
            },
            end,
        ));
    }
    s.shuffle(&mut lines);
    let name = r.kind.name();
    let text = format!("BEGIN:{name}\r\n{}\r\nEND:{name}\r\n", lines.join("\r\n"));
    cx.note(&text);
    let e = |e: ikal::Error| format!("reading {text:?}: {e}");
    Ok(match r.kind {
        Kind::Event => recurring::Any::Event(Box::new(text.parse().map_err(e)?)),
        Kind::Todo => recurring::Any::Todo(Box::new(text.parse().map_err(e)?)),
        _ => recurring::Any::Journal(Box::new(text.parse().map_err(e)?)),
    })
}

fn run(s: &mut Src, cx: &mut Cx) -> Res {
    let mut g = Gen {
        utc: true,
        utc_monthly: cx.is_utc(),
        exdates: false,
        content: s.chance(1, 8),
        interval_zero: false,
        other_end: false,
    };
    let mut r = recurring::rec(s, &g);
    let mut n = s.pick(&[14, 5, 40, 300]);
    if s.chance(1, 2000) {
        // further than any limit
        g.content = false;
        r.rule.count = None;
        n = s.far();
    }
    if s.chance(1, 6) && r.rule.by.is_empty() {
        implied(s, r.start, &mut r.rule);
        cx.label("parts the start implies");
    }
    cx.note(format!(
        "{:?} {} {:?} first {n}, in {}",
        r.kind,
        r.start.text(),
        r.rule,
        cx.zone
    ));
    recurring::label(cx, &r);
    let any = if r.rule.count != Some(0) && s.chance(1, 6) {
        cx.label("read");
        read(s, cx, &r)?
    } else {
        recurring::build(s, &g, &r)
    };
    let (expected, done) = recurring::expected(r.start, &r.rule, n);
    // chrono has no date after the year 262142
    let cut = expected
        .iter()
        .position(|d| d.day() > cal::days(262_000, 1, 1));
    let ended = done && cut.is_none();
    let n = cut.unwrap_or(n);
    let expected = expected[..n.min(expected.len())].to_vec();
    cx.nontrivial_if(expected.len() >= 2);
    let mut it = any.expand();
    let mut got = Vec::new();
    for _ in 0..n {
        match it.next() {
            Some(x) => got.push(x.start().ok_or("an occurrence without start")?),
            None => break,
        }
    }
    if got != expected {
        return Err(format!(
            "{} {:?}:\nexpected {}\n     got {}",
            r.start.text(),
            r.rule,
            recurring::show(&expected),
            recurring::show(&got)
        ));
    }
    if done && expected.len() == n {
        // the series is over
        if let Some(x) = it.next() {
            return Err(format!(
                "{} {:?}: one more occurrence at {:?}",
                r.start.text(),
                r.rule,
                x.start()
            ));
        }
    }
    if !done && expected.len() < n {
        return Err("reference".into());
    }
    if n < 1000 && s.chance(1, 4) {
        recurring::otherwise(s, &any, &got, ended, |x| x.start().unwrap_or(r.start))?;
    }
    // increasing
    for w in got.windows(2) {
        if w[1].secs() <= w[0].secs() {
            return Err(format!("{:?} after {:?}", w[1], w[0]));
        }
    }
    // as dates of the library too
    if let (Some(a), D::Date(_)) = (got.last(), r.start)
        && !matches!(r.rule.freq.as_str(), "HOURLY" | "MINUTELY" | "SECONDLY")
        && a.has_time()
    {
        return Err(format!("a date becomes {a:?}"));
    }
    Ok(())
}
