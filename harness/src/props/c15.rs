use super::{UTC, ok};
use crate::core::{Cx, Def, Exhaustive, Res};
use crate::lift;
use crate::model::*;
use crate::reader;
use crate::tape::Src;

pub static DEF: Def = Def {
    id: "C15",
    rule: "a duration text made of any subset of weeks, days, hours, minutes and seconds with any sign and numbers of one to twenty digits, read in every place a duration has, against the exact sum of its parts; a number of seconds written in every place and read back; all durations up to four days of either sign are enumerated. Non-trivial: two parts or more, a negative one, or one that is too large. Distinct by text.",
    zones: UTC,
    quick: 1_000_000,
    thorough: 6_000_000,
    tape: 60,
    run,
    exhaustive: Some(Exhaustive {
        what: "every whole number of seconds from minus to plus 4 days (one case per minute), written and read",
        total: |_| 4 * 1440,
        run: enumerate,
    }),
    witnesses: &[],
};

/// What the library's type for durations can represent.
const MAX: i128 = i64::MAX as i128 / 1000;

fn written(n: i64) -> Res {
    let d = chrono::TimeDelta::seconds(n);
    let text = ok("a duration", ikal::ser::ical(&d))?;
    match reader::duration(&text) {
        Ok(m) if m == n => (),
        m => return Err(format!("{n} s is written {text}, which means {m:?}")),
    }
    match ikal::parse_duration(&text) {
        Ok(m) if m == d => Ok(()),
        m => Err(format!("{n} s is written {text}, which is read as {m:?}")),
    }
}

fn enumerate(i: u64, cx: &mut Cx) -> Res {
    cx.note(format!("minute {i}"));
    cx.nontrivial();
    for k in 0..60 {
        cx.step();
        let n = i as i64 * 60 + k;
        written(n)?;
        written(-n)?;
    }
    Ok(())
}

fn number(s: &mut Src) -> String {
    match s.weighted(&[5, 3, 2, 1]) {
        0 => s.below(100).to_string(),
        1 => s.below(1_000_000).to_string(),
        2 => format!("{:0w$}", s.below(10_000), w = 1 + s.usize(6)),
        _ => {
            let n = 1 + s.usize(20);
            (0..n).map(|_| (b'0' + s.below(10) as u8) as char).collect()
        }
    }
}

struct Places {
    what: &'static str,
    got: Result<i64, String>,
}

fn places(text: &str) -> Vec<Places> {
    let mut v = Vec::new();
    let mut put = |what, r: Result<Option<V>, ikal::Error>| {
        v.push(Places {
            what,
            got: match r {
                Ok(Some(V::Dur(n))) => Ok(n),
                Ok(x) => Err(format!("it is read as {x:?}")),
                Err(e) => Err(e.to_string()),
            },
        });
    };
    let dur = |d: &chrono::TimeDelta| {
        // whole seconds
        (*d == chrono::TimeDelta::seconds(d.num_seconds())).then(|| V::Dur(d.num_seconds()))
    };
    let per = |p: &ikal::Period| match lift::period(p) {
        P::Dur(_, n) => Some(V::Dur(n)),
        P::End(..) => None,
    };
    put(
        "the stand-alone duration",
        ikal::parse_duration(text).map(|d| dur(&d)),
    );
    put(
        "the stand-alone trigger",
        text.parse::<ikal::Trigger>()
            .map(|t| Some(lift::trigger(&t))),
    );
    put(
        "the stand-alone period",
        format!("20240101T000000/{text}")
            .parse::<ikal::Period>()
            .map(|p| per(&p)),
    );
    let doc = format!(
        "BEGIN:VEVENT\r\nUID:1\r\nDTSTAMP:20240101T000000\r\nDTSTART:20240101T000000\r\nDURATION:{text}\r\nRDATE;VALUE=PERIOD:20240101T000000/{text}\r\nBEGIN:VALARM\r\nACTION:AUDIO\r\nTRIGGER:{text}\r\nDURATION:{text}\r\nREPEAT:1\r\nEND:VALARM\r\nEND:VEVENT\r\n"
    );
    let e = doc.parse::<ikal::VEvent>();
    match e {
        Ok(e) => {
            put(
                "DURATION in an event",
                Ok(e.duration.as_ref().and_then(dur)),
            );
            put(
                "RDATE",
                Ok(e.rdate.first().and_then(|r| match r {
                    ikal::RDate::Period(p) => p.first().and_then(per),
                    ikal::RDate::Date(_) => None,
                })),
            );
            match e.alarms.first() {
                Some(ikal::VAlarm::Audio(a)) => {
                    put("TRIGGER", Ok(Some(lift::trigger(&a.trigger))));
                    put(
                        "DURATION in an alarm",
                        Ok(a.duration.as_ref().and_then(dur)),
                    );
                }
                _ => put("an alarm", Ok(None)),
            }
        }
        Err(e) => put("an event", Err(e)),
    }
    let doc = format!(
        "BEGIN:VTODO\r\nUID:1\r\nDTSTAMP:20240101T000000\r\nDTSTART:20240101T000000\r\nDURATION:{text}\r\nEND:VTODO\r\n"
    );
    put(
        "DURATION in a to-do",
        doc.parse::<ikal::VTodo>()
            .map(|e| e.duration.as_ref().and_then(dur)),
    );
    let doc = format!(
        "BEGIN:VFREEBUSY\r\nUID:1\r\nDTSTAMP:20240101T000000\r\nFREEBUSY:20240101T000000/{text}\r\nEND:VFREEBUSY\r\n"
    );
    put(
        "FREEBUSY",
        doc.parse::<ikal::VFreebusy>()
            .map(|e| e.freebusy.first().and_then(per)),
    );
    let doc = format!(
        "BEGIN:VALARM\r\nACTION:DISPLAY\r\nDESCRIPTION:x\r\nTRIGGER;RELATED=END;VALUE=DURATION:{text}\r\nEND:VALARM\r\n"
    );
    put(
        "a trigger of a display alarm",
        doc.parse::<ikal::valarm::Display>()
            .map(|a| Some(lift::trigger(&a.trigger))),
    );
    v
}

fn run(s: &mut Src, cx: &mut Cx) -> Res {
    // reading
    let sign = s.pick(&["", "-", "+"]);
    let mut text = format!("{sign}P");
    let mut sum: i128 = 0;
    let mut parts = 0;
    let mask = 1 + s.below(31);
    let units: [(char, i128); 5] = [
        ('D', 86_400),
        ('W', 604_800),
        ('H', 3600),
        ('M', 60),
        ('S', 1),
    ];
    let mut time = false;
    for i in [1, 0, 2, 3, 4] {
        if mask & (1 << i) == 0 {
            continue;
        }
        if i >= 2 && !time {
            text.push('T');
            time = true;
        }
        let n = number(s);
        text.push_str(&n);
        text.push(units[i].0);
        let n: i128 = n.parse().unwrap_or(0);
        sum += n * units[i].1;
        parts += 1;
    }
    if sign == "-" {
        sum = -sum;
    }
    cx.note(&text);
    let fits = sum.abs() <= MAX;
    cx.label(if fits { "representable" } else { "too large" });
    cx.label(format!("{parts} parts"));
    cx.nontrivial_if(parts > 1 || sum < 0 || !fits);
    for p in places(&text) {
        cx.step();
        match (fits, p.got) {
            (true, Ok(n)) if i128::from(n) == sum => (),
            (false, Err(_)) => (),
            (true, g) => return Err(format!("{text} is {sum} s, but {}: {g:?}", p.what)),
            (false, g) => return Err(format!("{text} is too large, but {}: {g:?}", p.what)),
        }
    }

    // writing
    let n = match s.weighted(&[3, 3, 2, 1]) {
        0 => s.range(-1_000_000, 1_000_000),
        1 => s.range(-5000, 5000) * s.pick(&[60, 3600, 86_400, 604_800]),
        2 => s.range(-(1 << 40), 1 << 40),
        _ => s.range(-(MAX as i64), MAX as i64),
    };
    cx.note(n.to_string());
    written(n)?;
    let d = chrono::TimeDelta::seconds(n);
    let mut e = ikal::VEvent::default();
    e.duration = Some(d);
    let mut a = ikal::valarm::Audio::default();
    a.trigger = ikal::Trigger::Duration(d);
    a.duration = Some(d);
    e.alarms = vec![a.into()];
    let p = ikal::Period::StartDur(ikal::period::StartDur {
        start: ikal::DateTime::default(),
        duration: d,
    });
    e.rdate = vec![ikal::RDate::Period(vec![p])];
    let out = ok("an event", ikal::ser::ical(&e))?;
    let strict = reader::read(&out).map_err(|m| format!("{m}\n{out}"))?;
    let expected = [
        (strict.props.get("DURATION"), V::Dur(n)),
        (
            strict.props.get("RDATE"),
            V::Periods(vec![P::Dur(crate::cal::D::Naive(0), n)]),
        ),
    ];
    for (got, e) in expected {
        if got.map(|v| v.iter().map(|x| &x.1).collect::<Vec<_>>()) != Some(vec![&e]) {
            return Err(format!("{n} s is written {out}"));
        }
    }
    let back = ok("an event", out.parse::<ikal::VEvent>())?;
    if back.duration != Some(d) || back.rdate != e.rdate {
        return Err(format!(
            "{n} s is read back as {:?} and {:?}",
            back.duration, back.rdate
        ));
    }
    match back.alarms.first() {
        Some(ikal::VAlarm::Audio(a))
            if a.trigger == ikal::Trigger::Duration(d) && a.duration == Some(d) =>
        {
            Ok(())
        }
        a => Err(format!("{n} s is read back as {a:?}")),
    }
}
