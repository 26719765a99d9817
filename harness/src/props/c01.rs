use super::{ZONES, damage, document};
use crate::core::{Cx, Def, Res};
use crate::generate::{self, Opt};
use crate::lift::{Any, ENTRIES};
use crate::model::*;
use crate::render;
use crate::tape::Src;

pub static DEF: Def = Def {
    id: "C01",
    rule: "a text given to the reading entry points: arbitrary characters, a rendered calendar or component with 0 to 12 edits (characters, lines, parts, numbers), or a value of each type with edits; what is read is printed and written. Non-trivial: the text is refused after at least one good line or value prefix, or it is accepted after an edit (that is: it derives from a well-formed one). Distinct by text.",
    zones: ZONES,
    quick: 280_000,
    thorough: 6_000_000,
    tape: 1800,
    run,
    exhaustive: None,
    witnesses: &[],
};

const KINDS: [Kind; 11] = [
    Kind::Calendar,
    Kind::Event,
    Kind::Todo,
    Kind::Journal,
    Kind::Freebusy,
    Kind::Timezone,
    Kind::Standard,
    Kind::Daylight,
    Kind::Audio,
    Kind::Display,
    Kind::Email,
];

pub fn read_component(cx: &mut Cx, kind: Kind, s: &mut Src, text: &str) -> bool {
    let e = s.pick(&ENTRIES);
    cx.step();
    let r = if kind.is_alarm() && s.chance(1, 2) {
        Any::read_alarm_kind(kind, text, e)
    } else {
        Any::read_by(kind, text, e)
    };
    match r {
        Ok(any) => {
            let _ = any.debug();
            let _ = any.write();
            let _ = any.lift();
            true
        }
        Err(e) => {
            let _ = e.to_string();
            let _ = format!("{e:?}");
            false
        }
    }
}

fn one<T>(text: &str) -> bool
where
    T: std::str::FromStr<Err = ikal::Error> + std::fmt::Debug + ikal::ser::Serialize,
{
    match text.parse::<T>() {
        Ok(v) => {
            let _ = format!("{v:#?}");
            let _ = ikal::ser::ical(&v);
            true
        }
        Err(e) => {
            let _ = format!("{e} {e:?}");
            false
        }
    }
}

/// Every reader of a single value.
pub fn read_values(text: &str) -> bool {
    let mut any = false;
    any |= one::<ikal::Date>(text);
    any |= one::<ikal::DateTime>(text);
    any |= one::<ikal::Period>(text);
    any |= one::<ikal::Recur>(text);
    any |= one::<ikal::Freq>(text);
    any |= one::<ikal::Weekday>(text);
    any |= one::<ikal::WeekdayNum>(text);
    any |= one::<ikal::Status>(text);
    any |= one::<ikal::TimeTransparency>(text);
    any |= one::<ikal::Geo>(text);
    any |= one::<ikal::RequestStatus>(text);
    any |= one::<ikal::Trigger>(text);
    let _ = one::<ikal::Class>(text);
    if let Ok(d) = ikal::parse_duration(text) {
        let _ = ikal::ser::ical(&d);
        any = true;
    }
    if let Ok(p) = text.parse::<ikal::Period>() {
        let _ = p.duration();
        let _ = p.to_string();
    }
    let _ = ikal::ser::ical(&ikal::Text::from(text));
    let _ = ikal::ser::ical(&ikal::Uri::from(text));
    any
}

fn run(s: &mut Src, cx: &mut Cx) -> Res {
    let o = Opt {
        offset_secs: true,
        ..Opt::read()
    };
    match s.weighted(&[6, 3, 1, 1]) {
        0 => {
            let (c, d) = document(s, &o, false);
            let lines = d.flat();
            let mut text = render::fold(s, &lines);
            let n = s.weighted(&[1, 4, 3, 2, 2]);
            let n = if n == 4 { 4 + s.usize(9) } else { n };
            for _ in 0..n {
                damage::edit(s, &mut text);
            }
            cx.note(&text);
            let mut accepted = read_component(cx, c.kind, s, &text);
            if s.chance(1, 4) {
                let k = s.pick(&KINDS);
                accepted |= read_component(cx, k, s, &text);
            }
            cx.label(if accepted {
                "edited document accepted"
            } else {
                "edited document refused"
            });
            cx.label(format!("edits={}", n.min(5)));
            cx.nontrivial();
        }
        1 => {
            let ty = s.pick(&damage::VALUE_TYPES);
            let v = generate::value(s, &o, ty, Kind::Event);
            let mut text = render::value_text(s, &v);
            let n = s.usize(5);
            for _ in 0..n {
                damage::edit(s, &mut text);
            }
            cx.note(&text);
            let accepted = read_values(&text);
            cx.label(if accepted {
                "edited value accepted"
            } else {
                "edited value refused"
            });
            // and in a property
            let name = match ty {
                Ty::Recur => "RRULE",
                Ty::Rdate => "RDATE;VALUE=PERIOD",
                Ty::Geo => "GEO",
                Ty::Duration => "DURATION",
                Ty::Date => "EXDATE",
                Ty::Rstatus => "REQUEST-STATUS",
                Ty::Priority => "PRIORITY",
                Ty::UInt => "SEQUENCE",
                Ty::Status => "STATUS",
                Ty::Class => "CLASS",
                Ty::Transp => "TRANSP",
                _ => "CATEGORIES",
            };
            let doc = format!(
                "BEGIN:VEVENT\r\nUID:1\r\nDTSTAMP:20240101T000000Z\r\nDTSTART:20240101T000000\r\n{name}:{text}\r\nEND:VEVENT\r\n"
            );
            read_component(cx, Kind::Event, s, &doc);
            let doc = format!(
                "BEGIN:VFREEBUSY\r\nUID:1\r\nDTSTAMP:20240101T000000Z\r\nFREEBUSY:{text}\r\nEND:VFREEBUSY\r\n"
            );
            read_component(cx, Kind::Freebusy, s, &doc);
            let doc = format!(
                "BEGIN:VALARM\r\nACTION:AUDIO\r\nTRIGGER:{text}\r\nREPEAT:{text}\r\nEND:VALARM\r\n"
            );
            read_component(cx, Kind::Audio, s, &doc);
            let doc = format!(
                "BEGIN:STANDARD\r\nDTSTART:{text}\r\nTZOFFSETTO:{text}\r\nTZOFFSETFROM:{text}\r\nEND:STANDARD\r\n"
            );
            read_component(cx, Kind::Standard, s, &doc);
            cx.nontrivial();
        }
        2 => {
            let text = damage::soup(s);
            cx.note(&text);
            cx.label("soup");
            let k = s.pick(&KINDS);
            read_component(cx, k, s, &text);
            read_component(cx, Kind::Calendar, s, &text);
            read_values(&text);
        }
        _ if s.chance(1, 100) => {
            // far longer than any limit of the stack or of a number
            let mut scale = 1;
            let which = if s.chance(1, 3) { 0 } else { s.usize(9) };
            let size = 16_000 << s.usize(8);
            let size = size + s.usize(size);
            let (kind, make) = super::c32::shape(s, cx, &mut scale, which);
            let text = make(size);
            let end = text.floor_char_boundary(4000);
            cx.note(format!("{} octets: {}", text.len(), &text[..end]));
            cx.label("megabytes");
            let accepted = read_component(cx, kind, s, &text);
            cx.nontrivial_if(accepted);
        }
        _ => {
            // long inputs
            let piece = match s.usize(8) {
                0 => "BEGIN:VEVENT\r\n".to_string(),
                1 => "BEGIN:VALARM\r\n".to_string(),
                2 => "\r\n ".to_string(),
                3 => ";A=\"\"".to_string(),
                4 => "\"a\",".to_string(),
                5 => "9".to_string(),
                6 => "X:1\r\n".to_string(),
                _ => damage::soup(s),
            };
            let limit = if cx.thorough { 60_000 } else { 6_000 };
            let n = s.range(1, limit) as usize / piece.len().max(1) + 1;
            let body = piece.repeat(n);
            let text = match s.usize(4) {
                0 => body,
                1 => format!(
                    "BEGIN:VCALENDAR\r\nVERSION:2.0\r\nPRODID:1\r\n{body}\r\nEND:VCALENDAR\r\n"
                ),
                2 => format!(
                    "BEGIN:VEVENT\r\nUID{body}:1\r\nDTSTAMP:20240101T000000Z\r\nDTSTART:{body}\r\nEND:VEVENT\r\n"
                ),
                _ => format!("P{body}D"),
            };
            cx.note(&text);
            cx.label("long");
            let k = s.pick(&KINDS);
            read_component(cx, k, s, &text);
            read_component(cx, Kind::Calendar, s, &text);
            read_component(cx, Kind::Event, s, &text);
            read_values(&text);
        }
    }
    Ok(())
}
