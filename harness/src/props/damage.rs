//! Damage: arbitrary edits of a text, and typed defects of a document.
use crate::generate;
use crate::model::*;
use crate::render::{Doc, Line};
use crate::tape::Src;

pub const VALUE_TYPES: [Ty; 17] = [
    Ty::Date,
    Ty::DateTime,
    Ty::Duration,
    Ty::Recur,
    Ty::Recur,
    Ty::Period,
    Ty::Rdate,
    Ty::Trigger,
    Ty::Geo,
    Ty::Rstatus,
    Ty::Offset,
    Ty::Priority,
    Ty::UInt,
    Ty::Status,
    Ty::Class,
    Ty::Transp,
    Ty::Text,
];

pub const TOKENS: [&str; 60] = [
    "\r\n",
    "\n",
    "\r",
    "\r\n ",
    "\r\n\t",
    ":",
    ";",
    ",",
    "\"",
    "=",
    "\\",
    "\\n",
    "/",
    "-",
    "+",
    "Z",
    "T",
    "P",
    "PT",
    "0",
    "9",
    "00",
    "99999999999999999999",
    "9223372036854775807",
    "-1",
    "255",
    "256",
    "128",
    "-129",
    "4294967296",
    "é",
    "日",
    "\u{1F389}",
    "\0",
    "BEGIN:",
    "END:",
    "BEGIN:VEVENT\r\n",
    "END:VEVENT\r\n",
    "BEGIN:VALARM\r\nEND:VALARM\r\n",
    "BEGIN:VALARM\r\nACTION:AUDIO\r\nEND:VALARM\r\n",
    "END:VCALENDAR\r\n",
    "ACTION:EMAIL\r\n",
    "TRIGGER:",
    "FREQ=",
    "FREQ=DAILY",
    "UNTIL=",
    ";VALUE=DATE",
    ";VALUE=PERIOD",
    ";TZID=Europe/Paris",
    "RRULE:",
    "inf",
    "NaN",
    "1e99",
    "-0",
    " ",
    "\t",
    "W",
    "23",
    "59",
    "60",
];

/// One edit anywhere.
pub fn edit(s: &mut Src, t: &mut String) {
    let at = |s: &mut Src, t: &str| -> usize {
        let mut i = s.usize(t.len() + 1);
        while !t.is_char_boundary(i) {
            i -= 1;
        }
        i
    };
    match s.usize(10) {
        0 | 1 => {
            let i = at(s, t);
            let tok = s.pick::<&str>(&TOKENS);
            t.insert_str(i, tok);
        }
        2 => {
            // delete a few characters
            let i = at(s, t);
            let n = 1 + s.usize(4);
            let j = t[i..].char_indices().nth(n).map_or(t.len(), |x| i + x.0);
            t.replace_range(i..j, "");
        }
        3 => {
            // replace a character
            let i = at(s, t);
            if let Some(c) = t[i..].chars().next() {
                let new = match s.usize(3) {
                    0 => s.pick::<&str>(&TOKENS).to_string(),
                    1 => char::from_u32(s.below(128) as u32)
                        .unwrap_or('?')
                        .to_string(),
                    _ => char::from_u32(s.below(0x11_0000) as u32)
                        .unwrap_or('\u{FFFD}')
                        .to_string(),
                };
                t.replace_range(i..i + c.len_utf8(), &new);
            }
        }
        4 => {
            // cut
            let i = at(s, t);
            if s.chance(1, 4) {
                t.truncate(i);
            } else {
                let j = at(s, t);
                t.replace_range(i.min(j)..i.max(j), "");
            }
        }
        5 | 6 => {
            // lines: delete, duplicate, swap, move
            let mut lines = t
                .split_inclusive('\n')
                .map(str::to_string)
                .collect::<Vec<_>>();
            if lines.is_empty() {
                return;
            }
            let i = s.usize(lines.len());
            let j = s.usize(lines.len());
            match s.usize(4) {
                0 => drop(lines.remove(i)),
                1 => {
                    let l = lines[i].clone();
                    lines.insert(j, l);
                }
                2 => lines.swap(i, j),
                _ => {
                    let l = lines.remove(i);
                    lines.insert(j.min(lines.len()), l);
                }
            }
            *t = lines.concat();
        }
        7 => {
            // a number
            let digits = t
                .char_indices()
                .filter(|x| x.1.is_ascii_digit())
                .map(|x| x.0)
                .collect::<Vec<_>>();
            if digits.is_empty() {
                return;
            }
            let i = digits[s.usize(digits.len())];
            let j = t[i..]
                .find(|c: char| !c.is_ascii_digit())
                .map_or(t.len(), |x| i + x);
            let j = if s.chance(1, 2) { j } else { i + 1 };
            let new = match s.usize(6) {
                0 => s.below(10).to_string(),
                1 => s.below(100).to_string(),
                2 => s.below(1 << 33).to_string(),
                3 => s.below(u64::MAX).to_string(),
                4 => String::new(),
                _ => "9".repeat(1 + s.usize(30)),
            };
            t.replace_range(i..j, &new);
        }
        8 => {
            // the value of a line
            let colons = t.match_indices(':').map(|x| x.0).collect::<Vec<_>>();
            if colons.is_empty() {
                return;
            }
            let i = colons[s.usize(colons.len())] + 1;
            let j = t[i..].find("\r\n").map_or(t.len(), |x| i + x);
            let new = match s.usize(4) {
                0 => String::new(),
                1 => s.pick::<&str>(&TOKENS).to_string(),
                2 => soup(s),
                _ => {
                    let ty = s.pick(&VALUE_TYPES);
                    let v = generate::value(s, &generate::Opt::read(), ty, Kind::Event);
                    crate::render::value_text(s, &v)
                }
            };
            t.replace_range(i..j, &new);
        }
        _ => {
            // repeat a part
            let i = at(s, t);
            let j = at(s, t);
            let (i, j) = (i.min(j), i.max(j));
            let part = t[i..j].to_string();
            if part.len() < 400 {
                let k = at(s, t);
                t.insert_str(k, &part);
            }
        }
    }
}

pub fn soup(s: &mut Src) -> String {
    let n = s.usize(30);
    let mut t = String::new();
    for _ in 0..n {
        match s.usize(4) {
            0 => t.push_str(s.pick::<&str>(&TOKENS)),
            1 => t.push(char::from_u32(s.below(128) as u32).unwrap_or('?')),
            2 => t.push(char::from_u32(s.below(0x11_0000) as u32).unwrap_or('\u{FFFD}')),
            _ => t.push_str(s.pick::<&str>(&[
                "VCALENDAR",
                "VEVENT",
                "VALARM",
                "20240101",
                "20240101T000000Z",
                "DTSTART",
                "DAILY",
                "SU",
                "PT1H",
                "P1D",
                "PUBLIC",
                "1.5;2.5",
                "2.0;Success",
                "-PT15M",
                "AUDIO",
            ])),
        }
    }
    t
}

/// Texts that are not values of the type.
pub fn bad_values(ty: Ty) -> &'static [&'static str] {
    match ty {
        Ty::DateTime => &[
            "",
            "20240101",
            "20240230T000000",
            "20241301T000000",
            "20240100T000000",
            "20240101T240000",
            "20240101T006000",
            "20240101T000061",
            "20240101T000000X",
            "20240101T000000ZZ",
            "2024-01-01T00:00:00Z",
            "20240101T00000",
            "20240101T0000",
            "T000000",
            " 20240101T000000",
            "20240101T000000 ",
            "20240101 000000",
            "2024011T000000",
            "20240101T000000z",
            "+20240101T000000",
            "20240101T000000,20240102T000000",
            "20240101T000000+0100",
            "٢٠٢٤٠١٠١T000000",
            "now",
            "P1D",
        ],
        Ty::Date => &[
            "",
            "2024",
            "2024010",
            "202401011",
            "20240230",
            "20230229",
            "20241301",
            "20240100",
            "20240101T",
            "20240101T240000",
            "20240101T000000X",
            "20240101T000000ZZ",
            "2024-01-01",
            "20240101Z",
            "20240101 ",
            " 20240101",
            "20240101T00000",
            "tomorrow",
            "-20240101",
            "20240101;",
        ],
        Ty::Duration => &[
            "",
            "P1",
            "1D",
            "PT1",
            "P1X",
            "PT1D",
            "P1H",
            "P1.5D",
            "P99999999999999999999D",
            "--P1D",
            "P-1D",
            "PT1H2",
            "P1D1H",
            "PT1S1M",
            "P1DT1HX",
            "X",
            "P1D ",
            "PT5",
            "T5M",
            "D",
            "PT1W",
        ],
        Ty::Percent => &[
            "101", "255", "256", "-1", "++1", "+-1", "+", "", "a", "1.5", "1 ", " 1", "50%", "1;",
        ],
        Ty::Priority => &[
            "10", "11", "99", "255", "256", "-1", "++1", "+-1", "+", "", "a", "1.5", "1 ", " 1",
            "1,2",
        ],
        Ty::UInt => &[
            "4294967296",
            "99999999999",
            "-1",
            "++1",
            "+-1",
            "+",
            "",
            "x",
            "1.0",
            "1x",
            " 1",
            "1 ",
            "0x1",
            "1,2",
        ],
        Ty::Geo => &[
            "",
            "1",
            "1;",
            ";1",
            "a;b",
            "1;2;3",
            "1,2",
            "1;2x",
            "inf;0",
            "nan;0",
            "1;infinity",
            "1; 2",
            "1;2 ",
            "1.5",
            "1e99;0",
            "++1;2",
            "1;--2",
            "1;+-2",
            "-;1",
            "1;+",
            "1.2.3;4",
            ".;1",
        ],
        Ty::Rstatus => &[
            "",
            "Success",
            "2.0",
            "x;Success",
            ";Success",
            "2.0 ;Success",
            "2.x;Success",
            "2.0,Success",
        ],
        Ty::Recur => &[
            "",
            "INTERVAL=1",
            "FREQ=",
            "FREQ=FOO",
            "FREQ=DAILYX",
            "FREQ",
            "FREQ=DAILY;INTERVAL=x",
            "FREQ=DAILY;INTERVAL=",
            "FREQ=DAILY;INTERVAL=-1",
            "FREQ=DAILY;COUNT=",
            "FREQ=DAILY;COUNT=1x",
            "FREQ=DAILY;COUNT=-1",
            "FREQ=DAILY;UNTIL=2024",
            "FREQ=DAILY;UNTIL=20240230",
            "FREQ=DAILY;UNTIL=20240101T000000ZZ",
            "FREQ=DAILY;BYDAY=XX",
            "FREQ=DAILY;BYDAY=1",
            "FREQ=DAILY;BYDAY=",
            "FREQ=DAILY;BYDAY=MOX",
            "FREQ=DAILY;BYDAY=MO,,TU",
            "FREQ=DAILY;BYDAY=1.5MO",
            "FREQ=DAILY;BYMONTH=a",
            "FREQ=DAILY;BYMONTH=",
            "FREQ=DAILY;BYMONTH=1,",
            "FREQ=DAILY;BYSECOND=300",
            "FREQ=DAILY;WKST=ZZ",
            "FREQ=DAILY;WKST=",
            "FREQ=DAILY;WKST=MO,TU",
            "FREQ=DAILY;=1",
            "=DAILY",
            "FREQ=DAILY;BYHOUR=1 ",
            "FREQ=DAILY;BYMINUTE=1x",
            "FREQ=DAILY;BYMONTHDAY=1-",
            "FREQ=DAILY;COUNT=++1",
            "FREQ=DAILY;COUNT=+-1",
            "FREQ=DAILY;COUNT= 1",
            "FREQ=DAILY;COUNT=1 ",
            "FREQ=DAILY;INTERVAL=++2",
            "FREQ=DAILY;INTERVAL= 2",
            "FREQ=DAILY;INTERVAL=2 ",
            "FREQ=DAILY;INTERVAL=+",
            "FREQ=DAILY;BYMONTH=++1",
            "FREQ=DAILY;BYMONTH=+-1",
            "FREQ=DAILY;BYMONTH=--1",
            "FREQ=DAILY;BYMONTH=-+1",
            "FREQ=DAILY;BYHOUR=+",
            "FREQ=DAILY;BYHOUR=1,++1",
            "FREQ=DAILY;BYMINUTE=++1",
            "FREQ=DAILY;BYSECOND=++1",
            "FREQ=DAILY;BYSECOND= 1",
            "FREQ=DAILY;BYMONTHDAY=++1",
            "FREQ=DAILY;BYMONTHDAY=--1",
            "FREQ=DAILY;BYMONTHDAY=+-1",
            "FREQ=DAILY;BYYEARDAY=++1",
            "FREQ=DAILY;BYYEARDAY=- 1",
            "FREQ=DAILY;BYWEEKNO=++1",
            "FREQ=DAILY;BYWEEKNO=-+1",
            "FREQ=DAILY;BYSETPOS=++1",
            "FREQ=DAILY;BYSETPOS=1,--1",
            "FREQ=DAILY;BYDAY=++1MO",
            "FREQ=DAILY;BYDAY=--1MO",
            "FREQ=DAILY;BYDAY=+MO",
            "FREQ=DAILY;BYDAY=-MO",
            "FREQ=DAILY;BYDAY=1 MO",
            "FREQ=DAILY;BYDAY= MO",
            "FREQ=DAILY;BYYEARDAY=x",
            "FREQ=DAILY;BYWEEKNO=x",
            "FREQ=DAILY;BYSETPOS=x",
            "FREQ=DAILY;COUNT",
            "FREQ=DAILY!",
            "DAILY",
            "FREQ:DAILY",
        ],
        Ty::Status => &[
            "",
            "FOO",
            "CONFIRMED ",
            "CONFIRMEDX",
            "XCONFIRMED",
            "DONE",
            "NEEDSACTION",
            "IN PROCESS",
            "CANCELED",
        ],
        Ty::Transp => &[
            "",
            "FOO",
            "OPAQUE ",
            "OPAQUEX",
            "TRANSPARENTLY",
            "TRANS",
            "BUSY",
        ],
        Ty::Offset => &[
            "", "0100", "+1", "+01", "+01:00", "+0160", "+2400", "+01000", "+0100x", "Z", "+ab00",
            "+ 100", "+0100 ", "UTC", "+-100", "++0100", "1",
        ],
        Ty::Period => &[
            "",
            "20240101T000000Z",
            "a/b",
            "20240101T000000Z/",
            "/PT1H",
            "x/PT1H",
            "20240101/PT1H",
            "20240101T000000Z/20240102",
            "20240101T000000Z/PT1HX",
            "20240101T000000Z/1H",
            "20240101T000000Z/20240102T000000Z/PT1H",
            "20240101T000000Z-20240102T000000Z",
            "20240101T000000Z/PT1H,",
            "20240230T000000Z/PT1H",
        ],
        Ty::Trigger => &[
            "",
            "foo",
            "20240101",
            "P1",
            "-",
            "-15M",
            "20240101T000000ZZ",
            "20240230T000000Z",
            "PT15MX",
            "-PT15M ",
            "PT1H2",
            "20240101T000000X",
        ],
        Ty::Action => &[
            "",
            "PROCEDURE",
            "AUDIOS",
            "X-BEEP",
            "DISPLAY ",
            "NONE",
            "MAIL",
            "AUDIO,DISPLAY",
        ],
        Ty::Text | Ty::Uri | Ty::Attach | Ty::Class | Ty::Ext | Ty::Rdate => &[],
    }
}

/// Sometimes a name that belongs to another vocabulary, or a constant of the sources that is none
/// of the names of the type.
fn foreign(s: &mut Src, ty: Ty) -> Option<&'static str> {
    let names: &[&str] = match ty {
        Ty::Status => &STATUSES,
        Ty::Transp => &TRANSPS,
        Ty::Action => &["AUDIO", "DISPLAY", "EMAIL"],
        _ => return None,
    };
    let t = match s.weighted(&[2, 1, 1]) {
        0 => return None,
        1 => crate::dict::string(s),
        _ => s.pick(&[
            "NEEDS ACTION",
            "SENT",
            "ACCEPTED",
            "DECLINED",
            "DELEGATED",
            "PENDING",
            "BUSY",
            "FREE",
            "BUSY-TENTATIVE",
            "OPAQUE-NOCONFLICT",
            "TRANSPARENT-NOCONFLICT",
            "CANCELLED-UNINVITED",
            "CONFIRMED,TENTATIVE",
            "TRUE",
            "0",
            "1",
            "PUBLIC",
            "PALARM",
            "SOUND",
            "X-NONE",
            "DISPLAY;AUDIO",
        ]),
    };
    let ok = !names.contains(&t) && !t.contains(|c: char| c.is_control());
    ok.then_some(t)
}

/// Characters that end no value of the type when left over.
fn appendable(ty: Ty) -> bool {
    matches!(
        ty,
        Ty::DateTime
            | Ty::Date
            | Ty::Duration
            | Ty::Percent
            | Ty::Priority
            | Ty::UInt
            | Ty::Geo
            | Ty::Recur
            | Ty::Status
            | Ty::Transp
            | Ty::Offset
            | Ty::Rdate
            | Ty::Period
            | Ty::Trigger
            | Ty::Action
    )
}

const JUNK: [&str; 9] = ["X", "!", " ", "\t", "é", "x9", "_", "\\n", ")"];

/// A defect put in the document: what it is and where.
pub struct Defect {
    pub what: String,
}

fn all<'a>(d: &'a mut Doc, path: &mut Vec<usize>, out: &mut Vec<(Vec<usize>, Kind, usize)>) {
    out.push((path.clone(), d.kind, d.lines.len()));
    for (i, x) in d.subs.iter_mut().enumerate() {
        path.push(i);
        all(x, path, out);
        path.pop();
    }
}

fn at<'a>(d: &'a mut Doc, path: &[usize]) -> &'a mut Doc {
    match path.split_first() {
        None => d,
        Some((i, rest)) => at(&mut d.subs[*i], rest),
    }
}

/// Position of the value in a content line of the renderer.
pub fn value_start(text: &str) -> usize {
    let mut quoted = false;
    for (i, c) in text.char_indices() {
        match c {
            '"' => quoted = !quoted,
            ':' if !quoted => return i + 1,
            _ => (),
        }
    }
    text.len()
}

/// Puts one defect; `None` when the drawn one does not apply. The flat lines are given when the
/// defect is one of the BEGIN and END structure.
pub fn defect(s: &mut Src, d: &mut Doc) -> Option<(String, Option<Vec<String>>)> {
    let mut comps = Vec::new();
    all(d, &mut Vec::new(), &mut comps);
    let (path, kind, _) = s.pick(&comps);
    let comp = at(d, &path);
    let k = kind.name();
    match s.weighted(&[3, 6, 5, 2, 2, 2, 2, 2]) {
        0 => {
            let req = table(kind)
                .iter()
                .filter(|r| r.2 == Mode::Req)
                .map(|r| r.0)
                .collect::<Vec<_>>();
            if req.is_empty() {
                return None;
            }
            let name = s.pick(&req);
            comp.lines.retain(|l| l.name != name);
            Some((format!("{k} without {name}"), None))
        }
        1 => {
            let lines = (0..comp.lines.len())
                .filter(|i| {
                    comp.lines[*i]
                        .ty
                        .is_some_and(|t| !bad_values(t).is_empty() || t == Ty::Rdate)
                })
                .collect::<Vec<_>>();
            if lines.is_empty() {
                return None;
            }
            let l = &mut comp.lines[s.pick(&lines)];
            let mut ty = l.ty?;
            let v = value_start(&l.text);
            if ty == Ty::Rdate {
                ty = if l.text.contains("VALUE=PERIOD") {
                    Ty::Period
                } else {
                    Ty::Date
                };
            }
            let bad = match foreign(s, ty) {
                Some(t) => t,
                None => s.pick(bad_values(ty)),
            };
            let is_list =
                row(kind, &l.name).is_some_and(|r| r.2 == Mode::List) || l.ty == Some(Ty::Rdate);
            let old = l.text[v..].to_string();
            let bad = match s.usize(3) {
                1 if is_list => format!("{old},{bad}"),
                2 if is_list => format!("{bad},{old}"),
                _ => bad.to_string(),
            };
            l.text = format!("{}{bad}", &l.text[..v]);
            Some((format!("{k} with {}", l.text), None))
        }
        2 => {
            let lines = (0..comp.lines.len())
                .filter(|i| comp.lines[*i].ty.is_some_and(appendable))
                .collect::<Vec<_>>();
            if lines.is_empty() {
                return None;
            }
            let l = &mut comp.lines[s.pick(&lines)];
            l.text.push_str(s.pick::<&str>(&JUNK));
            Some((format!("{k} with left-over characters in {}", l.text), None))
        }
        3 => {
            if comp.lines.is_empty() {
                return None;
            }
            let i = s.usize(comp.lines.len());
            let l = &mut comp.lines[i];
            l.text = match s.usize(3) {
                0 => l.text.replace(':', ""),
                1 => l.name.clone(),
                _ => l.text[..value_start(&l.text)]
                    .trim_end_matches(':')
                    .replace(':', ""),
            };
            Some((format!("{k} with a line without colon: {}", l.text), None))
        }
        4 => {
            let i = s.usize(comp.lines.len() + 1);
            let text = s.pick(&[
                ":value",
                ";A=b:value",
                "NO COLON",
                "SUM MARY:x",
                "SUMMARY;:x",
                "SUMMARY;A:x",
                "SUMMARY;A=\"b:x",
                "SÉ:x",
                "=:x",
                "*:x",
            ]);
            comp.lines.insert(
                i,
                Line {
                    name: "?".into(),
                    ty: None,
                    text: text.into(),
                },
            );
            Some((format!("{k} with a malformed line: {text}"), None))
        }
        5 => {
            // an unknown component
            let names: &[&str] = match kind {
                Kind::Calendar => &[
                    "VFOO",
                    "X-COMP",
                    "VVENUE",
                    "STANDARD",
                    "VCALENDAR",
                    "VAVAILABILITY",
                ],
                Kind::Timezone => &["VFOO", "VALARM", "SUMMER", "VEVENT", "VTIMEZONE"],
                Kind::Event => &["VFOO", "VEVENT", "STANDARD", "VTODO"],
                _ => &["VFOO", "X-COMP", "VEVENT"],
            };
            let name = s.pick(names);
            let body = s.pick(&[
                "",
                "UID:1\r\n",
                "UID:1\r\nDTSTAMP:20240101T000000Z\r\nDTSTART:20240101T000000Z\r\n",
            ]);
            let text = format!("BEGIN:{name}\r\n{body}END:{name}\r\n");
            let what = format!("{k} with a {name} inside");
            let where_ = if s.chance(1, 2) {
                comp.lines.len()
            } else {
                s.usize(comp.lines.len() + 1)
            };
            comp.lines.insert(
                where_,
                Line {
                    name: "?".into(),
                    ty: None,
                    text: text.trim_end().to_string(),
                },
            );
            Some((what, None))
        }
        6 => {
            // END missing
            let mut flat = Vec::new();
            flatten(d, &mut Vec::new(), &path, &mut flat, None);
            Some((format!("{k} without its END"), Some(flat)))
        }
        _ => {
            let other = s.pick(&[
                "VEVENT",
                "VTODO",
                "VCALENDAR",
                "VALARM",
                "VFOO",
                "STANDARD",
                "VTIMEZONE",
                "",
            ]);
            if other == k {
                return None;
            }
            let mut flat = Vec::new();
            let end = format!("END:{other}");
            flatten(d, &mut Vec::new(), &path, &mut flat, Some(&end));
            Some((format!("{k} ended by {end}"), Some(flat)))
        }
    }
}

fn flatten(
    d: &Doc,
    here: &mut Vec<usize>,
    target: &[usize],
    out: &mut Vec<String>,
    end: Option<&str>,
) {
    out.push(format!("BEGIN:{}", d.kind.name()));
    out.extend(d.lines.iter().map(|l| l.text.clone()));
    for (i, x) in d.subs.iter().enumerate() {
        here.push(i);
        flatten(x, here, target, out, end);
        here.pop();
    }
    if here.as_slice() == target {
        if let Some(e) = end {
            out.push(e.to_string());
        }
    } else {
        out.push(format!("END:{}", d.kind.name()));
    }
}
