//! Generators of documents by meaning.
use crate::cal::{self, D, DAY};
use crate::model::*;
use crate::tape::Src;

#[derive(Clone, Copy, Debug)]
pub struct Opt {
    /// Date-times in UTC may be generated.
    pub utc: bool,
    /// Any character at all in texts (built components), not only those a file can carry.
    pub wild: bool,
    /// Values only a built component can have (interval 0, count 0).
    pub built: bool,
    /// RECURID may be generated.
    pub recurid: bool,
    /// Offsets with seconds.
    pub offset_secs: bool,
    /// Largest number of optional properties of a component.
    pub props: usize,
    /// Largest number of components of a calendar.
    pub comps: usize,
    /// Extension properties.
    pub ext: bool,
    /// Parameters.
    pub params: bool,
    /// Percentage of optional rows that are kept.
    pub density: u64,
    /// Rarely, texts of a hundred kilobytes, thousands of components, values of a list or extensions.
    pub long: bool,
}

impl Opt {
    pub fn read() -> Self {
        Opt {
            utc: true,
            wild: false,
            built: false,
            recurid: false,
            offset_secs: false,
            props: 40,
            comps: 5,
            ext: true,
            params: true,
            density: 25,
            long: false,
        }
    }

    pub fn built() -> Self {
        Opt {
            built: true,
            recurid: true,
            ..Opt::read()
        }
    }
}

pub const WORDS: [&str; 12] = [
    "meeting",
    "Bastille Day",
    "a",
    "réunion",
    "日本語",
    "x-y",
    "2.0",
    "🎉",
    "TODO",
    "north pole",
    "éà",
    "Z",
];

pub const SPECIALS: [char; 14] = [
    ',', ';', '\\', '\n', ':', '"', '=', ' ', '\t', '\'', '/', 'n', 'N', '-',
];

pub const UNICODE: [char; 14] = [
    'é',
    'ß',
    '日',
    '本',
    '\u{1F389}',
    '\u{200B}',
    '\u{FEFF}',
    '\u{85}',
    '\u{2028}',
    '\u{301}',
    '\u{10FFFF}',
    '\u{A0}',
    'Ω',
    '\u{7FF}',
];

pub const TRAPS: [&str; 14] = [
    "BEGIN:VEVENT",
    "END:VEVENT",
    "END:VCALENDAR",
    "\nEND:VEVENT\n",
    "\nX-INJECTED:1\n",
    "\\n",
    "\\\\n",
    "\\,",
    "\\;",
    "\\\\",
    ";VALUE=DATE:",
    "SUMMARY:",
    "\n BEGIN:VALARM\n",
    "http://example.com/a;b,c?d=e:f",
];

pub const WILD: [char; 10] = [
    '\r', '\n', '\0', '\u{7F}', '\u{1B}', '\u{0B}', '\u{0C}', '\u{1}', '\u{85}', '\u{2029}',
];

/// A text by meaning (line breaks are `\n`), or any string when `wild`.
pub fn text(s: &mut Src, o: &Opt) -> String {
    let mut t = String::new();
    let style = s.weighted(&[30, 20, 20, 12, 10, 8, 3, 1]);
    match style {
        0 => {
            let n = 1 + s.count(3);
            for i in 0..n {
                if i > 0 {
                    t.push(' ');
                }
                t.push_str(s.pick::<&str>(&WORDS));
            }
        }
        1 => {
            let n = s.usize(12);
            for _ in 0..n {
                if s.chance(1, 2) {
                    t.push(s.pick(&SPECIALS));
                } else {
                    t.push((b'a' + s.below(26) as u8) as char);
                }
            }
        }
        2 => {
            let n = 1 + s.usize(6);
            for _ in 0..n {
                match s.weighted(&[3, 3, 3, 2]) {
                    0 => t.push_str(s.pick::<&str>(&TRAPS)),
                    1 => t.push(s.pick(&SPECIALS)),
                    2 => t.push(s.pick(&UNICODE)),
                    _ => t.push_str(s.pick::<&str>(&WORDS)),
                }
            }
        }
        3 => {
            // long, so that it has to be folded
            let n = s.range(55, 170);
            let wide = s.pick(&['a', 'é', '日', '\u{1F389}', ',', ' ', '\\']);
            for _ in 0..n {
                let c = match s.weighted(&[4, 4, 1]) {
                    0 => 'x',
                    1 => wide,
                    _ => s.pick(&SPECIALS),
                };
                t.push(c);
            }
            if s.chance(1, 60) {
                // as long as a whole document
                t = t.repeat(2 + s.usize(60));
            } else if o.long && s.chance(1, 1500) {
                // past any bound on the size of a value
                t = t.repeat(400 + s.usize(800));
            }
        }
        4 => {
            let n = s.usize(10);
            for _ in 0..n {
                let c = char::from_u32(s.below(0x11_0000) as u32).unwrap_or('\u{FFFD}');
                if !c.is_control() || o.wild {
                    t.push(c);
                }
            }
        }
        6 => {
            // a constant of the sources, alone or within
            if s.chance(1, 3) {
                t.push_str(s.pick::<&str>(&WORDS));
            }
            let d = crate::dict::string(s);
            t.extend(
                d.replace("\r\n", "\n")
                    .chars()
                    .filter(|c| !c.is_control() || *c == '\n' || *c == '\t' || o.wild),
            );
            if s.chance(1, 3) {
                t.push_str(s.pick::<&str>(&WORDS));
            }
        }
        7 => {
            // as long as a constant of the sources
            let x = s.word() >> 6;
            let n = crate::dict::int(x, 1, 5000).unwrap_or(75) as usize;
            let c = s.pick(&['x', ' ', ',', 'é']);
            let more = s.usize(3);
            t.push_str(&c.to_string().repeat(n - more.min(n)));
            for _ in 0..more.min(n) {
                t.push(s.pick(&SPECIALS));
            }
        }
        _ => (),
    }
    if o.wild && s.chance(1, 3) {
        let n = 1 + s.usize(4);
        for _ in 0..n {
            let at = s.usize(t.chars().count() + 1);
            let at = t.char_indices().nth(at).map_or(t.len(), |x| x.0);
            if s.chance(1, 3) {
                t.insert_str(
                    at,
                    s.pick::<&str>(&[
                        "\r\n",
                        "\r\n ",
                        "\r\nEND:VEVENT\r\n",
                        "\r\nX-INJECTED:1\r\n",
                        "\nX-INJECTED:1",
                    ]),
                );
            } else {
                t.insert(at, s.pick(&WILD));
            }
        }
    }
    if s.chance(1, 40) {
        // between what may be taken for delimiters
        let (a, b) = s.pick(&[
            ("{", "}"),
            ("<", ">"),
            ("(", ")"),
            ("[", "]"),
            ("'", "'"),
            (" ", " "),
            ("\\", "\\"),
            ("\"", "\""),
            ("<![CDATA[", "]]>"),
        ]);
        t = format!("{a}{t}{b}");
    }
    t
}

/// A verbatim value: no line break (unless `wild`), otherwise anything.
pub fn raw(s: &mut Src, o: &Opt) -> String {
    let t = text(s, o);
    if o.wild { t } else { t.replace('\n', "\\n") }
}

pub fn uri(s: &mut Src, o: &Opt) -> String {
    match s.weighted(&[4, 4, 2, 2]) {
        0 => format!(
            "mailto:{}@example.com",
            s.pick(&["john", "jane.doe", "o'neil", "a+b,c"])
        ),
        1 => format!(
            "http://example.com/{}",
            s.pick(&[
                "",
                "a;b=c,d",
                "?q=1,2;3&x=y:z",
                "%7Euser\\x",
                "été",
                "cgi;type=a/b,c:d#e"
            ])
        ),
        2 => s
            .pick(&[
                "CID:jsmith.part3.960817T083000.xyzMail@example.com",
                "urn:uuid:1,2;3",
                "data:;base64,AAAA==",
            ])
            .to_string(),
        _ => raw(s, o),
    }
}

pub fn param_value(s: &mut Src, o: &Opt) -> String {
    match s.weighted(&[8, 8, 6, 4, 4, 1]) {
        5 => crate::dict::string(s).replace(|c| matches!(c, '"' | '\r' | '\n'), ""),
        0 => s
            .pick(&[
                "en",
                "fr-CA",
                "TRUE",
                "CHAIR",
                "audio/basic",
                "Europe/Paris",
                "",
            ])
            .to_string(),
        1 => s
            .pick(&[
                "Doe, John",
                "mailto:jane@example.com",
                "a;b",
                "x:y",
                "http://x.y/;a=b,c:d",
            ])
            .to_string(),
        2 => {
            let n = 1 + s.usize(14);
            let mut t = String::new();
            for _ in 0..n {
                let c = match s.weighted(&[3, 2, 1, u64::from(o.wild)]) {
                    0 => (b'a' + s.below(26) as u8) as char,
                    1 => s.pick(&[',', ';', ':', '=', ' ', '\\', '/', '\'', '^', 'n', '\t']),
                    2 => s.pick(&UNICODE),
                    _ => s.pick(&['"', '"', '\n', '\r', '\0', '\u{7F}']),
                };
                t.push(c);
            }
            if o.wild && s.chance(1, 6) {
                t.push_str(s.pick::<&str>(&[
                    "\r\nEND:VEVENT\r\n",
                    "\":x",
                    "\r\nX-INJECTED:1",
                    "\";A=\"b",
                    "\",b",
                ]));
            }
            t
        }
        3 => {
            // a list of quoted values, kept as it is
            let n = 2 + s.usize(2);
            (0..n)
                .map(|i| format!("\"{}{i}\"", s.pick(&["mailto:x", "a,b", "c;d"])))
                .collect::<Vec<_>>()
                .join(",")
        }
        _ => {
            let n = s.range(60, 120);
            (0..n).map(|_| s.pick(&['a', 'é', ',', ':', ' '])).collect()
        }
    }
    .chars()
    .filter(|c| o.wild || !c.is_control() || *c == '\t')
    .collect()
}

/// A constant of the sources that is a name.
pub fn dict_name(s: &mut Src) -> Option<String> {
    let t = crate::dict::string(s);
    let ok = t.chars().all(|c| c.is_ascii_alphanumeric() || c == '-')
        && !t.eq_ignore_ascii_case("BEGIN")
        && !t.eq_ignore_ascii_case("END");
    (ok && !t.is_empty()).then(|| t.to_string())
}

pub const PARAM_NAMES: [&str; 15] = [
    "LANGUAGE",
    "ALTREP",
    "CN",
    "ROLE",
    "X-P",
    "RSVP",
    "FMTTYPE",
    "DIR",
    "PARTSTAT",
    "X-FILENAME",
    "MEMBER",
    "A",
    "x-apple-radius",
    "X-Mixed-Case",
    "b",
];

pub fn params(s: &mut Src, o: &Opt) -> Params {
    let mut p = Params::new();
    if !o.params || !s.chance(2, 5) {
        return p;
    }
    let n = 1 + s.count(4);
    for i in 0..n {
        let name = if i < PARAM_NAMES.len() {
            s.pick(&PARAM_NAMES).to_string()
        } else {
            format!("X-P{i}")
        };
        let name = if s.chance(1, 24) {
            dict_name(s).unwrap_or(name)
        } else {
            name
        };
        let (name, value) = if s.chance(1, 12) {
            // the parameters of the standard, with the values they have when they are left out
            let (name, value) = s.pick(&STANDARD_PARAMS);
            (name.to_string(), value.to_string())
        } else {
            (name, param_value(s, o))
        };
        p.insert(name, value);
    }
    p
}

pub const STANDARD_PARAMS: [(&str, &str); 22] = [
    ("CUTYPE", "INDIVIDUAL"),
    ("CUTYPE", "GROUP"),
    ("ENCODING", "8BIT"),
    ("ENCODING", "BASE64"),
    ("FBTYPE", "BUSY"),
    ("LANGUAGE", "en"),
    ("PARTSTAT", "NEEDS-ACTION"),
    ("RANGE", "THISANDFUTURE"),
    ("RELATED", "START"),
    ("RELTYPE", "PARENT"),
    ("RELTYPE", "CHILD"),
    ("ROLE", "REQ-PARTICIPANT"),
    ("RSVP", "FALSE"),
    ("TZID", "UTC"),
    ("TZID", "Europe/Paris"),
    ("VALUE", "TEXT"),
    ("VALUE", "URI"),
    ("VALUE", "BINARY"),
    ("VALUE", "CAL-ADDRESS"),
    ("VALUE", "DATE-TIME"),
    ("VALUE", "UNKNOWN"),
    ("CHARSET", "UTF-8"),
];

pub fn day(s: &mut Src) -> i64 {
    match s.weighted(&[5, 3, 3, 1]) {
        0 => cal::days(s.range(1990, 2040), s.range(1, 12), s.range(1, 28)),
        1 => {
            // month ends and leap days
            let y = s.range(1995, 2032);
            let m = s.range(1, 12);
            cal::days(y, m, cal::month_len(y, m) - s.range(0, 3))
        }
        2 => s.range(cal::days(0, 1, 1), cal::days(9999, 12, 31)),
        _ => s.pick(&[
            cal::days(1970, 1, 1),
            cal::days(0, 1, 1),
            cal::days(9999, 12, 31),
            cal::days(2024, 2, 29),
            cal::days(2000, 2, 29),
            cal::days(1969, 12, 31),
            cal::days(999, 12, 31),
        ]),
    }
}

pub fn secs_of_day(s: &mut Src) -> i64 {
    match s.weighted(&[3, 3, 2]) {
        0 => s.range(0, 23) * 3600,
        1 => s.range(0, DAY - 1),
        _ => s.pick(&[0, DAY - 1, 12 * 3600, 3600 * 23 + 59 * 60, 59, 60]),
    }
}

pub fn datetime(s: &mut Src, o: &Opt) -> D {
    let t = match s.weighted(&[34, 1, 5]) {
        0 => day(s) * DAY + secs_of_day(s),
        1 => 0,
        // next to a change of the local clock
        _ => crate::props::c27::instant(s),
    };
    if o.utc && s.chance(1, 2) {
        D::Utc(t)
    } else {
        D::Naive(t)
    }
}

pub fn date(s: &mut Src, o: &Opt) -> D {
    if s.chance(1, 3) {
        D::Date(day(s))
    } else {
        datetime(s, o)
    }
}

pub fn duration(s: &mut Src) -> i64 {
    let n = match s.weighted(&[3, 3, 2, 2, 1, 1]) {
        5 => 0,
        0 => s.range(0, 120) * 60,
        1 => s.range(0, 40) * DAY,
        2 => s.range(0, 400_000),
        3 => s.range(0, 10) * 7 * DAY,
        _ => s.range(0, 100_000_000_000),
    };
    if s.chance(1, 3) { -n } else { n }
}

pub fn positive(s: &mut Src) -> i64 {
    duration(s).abs()
}

pub fn recur(s: &mut Src, o: &Opt) -> R {
    let mut r = R {
        freq: s.pick(&FREQS).to_string(),
        interval: 1,
        ..R::default()
    };
    if s.chance(1, 2) {
        r.interval = s.range(i64::from(!o.built), 255);
    }
    match s.weighted(&[8, 4, 4, 1]) {
        1 => r.count = Some(s.range(i64::from(!o.built), 255)),
        2 => r.until = Some(date(s, o)),
        3 => {
            r.count = Some(s.range(1, 255));
            r.until = Some(date(s, o));
        }
        _ => (),
    }
    let list = |s: &mut Src, lo: i64, hi: i64, signed: bool| {
        let n = 1 + s.count(4);
        (0..n)
            .map(|_| {
                let x = s.range(lo, hi);
                if signed && s.chance(1, 3) { -x } else { x }
            })
            .collect::<Vec<_>>()
    };
    let n = s.count(5);
    for _ in 0..n {
        match s.usize(10) {
            0 => drop(r.by.insert("BYSECOND".into(), list(s, 0, 60, false))),
            1 => drop(r.by.insert("BYMINUTE".into(), list(s, 0, 59, false))),
            2 => drop(r.by.insert("BYHOUR".into(), list(s, 0, 23, false))),
            3 => drop(r.by.insert("BYMONTHDAY".into(), list(s, 1, 31, true))),
            4 => drop(r.by.insert("BYYEARDAY".into(), list(s, 1, 127, true))),
            5 => drop(r.by.insert("BYWEEKNO".into(), list(s, 1, 53, true))),
            6 => drop(r.by.insert("BYMONTH".into(), list(s, 1, 12, false))),
            7 => drop(r.by.insert("BYSETPOS".into(), list(s, 1, 127, true))),
            8 => {
                let n = 1 + s.count(4);
                r.by_day = (0..n)
                    .map(|_| {
                        let ord = match s.weighted(&[3, 1, 1]) {
                            0 => None,
                            1 => Some(s.range(1, 53)),
                            _ => Some(-s.range(1, 53)),
                        };
                        (ord, s.pick(&WEEKDAYS).to_string())
                    })
                    .collect();
            }
            _ => r.wkst = Some(s.pick(&WEEKDAYS).to_string()),
        }
    }
    r
}

pub fn period(s: &mut Src, o: &Opt) -> P {
    let start = match s.weighted(&[1, 1]) {
        0 => D::Naive(s.range(cal::days(1990, 1, 1), cal::days(2040, 1, 1)) * DAY + secs_of_day(s)),
        _ => datetime(s, o),
    };
    if s.chance(1, 2) {
        P::Dur(start, positive(s))
    } else {
        let mut e = start.secs() + s.range(0, 40 * DAY);
        if e > cal::days(9999, 12, 31) * DAY {
            e = start.secs();
        }
        P::End(
            start,
            if let D::Utc(_) = start {
                D::Utc(e)
            } else {
                D::Naive(e)
            },
        )
    }
}

pub fn float(s: &mut Src, max: i64) -> f32 {
    if s.chance(1, 16) {
        return 0.0;
    }
    if s.chance(1, 5) {
        // any number of the type in the range, small ones and those with many digits included
        let f = f32::from_bits((s.word() >> 1) % ((max as f32).to_bits() + 1));
        return if s.chance(1, 2) { -f } else { f };
    }
    let digits = s.usize(7) as u32;
    let scale = 10_i64.pow(digits);
    let n = s.range(0, max * scale);
    let t = format!(
        "{}.{:0w$}",
        n / scale,
        n % scale,
        w = digits.max(1) as usize
    );
    let f = t.parse::<f32>().unwrap();
    if s.chance(1, 2) && f != 0.0 { -f } else { f }
}

pub fn uint(s: &mut Src) -> u64 {
    match s.weighted(&[4, 2, 1]) {
        0 => s.below(20),
        1 => s.below(1 << 32),
        _ => s.pick(&[
            0,
            u64::from(u32::MAX),
            255,
            256,
            65535,
            65536,
            2_147_483_648,
        ]),
    }
}

pub fn statcode(s: &mut Src) -> f32 {
    let major = s.pick(&["1", "2", "3", "4", "10"]);
    let minor = match s.weighted(&[8, 1]) {
        0 => s.pick(&["0", "1", "8", "14", "05", "10"]).to_string(),
        // no more than codes of three levels come to, read as numbers
        _ => format!("{:03}", s.below(1000)),
    };
    format!("{major}.{minor}").parse().unwrap()
}

pub fn class(s: &mut Src, o: &Opt) -> String {
    if o.wild && s.chance(1, 3) {
        text(s, o)
    } else if s.chance(1, 3) {
        s.pick(&[
            "X-SECRET",
            "TOP-SECRET",
            "INTERNAL",
            "PUBLIC2",
            "X-PRIVATE",
            "PRIV",
        ])
        .to_string()
    } else {
        s.pick(&CLASSES).to_string()
    }
}

pub fn offset(s: &mut Src, o: &Opt) -> i64 {
    let mut n = s.range(0, 23) * 3600 + s.pick(&[0, 30, 45, 15, 59, 1]) * 60;
    if o.offset_secs && s.chance(1, 3) {
        n += s.range(1, 59);
    }
    if s.chance(1, 2) { -n } else { n }
}

pub fn value(s: &mut Src, o: &Opt, ty: Ty, kind: Kind) -> V {
    match ty {
        Ty::Text => V::Text(text(s, o)),
        Ty::Action => V::Text(action(kind).to_string()),
        Ty::Uri | Ty::Attach => V::Raw(uri(s, o)),
        Ty::Ext => V::Raw(raw(s, o)),
        Ty::DateTime => V::Date(datetime(s, o)),
        Ty::Date => V::Date(date(s, o)),
        Ty::Duration => V::Dur(duration(s)),
        Ty::Percent => V::Int(s.below(101)),
        Ty::Priority => V::Int(s.below(10)),
        Ty::UInt => V::Int(uint(s)),
        Ty::Geo => V::Geo(float(s, 90), float(s, 180)),
        Ty::Rstatus => {
            let ext = if s.chance(1, 2) {
                Some(text(s, o))
            } else {
                None
            };
            V::Rstatus(statcode(s), text(s, o), ext)
        }
        Ty::Recur => V::Recur(recur(s, o)),
        Ty::Class => V::Name(class(s, o)),
        Ty::Status => V::Name(s.pick(&STATUSES).to_string()),
        Ty::Transp => V::Name(s.pick(&TRANSPS).to_string()),
        Ty::Offset => V::Offset(offset(s, o)),
        Ty::Rdate => {
            let n = 1 + s.count(4);
            if s.chance(1, 3) {
                V::Periods((0..n).map(|_| period(s, o)).collect())
            } else if s.chance(1, 2) {
                V::Dates((0..n).map(|_| D::Date(day(s))).collect())
            } else {
                V::Dates((0..n).map(|_| datetime(s, o)).collect())
            }
        }
        Ty::Period => V::Period(period(s, o)),
        Ty::Trigger => {
            if s.chance(1, 2) {
                V::Date(datetime(s, o))
            } else {
                V::Dur(duration(s))
            }
        }
    }
}

pub fn action(kind: Kind) -> &'static str {
    match kind {
        Kind::Audio => "AUDIO",
        Kind::Email => "EMAIL",
        _ => "DISPLAY",
    }
}

pub const EXT_NAMES: [&str; 33] = [
    "X-FOO",
    "X-WR-CALNAME",
    "X-A",
    "X-1",
    "X-SUMMARY",
    "X-MOZ-LASTACK",
    "X-UID",
    "COLOR",
    "IMAGE",
    "ACKNOWLEDGED",
    "CONFERENCE",
    "NAME",
    "SOURCE",
    "SUMMARY2",
    "DTSTART-X",
    "UID2",
    "BEGINNING",
    "ENDING",
    "XFOO",
    "X",
    "DUE",
    "DTEND",
    "LOCATION",
    "TZNAME",
    "METHOD",
    "FREEBUSY",
    "TRANSP",
    "COMPLETED",
    "TZURL",
    "A/B",
    "X-Foo-Bar",
    "x-low",
    "Color2",
];

pub fn prop(s: &mut Src, o: &Opt, kind: Kind, name: &str, ty: Ty) -> Prop {
    let params = if ty.keeps_params() {
        params(s, o)
    } else {
        Params::new()
    };
    Prop {
        name: name.to_string(),
        ty,
        params,
        value: value(s, o, ty, kind),
    }
}

pub fn comp(s: &mut Src, o: &Opt, kind: Kind) -> Comp {
    let mut props: Vec<Prop> = Vec::new();
    for (name, ty, mode) in table(kind) {
        if *name == "RECURID" && !o.recurid {
            continue;
        }
        let n = match mode {
            Mode::Req => 1,
            Mode::Opt => usize::from(s.chance(o.density, 100)),
            Mode::Multi => {
                if s.chance(o.density, 100) {
                    1 + s.count(3)
                } else {
                    0
                }
            }
            Mode::List => {
                if s.chance(o.density, 100) {
                    1 + s.count(4)
                } else {
                    0
                }
            }
        };
        for i in 0..n {
            if props.len() < o.props || *mode == Mode::Req || i > 4 {
                if i > 0 && s.chance(1, 8) {
                    // the same once more
                    let again = props.last().unwrap().clone();
                    props.push(again);
                } else {
                    props.push(prop(s, o, kind, name, *ty));
                }
            }
        }
    }
    if o.ext && s.chance(2, 5) {
        let n = 1 + s.count(3);
        for i in 0..n {
            let name = if i < EXT_NAMES.len() {
                s.pick(&EXT_NAMES).to_string()
            } else {
                format!("X-N{i}")
            };
            let name = if s.chance(1, 24) {
                dict_name(s).unwrap_or(name)
            } else {
                name
            };
            if row(kind, &name.to_uppercase()).is_none()
                && !props.iter().any(|p| p.name.eq_ignore_ascii_case(&name))
            {
                props.push(prop(s, o, kind, &name, Ty::Ext));
            }
        }
    }
    let mut subs = Vec::new();
    match kind {
        Kind::Event if s.chance(1, 3) => {
            let n = 1 + s.count(3);
            for _ in 0..n {
                let k = s.pick(&ALARMS);
                sub(s, o, k, &mut subs);
            }
        }
        Kind::Timezone => {
            let n = if s.chance(1, 60) {
                s.many()
            } else {
                s.usize(4)
            };
            for _ in 0..n {
                let k = s.pick(&[Kind::Standard, Kind::Daylight]);
                sub(s, o, k, &mut subs);
            }
        }
        _ => (),
    }
    Comp { kind, props, subs }
}

/// One more component, sometimes the same as the last one.
fn sub(s: &mut Src, o: &Opt, kind: Kind, subs: &mut Vec<Comp>) {
    if let Some(c) = subs.last()
        && s.chance(1, 12)
    {
        subs.push(c.clone());
        return;
    }
    let mut new = comp(s, o, kind);
    if let Some(old) = subs.iter().rfind(|c| c.kind == kind) {
        match s.weighted(&[20, 2, 2]) {
            0 => (),
            // another version of it
            1 => keep(&mut new, old, |p| matches!(p, "UID" | "TZID")),
            // it, but for some properties
            _ => {
                let names = table(kind)
                    .iter()
                    .map(|r| r.0)
                    .filter(|_| !s.chance(1, 6))
                    .collect::<Vec<_>>();
                keep(&mut new, old, |p| names.contains(&p));
                if s.chance(1, 2) {
                    new.subs.clone_from(&old.subs);
                }
            }
        }
    }
    subs.push(new);
}

/// The properties of another component in place of its own of the same names.
fn keep(c: &mut Comp, other: &Comp, name: impl Fn(&str) -> bool) {
    c.props.retain(|p| !name(&p.name));
    let kept = other.props.iter().filter(|p| name(&p.name)).cloned();
    c.props.extend(kept);
}

pub fn calendar(s: &mut Src, o: &Opt) -> Comp {
    let mut c = comp(s, o, Kind::Calendar);
    let n = if s.chance(1, 80) {
        s.many()
    } else {
        s.usize(o.comps + 1)
    };
    for _ in 0..n {
        let k = s.pick(&TOP);
        sub(s, o, k, &mut c.subs);
    }
    c
}

/// Beyond any bound on how many there are of something.
fn crowd(s: &mut Src, o: &Opt) -> Comp {
    let n = match s.weighted(&[6, 6, 1]) {
        0 => s.range(250, 1100),
        1 => s.range(1100, 6000),
        _ => s.range(65_000, 67_000),
    } as usize;
    let small = Opt {
        density: 3,
        long: false,
        comps: 1,
        ..*o
    };
    let mut c = any(s, &small);
    let kind = c.kind;
    let lists = table(kind)
        .iter()
        .filter(|r| matches!(r.2, Mode::Multi | Mode::List))
        .collect::<Vec<_>>();
    match s.usize(3) {
        0 if !c.subs.is_empty() => {
            c.subs.truncate(2);
            for x in &mut c.subs {
                x.subs.truncate(1);
            }
            let k = c.subs.len();
            for i in k..n {
                let again = c.subs[i % k].clone();
                c.subs.push(again);
            }
        }
        1 if !lists.is_empty() => {
            let row = s.pick(&lists);
            c.props.retain(|p| p.name != row.0);
            let two = [
                prop(s, &small, kind, row.0, row.1),
                prop(s, &small, kind, row.0, row.1),
            ];
            c.props.extend((0..n).map(|i| two[i % 2].clone()));
        }
        _ if o.ext => {
            let p = prop(s, &small, kind, "X-MANY", Ty::Ext);
            c.props.extend((0..n).map(|i| Prop {
                name: format!("{}MANY{i}", if i % 2 == 0 { "X-" } else { "" }),
                ..p.clone()
            }));
        }
        _ => (),
    }
    c
}

/// Any component of the library, a calendar one time out of three.
pub fn any(s: &mut Src, o: &Opt) -> Comp {
    if o.long && s.chance(1, 5000) {
        return crowd(s, o);
    }
    match s.usize(4) {
        0 => calendar(s, o),
        1 => comp(s, o, Kind::Event),
        _ => {
            let k = s.pick(&[
                Kind::Todo,
                Kind::Journal,
                Kind::Freebusy,
                Kind::Timezone,
                Kind::Standard,
                Kind::Daylight,
                Kind::Audio,
                Kind::Display,
                Kind::Email,
                Kind::Event,
            ]);
            comp(s, o, k)
        }
    }
}
