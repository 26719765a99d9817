//! The document model: components, properties and values by meaning.
use crate::cal::D;
use std::collections::BTreeMap;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Kind {
    Calendar,
    Event,
    Todo,
    Journal,
    Freebusy,
    Timezone,
    Standard,
    Daylight,
    Audio,
    Display,
    Email,
}

pub const TOP: [Kind; 9] = [
    Kind::Event,
    Kind::Todo,
    Kind::Journal,
    Kind::Freebusy,
    Kind::Timezone,
    Kind::Audio,
    Kind::Display,
    Kind::Email,
    Kind::Event,
];

pub const ALARMS: [Kind; 3] = [Kind::Display, Kind::Audio, Kind::Email];

impl Kind {
    pub fn name(self) -> &'static str {
        match self {
            Kind::Calendar => "VCALENDAR",
            Kind::Event => "VEVENT",
            Kind::Todo => "VTODO",
            Kind::Journal => "VJOURNAL",
            Kind::Freebusy => "VFREEBUSY",
            Kind::Timezone => "VTIMEZONE",
            Kind::Standard => "STANDARD",
            Kind::Daylight => "DAYLIGHT",
            Kind::Audio | Kind::Display | Kind::Email => "VALARM",
        }
    }

    pub fn is_alarm(self) -> bool {
        matches!(self, Kind::Audio | Kind::Display | Kind::Email)
    }

    /// Components of the same group are kept in order among themselves.
    pub fn group(self) -> &'static str {
        self.name()
    }
}

/// Type of a property value.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Ty {
    Text,
    Action,
    Uri,
    /// ATTACH: kept as a text by the library, written raw.
    Attach,
    DateTime,
    Date,
    Duration,
    Percent,
    Priority,
    UInt,
    Geo,
    Rstatus,
    Recur,
    Class,
    Status,
    Transp,
    Offset,
    Rdate,
    Period,
    Trigger,
    Ext,
}

impl Ty {
    /// Types whose parameters the library keeps.
    pub fn keeps_params(self) -> bool {
        matches!(self, Ty::Text | Ty::Action | Ty::Uri | Ty::Attach | Ty::Ext)
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Mode {
    Req,
    Opt,
    /// One value per line, many lines.
    Multi,
    /// Many values per line, many lines.
    List,
}

pub type Row = (&'static str, Ty, Mode);

use Mode::{List, Multi, Opt, Req};

pub const CALENDAR: &[Row] = &[
    ("PRODID", Ty::Text, Req),
    ("VERSION", Ty::Text, Req),
    ("CALSCALE", Ty::Text, Opt),
    ("METHOD", Ty::Text, Opt),
];

pub const EVENT: &[Row] = &[
    ("DTSTAMP", Ty::DateTime, Req),
    ("UID", Ty::Text, Req),
    ("DTSTART", Ty::Date, Req),
    ("CLASS", Ty::Class, Opt),
    ("CREATED", Ty::DateTime, Opt),
    ("DESCRIPTION", Ty::Text, Opt),
    ("GEO", Ty::Geo, Opt),
    ("LAST-MODIFIED", Ty::DateTime, Opt),
    ("LOCATION", Ty::Text, Opt),
    ("ORGANIZER", Ty::Uri, Opt),
    ("PRIORITY", Ty::Priority, Opt),
    ("SEQUENCE", Ty::UInt, Opt),
    ("STATUS", Ty::Status, Opt),
    ("SUMMARY", Ty::Text, Opt),
    ("TRANSP", Ty::Transp, Opt),
    ("URL", Ty::Uri, Opt),
    ("RECURID", Ty::Date, Opt),
    ("RRULE", Ty::Recur, Opt),
    ("DTEND", Ty::Date, Opt),
    ("DURATION", Ty::Duration, Opt),
    ("ATTACH", Ty::Attach, Multi),
    ("ATTENDEE", Ty::Uri, Multi),
    ("CATEGORIES", Ty::Text, List),
    ("COMMENT", Ty::Text, Multi),
    ("CONTACT", Ty::Text, Multi),
    ("EXDATE", Ty::Date, List),
    ("REQUEST-STATUS", Ty::Rstatus, Multi),
    ("RELATED-TO", Ty::Text, Multi),
    ("RESOURCES", Ty::Text, List),
    ("RDATE", Ty::Rdate, Multi),
];

pub const TODO: &[Row] = &[
    ("DTSTAMP", Ty::DateTime, Req),
    ("UID", Ty::Text, Req),
    ("CLASS", Ty::Class, Opt),
    ("COMPLETED", Ty::DateTime, Opt),
    ("CREATED", Ty::DateTime, Opt),
    ("DTSTART", Ty::Date, Opt),
    ("GEO", Ty::Geo, Opt),
    ("LAST-MODIFIED", Ty::DateTime, Opt),
    ("LOCATION", Ty::Text, Opt),
    ("ORGANIZER", Ty::Uri, Opt),
    ("PERCENT-COMPLETE", Ty::Percent, Opt),
    ("PRIORITY", Ty::Priority, Opt),
    ("RECURID", Ty::Date, Opt),
    ("SEQUENCE", Ty::UInt, Opt),
    ("STATUS", Ty::Status, Opt),
    ("SUMMARY", Ty::Text, Opt),
    ("URL", Ty::Uri, Opt),
    ("RRULE", Ty::Recur, Opt),
    ("DUE", Ty::Date, Opt),
    ("DURATION", Ty::Duration, Opt),
    ("ATTACH", Ty::Attach, Multi),
    ("ATTENDEE", Ty::Uri, Multi),
    ("CATEGORIES", Ty::Text, List),
    ("COMMENT", Ty::Text, Multi),
    ("CONTACT", Ty::Text, Multi),
    ("EXDATE", Ty::Date, List),
    ("REQUEST-STATUS", Ty::Rstatus, Multi),
    ("RELATED-TO", Ty::Text, Multi),
    ("RESOURCES", Ty::Text, List),
    ("RDATE", Ty::Rdate, Multi),
];

pub const JOURNAL: &[Row] = &[
    ("DTSTAMP", Ty::DateTime, Req),
    ("UID", Ty::Text, Req),
    ("CLASS", Ty::Class, Opt),
    ("CREATED", Ty::DateTime, Opt),
    ("DTSTART", Ty::Date, Req),
    ("LAST-MODIFIED", Ty::DateTime, Opt),
    ("ORGANIZER", Ty::Uri, Opt),
    ("RECURID", Ty::Date, Opt),
    ("SEQUENCE", Ty::UInt, Opt),
    ("STATUS", Ty::Status, Opt),
    ("SUMMARY", Ty::Text, Opt),
    ("URL", Ty::Uri, Opt),
    ("RRULE", Ty::Recur, Opt),
    ("ATTACH", Ty::Attach, Multi),
    ("ATTENDEE", Ty::Uri, Multi),
    ("CATEGORIES", Ty::Text, List),
    ("COMMENT", Ty::Text, Multi),
    ("CONTACT", Ty::Text, Multi),
    ("DESCRIPTION", Ty::Text, Multi),
    ("EXDATE", Ty::Date, List),
    ("RELATED-TO", Ty::Text, Multi),
    ("RDATE", Ty::Rdate, Multi),
    ("REQUEST-STATUS", Ty::Rstatus, Multi),
];

pub const FREEBUSY: &[Row] = &[
    ("DTSTAMP", Ty::DateTime, Req),
    ("UID", Ty::Text, Req),
    ("CONTACT", Ty::Text, Opt),
    ("DTSTART", Ty::Date, Opt),
    ("DTEND", Ty::Date, Opt),
    ("ORGANIZER", Ty::Uri, Opt),
    ("URL", Ty::Uri, Opt),
    ("ATTENDEE", Ty::Uri, Multi),
    ("COMMENT", Ty::Text, Multi),
    ("FREEBUSY", Ty::Period, List),
    ("REQUEST-STATUS", Ty::Rstatus, Multi),
];

pub const TIMEZONE: &[Row] = &[
    ("TZID", Ty::Text, Req),
    ("LAST-MODIFIED", Ty::DateTime, Opt),
    ("TZURL", Ty::Uri, Opt),
];

pub const OBSERVANCE: &[Row] = &[
    ("DTSTART", Ty::Date, Req),
    ("TZOFFSETTO", Ty::Offset, Req),
    ("TZOFFSETFROM", Ty::Offset, Req),
    ("RRULE", Ty::Recur, Opt),
    ("COMMENT", Ty::Text, Multi),
    ("RDATE", Ty::Rdate, Multi),
    ("TZNAME", Ty::Text, Multi),
];

pub const AUDIO: &[Row] = &[
    ("ACTION", Ty::Action, Req),
    ("TRIGGER", Ty::Trigger, Req),
    ("DURATION", Ty::Duration, Opt),
    ("REPEAT", Ty::UInt, Opt),
    ("ATTACH", Ty::Attach, Multi),
];

pub const DISPLAY: &[Row] = &[
    ("ACTION", Ty::Action, Req),
    ("TRIGGER", Ty::Trigger, Req),
    ("DESCRIPTION", Ty::Text, Req),
    ("DURATION", Ty::Duration, Opt),
    ("REPEAT", Ty::UInt, Opt),
];

pub const EMAIL: &[Row] = &[
    ("ACTION", Ty::Action, Req),
    ("TRIGGER", Ty::Trigger, Req),
    ("DESCRIPTION", Ty::Text, Req),
    ("SUMMARY", Ty::Text, Req),
    ("ATTENDEE", Ty::Uri, Multi),
    ("DURATION", Ty::Duration, Opt),
    ("REPEAT", Ty::UInt, Opt),
    ("ATTACH", Ty::Attach, Multi),
];

pub fn table(kind: Kind) -> &'static [Row] {
    match kind {
        Kind::Calendar => CALENDAR,
        Kind::Event => EVENT,
        Kind::Todo => TODO,
        Kind::Journal => JOURNAL,
        Kind::Freebusy => FREEBUSY,
        Kind::Timezone => TIMEZONE,
        Kind::Standard | Kind::Daylight => OBSERVANCE,
        Kind::Audio => AUDIO,
        Kind::Display => DISPLAY,
        Kind::Email => EMAIL,
    }
}

pub fn row(kind: Kind, name: &str) -> Option<&'static Row> {
    table(kind).iter().find(|r| r.0 == name)
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum P {
    End(D, D),
    Dur(D, i64),
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, Default)]
pub struct R {
    pub freq: String,
    pub interval: i64,
    pub count: Option<i64>,
    pub until: Option<D>,
    /// BYSECOND … BYSETPOS, only those that are set.
    pub by: BTreeMap<String, Vec<i64>>,
    pub by_day: Vec<(Option<i64>, String)>,
    pub wkst: Option<String>,
}

pub const BY: [&str; 8] = [
    "BYSECOND",
    "BYMINUTE",
    "BYHOUR",
    "BYMONTHDAY",
    "BYYEARDAY",
    "BYWEEKNO",
    "BYMONTH",
    "BYSETPOS",
];

pub const FREQS: [&str; 7] = [
    "DAILY", "WEEKLY", "MONTHLY", "YEARLY", "HOURLY", "MINUTELY", "SECONDLY",
];
pub const WEEKDAYS: [&str; 7] = ["MO", "TU", "WE", "TH", "FR", "SA", "SU"];
pub const STATUSES: [&str; 8] = [
    "CONFIRMED",
    "TENTATIVE",
    "CANCELLED",
    "NEEDS-ACTION",
    "COMPLETED",
    "IN-PROCESS",
    "DRAFT",
    "FINAL",
];
pub const CLASSES: [&str; 3] = ["PUBLIC", "PRIVATE", "CONFIDENTIAL"];
pub const TRANSPS: [&str; 2] = ["OPAQUE", "TRANSPARENT"];

/// A value by meaning.
#[derive(Clone, Debug, PartialEq)]
pub enum V {
    /// Unescaped text, line breaks are `\n`.
    Text(String),
    /// Verbatim.
    Raw(String),
    Date(D),
    Dur(i64),
    Int(u64),
    Geo(f32, f32),
    Rstatus(f32, String, Option<String>),
    Recur(R),
    Name(String),
    Offset(i64),
    Dates(Vec<D>),
    Periods(Vec<P>),
    Period(P),
}

pub type Params = BTreeMap<String, String>;

/// A property value together with its parameters.
#[derive(Clone, Debug, PartialEq)]
pub struct Prop {
    pub name: String,
    pub ty: Ty,
    pub params: Params,
    pub value: V,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Comp {
    pub kind: Kind,
    pub props: Vec<Prop>,
    pub subs: Vec<Comp>,
}

/// Normal form: what a component means, whatever the order and spelling.
#[derive(Clone, Debug, PartialEq)]
pub struct Norm {
    pub kind: Kind,
    /// Property name → values in order, with the parameters that the library keeps.
    pub props: BTreeMap<String, Vec<(Params, V)>>,
    /// Group → components in order.
    pub subs: BTreeMap<&'static str, Vec<Norm>>,
}

impl Norm {
    pub fn new(kind: Kind) -> Self {
        Norm {
            kind,
            props: BTreeMap::new(),
            subs: BTreeMap::new(),
        }
    }

    pub fn push(&mut self, name: &str, params: &Params, v: V) {
        self.props
            .entry(name.to_string())
            .or_default()
            .push((params.clone(), v));
    }

    pub fn push_sub(&mut self, sub: Norm) {
        self.subs.entry(sub.kind.group()).or_default().push(sub);
    }
}

/// Parameters: exactly, except that a list of quoted values is compared without its quotes.
pub fn params_eq(e: &Params, a: &Params) -> bool {
    let eq =
        |e: &str, a: &str| e == a || (e.contains('"') && e.replace('"', "") == a.replace('"', ""));
    e.len() == a.len() && e.iter().zip(a).all(|(e, a)| e.0 == a.0 && eq(e.1, a.1))
}

fn values_eq(e: &[(Params, V)], a: &[(Params, V)]) -> bool {
    e.len() == a.len()
        && e.iter()
            .zip(a)
            .all(|(e, a)| e.1 == a.1 && params_eq(&e.0, &a.0))
}

impl Comp {
    pub fn norm(&self) -> Norm {
        let mut n = Norm::new(self.kind);
        for p in &self.props {
            if p.ty.keeps_params() {
                n.push(&p.name, &p.params, p.value.clone());
            } else {
                n.push(&p.name, &Params::new(), p.value.clone());
            }
        }
        for s in &self.subs {
            n.push_sub(s.norm());
        }
        n
    }

    pub fn prop(&self, name: &str) -> Option<&Prop> {
        self.props.iter().find(|p| p.name == name)
    }

    pub fn size(&self) -> usize {
        self.props.len() + self.subs.iter().map(Comp::size).sum::<usize>()
    }

    pub fn any(&self, f: &dyn Fn(&Prop) -> bool) -> bool {
        self.props.iter().any(f) || self.subs.iter().any(|s| s.any(f))
    }

    pub fn count_comps(&self) -> usize {
        1 + self.subs.iter().map(Comp::count_comps).sum::<usize>()
    }
}

/// Meaning of a text in wire form: undo backslash escapes once; line breaks become `\n`.
pub fn meaning(s: &str) -> String {
    let mut out = String::new();
    let mut it = s.chars().peekable();
    while let Some(c) = it.next() {
        match c {
            '\\' => match it.peek() {
                Some('\\' | ';' | ',') => out.push(it.next().unwrap()),
                Some('n' | 'N') => {
                    it.next();
                    out.push('\n');
                }
                _ => out.push('\\'),
            },
            '\r' => {
                if it.peek() == Some(&'\n') {
                    it.next();
                }
                out.push('\n');
            }
            c => out.push(c),
        }
    }
    out
}

/// Raw values (URIs, extension properties): only line breaks cannot be carried.
pub fn raw_meaning(s: &str) -> String {
    s.replace("\r\n", "\\n").replace(['\r', '\n'], "\\n")
}

/// First difference between two normal forms, for messages.
pub fn diff(expected: &Norm, actual: &Norm) -> Option<String> {
    if expected.kind != actual.kind {
        return Some(format!(
            "kind {:?} instead of {:?}",
            actual.kind, expected.kind
        ));
    }
    let k = expected.kind.name();
    for (name, e) in &expected.props {
        match actual.props.get(name) {
            None => return Some(format!("{k}.{name}: lost, expected {e:?}")),
            Some(a) if !values_eq(e, a) => {
                return Some(format!("{k}.{name}: got {a:?}, expected {e:?}"));
            }
            _ => (),
        }
    }
    for (name, a) in &actual.props {
        if !expected.props.contains_key(name) {
            return Some(format!("{k}.{name}: not expected, got {a:?}"));
        }
    }
    for (g, e) in &expected.subs {
        let empty = Vec::new();
        let a = actual.subs.get(g).unwrap_or(&empty);
        if a.len() != e.len() {
            return Some(format!("{k}: {} {g} instead of {}", a.len(), e.len()));
        }
        for (e, a) in e.iter().zip(a) {
            if let Some(d) = diff(e, a) {
                return Some(format!("{k}/{d}"));
            }
        }
    }
    for g in actual.subs.keys() {
        if !expected.subs.contains_key(g) {
            return Some(format!("{k}: unexpected {g}"));
        }
    }
    None
}
