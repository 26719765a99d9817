//! The building macros: generated programs, compiled against the library and run.
use super::UTC;
use crate::cal::D;
use crate::core::{self, Cx, Def, Res};
use crate::generate::{self, Opt};
use crate::model::*;
use crate::render;
use crate::tape::Src;
use proptest::prelude::Rng as _;
use proptest::test_runner::{RngAlgorithm, TestRng};
use serde_json::{Value, json};
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Write as _;
use std::path::{Path, PathBuf};
use std::process::Command;

pub static DEF: Def = Def {
    id: "C28",
    rule: "generated programs: one invocation of a building macro over the fields it supports (any subset, in any order; literal texts, numbers, abbreviated enumerated values, variables, shorthand fields, lists, nested objects and nested macros), compared when run with the component whose fields are assigned by hand; one in five with an invalid literal somewhere, expected to give an error. Non-trivial: three fields or more, or an invalid literal. Distinct by program text.",
    zones: UTC,
    quick: 1_600,
    thorough: 12_000,
    tape: 400,
    run: nothing,
    exhaustive: None,
    witnesses: &[],
};

fn nothing(_: &mut Src, _: &mut Cx) -> Res {
    Ok(())
}

/// A field of an invocation.
#[derive(Clone, Debug)]
struct F {
    label: String,
    /// Inside the macro.
    mac: String,
    /// Statement assigning it by hand.
    hand: String,
    /// Variables it uses.
    vars: String,
    bad: bool,
}

/// An invocation.
#[derive(Clone, Debug)]
struct Inv {
    head: String,
    ty: &'static str,
    /// What becomes of the value assigned by hand.
    then: &'static str,
    fields: Vec<F>,
    trailing: bool,
}

impl Inv {
    fn bad(&self) -> bool {
        self.fields.iter().any(|f| f.bad)
    }

    fn source(&self) -> String {
        let mut t = String::from("use super::*;\n\npub fn run() -> Result<(), String> {\n");
        for f in &self.fields {
            t.push_str(&f.vars);
        }
        let macs = self
            .fields
            .iter()
            .map(|f| format!("        {}", f.mac))
            .collect::<Vec<_>>()
            .join(",\n");
        let end = if self.trailing && !self.fields.is_empty() {
            ","
        } else {
            ""
        };
        let _ = write!(t, "    let made = {}\n{macs}{end}\n    }};\n", self.head);
        if self.bad() {
            t.push_str("    refused(made)\n}\n");
        } else {
            let _ = write!(
                t,
                "    let hand = {{\n        let mut x = {}::default();\n",
                self.ty
            );
            for f in &self.fields {
                let _ = writeln!(t, "        {}", f.hand);
            }
            let _ = write!(
                t,
                "        x\n    }};\n    same(made, hand{})\n}}\n",
                self.then
            );
        }
        t
    }
}

struct Gen<'a, 'b> {
    s: &'a mut Src<'b>,
    o: Opt,
    vars: usize,
    /// Invalid literals still to place.
    bad: bool,
}

#[derive(Clone, Copy, PartialEq)]
enum K {
    Text,
    Uri,
    DateTime,
    Date,
    Duration,
    Trigger,
    U8,
    U32,
    Class,
    Status,
    Transp,
    Geo,
    Rule,
    Rstatus,
    Period,
    Offset,
    /// Only as a variable of the field's own type.
    Rdate,
    Alarm,
    Obj(&'static str),
}

/// A value: inside the macro, by hand, the variables, whether it is invalid.
struct Val(String, String, String, bool);

impl Val {
    fn new(mac: impl Into<String>, hand: impl Into<String>) -> Val {
        Val(mac.into(), hand.into(), String::new(), false)
    }
}

const TEXTS: [&str; 10] = [
    "",
    "mailto:a@example.com",
    "Bastille Day Party",
    "a\\,b;c:d\"e",
    "é日本\u{1F389}",
    "line\nbreak\ttab",
    "carriage\r\nreturn\r",
    "  spaces  ",
    "a\\nb\\\\{}{{x}}%s",
    "\u{0}\u{c}\u{feff}\u{2028}",
];

impl Gen<'_, '_> {
    fn var(&mut self, value: &str) -> (String, String) {
        let name = format!("v{}", self.vars);
        self.vars += 1;
        let vars = format!("    let {name} = {value};\n");
        (name, vars)
    }

    fn text(&mut self, k: K) -> String {
        let mut t = match self.s.weighted(&[4, 3, 1]) {
            0 => self.s.pick::<&str>(&TEXTS).to_string(),
            1 if k == K::Uri => generate::uri(self.s, &self.o),
            _ => generate::text(self.s, &self.o),
        };
        // a sign or a blank at an end
        const SIGNS: [char; 18] = [
            ' ', '#', '/', '?', '.', ':', ';', ',', '\\', '<', '>', '(', ')', '"', '\'', '-', '=',
            '\n',
        ];
        if self.s.chance(1, 4) {
            t.push(self.s.pick(&SIGNS));
        }
        if self.s.chance(1, 12) {
            t.insert(0, self.s.pick(&SIGNS));
        }
        t
    }

    /// A literal, directly or through a variable.
    fn lit(&mut self, text: &str, hand: String, bad: bool) -> Val {
        let lit = format!("{text:?}");
        match self.s.weighted(&[6, 1, 1]) {
            0 => Val(lit, hand, String::new(), bad),
            1 => {
                let (name, vars) = self.var(&lit);
                Val(name, hand, vars, bad)
            }
            _ => {
                let hashes = "#".repeat(text.matches('#').count() + 1);
                let raw = if text.contains(['\r', '\0']) {
                    lit
                } else {
                    format!("r{hashes}\"{text}\"{hashes}")
                };
                Val(raw, hand, String::new(), bad)
            }
        }
    }

    /// One time in two while one is due, takes an invalid text instead.
    fn spoil(&mut self, bads: &[&str]) -> Option<Val> {
        if self.bad && self.s.chance(1, 2) {
            self.bad = false;
            let t = self.s.pick::<&str>(bads);
            return Some(self.lit(t, "unreachable!()".into(), true));
        }
        None
    }

    fn value(&mut self, k: K, depth: u32) -> Val {
        const DATES: [&str; 8] = [
            "",
            "2024",
            "20240230",
            "20240101T",
            "2024-01-01",
            "20240101T250000",
            "x",
            "20240101T000000ZZ",
        ];
        const DATE_TIMES: [&str; 6] = [
            "",
            "20240101",
            "20240230T000000",
            "20240101T0000",
            "x",
            "20240101T000000+",
        ];
        const DURATIONS: [&str; 8] = ["", "x", "1D", "P1", "PT1D1", "P-1D", "PXD", "-1D"];
        match k {
            K::Text | K::Uri => {
                let t = self.text(k);
                let f = if k == K::Text { "text" } else { "uri" };
                let hand = format!("{f}({t:?})");
                match self.s.weighted(&[6, 1, 1]) {
                    0 => self.lit(&t, hand, false),
                    1 => {
                        let (name, vars) = self.var(&format!("String::from({t:?})"));
                        Val(name, hand, vars, false)
                    }
                    _ => {
                        let (name, vars) = self.var(&hand);
                        Val(name, hand, vars, false)
                    }
                }
            }
            K::DateTime => {
                if let Some(v) = self.spoil(&DATE_TIMES) {
                    return v;
                }
                let d = generate::datetime(self.s, &self.o);
                self.lit(&d.text(), date_time(d), false)
            }
            K::Date => {
                if let Some(v) = self.spoil(&DATES) {
                    return v;
                }
                let d = generate::date(self.s, &self.o);
                self.lit(&d.text(), date(d), false)
            }
            K::Duration => {
                if let Some(v) = self.spoil(&DURATIONS) {
                    return v;
                }
                let n = generate::duration(self.s);
                let t = render::duration_text(self.s, n);
                self.lit(&t, format!("seconds({n})"), false)
            }
            K::Trigger => {
                if let Some(v) = self.spoil(&DURATIONS) {
                    return v;
                }
                if self.s.chance(1, 2) {
                    let d = generate::datetime(self.s, &self.o);
                    self.lit(
                        &d.text(),
                        format!("ikal::Trigger::DateTime({})", date_time(d)),
                        false,
                    )
                } else {
                    let n = generate::duration(self.s);
                    let t = render::duration_text(self.s, n);
                    self.lit(&t, format!("ikal::Trigger::Duration(seconds({n}))"), false)
                }
            }
            K::U8 => {
                let n = self.s.below(256);
                self.number(n, "u8")
            }
            K::U32 => {
                let n = generate::uint(self.s);
                self.number(n, "u32")
            }
            K::Class => {
                let v = self
                    .s
                    .pick(&["Public", "Private", "Confidential", "Custom"]);
                if v == "Custom" {
                    let t = self.text(K::Text);
                    let m = format!("Custom({t:?}.to_string())");
                    let h = format!("ikal::Class::Custom(String::from({t:?}))");
                    Val::new(m, h)
                } else {
                    Val::new(v, format!("ikal::Class::{v}"))
                }
            }
            K::Status => {
                let v = self.s.pick(&[
                    "Tentative",
                    "Confirmed",
                    "Cancelled",
                    "NeedsAction",
                    "Completed",
                    "InProcess",
                    "Draft",
                    "Final",
                ]);
                Val::new(v, format!("ikal::Status::{v}"))
            }
            K::Transp => {
                let v = self.s.pick(&["Opaque", "Transparent"]);
                Val::new(v, format!("ikal::TimeTransparency::{v}"))
            }
            K::Geo => {
                if let Some(v) = self.spoil(&["", "x", "1.0", "1.0;", "a;b", "1,2", "1;2;3"]) {
                    return v;
                }
                let (a, b) = (generate::float(self.s, 90), generate::float(self.s, 180));
                let hand = format!("new_geo({a:?}, {b:?})");
                if self.s.chance(1, 2) {
                    self.lit(&format!("{a};{b}"), hand, false)
                } else {
                    let mut parts = vec![format!("lat: {a:?}"), format!("lon: {b:?}")];
                    self.s.shuffle(&mut parts);
                    Val::new(format!("{{ {} }}", parts.join(", ")), hand)
                }
            }
            K::Rule => self.rule(),
            K::Rstatus => {
                if let Some(v) = self.spoil(&["", "x", "2.0", "ok;ok"]) {
                    return v;
                }
                let code = generate::statcode(self.s);
                let desc = self.s.pick(&[
                    "Success",
                    "Invalid property value",
                    "é x",
                    "Event conflict.",
                ]);
                let ext = self.s.chance(1, 2).then(|| {
                    self.s
                        .pick(&["", "DTSTART:96-Apr-01", "x", "ATTENDEE:mailto:a@b"])
                });
                let hand = format!("new_rstatus({code:?}, {desc:?}, {ext:?})");
                if self.s.chance(1, 2) {
                    let t = format!(
                        "{code:?};{desc}{}",
                        ext.map(|e| format!(";{e}")).unwrap_or_default()
                    );
                    self.lit(&t, hand, false)
                } else {
                    let mut parts =
                        vec![format!("statcode: {code:?}"), format!("statdesc: {desc:?}")];
                    parts.extend(ext.map(|e| format!("extdata: {e:?}")));
                    self.s.shuffle(&mut parts);
                    Val::new(format!("{{ {} }}", parts.join(", ")), hand)
                }
            }
            K::Period => {
                if let Some(v) = self.spoil(&[
                    "",
                    "x",
                    "20240101T000000Z",
                    "20240101T000000Z/",
                    "/PT1H",
                    "20240101T000000Z/x",
                ]) {
                    return v;
                }
                let p = generate::period(self.s, &self.o);
                let t = render::period_text(self.s, &p);
                self.lit(&t, period(&p), false)
            }
            K::Offset => {
                if let Some(v) = self.spoil(&["", "x", "+", "+1", "0100x", "+ab00"]) {
                    return v;
                }
                let n = generate::offset(self.s, &self.o);
                let t = render::offset_text(n);
                self.lit(&t, format!("offset({n})"), false)
            }
            K::Rdate => {
                let n = self.s.usize(3);
                let hand = if self.s.chance(1, 2) {
                    let v = (0..n)
                        .map(|_| date(generate::date(self.s, &self.o)))
                        .collect::<Vec<_>>();
                    format!("ikal::RDate::Date(vec![{}])", v.join(", "))
                } else {
                    let v = (0..n)
                        .map(|_| period(&generate::period(self.s, &self.o)))
                        .collect::<Vec<_>>();
                    format!("ikal::RDate::Period(vec![{}])", v.join(", "))
                };
                Val::new("", hand)
            }
            K::Alarm => {
                let kind = self.s.pick(&["audio", "display", "email"]);
                let (m, h, vars, bad) = self.object(kind, depth + 1);
                let ty = ty(kind);
                let hand = format!("ikal::VAlarm::from({{ let mut x = {ty}::default(); {h} x }})");
                if self.s.chance(3, 4) || bad {
                    Val(format!("ikal::valarm!(@{kind}, {m})?"), hand, vars, bad)
                } else {
                    // a value of its kind, converted
                    let (name, v) = self.var(&format!("{{ let mut x = {ty}::default(); {h} x }}"));
                    Val(name, hand, v, false)
                }
            }
            K::Obj(name) => {
                let (m, h, vars, bad) = self.object(name, depth + 1);
                let hand = format!("{{ let mut x = {}::default(); {h} x }}", ty(name));
                let top = !matches!(name, "standard" | "daylight");
                if top && self.s.chance(1, 6) {
                    Val(format!("ikal::{name}! {{ {m} }}?"), hand, vars, bad)
                } else {
                    Val(format!("{{ {m} }}"), hand, vars, bad)
                }
            }
        }
    }

    fn number(&mut self, n: u64, ty: &str) -> Val {
        match self.s.weighted(&[4, 1, 1]) {
            0 => Val::new(n.to_string(), n.to_string()),
            1 => Val::new(format!("{n}_{ty}"), n.to_string()),
            _ => {
                let (name, vars) = self.var(&format!("{n}_{ty}"));
                Val(name, n.to_string(), vars, false)
            }
        }
    }

    fn rule(&mut self) -> Val {
        if let Some(v) = self.spoil(&["", "x", "FREQ=NEVER", "INTERVAL=1", "FREQ=DAILY;COUNT=x"]) {
            return v;
        }
        let freqs = [
            "Secondly", "Minutely", "Hourly", "Daily", "Weekly", "Monthly", "Yearly",
        ];
        let freq = self.s.pick(&freqs);
        let interval = 1 + self.s.below(255);
        let count = self.s.chance(1, 2).then(|| 1 + self.s.below(255));
        let mut h = format!("x.freq = ikal::Freq::{freq}; x.interval = {interval};");
        if let Some(c) = count {
            let _ = write!(h, " x.count = Some({c});");
        }
        let by = self.s.pick(&[
            "month", "second", "minute", "hour", "monthday", "yearday", "weekno", "setpos",
        ]);
        let n = match self.s.weighted(&[40, 1]) {
            1 => self.s.many().min(40),
            _ => self.s.usize(3),
        };
        let numbers = (0..n).map(|_| 1 + self.s.below(12)).collect::<Vec<_>>();
        let until = self.s.chance(1, 3).then(|| generate::date(self.s, &self.o));
        let _ = write!(h, " x.by_{by} = vec!{numbers:?};");
        if let Some(u) = until {
            let _ = write!(h, " x.until = Some({});", date(u));
        }
        let hand = |h: &str| format!("{{ let mut x = ikal::Recur::default(); {h} x }}");
        if self.s.chance(1, 2) {
            let mut t = format!("FREQ={};INTERVAL={interval}", freq.to_uppercase());
            if let Some(c) = count {
                let _ = write!(t, ";COUNT={c}");
            }
            if let Some(u) = until {
                let _ = write!(t, ";UNTIL={}", u.text());
            }
            if !numbers.is_empty() {
                let m = numbers.iter().map(ToString::to_string).collect::<Vec<_>>();
                let _ = write!(t, ";BY{}={}", by.to_uppercase(), m.join(","));
            }
            return self.lit(&t, hand(&h), false);
        }
        let mut parts = vec![format!("freq: {freq}"), format!("interval: {interval}")];
        if let Some(c) = count {
            parts.push(format!("count: {c}"));
        }
        if !numbers.is_empty() || self.s.chance(1, 4) {
            parts.push(format!("by_{by}: {numbers:?}"));
        }
        let mut vars = String::new();
        if let Some(u) = until {
            let (name, v) = self.var(&date(u));
            parts.push(format!("until: {name}"));
            vars.push_str(&v);
        }
        if self.s.chance(1, 3) {
            let d = self.s.pick(&[
                "Sunday", "Monday", "Tuesday", "Wenesday", "Thurday", "Friday", "Saturday",
            ]);
            parts.push(format!("wkst: ikal::Weekday::{d}"));
            let _ = write!(h, " x.wkst = Some(ikal::Weekday::{d});");
        }
        self.s.shuffle(&mut parts);
        Val(format!("{{ {} }}", parts.join(", ")), hand(&h), vars, false)
    }

    fn field(&mut self, on: &str, name: &'static str, k: K, m: Mode, depth: u32) -> F {
        let mut vars = String::new();
        let mut bad = false;
        let (mac, hand) = match m {
            Mode::Req | Mode::Opt => {
                let v = self.value(k, depth);
                bad |= v.3;
                vars.push_str(&v.2);
                let hand = if m == Mode::Opt {
                    format!("Some({})", v.1)
                } else {
                    v.1
                };
                // a variable of the name of the field
                if !v.3 && depth == 0 && self.s.chance(1, 8) {
                    vars.push_str(&format!("    let {name} = {hand};\n"));
                    (String::new(), hand)
                } else {
                    (v.0, hand)
                }
            }
            _ => {
                let n = if depth > 1 {
                    self.s.usize(2)
                } else {
                    let plain = !matches!(k, K::Obj(_) | K::Alarm);
                    match self.s.weighted(&[60, 1]) {
                        1 if plain => self.s.many().min(70),
                        _ => self.s.count(4).min(5),
                    }
                };
                let (mut ms, mut hs) = (Vec::new(), Vec::new());
                for _ in 0..n {
                    let v = self.value(k, depth);
                    bad |= v.3;
                    vars.push_str(&v.2);
                    ms.push(v.0);
                    hs.push(v.1);
                }
                let hand = format!("vec![{}]", hs.join(", "));
                if k == K::Rdate || !bad && depth == 0 && self.s.chance(1, 10) {
                    vars.push_str(&format!("    let {name} = {hand};\n"));
                    (String::new(), hand)
                } else {
                    (format!("[{}]", ms.join(", ")), hand)
                }
            }
        };
        F {
            label: format!("{on}.{name}"),
            // the shorthand is always followed by a comma: it is the last one's too
            mac: if mac.is_empty() {
                name.to_string()
            } else {
                format!("{name}: {mac}")
            },
            hand: format!("x.{name} = {hand};"),
            vars,
            bad,
        }
    }

    /// Fields inside the macro, assignments by hand, variables, whether one is invalid.
    fn object(&mut self, name: &'static str, depth: u32) -> (String, String, String, bool) {
        let fields = self.fields(name, depth);
        let m = fields
            .iter()
            .map(|f| f.mac.clone())
            .collect::<Vec<_>>()
            .join(", ");
        let h = fields
            .iter()
            .map(|f| f.hand.clone())
            .collect::<Vec<_>>()
            .join(" ");
        let v = fields.iter().map(|f| f.vars.clone()).collect::<String>();
        let bad = fields.iter().any(|f| f.bad);
        (m, h, v, bad)
    }

    fn fields(&mut self, name: &'static str, depth: u32) -> Vec<F> {
        let rows = rows(name);
        let density = if depth > 0 {
            self.s.pick(&[15, 30])
        } else {
            self.s.pick(&[15, 50, 95])
        };
        let mut v = Vec::new();
        for (f, k, m) in rows {
            // one level below an event or a calendar is enough
            if depth > 1 && matches!(k, K::Obj(_) | K::Alarm) || *k == K::Rdate && depth > 0 {
                continue;
            }
            if self.s.chance(density, 100) {
                v.push(self.field(name, f, *k, *m, depth));
            }
        }
        self.s.shuffle(&mut v);
        v
    }
}

type Row = (&'static str, K, Mode);
use Mode::{Multi, Opt as O, Req};

const STAMP: [Row; 2] = [("dtstamp", K::DateTime, Req), ("uid", K::Text, Req)];

fn rows(name: &str) -> &'static [Row] {
    const EVENT: &[Row] = &[
        STAMP[0],
        STAMP[1],
        ("dtstart", K::Date, Req),
        ("class", K::Class, O),
        ("created", K::DateTime, O),
        ("description", K::Text, O),
        ("geo", K::Geo, O),
        ("last_modified", K::DateTime, O),
        ("location", K::Text, O),
        ("organizer", K::Uri, O),
        ("priority", K::U8, O),
        ("sequence", K::U32, O),
        ("status", K::Status, O),
        ("summary", K::Text, O),
        ("transp", K::Transp, O),
        ("url", K::Uri, O),
        ("recurid", K::Date, O),
        ("rrule", K::Rule, O),
        ("dtend", K::Date, O),
        ("duration", K::Duration, O),
        ("attach", K::Text, Multi),
        ("attendee", K::Uri, Multi),
        ("categories", K::Text, Multi),
        ("comment", K::Text, Multi),
        ("contact", K::Text, Multi),
        ("exdate", K::Date, Multi),
        ("rstatus", K::Rstatus, Multi),
        ("related_to", K::Text, Multi),
        ("resources", K::Text, Multi),
        ("rdate", K::Rdate, Multi),
        ("alarms", K::Alarm, Multi),
    ];
    const TODO: &[Row] = &[
        STAMP[0],
        STAMP[1],
        ("class", K::Class, O),
        ("completed", K::DateTime, O),
        ("created", K::DateTime, O),
        ("dtstart", K::Date, O),
        ("geo", K::Geo, O),
        ("last_modified", K::DateTime, O),
        ("location", K::Text, O),
        ("organizer", K::Uri, O),
        ("percent_complete", K::U8, O),
        ("priority", K::U8, O),
        ("recurid", K::Date, O),
        ("sequence", K::U32, O),
        ("status", K::Status, O),
        ("summary", K::Text, O),
        ("url", K::Uri, O),
        ("rrule", K::Rule, O),
        ("due", K::Date, O),
        ("duration", K::Duration, O),
        ("attach", K::Text, Multi),
        ("attendee", K::Uri, Multi),
        ("categories", K::Text, Multi),
        ("comment", K::Text, Multi),
        ("contact", K::Text, Multi),
        ("exdate", K::Date, Multi),
        ("rstatus", K::Rstatus, Multi),
        ("related_to", K::Text, Multi),
        ("resources", K::Text, Multi),
        ("rdate", K::Rdate, Multi),
    ];
    const JOURNAL: &[Row] = &[
        STAMP[0],
        STAMP[1],
        ("class", K::Class, O),
        ("created", K::DateTime, O),
        ("dtstart", K::Date, Req),
        ("last_modified", K::DateTime, O),
        ("organizer", K::Uri, O),
        ("recurid", K::Date, O),
        ("sequence", K::U32, O),
        ("status", K::Status, O),
        ("summary", K::Text, O),
        ("url", K::Uri, O),
        ("rrule", K::Rule, O),
        ("attach", K::Text, Multi),
        ("attendee", K::Uri, Multi),
        ("categories", K::Text, Multi),
        ("comment", K::Text, Multi),
        ("contact", K::Text, Multi),
        ("description", K::Text, Multi),
        ("exdate", K::Date, Multi),
        ("related_to", K::Text, Multi),
        ("rdate", K::Rdate, Multi),
        ("rstatus", K::Rstatus, Multi),
    ];
    const FREEBUSY: &[Row] = &[
        STAMP[0],
        STAMP[1],
        ("contact", K::Text, O),
        ("dtstart", K::Date, O),
        ("dtend", K::Date, O),
        ("organizer", K::Uri, O),
        ("url", K::Uri, O),
        ("attendee", K::Uri, Multi),
        ("comment", K::Text, Multi),
        ("freebusy", K::Period, Multi),
        ("rstatus", K::Rstatus, Multi),
    ];
    const TIMEZONE: &[Row] = &[
        ("tzid", K::Text, Req),
        ("last_modified", K::DateTime, O),
        ("tzurl", K::Uri, O),
        ("standard", K::Obj("standard"), Multi),
        ("daylight", K::Obj("daylight"), Multi),
    ];
    const OBSERVANCE: &[Row] = &[
        ("dtstart", K::Date, Req),
        ("tzoffsetto", K::Offset, Req),
        ("tzoffsetfrom", K::Offset, Req),
        ("rrule", K::Rule, O),
        ("comment", K::Text, Multi),
        ("rdate", K::Rdate, Multi),
        ("tzname", K::Text, Multi),
    ];
    const CALENDAR: &[Row] = &[
        ("prodid", K::Text, Req),
        ("version", K::Text, Req),
        ("calscale", K::Text, O),
        ("method", K::Text, O),
        ("alarms", K::Alarm, Multi),
        ("events", K::Obj("vevent"), Multi),
        ("freebusy", K::Obj("vfreebusy"), Multi),
        ("journals", K::Obj("vjournal"), Multi),
        ("todo", K::Obj("vtodo"), Multi),
        ("timezones", K::Obj("vtimezone"), Multi),
    ];
    const AUDIO: &[Row] = &[
        ("trigger", K::Trigger, Req),
        ("duration", K::Duration, O),
        ("repeat", K::U32, O),
        ("attach", K::Text, Multi),
    ];
    const DISPLAY: &[Row] = &[
        ("trigger", K::Trigger, Req),
        ("description", K::Text, Req),
        ("duration", K::Duration, O),
        ("repeat", K::U32, O),
    ];
    const EMAIL: &[Row] = &[
        ("trigger", K::Trigger, Req),
        ("description", K::Text, Req),
        ("summary", K::Text, Req),
        ("attendee", K::Uri, Multi),
        ("duration", K::Duration, O),
        ("repeat", K::U32, O),
        ("attach", K::Text, Multi),
    ];
    match name {
        "vevent" => EVENT,
        "vtodo" => TODO,
        "vjournal" => JOURNAL,
        "vfreebusy" => FREEBUSY,
        "vtimezone" => TIMEZONE,
        "standard" | "daylight" => OBSERVANCE,
        "audio" => AUDIO,
        "display" => DISPLAY,
        "email" => EMAIL,
        _ => CALENDAR,
    }
}

fn ty(name: &str) -> &'static str {
    match name {
        "vevent" => "ikal::VEvent",
        "vtodo" => "ikal::VTodo",
        "vjournal" => "ikal::VJournal",
        "vfreebusy" => "ikal::VFreebusy",
        "vtimezone" => "ikal::VTimezone",
        "standard" => "ikal::vtimezone::Standard",
        "daylight" => "ikal::vtimezone::Daylight",
        "audio" => "ikal::valarm::Audio",
        "display" => "ikal::valarm::Display",
        "email" => "ikal::valarm::Email",
        _ => "ikal::VCalendar",
    }
}

fn date_time(d: D) -> String {
    match d {
        D::Utc(t) => format!("utc({t})"),
        d => format!("naive({})", d.secs()),
    }
}

fn date(d: D) -> String {
    match d {
        D::Date(d) => format!("ikal::Date::Date(day({d}))"),
        d => format!("ikal::Date::DateTime({})", date_time(d)),
    }
}

fn period(p: &P) -> String {
    match p {
        P::End(a, b) => format!("period_end({}, {})", date_time(*a), date_time(*b)),
        P::Dur(a, n) => format!("period_dur({}, seconds({n}))", date_time(*a)),
    }
}

fn invocation(tape: &[u32]) -> Inv {
    let mut s = Src::new(tape);
    let name = s.pick(&[
        "vevent",
        "vcalendar",
        "vtodo",
        "vjournal",
        "vfreebusy",
        "vtimezone",
        "audio",
        "display",
        "email",
        "vevent",
        "vcalendar",
    ]);
    let bad = s.chance(1, 5);
    let o = Opt {
        params: false,
        ..Opt::read()
    };
    let mut g = Gen {
        s: &mut s,
        o,
        vars: 0,
        bad,
    };
    let fields = g.fields(name, 0);
    let alarm = matches!(name, "audio" | "display" | "email");
    // a shorthand field is only one before a comma
    let trailing = fields.last().is_none_or(|f| !f.mac.contains(':')) || s.chance(1, 2);
    Inv {
        head: if alarm {
            format!("ikal::valarm! {{ @{name}, ")
        } else {
            format!("ikal::{name}! {{")
        },
        ty: ty(name),
        then: if alarm { ".into()" } else { "" },
        fields,
        trailing,
    }
}

const MAIN: &str = r#"
fn text(s: &str) -> ikal::Text { let mut x = ikal::Text::default(); x.text = s.to_string(); x }
fn uri(s: &str) -> ikal::Uri { let mut x = ikal::Uri::default(); x.uri = s.to_string(); x }
fn at(t: i64) -> chrono::DateTime<chrono::Utc> { chrono::DateTime::from_timestamp(t, 0).expect("an instant") }
fn utc(t: i64) -> ikal::DateTime { ikal::DateTime::Local(at(t).with_timezone(&chrono::Local)) }
fn naive(t: i64) -> ikal::DateTime { ikal::DateTime::Naive(at(t).naive_utc()) }
fn day(d: i64) -> chrono::NaiveDate { at(d * 86_400).naive_utc().date() }
fn seconds(n: i64) -> chrono::TimeDelta { chrono::TimeDelta::try_seconds(n).expect("a duration") }
fn offset(n: i32) -> chrono::FixedOffset { chrono::FixedOffset::east_opt(n).expect("an offset") }
fn new_geo(lat: f32, lon: f32) -> ikal::Geo { let mut x = ikal::Geo::default(); x.lat = lat; x.lon = lon; x }
fn new_rstatus(c: f32, d: &str, e: Option<&str>) -> ikal::RequestStatus {
    let mut x = ikal::RequestStatus::default();
    x.statcode = c;
    x.statdesc = d.to_string();
    x.extdata = e.map(str::to_string);
    x
}
fn period_end(start: ikal::DateTime, end: ikal::DateTime) -> ikal::Period {
    ikal::Period::StartEnd(ikal::period::StartEnd { start, end })
}
fn period_dur(start: ikal::DateTime, duration: chrono::TimeDelta) -> ikal::Period {
    ikal::Period::StartDur(ikal::period::StartDur { start, duration })
}
fn same<T: PartialEq + std::fmt::Debug>(made: Result<T, ikal::Error>, hand: T) -> Result<(), String> {
    match made {
        Ok(x) if x == hand => Ok(()),
        Ok(x) => Err(format!("the macro gives {x:#?}\nby hand {hand:#?}")),
        Err(e) => Err(format!("the macro gives an error: {e}")),
    }
}
fn refused<T: std::fmt::Debug>(made: Result<T, ikal::Error>) -> Result<(), String> {
    match made {
        Ok(x) => Err(format!("an invalid literal gives {x:#?}")),
        Err(_) => Ok(()),
    }
}
fn main() {
    std::panic::set_hook(Box::new(|_| ()));
    for (i, f) in CASES.iter().enumerate() {
        let r = std::panic::catch_unwind(f).unwrap_or_else(|p| {
            let m = p.downcast_ref::<&str>().map(ToString::to_string).or_else(|| p.downcast_ref::<String>().cloned());
            Err(format!("panic: {}", m.unwrap_or_default()))
        });
        match r {
            Ok(()) => println!("{i} ok"),
            Err(m) => println!("{i} no {m:?}"),
        }
    }
}
"#;

fn harness() -> PathBuf {
    PathBuf::from(env!("CARGO_MANIFEST_DIR"))
}

fn io<T>(r: std::io::Result<T>) -> Result<T, String> {
    r.map_err(|e| e.to_string())
}

/// Compiles the programs together and runs them: what fails, and how.
fn execute(sources: &[String], dir: &Path) -> Result<BTreeMap<usize, String>, String> {
    let src = dir.join("src");
    let _ = std::fs::remove_dir_all(&src);
    io(std::fs::create_dir_all(&src))?;
    let repo = io(harness().join("../../repo").canonicalize())?;
    io(std::fs::write(
        dir.join("Cargo.toml"),
        format!(
            "[package]\nname = \"c28prog\"\nversion = \"0.0.0\"\nedition = \"2024\"\npublish = false\n\n[workspace]\n\n\
             [dependencies]\nikal = {{ path = {:?} }}\nchrono = {{ version = \"0.4\", default-features = false, features = [\"clock\", \"std\"] }}\n\n\
             [profile.dev]\nopt-level = 1\ndebug = 0\nincremental = false\n\n[profile.dev.package.c28prog]\nopt-level = 0\n",
            repo.display().to_string()
        ),
    ))?;
    io(std::fs::copy(
        harness().join("Cargo.lock"),
        dir.join("Cargo.lock"),
    ))?;
    let mut main = String::from("#![allow(warnings)]\n");
    for i in 0..sources.len() {
        let _ = writeln!(main, "mod c{i};");
        io(std::fs::write(src.join(format!("c{i}.rs")), &sources[i]))?;
    }
    let list = (0..sources.len())
        .map(|i| format!("c{i}::run"))
        .collect::<Vec<_>>()
        .join(", ");
    let _ = writeln!(
        main,
        "const CASES: [fn() -> Result<(), String>; {}] = [{list}];",
        sources.len()
    );
    main.push_str(MAIN);
    io(std::fs::write(src.join("main.rs"), main))?;

    let target = harness().join("target");
    io(std::fs::create_dir_all(&target))?;
    let lock = io(std::fs::File::create(target.join("c28.lock")))?;
    io(lock.lock())?;
    let o = io(Command::new("cargo")
        .args(["build", "--offline", "--quiet", "--color", "never"])
        .current_dir(dir)
        .env("CARGO_TARGET_DIR", &target)
        .env_remove("RUSTFLAGS")
        .output())?;
    let mut bad: BTreeMap<usize, String> = BTreeMap::new();
    if !o.status.success() {
        let err = String::from_utf8_lossy(&o.stderr);
        for block in err.split("\n\n") {
            for l in block.lines() {
                if let Some(n) = l
                    .trim_start()
                    .strip_prefix("--> src/c")
                    .and_then(|l| l.split('.').next()?.parse().ok())
                {
                    bad.entry(n).or_insert_with(|| {
                        format!("the macro does not compile: {}", core::cut(block, 2000))
                    });
                }
            }
        }
        if bad.is_empty() {
            return Err(format!(
                "the programs do not compile: {}",
                core::cut(&err, 3000)
            ));
        }
        return Ok(bad);
    }
    let exe = dir.join("c28prog");
    io(std::fs::copy(target.join("debug/c28prog"), &exe))?;
    drop(lock);
    let o = io(Command::new(&exe)
        .env("TZ", "UTC")
        .env_remove("RUST_BACKTRACE")
        .output())?;
    let out = String::from_utf8_lossy(&o.stdout);
    let mut done = 0;
    for l in out.lines() {
        let mut it = l.splitn(3, ' ');
        let n = it.next().and_then(|n| n.parse::<usize>().ok());
        match (n, it.next()) {
            (Some(_), Some("ok")) => done += 1,
            (Some(n), Some("no")) => {
                done += 1;
                let m = it.next().unwrap_or_default();
                bad.insert(
                    n,
                    serde_json::from_str::<String>(m).unwrap_or_else(|_| m.replace("\\n", "\n")),
                );
            }
            _ => return Err(format!("unexpected output of the programs: {l}")),
        }
    }
    if done < sources.len() {
        // the next one ended the process
        bad.insert(
            done,
            format!(
                "the program ends with {}: {}",
                o.status,
                String::from_utf8_lossy(&o.stderr)
            ),
        );
    }
    Ok(bad)
}

/// The smallest failing invocation that can be found by taking fields out.
fn reduce(inv: Inv, message: String, dir: &Path) -> Result<(Inv, String), String> {
    let mut best = (inv, message);
    for _ in 0..5 {
        let n = best.0.fields.len();
        let mut variants = Vec::new();
        for i in 0..n {
            let mut one = best.0.clone();
            one.fields = vec![best.0.fields[i].clone()];
            let mut less = best.0.clone();
            less.fields.remove(i);
            for mut v in [one, less] {
                v.trailing = true;
                if v.fields.len() < n {
                    variants.push(v);
                }
            }
        }
        variants.sort_by_key(|v| v.fields.len());
        let sources = variants.iter().map(Inv::source).collect::<Vec<_>>();
        if sources.is_empty() {
            break;
        }
        let bad = execute(&sources, dir)?;
        let Some((i, m)) = bad.into_iter().next() else {
            break;
        };
        best = (variants.swap_remove(i), m);
    }
    Ok(best)
}

pub fn check(seed: u64, thorough: bool, dir: &Path) -> Result<Vec<Value>, String> {
    let total = if thorough { DEF.thorough } else { DEF.quick };
    let total = std::env::var("VERIF_CASES")
        .ok()
        .and_then(|v| v.parse().ok())
        .unwrap_or(total);
    let mut bytes = [0u8; 32];
    for (i, c) in bytes.chunks_mut(8).enumerate() {
        c.copy_from_slice(&core::hash64(&format!("C28/{seed}/{i}")).to_le_bytes());
    }
    let mut rng = TestRng::from_seed(RngAlgorithm::ChaCha, &bytes);
    let mut out = Vec::new();
    let mut made = 0;
    while made < total {
        let n = (total - made).min(400);
        made += n;
        let invs = (0..n)
            .map(|_| {
                let len = 20 + rng.next_u32() as usize % DEF.tape;
                invocation(&(0..len).map(|_| rng.next_u32()).collect::<Vec<_>>())
            })
            .collect::<Vec<_>>();
        let sources = invs.iter().map(Inv::source).collect::<Vec<_>>();
        let bad = execute(&sources, dir)?;
        let mut labels: BTreeMap<String, u64> = BTreeMap::new();
        let mut hashes = BTreeSet::new();
        let mut samples = Vec::new();
        for (i, inv) in invs.iter().enumerate() {
            *labels.entry(inv.ty.to_string()).or_default() += 1;
            if inv.bad() {
                *labels.entry("invalid literal".into()).or_default() += 1;
            }
            for f in &inv.fields {
                *labels.entry(f.label.clone()).or_default() += 1;
            }
            if inv.bad() || inv.fields.len() >= 3 {
                hashes.insert(core::hash64(&sources[i]));
                if samples.len() < 8 && i % 7 == 3 {
                    samples.push(core::cut(&sources[i], 1500));
                }
            }
        }
        let mut v = json!({
            "outcome": "held", "evaluations": n, "hashes": hashes, "labels": labels, "samples": samples, "zone": "UTC",
        });
        if let Some((i, m)) = bad.into_iter().min_by_key(|(i, _)| invs[*i].fields.len()) {
            let (inv, m) = reduce(invs[i].clone(), m, dir)?;
            v["outcome"] = json!("violation");
            v["case"] = json!({ "program": inv.source() });
            v["message"] = json!(m);
            v["text"] = json!(inv.source());
            v["confirmed"] = json!(true);
            out.push(v);
            break;
        }
        out.push(v);
    }
    Ok(out)
}

/// Compiles and runs one recorded program.
pub fn replay(v: &Value) -> Result<u8, String> {
    let source = v["case"]["program"]
        .as_str()
        .ok_or("no program in the file")?;
    let dir = std::env::temp_dir().join(format!("vharness-replay-{}", std::process::id()));
    io(std::fs::create_dir_all(&dir))?;
    let r = execute(&[source.to_string()], &dir);
    let _ = std::fs::remove_dir_all(&dir);
    println!("{source}");
    match r?.into_iter().next() {
        None => {
            println!("the property holds on this case");
            Ok(0)
        }
        Some((_, m)) => {
            println!("VIOLATED: {m}");
            Ok(1)
        }
    }
}
