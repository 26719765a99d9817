//! The properties.
use crate::core::Def;
use crate::generate::{self, Opt};
use crate::model::*;
use crate::render::{self, Doc};
use crate::tape::Src;

pub mod c01;
pub mod c02;
pub mod c03;
pub mod c04;
pub mod c05;
pub mod c06;
pub mod c07;
pub mod c08;
pub mod c09;
pub mod c10;
pub mod c11;
pub mod c12;
pub mod c13;
pub mod c14;
pub mod c15;
pub mod c16;
pub mod c17;
pub mod c18;
pub mod c19;
pub mod c20;
pub mod c21;
pub mod c22;
pub mod c23;
pub mod c24;
pub mod c25;
pub mod c26;
pub mod c27;
pub mod c28;
pub mod c29;
pub mod c30;
pub mod c31;
pub mod c32;
pub mod damage;
pub mod recurring;

static ALL: [&Def; 32] = [
    &c01::DEF,
    &c02::DEF,
    &c03::DEF,
    &c04::DEF,
    &c05::DEF,
    &c06::DEF,
    &c07::DEF,
    &c08::DEF,
    &c09::DEF,
    &c10::DEF,
    &c11::DEF,
    &c12::DEF,
    &c13::DEF,
    &c14::DEF,
    &c15::DEF,
    &c16::DEF,
    &c17::DEF,
    &c18::DEF,
    &c19::DEF,
    &c20::DEF,
    &c21::DEF,
    &c22::DEF,
    &c23::DEF,
    &c24::DEF,
    &c25::DEF,
    &c26::DEF,
    &c27::DEF,
    &c28::DEF,
    &c29::DEF,
    &c30::DEF,
    &c31::DEF,
    &c32::DEF,
];

pub fn all() -> &'static [&'static Def] {
    &ALL
}

pub const UTC: &[&str] = &["UTC"];

pub const ZONES: &[&str] = &[
    "UTC",
    "Europe/Paris",
    "America/New_York",
    "Asia/Kathmandu",
    "Australia/Lord_Howe",
    "Pacific/Apia",
    "America/St_Johns",
    "Africa/Casablanca",
];

/// A component by meaning and one of its spellings.
pub fn document(s: &mut Src, o: &Opt, calendar: bool) -> (Comp, Doc) {
    let c = if calendar {
        generate::calendar(s, o)
    } else {
        generate::any(s, o)
    };
    let d = render::doc(s, o, &c);
    (c, d)
}

/// Turns an error of the library into the message of a violation.
pub fn ok<T>(what: &str, r: Result<T, ikal::Error>) -> Result<T, String> {
    r.map_err(|e| {
        format!(
            "{what} is refused: {}",
            crate::core::cut(&e.to_string(), 400)
        )
    })
}

pub fn same(what: &str, expected: &Norm, actual: &Norm) -> Result<(), String> {
    match diff(expected, actual) {
        None => Ok(()),
        Some(d) => Err(format!("{what}: {d}")),
    }
}

/// Everything that tells which of two values is the greater.
pub fn ordered<T: Ord + Clone + std::fmt::Debug>(
    a: &T,
    b: &T,
    expected: std::cmp::Ordering,
) -> Result<(), String> {
    let (less, greater) = (expected.is_lt(), expected.is_gt());
    let (x, y) = (a.clone(), b.clone());
    let (max, min) = (x.clone().max(y.clone()), x.min(y));
    let (low, high) = if greater { (b, a) } else { (a, b) };
    let mut sorted = [a.clone(), b.clone()];
    sorted.sort();
    let checks = [
        ("cmp", a.cmp(b) == expected),
        ("cmp the other way", b.cmp(a) == expected.reverse()),
        ("partial_cmp", a.partial_cmp(b) == Some(expected)),
        ("<", (a < b) == less),
        (">", (a > b) == greater),
        ("<=", (a <= b) != greater),
        (">=", (a >= b) != less),
        // equal ones may be different values
        (
            "max",
            if expected.is_eq() {
                max == *a || max == *b
            } else {
                max == *high
            },
        ),
        (
            "min",
            if expected.is_eq() {
                min == *a || min == *b
            } else {
                min == *low
            },
        ),
        (
            "clamp",
            a.clone().clamp(low.clone(), high.clone()) == *a
                && b.clone().clamp(low.clone(), high.clone()).cmp(b).is_eq(),
        ),
        ("sort", sorted[0] == *low && sorted[1] == *high),
    ];
    match checks.iter().find(|x| !x.1) {
        None => Ok(()),
        Some((name, _)) => Err(format!(
            "{name}: {a:?} should be {expected:?} compared with {b:?}"
        )),
    }
}

/// A calendar around a component.
pub fn wrap(kind: Kind, text: &str) -> String {
    match kind {
        Kind::Calendar => text.to_string(),
        Kind::Standard | Kind::Daylight => wrap(
            Kind::Timezone,
            &format!("BEGIN:VTIMEZONE\r\nTZID:x\r\n{text}END:VTIMEZONE\r\n"),
        ),
        _ => format!("BEGIN:VCALENDAR\r\nPRODID:-//p\r\nVERSION:2.0\r\n{text}END:VCALENDAR\r\n"),
    }
}

/// Labels that tell what the generator produced.
pub fn describe(cx: &mut crate::core::Cx, c: &Comp) {
    cx.label(format!("kind={:?}", c.kind));
    let n = c.size();
    cx.label(match n {
        0..=4 => "props<=4",
        5..=12 => "props<=12",
        13..=40 => "props<=40",
        _ => "props>40",
    });
    if c.any(&|p| p.ty == Ty::Ext) {
        cx.label("extension");
    }
    if c.any(&|p| p.params.values().any(|v| v.contains([',', ';', ':']))) {
        cx.label("param to quote");
    }
    if c.any(&|p| matches!(&p.value, V::Text(t) if t.contains(['\\', ';', ',', '\n']))) {
        cx.label("text to escape");
    }
    if c.any(&|p| matches!(&p.value, V::Text(t) | V::Raw(t) if t.len() > 70)) {
        cx.label("long value");
    }
    if c.any(&|p| matches!(&p.value, V::Text(t) | V::Raw(t) if !t.is_ascii())) {
        cx.label("non-ASCII");
    }
    if c.any(&|p| matches!(&p.value, V::Text(t) | V::Raw(t) if t.is_empty())) {
        cx.label("empty value");
    }
    if c.any(&|p| matches!(&p.value, V::Recur(_))) {
        cx.label("rule");
    }
    if !c.subs.is_empty() {
        cx.label("nested");
    }
    if c.subs.len() > 1 {
        cx.label("several components");
    }
}
