use super::recurring::{self, Gen};
use super::{UTC, wrap};
use crate::core::{Cx, Def, Res};
use crate::generate::{self, Opt};
use crate::lift::{Any, Entry};
use crate::model::*;
use crate::render::{self, Doc, Line};
use crate::tape::Src;

pub static DEF: Def = Def {
    id: "C32",
    rule: "a shape of text (components, lines, list elements, rule parts, parameters, characters, folds or junk that are repeated; whole, or with its end or another part missing) made at about 8 KB (one in six: 64 KB; bare components: up to 256 KB) and at 64 times this size, read and written; or a series drawn to 100 and to 6400 occurrences. The processor time of the large one, at best of three, may not be over 224 times that of the small one, at worst of three (64 if in proportion, 4096 if quadratic), unless it is under 0.6 s. Non-trivial: always. Distinct by shape.",
    zones: UTC,
    quick: 1_500,
    thorough: 5_000,
    tape: 1200,
    run,
    exhaustive: None,
    witnesses: &[],
};

const SMALL: usize = 8_000;
const FACTOR: usize = 64;
const ALLOWED: f64 = 3.5 * FACTOR as f64;
const FLOOR: f64 = 0.6;

fn cpu() -> f64 {
    // SAFETY: plain system call filling a local structure.
    unsafe {
        let mut t: libc::timespec = std::mem::zeroed();
        libc::clock_gettime(libc::CLOCK_THREAD_CPUTIME_ID, &mut t);
        t.tv_sec as f64 + t.tv_nsec as f64 / 1e9
    }
}

fn timed(f: &mut dyn FnMut()) -> f64 {
    let start = cpu();
    f();
    cpu() - start
}

fn compare(what: &str, small: &mut dyn FnMut(), large: &mut dyn FnMut()) -> Res {
    let mut a = timed(small).max(0.0005);
    let mut b = timed(large);
    // sure of what is slow only
    for _ in 0..2 {
        if b < FLOOR || b < ALLOWED * a {
            return Ok(());
        }
        a = a.max(timed(small));
        b = b.min(timed(large));
    }
    if b < FLOOR || b < ALLOWED * a {
        return Ok(());
    }
    Err(format!(
        "{what} takes {a:.4} s of processor, {FACTOR} times more takes {b:.2} s: {:.0} times",
        b / a
    ))
}

/// A document of about `n` octets.
pub(super) type Shape = Box<dyn Fn(usize) -> String>;

/// A family of texts of any size, of kind `which` of 9.
pub(super) fn shape(s: &mut Src, cx: &mut Cx, scale: &mut usize, which: usize) -> (Kind, Shape) {
    let o = Opt {
        density: s.pick(&[5, 15]),
        comps: 2,
        ..Opt::read()
    };
    // `inside` lines at some place of a component
    let place = |s: &mut Src, kind: Kind| -> (String, String) {
        let c = generate::comp(s, &Opt { density: 5, ..o }, kind);
        let d = render::doc(s, &o, &c);
        let flat = d.flat();
        let at = 1 + s.usize(d.lines.len() + 1);
        (render::join(&flat[..at]), render::join(&flat[at..]))
    };
    let around = move |kind: Kind,
                       a: String,
                       unit: Box<dyn Fn(usize) -> String>,
                       b: String,
                       inner: bool|
          -> (Kind, Shape) {
        let make = move |n: usize| {
            let mut t = a.clone();
            let mut i = 0;
            while t.len() < n {
                t.push_str(&unit(i));
                i += 1;
            }
            t.push_str(&b);
            if inner { wrap(kind, &t) } else { t }
        };
        (if inner { Kind::Calendar } else { kind }, Box::new(make))
    };
    let kinds = [
        Kind::Event,
        Kind::Todo,
        Kind::Journal,
        Kind::Freebusy,
        Kind::Timezone,
        Kind::Standard,
        Kind::Display,
        Kind::Email,
        Kind::Calendar,
    ];
    let inner = s.chance(1, 2);
    match which {
        0 => {
            cx.label("components");
            let (kind, units) = match s.usize(4) {
                0 => (Kind::Event, ALARMS.to_vec()),
                1 => (Kind::Timezone, vec![Kind::Standard, Kind::Daylight]),
                _ => (Kind::Calendar, TOP.to_vec()),
            };
            let density = s.pick(&[o.density, 0, 0]);
            if density == 0 {
                // so cheap that only very many of them show
                *scale = s.pick(&[1, 1, 8, 32]);
            }
            let docs = (0..1 + s.usize(4))
                .map(|_| {
                    let k = s.pick(&units);
                    let c = generate::comp(s, &Opt { density, ..o }, k);
                    render::doc(s, &o, &c).plain()
                })
                .collect::<Vec<_>>();
            // at the end, where components are
            let c = generate::comp(s, &Opt { density: 5, ..o }, kind);
            let mut d: Doc = render::doc(s, &o, &c);
            d.subs.clear();
            let end = format!("END:{}\r\n", kind.name());
            let a = d.plain();
            let a = a[..a.len() - end.len()].to_string();
            let inner = inner && kind != Kind::Calendar;
            around(
                kind,
                a,
                Box::new(move |i| docs[i % docs.len()].clone()),
                end,
                inner,
            )
        }
        1 => {
            cx.label("lines");
            let kind = s.pick(&kinds);
            let (a, b) = place(s, kind);
            let rows = table(kind);
            let mut lines = Vec::new();
            for _ in 0..1 + s.usize(2) {
                let row = s.pick(rows);
                let p = generate::prop(s, &o, kind, row.0, row.1);
                let c = Comp {
                    kind,
                    props: vec![p],
                    subs: vec![],
                };
                let l: Line = render::doc(s, &o, &c).lines.remove(0);
                lines.push(format!("{}\r\n", l.text));
            }
            around(
                kind,
                a,
                Box::new(move |i| lines[i % lines.len()].clone()),
                b,
                inner && kind != Kind::Calendar,
            )
        }
        2 => {
            cx.label("extensions");
            let kind = s.pick(&kinds);
            let (a, b) = place(s, kind);
            let prefix = s.pick(&["X-", "Y", "DTSTART", "END-", "BEGIN"]);
            let value = s.pick(&["", "x", "a\\,b;c:d"]);
            around(
                kind,
                a,
                Box::new(move |i| format!("{prefix}{i}:{value}\r\n")),
                b,
                inner && kind != Kind::Calendar,
            )
        }
        3 => {
            cx.label("list elements");
            let lists = [
                ("CATEGORIES", Ty::Text),
                ("RESOURCES", Ty::Text),
                ("EXDATE", Ty::Date),
                ("RDATE", Ty::Rdate),
                ("RDATE;VALUE=PERIOD", Ty::Period),
                ("RRULE:FREQ=DAILY;BYDAY=MO", Ty::Status),
                ("RRULE:FREQ=DAILY;BYHOUR=1", Ty::Percent),
                ("RRULE:FREQ=DAILY;BYMONTH=1", Ty::Percent),
                ("RRULE:FREQ=DAILY;BYSETPOS=1", Ty::Percent),
            ];
            let (name, ty) = s.pick(&lists);
            let (a, b) = place(s, Kind::Event);
            let units = (0..1 + s.usize(3))
                .map(|_| match ty {
                    Ty::Rdate => crate::cal::D::Naive(generate::secs_of_day(s)).text(),
                    Ty::Status => s.pick(&["MO", "1SU", "-53FR"]).to_string(),
                    Ty::Percent => s.pick(&["1", "2", "03"]).to_string(),
                    Ty::Date => generate::datetime(s, &o).text(),
                    _ => {
                        let v = generate::value(s, &o, ty, Kind::Event);
                        render::value_text(s, &v)
                    }
                })
                .map(|t| format!(",{t}"))
                .collect::<Vec<_>>();
            let first = if name.contains("FREQ") {
                String::new()
            } else {
                format!(":{}", units[0][1..].to_owned())
            };
            around(
                Kind::Event,
                format!("{a}{name}{first}"),
                Box::new(move |i| units[i % units.len()].clone()),
                format!("\r\n{b}"),
                inner,
            )
        }
        4 => {
            cx.label("parameters");
            let (a, b) = place(s, Kind::Event);
            let name = s.pick(&[
                "SUMMARY",
                "ATTENDEE",
                "X-A",
                "DTSTART",
                "EXDATE",
                "URL",
                "CATEGORIES",
            ]);
            let value = s.pick(&["a", "\"a;b:c,d\"", "", "\"\"", "\"a\",\"b\""]);
            let end = s.pick(&[":20240101T000000\r\n", "\r\n", ":a\r\n", "=\r\n"]);
            around(
                Kind::Event,
                format!("{a}{name}"),
                Box::new(move |i| format!(";P{i}={value}")),
                format!("{end}{b}"),
                inner,
            )
        }
        5 => {
            cx.label("parameter value");
            let (a, b) = place(s, Kind::Event);
            let name = s.pick(&["SUMMARY", "ATTENDEE", "X-A", "CATEGORIES"]);
            let (before, unit, after) = s.pick(&[
                ("\"", "x", "\":a"),
                ("\"", ";:,", "\":a"),
                ("", "x", ":a"),
                ("\"x\"", ",\"x\"", ":a"),
                ("\"", "x", ":a"),
                ("", "\"", ":a"),
                ("\"", "é", "\":a"),
                ("", "a,", ":b"),
                ("", ",", ":b"),
            ]);
            around(
                Kind::Event,
                format!("{a}{name};P={before}"),
                Box::new(move |_| unit.to_string()),
                format!("{after}\r\n{b}"),
                inner,
            )
        }
        6 => {
            cx.label("characters");
            let (a, b) = place(s, Kind::Event);
            let name = s.pick(&[
                "SUMMARY:",
                "SUMMARY:a",
                "URL:",
                "X-A:",
                "CATEGORIES:",
                "REQUEST-STATUS:1.0;",
                "REQUEST-STATUS:1.0;a;",
                "GEO:1.",
                "GEO:1;2.",
                "SEQUENCE:",
                "DURATION:PT",
                "DURATION:P1D",
                "CLASS:",
                "STATUS:",
                "DTSTART:",
                "EXDATE:2024",
                "RRULE:FREQ=DAILY",
                "RRULE:FREQ=DAILY;COUNT=",
                "RRULE:",
                "",
                "SUMMARY",
                "ATTACH:",
                "PRIORITY:",
                "TRANSP:",
                "RRULE:FREQ=DAILY;BYDAY=",
                "RDATE;VALUE=PERIOD:20240101T000000/",
            ]);
            let mut unit = String::new();
            for _ in 0..1 + s.usize(3) {
                match s.usize(4) {
                    0 => unit.push(s.pick(&generate::SPECIALS)),
                    1 => unit.push(s.pick(&[
                        'a',
                        '0',
                        '1',
                        'T',
                        'Z',
                        '.',
                        '+',
                        ';',
                        'é',
                        '\u{1F389}',
                    ])),
                    2 => unit.push_str(s.pick::<&str>(&[
                        "\\n",
                        "\\,",
                        "\\\\",
                        "\\;",
                        ";BYDAY=MO",
                        ";X=1",
                        "1D",
                        "1S",
                        ",",
                        "\r\n ",
                        "\r\n\t",
                    ])),
                    _ => unit.push(s.pick(&generate::UNICODE)),
                }
            }
            let unit = unit.replace('\n', "\r\n ").replace("\r\r\n  ", "\r\n ");
            around(
                Kind::Event,
                format!("{a}{name}"),
                Box::new(move |_| unit.clone()),
                format!("\r\n{b}"),
                inner,
            )
        }
        7 => {
            cx.label("junk");
            let kind = s.pick(&kinds);
            let (a, b) = place(s, kind);
            let unit = s.pick(&[
                "\r\n",
                "BEGIN:VEVENT\r\n",
                "BEGIN:VALARM\r\n",
                "BEGIN:VTIMEZONE\r\n",
                "BEGIN:STANDARD\r\n",
                "END:VEVENT\r\n",
                "x",
                ":",
                ";",
                "\"",
                "\r",
                "\n",
                " ",
                "\r\n ",
                "BEGIN:X\r\nEND:X\r\n",
                "a:b",
                ":\r\n",
                ";:\r\n",
                "a;b\r\n",
                "BEGIN:VALARM\r\nEND:VALARM\r\n",
                "BEGIN:VALARM\r\nACTION:AUDIO\r\nEND:VALARM\r\n",
                "BEGIN:VALARM\r\nTRIGGER:PT1S\r\nACTION:X\r\nEND:VALARM\r\n",
                "BEGIN:VEVENT\r\nEND:VEVENT\r\n",
                "BEGIN:VTODO\r\nUID:1\r\nEND:VTODO\r\n",
            ]);
            around(
                kind,
                a,
                Box::new(move |_| unit.to_string()),
                b,
                inner && kind != Kind::Calendar,
            )
        }
        _ => {
            cx.label("folds");
            let kind = s.pick(&kinds);
            let c = generate::comp(s, &o, kind);
            let d = render::doc(s, &o, &c);
            let every = s.pick(&[1, 2, 7]);
            let (a, b) = place(s, kind);
            let mut unit = String::new();
            for l in d.lines.iter().map(|l| &l.text) {
                for (i, c) in l.chars().enumerate() {
                    if i > 0 && i % every == 0 {
                        unit.push_str("\r\n ");
                    }
                    unit.push(c);
                }
                unit.push_str("\r\n");
            }
            around(
                kind,
                a,
                Box::new(move |_| unit.clone()),
                b,
                inner && kind != Kind::Calendar,
            )
        }
    }
}

fn series(s: &mut Src, cx: &mut Cx) -> Res {
    cx.label("series");
    let g = Gen {
        utc: true,
        utc_monthly: true,
        exdates: true,
        content: s.chance(1, 3),
        interval_zero: true,
        other_end: false,
    };
    let mut r = recurring::rec(s, &g);
    r.rule.until = None;
    r.rule.count = None;
    r.rule.interval = 1;
    let any = recurring::build(s, &g, &r);
    cx.note(format!("{r:?}"));
    let draw = |n: usize| {
        let any = any.clone();
        move || drop(any.expand().take(n).last())
    };
    compare(
        "drawing 100 occurrences",
        &mut draw(100),
        &mut draw(100 * FACTOR),
    )?;
    let bound = |k: i64| {
        let d = crate::cal::candidate(r.start, &r.rule.freq, 1, k).unwrap_or(r.start);
        recurring::Bound::Date(d.to_date())
    };
    if matches!(r.rule.freq.as_str(), "MONTHLY" | "YEARLY") {
        return Ok(());
    }
    let skip = |n: i64| {
        let any = any.clone();
        let b = bound(n);
        move || drop(any.after(b).next())
    };
    compare(
        "skipping 100 occurrences",
        &mut skip(100),
        &mut skip(100 * FACTOR as i64),
    )
}

fn run(s: &mut Src, cx: &mut Cx) -> Res {
    cx.nontrivial();
    if s.chance(1, 12) {
        return series(s, cx);
    }
    let mut scale = 1;
    let which = s.usize(9);
    let (kind, make) = shape(s, cx, &mut scale, which);
    let how = s.weighted(&[4, 1, 1, 1]);
    let text = |n: usize| {
        let mut t = make(n);
        match how {
            1 => {
                // without its end
                let mut at = t.len().saturating_sub(10);
                while !t.is_char_boundary(at) {
                    at -= 1;
                }
                t.truncate(at);
            }
            2 => t.push_str("BEGIN:X\r\n"),
            3 => {
                // a line that cannot be, near the end
                let at = t.rfind("END:").unwrap_or(t.len());
                t.insert_str(at, "???\r\n");
            }
            _ => (),
        }
        t
    };
    // what is cheap shows with more of it only
    let size = if scale > 1 {
        SMALL * scale
    } else if s.chance(1, 6) {
        SMALL * 8
    } else {
        SMALL
    };
    cx.note(format!("{kind:?} {how} {size} {}", text(200)));
    let (small, large) = (text(size), text(size * FACTOR));
    let read = |t: &String| Any::read_by(kind, t, Entry::Parse);
    let mut a = None;
    let mut b = None;
    compare(
        &format!("reading about {size} octets"),
        &mut || a = Some(read(&small)),
        &mut || b = Some(read(&large)),
    )?;
    let (Some(Ok(a)), Some(Ok(b))) = (a, b) else {
        cx.label("refused");
        return Ok(());
    };
    cx.label("read");
    compare(
        &format!("writing what {size} octets hold"),
        &mut || drop(a.write()),
        &mut || drop(b.write()),
    )?;
    compare(
        &format!("cloning, comparing and printing what {size} octets hold"),
        &mut || drop((a.clone() == a, a.debug())),
        &mut || drop((b.clone() == b, b.debug())),
    )
}
