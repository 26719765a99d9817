use super::recurring::{self, Gen};
use super::{ZONES, c27, damage};
use crate::core::{Cx, Def, Res};
use crate::generate::{self, Opt};
use crate::lift::{Any, ENTRIES, Entry};
use crate::model::*;
use crate::render;
use crate::tape::Src;
use std::str::FromStr as _;

pub static DEF: Def = Def {
    id: "C31",
    rule: "three to ten texts (whole, edited, cut, near copies of one another), values and recurring components; each is read, written, printed or expanded once in order, then again in other orders with repeats, in a process of its own from the last to the first, by two to four threads at once, and interleaved with half-drawn expansions: the outcome of each is always its first one. Non-trivial: five operations or more. Distinct by the texts.",
    zones: ZONES,
    quick: 120_000,
    thorough: 800_000,
    tape: 2400,
    run,
    exhaustive: None,
    witnesses: &[],
};

enum Op {
    Read(Kind, String, Entry),
    Value(String),
    Write(Any),
    Expand(recurring::Any, usize),
}

fn outcome(op: &Op) -> String {
    match op {
        Op::Read(k, t, e) => match Any::read_by(*k, t, *e) {
            Ok(x) => format!("{x:?}\n{:?}", x.write()),
            Err(e) => format!("{e:?}"),
        },
        Op::Value(t) => format!(
            "{:?} {:?} {:?} {:?} {:?} {:?}",
            ikal::Date::from_str(t),
            ikal::Recur::from_str(t),
            ikal::Period::from_str(t),
            ikal::Trigger::from_str(t),
            ikal::Geo::from_str(t),
            ikal::Class::from_str(t),
        ),
        Op::Write(x) => format!("{:?}", x.write()),
        Op::Expand(x, n) => format!(
            "{:?}",
            recurring::starts(&x.expand().take(*n).collect::<Vec<_>>())
        ),
    }
}

fn ops(s: &mut Src, cx: &mut Cx) -> Vec<Op> {
    let n = 3 + s.usize(8);
    // timestamps of one day, around an offset change of the local zone where it has any
    let around = c27::instant(s);
    let mut v: Vec<Op> = Vec::new();
    let o = Opt {
        density: s.pick(&[4, 12]),
        comps: 3,
        recurid: true,
        ..Opt::read()
    };
    for _ in 0..n {
        let op = match s.weighted(&[4, 3, 2, 2, 2, 3]) {
            0 => {
                let c = generate::any(s, &o);
                let d = render::doc(s, &o, &c);
                let t = render::fold(s, &d.flat());
                cx.note(&t);
                Op::Read(c.kind, t, s.pick(&ENTRIES))
            }
            1 => {
                // a near copy of a text that is there
                let near = v
                    .iter()
                    .filter_map(|x| match x {
                        Op::Read(k, t, _) => Some((*k, t.clone())),
                        _ => None,
                    })
                    .collect::<Vec<_>>();
                let (k, mut t) = if near.is_empty() {
                    (
                        Kind::Calendar,
                        super::wrap(
                            Kind::Calendar,
                            "BEGIN:VCALENDAR\r\nPRODID:1\r\nVERSION:2.0\r\nEND:VCALENDAR\r\n",
                        ),
                    )
                } else {
                    s.pick(&near)
                };
                match s.usize(4) {
                    0 => {
                        let at = s.usize(t.len() + 1);
                        let at = (0..=at).rev().find(|i| t.is_char_boundary(*i)).unwrap_or(0);
                        t.truncate(at);
                    }
                    1 => {
                        // same length, another digit
                        let at = t
                            .bytes()
                            .enumerate()
                            .filter(|x| x.1.is_ascii_digit())
                            .map(|x| x.0)
                            .collect::<Vec<_>>();
                        if !at.is_empty() {
                            let i = s.pick(&at);
                            t.replace_range(i..=i, s.pick::<&str>(&["0", "1", "2", "9"]));
                        }
                    }
                    2 => {
                        t = t
                            .replace("\r\n", "\r\n ")
                            .replace("\r\n BEGIN", "\r\nBEGIN")
                    }
                    _ => damage::edit(s, &mut t),
                }
                cx.note(&t);
                Op::Read(k, t, s.pick(&ENTRIES))
            }
            2 => {
                let ty = s.pick(&damage::VALUE_TYPES);
                let x = generate::value(s, &o, ty, Kind::Event);
                let mut t = render::value_text(s, &x);
                if s.chance(1, 3) {
                    damage::edit(s, &mut t);
                }
                cx.note(&t);
                Op::Value(t)
            }
            3 => {
                let o = Opt { built: true, ..o };
                let c = generate::any(s, &o);
                Op::Write(crate::build::any(s, false, &c))
            }
            5 => {
                let t = around
                    + s.pick(&[
                        0, 1800, 3600, 7200, 10_800, 21_600, -3600, -7200, -43_200, 43_200,
                    ]);
                let d = crate::cal::D::Utc(t);
                let t = match s.usize(4) {
                    0 => d.text(),
                    1 => format!("{}/PT1H", d.text()),
                    2 => format!("FREQ=DAILY;UNTIL={}", d.text()),
                    _ => {
                        let c = format!(
                            "BEGIN:VFREEBUSY\r\nUID:1\r\nDTSTAMP:{}\r\nFREEBUSY:{0}/PT5M\r\nEND:VFREEBUSY\r\n",
                            d.text()
                        );
                        v.push(Op::Read(Kind::Freebusy, c, Entry::Parse));
                        continue;
                    }
                };
                cx.note(&t);
                Op::Value(t)
            }
            _ => {
                let g = Gen {
                    utc: true,
                    utc_monthly: true,
                    exdates: true,
                    content: false,
                    interval_zero: true,
                    other_end: false,
                };
                let r = recurring::rec(s, &g);
                cx.note(format!("{r:?}"));
                Op::Expand(recurring::build(s, &g, &r), 1 + s.usize(12))
            }
        };
        v.push(op);
    }
    v
}

/// The operations of the tape on the standard input, from the last one to the first, in a process
/// that did nothing before.
pub fn outcomes() -> Result<u8, String> {
    use std::io::{Read as _, Write as _};
    crate::core::install_panic_hook();
    let mut b = Vec::new();
    std::io::stdin()
        .read_to_end(&mut b)
        .map_err(|e| e.to_string())?;
    let tape = b
        .chunks_exact(4)
        .map(|c| u32::from_le_bytes([c[0], c[1], c[2], c[3]]))
        .collect::<Vec<_>>();
    let mut s = Src::new(&tape);
    let mut cx = Cx::new("C31", false, crate::known::Known::load()?);
    let ops = ops(&mut s, &mut cx);
    let mut v = ops.iter().rev().map(outcome).collect::<Vec<_>>();
    v.reverse();
    let mut out = std::io::stdout().lock();
    out.write_all(serde_json::json!(v).to_string().as_bytes())
        .map_err(|e| e.to_string())?;
    out.flush().map_err(|e| e.to_string())?;
    Ok(0)
}

/// The same operations in a fresh process, in the reverse order.
fn elsewhere(tape: &[u32]) -> Result<Vec<String>, String> {
    use std::io::Write as _;
    use std::process::{Command, Stdio};
    let exe = std::env::current_exe().map_err(|e| e.to_string())?;
    let mut child = Command::new(exe)
        .arg("outcomes")
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .map_err(|e| e.to_string())?;
    let b = tape
        .iter()
        .flat_map(|x| x.to_le_bytes())
        .collect::<Vec<_>>();
    child
        .stdin
        .take()
        .ok_or("no input")?
        .write_all(&b)
        .map_err(|e| e.to_string())?;
    let o = child.wait_with_output().map_err(|e| e.to_string())?;
    if !o.status.success() {
        return Err(format!("the process ended with {}", o.status));
    }
    serde_json::from_slice(&o.stdout).map_err(|e| e.to_string())
}

fn run(s: &mut Src, cx: &mut Cx) -> Res {
    let ops = ops(s, cx);
    cx.nontrivial_if(ops.len() >= 5);
    cx.label(format!("{} operations", ops.len()));
    let first = ops.iter().map(outcome).collect::<Vec<_>>();
    let again = |what: &str, i: usize, got: String| -> Res {
        if got == first[i] {
            Ok(())
        } else {
            Err(format!(
                "{what}, operation {i} gives\n{}\nand at first\n{}",
                crate::core::cut(&got, 1500),
                crate::core::cut(&first[i], 1500)
            ))
        }
    };
    // another order, with repeats
    let mut order = (0..ops.len()).collect::<Vec<_>>();
    s.shuffle(&mut order);
    let more = s.usize(4);
    for _ in 0..more {
        order.push(s.usize(ops.len()));
    }
    // expansions drawn little by little, in between
    let mut open = ops
        .iter()
        .enumerate()
        .filter_map(|(i, o)| match o {
            Op::Expand(x, n) => Some((i, x.expand(), *n, Vec::new())),
            _ => None,
        })
        .collect::<Vec<_>>();
    for i in &order {
        cx.step();
        for x in &mut open {
            if x.3.len() < x.2
                && let Some(o) = x.1.next()
            {
                x.3.push(o);
            }
        }
        again("in another order", *i, outcome(&ops[*i]))?;
    }
    if s.chance(1, 400) {
        // one of them very often
        cx.label("one operation hundreds of times");
        let i = s.usize(ops.len());
        let n = s.pick(&[300, 1100, 2100, 4200]);
        for _ in 0..n {
            again("repeated", i, outcome(&ops[i]))?;
        }
        for j in 0..ops.len() {
            again(
                "after hundreds of repetitions of another one",
                j,
                outcome(&ops[j]),
            )?;
        }
    }
    if s.chance(1, 8000) {
        // so many lines that nothing may be kept of each
        cx.label("a million lines");
        let n = 5000;
        let text = format!(
            "BEGIN:VEVENT\r\nUID:1\r\nDTSTAMP:20240101T000000Z\r\nDTSTART:20240101\r\n{}END:VEVENT\r\n",
            "COMMENT:x\r\n".repeat(n)
        );
        for _ in 0..220 {
            match ikal::VEvent::from_str(&text) {
                Ok(e) if e.comment.len() == n => (),
                x => {
                    return Err(format!(
                        "after many events, another is {}",
                        if x.is_ok() { "cut" } else { "refused" }
                    ));
                }
            }
        }
        for j in 0..ops.len() {
            again("after a million lines", j, outcome(&ops[j]))?;
        }
    }
    for (i, it, n, mut got) in open {
        let left = n - got.len();
        got.extend(it.take(left));
        again(
            "drawn little by little",
            i,
            format!("{:?}", recurring::starts(&got)),
        )?;
    }
    if s.chance(1, 12) {
        cx.label("in a fresh process");
        let all = elsewhere(s.tape())?;
        for (i, got) in all.into_iter().enumerate() {
            cx.step();
            again("in a fresh process, from the last to the first", i, got)?;
        }
    }
    // at once
    let threads = s.usize(4);
    if threads > 1 {
        cx.label("threads");
        let orders = (0..threads)
            .map(|_| {
                let mut o = order.clone();
                s.shuffle(&mut o);
                o
            })
            .collect::<Vec<_>>();
        let all = std::thread::scope(|scope| {
            let h = orders
                .iter()
                .map(|o| {
                    let ops = &ops;
                    scope.spawn(move || {
                        o.iter()
                            .map(|i| (*i, outcome(&ops[*i])))
                            .collect::<Vec<_>>()
                    })
                })
                .collect::<Vec<_>>();
            h.into_iter()
                .map(std::thread::ScopedJoinHandle::join)
                .collect::<Vec<_>>()
        });
        for r in all {
            let Ok(r) = r else {
                return Err("an operation that returned at first panics in a thread".into());
            };
            for (i, got) in r {
                cx.step();
                again("by several threads at once", i, got)?;
            }
        }
    }
    Ok(())
}
