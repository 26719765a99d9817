use super::{ZONES, describe, ok, same};
use crate::build;
use crate::cal::D;
use crate::core::{Cx, Def, Exhaustive, Res, Witness};
use crate::generate::{self, Opt};
use crate::lift::Any;
use crate::model::*;
use crate::reader;
use crate::render;
use crate::tape::Src;

pub static DEF: Def = Def {
    id: "C17",
    rule: "every offset is enumerated, written and read; time zones with up to six interleaved standard and daylight observances with starts, offsets, names, rules and dates are read and written. Non-trivial: two observances or more. Distinct by text.",
    zones: ZONES,
    quick: 560_000,
    thorough: 4_000_000,
    tape: 2200,
    run,
    exhaustive: Some(Exhaustive {
        what: "every offset of a whole number of seconds between -23:59:59 and +23:59:59, written, read and read back (one case per minute and sign)",
        total: |_| 2 * 1440,
        run: enumerate,
    }),
    witnesses: &[Witness {
        key: "offset-seconds",
        run: seconds,
    }],
};

fn observance(to: &str, from: &str) -> String {
    format!(
        "BEGIN:STANDARD\r\nDTSTART:20240101T000000\r\nTZOFFSETTO:{to}\r\nTZOFFSETFROM:{from}\r\nEND:STANDARD\r\n"
    )
}

fn seconds(cx: &mut Cx) -> Res {
    let text = observance("-075258", "+0100");
    cx.note(&text);
    let o = ok("an observance", text.parse::<ikal::vtimezone::Standard>())?;
    let n = o.tzoffsetto.local_minus_utc();
    if n == -(7 * 3600 + 52 * 60 + 58) {
        Ok(())
    } else {
        Err(format!("-075258 is read as {n} s"))
    }
}

fn enumerate(i: u64, cx: &mut Cx) -> Res {
    cx.nontrivial();
    let sign = if i >= 1440 { -1 } else { 1 };
    let minute = (i % 1440) as i64;
    cx.note(format!("offsets of minute {}", sign * minute));
    for sec in 0..60 {
        cx.step();
        let n = sign * (minute * 60 + sec);
        let text = render::offset_text(n);
        let Some(f) = chrono::FixedOffset::east_opt(n as i32) else {
            unreachable!("{n}");
        };
        let out = ok("an offset", ikal::ser::ical(&f))?;
        if out != text {
            return Err(format!(
                "the offset of {n} s is written {out} instead of {text}"
            ));
        }
        // read, in both places; with explicit seconds too
        let mut texts = vec![(text.clone(), n)];
        if n % 60 == 0 {
            texts.push((format!("{text}00"), n));
        }
        for (t, n) in texts {
            let o = ok(
                "an observance",
                observance(&t, "+0000").parse::<ikal::vtimezone::Standard>(),
            )?;
            let p = ok(
                "an observance",
                observance("+0000", &t).parse::<ikal::vtimezone::Standard>(),
            )?;
            let got = [
                o.tzoffsetto.local_minus_utc(),
                p.tzoffsetfrom.local_minus_utc(),
            ];
            for g in got {
                let g = i64::from(g);
                // the known finding: seconds are dropped
                let dropped = n % 60 != 0 && g == n / 60 * 60 && cx.is_known("offset-seconds");
                if g != n && !dropped {
                    return Err(format!("the offset {t} is read as {g} s instead of {n} s"));
                }
            }
            if [o.tzoffsetfrom, p.tzoffsetto]
                .iter()
                .any(|x| x.local_minus_utc() != 0)
            {
                return Err(format!("+0000 is not read as 0 next to {t}"));
            }
        }
    }
    Ok(())
}

fn zone(s: &mut Src, o: &Opt) -> Comp {
    let mut c = generate::comp(s, o, Kind::Timezone);
    c.subs.clear();
    let n = s.usize(7);
    for _ in 0..n {
        let k = s.pick(&[Kind::Standard, Kind::Daylight]);
        let mut x = generate::comp(s, o, k);
        // starts of observances are usually local times
        for p in &mut x.props {
            if p.name == "DTSTART" && s.chance(2, 3) {
                let V::Date(d) = p.value else { continue };
                p.value = V::Date(D::Naive(d.secs()));
            }
        }
        c.subs.push(x);
    }
    c
}

fn run(s: &mut Src, cx: &mut Cx) -> Res {
    let o = Opt {
        utc: cx.is_utc(),
        density: s.pick(&[40, 15, 80]),
        ..Opt::built()
    };
    let c = zone(s, &o);
    describe(cx, &c);
    cx.nontrivial_if(c.subs.len() >= 2);
    let any = if s.chance(1, 2) {
        let d = render::doc(s, &o, &c);
        let mut d = d;
        // observances of both kinds in any order, before and after the properties
        let at = s.usize(d.lines.len() + 1);
        let mut flat = vec![format!("BEGIN:{}", d.kind.name())];
        let after = if s.chance(1, 3) {
            d.lines.split_off(at)
        } else {
            vec![]
        };
        flat.extend(d.lines.iter().map(|l| l.text.clone()));
        for x in &d.subs {
            flat.extend(x.flat());
        }
        flat.extend(after.iter().map(|l| l.text.clone()));
        flat.push(format!("END:{}", d.kind.name()));
        let text = render::fold(s, &flat);
        cx.note(&text);
        let any = ok("a time zone", Any::read(Kind::Timezone, &text))?;
        same("what is read", &c.norm(), &any.lift())?;
        any
    } else {
        let any = build::any(s, false, &c);
        cx.note(any.debug());
        any
    };
    let out = ok("writing", any.write())?;
    let strict = reader::read(&out).map_err(|e| format!("{e}\n{out}"))?;
    same("what is written", &c.norm(), &strict)?;
    let back = ok("what is written", Any::read(Kind::Timezone, &out))?;
    same("what is written and read back", &c.norm(), &back.lift())
}
