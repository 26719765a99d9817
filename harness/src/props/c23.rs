use super::recurring::{self, Gen};
use super::{ZONES, ok, same};
use crate::core::{Cx, Def, Res};
use crate::tape::Src;

pub static DEF: Def = Def {
    id: "C23",
    rule: "a recurring component with exceptions, count, until or neither; its expansion, and the expansion of each of its first occurrences, of an occurrence of an occurrence, and (in UTC) of occurrences written and read back: the rest of the series, value by value, with the same number remaining, whichever way they are taken. Non-trivial: three occurrences or more. Distinct by component.",
    zones: ZONES,
    quick: 400_000,
    thorough: 3_000_000,
    tape: 600,
    run,
    exhaustive: None,
    witnesses: &[],
};

fn run(s: &mut Src, cx: &mut Cx) -> Res {
    let mut g = Gen {
        utc: true,
        utc_monthly: true,
        exdates: true,
        content: s.chance(1, 4),
        interval_zero: true,
        other_end: s.chance(1, 8),
    };
    let mut r = recurring::rec(s, &g);
    let n = s.pick(&[10, 5, 25]);
    // positions that are thousands of occurrences away
    let mut skip = 0;
    if s.chance(1, 4000) {
        g.content = false;
        r.rule.count = None;
        r.rule.until = None;
        skip = s.far();
        cx.label("far away");
    }
    // all the parts of a rule
    if s.chance(1, 4) {
        let x = crate::generate::recur(s, &crate::generate::Opt::built());
        r.rule.by = x.by;
        r.rule.by_day = x.by_day;
        r.rule.wkst = x.wkst;
    }
    let any = recurring::build(s, &g, &r);
    cx.note(format!("{r:?} first {n}, in {}", cx.zone));
    recurring::label(cx, &r);
    let occ = any.expand().skip(skip).take(n).collect::<Vec<_>>();
    let ended = occ.len() < n;
    if r.rule.count.is_some_and(|c| occ.len() as i64 > c) {
        return Err(format!(
            "more occurrences than stated: {}",
            recurring::show(&recurring::starts(&occ))
        ));
    }
    cx.nontrivial_if(occ.len() >= 3);
    let check = |what: &str, i: usize, from: &recurring::Any| -> Res {
        let mut it = from.expand();
        for (j, e) in occ.iter().enumerate().skip(i) {
            match it.next() {
                Some(x) if x == *e => (),
                x => {
                    return Err(format!(
                        "{what} from occurrence {i}: occurrence {j} should be at {:?} ({:?}), it is at {:?} ({:?}); series {}",
                        e.start(),
                        e.rule(),
                        x.as_ref().map(recurring::Any::start),
                        x.as_ref().map(recurring::Any::rule),
                        recurring::show(&recurring::starts(&occ)),
                    ));
                }
            }
        }
        if ended && let Some(x) = it.next() {
            return Err(format!(
                "{what} from occurrence {i}: one more at {:?}; series {}",
                x.start(),
                recurring::show(&recurring::starts(&occ))
            ));
        }
        Ok(())
    };
    for (i, x) in occ.iter().enumerate() {
        cx.step();
        check("expanded again", i, x)?;
    }
    if skip == 0 {
        recurring::otherwise(s, &any, &occ, ended, Clone::clone)?;
    }
    if occ.is_empty() {
        return Ok(());
    }
    // several times in a row
    let mut i = 0;
    let mut here = if skip == 0 { any } else { occ[0].clone() };
    for _ in 0..4 {
        let k = s.usize((occ.len() - i).min(4));
        let Some(x) = here.expand().nth(k) else {
            return Err(format!("no occurrence {k} after occurrence {i}"));
        };
        i += k;
        check("expanded again and again", i, &x)?;
        here = x;
    }
    // through a file
    let in_file = |d: &crate::cal::D| {
        d.day() >= crate::cal::days(0, 1, 1) && d.day() <= crate::cal::days(9999, 12, 31)
    };
    if cx.is_utc()
        && occ
            .iter()
            .all(|x| x.start().iter().chain(x.end().iter()).all(in_file))
        && r.exdates.iter().all(in_file)
    {
        let i = s.usize(occ.len());
        let text = ok("an occurrence", occ[i].write())?;
        let back = ok("an occurrence", occ[i].read(&text))?;
        cx.note(&text);
        cx.label("written and read");
        same(
            "an occurrence written and read",
            &occ[i].lift(),
            &back.lift(),
        )?;
        let rest = back.expand().take(occ.len() - i).collect::<Vec<_>>();
        let same_starts = recurring::starts(&rest) == recurring::starts(&occ[i..]);
        let same_rules = rest
            .iter()
            .zip(&occ[i..])
            .all(|(a, b)| a.rule() == b.rule() && a.end() == b.end());
        if rest.len() != occ.len() - i || !same_starts || !same_rules {
            return Err(format!(
                "resumed from a file at occurrence {i}: {} instead of {}",
                recurring::show(&recurring::starts(&rest)),
                recurring::show(&recurring::starts(&occ[i..]))
            ));
        }
        if ended && let Some(x) = back.expand().nth(occ.len() - i) {
            return Err(format!("resumed from a file: one more at {:?}", x.start()));
        }
    }
    Ok(())
}
