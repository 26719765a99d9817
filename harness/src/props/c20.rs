use super::ZONES;
use super::recurring::{self, Gen};
use crate::cal::{self, D};
use crate::core::{Cx, Def, Res};
use crate::tape::Src;

pub static DEF: Def = Def {
    id: "C20",
    rule: "a recurring component with none to hundreds of exception dates (occurrences, the first one, neighbours of occurrences, other kinds of dates, repeated, in any order) and the same without: the expansion with exceptions is the other one without those whose start equals an exception. Non-trivial: at least one occurrence is excluded and one remains. Distinct by component.",
    zones: ZONES,
    quick: 960_000,
    thorough: 6_000_000,
    tape: 400,
    run,
    exhaustive: None,
    witnesses: &[],
};

fn run(s: &mut Src, cx: &mut Cx) -> Res {
    let mut g = Gen {
        utc: true,
        utc_monthly: true,
        exdates: true,
        content: s.chance(1, 8),
        interval_zero: true,
        other_end: s.chance(1, 8),
    };
    let mut r = recurring::rec(s, &g);
    let mut n = s.pick(&[16, 40, 6, 120, 350]);
    if s.chance(1, 4000) {
        // exceptions that are thousands of occurrences away
        g.content = false;
        r.rule.count = None;
        r.rule.until = None;
        n = s.far();
        for _ in 0..1 + s.usize(4) {
            let k = n as i64 - s.range(1, 20);
            // chrono has no date after the year 262142
            r.exdates.extend(
                cal::candidate(r.start, &r.rule.freq, r.rule.interval, k)
                    .filter(|d| d.day() < cal::days(262_000, 1, 1)),
            );
        }
        cx.label("far away");
    }
    cx.note(format!("{r:?} first {n}, in {}", cx.zone));
    recurring::label(cx, &r);
    let with = recurring::build(s, &g, &r);
    // the same when it was written and read
    let with = if !g.content
        && r.dates().all(|d| {
            !matches!(d, D::Utc(_))
                && (cal::days(1, 1, 1)..cal::days(9999, 1, 1)).contains(&d.day())
        })
        && s.chance(1, 6)
    {
        cx.label("read");
        let text = with.write().map_err(|e| e.to_string())?;
        with.read(&text).map_err(|e| format!("{e}\n{text}"))?
    } else {
        with
    };
    let mut without = with.clone();
    without.clear_exdates();
    let full = without.expand().take(n).collect::<Vec<_>>();
    let ended = full.len() < n;
    let dates = r.exdates.iter().map(|d| d.to_date()).collect::<Vec<_>>();
    let expected = full
        .iter()
        .filter(|x| x.start().is_none_or(|d| !r.exdates.contains(&d)))
        .cloned()
        .collect::<Vec<_>>();
    cx.nontrivial_if(!expected.is_empty() && expected.len() < full.len());
    let mut it = with.expand();
    let mut got = Vec::new();
    for _ in 0..expected.len() {
        match it.next() {
            Some(mut x) => {
                if crate::on_rec!(&x, y => y.exdate != dates) {
                    return Err("the exception dates of an occurrence are changed".into());
                }
                x.clear_exdates();
                got.push(x);
            }
            None => break,
        }
    }
    if recurring::starts(&got) != recurring::starts(&expected) {
        return Err(format!(
            "without exceptions {}\nexceptions {}\nexpected {}\n     got {}",
            recurring::show(&recurring::starts(&full)),
            recurring::show(&r.exdates),
            recurring::show(&recurring::starts(&expected)),
            recurring::show(&recurring::starts(&got)),
        ));
    }
    if got != expected {
        return Err("an occurrence is otherwise with exceptions than without".into());
    }
    if expected.len() < 1000 && s.chance(1, 4) {
        let starts = got.iter().map(recurring::Any::start).collect::<Vec<_>>();
        recurring::otherwise(s, &with, &starts, ended, recurring::Any::start)?;
    }
    if ended && let Some(x) = it.next() {
        return Err(format!(
            "exceptions make the series longer: {:?}",
            x.start()
        ));
    }
    Ok(())
}
