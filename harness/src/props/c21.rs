use super::ZONES;
use super::recurring::{self, Gen};
use crate::cal::D;
use crate::core::{Cx, Def, Res};
use crate::model::*;
use crate::tape::Src;

pub static DEF: Def = Def {
    id: "C21",
    rule: "a recurring component with any other content (texts, parameters, extension properties, alarms), with or without an end, a plain date or a date-time whatever the start is where the steps are whole days: for each of its first occurrences, the length and everything but start, end, due date and remaining count are the original's, and the original is unchanged. Non-trivial: two occurrences or more of a component with an end. Distinct by component.",
    zones: ZONES,
    quick: 640_000,
    thorough: 3_000_000,
    tape: 900,
    run,
    exhaustive: None,
    witnesses: &[],
};

fn length(start: Option<crate::cal::D>, end: Option<crate::cal::D>) -> Option<i64> {
    Some(end?.secs() - start?.secs())
}

fn rest(n: &Norm) -> Norm {
    let mut n = n.clone();
    for k in ["DTSTART", "DTEND", "DUE"] {
        n.props.remove(k);
    }
    if let Some(v) = n.props.get_mut("RRULE") {
        for (_, v) in v {
            if let V::Recur(r) = v {
                r.count = r.count.map(|_| 0);
            }
        }
    }
    n
}

fn run(s: &mut Src, cx: &mut Cx) -> Res {
    let g = Gen {
        utc: true,
        utc_monthly: true,
        exdates: true,
        content: true,
        interval_zero: true,
        other_end: true,
    };
    let mut r = recurring::rec(s, &g);
    if cx.is_utc() && s.chance(1, 12) {
        // with a zone at one end only
        r.end = match (r.start, r.end) {
            (D::Naive(_), Some(D::Naive(t))) => Some(D::Utc(t)),
            (D::Utc(_), Some(D::Utc(t))) => Some(D::Naive(t)),
            (_, end) => end,
        };
    }
    // all the parts of a rule
    if s.chance(1, 4) {
        let x = crate::generate::recur(s, &crate::generate::Opt::built());
        r.rule.by = x.by;
        r.rule.by_day = x.by_day;
        r.rule.wkst = x.wkst;
    }
    let any = recurring::build(s, &g, &r);
    let copy = any.clone();
    cx.note(format!("{any:?}"));
    recurring::label(cx, &r);
    if r.end.is_some() {
        cx.label("with an end");
    }
    let n = s.pick(&[6, 3, 15, 40]);
    let occ = any.expand().take(n).collect::<Vec<_>>();
    cx.nontrivial_if(r.end.is_some() && occ.len() >= 2);
    let original = rest(&any.lift());
    let len = length(any.start(), any.end());
    let mixed = any.end().is_some_and(|e| e.kind() != r.start.kind());
    if mixed {
        cx.label(format!("ends with a {}", r.end.unwrap().kind()));
    }
    for (i, x) in occ.iter().enumerate() {
        let here = || {
            format!(
                "occurrence {i} of {} {:?}, at {:?}",
                r.start.text(),
                r.rule,
                x.start()
            )
        };
        let l = length(x.start(), x.end());
        if l != len {
            return Err(format!("{} lasts {l:?} instead of {len:?}", here()));
        }
        if let (Some(a), Some(b)) = (x.start(), x.end())
            && if mixed {
                Some(b.kind()) != any.end().map(|e| e.kind())
            } else {
                a.kind() != b.kind()
            }
        {
            return Err(format!("{} ends at {b:?}", here()));
        }
        if let Some(d) = diff(&original, &rest(&x.lift())) {
            return Err(format!("{}: {d}", here()));
        }
        // what the meaning hides
        if !content(&any, x) {
            return Err(format!(
                "{} has another content than {any:?}: {x:?}",
                here()
            ));
        }
    }
    if any != copy {
        return Err("the original component is modified".into());
    }
    Ok(())
}

/// Equality besides start, end, due date and rule.
fn content(a: &recurring::Any, b: &recurring::Any) -> bool {
    use recurring::Any::*;
    match (a, b) {
        (Event(a), Event(b)) => {
            let mut b = b.clone();
            b.dtstart = a.dtstart;
            b.dtend = a.dtend;
            b.rrule.clone_from(&a.rrule);
            *a == b
        }
        (Todo(a), Todo(b)) => {
            let mut b = b.clone();
            b.dtstart = a.dtstart;
            b.due = a.due;
            b.rrule.clone_from(&a.rrule);
            *a == b
        }
        (Journal(a), Journal(b)) => {
            let mut b = b.clone();
            b.dtstart = a.dtstart;
            b.rrule.clone_from(&a.rrule);
            *a == b
        }
        _ => false,
    }
}
