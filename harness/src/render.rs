//! Writes a component of the model as iCalendar text, in one of the many spellings the format allows.
use crate::cal::D;
use crate::generate::Opt;
use crate::model::*;
use crate::tape::Src;

#[derive(Clone, Debug, PartialEq)]
pub struct Line {
    pub name: String,
    pub ty: Option<Ty>,
    /// Unfolded, without its end.
    pub text: String,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Doc {
    pub kind: Kind,
    pub lines: Vec<Line>,
    pub subs: Vec<Doc>,
}

impl Doc {
    /// Logical lines, with BEGIN and END.
    pub fn flat(&self) -> Vec<String> {
        let mut v = vec![format!("BEGIN:{}", self.kind.name())];
        v.extend(self.lines.iter().map(|l| l.text.clone()));
        for s in &self.subs {
            v.extend(s.flat());
        }
        v.push(format!("END:{}", self.kind.name()));
        v
    }

    pub fn plain(&self) -> String {
        join(&self.flat())
    }
}

pub fn join(lines: &[String]) -> String {
    let mut s = String::new();
    for l in lines {
        s.push_str(l);
        s.push_str("\r\n");
    }
    s
}

pub fn encode_text(s: &mut Src, t: &str) -> String {
    let upper = s.chance(1, 4);
    let mut out = String::new();
    for c in t.chars() {
        match c {
            '\\' | ';' | ',' => {
                out.push('\\');
                out.push(c);
            }
            '\n' => out.push_str(if upper { "\\N" } else { "\\n" }),
            c => out.push(c),
        }
    }
    out
}

pub fn param_text(s: &mut Src, name: &str, value: &str) -> String {
    let quote = value.contains([',', ';', ':']) || (!value.is_empty() && s.chance(1, 4));
    if value.contains('"') || !quote {
        format!(";{name}={value}")
    } else {
        format!(";{name}=\"{value}\"")
    }
}

pub fn duration_text(s: &mut Src, n: i64) -> String {
    let mut t = String::new();
    if n < 0 {
        t.push('-');
    } else if s.chance(1, 6) {
        t.push('+');
    }
    t.push('P');
    let mut n = n.unsigned_abs();
    let style = s.usize(4);
    if style == 1 && n % 604_800 == 0 {
        return format!("{t}{}W", n / 604_800);
    }
    if style == 0 {
        return format!("{t}T{n}S");
    }
    if style == 3 && n >= 604_800 {
        t.push_str(&format!("{}W", n / 604_800));
        n %= 604_800;
    }
    if n >= 86_400 || (n == 0 && style == 2) {
        t.push_str(&format!("{}D", n / 86_400));
        n %= 86_400;
    }
    if n > 0 {
        t.push('T');
        let full = s.chance(1, 4);
        if n >= 3600 || full {
            t.push_str(&format!("{}H", n / 3600));
        }
        if n % 3600 >= 60 || full {
            t.push_str(&format!("{}M", n / 60 % 60));
        }
        if n % 60 > 0 || full {
            t.push_str(&format!("{}S", n % 60));
        }
    } else if t.ends_with('P') {
        t.push_str("T0S");
    }
    t
}

pub fn float_text(s: &mut Src, f: f32) -> String {
    let mut t = format!("{f}");
    if s.chance(1, 8) {
        t.push_str(if t.contains('.') { "00" } else { ".00" });
    }
    if f >= 0.0 && s.chance(1, 8) {
        t.insert(0, '+');
    }
    t
}

pub fn offset_text(n: i64) -> String {
    let sign = if n < 0 { '-' } else { '+' };
    let n = n.abs();
    let mut t = format!("{sign}{:02}{:02}", n / 3600, n / 60 % 60);
    if n % 60 != 0 {
        t.push_str(&format!("{:02}", n % 60));
    }
    t
}

pub fn recur_text(s: &mut Src, r: &R) -> String {
    let mut parts = vec![format!("FREQ={}", r.freq)];
    let int = |s: &mut Src, x: &i64| {
        if *x > 0 && s.chance(1, 10) {
            format!("+{x}")
        } else if (1..10).contains(x) && s.chance(1, 10) {
            format!("0{x}")
        } else {
            x.to_string()
        }
    };
    if r.interval != 1 || s.chance(1, 2) {
        parts.push(format!("INTERVAL={}", r.interval));
    }
    if let Some(c) = r.count {
        parts.push(format!("COUNT={c}"));
    }
    if let Some(u) = r.until {
        parts.push(format!("UNTIL={}", u.text()));
    }
    for (k, v) in &r.by {
        let v = v.iter().map(|x| int(s, x)).collect::<Vec<_>>().join(",");
        parts.push(format!("{k}={v}"));
    }
    if !r.by_day.is_empty() {
        let v = r
            .by_day
            .iter()
            .map(|(o, d)| match o {
                None => d.clone(),
                Some(o) => format!("{}{d}", int(s, o)),
            })
            .collect::<Vec<_>>()
            .join(",");
        parts.push(format!("BYDAY={v}"));
    }
    if let Some(w) = &r.wkst {
        parts.push(format!("WKST={w}"));
    }
    if s.chance(1, 2) {
        s.shuffle(&mut parts);
    }
    parts.join(";")
}

pub fn period_text(s: &mut Src, p: &P) -> String {
    match p {
        P::End(a, b) => format!("{}/{}", a.text(), b.text()),
        P::Dur(a, n) => format!("{}/{}", a.text(), duration_text(s, *n)),
    }
}

pub fn value_text(s: &mut Src, v: &V) -> String {
    match v {
        V::Text(t) => encode_text(s, t),
        V::Raw(t) | V::Name(t) => t.clone(),
        V::Date(d) => d.text(),
        V::Dur(n) => duration_text(s, *n),
        // 3.3.8: digits, zeros in front of them included
        V::Int(n) => format!(
            "{}{n}",
            s.pick(&["", "", "", "", "", "", "0", "00", "0000000000"])
        ),
        V::Geo(a, b) => format!("{};{}", float_text(s, *a), float_text(s, *b)),
        V::Rstatus(c, d, e) => {
            let mut t = format!("{c:?};{}", encode_text(s, d));
            if let Some(e) = e {
                t.push(';');
                t.push_str(&encode_text(s, e));
            }
            t
        }
        V::Recur(r) => recur_text(s, r),
        V::Offset(n) => offset_text(*n),
        V::Dates(d) => d.iter().map(D::text).collect::<Vec<_>>().join(","),
        V::Periods(p) => p
            .iter()
            .map(|p| period_text(s, p))
            .collect::<Vec<_>>()
            .join(","),
        V::Period(p) => period_text(s, p),
    }
}

/// Parameters of a typed value: its type, and some the library does not keep.
fn typed_params(s: &mut Src, o: &Opt, p: &Prop) -> String {
    let mut out = String::new();
    let value = match (&p.ty, &p.value) {
        (Ty::Date, V::Date(D::Date(_))) => Some("DATE"),
        (Ty::Date, V::Date(_)) => s.chance(1, 8).then_some("DATE-TIME"),
        (Ty::Rdate, V::Periods(_)) => Some("PERIOD"),
        (Ty::Rdate, V::Dates(d)) if d.iter().all(|d| !d.has_time()) => Some("DATE"),
        (Ty::Trigger, V::Date(_)) => Some("DATE-TIME"),
        (Ty::Trigger, _) => s.chance(1, 2).then_some("DURATION"),
        _ => None,
    };
    if let Some(v) = value {
        out.push_str(&format!(";VALUE={v}"));
    }
    if o.params && s.chance(1, 8) {
        let extra = match (&p.ty, &p.value) {
            (Ty::Date | Ty::DateTime, V::Date(D::Naive(_))) => ";TZID=Europe/Paris",
            (Ty::Trigger, V::Dur(_)) => ";RELATED=END",
            (Ty::Period, _) => ";FBTYPE=BUSY",
            (Ty::Date, V::Date(D::Date(_))) => ";X-P=\"a:b;c,d\"",
            (Ty::Offset | Ty::UInt | Ty::Recur | Ty::Class, _) => ";X-P=1",
            _ => ";LANGUAGE=en",
        };
        out.push_str(extra);
    }
    out
}

fn line(s: &mut Src, o: &Opt, ps: &[&Prop]) -> Line {
    let p = ps[0];
    let mut t = p.name.clone();
    if p.ty.keeps_params() {
        let mut params = p.params.iter().collect::<Vec<_>>();
        s.shuffle(&mut params);
        for (k, v) in params {
            t.push_str(&param_text(s, k, v));
        }
    } else {
        t.push_str(&typed_params(s, o, p));
    }
    t.push(':');
    for (i, p) in ps.iter().enumerate() {
        if i > 0 {
            t.push(',');
        }
        t.push_str(&value_text(s, &p.value));
    }
    Line {
        name: p.name.clone(),
        ty: Some(p.ty),
        text: t,
    }
}

/// Keeps the order of the lines of a same name.
fn interleave(s: &mut Src, lines: Vec<Line>) -> Vec<Line> {
    let mut names = lines.iter().map(|l| l.name.clone()).collect::<Vec<_>>();
    s.shuffle(&mut names);
    let mut queues = std::collections::HashMap::<String, std::collections::VecDeque<Line>>::new();
    for l in lines {
        queues.entry(l.name.clone()).or_default().push_back(l);
    }
    names
        .iter()
        .map(|n| queues.get_mut(n).unwrap().pop_front().unwrap())
        .collect()
}

pub fn doc(s: &mut Src, o: &Opt, c: &Comp) -> Doc {
    let mut lines = Vec::new();
    let mut i = 0;
    while i < c.props.len() {
        let p = &c.props[i];
        let is_list = row(c.kind, &p.name).is_some_and(|r| r.2 == Mode::List);
        let mut j = i + 1;
        if is_list {
            let same = |q: &Prop| {
                q.name == p.name
                    && q.params == p.params
                    && match (&q.value, &p.value) {
                        (V::Date(a), V::Date(b)) => a.has_time() == b.has_time(),
                        _ => true,
                    }
            };
            while j < c.props.len() && same(&c.props[j]) && !s.chance(1, 4) {
                j += 1;
            }
        }
        let group = c.props[i..j].iter().collect::<Vec<_>>();
        lines.push(line(s, o, &group));
        i = j;
    }
    if s.chance(1, 2) {
        lines = interleave(s, lines);
    }
    Doc {
        kind: c.kind,
        lines,
        subs: c.subs.iter().map(|c| doc(s, o, c)).collect(),
    }
}

/// Folds logical lines somewhere.
pub fn fold(s: &mut Src, lines: &[String]) -> String {
    let mode = s.weighted(&[4, 3, 3, 1]);
    let mut out = String::new();
    for l in lines {
        let mut octets = 0;
        let blank = match s.usize(3) {
            2 => Some("\r\n\t"),
            1 => None,
            _ => Some("\r\n "),
        };
        let num = s.pick(&[1, 4, 30]);
        for (i, c) in l.chars().enumerate() {
            let cut = match mode {
                0 => false,
                1 => octets + c.len_utf8() > 75,
                2 => i > 0 && s.chance(num, 60),
                _ => i > 0,
            };
            if cut {
                let blank =
                    blank.unwrap_or_else(|| if s.chance(1, 2) { "\r\n\t" } else { "\r\n " });
                out.push_str(blank);
                octets = 1;
            }
            out.push(c);
            octets += c.len_utf8();
        }
        out.push_str("\r\n");
    }
    out
}
