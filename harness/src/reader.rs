//! A strict reader of iCalendar text (RFC 5545), written independently of the library.
//! It judges what the library writes.
use crate::cal::D;
use crate::model::*;
use std::collections::BTreeMap;

#[derive(Clone, Debug)]
pub struct RLine {
    pub name: String,
    /// Name → values (several when the parameter is a list).
    pub params: Vec<(String, Vec<String>)>,
    pub value: String,
}

#[derive(Clone, Debug)]
pub struct RComp {
    pub name: String,
    pub lines: Vec<RLine>,
    pub subs: Vec<RComp>,
}

/// Physical lines: CR LF everywhere, at most 75 octets besides the leading space of a continuation.
pub fn physical(text: &str) -> Result<Vec<&str>, String> {
    if !text.ends_with("\r\n") {
        return Err("the last line does not end with CR LF".into());
    }
    let mut v = Vec::new();
    for l in text[..text.len() - 2].split("\r\n") {
        if l.contains(['\r', '\n']) {
            return Err(format!("a line break that is not CR LF in {l:?}"));
        }
        if l.is_empty() {
            return Err("an empty line".into());
        }
        let content = l.strip_prefix([' ', '\t']).unwrap_or(l);
        if content.len() > 75 {
            return Err(format!("a line of {} octets: {l:?}", content.len()));
        }
        v.push(l);
    }
    Ok(v)
}

pub fn logical(text: &str) -> Result<Vec<String>, String> {
    let mut v: Vec<String> = Vec::new();
    for l in physical(text)? {
        if let Some(rest) = l.strip_prefix([' ', '\t']) {
            v.last_mut()
                .ok_or("the text begins with a continuation")?
                .push_str(rest);
        } else {
            v.push(l.to_string());
        }
    }
    Ok(v)
}

pub fn content_line(l: &str) -> Result<RLine, String> {
    let err = |m: &str| Err(format!("{m}: {l:?}"));
    let is_name = |c: char| c.is_ascii_alphanumeric() || c == '-' || c == '/';
    let end = l.find(|c| !is_name(c)).unwrap_or(l.len());
    if end == 0 {
        return err("a line without name");
    }
    let name = l[..end].to_string();
    let mut rest = &l[end..];
    let mut params = Vec::new();
    while let Some(r) = rest.strip_prefix(';') {
        let end = r.find(|c| !is_name(c)).unwrap_or(r.len());
        if end == 0 || !r[end..].starts_with('=') {
            return err("a malformed parameter");
        }
        let pname = r[..end].to_string();
        rest = &r[end + 1..];
        let mut values = Vec::new();
        loop {
            if let Some(r) = rest.strip_prefix('"') {
                let Some(end) = r.find('"') else {
                    return err("an unterminated quote");
                };
                values.push(r[..end].to_string());
                rest = &r[end + 1..];
            } else {
                let end = rest.find(['"', ';', ':', ',']).unwrap_or(rest.len());
                values.push(rest[..end].to_string());
                rest = &rest[end..];
            }
            match rest.strip_prefix(',') {
                Some(r) => rest = r,
                None => break,
            }
        }
        params.push((pname, values));
    }
    let Some(value) = rest.strip_prefix(':') else {
        return err("a line without colon");
    };
    Ok(RLine {
        name,
        params,
        value: value.to_string(),
    })
}

pub fn tree(text: &str) -> Result<RComp, String> {
    let mut stack: Vec<RComp> = Vec::new();
    let lines = logical(text)?;
    let n = lines.len();
    for (i, l) in lines.iter().enumerate() {
        let line = content_line(l)?;
        match line.name.as_str() {
            "BEGIN" => stack.push(RComp {
                name: line.value,
                lines: vec![],
                subs: vec![],
            }),
            "END" => {
                let c = stack.pop().ok_or("END without BEGIN")?;
                if c.name != line.value {
                    return Err(format!("END:{} closes BEGIN:{}", line.value, c.name));
                }
                match stack.last_mut() {
                    Some(p) => p.subs.push(c),
                    None if i + 1 == n => return Ok(c),
                    None => return Err("text after the end of the component".into()),
                }
            }
            _ => {
                let c = stack
                    .last_mut()
                    .ok_or("a property outside of a component")?;
                c.lines.push(line);
            }
        }
    }
    Err("a component is not closed".into())
}

/// Undoes the escapes of a text, which must all be legal.
pub fn text_strict(v: &str) -> Result<String, String> {
    let mut out = String::new();
    let mut it = v.chars();
    while let Some(c) = it.next() {
        match c {
            '\\' => match it.next() {
                Some(c @ ('\\' | ';' | ',')) => out.push(c),
                Some('n' | 'N') => out.push('\n'),
                x => return Err(format!("an illegal escape \\{x:?} in {v:?}")),
            },
            ';' | ',' => return Err(format!("an unescaped {c:?} in {v:?}")),
            c => out.push(c),
        }
    }
    Ok(out)
}

/// Splits on unescaped separators.
pub fn split_unescaped(v: &str, sep: char) -> Vec<&str> {
    let mut out = Vec::new();
    let mut start = 0;
    let mut escaped = false;
    for (i, c) in v.char_indices() {
        if escaped {
            escaped = false;
        } else if c == '\\' {
            escaped = true;
        } else if c == sep {
            out.push(&v[start..i]);
            start = i + 1;
        }
    }
    out.push(&v[start..]);
    out
}

pub fn duration(v: &str) -> Result<i64, String> {
    let bad = || format!("not a duration: {v:?}");
    let (neg, rest) = match v.as_bytes().first() {
        Some(b'-') => (true, &v[1..]),
        Some(b'+') => (false, &v[1..]),
        _ => (false, v),
    };
    let mut rest = rest.strip_prefix('P').ok_or_else(bad)?;
    let mut total: i128 = 0;
    let mut units: &[(char, i128)] = &[('W', 604_800), ('D', 86_400)];
    let mut any = false;
    while !rest.is_empty() {
        if let Some(r) = rest.strip_prefix('T') {
            if units
                .first()
                .is_some_and(|u| u.0 == 'H' || u.0 == 'M' || u.0 == 'S')
            {
                return Err(bad());
            }
            units = &[('H', 3600), ('M', 60), ('S', 1)];
            rest = r;
            continue;
        }
        let end = rest.find(|c: char| !c.is_ascii_digit()).ok_or_else(bad)?;
        let n: i128 = rest[..end].parse().map_err(|_| bad())?;
        let u = rest[end..].chars().next().ok_or_else(bad)?;
        let i = units.iter().position(|x| x.0 == u).ok_or_else(bad)?;
        total = n
            .checked_mul(units[i].1)
            .and_then(|x| total.checked_add(x))
            .ok_or_else(bad)?;
        units = &units[i + 1..];
        if units.is_empty() && u != 'S' {
            units = &[];
        }
        any = true;
        rest = &rest[end + 1..];
    }
    if !any {
        return Err(bad());
    }
    let total = if neg { -total } else { total };
    i64::try_from(total).map_err(|_| bad())
}

pub fn offset(v: &str) -> Result<i64, String> {
    let bad = || format!("not a UTC offset: {v:?}");
    let sign = match v.as_bytes().first() {
        Some(b'+') => 1,
        Some(b'-') => -1,
        _ => return Err(bad()),
    };
    let d = &v[1..];
    if !matches!(d.len(), 4 | 6) || !d.bytes().all(|b| b.is_ascii_digit()) {
        return Err(bad());
    }
    let n = |r: std::ops::Range<usize>| d.get(r).map_or(0, |x| x.parse::<i64>().unwrap());
    let sec = if d.len() == 6 { n(4..6) } else { 0 };
    if n(2..4) > 59 || sec > 59 {
        return Err(bad());
    }
    Ok(sign * (n(0..2) * 3600 + n(2..4) * 60 + sec))
}

pub fn recur(v: &str) -> Result<R, String> {
    let bad = |m: &str| format!("{m} in rule {v:?}");
    let mut r = R {
        interval: 1,
        ..R::default()
    };
    let mut seen = std::collections::BTreeSet::new();
    for part in v.split(';') {
        let (k, x) = part
            .split_once('=')
            .ok_or_else(|| bad("a malformed part"))?;
        if !seen.insert(k) {
            return Err(bad("a repeated part"));
        }
        let int = |x: &str| x.parse::<i64>().map_err(|_| bad("a malformed number"));
        match k {
            "FREQ" if FREQS.contains(&x) => r.freq = x.to_string(),
            "INTERVAL" => r.interval = int(x)?,
            "COUNT" => r.count = Some(int(x)?),
            "UNTIL" => r.until = Some(D::read(x).ok_or_else(|| bad("a malformed UNTIL"))?),
            "WKST" if WEEKDAYS.contains(&x) => r.wkst = Some(x.to_string()),
            "BYDAY" => {
                for d in x.split(',') {
                    if d.len() < 2 || !d.is_char_boundary(d.len() - 2) {
                        return Err(bad("a malformed BYDAY"));
                    }
                    let (ord, day) = d.split_at(d.len() - 2);
                    if !WEEKDAYS.contains(&day) {
                        return Err(bad("an unknown weekday"));
                    }
                    let ord = if ord.is_empty() {
                        None
                    } else {
                        Some(int(ord)?)
                    };
                    r.by_day.push((ord, day.to_string()));
                }
            }
            k if BY.contains(&k) => {
                let v = x.split(',').map(int).collect::<Result<Vec<_>, _>>()?;
                r.by.insert(k.to_string(), v);
            }
            _ => return Err(bad("an unknown part")),
        }
    }
    if r.freq.is_empty() {
        return Err(bad("no FREQ"));
    }
    Ok(r)
}

pub fn period(v: &str) -> Result<P, String> {
    let bad = || format!("not a period: {v:?}");
    let (a, b) = v.split_once('/').ok_or_else(bad)?;
    let a = D::read(a).filter(D::has_time).ok_or_else(bad)?;
    if let Some(b) = D::read(b).filter(D::has_time) {
        Ok(P::End(a, b))
    } else {
        Ok(P::Dur(a, duration(b)?))
    }
}

fn float(v: &str) -> Result<f32, String> {
    let ok = !v.is_empty()
        && v.chars()
            .all(|c| c.is_ascii_digit() || matches!(c, '.' | '-' | '+'))
        && v.chars().any(|c| c.is_ascii_digit());
    if !ok {
        return Err(format!("not a number: {v:?}"));
    }
    v.parse().map_err(|_| format!("not a number: {v:?}"))
}

fn kind_of(c: &RComp, depth_kind: Option<Kind>) -> Result<Kind, String> {
    let _ = depth_kind;
    Ok(match c.name.as_str() {
        "VCALENDAR" => Kind::Calendar,
        "VEVENT" => Kind::Event,
        "VTODO" => Kind::Todo,
        "VJOURNAL" => Kind::Journal,
        "VFREEBUSY" => Kind::Freebusy,
        "VTIMEZONE" => Kind::Timezone,
        "STANDARD" => Kind::Standard,
        "DAYLIGHT" => Kind::Daylight,
        "VALARM" => {
            let a = c
                .lines
                .iter()
                .find(|l| l.name == "ACTION")
                .ok_or("an alarm without ACTION")?;
            match a.value.as_str() {
                "AUDIO" => Kind::Audio,
                "DISPLAY" => Kind::Display,
                "EMAIL" => Kind::Email,
                x => return Err(format!("an unknown action {x:?}")),
            }
        }
        x => return Err(format!("an unknown component {x:?}")),
    })
}

pub fn params_of(l: &RLine) -> Result<Params, String> {
    let mut p = BTreeMap::new();
    for (k, v) in &l.params {
        if p.insert(k.clone(), v.join(",")).is_some() {
            return Err(format!("parameter {k} twice in {l:?}"));
        }
    }
    Ok(p)
}

/// The values of one line.
pub fn values(ty: Ty, mode: Mode, l: &RLine, params: &Params) -> Result<Vec<V>, String> {
    let v = l.value.as_str();
    let vt = params.get("VALUE").map(String::as_str);
    let one = |v: V| Ok(vec![v]);
    let date = |x: &str| -> Result<D, String> {
        let d = D::read(x).ok_or_else(|| format!("not a date: {l:?}"))?;
        if d.has_time() != (vt != Some("DATE")) {
            return Err(format!("the VALUE parameter contradicts the value: {l:?}"));
        }
        Ok(d)
    };
    match ty {
        Ty::Text | Ty::Action if mode == Mode::List => split_unescaped(v, ',')
            .into_iter()
            .map(|x| text_strict(x).map(V::Text))
            .collect(),
        Ty::Text | Ty::Action => one(V::Text(text_strict(v)?)),
        Ty::Uri | Ty::Attach | Ty::Ext => one(V::Raw(v.to_string())),
        Ty::DateTime => one(V::Date(
            D::read(v)
                .filter(D::has_time)
                .ok_or_else(|| format!("not a date-time: {l:?}"))?,
        )),
        Ty::Date if mode == Mode::List => v.split(',').map(|x| date(x).map(V::Date)).collect(),
        Ty::Date => one(V::Date(date(v)?)),
        Ty::Duration => one(V::Dur(duration(v)?)),
        Ty::Percent | Ty::Priority | Ty::UInt => {
            if v.is_empty() || !v.bytes().all(|b| b.is_ascii_digit()) {
                return Err(format!("not a number: {l:?}"));
            }
            one(V::Int(
                v.parse().map_err(|_| format!("not a number: {l:?}"))?,
            ))
        }
        Ty::Geo => {
            let (a, b) = v
                .split_once(';')
                .ok_or_else(|| format!("not a position: {l:?}"))?;
            one(V::Geo(float(a)?, float(b)?))
        }
        Ty::Rstatus => {
            let t = split_unescaped(v, ';');
            if t.len() < 2 || t.len() > 3 {
                return Err(format!("not a request status: {l:?}"));
            }
            let ext = t.get(2).map(|x| text_strict(x)).transpose()?;
            one(V::Rstatus(float(t[0])?, text_strict(t[1])?, ext))
        }
        Ty::Recur => one(V::Recur(recur(v)?)),
        Ty::Class => one(V::Name(v.to_string())),
        Ty::Status if STATUSES.contains(&v) => one(V::Name(v.to_string())),
        Ty::Transp if TRANSPS.contains(&v) => one(V::Name(v.to_string())),
        Ty::Status | Ty::Transp => Err(format!("an unknown name: {l:?}")),
        Ty::Offset => one(V::Offset(offset(v)?)),
        Ty::Rdate if vt == Some("PERIOD") => one(V::Periods(
            v.split(',').map(period).collect::<Result<_, _>>()?,
        )),
        Ty::Rdate => {
            let d = v
                .split(',')
                .map(|x| D::read(x).ok_or_else(|| format!("not a date: {l:?}")))
                .collect::<Result<Vec<_>, _>>()?;
            if d.iter().all(|d| !d.has_time()) != (vt == Some("DATE")) {
                return Err(format!("the VALUE parameter contradicts the value: {l:?}"));
            }
            one(V::Dates(d))
        }
        Ty::Period => v.split(',').map(|x| period(x).map(V::Period)).collect(),
        Ty::Trigger => match vt {
            Some("DATE-TIME") => one(V::Date(
                D::read(v)
                    .filter(D::has_time)
                    .ok_or_else(|| format!("not a date-time: {l:?}"))?,
            )),
            _ => one(V::Dur(duration(v)?)),
        },
    }
}

/// What a text means, read strictly.
pub fn interp(c: &RComp) -> Result<Norm, String> {
    let kind = kind_of(c, None)?;
    let mut n = Norm::new(kind);
    for l in &c.lines {
        let params = params_of(l)?;
        match row(kind, &l.name) {
            Some((name, ty, mode)) => {
                if matches!(mode, Mode::Req | Mode::Opt) && n.props.contains_key(*name) {
                    return Err(format!("{name} twice in {}", c.name));
                }
                for v in values(*ty, *mode, l, &params)? {
                    if ty.keeps_params() {
                        n.push(name, &params, v);
                    } else {
                        n.push(name, &Params::new(), v);
                    }
                }
            }
            None => n.push(&l.name, &params, V::Raw(l.value.clone())),
        }
    }
    for (name, _, mode) in table(kind) {
        if *mode == Mode::Req && !n.props.contains_key(*name) {
            return Err(format!("{name} missing in {}", c.name));
        }
    }
    for s in &c.subs {
        n.push_sub(interp(s)?);
    }
    Ok(n)
}

pub fn read(text: &str) -> Result<Norm, String> {
    interp(&tree(text)?)
}
