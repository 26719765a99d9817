//! Constants of the library's sources, as a fuzzer's dictionary: sizes, numbers and texts that a
//! comparison of the code may be about. The generators draw them now and then; the oracles know
//! nothing of them. Those that are not in `constants.txt` (the constants of the tree this harness
//! was written for) are drawn more often: they belong to what was changed since.
use std::collections::BTreeSet;
use std::path::{Path, PathBuf};
use std::sync::OnceLock;

#[derive(Debug, Default)]
pub struct Dict {
    /// Numbers, sorted.
    pub ints: Vec<i64>,
    pub new_ints: Vec<i64>,
    pub strings: Vec<String>,
    pub new_strings: Vec<String>,
}

static DICT: OnceLock<Dict> = OnceLock::new();

pub fn get() -> &'static Dict {
    DICT.get_or_init(|| {
        if let Some(d) = recorded() {
            return d;
        }
        let mut c = Constants::default();
        for f in sources() {
            if let Ok(t) = std::fs::read_to_string(&f) {
                lex(&t, &mut c);
            }
        }
        let base = Path::new(env!("CARGO_MANIFEST_DIR")).join("constants.txt");
        let base = std::fs::read_to_string(base).unwrap_or_default();
        let base = base.lines().collect::<BTreeSet<_>>();
        make(&c.lines(), &base)
    })
}

/// The file whose dictionary is used instead of that of the sources: a recorded failure.
pub const FILE: &str = "VHARNESS_DICT";

fn recorded() -> Option<Dict> {
    let t = std::fs::read_to_string(std::env::var_os(FILE)?).ok()?;
    let v = serde_json::from_str::<serde_json::Value>(&t).ok()?;
    let v = v.get("dictionary")?;
    let ints = |k: &str| {
        v[k].as_array()
            .map(|a| a.iter().filter_map(serde_json::Value::as_i64).collect())
            .unwrap_or_default()
    };
    let strings = |k: &str| {
        v[k].as_array()
            .map(|a| {
                a.iter()
                    .filter_map(|x| x.as_str().map(String::from))
                    .collect()
            })
            .unwrap_or_default()
    };
    Some(Dict {
        ints: ints("ints"),
        new_ints: ints("new_ints"),
        strings: strings("strings"),
        new_strings: strings("new_strings"),
    })
}

pub fn to_json() -> serde_json::Value {
    let d = get();
    serde_json::json!({ "ints": d.ints, "new_ints": d.new_ints, "strings": d.strings, "new_strings": d.new_strings })
}

/// The constants of the sources, one per line.
pub fn lines() -> Vec<String> {
    let mut c = Constants::default();
    for f in sources() {
        if let Ok(t) = std::fs::read_to_string(&f) {
            lex(&t, &mut c);
        }
    }
    c.lines()
}

fn make(all: &[String], base: &BTreeSet<&str>) -> Dict {
    let mut d = Dict::default();
    let (mut ints, mut new) = (BTreeSet::new(), BTreeSet::new());
    for l in all {
        let known = base.contains(l.as_str());
        if let Some(n) = l.strip_prefix("i ") {
            let Ok(n) = n.parse::<i64>() else { continue };
            let near = [n.saturating_sub(1), n, n.saturating_add(1)];
            if known {
                ints.extend(near)
            } else {
                new.extend(near)
            }
        } else if let Some(t) = l.strip_prefix("s ")
            && let Ok(t) = serde_json::from_str::<String>(t)
        {
            // texts of messages and patterns are of no use
            if t.is_empty() || t.len() > 80 || t.contains(['{', '%']) {
                continue;
            }
            if known {
                d.strings.push(t)
            } else {
                d.new_strings.push(t)
            }
        }
    }
    d.ints = ints.into_iter().collect();
    d.new_ints = new.into_iter().collect();
    d
}

fn sources() -> Vec<PathBuf> {
    fn walk(d: &Path, v: &mut Vec<PathBuf>) {
        let Ok(r) = std::fs::read_dir(d) else { return };
        for e in r.flatten() {
            let p = e.path();
            if p.is_dir() {
                walk(&p, v);
            } else if p.extension().is_some_and(|x| x == "rs") {
                v.push(p);
            }
        }
    }
    let repo = Path::new(env!("CARGO_MANIFEST_DIR")).join("../../repo");
    let mut v = Vec::new();
    walk(&repo.join("src"), &mut v);
    walk(&repo.join("derive/src"), &mut v);
    v.sort();
    v
}

#[derive(Default)]
struct Constants {
    ints: BTreeSet<i64>,
    strings: BTreeSet<String>,
}

impl Constants {
    fn lines(&self) -> Vec<String> {
        self.ints
            .iter()
            .map(|x| format!("i {x}"))
            .chain(
                self.strings
                    .iter()
                    .map(|x| format!("s {}", serde_json::json!(x))),
            )
            .collect()
    }
}

/// A lexer that is good enough: what it does not understand it skips.
fn lex(text: &str, out: &mut Constants) {
    let c = text.chars().collect::<Vec<_>>();
    let at = |i: usize| c.get(i).copied().unwrap_or('\0');
    let mut i = 0;
    // the last number and the operator after it
    let mut last: Option<i64> = None;
    let mut op = String::new();
    while i < c.len() {
        let x = c[i];
        if x == '/' && at(i + 1) == '/' {
            while i < c.len() && c[i] != '\n' {
                i += 1;
            }
        } else if x == '/' && at(i + 1) == '*' {
            let mut depth = 1;
            i += 2;
            while i < c.len() && depth > 0 {
                if c[i] == '/' && at(i + 1) == '*' {
                    depth += 1;
                    i += 1;
                } else if c[i] == '*' && at(i + 1) == '/' {
                    depth -= 1;
                    i += 1;
                }
                i += 1;
            }
        } else if x == '#'
            && c[i..].starts_with(&['#', '[', 'c', 'f', 'g', '(', 't', 'e', 's', 't', ')', ']'])
        {
            let rest = c[i + 12..].iter().collect::<String>();
            if rest.trim_start().starts_with("mod ") {
                return;
            }
            i += 12;
        } else if x == 'r'
            && (at(i + 1) == '"' || (at(i + 1) == '#' && matches!(at(i + 2), '"' | '#')))
            && !word_before(&c, i)
        {
            let mut n = 0;
            i += 1;
            while at(i) == '#' {
                n += 1;
                i += 1;
            }
            i += 1;
            let mut t = String::new();
            while i < c.len() {
                if c[i] == '"' && (0..n).all(|k| at(i + 1 + k) == '#') {
                    i += 1 + n;
                    break;
                }
                t.push(c[i]);
                i += 1;
            }
            out.strings.insert(t);
        } else if x == '"' {
            let mut t = String::new();
            i += 1;
            while i < c.len() && c[i] != '"' {
                if c[i] == '\\' {
                    i += 1;
                    escape(&c, &mut i, &mut t);
                } else {
                    t.push(c[i]);
                    i += 1;
                }
            }
            i += 1;
            out.strings.insert(t);
        } else if x == '\'' {
            if at(i + 1) == '\\' {
                let mut t = String::new();
                i += 2;
                escape(&c, &mut i, &mut t);
                out.strings.insert(t);
                i += 1;
            } else if at(i + 2) == '\'' {
                out.strings.insert(at(i + 1).to_string());
                i += 3;
            } else {
                // a lifetime
                i += 1;
            }
        } else if x.is_ascii_digit() && !word_before(&c, i) {
            let start = i;
            while at(i).is_ascii_alphanumeric() || at(i) == '_' {
                i += 1;
            }
            let t = c[start..i]
                .iter()
                .filter(|x| **x != '_')
                .collect::<String>();
            let (radix, digits) = match t.get(..2) {
                Some("0x") => (16, &t[2..]),
                Some("0b") => (2, &t[2..]),
                Some("0o") => (8, &t[2..]),
                _ => (10, t.as_str()),
            };
            let end = digits
                .find(|x: char| !x.is_digit(radix))
                .unwrap_or(digits.len());
            if let Ok(n) = i64::from_str_radix(&digits[..end], radix) {
                out.ints.insert(n);
                if let Some(l) = last {
                    let both = match op.as_str() {
                        "*" => l.checked_mul(n),
                        "<<" if (0..63).contains(&n) => l.checked_mul(1 << n),
                        "+" => l.checked_add(n),
                        "-" => l.checked_sub(n),
                        _ => None,
                    };
                    out.ints.extend(both);
                    last = both.or(Some(n));
                } else {
                    last = Some(n);
                }
                op.clear();
            }
            continue;
        } else {
            if !x.is_whitespace() {
                if matches!(x, '*' | '<' | '+' | '-') && op.len() < 2 {
                    op.push(x);
                } else {
                    last = None;
                    op.clear();
                }
            }
            i += 1;
            continue;
        }
        last = None;
        op.clear();
    }
}

fn word_before(c: &[char], i: usize) -> bool {
    i > 0 && (c[i - 1].is_alphanumeric() || c[i - 1] == '_')
}

/// After a backslash.
fn escape(c: &[char], i: &mut usize, t: &mut String) {
    let at = |i: usize| c.get(i).copied().unwrap_or('\0');
    match at(*i) {
        'n' => t.push('\n'),
        'r' => t.push('\r'),
        't' => t.push('\t'),
        '0' => t.push('\0'),
        'x' => {
            let h = [at(*i + 1), at(*i + 2)].iter().collect::<String>();
            t.extend(u8::from_str_radix(&h, 16).ok().map(char::from));
            *i += 2;
        }
        'u' => {
            let mut h = String::new();
            *i += 2;
            while *i < c.len() && c[*i] != '}' && h.len() < 8 {
                h.push(c[*i]);
                *i += 1;
            }
            t.extend(u32::from_str_radix(&h, 16).ok().and_then(char::from_u32));
        }
        '\n' => {
            while at(*i + 1).is_whitespace() && *i + 1 < c.len() {
                *i += 1;
            }
        }
        x => t.push(x),
    }
    *i += 1;
}

/// A number of the dictionary between the bounds, chosen by `x` (any 26 bits).
pub fn int(x: u32, lo: i64, hi: i64) -> Option<i64> {
    let d = get();
    let within = |v: &'static [i64]| {
        let a = v.partition_point(|n| *n < lo);
        let b = v.partition_point(|n| *n <= hi);
        &v[a..b]
    };
    let new = within(&d.new_ints);
    let v = if new.is_empty() || x & 1 == 0 {
        within(&d.ints)
    } else {
        new
    };
    let v = if v.is_empty() { new } else { v };
    if v.is_empty() {
        None
    } else {
        Some(v[((u64::from(x >> 1) * v.len() as u64) >> 25) as usize])
    }
}

/// A text of the dictionary.
pub fn string(s: &mut crate::tape::Src) -> &'static str {
    let d = get();
    let new = !d.new_strings.is_empty() && s.chance(1, 2);
    let v = if new { &d.new_strings } else { &d.strings };
    if v.is_empty() {
        "x"
    } else {
        &v[s.usize(v.len())]
    }
}
