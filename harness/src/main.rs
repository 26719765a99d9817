//! `vharness check <property>` runs a check; `vharness replay <file>` runs one recorded failure.
use serde_json::{Value, json};
use std::collections::{BTreeMap, HashSet};
use std::io::Write as _;
use std::path::{Path, PathBuf};
use std::process::{Command, ExitCode};
use vharness::core::{self, Case, Def, Fail, Job};
use vharness::dict;
use vharness::known::{self, Known};
use vharness::props;

const WORKERS: u64 = 8;
const MEMORY: u64 = 4 << 30;

fn main() -> ExitCode {
    let args = std::env::args().skip(1).collect::<Vec<_>>();
    let r = match args
        .iter()
        .map(String::as_str)
        .collect::<Vec<_>>()
        .as_slice()
    {
        ["check", id] => check(id),
        ["worker", id, rest @ ..] => worker(id, rest),
        ["replay", file] => replay(file),
        ["constants"] => {
            dict::lines().iter().for_each(|l| println!("{l}"));
            Ok(0)
        }
        ["outcomes"] => props::c31::outcomes(),
        ["list"] => {
            for d in props::all() {
                println!(
                    "{} quick {} thorough {} zones {:?}",
                    d.id, d.quick, d.thorough, d.zones
                );
            }
            Ok(0)
        }
        _ => Err("usage: vharness check <property> | replay <file> | list".into()),
    };
    match r {
        Ok(c) => ExitCode::from(c),
        Err(e) => {
            eprintln!("error: {e}");
            ExitCode::from(2)
        }
    }
}

fn find(id: &str) -> Result<&'static Def, String> {
    props::all()
        .iter()
        .find(|d| d.id == id)
        .copied()
        .ok_or_else(|| format!("unknown property {id}"))
}

fn env_u64(name: &str, default: u64) -> Result<u64, String> {
    match std::env::var(name) {
        Ok(v) if !v.is_empty() => v.parse().map_err(|_| format!("{name}={v} is not a number")),
        _ => Ok(default),
    }
}

fn worker(id: &str, rest: &[&str]) -> Result<u8, String> {
    let ([shard, of, seed, tier, cases, out] | [shard, of, seed, tier, cases, out, _]) = rest
    else {
        return Err("worker arguments".into());
    };
    let n = |x: &str| x.parse::<u64>().map_err(|e| e.to_string());
    let def = find(id)?;
    let job = Job {
        shard: n(shard)?,
        of: n(of)?,
        seed: n(seed)?,
        thorough: *tier == "thorough",
        cases: n(cases)?,
        again: rest.get(6).map(|x| n(x)).transpose()?,
    };
    core::install_panic_hook();
    core::limit_memory(MEMORY);
    core::record_in(&format!("{out}.cur")).map_err(|e| e.to_string())?;
    core::watchdog(30.0);
    let v = core::work(def, &job, Known::load()?);
    std::fs::write(out, v.to_string()).map_err(|e| e.to_string())?;
    Ok(0)
}

fn replay(file: &str) -> Result<u8, String> {
    let text = std::fs::read_to_string(file).map_err(|e| format!("{file}: {e}"))?;
    let v: Value = serde_json::from_str(&text).map_err(|e| format!("{file}: {e}"))?;
    // SAFETY: nothing else runs yet.
    unsafe { std::env::set_var(dict::FILE, file) };
    let zone = v["zone"].as_str().unwrap_or("UTC");
    if std::env::var("TZ").as_deref() != Ok(zone) {
        let exe = std::env::current_exe().map_err(|e| e.to_string())?;
        let s = Command::new(exe)
            .args(["replay", file])
            .env("TZ", zone)
            .status()
            .map_err(|e| e.to_string())?;
        use std::os::unix::process::ExitStatusExt as _;
        if let Some(s) = s.signal() {
            println!("the process was ended by signal {s}");
            return Ok(5);
        }
        return Ok(s.code().unwrap_or(2) as u8);
    }
    let def = find(v["property"].as_str().unwrap_or_default())?;
    if v["case"].get("program").is_some() {
        return props::c28::replay(&v);
    }
    if let Some(h) = v["case"].get("history").and_then(Value::as_array) {
        return history(def, h);
    }
    let case = Case::from_json(&v["case"]).ok_or("no case in the file")?;
    core::install_panic_hook();
    core::limit_memory(MEMORY);
    core::watchdog(60.0);
    match core::replay(def, &case, v["tier"] == "thorough", Known::load()?) {
        Ok(()) => {
            println!("the property holds on this case");
            Ok(0)
        }
        Err(Fail::Violation(m)) => {
            println!("VIOLATED: {m}");
            Ok(1)
        }
        Err(Fail::Harness(m)) => Err(m),
    }
}

/// A failure that needs what was run before it in the same process.
fn history(def: &'static Def, args: &[Value]) -> Result<u8, String> {
    let scratch =
        Scratch(std::env::temp_dir().join(format!("vharness-{}-{}", def.id, std::process::id())));
    std::fs::create_dir_all(&scratch.0).map_err(|e| e.to_string())?;
    let out = scratch.0.join("out.json");
    let mut args = args
        .iter()
        .map(|x| x.as_str().unwrap_or_default().to_string())
        .collect::<Vec<_>>();
    args.insert(args.len().saturating_sub(1), out.display().to_string());
    let exe = std::env::current_exe().map_err(|e| e.to_string())?;
    let s = Command::new(exe)
        .args(["worker", def.id])
        .args(args)
        .status()
        .map_err(|e| e.to_string())?;
    if !s.success() {
        println!("VIOLATED: the process ended with {s}");
        return Ok(if matches!(s.code(), Some(3) | None) {
            1
        } else {
            2
        });
    }
    let text = std::fs::read_to_string(&out).map_err(|e| e.to_string())?;
    let v: Value = serde_json::from_str(&text).map_err(|e| e.to_string())?;
    match v["outcome"].as_str() {
        Some("violation") => {
            println!("{}", v["text"].as_str().unwrap_or_default());
            println!("VIOLATED: {}", v["message"].as_str().unwrap_or_default());
            Ok(1)
        }
        Some("held") => {
            println!("the property holds on these cases");
            Ok(0)
        }
        _ => Err(v["message"].to_string()),
    }
}

struct Scratch(PathBuf);

impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

fn check(id: &str) -> Result<u8, String> {
    let start = std::time::Instant::now();
    let def = find(id)?;
    let seed = env_u64("VERIF_SEED", 1)?;
    let tier = match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => "thorough",
        _ => "quick",
    };
    let known = Known::load()?;
    let root = known::root();
    let evidence = root.join("evidence");
    std::fs::create_dir_all(&evidence).map_err(|e| e.to_string())?;
    let replays = root.join("replays");
    let scratch =
        Scratch(std::env::temp_dir().join(format!("vharness-{id}-{}", std::process::id())));
    std::fs::create_dir_all(&scratch.0).map_err(|e| e.to_string())?;

    let outcomes = if id == "C28" {
        props::c28::check(seed, tier == "thorough", &scratch.0)?
    } else {
        spawn(def, seed, tier, &scratch.0)?
    };

    let mut hashes = HashSet::new();
    let mut labels: BTreeMap<String, u64> = BTreeMap::new();
    let mut zones: BTreeMap<String, u64> = BTreeMap::new();
    let mut samples = Vec::new();
    let (mut evaluations, mut steps, mut enumerated, mut exhausted) = (0, 0, 0, 0);
    let mut found = std::collections::BTreeSet::new();
    let mut slowest = 0f64;
    for o in &outcomes {
        slowest = slowest.max(o["slowest"].as_f64().unwrap_or(0.));
        evaluations += o["evaluations"].as_u64().unwrap_or(0);
        steps += o["steps"].as_u64().unwrap_or(0);
        enumerated += o["enumerated"].as_u64().unwrap_or(0);
        exhausted += o["exhausted"].as_u64().unwrap_or(0);
        hashes.extend(
            o["hashes"]
                .as_array()
                .into_iter()
                .flatten()
                .filter_map(Value::as_u64),
        );
        for (k, v) in o["labels"].as_object().into_iter().flatten() {
            *labels.entry(k.clone()).or_default() += v.as_u64().unwrap_or(0);
        }
        if let Some(z) = o["zone"].as_str() {
            *zones.entry(z.to_string()).or_default() += o["evaluations"].as_u64().unwrap_or(0);
        }
        samples.extend(o["samples"].as_array().into_iter().flatten().cloned());
        found.extend(
            o["known"]
                .as_array()
                .into_iter()
                .flatten()
                .filter_map(Value::as_str),
        );
    }
    // a spread of samples, from different workers
    let step = (samples.len() / 8).max(1);
    let samples = samples
        .into_iter()
        .step_by(step)
        .take(8)
        .collect::<Vec<_>>();

    let errors = outcomes
        .iter()
        .filter(|o| o["outcome"] == "error")
        .collect::<Vec<_>>();
    let violations = outcomes
        .iter()
        .filter(|o| o["outcome"] == "violation")
        .collect::<Vec<_>>();

    let mut lines = Vec::new();
    for k in &found {
        lines.push(format!(
            "KNOWN-FINDING: property={id} {}",
            known.what(id, k).unwrap_or(k)
        ));
    }

    let mut code = 0;
    let mut confirmed = 0;
    // The smallest failures first; each is confirmed in a fresh process.
    let mut vs = violations.clone();
    vs.sort_by_key(|v| v["case"].to_string().len());
    for v in vs {
        std::fs::create_dir_all(&replays).map_err(|e| e.to_string())?;
        let name = format!(
            "{id}-{:016x}.json",
            core::hash64(&format!("{}{}", v["case"], v["zone"]))
        );
        let path = replays.join(name);
        let file = json!({
            "property": id, "tier": tier, "seed": seed, "zone": v["zone"],
            "message": v["message"], "text": v["text"], "case": v["case"],
            "dictionary": dict::to_json(),
        });
        std::fs::write(&path, format!("{file:#}\n")).map_err(|e| e.to_string())?;
        // threads do not always meet in the same way
        let tries = if id == "C31" { 8 } else { 1 };
        if v["confirmed"] == true
            || (0..tries).try_fold(false, |seen, _| Ok::<_, String>(seen || reproduces(&path)?))?
        {
            confirmed += 1;
            lines.push(format!(
                "violated: {}",
                core::cut(v["message"].as_str().unwrap_or(""), 3000)
            ));
            lines.push(core::cut(v["text"].as_str().unwrap_or(""), 3000));
            lines.push(format!("VIOLATION property={id} replay={}", path.display()));
            code = 1;
            break;
        }
        // Alone it holds: with what was run before it, in the same process?
        let before = v["before"].as_u64();
        let mut last = 1;
        let mut skips = Vec::new();
        while let Some(n) = before
            && last < n
        {
            skips.push(n - last);
            last *= 8;
        }
        skips.push(0);
        for skip in skips {
            if v["job"].is_null() || id == "C32" {
                break;
            }
            let mut job = v["job"].as_array().cloned().unwrap_or_default();
            job.push(json!(skip.to_string()));
            let mut file = file.clone();
            file["case"] = json!({ "history": job });
            file["failing_case"] = v["case"].clone();
            file["note"] = json!("the failure needs what was run before it in the same process");
            std::fs::write(&path, format!("{file:#}\n")).map_err(|e| e.to_string())?;
            if reproduces(&path)? {
                confirmed += 1;
                lines.push(format!(
                    "violated after other cases: {}",
                    core::cut(v["message"].as_str().unwrap_or(""), 3000)
                ));
                lines.push(core::cut(v["text"].as_str().unwrap_or(""), 3000));
                lines.push(format!("VIOLATION property={id} replay={}", path.display()));
                code = 1;
                break;
            }
        }
        if code == 1 {
            break;
        }
        lines.push(format!("not reproduced: {}", path.display()));
    }
    if code == 0 && (!errors.is_empty() || !violations.is_empty()) {
        code = 2;
    }
    for e in &errors {
        lines.push(format!(
            "error: {}",
            core::cut(e["message"].as_str().unwrap_or(""), 3000)
        ));
    }

    let mut coverage = json!({
        "evaluations": evaluations,
        "distinct_nontrivial": hashes.len(),
        "rule": def.rule,
        "samples": samples,
        "labels": labels,
        "zones": zones,
        "cases_that_ran_out_of_choices": exhausted,
        "slowest_case_s": slowest,
    });
    if steps > 0 {
        coverage["library_calls_within_cases"] = json!(steps);
    }
    if let Some(e) = &def.exhaustive {
        coverage["enumerated"] = json!({
            "what": e.what, "cases": enumerated,
            "complete": code == 0 && enumerated == (e.total)(tier == "thorough"),
        });
    }
    if !found.is_empty() {
        coverage["known_findings_seen"] = json!(found);
    }
    let ev = json!({
        "property": id,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": coverage,
        "assumptions": [
            "the harness's own calendar arithmetic, renderer and strict reader (harness/src/cal.rs, render.rs, reader.rs) are the reference",
            "chrono's conversions between UTC and the local zone are trusted",
        ],
        "wall_s": (start.elapsed().as_secs_f64() * 100.0).round() / 100.0,
        "violations": confirmed,
    });
    std::fs::write(evidence.join(format!("{id}.json")), format!("{ev:#}\n"))
        .map_err(|e| e.to_string())?;

    let mut out = std::io::stdout().lock();
    for l in lines {
        let _ = writeln!(out, "{l}");
    }
    let _ = writeln!(
        out,
        "{id} {tier} seed {seed}: {evaluations} cases, {} distinct non-trivial, {:.1} s, exit {code}",
        hashes.len(),
        start.elapsed().as_secs_f64()
    );
    Ok(code)
}

fn reproduces(path: &Path) -> Result<bool, String> {
    let exe = std::env::current_exe().map_err(|e| e.to_string())?;
    let o = Command::new(exe)
        .arg("replay")
        .arg(path)
        .output()
        .map_err(|e| e.to_string())?;
    // 1: violated, 3: does not return, 5: ended by a signal
    Ok(matches!(o.status.code(), Some(1 | 3 | 5)) || o.status.code().is_none())
}

fn spawn(def: &'static Def, seed: u64, tier: &str, scratch: &Path) -> Result<Vec<Value>, String> {
    use std::os::unix::process::ExitStatusExt as _;
    let exe = std::env::current_exe().map_err(|e| e.to_string())?;
    let total = if tier == "thorough" {
        def.thorough
    } else {
        def.quick
    };
    let total = env_u64("VERIF_CASES", total)?;
    let of = WORKERS.max(def.zones.len() as u64);
    let mut children = Vec::new();
    for shard in 0..of {
        let out = scratch.join(format!("{shard}.json")).display().to_string();
        let zone = def.zones[shard as usize % def.zones.len()];
        let job = [
            shard.to_string(),
            of.to_string(),
            seed.to_string(),
            tier.to_string(),
            (total / of).max(1).to_string(),
        ];
        let child = Command::new(&exe)
            .args(["worker", def.id])
            .args(&job)
            .arg(&out)
            .env("TZ", zone)
            .env_remove("RUST_BACKTRACE")
            .spawn()
            .map_err(|e| e.to_string())?;
        children.push((child, out, zone, json!(job)));
    }
    let mut v = Vec::new();
    for (mut child, out, zone, job) in children {
        let s = child.wait().map_err(|e| e.to_string())?;
        if s.success() {
            let text = std::fs::read_to_string(&out).map_err(|e| e.to_string())?;
            let mut o = serde_json::from_str::<Value>(&text).map_err(|e| e.to_string())?;
            o["job"] = job;
            v.push(o);
            continue;
        }
        let case = core::recorded(&format!("{out}.cur"));
        let what = match (s.code(), s.signal()) {
            (Some(3), _) => "the call does not return (30 s of processor time)".to_string(),
            (_, Some(libc::SIGKILL)) => {
                v.push(
                    json!({ "outcome": "error", "message": "a worker was killed", "zone": zone }),
                );
                continue;
            }
            (_, Some(n)) => format!("the process is ended by signal {n}"),
            (c, _) => {
                v.push(json!({ "outcome": "error", "message": format!("a worker ended with {c:?}"), "zone": zone }));
                continue;
            }
        };
        match case {
            Some(c) => v.push(json!({
                "outcome": "violation", "case": c.to_json(), "message": what, "text": "", "zone": zone, "job": job,
            })),
            None => v.push(json!({ "outcome": "error", "message": what, "zone": zone })),
        }
    }
    Ok(v)
}
