//! Seeded search over runs, evidence, minimisation and replay.
use std::collections::{BTreeMap, BTreeSet};
use std::io::Write;
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};

use serde_json::{json, Value};

use crate::interpose::real_now;
use crate::rng::{hash_bytes, mix, Rng};
use crate::world::{RunEnd, RunReport, SchedCfg};

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

#[derive(Clone, Debug)]
pub struct Violation {
    /// what kind of violation it is: minimisation keeps it
    pub class: String,
    /// identifies it for the known-findings file
    pub signature: String,
    pub message: String,
}
impl Violation {
    pub fn new(class: &str, message: impl Into<String>) -> Self {
        Violation { class: class.into(), signature: class.into(), message: message.into() }
    }
}

#[derive(Default, Clone, Debug)]
pub struct RunOut {
    pub violation: Option<Violation>,
    pub nontrivial: bool,
    pub report: RunReport,
    pub faults: BTreeMap<String, u64>,
    pub sample: Value,
}

pub trait Scenario: Sync {
    fn id(&self) -> &'static str;
    /// number of runs
    fn runs(&self, tier: Tier) -> u64;
    fn rule(&self) -> &'static str;
    fn components(&self) -> (Vec<&'static str>, Vec<&'static str>);
    /// measure used to count distinct states/interleavings
    fn generate(&self, rng: &mut Rng, tier: Tier) -> Value;
    fn execute(&self, plan: &Value, replay: Option<Vec<u32>>) -> RunOut;
    fn assumptions(&self) -> Vec<&'static str> {
        vec![]
    }
    /// names of the faults this scenario can inject
    fn fault_kinds(&self) -> Vec<&'static str> {
        vec![]
    }
}

pub fn sched_of(plan: &Value) -> SchedCfg {
    serde_json::from_value(plan["sched"].clone()).expect("plan.sched")
}

/// What every scenario flags whatever else it checks.
pub fn end_violation(end: &RunEnd) -> Option<Violation> {
    match end {
        RunEnd::Done => None,
        RunEnd::Stuck(s) => Some(Violation::new("stuck", format!("the system can make no further progress: {s}"))),
        RunEnd::StepLimit => Some(Violation::new("livelock", "the run did not finish within the step bound")),
        RunEnd::RootPanic(s) => Some(Violation::new("panic", format!("panic: {s}"))),
    }
}

struct Args {
    mode: String,
    kv: BTreeMap<String, String>,
}
impl Args {
    fn get(&self, k: &str) -> &str {
        self.kv.get(k).map(|s| s.as_str()).unwrap_or("")
    }
    fn num(&self, k: &str, d: u64) -> u64 {
        self.kv.get(k).and_then(|s| s.parse().ok()).unwrap_or(d)
    }
}

fn run_rng(seed: u64, id: &str, idx: u64) -> Rng {
    Rng::new(mix(seed) ^ mix(idx.wrapping_mul(2) + 1) ^ hash_bytes(3, id.as_bytes()))
}

fn warm_up(s: &dyn Scenario) {
    for i in 0..4 {
        let plan = s.generate(&mut run_rng(0xdead, s.id(), 1 << 40 | i), Tier::Quick);
        let _ = s.execute(&plan, None);
    }
}

fn vjson(v: &Violation) -> Value {
    json!({"class": v.class, "signature": v.signature, "message": v.message})
}

pub fn main(scenarios: &[&dyn Scenario]) {
    // captured backtraces (anyhow) cost more than the runs
    std::env::set_var("RUST_BACKTRACE", "0");
    std::env::set_var("RUST_LIB_BACKTRACE", "0");
    crate::world::install_panic_hook();
    let mut it = std::env::args().skip(1);
    let mode = it.next().unwrap_or_default();
    let mut kv = BTreeMap::new();
    while let Some(k) = it.next() {
        kv.insert(k.trim_start_matches("--").to_string(), it.next().unwrap_or_default());
    }
    let a = Args { mode, kv };
    let find = |id: &str| -> &dyn Scenario {
        match scenarios.iter().find(|s| s.id() == id) {
            Some(s) => *s,
            None => {
                eprintln!("unknown property {id}");
                std::process::exit(2)
            }
        }
    };
    let code = match a.mode.as_str() {
        "check" => check(find(a.get("property")), &a),
        "child" => child(find(a.get("property")), &a),
        "rehash" => rehash(find(a.get("property")), &a),
        "minimise" => minimise_cmd(&find, &a),
        "replay" => replay_cmd(&find, &a),
        "one" => one(find(a.get("property")), &a),
        "list" => {
            scenarios.iter().for_each(|s| println!("{}", s.id()));
            0
        }
        m => {
            eprintln!("unknown mode {m:?}");
            2
        }
    };
    std::process::exit(code)
}

fn tier_of(a: &Args) -> Tier {
    if a.get("tier") == "thorough" {
        Tier::Thorough
    } else {
        Tier::Quick
    }
}

/// debugging aid: one run by index, printed
fn one(s: &dyn Scenario, a: &Args) -> i32 {
    warm_up(s);
    let plan = s.generate(&mut run_rng(a.num("seed", 1), s.id(), a.num("index", 0)), tier_of(a));
    println!("{}", serde_json::to_string_pretty(&plan).unwrap());
    let o = s.execute(&plan, None);
    for e in &o.report.events {
        println!("{e}");
    }
    println!("violation: {:?}\nfaults: {:?} probes: {:?} nontrivial {} steps {} hash {:x} sim {:.3}s panics {:?}", o.violation, o.faults, o.report.probes, o.nontrivial, o.report.steps, o.report.log_hash, o.report.sim_ns as f64/1e9, o.report.panics);
    0
}

fn child(s: &dyn Scenario, a: &Args) -> i32 {
    let (seed, tier) = (a.num("seed", 1), tier_of(a));
    let (from, stride, count) = (a.num("from", 0), a.num("stride", 1), a.num("count", 1));
    let wall = a.num("wall", 60) as f64;
    let known: BTreeSet<String> = a.get("known").split('\u{1f}').filter(|s| !s.is_empty()).map(String::from).collect();
    let progress = std::fs::OpenOptions::new().create(true).write(true).truncate(true).open(a.get("progress")).ok();
    warm_up(s);
    let t0 = real_now();
    let mut faults: BTreeMap<String, u64> = BTreeMap::new();
    let mut probes: BTreeMap<String, u64> = BTreeMap::new();
    let (mut runs, mut sim, mut steps, mut switches, mut nontrivial_n, mut selfcheck, mut selfbad) = (0u64, 0f64, 0u64, 0u64, 0u64, 0u64, 0u64);
    let mut hashes: BTreeSet<u64> = BTreeSet::new();
    let mut traces: BTreeSet<u64> = BTreeSet::new();
    let mut samples = vec![];
    let mut rehash = vec![];
    let mut violation = Value::Null;
    let mut known_seen: BTreeSet<String> = BTreeSet::new();
    let mut max_steps = 0;
    for k in 0..count {
        let idx = from + k * stride;
        if real_now() - t0 > wall {
            break;
        }
        if let Some(f) = &progress {
            use std::os::unix::fs::FileExt;
            let _ = f.write_at(&idx.to_le_bytes(), 0);
        }
        let plan = s.generate(&mut run_rng(seed, s.id(), idx), tier);
        let o = s.execute(&plan, None);
        runs += 1;
        sim += o.report.sim_ns as f64 / 1e9;
        steps += o.report.steps;
        max_steps = max_steps.max(o.report.steps);
        switches += o.report.switches;
        for (k, v) in &o.faults {
            *faults.entry(k.clone()).or_default() += v;
        }
        for (k, v) in &o.report.probes {
            *probes.entry(k.clone()).or_default() += v;
        }
        traces.insert(o.report.trace_hash);
        if o.nontrivial {
            nontrivial_n += 1;
            hashes.insert(o.report.log_hash);
            if samples.len() < 2 {
                samples.push(json!({"run": idx, "plan": plan, "outcome": o.sample, "log_hash": format!("{:016x}", o.report.log_hash)}));
            }
        }
        if k % 53 == 7 {
            selfcheck += 1;
            let o2 = s.execute(&plan, None);
            if o2.report.log_hash != o.report.log_hash {
                selfbad += 1;
            }
            // and by replaying the recorded schedule
            let o3 = s.execute(&plan, Some(o.report.trace.clone()));
            selfcheck += 1;
            if o3.report.log_hash != o.report.log_hash {
                selfbad += 1;
            }
        }
        if k % 97 == 3 && rehash.len() < 24 {
            rehash.push(json!([idx, format!("{:016x}", o.report.log_hash)]));
        }
        if let Some(v) = &o.violation {
            if known.contains(&v.signature) {
                known_seen.insert(v.signature.clone());
                continue;
            }
            violation = json!({"run": idx, "plan": plan, "trace": o.report.trace, "violation": vjson(v),
                "events": o.report.events, "log_hash": format!("{:016x}", o.report.log_hash)});
            break;
        }
    }
    let hx = |s: &BTreeSet<u64>| s.iter().map(|h| format!("{h:x}")).collect::<Vec<_>>().join(",");
    println!(
        "{}",
        json!({"runs": runs, "sim_s": sim, "steps": steps, "switches": switches, "nontrivial": nontrivial_n, "faults": faults,
            "probes": probes, "hashes": hx(&hashes), "traces": hx(&traces), "samples": samples, "rehash": rehash,
            "selfcheck": selfcheck, "selfbad": selfbad, "violation": violation, "known_seen": known_seen,
            "wall": real_now() - t0, "max_steps": max_steps})
    );
    0
}

fn rehash(s: &dyn Scenario, a: &Args) -> i32 {
    warm_up(s);
    let mut bad = vec![];
    let mut n = 0;
    for p in a.get("pairs").split(',').filter(|p| !p.is_empty()) {
        let (i, h) = p.split_once(':').unwrap();
        let plan = s.generate(&mut run_rng(a.num("seed", 1), s.id(), i.parse().unwrap()), tier_of(a));
        let o = s.execute(&plan, None);
        n += 1;
        if format!("{:016x}", o.report.log_hash) != h {
            bad.push(i.to_string());
        }
    }
    println!("{}", json!({"checked": n, "bad": bad}));
    0
}

fn me() -> PathBuf {
    std::env::current_exe().unwrap()
}

/// "known: property=<id> signature=<sig> ..." lines
fn known_for(file: &str, id: &str) -> Vec<(String, String)> {
    std::fs::read_to_string(file)
        .unwrap_or_default()
        .lines()
        .filter_map(|l| {
            let l = l.strip_prefix("known: property=")?;
            let (p, rest) = l.split_once(' ')?;
            let rest = rest.strip_prefix("signature=")?;
            let (sig, text) = rest.split_once(' ').unwrap_or((rest, ""));
            (p == id).then(|| (sig.to_string(), text.to_string()))
        })
        .collect()
}

fn check(s: &dyn Scenario, a: &Args) -> i32 {
    let t0 = real_now();
    let (seed, tier) = (a.num("seed", 1), tier_of(a));
    let jobs = a.num("jobs", 8).max(1);
    let wall = a.num("wall", if tier == Tier::Quick { 150 } else { 3600 });
    let runs = a.num("runs", s.runs(tier));
    let dir = PathBuf::from(a.get("scratch"));
    std::fs::create_dir_all(&dir).unwrap();
    let known = known_for(a.get("known"), s.id());
    let known_arg = known.iter().map(|k| k.0.clone()).collect::<Vec<_>>().join("\u{1f}");
    println!("seed={seed} property={} tier={tier:?} runs={runs} jobs={jobs}", s.id());
    let kids: Vec<_> = (0..jobs)
        .map(|j| {
            let count = (runs + jobs - 1 - j) / jobs;
            let progress = dir.join(format!("progress.{j}"));
            let out = dir.join(format!("out.{j}"));
            let kid = Command::new(me())
                .args(["child", "--property", s.id(), "--seed", &seed.to_string(), "--tier", if tier == Tier::Quick { "quick" } else { "thorough" }])
                .args(["--from", &j.to_string(), "--stride", &jobs.to_string(), "--count", &count.to_string()])
                .args(["--wall", &wall.to_string(), "--progress", progress.to_str().unwrap(), "--known", &known_arg])
                .stdout(std::fs::File::create(&out).unwrap())
                .stderr(Stdio::inherit())
                .spawn()
                .unwrap();
            (kid, progress, out)
        })
        .collect();
    let mut results = vec![];
    let mut crashed: Vec<(u64, String)> = vec![];
    // no single run takes this long; a child that shows no progress hangs
    let hang_s = 100.0;
    for (mut kid, progress, out) in kids {
        let mut last = (u64::MAX, real_now());
        let status = loop {
            if let Some(st) = kid.try_wait().unwrap() {
                break Some(st);
            }
            let p = read_progress(&progress);
            if p != last.0 {
                last = (p, real_now());
            } else if real_now() - last.1 > hang_s {
                let _ = kid.kill();
                let _ = kid.wait();
                break None;
            }
            std::thread::sleep(std::time::Duration::from_millis(20));
        };
        match status {
            Some(st) if st.success() => {
                let t = std::fs::read_to_string(&out).unwrap_or_default();
                match serde_json::from_str::<Value>(t.trim()) {
                    Ok(v) => results.push(v),
                    Err(e) => {
                        eprintln!("bad child output: {e}");
                        return 2;
                    }
                }
            }
            Some(st) => {
                let sig = st.signal();
                // SIGKILL comes from outside (memory), everything else is ours
                if sig == Some(9) || (sig.is_none() && st.code() != Some(101)) {
                    eprintln!("a child ended with {st:?}");
                    return 2;
                }
                crashed.push((read_progress(&progress), format!("the process died: {st}")));
            }
            None => crashed.push((read_progress(&progress), "a run made no progress in real time (hang)".into())),
        }
    }
    let wall_runs = real_now() - t0;
    let mut viol: Option<Value> = None;
    for r in &results {
        let v = &r["violation"];
        if !v.is_null() && viol.as_ref().map_or(true, |o| v["run"].as_u64() < o["run"].as_u64()) {
            viol = Some(v.clone());
        }
    }
    let scratch = |n: &str| dir.join(n);
    let mut exit = 0;
    let replays = PathBuf::from(a.get("replays"));
    let _ = std::fs::create_dir_all(&replays);
    let mut reported = None;
    if let Some(mut v) = viol {
        v["property"] = json!(s.id());
        v["verif_seed"] = json!(seed);
        let raw = scratch("raw.json");
        std::fs::write(&raw, serde_json::to_string(&v).unwrap()).unwrap();
        let name = format!("{}-seed{}-run{}.json", s.id(), seed, v["run"]);
        let path = replays.join(name);
        // minimise in a process of its own, then confirm in a fresh one
        let min = scratch("min.json");
        let budget = if tier == Tier::Quick { "45" } else { "240" };
        let ok = run_with_limit(
            Command::new(me()).args(["minimise", "--file", raw.to_str().unwrap(), "--out", min.to_str().unwrap(), "--wall", budget]),
            150.0,
        ) == Some(0);
        let confirm = |p: &Path| {
            (0..2).any(|_| run_with_limit(Command::new(me()).args(["replay", "--file", p.to_str().unwrap()]).stdout(Stdio::null()), 150.0) == Some(1))
        };
        let from = if ok && min.exists() && confirm(&min) {
            Some(min)
        } else if confirm(&raw) {
            Some(raw.clone())
        } else {
            None
        };
        match from {
            Some(f) => {
                std::fs::copy(&f, &path).unwrap();
                let fin: Value = serde_json::from_str(&std::fs::read_to_string(&path).unwrap()).unwrap();
                println!("{}", fin["violation"]["message"].as_str().unwrap_or(""));
                println!("VIOLATION property={} replay={}", s.id(), path.display());
                reported = Some(fin["violation"].clone());
                exit = 1;
            }
            None => {
                eprintln!("run {} failed but its replay does not: {}", v["run"], v["violation"]);
                exit = 2;
            }
        }
    } else if let Some((idx, why)) = crashed.first() {
        // re-run it alone in a fresh process: it must end the same way
        let path = replays.join(format!("{}-seed{}-run{}.json", s.id(), seed, idx));
        let plan = s.generate(&mut run_rng(seed, s.id(), *idx), tier);
        let v = json!({"property": s.id(), "verif_seed": seed, "run": idx, "plan": plan, "trace": Value::Null,
            "violation": {"class": "crash", "signature": "crash", "message": why}});
        std::fs::write(&path, serde_json::to_string_pretty(&v).unwrap()).unwrap();
        let again = run_with_limit(Command::new(me()).args(["replay", "--file", path.to_str().unwrap()]).stdout(Stdio::null()), 100.0);
        if again.map_or(true, |c| c >= 100 || c < 0) {
            println!("{why}");
            println!("VIOLATION property={} replay={}", s.id(), path.display());
            reported = Some(v["violation"].clone());
            exit = 1;
        } else {
            eprintln!("{why}, but not again on its own ({again:?})");
            exit = 2;
        }
    }

    // determinism across processes
    let pairs: Vec<String> = results
        .iter()
        .flat_map(|r| r["rehash"].as_array().cloned().unwrap_or_default())
        .map(|p| format!("{}:{}", p[0], p[1].as_str().unwrap()))
        .collect();
    let (mut rchecked, mut rbad) = (0, vec![]);
    if exit == 0 {
        let outs: Vec<_> = pairs
            .chunks((pairs.len() / 4).max(1))
            .map(|c| {
                let mut c = c.to_vec();
                c.reverse();
                Command::new(me())
                    .args(["rehash", "--property", s.id(), "--seed", &seed.to_string(), "--pairs", &c.join(",")])
                    .args(["--tier", if tier == Tier::Quick { "quick" } else { "thorough" }])
                    .stdout(Stdio::piped())
                    .spawn()
                    .unwrap()
            })
            .collect();
        for o in outs {
            let o = o.wait_with_output().unwrap();
            if let Ok(v) = serde_json::from_slice::<Value>(&o.stdout) {
                rchecked += v["checked"].as_u64().unwrap_or(0);
                rbad.extend(v["bad"].as_array().cloned().unwrap_or_default());
            }
        }
        if !rbad.is_empty() {
            eprintln!("warning: runs {rbad:?} did not repeat exactly in another process");
        }
    }

    let sum = |k: &str| results.iter().map(|r| r[k].as_u64().unwrap_or(0)).sum::<u64>();
    let fsum = |k: &str| results.iter().map(|r| r[k].as_f64().unwrap_or(0.0)).sum::<f64>();
    let merge = |k: &str| {
        let mut m: BTreeMap<String, u64> = BTreeMap::new();
        for r in &results {
            for (n, v) in r[k].as_object().into_iter().flatten() {
                *m.entry(n.clone()).or_default() += v.as_u64().unwrap_or(0);
            }
        }
        m
    };
    let set = |k: &str| {
        let mut m: BTreeSet<String> = BTreeSet::new();
        for r in &results {
            m.extend(r[k].as_str().unwrap_or("").split(',').filter(|s| !s.is_empty()).map(String::from));
        }
        m.len()
    };
    let mut faults = merge("faults");
    for k in s.fault_kinds() {
        faults.entry(k.to_string()).or_insert(0);
    }
    let n = sum("runs");
    let known_seen: BTreeSet<String> = results.iter().flat_map(|r| r["known_seen"].as_array().cloned().unwrap_or_default()).filter_map(|v| v.as_str().map(String::from)).collect();
    for (sig, text) in &known {
        println!("KNOWN-FINDING: property={} {} {}", s.id(), sig, text);
    }
    let (real, stub) = s.components();
    let samples: Vec<Value> = results.iter().flat_map(|r| r["samples"].as_array().cloned().unwrap_or_default()).take(3).collect();
    let ev = json!({
        "property": s.id(),
        "tier": if tier == Tier::Quick { "quick" } else { "thorough" },
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": n,
            "distinct_nontrivial": set("hashes"),
            "rule": s.rule(),
            "samples": samples,
            "nontrivial_runs": sum("nontrivial"),
            "distinct_schedules": set("traces"),
            "runs_per_hour": (n as f64 / wall_runs.max(0.001) * 3600.0) as u64,
            "seeds_per_hour": (n as f64 / wall_runs.max(0.001) * 3600.0) as u64,
            "simulated_seconds": fsum("sim_s"),
            "scheduler_steps": sum("steps"),
            "longest_run_steps": results.iter().map(|r| r["max_steps"].as_u64().unwrap_or(0)).max(),
            "thread_switches": sum("switches"),
            "faults_injected": faults,
            "probes": merge("probes"),
            "determinism": {"same_process_checked": sum("selfcheck"), "same_process_mismatches": sum("selfbad"),
                "fresh_process_checked": rchecked, "fresh_process_mismatches": rbad.len()},
            "components_real": real,
            "components_stubbed": stub,
            "known_findings_seen": known_seen,
            "violation": reported,
        },
        "assumptions": s.assumptions(),
        "wall_s": ((real_now() - t0) * 100.0).round() / 100.0,
        "violations": (exit == 1) as u64,
    });
    if !a.get("evidence").is_empty() {
        let mut f = std::fs::File::create(a.get("evidence")).unwrap();
        f.write_all((serde_json::to_string_pretty(&ev).unwrap() + "\n").as_bytes()).unwrap();
    }
    println!(
        "property={} runs={} distinct={} sim={:.0}s wall={:.1}s determinism {}/{} bad, exit {}",
        s.id(),
        n,
        set("hashes"),
        fsum("sim_s"),
        real_now() - t0,
        sum("selfbad") + rbad.len() as u64,
        sum("selfcheck") + rchecked,
        exit
    );
    if exit == 0 && n == 0 {
        return 2;
    }
    exit
}

fn read_progress(p: &Path) -> u64 {
    match std::fs::read(p) {
        Ok(b) if b.len() >= 8 => u64::from_le_bytes(b[..8].try_into().unwrap()),
        _ => u64::MAX,
    }
}

fn run_with_limit(c: &mut Command, limit: f64) -> Option<i32> {
    let mut k = c.spawn().ok()?;
    let t0 = real_now();
    loop {
        if let Some(s) = k.try_wait().unwrap() {
            return Some(s.code().unwrap_or(-1));
        }
        if real_now() - t0 > limit {
            let _ = k.kill();
            let _ = k.wait();
            return None;
        }
        std::thread::sleep(std::time::Duration::from_millis(10));
    }
}

/// exit 1: the file's violation happens again; 0: nothing happens; 3: something else happens
fn replay_cmd<'a>(find: &dyn Fn(&str) -> &'a dyn Scenario, a: &Args) -> i32 {
    let v: Value = serde_json::from_str(&std::fs::read_to_string(a.get("file")).expect("file")).expect("json");
    let s = find(v["property"].as_str().unwrap());
    warm_up(s);
    let trace: Option<Vec<u32>> = serde_json::from_value(v["trace"].clone()).ok();
    let o = s.execute(&v["plan"], trace);
    for e in &o.report.events {
        println!("{e}");
    }
    match &o.violation {
        Some(w) => {
            println!("{}", w.message);
            println!("VIOLATION property={} replay={}", s.id(), a.get("file"));
            if w.class == v["violation"]["class"].as_str().unwrap_or("") {
                1
            } else {
                3
            }
        }
        None => {
            println!("no violation");
            0
        }
    }
}

fn minimise_cmd<'a>(find: &dyn Fn(&str) -> &'a dyn Scenario, a: &Args) -> i32 {
    let mut v: Value = serde_json::from_str(&std::fs::read_to_string(a.get("file")).expect("file")).expect("json");
    let s = find(v["property"].as_str().unwrap());
    std::panic::set_hook(Box::new(|_| {}));
    crate::world::install_panic_hook();
    warm_up(s);
    let t0 = real_now();
    let wall = a.num("wall", 45) as f64;
    let class = v["violation"]["class"].as_str().unwrap().to_string();
    let mut plan = v["plan"].clone();
    let mut trace: Vec<u32> = serde_json::from_value(v["trace"].clone()).unwrap_or_default();
    let mut tried = 0u64;
    let out_of_time = || real_now() - t0 > wall;
    let mut best: RunOut = s.execute(&plan, Some(trace.clone()));
    if best.violation.as_ref().map(|x| x.class.as_str()) != Some(&class) {
        return 4;
    }
    let mut attempt = |p: &Value, tr: &[u32], seeds: u64| -> Option<(RunOut, Value)> {
        let ok = |o: &RunOut| o.violation.as_ref().map(|x| x.class.as_str()) == Some(class.as_str());
        tried += 1;
        let o = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| s.execute(p, Some(tr.to_vec())))).ok()?;
        if ok(&o) {
            return Some((o, p.clone()));
        }
        for k in 0..seeds {
            let mut p = p.clone();
            let base = p["sched"]["seed"].as_u64().unwrap_or(0);
            p["sched"]["seed"] = json!((mix(base + k) >> 12));
            tried += 1;
            let o = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| s.execute(&p, None))).ok()?;
            if ok(&o) {
                return Some((o, p));
            }
        }
        None
    };
    let size0 = plan.to_string().len();
    'outer: loop {
        let before = plan.to_string();
        for cand in candidates(&plan) {
            if out_of_time() {
                break 'outer;
            }
            if cand == plan || cand.to_string().len() > plan.to_string().len() + 2 {
                continue;
            }
            // the candidate list was made from an older plan: apply only if it is still smaller
            if let Some((o, p)) = attempt(&cand, &trace, 6) {
                trace = o.report.trace.clone();
                best = o;
                plan = p;
                continue 'outer;
            }
        }
        if plan.to_string() == before {
            break;
        }
    }
    // the schedule: drop the tail, then zero chunks
    let mut n = trace.len();
    while n > 0 && !out_of_time() {
        let cut = &trace[..n / 2];
        match attempt(&plan, cut, 0) {
            Some((o, _)) => {
                trace = cut.to_vec();
                best = o;
                n = trace.len();
            }
            None => break,
        }
    }
    let mut size = (trace.len() / 2).max(1);
    while !out_of_time() && !trace.is_empty() {
        let mut i = 0;
        while i < trace.len() && !out_of_time() {
            let j = (i + size).min(trace.len());
            if trace[i..j].iter().any(|c| *c != 0) {
                let mut t = trace.clone();
                t[i..j].iter_mut().for_each(|c| *c = 0);
                if let Some((o, _)) = attempt(&plan, &t, 0) {
                    trace = t;
                    best = o;
                }
            }
            i = j;
        }
        if size == 1 {
            break;
        }
        size /= 2;
    }
    while trace.last() == Some(&0) {
        trace.pop();
    }
    v["minimised"] = json!({"from_bytes": size0, "to_bytes": plan.to_string().len(), "executions": tried});
    v["plan"] = plan;
    v["trace"] = json!(trace);
    v["violation"] = vjson(best.violation.as_ref().unwrap());
    v["events"] = json!(best.report.events);
    v["log_hash"] = json!(format!("{:016x}", best.report.log_hash));
    std::fs::write(a.get("out"), serde_json::to_string_pretty(&v).unwrap()).unwrap();
    0
}

/// Smaller variants of a plan. Keys starting with '_' are left alone.
fn candidates(plan: &Value) -> Vec<Value> {
    let mut out = vec![];
    // simpler schedules first
    for (k, z) in [("workers", 1), ("preempt_pm", 0), ("slip_pm", 0), ("policy", 1)] {
        if plan["sched"][k].as_u64() != Some(z) {
            let mut p = plan.clone();
            p["sched"][k] = json!(z);
            out.push(p);
        }
    }
    let mut paths = vec![];
    walk(plan, &mut vec![], &mut paths);
    // arrays: halves, then single elements
    for p in &paths {
        if let Value::Array(xs) = at(plan, p) {
            let n = xs.len();
            let mut size = n / 2;
            while size >= 1 {
                for start in (0..n).step_by(size) {
                    let mut q = plan.clone();
                    let ys = at_mut(&mut q, p).as_array_mut().unwrap();
                    ys.drain(start..(start + size).min(n));
                    out.push(q);
                }
                size /= 2;
            }
            if n == 1 {
                let mut q = plan.clone();
                at_mut(&mut q, p).as_array_mut().unwrap().clear();
                out.push(q);
            }
        }
    }
    for p in &paths {
        match at(plan, p) {
            Value::Bool(true) => out.push(with(plan, p, json!(false))),
            Value::Number(x) => {
                if let Some(x) = x.as_u64() {
                    for y in [0, 1, x / 2, x.saturating_sub(1)] {
                        if y < x {
                            out.push(with(plan, p, json!(y)));
                        }
                    }
                }
            }
            _ => {}
        }
    }
    out
}
#[derive(Clone)]
enum Seg {
    K(String),
    I(usize),
}
fn walk(v: &Value, cur: &mut Vec<Seg>, out: &mut Vec<Vec<Seg>>) {
    match v {
        Value::Object(m) => {
            for (k, x) in m {
                if k.starts_with('_') || (cur.is_empty() && k == "sched") {
                    continue;
                }
                cur.push(Seg::K(k.clone()));
                walk(x, cur, out);
                cur.pop();
            }
        }
        Value::Array(xs) => {
            out.push(cur.clone());
            for (i, x) in xs.iter().enumerate() {
                cur.push(Seg::I(i));
                walk(x, cur, out);
                cur.pop();
            }
        }
        Value::Bool(_) | Value::Number(_) => out.push(cur.clone()),
        _ => {}
    }
}
fn at<'a>(v: &'a Value, p: &[Seg]) -> &'a Value {
    p.iter().fold(v, |v, s| match s {
        Seg::K(k) => &v[k.as_str()],
        Seg::I(i) => &v[*i],
    })
}
fn at_mut<'a>(v: &'a mut Value, p: &[Seg]) -> &'a mut Value {
    p.iter().fold(v, |v, s| match s {
        Seg::K(k) => &mut v[k.as_str()],
        Seg::I(i) => &mut v[*i],
    })
}
fn with(v: &Value, p: &[Seg], x: Value) -> Value {
    let mut q = v.clone();
    *at_mut(&mut q, p) = x;
    q
}
