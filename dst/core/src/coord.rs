//! The coordinator: spreads runs over worker processes, minimises and replays
//! violations, writes evidence.
use crate::case::*;
use crate::rng::*;
use crate::run;
use crate::worlds;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, Command, Stdio};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[derive(Serialize, Deserialize, Default)]
struct Req {
    #[serde(default)]
    gen: Option<(String, String, u64)>,
    #[serde(default)]
    case: Option<Case>,
    #[serde(default)]
    log: bool,
    #[serde(default)]
    want_case: bool,
}

/// Worker process: one request per line on stdin, one result per line on stdout.
pub fn worker_main() {
    let cpu: usize = std::env::var("DST_CPU").ok().and_then(|v| v.parse().ok()).unwrap_or(0);
    let stdin = std::io::stdin();
    // The buffer of the standard output is allocated on first use: not within a run, where
    // an allocation is a scheduling point.
    let _ = std::io::stdout().write_all(b"").and_then(|_| std::io::stdout().flush());
    let mut line = String::new();
    loop {
        line.clear();
        if stdin.lock().read_line(&mut line).unwrap_or(0) == 0 {
            return;
        }
        let req: Req = match serde_json::from_str(&line) {
            Ok(r) => r,
            Err(e) => {
                eprintln!("worker: bad request: {}", e);
                return;
            }
        };
        let case = match (&req.case, &req.gen) {
            (Some(c), _) => c.clone(),
            (None, Some((s, p, seed))) => worlds::generate(s, p, *seed),
            _ => return,
        };
        let mut r = run::run_case(&case, req.log, cpu);
        if req.want_case || !r.violations.is_empty() || r.end != "ok" {
            r.case = Some(case);
        }
        let mut out = serde_json::to_string(&r).unwrap();
        out.push('\n');
        if std::io::stdout().write_all(out.as_bytes()).and_then(|_| std::io::stdout().flush()).is_err() {
            return;
        }
    }
}

struct Worker {
    child: Child,
    rd: BufReader<std::process::ChildStdout>,
}
impl Worker {
    fn start(cpu: usize) -> Worker {
        let exe = std::env::current_exe().expect("own path");
        let mut child = Command::new(exe)
            .arg("/sim/conf.json")
            .env("DST_WORKER", "1")
            .env("DST_CPU", cpu.to_string())
            .env_remove("RUST_LOG")
            .env_remove("NO_COLOR")
            .env_remove("CLICOLOR_FORCE")
            .env_remove("RUST_BACKTRACE")
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .spawn()
            .expect("cannot start a worker process");
        let rd = BufReader::new(child.stdout.take().unwrap());
        Worker { child, rd }
    }
    fn call(&mut self, r: &Req) -> RunResult {
        let mut s = serde_json::to_string(r).unwrap();
        s.push('\n');
        let w = self.child.stdin.as_mut().unwrap();
        let mut line = String::new();
        if w.write_all(s.as_bytes()).and_then(|_| w.flush()).is_err() || self.rd.read_line(&mut line).unwrap_or(0) == 0 {
            return RunResult { end: "harness".into(), note: "worker died".into(), ..Default::default() };
        }
        serde_json::from_str(&line).unwrap_or(RunResult { end: "harness".into(), note: "bad worker answer".into(), ..Default::default() })
    }
}
impl Drop for Worker {
    fn drop(&mut self) {
        drop(self.child.stdin.take());
        let _ = self.child.wait();
    }
}

pub struct Pool {
    w: Vec<Mutex<Worker>>,
}
impl Pool {
    pub fn new(n: usize) -> Pool {
        Pool { w: (0..n).map(|i| Mutex::new(Worker::start(i))).collect() }
    }
    /// Runs explicit cases concurrently; results in order.
    fn batch(&self, cases: &[Case]) -> Vec<RunResult> {
        let next = AtomicUsize::new(0);
        let out: Vec<Mutex<RunResult>> = cases.iter().map(|_| Mutex::new(RunResult::default())).collect();
        std::thread::scope(|s| {
            for w in &self.w {
                let (next, out) = (&next, &out);
                s.spawn(move || loop {
                    let i = next.fetch_add(1, Ordering::SeqCst);
                    if i >= cases.len() {
                        break;
                    }
                    let r = w.lock().unwrap().call(&Req { case: Some(cases[i].clone()), ..Default::default() });
                    *out[i].lock().unwrap() = r;
                });
            }
        });
        out.into_iter().map(|m| m.into_inner().unwrap()).collect()
    }
    fn one(&self, c: &Case, log: bool) -> RunResult {
        self.w[0].lock().unwrap().call(&Req { case: Some(c.clone()), log, want_case: true, ..Default::default() })
    }
}

/// The violations of a run that count for a property (crashes and hangs count for all).
fn relevant(prop: &str, r: &RunResult) -> Vec<Violation> {
    let mut v: Vec<Violation> = r.violations.iter().filter(|v| v.prop == prop).cloned().collect();
    if matches!(r.end.as_str(), "crash" | "hang" | "livelock") {
        v.push(Violation { prop: prop.into(), class: r.end.clone(), msg: format!("the process under test: {} ({})", r.end, r.note) });
    }
    v
}

pub struct Known {
    prop: String,
    class: String,
    matches: String,
    what: String,
}
/// Lines: KNOWN property=<id> class=<class> match="<text>" <what fails>
pub fn known_findings(dir: &str) -> Vec<Known> {
    let t = std::fs::read_to_string(format!("{}/known-findings.txt", dir)).unwrap_or_default();
    let mut v = vec![];
    for l in t.lines() {
        let Some(r) = l.strip_prefix("KNOWN property=") else { continue };
        let mut it = r.splitn(3, ' ');
        let prop = it.next().unwrap_or("").to_string();
        let class = it.next().unwrap_or("").trim_start_matches("class=").to_string();
        let rest = it.next().unwrap_or("");
        let (m, what) = match rest.strip_prefix("match=\"").and_then(|r| r.split_once("\" ")) {
            Some((m, w)) => (m.to_string(), w.to_string()),
            None => (String::new(), rest.to_string()),
        };
        v.push(Known { prop, class, matches: m, what });
    }
    v
}
fn is_known(k: &[Known], v: &Violation) -> bool {
    k.iter().any(|k| k.prop == v.prop && k.class == v.class && v.msg.contains(&k.matches))
}

fn hits(prop: &str, class: &str, r: &RunResult, known: &[Known]) -> bool {
    relevant(prop, r).iter().any(|v| v.class == class && !is_known(known, v))
}

/// Shrinks a failing case while it keeps failing in the same way.
fn minimise(pool: &Pool, prop: &str, class: &str, start: Case, known: &[Known], budget: Duration) -> Case {
    let t0 = Instant::now();
    let mut best = start;
    let ok = |c: &Case, r: &RunResult| -> bool {
        let _ = c;
        hits(prop, class, r, known)
    };
    // Without any scheduling or fault deviation?
    let mut c = best.clone();
    c.devs = Some(vec![]);
    let r = pool.one(&c, false);
    if ok(&c, &r) {
        best = c;
    }
    for round in 0..3 {
        let before = (best.ops.len(), best.devs.as_ref().map(|d| d.len()).unwrap_or(0));
        for what in [0, 1] {
            let len = |c: &Case| if what == 0 { c.ops.len() } else { c.devs.as_ref().map(|d| d.len()).unwrap_or(0) };
            let mut chunk = (len(&best) / 2).max(1);
            loop {
                if t0.elapsed() > budget || len(&best) == 0 {
                    break;
                }
                let mut pos = 0;
                let mut progress = false;
                while pos < len(&best) && t0.elapsed() < budget {
                    let mut cand = vec![];
                    let mut p = pos;
                    while p < len(&best) && cand.len() < pool.w.len() {
                        let e = (p + chunk).min(len(&best));
                        let mut c = best.clone();
                        if what == 0 {
                            c.ops.drain(p..e);
                        } else {
                            c.devs.as_mut().unwrap().drain(p..e);
                        }
                        cand.push(c);
                        p = e;
                    }
                    let rs = pool.batch(&cand);
                    match (0..cand.len()).find(|i| ok(&cand[*i], &rs[*i])) {
                        Some(i) => {
                            best = cand.swap_remove(i);
                            pos += i * chunk;
                            progress = true;
                        }
                        None => pos = p,
                    }
                }
                if chunk == 1 && !progress {
                    break;
                }
                if chunk > 1 {
                    chunk = (chunk / 2).max(1);
                }
            }
        }
        let after = (best.ops.len(), best.devs.as_ref().map(|d| d.len()).unwrap_or(0));
        if after == before || t0.elapsed() > budget {
            break;
        }
        let _ = round;
    }
    best
}

#[derive(Default)]
struct Totals {
    runs: u64,
    nontrivial: u64,
    distinct: BTreeSet<u64>,
    sim_ns: u64,
    steps: u64,
    switches: u64,
    faults: BTreeMap<String, u64>,
    fault_runs: BTreeMap<String, u64>,
    probes: BTreeMap<String, u64>,
    per_profile: BTreeMap<String, u64>,
    ends: BTreeMap<String, u64>,
    other: BTreeMap<String, u64>,
    max_run_ms: u64,
}

pub fn workers() -> usize {
    std::env::var("DST_WORKERS").ok().and_then(|v| v.parse().ok()).unwrap_or_else(|| std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).clamp(1, 16))
}

pub fn check(prop: &str, dir: &str) -> i32 {
    let t0 = Instant::now();
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|v| v.trim().parse().ok()).unwrap_or(1);
    let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
    let thorough = tier == "thorough";
    println!("property {} seed {} tier {}", prop, seed, tier);
    let plan = worlds::plan(prop);
    if plan.is_empty() {
        eprintln!("dst: no plan for property {}", prop);
        return 3;
    }
    let known = known_findings(dir);
    let cfg = worlds::budget(prop);
    let scale: u64 = std::env::var("DST_SCALE").ok().and_then(|v| v.parse().ok()).unwrap_or(if thorough { 20 } else { 1 });
    let total_w: u64 = plan.iter().map(|p| p.2).sum();
    let runs = cfg.runs * scale;
    let cap = Duration::from_secs(std::env::var("DST_CAP_S").ok().and_then(|v| v.parse().ok()).unwrap_or(if thorough { 720 } else { 150 }));
    // The schedule of runs: profiles interleaved in proportion to their weights.
    let pick = |i: u64| -> (String, String, u64) {
        let x = (i * 7919) % total_w;
        let mut acc = 0;
        for (s, p, w) in &plan {
            acc += w;
            if x < acc {
                return (s.to_string(), p.to_string(), hash2(seed, hash2(i, hash_bytes(3, prop.as_bytes()))) >> 1);
            }
        }
        unreachable!()
    };
    let pool = Pool::new(workers());
    let next = AtomicU64::new(0);
    let stop = AtomicBool::new(false);
    let tot = Mutex::new(Totals::default());
    let samples: Mutex<Vec<(u64, Value)>> = Mutex::new(vec![]);
    let bad: Mutex<Vec<(u64, RunResult)>> = Mutex::new(vec![]);
    let harness: Mutex<Vec<String>> = Mutex::new(vec![]);
    let hashes: Mutex<BTreeMap<u64, u64>> = Mutex::new(BTreeMap::new());
    let recheck = 64u64.min(runs);
    std::thread::scope(|s| {
        for w in &pool.w {
            let (next, stop, tot, samples, bad, harness, known, pick, hashes) = (&next, &stop, &tot, &samples, &bad, &harness, &known, &pick, &hashes);
            s.spawn(move || loop {
                let i = next.fetch_add(1, Ordering::SeqCst);
                if i >= runs || stop.load(Ordering::SeqCst) || t0.elapsed() > cap {
                    break;
                }
                let (sc, pr, sd) = pick(i);
                let label = format!("{}/{}", sc, pr);
                let t1 = Instant::now();
                let r = w.lock().unwrap().call(&Req { gen: Some((sc, pr, sd)), want_case: i < 40, ..Default::default() });
                let ms = t1.elapsed().as_millis() as u64;
                if i < recheck {
                    hashes.lock().unwrap().insert(i, r.trace_hash);
                }
                {
                    let mut t = tot.lock().unwrap();
                    t.runs += 1;
                    t.max_run_ms = t.max_run_ms.max(ms);
                    t.sim_ns += r.sim_ns;
                    t.steps += r.steps;
                    t.switches += r.switches;
                    *t.ends.entry(r.end.clone()).or_insert(0) += 1;
                    *t.per_profile.entry(label).or_insert(0) += 1;
                    if r.nontrivial && t.distinct.insert(hash2(r.sched_hash, r.trace_hash)) {
                        t.nontrivial += 1;
                    }
                    for (k, v) in &r.faults {
                        *t.faults.entry(k.clone()).or_insert(0) += v;
                        *t.fault_runs.entry(k.clone()).or_insert(0) += 1;
                    }
                    for (k, v) in &r.probes {
                        *t.probes.entry(k.clone()).or_insert(0) += v;
                    }
                    for v in &r.violations {
                        if v.prop != prop {
                            *t.other.entry(format!("{} {}", v.prop, v.class)).or_insert(0) += 1;
                        }
                    }
                }
                if r.end == "harness" {
                    let mut h = harness.lock().unwrap();
                    h.push(format!("run {}: {}", i, r.note));
                    continue;
                }
                let rel = relevant(prop, &r);
                if rel.iter().any(|v| !is_known(known, v)) {
                    stop.store(true, Ordering::SeqCst);
                    bad.lock().unwrap().push((i, r));
                } else if i < 40 && r.nontrivial {
                    if let Some(mut c) = r.case {
                        let n = c.ops.len();
                        c.ops.truncate(12);
                        samples.lock().unwrap().push((i, json!({"index": i, "case": c, "ops_in_case": n, "deviations": r.devs.iter().take(12).collect::<Vec<_>>(),
                            "deviations_total": r.devs.len(), "sim_ms": r.sim_ns / 1_000_000, "steps": r.steps, "trace_hash": format!("{:016x}", r.trace_hash)})));
                    }
                }
            });
        }
    });
    // Determinism: the first runs once more, on other workers.
    let mut rerun = 0u64;
    let mut nondet = vec![];
    if bad.lock().unwrap().is_empty() {
        let h = hashes.lock().unwrap().clone();
        let idx: Vec<u64> = h.keys().copied().collect();
        let res: Mutex<Vec<(u64, u64)>> = Mutex::new(vec![]);
        let nx = AtomicUsize::new(0);
        std::thread::scope(|s| {
            for w in pool.w.iter().rev() {
                let (idx, res, nx, pick) = (&idx, &res, &nx, &pick);
                s.spawn(move || loop {
                    let j = nx.fetch_add(1, Ordering::SeqCst);
                    if j >= idx.len() {
                        break;
                    }
                    let g = pick(idx[j]);
                    let r = w.lock().unwrap().call(&Req { gen: Some(g), ..Default::default() });
                    res.lock().unwrap().push((idx[j], r.trace_hash));
                });
            }
        });
        for (i, th) in res.into_inner().unwrap() {
            rerun += 1;
            if h[&i] != th {
                nondet.push(i);
            }
        }
    }
    let t = tot.into_inner().unwrap();
    let search_s = t0.elapsed().as_secs_f64();
    let mut code = 0;
    let mut nviol = 0;
    let mut violation_info = json!(null);
    let mut bad = bad.into_inner().unwrap();
    bad.sort_by_key(|b| b.0);
    for (i, r) in &bad {
        let v = relevant(prop, r).into_iter().find(|v| !is_known(&known, v)).unwrap();
        println!("run {} violates {} [{}]: {}", i, prop, v.class, v.msg);
        let mut c = r.case.clone().unwrap();
        c.devs = Some(r.devs.clone());
        let again = pool.one(&c, false);
        if !hits(prop, &v.class, &again, &known) {
            // The recorded choices do not reproduce it (a crash loses part of them): keep the seed.
            c.devs = None;
            let again = pool.one(&c, false);
            if !hits(prop, &v.class, &again, &known) {
                println!("  (not reproducible, ignored)");
                harness.lock().unwrap().push(format!("run {} violated {} but did not reproduce", i, v.class));
                continue;
            }
        }
        let min = if c.devs.is_some() { minimise(&pool, prop, &v.class, c.clone(), &known, Duration::from_secs(30)) } else { c.clone() };
        // Replay in a fresh process.
        let fresh = Pool::new(1);
        let fin = fresh.one(&min, true);
        let (fin_case, fin) = if hits(prop, &v.class, &fin, &known) { (min, fin) } else { (c.clone(), fresh.one(&c, true)) };
        let mv = relevant(prop, &fin).into_iter().find(|x| x.class == v.class).unwrap_or(v.clone());
        let rdir = format!("{}/replays", dir);
        let _ = std::fs::create_dir_all(&rdir);
        let path = format!("{}/{}-{}-{}.json", rdir, prop, seed, i);
        let doc = json!({"property": prop, "class": v.class, "message": mv.msg, "verif_seed": seed, "run_index": i, "trace_hash": format!("{:016x}", fin.trace_hash),
            "end": fin.end, "note": fin.note, "panics": fin.panics, "case": fin_case, "event_log": fin.log});
        let _ = std::fs::write(&path, serde_json::to_string_pretty(&doc).unwrap());
        println!("  minimised to {} operations and {} scheduling/fault deviations: {}", fin_case.ops.len(), fin_case.devs.as_ref().map(|d| d.len()).unwrap_or(0), mv.msg);
        println!("VIOLATION property={} replay={}", prop, path);
        violation_info = json!({"class": v.class, "message": mv.msg, "replay": path});
        nviol += 1;
        code = 1;
        break;
    }
    for k in known.iter().filter(|k| k.prop == prop) {
        println!("KNOWN-FINDING: property={} {}", prop, k.what);
    }
    let harness = harness.into_inner().unwrap();
    let mut samples = samples.into_inner().unwrap();
    samples.sort_by_key(|s| s.0);
    let samples: Vec<Value> = samples.into_iter().take(3).map(|s| s.1).collect();
    let wall = t0.elapsed().as_secs_f64();
    let per_h = |n: f64| if search_s > 0.0 { (n / search_s * 3600.0).round() } else { 0.0 };
    let inj: BTreeMap<String, Value> = t.faults.iter().map(|(k, v)| (k.clone(), json!({"times": v, "runs": t.fault_runs[k]}))).collect();
    let info = worlds::describe(prop);
    let ev = json!({
        "property": prop, "tier": tier, "seed": seed, "level": "exploration", "wall_s": wall, "violations": nviol,
        "coverage": {
            "evaluations": t.runs, "distinct_nontrivial": t.nontrivial,
            "rule": format!("{} A run counts once if its (schedule hash, event hash) pair is new and it is non-trivial: {}", info.0, info.1),
            "samples": samples,
            "runs_per_hour": per_h(t.runs as f64), "seeds_per_hour": per_h(t.runs as f64),
            "simulated_seconds": t.sim_ns as f64 / 1e9, "simulated_hours_per_hour": t.sim_ns as f64 / 1e9 / search_s.max(0.001),
            "scheduler_steps": t.steps, "thread_switches": t.switches,
            "runs_by_profile": t.per_profile, "run_endings": t.ends, "faults_and_choices_injected": inj, "probes": t.probes,
            "determinism": {"runs_repeated": rerun, "differing": nondet.len(), "indices": nondet},
            "slowest_run_ms": t.max_run_ms, "harness_notes": harness.iter().take(10).collect::<Vec<_>>(),
            "observations_for_other_properties": t.other, "violation": violation_info,
            "components": info.2,
        },
        "assumptions": info.3,
    });
    let _ = std::fs::create_dir_all(format!("{}/evidence", dir));
    if let Err(e) = std::fs::write(format!("{}/evidence/{}.json", dir, prop), serde_json::to_string_pretty(&ev).unwrap()) {
        eprintln!("dst: cannot write evidence: {}", e);
        return 3;
    }
    println!(
        "{} runs ({} distinct non-trivial), {:.0} simulated s, {} steps, {:.1} s wall; {} harness notes; {} of {} repeated runs differed",
        t.runs, t.nontrivial, t.sim_ns as f64 / 1e9, t.steps, wall, harness.len(), nondet.len(), rerun
    );
    for h in harness.iter().take(5) {
        println!("note: {}", h);
    }
    if code == 0 && harness.len() as u64 * 20 > t.runs {
        eprintln!("dst: too many harness errors");
        return 3;
    }
    code
}

/// Replays a violation file in a fresh worker; exit status 1 if it fails the same way.
pub fn replay(path: &str, verbose: bool) -> i32 {
    let Ok(text) = std::fs::read_to_string(path) else {
        eprintln!("cannot read {}", path);
        return 3;
    };
    let doc: Value = serde_json::from_str(&text).expect("replay file");
    let case: Case = serde_json::from_value(doc["case"].clone()).expect("case");
    let prop = doc["property"].as_str().unwrap_or("").to_string();
    let class = doc["class"].as_str().unwrap_or("").to_string();
    let pool = Pool::new(1);
    let r = pool.one(&case, true);
    if verbose {
        for l in &r.log {
            println!("{}", l);
        }
        for p in &r.panics {
            println!("panic: {}", p);
        }
    }
    let same = format!("{:016x}", r.trace_hash) == doc["trace_hash"].as_str().unwrap_or("");
    println!("end {} {} trace {} recorded trace", r.end, r.note, if same { "equals" } else { "differs from" });
    for v in relevant(&prop, &r) {
        println!("{} [{}] {}", v.prop, v.class, v.msg);
    }
    if hits(&prop, &class, &r, &[]) {
        println!("VIOLATION property={} replay={}", prop, path);
        1
    } else {
        0
    }
}

/// Debugging aid: one generated run with its log.
pub fn run_seed(sc: &str, pr: &str, seed: u64, verbose: bool) -> i32 {
    let pool = Pool::new(1);
    let r = pool.w[0].lock().unwrap().call(&Req { gen: Some((sc.into(), pr.into(), seed)), log: verbose, want_case: true, ..Default::default() });
    if verbose {
        println!("{}", serde_json::to_string_pretty(&r.case).unwrap());
        for l in &r.log {
            println!("{}", l);
        }
    }
    for p in &r.panics {
        println!("panic: {}", p);
    }
    println!("end {} {} sim {:.3} s steps {} switches {} nontrivial {} hash {:016x}", r.end, r.note, r.sim_ns as f64 / 1e9, r.steps, r.switches, r.nontrivial, r.trace_hash);
    println!("faults {:?}\nprobes {:?}", r.faults, r.probes);
    for v in &r.violations {
        println!("{} [{}] {}", v.prop, v.class, v.msg);
    }
    0
}

/// Many runs of one profile; prints a summary of everything found (development aid).
pub fn sweep(sc: &str, pr: &str, from: u64, n: u64) -> i32 {
    let pool = Pool::new(workers());
    let next = AtomicU64::new(0);
    let all: Mutex<BTreeMap<String, (u64, u64, String)>> = Mutex::new(BTreeMap::new());
    let probes: Mutex<BTreeMap<String, u64>> = Mutex::new(BTreeMap::new());
    let t0 = Instant::now();
    std::thread::scope(|s| {
        for w in &pool.w {
            let (next, all, probes) = (&next, &all, &probes);
            s.spawn(move || loop {
                let i = next.fetch_add(1, Ordering::SeqCst);
                if i >= n {
                    break;
                }
                let seed = from + i;
                let r = w.lock().unwrap().call(&Req { gen: Some((sc.into(), pr.into(), seed)), ..Default::default() });
                let mut a = all.lock().unwrap();
                let mut add = |k: String, m: String| {
                    let e = a.entry(k).or_insert((0, seed, m));
                    e.0 += 1;
                };
                if r.end != "ok" {
                    add(format!("END {}", r.end), r.note.clone());
                }
                for v in &r.violations {
                    add(format!("{} {}", v.prop, v.class), v.msg.clone());
                }
                let mut p = probes.lock().unwrap();
                for (k, v) in r.probes.iter().chain(r.faults.iter()) {
                    *p.entry(k.clone()).or_insert(0) += v;
                }
                *p.entry("~nontrivial".into()).or_insert(0) += r.nontrivial as u64;
                *p.entry("~steps".into()).or_insert(0) += r.steps;
                *p.entry("~sim_ms".into()).or_insert(0) += r.sim_ns / 1_000_000;
                *p.entry("~switches".into()).or_insert(0) += r.switches;
            });
        }
    });
    for (k, (c, seed, m)) in all.into_inner().unwrap() {
        println!("{:6} x {}  (seed {}) {}", c, k, seed, m.chars().take(400).collect::<String>());
    }
    println!("{:?}", probes.into_inner().unwrap());
    println!("{} runs in {:.1} s", n, t0.elapsed().as_secs_f64());
    0
}

/// Runs many seeds twice, at two worker counts, and compares the event hashes.
pub fn selftest(n: u64) -> i32 {
    let mut bad = 0;
    let mut total = 0;
    let mut maps = vec![];
    for nw in [workers(), 3] {
        let pool = Pool::new(nw);
        let jobs: Vec<(String, String, u64)> = worlds::all_profiles().into_iter().flat_map(|(s, p)| (0..n).map(move |i| (s.to_string(), p.to_string(), 50_000 + i))).collect();
        let next = AtomicUsize::new(0);
        let out: Mutex<BTreeMap<usize, (u64, String)>> = Mutex::new(BTreeMap::new());
        std::thread::scope(|s| {
            for w in &pool.w {
                let (next, out, jobs) = (&next, &out, &jobs);
                s.spawn(move || loop {
                    let i = next.fetch_add(1, Ordering::SeqCst);
                    if i >= jobs.len() {
                        break;
                    }
                    let r = w.lock().unwrap().call(&Req { gen: Some(jobs[i].clone()), ..Default::default() });
                    out.lock().unwrap().insert(i, (r.trace_hash, r.end));
                });
            }
        });
        maps.push((jobs, out.into_inner().unwrap()));
    }
    for (i, a) in &maps[0].1 {
        total += 1;
        if maps[1].1[i].0 != a.0 {
            bad += 1;
            println!("differs: {:?} ({} / {})", maps[0].0[*i], a.1, maps[1].1[i].1);
        }
    }
    println!("{} runs repeated, {} differ", total, bad);
    (bad > 0) as i32
}
