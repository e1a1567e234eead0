//! Command line: search, minimise, replay, report.
use crate::child::{self, Outcome, Spec, Viol};
use crate::kernel::{self, CNAMES, NC};
use crate::pool::{self, Worker};
use crate::scen;
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::time::Instant;

fn arg(args: &[String], name: &str) -> Option<String> {
    args.iter().position(|a| a == name).and_then(|i| args.get(i + 1).cloned())
}
fn root() -> String {
    std::env::var("SIM_ROOT").unwrap_or_else(|_| "/verif".into())
}

pub fn main() {
    let args: Vec<String> = std::env::args().collect();
    let code = match args.get(1).map(|s| s.as_str()) {
        Some("run") => run(&args),
        Some("replay") => replay(&args),
        Some("selftest") => selftest(&args),
        Some("one") => one(&args),
        Some("list") => {
            for s in scen::all() {
                println!("{}", s.name);
            }
            0
        }
        _ => {
            eprintln!("usage: simcheck run --property ID [--tier quick|thorough] [--seed N] | replay FILE | selftest [SCENARIO] | one --scenario S --seed N [--property P]");
            2
        }
    };
    std::process::exit(code);
}

fn known() -> Vec<(String, String, String)> {
    let p = format!("{}/known_findings.json", root());
    let Ok(t) = std::fs::read_to_string(&p) else { return vec![] };
    let v: Value = serde_json::from_str(&t).expect("known_findings.json does not parse");
    v["findings"]
        .as_array()
        .map(|a| {
            a.iter()
                .map(|f| (f["property"].as_str().unwrap().to_string(), f["class"].as_str().unwrap().to_string(), f["what"].as_str().unwrap().to_string()))
                .collect()
        })
        .unwrap_or_default()
}

#[derive(Default)]
struct Agg {
    runs: u64,
    sim_ns: u128,
    steps: u64,
    switches: u64,
    edges_run: u128,
    inter: HashSet<u64>,
    fired: Vec<u64>,
    fired_runs: Vec<u64>,
    preempts: u64,
    net: Vec<u64>,
    faults: BTreeMap<String, u64>,
    probes: BTreeMap<String, u64>,
    whys: BTreeMap<String, u64>,
    per_scen: BTreeMap<String, u64>,
    faulty_runs: u64,
    max_threads: u64,
    samples: Vec<Value>,
    hung: u64,
}
impl Agg {
    fn add(&mut self, s: &Spec, o: &Outcome) {
        self.runs += 1;
        self.sim_ns += o.sim_ns as u128;
        self.steps += o.steps;
        self.switches += o.switches;
        self.edges_run += o.edges_run as u128;
        self.inter.insert(o.ihash ^ kernel::h3(o.hash, 7, 7) & 0);
        self.fired.resize(NC, 0);
        self.fired_runs.resize(NC, 0);
        let mut any = o.preempts_fired > 0 || !o.faults.is_empty();
        for (i, f) in o.fired.iter().enumerate() {
            self.fired[i] += f;
            if *f > 0 {
                self.fired_runs[i] += 1;
                any = true;
            }
        }
        if any {
            self.faulty_runs += 1;
        }
        self.preempts += o.preempts_fired;
        self.net.resize(8, 0);
        for (i, f) in o.net.iter().enumerate() {
            self.net[i] += f;
        }
        for (n, c) in &o.faults {
            *self.faults.entry(n.clone()).or_default() += c;
        }
        for (n, c) in &o.probes {
            *self.probes.entry(n.clone()).or_default() += c;
        }
        *self.whys.entry(o.why.clone()).or_default() += 1;
        *self.per_scen.entry(s.scenario.clone()).or_default() += 1;
        self.max_threads = self.max_threads.max(o.threads);
        if o.why == "hung" {
            self.hung += 1;
        }
        if self.samples.len() < 5 {
            self.samples.push(json!({"seed": s.seed, "scenario": s.scenario, "end": o.why, "steps": o.steps, "switches": o.switches, "sim_seconds": o.sim_ns as f64 / 1e9, "trace_hash": format!("{:016x}", o.hash)}));
        }
    }
}

fn scen_by_name(n: &str) -> scen::Scenario {
    scen::all().into_iter().find(|s| s.name == n).expect("scenario")
}

fn run(args: &[String]) -> i32 {
    let prop = arg(args, "--property").expect("--property");
    let tier = arg(args, "--tier").or(std::env::var("VERIF_TIER").ok()).unwrap_or("quick".into());
    let thorough = tier == "thorough";
    let seed: u64 = arg(args, "--seed").or(std::env::var("VERIF_SEED").ok()).and_then(|s| s.parse().ok()).unwrap_or(1);
    let t0 = Instant::now();
    let list = scen::for_property(&prop);
    if list.is_empty() {
        eprintln!("no scenario decides {prop}");
        return 2;
    }
    let mult: f64 = arg(args, "--mult").and_then(|s| s.parse().ok()).unwrap_or(if thorough { 40.0 } else { 1.0 });
    let wall_cap: f64 = arg(args, "--wall").and_then(|s| s.parse().ok()).unwrap_or(if thorough { 800.0 } else { 150.0 });
    let nworkers: usize = arg(args, "--workers").and_then(|s| s.parse().ok()).unwrap_or(8);
    let keep_going = args.iter().any(|a| a == "--all");
    println!("seed {seed} property {prop} tier {tier}");
    let edges = pool::edge_map();
    let workers: Vec<Worker> = (0..nworkers).map(|i| pool::spawn(i, edges)).collect();
    let known = known();
    // The run list: scenarios interleaved so that a cut-off run list still
    // covers all of them.
    let mut jobs: Vec<(&'static str, u64)> = Vec::new();
    for (si, (name, n)) in list.iter().enumerate() {
        let n = ((*n as f64) * mult).ceil() as u64;
        for i in 0..n {
            jobs.push((name, kernel::h3(kernel::h3(seed, kernel::mix(prop.bytes().fold(0u64, |a, b| a * 131 + b as u64)), si as u64), i, 77) >> 1));
        }
    }
    {
        // deterministic shuffle
        let mut r = crate::sim::Rng(seed ^ 0xabcdef);
        for i in (1..jobs.len()).rev() {
            let j = r.below(i as u64 + 1) as usize;
            jobs.swap(i, j);
        }
    }
    let jobs = Arc::new(jobs);
    let next = Arc::new(AtomicU64::new(0));
    let stop = Arc::new(AtomicBool::new(false));
    let agg = Arc::new(Mutex::new(Agg::default()));
    // violations by class: first spec seen (smallest job index wins)
    let found: Arc<Mutex<BTreeMap<String, (u64, Spec, Viol)>>> = Arc::new(Mutex::new(BTreeMap::new()));
    let known_hits: Arc<Mutex<BTreeMap<String, u64>>> = Arc::new(Mutex::new(BTreeMap::new()));
    let herr: Arc<Mutex<Option<String>>> = Arc::new(Mutex::new(None));
    let workers: Vec<Worker> = std::thread::scope(|sc| {
        let hs: Vec<_> = workers
            .into_iter()
            .map(|w| {
                let (jobs, next, stop, agg, found, known_hits, herr) = (jobs.clone(), next.clone(), stop.clone(), agg.clone(), found.clone(), known_hits.clone(), herr.clone());
                let (prop, known) = (prop.clone(), known.clone());
                sc.spawn(move || {
                    loop {
                        let i = next.fetch_add(1, SeqCst);
                        if i as usize >= jobs.len() || stop.load(SeqCst) || t0.elapsed().as_secs_f64() > wall_cap {
                            break;
                        }
                        let (name, sd) = jobs[i as usize];
                        let spec = Spec { property: prop.clone(), scenario: name.into(), seed: sd, thorough, plan: None, knobs: None, choices: None, preempts: None, want_log: false, want_spec: false };
                        let mut o = w.run(&spec, 60);
                        if o.why == "hung" {
                            // slow machine, or code that never returns to the simulator?
                            o = w.run(&spec, 200);
                            if o.why == "hung" {
                                o.viol.push(Viol { prop: prop.clone(), class: "hang".into(), detail: "a simulated thread ran for 200 s of real time without reaching the simulator".into() });
                            }
                        }
                        agg.lock().unwrap().add(&spec, &o);
                        if let Some(e) = &o.harness_error {
                            let mut h = herr.lock().unwrap();
                            if h.is_none() {
                                *h = Some(format!("scenario {name} seed {sd}: {e}"));
                            }
                        }
                        for v in &o.viol {
                            if v.prop != prop {
                                continue;
                            }
                            if known.iter().any(|(p, c, _)| *p == v.prop && *c == v.class) {
                                *known_hits.lock().unwrap().entry(v.class.clone()).or_default() += 1;
                                continue;
                            }
                            let mut f = found.lock().unwrap();
                            let e = f.get(&v.class).map(|x| x.0).unwrap_or(u64::MAX);
                            if i < e {
                                let mut s = o.spec.clone().unwrap_or(spec.clone());
                                s.want_log = false;
                                f.insert(v.class.clone(), (i, s, v.clone()));
                            }
                            if !keep_going {
                                stop.store(true, SeqCst);
                            }
                        }
                    }
                    w
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    let search_s = t0.elapsed().as_secs_f64();
    let mut found: Vec<(u64, Spec, Viol)> = std::mem::take(&mut *found.lock().unwrap()).into_values().collect();
    found.sort_by_key(|f| f.0);
    let mut code = 0;
    let mut viols = Vec::new();
    let mut unrepro = 0;
    for (i, spec, v) in &found {
        if code == 1 && !keep_going {
            break;
        }
        // must happen again, from the recorded choices
        let again = workers[0].run(spec, 200);
        if !again.viol.iter().any(|x| x.prop == v.prop && x.class == v.class) && v.class != "hang" {
            unrepro += 1;
            eprintln!("NOT REPRODUCED: {} {} (seed {}): {}", v.prop, v.class, spec.seed, v.detail);
            continue;
        }
        let (small, nruns) = if v.class == "hang" { (spec.clone(), 0) } else { minimise(&workers, spec, v, if thorough { 120.0 } else { 25.0 }) };
        let mut last = small.clone();
        last.want_log = true;
        let o = if v.class == "hang" { again.clone() } else { workers[0].run(&last, 200) };
        let dir = format!("{}/replays", root());
        let _ = std::fs::create_dir_all(&dir);
        let cls: String = v.class.chars().map(|c| if c.is_ascii_alphanumeric() { c } else { '_' }).collect();
        let path = format!("{dir}/{}-{}-{}.json", prop, cls, spec.seed);
        let detail = o.viol.iter().find(|x| x.class == v.class).map(|x| x.detail.clone()).unwrap_or(v.detail.clone());
        let rep = json!({
            "violation": {"property": v.prop, "class": v.class, "detail": detail},
            "seed": spec.seed, "found_at_run": i, "minimising_runs": nruns,
            "trace_hash": format!("{:016x}", o.hash),
            "choice_kinds": CNAMES.to_vec(),
            "spec": small, "trace": o.log,
        });
        std::fs::write(&path, serde_json::to_vec_pretty(&rep).unwrap()).unwrap();
        println!("  {}: {}", v.class, detail);
        println!("  seed {} scenario {}; {} choices, {} preemptions after minimising", spec.seed, spec.scenario, small.choices.as_ref().map_or(0, |c| c.len()), small.preempts.as_ref().map_or(0, |c| c.len()));
        println!("VIOLATION property={} replay={}", prop, path);
        viols.push(json!({"class": v.class, "detail": detail, "replay": path, "seed": spec.seed}));
        code = 1;
    }
    let hits = known_hits.lock().unwrap().clone();
    for (p, c, what) in &known {
        if *p == prop {
            println!("KNOWN-FINDING: property={p} [{c}] {what} (seen in {} runs)", hits.get(c).copied().unwrap_or(0));
        }
    }
    let a = agg.lock().unwrap();
    let wall = t0.elapsed().as_secs_f64();
    let mut faults: BTreeMap<String, Value> = BTreeMap::new();
    for i in 0..NC {
        if a.fired.get(i).copied().unwrap_or(0) > 0 {
            faults.insert(CNAMES[i].into(), json!({"times": a.fired[i], "runs": a.fired_runs[i]}));
        }
    }
    faults.insert("preemption_inside_code_under_test".into(), json!({"times": a.preempts}));
    for (n, c) in &a.faults {
        faults.insert(n.clone(), json!({"times": c}));
    }
    let scs: Vec<_> = list.iter().map(|l| scen_by_name(l.0)).collect();
    let ev = json!({
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": a.runs,
            "distinct_nontrivial": a.inter.len(),
            "rule": "one evaluation is one whole simulated run (workload, schedule and faults drawn from its own seed) judged by the property's oracle; distinct_nontrivial counts distinct interleavings: different hashes of the sequence of (thread switched to, instrumented edge at which it happened)",
            "samples": a.samples,
            "runs_per_scenario": a.per_scen,
            "runs_with_a_fault_or_preemption": a.faulty_runs,
            "runs_and_seeds_per_hour": (a.runs as f64 / search_s.max(0.001) * 3600.0) as u64,
            "simulated_seconds": (a.sim_ns / 1_000_000_000) as u64,
            "scheduling_steps": a.steps, "thread_switches": a.switches,
            "instrumented_edges_executed": a.edges_run as u64,
            "distinct_instrumented_edges_reached": workers[0].edges(),
            "instrumented_edges_total": unsafe { kernel::NGUARDS },
            "faults_injected": faults,
            "network": {"datagrams_sent": a.net.get(0), "delivered": a.net.get(1), "lost_no_receiver_or_overflow": a.net.get(2), "duplicated": a.net.get(3), "tcp_connections": a.net.get(4), "tcp_bytes": a.net.get(5), "tcp_resets": a.net.get(6), "lost_to_partition": a.net.get(7)},
            "rare_conditions_hit": a.probes,
            "run_ends": a.whys,
            "max_threads": a.max_threads,
            "known_findings_seen": hits,
            "not_reproduced": unrepro,
            "real_components": scs.iter().map(|s| s.real).collect::<Vec<_>>(),
            "stub_components": scs.iter().map(|s| s.stub).collect::<Vec<_>>(),
        },
        "assumptions": [
            "the simulated kernel (sockets, epoll, futex, clocks) behaves as Linux does for the calls the code makes",
            "interleavings are explored at instrumented edges and system calls under sequential consistency; weak-memory effects are not modelled",
            "a clean batch of seeds is evidence, not proof"
        ],
        "wall_s": wall,
        "violations": viols,
    });
    let _ = std::fs::create_dir_all(format!("{}/evidence", root()));
    std::fs::write(format!("{}/evidence/{}.json", root(), prop), serde_json::to_vec_pretty(&ev).unwrap()).unwrap();
    println!("{} runs, {} distinct interleavings, {:.0} simulated s, {:.1} s wall; ends {:?}; probes {:?}", a.runs, a.inter.len(), a.sim_ns as f64 / 1e9, wall, a.whys, a.probes);
    if let Some(e) = herr.lock().unwrap().as_ref() {
        eprintln!("HARNESS ERROR: {e}");
        if code == 0 {
            return 3;
        }
    }
    if unrepro > 0 && code == 0 {
        eprintln!("{unrepro} violation(s) did not reproduce");
    }
    code
}

// --- minimising ------------------------------------------------------------------
fn fails(w: &Worker, s: &Spec, v: &Viol) -> Option<Outcome> {
    let o = w.run(s, 100);
    if o.viol.iter().any(|x| x.prop == v.prop && x.class == v.class) {
        Some(o)
    } else {
        None
    }
}

fn minimise(ws: &[Worker], spec: &Spec, v: &Viol, budget_s: f64) -> (Spec, u64) {
    let t0 = Instant::now();
    let w = &ws[0];
    let mut best = spec.clone();
    let mut n = 0u64;
    let mut try_ = |cand: &Spec, best: &mut Spec, n: &mut u64| -> bool {
        if t0.elapsed().as_secs_f64() > budget_s {
            return false;
        }
        *n += 1;
        if let Some(o) = fails(w, cand, v) {
            // keep what was actually used
            let mut s = o.spec.unwrap_or(cand.clone());
            s.want_log = false;
            *best = s;
            true
        } else {
            false
        }
    };
    for _round in 0..3 {
        let before = serde_json::to_string(&best).unwrap().len();
        // whole kinds
        let mut c = best.clone();
        c.preempts = Some(vec![]);
        c.choices = Some(vec![]);
        try_(&c, &mut best, &mut n);
        let mut c = best.clone();
        c.preempts = Some(vec![]);
        try_(&c, &mut best, &mut n);
        for kind in 0..NC as u8 {
            if best.choices.as_ref().unwrap().iter().any(|x| x.0 == kind) {
                let mut c = best.clone();
                c.choices.as_mut().unwrap().retain(|x| x.0 != kind);
                try_(&c, &mut best, &mut n);
            }
        }
        // plan arrays
        let keys: Vec<String> = best.plan.as_ref().and_then(|p| p.as_object()).map(|m| m.iter().filter(|(_, v)| v.is_array()).map(|(k, _)| k.clone()).collect()).unwrap_or_default();
        for key in keys {
            let mut chunk = best.plan.as_ref().unwrap()[&key].as_array().unwrap().len().div_ceil(2);
            while chunk >= 1 {
                let mut i = 0;
                loop {
                    let a = best.plan.as_ref().unwrap()[&key].as_array().unwrap().clone();
                    if i >= a.len() {
                        break;
                    }
                    let mut c = best.clone();
                    let mut b = a.clone();
                    b.drain(i..(i + chunk).min(a.len()));
                    c.plan.as_mut().unwrap()[&key] = Value::Array(b);
                    if !try_(&c, &mut best, &mut n) {
                        i += chunk;
                    }
                }
                chunk /= 2;
            }
        }
        // preemptions, then choices
        for which in 0..2 {
            let len = |s: &Spec| if which == 0 { s.preempts.as_ref().unwrap().len() } else { s.choices.as_ref().unwrap().len() };
            let mut chunk = len(&best).div_ceil(2);
            while chunk >= 1 {
                let mut i = 0;
                while i < len(&best) {
                    let mut c = best.clone();
                    let hi = (i + chunk).min(len(&best));
                    if which == 0 {
                        c.preempts.as_mut().unwrap().drain(i..hi);
                    } else {
                        c.choices.as_mut().unwrap().drain(i..hi);
                    }
                    if !try_(&c, &mut best, &mut n) {
                        i += chunk;
                    }
                    if t0.elapsed().as_secs_f64() > budget_s {
                        return (best, n);
                    }
                }
                chunk /= 2;
            }
        }
        if serde_json::to_string(&best).unwrap().len() == before {
            break;
        }
    }
    (best, n)
}

// --- replay ----------------------------------------------------------------------
fn replay(args: &[String]) -> i32 {
    let t = std::fs::read_to_string(&args[2]).expect("replay file");
    let v: Value = serde_json::from_str(&t).expect("replay file does not parse");
    let mut spec: Spec = serde_json::from_value(v["spec"].clone()).expect("spec");
    spec.want_log = true;
    let w = pool::spawn(0, pool::edge_map());
    let o = w.run(&spec, 600);
    for l in &o.log {
        println!("{l}");
    }
    if let Some(e) = &o.harness_error {
        eprintln!("HARNESS ERROR: {e}");
        return 3;
    }
    let hash = format!("{:016x}", o.hash);
    println!("trace hash {hash} (recorded {})", v["trace_hash"].as_str().unwrap_or("?"));
    let (p, c) = (v["violation"]["property"].as_str().unwrap_or(""), v["violation"]["class"].as_str().unwrap_or(""));
    for x in &o.viol {
        println!("  {} {}: {}", x.prop, x.class, x.detail);
    }
    if o.viol.iter().any(|x| x.prop == p && x.class == c) {
        println!("VIOLATION property={p} replay={}", args[2]);
        1
    } else {
        println!("the recorded violation does not occur on this tree");
        0
    }
}

fn one(args: &[String]) -> i32 {
    let name = arg(args, "--scenario").expect("--scenario");
    let seed: u64 = arg(args, "--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let spec = Spec { property: arg(args, "--property").unwrap_or("SMOKE".into()), scenario: name, seed, thorough: false, plan: None, knobs: None, choices: None, preempts: None, want_log: true, want_spec: true };
    let w = pool::spawn(0, pool::edge_map());
    let o = w.run(&spec, 600);
    for l in &o.log {
        println!("{l}");
    }
    let mut o2 = o.clone();
    o2.log.clear();
    if let Some(s) = &mut o2.spec {
        println!("plan {}", serde_json::to_string(s.plan.as_ref().unwrap()).unwrap());
        println!("knobs {:?}", s.knobs);
        o2.spec = None;
    }
    println!("{:#?}", o2);
    0
}

/// Determinism: each seed twice from scratch, then once from its recorded
/// choices; all three traces must be identical.
fn selftest(args: &[String]) -> i32 {
    let only = args.get(2).filter(|a| !a.starts_with("--")).cloned();
    let n: u64 = arg(args, "--n").and_then(|s| s.parse().ok()).unwrap_or(40);
    let edges = pool::edge_map();
    let ws: Vec<Worker> = (0..3).map(|i| pool::spawn(i, edges)).collect();
    let mut bad = 0;
    for s in scen::all() {
        if only.as_ref().map_or(false, |o| o != s.name) {
            continue;
        }
        let t0 = Instant::now();
        let mut distinct = HashSet::new();
        for i in 0..n {
            let mut spec = Spec { property: arg(args, "--property").unwrap_or("*".into()), scenario: s.name.into(), seed: kernel::h3(i, 5, 5) >> 1, thorough: false, plan: None, knobs: None, choices: None, preempts: None, want_log: true, want_spec: true };
            let a = ws[0].run(&spec, 100);
            // a different worker, and history: the second comes after other runs
            let b = ws[1].run(&spec, 100);
            let mut r = a.spec.clone().unwrap_or(spec.clone());
            r.want_log = true;
            r.want_spec = true;
            let c = ws[2].run(&r, 100);
            distinct.insert(a.ihash);
            if let Some(e) = &a.harness_error {
                println!("{} seed {}: harness error {e}", s.name, spec.seed);
                bad += 1;
            }
            if a.hash != b.hash || a.hash != c.hash {
                bad += 1;
                println!("{} seed {}: NOT DETERMINISTIC {:x} {:x} {:x} steps {} {} {} end {} {} {}", s.name, spec.seed, a.hash, b.hash, c.hash, a.steps, b.steps, c.steps, a.why, b.why, c.why);
                for (x, o) in [("b", &b), ("c", &c)] {
                    for (p, q) in a.log.iter().zip(o.log.iter()) {
                        if p != q {
                            println!("  first difference a: {p}\n  {x}: {q}");
                            break;
                        }
                    }
                }
            }
            spec.want_log = false;
        }
        println!("{}: {} seeds, {} distinct, {:.1} ms per run", s.name, n, distinct.len(), t0.elapsed().as_secs_f64() * 1000.0 / (3 * n) as f64);
    }
    let _ = child::fill;
    if bad == 0 { 0 } else { 1 }
}
