//! One simulated run, in a process forked for it.
use crate::kernel::{self, Knobs, ReplayTab};
use crate::scen::{self, Tier};
use crate::sim::Rng;
use serde::{Deserialize, Serialize};
use serde_json::Value;

/// Everything that determines a run. With `choices` absent they are drawn from
/// the seed; with `choices` present exactly these non-default choices are made.
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Spec {
    pub property: String,
    pub scenario: String,
    pub seed: u64,
    pub thorough: bool,
    #[serde(default)]
    pub plan: Option<Value>,
    #[serde(default)]
    pub knobs: Option<Knobs>,
    #[serde(default)]
    pub choices: Option<Vec<(u8, u64, u64)>>,
    #[serde(default)]
    pub preempts: Option<Vec<(u64, u64, u64)>>,
    #[serde(default)]
    pub want_log: bool,
    #[serde(default)]
    pub want_spec: bool,
}

#[derive(Serialize, Deserialize, Clone, Debug, Default)]
pub struct Viol {
    pub prop: String,
    pub class: String,
    pub detail: String,
}

#[derive(Serialize, Deserialize, Clone, Debug, Default)]
pub struct Outcome {
    pub why: String,
    pub viol: Vec<Viol>,
    pub hash: u64,
    pub ihash: u64,
    pub steps: u64,
    pub switches: u64,
    pub edges_run: u64,
    pub sim_ns: u64,
    pub threads: u64,
    pub fired: Vec<u64>,
    pub preempts_fired: u64,
    pub net: Vec<u64>,
    pub faults: Vec<(String, u64)>,
    pub probes: Vec<(String, u64)>,
    pub panics: Vec<(String, String)>,
    pub log: Vec<String>,
    pub heap: u64,
    pub harness_error: Option<String>,
    pub spec: Option<Spec>,
}

static mut SPEC: Option<Spec> = None;
static mut OUT: (*mut u8, usize) = (std::ptr::null_mut(), 0);

pub fn fill(spec: &mut Spec) {
    let sc = scen::all().into_iter().find(|s| s.name == spec.scenario).expect("unknown scenario");
    let tier = if spec.thorough { Tier::Thorough } else { Tier::Quick };
    let mut r = Rng(kernel::h3(spec.seed, 1, 0));
    let mut r2 = Rng(kernel::h3(spec.seed, 2, 0));
    if spec.plan.is_none() {
        spec.plan = Some((sc.gen)(&mut r, &spec.property, tier));
    }
    if spec.knobs.is_none() {
        let mut k = Knobs::calm();
        (sc.tune)(&mut r2, &mut k, spec.plan.as_ref().unwrap());
        spec.knobs = Some(k);
    }
}

/// Runs `spec` in this process and never returns.
pub fn run(mut spec: Spec, out: *mut u8, cap: usize) -> ! {
    fill(&mut spec);
    // Normalise, so that generated and replayed runs start alike.
    let text = serde_json::to_string(&spec).unwrap();
    let spec: Spec = serde_json::from_str(&text).unwrap();
    let replay = spec.choices.is_some() || spec.preempts.is_some();
    let mut tab = ReplayTab::default();
    tab.choices = spec.choices.clone().unwrap_or_default();
    tab.choices.sort();
    tab.preempts = spec.preempts.clone().unwrap_or_default();
    tab.preempts.sort();
    let knobs = spec.knobs.clone().unwrap();
    let (seed, want_log) = (spec.seed, spec.want_log);
    let sc = scen::all().into_iter().find(|s| s.name == spec.scenario).unwrap();
    unsafe {
        OUT = (out, cap);
        kernel::REPLAY = Some(tab);
        kernel::FINISH = Some(finish);
        SPEC = Some(spec);
        kernel::interpose::warm();
    }
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        if kernel::on() {
            crate::slog!("panic at {loc}: {msg}");
            kernel::k().panics.push((loc, msg));
        } else {
            eprintln!("panic outside a run at {loc}: {msg}");
        }
    }));
    kernel::start(seed, knobs, replay);
    kernel::k().log_on = want_log;
    // The scenario gets a fresh thread: per-thread state is then the same
    // whatever this process did before.
    let plan = unsafe { SPEC.as_ref().unwrap().plan.clone().unwrap() };
    let f = sc.run;
    let h = std::thread::spawn(move || f(&plan));
    let r = h.join();
    kernel::finish(if r.is_ok() { "done" } else { "scenario-panic" })
}

fn finish(why: &str) -> ! {
    unsafe {
        kernel::ACTIVE = false;
        let k = kernel::k();
        let spec = SPEC.as_ref().unwrap();
        let sc = scen::all().into_iter().find(|s| s.name == spec.scenario).unwrap();
        let mut o = Outcome {
            why: why.into(),
            hash: kernel::mix(k.hash ^ k.now ^ k.seq ^ kernel::BB),
            ihash: k.ihash,
            steps: k.steps,
            switches: k.switches,
            edges_run: kernel::BB,
            sim_ns: k.now - 1_000_000_000,
            threads: k.th.len() as u64,
            fired: k.fired.to_vec(),
            preempts_fired: k.rec_pre.len() as u64,
            net: k.net.counts.to_vec(),
            faults: k.event_faults.iter().map(|(a, b)| (a.clone(), *b)).collect(),
            probes: k.probes.iter().map(|(a, b)| (a.clone(), *b)).collect(),
            panics: k.panics.clone(),
            log: k.log.clone(),
            heap: kernel::alloc::used() as u64,
            ..Default::default()
        };
        for v in &k.viol {
            o.viol.push(Viol { prop: v.prop.clone(), class: v.class.clone(), detail: v.detail.clone() });
        }
        for (loc, msg) in &k.panics {
            if loc.starts_with("src/") {
                o.harness_error = Some(format!("panic at {loc}: {msg}"));
            } else {
                let file = loc.rsplit_once(':').map(|x| x.0).unwrap_or(loc);
                let file = file.rsplit("crates/").next().unwrap_or(file);
                o.viol.push(Viol { prop: spec.property.clone(), class: format!("panic:{file}"), detail: format!("panic at {loc}: {msg}") });
            }
        }
        match why {
            "done" | "scenario-panic" => {}
            "deadlock" if sc.deadlock_is_violation => {
                o.viol.push(Viol { prop: spec.property.clone(), class: "deadlock".into(), detail: "every thread is blocked and no timer or message is pending".into() });
            }
            "step-limit" | "edge-limit" => {
                o.viol.push(Viol { prop: spec.property.clone(), class: "livelock".into(), detail: format!("no end of the run after {} scheduling steps, {} edges", k.steps, kernel::BB) });
            }
            w => o.harness_error = Some(w.to_string()),
        }
        if !o.viol.is_empty() || spec.want_spec {
            let mut s = spec.clone();
            s.choices = Some(k.rec.iter().copied().collect());
            s.preempts = Some(k.rec_pre.iter().copied().collect());
            o.spec = Some(s);
        }
        let mut text = serde_json::to_vec(&o).unwrap();
        if text.len() + 8 > OUT.1 {
            o.log.clear();
            o.spec = None;
            text = serde_json::to_vec(&o).unwrap();
        }
        *(OUT.0 as *mut u64) = text.len() as u64;
        std::ptr::copy_nonoverlapping(text.as_ptr(), OUT.0.add(8), text.len());
        kernel::raw(libc::SYS_exit_group, 0, 0, 0, 0, 0, 0);
        unreachable!()
    }
}
