#![feature(portable_simd, alloc_error_hook)]
#![allow(clippy::needless_range_loop, clippy::too_many_arguments, clippy::type_complexity, static_mut_refs)]

mod alloc;
mod cx;
mod fleet;
mod gen;
mod host;
mod member;
mod minimise;
mod props;
mod rig;
mod rng;
mod sched;
mod snap;
mod stream;
mod supervisor;
mod util;

use cx::{Cx, Prop};
pub use host::*;
use rng::{hash_str, mix, Fnv, Rng};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::io::Write;

#[global_allocator]
static GLOBAL: alloc::SimAlloc = alloc::SimAlloc;

extern "C" {
    fn setitimer(which: i32, new: *const [i64; 4], old: *mut [i64; 4]) -> i32;
    fn setrlimit(resource: i32, rlim: *const [u64; 2]) -> i32;
}

/// Kills the process (SIGPROF) after this much CPU time: a run that does not end.
pub fn cpu_limit(secs: i64) {
    let v = [0, 0, secs, 0];
    unsafe {
        setitimer(2, &v, std::ptr::null_mut());
    }
}

pub fn run_seed(seed: u64, prop: &str, idx: u64) -> u64 {
    mix(mix(seed, hash_str(prop)), idx)
}

pub fn make_plan(p: &Prop, seed: u64, idx: u64, thorough: bool) -> Value {
    let mut rng = Rng::new(run_seed(seed, p.id, idx));
    (p.gen)(&mut rng, thorough)
}

pub struct Known {
    pub class: String,
    pub matching: String,
    pub what: String,
}

pub fn known_findings(prop: &str) -> Vec<Known> {
    let path = format!("{}/known_findings.txt", supervisor::verif_dir());
    let mut out = Vec::new();
    for l in std::fs::read_to_string(path).unwrap_or_default().lines() {
        if let Some(rest) = l.strip_prefix("known: property=") {
            let (id, rest) = rest.split_once(' ').unwrap_or((rest, ""));
            if id != prop {
                continue;
            }
            let get = |k: &str| -> String {
                rest.split_once(&format!("{k}=\""))
                    .and_then(|(_, r)| r.split_once('"'))
                    .map(|(v, _)| v.to_string())
                    .unwrap_or_default()
            };
            out.push(Known { class: get("class"), matching: get("match"), what: get("what") });
        }
    }
    out
}

fn worker(args: &[String]) {
    let p = props::find(&args[0]).expect("property");
    let seed: u64 = args[1].parse().unwrap();
    let thorough = args[2] == "thorough";
    let start: u64 = args[3].parse().unwrap();
    let stride: u64 = args[4].parse().unwrap();
    let total: u64 = args[5].parse().unwrap();
    let wall: u64 = args[6].parse().unwrap();
    let out_path = &args[7];
    let hashes = args.get(8).map(|s| s == "hashes").unwrap_or(false);
    let known = known_findings(p.id);
    let t0 = std::time::Instant::now();

    let mut out = std::io::stdout();
    let mut faults: BTreeMap<String, u64> = BTreeMap::new();
    let mut probes: BTreeMap<String, u64> = BTreeMap::new();
    let mut states: BTreeSet<u64> = BTreeSet::new();
    let mut logs: BTreeSet<u64> = BTreeSet::new();
    let mut known_hits: BTreeMap<String, u64> = BTreeMap::new();
    let (mut runs, mut steps, mut sim_us, mut nontrivial) = (0u64, 0u64, 0u64, 0u64);
    let mut samples: Vec<Value> = Vec::new();
    let mut idx = start;
    while idx < total {
        if wall > 0 && t0.elapsed().as_secs() >= wall {
            break;
        }
        let _ = out.write_all(format!("B {idx}\n").as_bytes());
        let _ = out.flush();
        cpu_limit(20);
        let plan = make_plan(p, seed, idx, thorough);
        let mut cx = Cx::new();
        cx.thorough = thorough;
        let r = run_checked(p, &plan, &mut cx);
        if let Err(v) = r {
            let k = known
                .iter()
                .find(|k| v.class == k.class && (k.matching.is_empty() || v.detail.contains(&k.matching)));
            match k {
                Some(k) => *known_hits.entry(k.what.clone()).or_insert(0) += 1,
                // real threads: what no fresh process shows again was the machine's doing
                None if p.id == "C05" && (0..4).all(|_| supervisor::exec_child(p.id, &plan, 20).is_none()) => {
                    cx.probe("not reproduced in four fresh processes and set aside");
                }
                None => {
                    let _ = out.write_all(
                        format!("V {}\n", json!({"idx": idx, "class": v.class, "detail": v.detail})).as_bytes(),
                    );
                    let _ = out.flush();
                    break;
                }
            }
        }
        if hashes {
            println!("H {idx} {:016x}", cx.hash());
        }
        runs += 1;
        steps += cx.steps;
        sim_us += cx.sim_us;
        for (k, v) in &cx.faults {
            *faults.entry(k.clone()).or_insert(0) += v;
        }
        for (k, v) in &cx.probes {
            *probes.entry(k.clone()).or_insert(0) += v;
        }
        if cx.nontrivial {
            nontrivial += 1;
            logs.insert(cx.hash());
        }
        if states.len() < 400_000 {
            states.extend(cx.states.iter());
        }
        if samples.is_empty() && cx.nontrivial {
            samples.push(json!({"run": idx, "seed": run_seed(seed, p.id, idx), "plan": plan}));
        }
        idx += stride;
    }
    cpu_limit(0);
    let mut bin: Vec<u8> = Vec::new();
    bin.extend_from_slice(&(logs.len() as u64).to_le_bytes());
    for h in &logs {
        bin.extend_from_slice(&h.to_le_bytes());
    }
    for h in &states {
        bin.extend_from_slice(&h.to_le_bytes());
    }
    let _ = std::fs::write(out_path, bin);
    println!(
        "S {}",
        json!({"runs": runs, "steps": steps, "sim_us": sim_us, "nontrivial": nontrivial,
               "faults": faults, "probes": probes, "samples": samples, "known": known_hits})
    );
}

fn exec_plan(args: &[String]) {
    let p = props::find(&args[0]).expect("property");
    let plan: Value = serde_json::from_str(&std::fs::read_to_string(&args[1]).unwrap()).unwrap();
    let limit: i64 = args.get(2).and_then(|s| s.parse().ok()).unwrap_or(20);
    let verbose = args.get(3).map(|s| s == "trace").unwrap_or(false);
    cpu_limit(limit);
    let mut cx = Cx::new();
    cx.verbose = verbose;
    let r = run_checked(p, &plan, &mut cx);
    for t in &cx.trace {
        println!("T {t}");
    }
    match r {
        Ok(()) => println!("R ok {:016x}", cx.hash()),
        Err(v) => println!("R v {}", json!({"class": v.class, "detail": v.detail})),
    }
}

fn main() {
    install_hooks();
    // no core files
    unsafe {
        setrlimit(4, &[0, 0]);
    }
    let args: Vec<String> = std::env::args().skip(1).collect();
    let code = match args.first().map(|s| s.as_str()) {
        Some("check") => supervisor::check(&args[1..]),
        Some("worker") => {
            worker(&args[1..]);
            0
        }
        Some("exec-plan") => {
            exec_plan(&args[1..]);
            0
        }
        Some("plan") => {
            let p = props::find(&args[1]).expect("property");
            let seed = args[2].parse().unwrap();
            let idx = args[3].parse().unwrap();
            println!("{}", serde_json::to_string_pretty(&make_plan(p, seed, idx, args.get(4).is_some())).unwrap());
            0
        }
        Some("serve") => {
            fleet::serve();
            0
        }
        Some("replay") => supervisor::replay(&args[1..]),
        Some("selftest") => supervisor::selftest(&args[1..]),
        Some("list") => {
            for p in props::ALL {
                println!("{}", p.id);
            }
            0
        }
        _ => {
            eprintln!("usage: ozzsim check PROP [--tier T] | replay FILE | plan PROP SEED IDX | selftest | list");
            2
        }
    };
    let _ = Fnv::new();
    std::process::exit(code);
}
