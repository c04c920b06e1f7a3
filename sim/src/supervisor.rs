//! Runs a batch of simulated executions of one property in worker processes, reports violations
//! with a minimised replay file and writes the evidence.

use crate::cx::Prop;
use crate::minimise::Minimiser;
use crate::{known_findings, make_plan, props, run_seed};
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::io::{BufRead, BufReader, Read};
use std::os::unix::process::ExitStatusExt;
use std::process::{Child, Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::mpsc;
use std::time::{Duration, Instant};

pub fn verif_dir() -> String {
    std::env::var("OZZSIM_DIR").unwrap_or_else(|_| "/verif".to_string())
}

fn exe() -> std::path::PathBuf {
    std::env::current_exe().unwrap()
}

fn scratch() -> std::path::PathBuf {
    static N: AtomicU64 = AtomicU64::new(0);
    let d = std::env::temp_dir().join(format!("ozzsim.{}", std::process::id()));
    let _ = std::fs::create_dir_all(&d);
    d.join(format!("{}", N.fetch_add(1, Ordering::SeqCst)))
}

fn scratch_clean() {
    let d = std::env::temp_dir().join(format!("ozzsim.{}", std::process::id()));
    let _ = std::fs::remove_dir_all(d);
}

fn cpu_ticks(pid: u32) -> u64 {
    let s = std::fs::read_to_string(format!("/proc/{pid}/stat")).unwrap_or_default();
    let rest = s.rsplit(')').next().unwrap_or("");
    let f: Vec<&str> = rest.split_whitespace().collect();
    f.get(11).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0)
        + f.get(12).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0)
}

fn signal_class(st: &std::process::ExitStatus) -> String {
    match st.signal() {
        Some(27) => "hang".to_string(),
        Some(9) => "stuck".to_string(),
        Some(s) => format!("signal {s}"),
        None => format!("exit {}", st.code().unwrap_or(-1)),
    }
}

/// Executes a plan in a child process: None when it passes, otherwise class and detail.
pub fn exec_child(prop: &str, plan: &Value, cpu: u64) -> Option<(String, String)> {
    exec_child_trace(prop, plan, cpu, false).0
}

pub fn exec_child_trace(prop: &str, plan: &Value, cpu: u64, trace: bool) -> (Option<(String, String)>, Vec<String>, String) {
    let f = scratch();
    std::fs::write(&f, plan.to_string()).unwrap();
    let mut c = Command::new(exe());
    c.args(["exec-plan", prop, f.to_str().unwrap(), &cpu.to_string()]);
    if trace {
        c.arg("trace");
    }
    let mut ch = match c.stdout(Stdio::piped()).stderr(Stdio::null()).spawn() {
        Ok(c) => c,
        Err(_) => return (None, Vec::new(), String::new()),
    };
    let mut so = ch.stdout.take().unwrap();
    let h = std::thread::spawn(move || {
        let mut s = String::new();
        let _ = so.read_to_string(&mut s);
        s
    });
    let t0 = Instant::now();
    let mut idle = (0u64, Instant::now());
    let st = loop {
        match ch.try_wait() {
            Ok(Some(s)) => break s,
            _ => {
                let ticks = cpu_ticks(ch.id());
                if ticks != idle.0 {
                    idle = (ticks, Instant::now());
                }
                // blocked without using the processor, or far too long
                if idle.1.elapsed() > Duration::from_secs(cpu.max(8)) || t0.elapsed() > Duration::from_secs(120) {
                    let _ = ch.kill();
                }
                std::thread::sleep(Duration::from_millis(1));
            }
        }
    };
    let out = h.join().unwrap_or_default();
    let _ = std::fs::remove_file(&f);
    let mut trace = Vec::new();
    let mut res = None;
    let mut hash = String::new();
    let mut seen = false;
    for l in out.lines() {
        if let Some(t) = l.strip_prefix("T ") {
            trace.push(t.to_string());
        } else if let Some(h) = l.strip_prefix("R ok ") {
            seen = true;
            hash = h.to_string();
        } else if let Some(v) = l.strip_prefix("R v ") {
            seen = true;
            let v: Value = serde_json::from_str(v).unwrap_or(Value::Null);
            res = Some((
                v["class"].as_str().unwrap_or("").to_string(),
                v["detail"].as_str().unwrap_or("").to_string(),
            ));
        }
    }
    if !seen {
        let c = signal_class(&st);
        res = Some((c.clone(), format!("the process ended abnormally: {c}")));
    }
    (res, trace, hash)
}

struct Found {
    idx: u64,
    class: String,
    detail: String,
}

enum Msg {
    Line(usize, String),
    End(usize),
}

pub struct Batch {
    found: Option<Found>,
    summaries: Vec<Value>,
    logs: HashSet<u64>,
    states: HashSet<u64>,
    pub hashes: BTreeMap<u64, String>,
    stopped: bool,
}

pub fn batch(p: &Prop, seed: u64, tier: &str, runs: u64, workers: u64, wall: u64, hashes: bool) -> Batch {
    let (tx, rx) = mpsc::channel();
    let mut kids: Vec<(Child, std::path::PathBuf, Option<u64>, Instant, u64)> = Vec::new();
    for w in 0..workers {
        let f = scratch();
        let mut c = Command::new(exe());
        c.args([
            "worker",
            p.id,
            &seed.to_string(),
            tier,
            &w.to_string(),
            &workers.to_string(),
            &runs.to_string(),
            &wall.to_string(),
            f.to_str().unwrap(),
        ]);
        if hashes {
            c.arg("hashes");
        }
        let mut ch = c.stdout(Stdio::piped()).stderr(Stdio::null()).spawn().expect("spawn worker");
        let so = ch.stdout.take().unwrap();
        let tx = tx.clone();
        std::thread::spawn(move || {
            for l in BufReader::new(so).lines() {
                match l {
                    Ok(l) => {
                        if tx.send(Msg::Line(w as usize, l)).is_err() {
                            return;
                        }
                    }
                    Err(_) => break,
                }
            }
            let _ = tx.send(Msg::End(w as usize));
        });
        kids.push((ch, f, None, Instant::now(), 0));
    }
    let mut b = Batch {
        found: None,
        summaries: Vec::new(),
        logs: HashSet::new(),
        states: HashSet::new(),
        hashes: BTreeMap::new(),
        stopped: false,
    };
    let mut open = workers;
    let mut done = vec![false; workers as usize];
    let mut got_summary = vec![false; workers as usize];
    let mut first: Option<Instant> = None;
    while open > 0 {
        match rx.recv_timeout(Duration::from_millis(500)) {
            Ok(Msg::Line(w, l)) => {
                if let Some(i) = l.strip_prefix("B ") {
                    kids[w].2 = i.parse().ok();
                    kids[w].3 = Instant::now();
                } else if let Some(v) = l.strip_prefix("V ") {
                    let v: Value = serde_json::from_str(v).unwrap_or(Value::Null);
                    let f = Found {
                        idx: v["idx"].as_u64().unwrap_or(0),
                        class: v["class"].as_str().unwrap_or("").into(),
                        detail: v["detail"].as_str().unwrap_or("").into(),
                    };
                    if b.found.as_ref().map(|x| f.idx < x.idx).unwrap_or(true) {
                        b.found = Some(f);
                    }
                    first.get_or_insert(Instant::now());
                } else if let Some(s) = l.strip_prefix("S ") {
                    got_summary[w] = true;
                    if let Ok(v) = serde_json::from_str(s) {
                        b.summaries.push(v);
                    }
                } else if let Some(h) = l.strip_prefix("H ") {
                    let (i, h) = h.split_once(' ').unwrap();
                    b.hashes.insert(i.parse().unwrap(), h.to_string());
                }
            }
            Ok(Msg::End(w)) => {
                open -= 1;
                done[w] = true;
                let st = kids[w].0.wait().expect("wait");
                if !got_summary[w] && b.found.is_none() {
                    let class = signal_class(&st);
                    b.found = Some(Found {
                        idx: kids[w].2.unwrap_or(0),
                        class: class.clone(),
                        detail: format!("the simulated process ended abnormally: {class}"),
                    });
                    first.get_or_insert(Instant::now());
                }
                if let Ok(bin) = std::fs::read(&kids[w].1) {
                    let u = |i: usize| u64::from_le_bytes(bin[i * 8..i * 8 + 8].try_into().unwrap());
                    if bin.len() >= 8 {
                        let n = u(0) as usize;
                        for i in 0..n {
                            b.logs.insert(u(1 + i));
                        }
                        for i in 1 + n..bin.len() / 8 {
                            b.states.insert(u(i));
                        }
                    }
                    let _ = std::fs::remove_file(&kids[w].1);
                }
            }
            Err(_) => {}
        }
        // a violation stops the batch shortly afterwards
        if let Some(t) = first {
            if t.elapsed() > Duration::from_millis(200) {
                for (w, k) in kids.iter_mut().enumerate() {
                    if !done[w] {
                        let _ = k.0.kill();
                    }
                }
                b.stopped = true;
            }
        } else {
            for (w, k) in kids.iter_mut().enumerate() {
                if done[w] || k.3.elapsed() < Duration::from_secs(45) {
                    continue;
                }
                // no progress: blocked for good when it uses no processor time at all
                let t = cpu_ticks(k.0.id());
                if t == k.4 {
                    let _ = k.0.kill();
                } else {
                    k.4 = t;
                    k.3 = Instant::now();
                }
            }
        }
    }
    b
}

pub fn check(args: &[String]) -> i32 {
    let p = match props::find(&args[0]) {
        Some(p) => p,
        None => {
            eprintln!("no such property");
            return 2;
        }
    };
    let mut tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
    let mut i = 1;
    let mut runs_override = None;
    while i < args.len() {
        match args[i].as_str() {
            "--tier" => {
                tier = args[i + 1].clone();
                i += 1;
            }
            "--runs" => {
                runs_override = args[i + 1].parse().ok();
                i += 1;
            }
            _ => {}
        }
        i += 1;
    }
    if tier != "thorough" {
        tier = "quick".into();
    }
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let workers: u64 = std::env::var("OZZSIM_WORKERS").ok().and_then(|s| s.parse().ok()).unwrap_or(8);
    let (runs, wall) = if tier == "thorough" { (p.runs.1, 800) } else { (p.runs.0, 240) };
    let runs = runs_override.unwrap_or(runs);
    println!("property={} tier={tier} seed={seed} runs={runs} workers={workers}", p.id);
    let t0 = Instant::now();
    let b = batch(p, seed, &tier, runs, workers, wall, false);
    let sim_wall = t0.elapsed().as_secs_f64();

    let known = known_findings(p.id);
    for k in &known {
        println!("KNOWN-FINDING: property={} {}", p.id, k.what);
    }

    let mut code = 0;
    let mut nviol = 0;
    if let Some(f) = &b.found {
        code = 1;
        nviol = 1;
        let path = report(p, seed, &tier, f);
        println!("VIOLATION property={} replay={}", p.id, path);
    }
    evidence(p, seed, &tier, &b, sim_wall, t0.elapsed().as_secs_f64(), workers, nviol, runs);
    scratch_clean();
    code
}

fn report(p: &Prop, seed: u64, tier: &str, f: &Found) -> String {
    let thorough = tier == "thorough";
    println!("run {} (seed {}): {}: {}", f.idx, run_seed(seed, p.id, f.idx), f.class, f.detail);
    let plan = make_plan(p, seed, f.idx, thorough);
    let mut class = f.class.clone();
    let mut detail = f.detail.clone();
    let mut min = plan.clone();
    let mut tried = 0;
    let mut exact = false;
    let mut trace = Vec::new();
    let first = exec_child(p.id, &plan, 20);
    if let Some((c, _)) = first {
        class = c;
        let secs = if class == "hang" || class == "stuck" { 40 } else { 45 };
        let mut m = Minimiser {
            prop: p.id,
            class: class.clone(),
            deadline: Instant::now() + Duration::from_secs(secs),
            tried: 0,
        };
        min = m.run(plan.clone());
        tried = m.tried;
        let (r1, t1, _) = exec_child_trace(p.id, &min, 20, true);
        let r2 = exec_child(p.id, &min, 20);
        exact = r1.is_some() && r1 == r2;
        trace = t1;
        if let Some((_, d)) = r1 {
            detail = d;
        } else {
            min = plan.clone();
        }
    }
    let dir = format!("{}/replays", verif_dir());
    let _ = std::fs::create_dir_all(&dir);
    let path = format!("{dir}/{}-{}-{}.json", p.id, seed, f.idx);
    let doc = json!({
        "property": p.id, "verif_seed": seed, "run": f.idx, "run_seed": run_seed(seed, p.id, f.idx),
        "tier": tier, "class": class, "detail": detail,
        "reproduced_exactly_in_fresh_processes": exact,
        "minimisation_candidates": tried,
        "original_plan_bytes": plan.to_string().len(), "plan_bytes": min.to_string().len(),
        "plan": min, "trace": trace,
        "replay_with": format!("/verif/check.sh replay {path}"),
    });
    let _ = std::fs::write(&path, serde_json::to_string_pretty(&doc).unwrap());
    println!("minimised: {class}: {detail}");
    path
}

pub fn replay(args: &[String]) -> i32 {
    let doc: Value = serde_json::from_str(&std::fs::read_to_string(&args[0]).expect("replay file")).expect("json");
    let id = doc["property"].as_str().unwrap();
    let (r, trace, _) = exec_child_trace(id, &doc["plan"], 20, true);
    for t in trace {
        println!("{t}");
    }
    scratch_clean();
    match r {
        Some((c, d)) => {
            println!("{c}: {d}");
            println!("VIOLATION property={id} replay={}", args[0]);
            1
        }
        None => {
            println!("no violation");
            0
        }
    }
}

fn sum_maps(b: &Batch, key: &str) -> BTreeMap<String, u64> {
    let mut m = BTreeMap::new();
    for s in &b.summaries {
        if let Some(o) = s[key].as_object() {
            for (k, v) in o {
                *m.entry(k.clone()).or_insert(0) += v.as_u64().unwrap_or(0);
            }
        }
    }
    m
}

fn evidence(p: &Prop, seed: u64, tier: &str, b: &Batch, sim_wall: f64, wall: f64, workers: u64, nviol: i64, planned: u64) {
    let tot = |k: &str| -> u64 { b.summaries.iter().map(|s| s[k].as_u64().unwrap_or(0)).sum() };
    let runs = tot("runs");
    let mut samples: Vec<Value> = Vec::new();
    for s in &b.summaries {
        for x in s["samples"].as_array().unwrap_or(&Vec::new()) {
            if samples.len() < 3 {
                let t = x.to_string();
                if t.len() < 6000 {
                    samples.push(x.clone());
                } else {
                    samples.push(json!({"run": x["run"], "seed": x["seed"], "plan_prefix": t.chars().take(1500).collect::<String>()}));
                }
            }
        }
    }
    let faults = sum_maps(b, "faults");
    let injected: u64 = faults.values().sum();
    let doc = json!({
        "property": p.id,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": runs,
            "distinct_nontrivial": b.logs.len(),
            "rule": p.rule,
            "samples": samples,
            "planned_runs": planned,
            "runs_per_hour": (runs as f64 / sim_wall.max(1e-3) * 3600.0) as u64,
            "seeds_per_hour": (runs as f64 / sim_wall.max(1e-3) * 3600.0) as u64,
            "steps": tot("steps"),
            "simulated_time_s": tot("sim_us") as f64 / 1e6,
            "nontrivial_runs": tot("nontrivial"),
            "faults_injected": faults,
            "faults_total": injected,
            "distinct_states_or_interleavings": b.states.len(),
            "distinct_measure": p.measure,
            "probes": sum_maps(b, "probes"),
            "known_findings_hit": sum_maps(b, "known"),
            "components_real": p.real,
            "components_stub": p.stub,
            "worker_processes": workers,
            "batch_stopped_early": b.stopped,
        },
        "assumptions": p.assumptions,
        "wall_s": wall,
        "violations": nviol,
    });
    let dir = format!("{}/evidence", verif_dir());
    let _ = std::fs::create_dir_all(&dir);
    let _ = std::fs::write(format!("{dir}/{}.json", p.id), serde_json::to_string_pretty(&doc).unwrap());
    println!(
        "runs={} nontrivial={} distinct={} states={} faults={} steps={} sim_s={:.1} wall_s={:.1} violations={}",
        runs,
        tot("nontrivial"),
        b.logs.len(),
        b.states.len(),
        injected,
        tot("steps"),
        tot("sim_us") as f64 / 1e6,
        wall,
        nviol
    );
}

/// Same seeds at different worker counts and in plan-by-plan fresh processes: event logs must agree.
pub fn selftest(args: &[String]) -> i32 {
    let runs: u64 = args.first().and_then(|s| s.parse().ok()).unwrap_or(400);
    let only = args.get(1).cloned();
    let mut bad = 0;
    for p in props::ALL {
        if only.as_ref().map(|o| o != p.id).unwrap_or(false) {
            continue;
        }
        let mut diffs = 0;
        let mut fresh = 0;
        for seed in [1u64, 2, 77] {
            let a = batch(p, seed, "quick", runs, 1, 0, true);
            let b = batch(p, seed, "quick", runs, 8, 0, true);
            let c = batch(p, seed, "quick", runs, 3, 0, true);
            for (i, h) in &a.hashes {
                if b.hashes.get(i) != Some(h) || c.hashes.get(i) != Some(h) {
                    diffs += 1;
                    if diffs < 5 {
                        println!("{} seed {seed} run {i}: {h} {:?} {:?}", p.id, b.hashes.get(i), c.hashes.get(i));
                    }
                }
            }
            if a.hashes.len() != runs as usize {
                diffs += 1;
                println!("{}: {} of {runs} runs", p.id, a.hashes.len());
            }
            for i in (0..runs).step_by((runs / 10).max(1) as usize) {
                let plan = make_plan(p, seed, i, false);
                let (_, _, h) = exec_child_trace(p.id, &plan, 20, true);
                fresh += 1;
                if a.hashes.get(&i) != Some(&h) {
                    diffs += 1;
                    println!("{} seed {seed} run {i}: fresh process {h} differs from {:?}", p.id, a.hashes.get(&i));
                }
            }
        }
        println!("selftest {} : {} runs x 3 worker counts x 3 seeds, {fresh} fresh processes, {diffs} differences", p.id, runs);
        bad += diffs;
    }
    scratch_clean();
    if bad == 0 {
        0
    } else {
        2
    }
}
