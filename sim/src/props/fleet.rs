//! C19: the members of a mixed fleet compute the same bits.

use crate::cx::{fail, plan, Cx, Prop, Res, BAD_PLAN};
use crate::fleet::{ask, missing, recv, send, MEMBERS};
use crate::member::observe;
use crate::props;
use crate::props::snapshot::{whole, Results};
use crate::rng::{mix, Rng};
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};

#[derive(Serialize, Deserialize, Clone, Debug)]
struct Plan {
    scenario: String,
    plan: Value,
    /// A history that moves: who runs the stretches between its crashes (0: the reference).
    #[serde(default)]
    hops: Vec<u32>,
}

const SCENARIOS: &[(&str, u64)] = &[
    ("C01", 3), ("C02", 1), ("C03", 3), ("C04", 4), ("C07", 2), ("C08", 3), ("C12", 3), ("C13", 3), ("C14", 4), ("C15", 3), ("C16", 4), ("C17", 6), ("C18", 3),
    ("MATH", 3),
    ("handover", 6),
];

fn gen(rng: &mut Rng, thorough: bool) -> Value {
    let all: u64 = SCENARIOS.iter().map(|s| s.1).sum();
    let mut x = rng.below(all);
    let s = SCENARIOS
        .iter()
        .find(|s| {
            let hit = x < s.1;
            x = x.wrapping_sub(s.1);
            hit
        })
        .unwrap();
    let (id, hops) = match s.0 {
        "handover" => ("C03", (0..rng.usize(2, 6)).map(|_| rng.below(1 + MEMBERS.len() as u64) as u32).collect()),
        id => (id, Vec::new()),
    };
    let sub = (props::find(id).unwrap().gen)(rng, thorough);
    serde_json::to_value(Plan { scenario: s.0.into(), plan: sub, hops }).unwrap()
}

fn word(v: &Value, k: &str) -> String {
    v[k].as_str().unwrap_or("").to_string()
}

/// The first entry of the two logs that differs.
fn differing(p: &Prop, sub: &Value, req: &Value, i: usize, thorough: bool) -> String {
    let mut req = req.clone();
    req["chain"] = json!(true);
    let a = observe(p, sub, thorough, true).0;
    let b = ask(i, &req.to_string(), 120);
    let (Some(a), Some(b)) = (a["chain"].as_array(), b["chain"].as_array()) else { return "(no log)".into() };
    for k in 0..a.len().max(b.len()) {
        let (x, y) = (a.get(k), b.get(k));
        if x.map(|x| &x[0]) == y.map(|y| &y[0]) {
            continue;
        }
        let t = |x: Option<&Value>| x.map(|x| x[1].as_str().unwrap_or("").to_string()).unwrap_or("(end of the log)".into());
        let (x, y) = (t(x), t(y));
        let (xs, ys): (Vec<&str>, Vec<&str>) = (x.split(", ").collect(), y.split(", ").collect());
        let j = (0..xs.len().min(ys.len())).find(|&j| xs[j] != ys[j]).unwrap_or(0);
        return format!("entry {k} value {j}: {} and {}", xs[j], ys[j]);
    }
    "(the logs agree when they are recorded)".into()
}

fn exec(v: &Value, cx: &mut Cx) -> Res {
    let p: Plan = plan(v)?;
    if let Some(m) = missing() {
        eprintln!("not built: {m}");
        std::process::exit(2);
    }
    if p.scenario == "handover" {
        return handover(&p, cx);
    }
    let Some(sub) = SCENARIOS.iter().find(|s| s.0 == p.scenario).and_then(|s| props::find(s.0)) else {
        return fail(BAD_PLAN, "scenario");
    };
    let req = json!({"p": p.scenario, "plan": p.plan, "t": cx.thorough});
    let text = req.to_string();
    for i in 0..MEMBERS.len() {
        send(i, &text);
    }
    let (r, inner) = observe(sub, &p.plan, cx.thorough, false);
    let mut answers: Vec<Value> = (0..MEMBERS.len()).map(|i| recv(i, 120)).collect();
    if word(&r, "class") == BAD_PLAN {
        return fail(BAD_PLAN, word(&r, "detail"));
    }
    for (k, n) in inner.faults {
        *cx.faults.entry(k).or_insert(0) += n;
    }
    for s in inner.states {
        cx.states.insert(mix(s, crate::rng::hash_str(&p.scenario)));
    }
    cx.steps += inner.steps * (1 + MEMBERS.len() as u64);
    cx.sim_us += inner.sim_us;
    cx.nontrivial = inner.nontrivial;
    cx.probe(&format!("scenario of {}", p.scenario));
    cx.u(crate::rng::hash_str(&p.scenario));
    cx.s(&word(&r, "h"));
    if word(&r, "r") != "ok" {
        cx.probe("the reference does not pass the scenario itself");
    }
    for (i, m) in MEMBERS.iter().enumerate() {
        // a holder of a lock that panics can not be simulated without unwinding
        if r["panics"].as_u64() != Some(0) && word(&answers[i], "r") != "ok" && m.name.starts_with("wasm") {
            cx.probe("needs unwinding, not compared on wasm32");
            continue;
        }
        for _ in 0..2 {
            if matches!(word(&answers[i], "r").as_str(), "late" | "bad") {
                cx.probe("member asked again");
                answers[i] = ask(i, &text, 240);
            }
        }
        let a = &answers[i];
        let (x, y) = (word(&r, "r"), word(a, "r"));
        if x != y {
            return fail(
                &format!("behaves differently on {}", m.name),
                format!("{}: {x} {} {} but on {}: {y} {} {}", p.scenario, word(&r, "class"), word(&r, "detail"), m.name, word(a, "class"), word(a, "detail")),
            );
        }
        if x == "panic" {
            continue;
        }
        if r["h"] != a["h"] {
            return fail(
                &format!("bits differ on {}", m.name),
                format!("{}: {} (here and on {})", p.scenario, differing(sub, &p.plan, &req, i, cx.thorough), m.name),
            );
        }
        if word(&r, "class") != word(a, "class") {
            return fail(
                &format!("verdict differs on {}", m.name),
                format!("{}: {} here but {} on {}", p.scenario, word(&r, "class"), word(a, "class"), m.name),
            );
        }
        cx.probe(&format!("same bits on {}", m.name));
    }
    Ok(())
}

fn place(i: usize) -> &'static str {
    if i == 0 {
        "the reference"
    } else {
        MEMBERS[i - 1].name
    }
}

/// A history whose state travels between the members as snapshots, against one that stays in one place.
fn handover(p: &Plan, cx: &mut Cx) -> Res {
    let mut quiet = Cx::new();
    let (want, cuts) = match whole(&p.plan, &mut quiet) {
        Ok(x) => x,
        Err(v) if v.class == BAD_PLAN => return Err(v),
        Err(_) => {
            cx.probe("the reference does not pass the scenario itself");
            return Ok(());
        }
    };
    if p.hops.is_empty() {
        return fail(BAD_PLAN, "nobody runs it");
    }
    cx.sim_us += quiet.sim_us;
    for (k, n) in quiet.faults {
        *cx.faults.entry(k).or_insert(0) += n;
    }
    let (mut from, mut at, mut parcel, mut before) = (0, 0, Value::Null, 0);
    for (k, &to) in cuts.iter().enumerate() {
        let i = p.hops[k % p.hops.len()] as usize % (1 + MEMBERS.len());
        let l = json!({"plan": p.plan, "from": from, "to": to, "parcel": parcel});
        let r = if i == 0 {
            crate::member::leg(&l)
        } else {
            let t = json!({ "leg": l }).to_string();
            let mut r = ask(i - 1, &t, 120);
            if matches!(word(&r, "r").as_str(), "late" | "bad") {
                cx.probe("member asked again");
                r = ask(i - 1, &t, 240);
            }
            r
        };
        let class = format!("does not resume on {}", place(i));
        let how = || format!("steps {from} to {to}, with what {} sent", if k == 0 { "nobody" } else { place(before) });
        if word(&r, "r") != "ok" {
            return fail(&class, format!("{}: {} {} {}", how(), word(&r, "r"), word(&r, "class"), word(&r, "detail")));
        }
        let got: Results = serde_json::from_value(r["out"].clone()).unwrap_or_default();
        for x in &got {
            let w = want.get(at);
            if w != Some(x) {
                return fail(&class, format!("{}: step {}: {} differs from the history that stays in one place", how(), x.0, x.1));
            }
            at += 1;
            cx.u(x.2);
        }
        cx.steps += (to - from) as u64;
        cx.state(mix(mix(i as u64, before as u64), crate::rng::hash_str(&r["parcel"]["fmt"].to_string())));
        if k > 0 && i != before {
            cx.fault("state moves to another platform");
            cx.probe(&format!("from {} to {}", place(before), place(i)));
        }
        (from, before, parcel) = (to, i, r["parcel"].clone());
    }
    if at != want.len() {
        return fail("results missing", format!("{at} of {} results", want.len()));
    }
    cx.probe("scenario of a history that moves between members");
    Ok(())
}

pub const C19: Prop = Prop {
    id: "C19",
    gen,
    exec,
    runs: (12_000, 1_000_000),
    rule: "one run = one scenario of another property (sampling, snapshots, lock-step peers, archives, tracks, blending, hierarchies, skinning, pipelines; with its clock jumps, dirty memory, refused runs, crashes and restores) executed by five builds of the code: x86-64 baseline optimised with assertions (the reference), unoptimised, optimised for this machine's vector units without assertions, and WebAssembly without and with vector instructions; all recorded outputs and the verdict must agree bit for bit; distinct by scenario and the hash of all outputs",
    measure: "distinct scenario states (the measure of the scenario's own property, tagged with the scenario)",
    real: &["all jobs and objects of the scenarios, compiled for x86-64 (three profiles) and wasm32 (two profiles)", "core portable_simd and libm of each target", "V8 as the WebAssembly processor"],
    stub: &["clocks, memory content, streams and crash points as in the scenarios", "no arm64 member: no target library or processor here"],
    assumptions: &["values that are not numbers count as equal whatever their sign and payload"],
};
