//! C01 (history independence of sampling) and C02 (sampled pose against the stored keys).

use crate::cx::{fail, plan, Cx, Mem, Prop, Res};
use crate::ensure;
use crate::gen::{AnimModel, AnimSpec};
use crate::rng::{Fnv, Rng};
use crate::snap::{must_restore, must_save, FORMATS};
use crate::util::*;
use ozz_animation_rs::math::SoaTransform;
use ozz_animation_rs::*;
use serde::{Deserialize, Serialize};
use serde_json::Value;
use std::sync::{Arc, RwLock};

#[derive(Serialize, Deserialize, Clone, Debug)]
enum Op {
    Sample { anim: u32, tick: Tick },
    Clear,
    /// Continue with a clone (mode 1: without the animation id; mode 2: clone, then drop the clone).
    Clone { mode: u32 },
    /// Continue with a new context with room for `extra` more tracks than any animation.
    NewCtx { extra: u32 },
    /// A run that must fail: 0 no output, 1 short output, 2 no animation, 3 poisoned output, 4 small context.
    Fail { kind: u32, anim: u32, tick: Tick },
    /// Drop the animation and load another one in its place (the old address may be used again).
    Replace {
        anim: u32,
        spec: AnimSpec,
        /// 0: as loaded, otherwise saved and restored in this format (+ 1).
        #[serde(default)]
        via: u32,
    },
}

#[derive(Serialize, Deserialize, Clone, Debug)]
struct Plan {
    mem: Mem,
    big: bool,
    /// 0: counted animations, 1: the job owns the animation (a new one is loaded for every switch)
    owned: bool,
    anims: Vec<AnimSpec>,
    extra: u32,
    from_animation: bool,
    out_extra: u32,
    dirt: u32,
    ops: Vec<Op>,
}

fn gen(rng: &mut Rng, thorough: bool, files: bool) -> Value {
    let huge = rng.pm(4);
    let n = if huge { 1 } else { 1 + rng.below(3) as usize };
    let max = if rng.pm(150) { 120 } else { 40 };
    let mut anims: Vec<AnimSpec> = (0..n)
        .map(|_| if files { AnimSpec::gen_any(rng, max) } else { AnimSpec::gen(rng, max) })
        .collect();
    if huge {
        anims[0].huge(rng);
    } else if rng.pm(8) {
        anims[0].wide(rng);
    }
    if n > 1 && !huge && rng.pm(300) {
        anims[1] = anims[0].twin_of(rng);
    }
    let fail_rate = *rng.pick(&[0u32, 0, 60, 150]);
    let switch = *rng.pick(&[0u32, 50, 300]);
    let ctx_rate = *rng.pick(&[0u32, 20, 100]);
    let nan = *rng.pick(&[0u32, 0, 0, 20]);
    let small = rng.pm(400);
    let len = if huge { rng.usize(2, 30) } else { rng.usize(3, if thorough { 160 } else { 60 }) };
    let mut cur = 0u32;
    let mut ops = Vec::new();
    for _ in 0..len {
        if rng.pm(switch) {
            cur = rng.below(n as u64) as u32;
        }
        let mut tick = Tick::gen(rng);
        if small {
            // stay close to the current time most of the run
            if rng.pm(800) {
                tick = Tick::By(rng.f(-0.03, 0.04));
            }
        }
        if rng.pm(nan) {
            tick = Tick::Nan;
        }
        ops.push(if rng.pm(fail_rate) {
            Op::Fail { kind: rng.below(5) as u32, anim: rng.below(n as u64) as u32, tick }
        } else if rng.pm(ctx_rate) {
            match rng.below(6) {
                0 => Op::Clear,
                1 | 2 => Op::Clone { mode: rng.below(3) as u32 },
                3 => Op::NewCtx { extra: *rng.pick(&[0u32, 0, 1, 5, 40]) },
                _ => Op::Replace {
                    anim: rng.below(n as u64) as u32,
                    spec: if rng.pm(400) {
                        anims[rng.below(n as u64) as usize].twin_of(rng)
                    } else if rng.pm(500) {
                        // same shape, other content
                        let mut s = anims[rng.below(n as u64) as usize].clone();
                        s.seed = rng.u64() as u32;
                        s
                    } else {
                        AnimSpec::gen(rng, 40)
                    },
                    via: if rng.pm(500) { 1 + rng.below(FORMATS.len() as u64) as u32 } else { 0 },
                },
            }
        } else {
            Op::Sample { anim: cur, tick }
        });
    }
    let p = Plan {
        mem: Mem::gen(rng),
        big: rng.pm(200),
        owned: rng.pm(120),
        anims,
        extra: *rng.pick(&[0u32, 0, 0, 1, 4, 9, 64]),
        from_animation: rng.pm(300),
        out_extra: *rng.pick(&[0u32, 0, 1, 5]),
        dirt: rng.u64() as u32,
        ops,
    };
    serde_json::to_value(p).unwrap()
}

type Out = Arc<RwLock<Vec<SoaTransform>>>;

enum Job {
    Arc(SamplingJob<Arc<Animation>, Out, SamplingContext>),
    Own(SamplingJob<Animation, Out, SamplingContext>),
}

macro_rules! with {
    ($j:expr, $x:ident => $e:expr) => {
        match $j {
            Job::Arc($x) => $e,
            Job::Own($x) => $e,
        }
    };
}

fn fresh(a: &Animation, ratio: f32) -> Res<Vec<SoaTransform>> {
    let mut out = vec![SoaTransform::default(); a.num_soa_tracks()];
    let mut ctx = SamplingContext::new(a.num_tracks());
    {
        let mut j: SamplingJob<&Animation, &mut [SoaTransform], &mut SamplingContext> = SamplingJob::default();
        j.set_animation(a);
        j.set_context(&mut ctx);
        j.set_output(&mut out[..]);
        j.set_ratio(ratio);
        if let Err(e) = j.run() {
            return fail("fresh-run", format!("sampling with a fresh context of exact size fails: {e:?}"));
        }
    }
    Ok(out)
}

/// Compares a sampled pose with the reference interpolation of the stored keys.
pub fn against_model(m: &AnimModel, ratio: f32, out: &[SoaTransform], what: &str) -> Res {
    let r = ratio.clamp(0.0, 1.0);
    let v = fl(out);
    for t in 0..m.num_tracks {
        let base = (t / 4) * 40 + t % 4;
        for (c, off) in [(0usize, 0usize), (2, 28)] {
            let (want, mag) = m.float3(c, t, r);
            for i in 0..3 {
                let got = v[base + off + i * 4] as f64;
                let tol = mag * 8e-6 + 1e-9;
                if !((got - want[i]).abs() <= tol) {
                    return fail(
                        "wrong-pose",
                        format!(
                            "{what}: joint {t} {} component {i} at ratio {r}: sampled {got}, stored keys give {}",
                            if c == 0 { "translation" } else { "scale" },
                            want[i]
                        ),
                    );
                }
            }
        }
        let (want, _) = m.quat(t, r);
        let mut l = 0.0;
        for i in 0..4 {
            let got = v[base + 12 + i * 4] as f64;
            l += got * got;
            if !((got - want[i]).abs() <= 2e-5) {
                return fail(
                    "wrong-pose",
                    format!("{what}: joint {t} rotation component {i} at ratio {r}: sampled {got}, stored keys give {}", want[i]),
                );
            }
        }
        ensure!((l.sqrt() - 1.0).abs() < 1e-5, "not-unit", "{what}: joint {t} rotation has length {} at ratio {r}", l.sqrt());
    }
    Ok(())
}

pub fn poison(n: usize) -> Out {
    let o: Out = Arc::new(RwLock::new(vec![SoaTransform::default(); n]));
    let o2 = o.clone();
    let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(move || {
        let _g = o2.write().unwrap();
        panic!("thread dies while holding the buffer");
    }));
    crate::take_panic();
    o
}

fn exec(v: &Value, cx: &mut Cx, model: bool) -> Res {
    let p: Plan = plan(v)?;
    if p.anims.is_empty() || p.ops.is_empty() {
        return fail(crate::cx::BAD_PLAN, "empty");
    }
    for s in &p.anims {
        if s.tracks == 0 {
            return fail(crate::cx::BAD_PLAN, "no tracks");
        }
    }
    p.mem.apply(cx);
    let mut models: Vec<AnimModel> = p.anims.iter().map(|s| s.build()).collect();
    let mut anims: Vec<Arc<Animation>> = Vec::new();
    for m in &models {
        anims.push(Arc::new(load_anim(m, p.big)?));
    }
    let mut room = models.iter().map(|m| m.num_tracks).max().unwrap();
    for o in &p.ops {
        if let Op::Replace { spec, .. } = o {
            if spec.tracks == 0 {
                return fail(crate::cx::BAD_PLAN, "no tracks");
            }
            room = room.max(if spec.file > 0 { 70 } else { spec.tracks as usize });
        }
    }
    if models.len() == 1 && p.extra == 0 {
        cx.probe("context of exact size");
    }
    let new_ctx = |extra: u32| SamplingContext::new(room + extra as usize);
    if models.iter().any(|m| m.ch.iter().any(|c| c.keys.iter().map(|k| k.len()).sum::<usize>() > 65536)) {
        cx.probe("more than 65536 keys");
    }
    let out_len = room.div_ceil(4) + p.out_extra as usize;
    let out: Out = Arc::new(RwLock::new(dirt(p.dirt, out_len)));
    let mut job = if p.owned { Job::Own(SamplingJob::default()) } else { Job::Arc(SamplingJob::default()) };
    let ctx0 = if p.from_animation && models[0].num_tracks == room && p.extra == 0 {
        SamplingContext::from_animation(&anims[0])
    } else {
        new_ctx(p.extra)
    };
    with!(&mut job, j => { j.set_output(out.clone()); j.set_context(ctx0); });
    let mut cur: Option<usize> = None;
    let mut clock = Clock { at: 0.0 };
    let mut epoch = 0u32;
    let mut set: Option<(usize, u32)> = None;
    let mut epochs = vec![0u32; models.len()];

    macro_rules! put {
        ($a:expr) => {
            match &mut job {
                Job::Arc(j) => {
                    j.set_animation(anims[$a].clone());
                }
                Job::Own(j) => {
                    if set != Some(($a, epochs[$a])) {
                        j.set_animation(load_anim(&models[$a], p.big)?);
                    }
                }
            }
            set = Some(($a, epochs[$a]));
        };
    }

    for (i, op) in p.ops.iter().enumerate() {
        cx.steps += 1;
        match op {
            Op::Sample { anim, tick } => {
                let a = *anim as usize % anims.len();
                if cur != Some(a) {
                    if cur.is_some() {
                        cx.fault("animation switch");
                    }
                    cur = Some(a);
                }
                put!(a);
                let ratio = clock.step(tick, &models[a].timepoints, cx);
                let before = with!(&job, j => { let c = j.context().unwrap(); (c.translation_next(), c.rotation_next(), c.scale_next()) });
                {
                    // dirty the output so that elements left unwritten show
                    let mut g = out.write().unwrap();
                    let d = dirt(p.dirt.wrapping_add(i as u32 * 4), out_len);
                    g.copy_from_slice(&d);
                }
                let r = with!(&mut job, j => { j.set_ratio(ratio); j.run() });
                if let Err(e) = r {
                    return fail("run-refused", format!("op {i}: sampling animation {a} at {ratio} fails: {e:?}"));
                }
                let after = with!(&job, j => { let c = j.context().unwrap(); (c.translation_next(), c.rotation_next(), c.scale_next()) });
                let mut h = Fnv::new();
                for x in [before.0, before.1, before.2, after.0, after.1, after.2, models[a].ch[0].divs as usize, models[a].num_tracks] {
                    h.u64(x as u64);
                }
                cx.state(h.finish());
                for c in 0..3 {
                    let (b, n) = [(before.0, after.0), (before.1, after.1), (before.2, after.2)][c];
                    if b == 0 {
                        cx.probe("cache initialised");
                    } else if n < b {
                        cx.probe(if models[a].ch[c].divs > 0 { "cache moved back (seek frames)" } else { "cache moved back" });
                    } else if n > b {
                        cx.probe("cache moved forward");
                    }
                }
                let got = out.read().unwrap();
                let soa = models[a].soa();
                if ratio.is_nan() {
                    cx.u(1);
                    continue;
                }
                cx.f32s(fl(&got[..soa]));
                if model {
                    against_model(&models[a], ratio, &got[..soa], &format!("op {i}"))?;
                } else {
                    let want = fresh(&anims[a], ratio)?;
                    if let Some(k) = diff_bits(fl(&got[..soa]), fl(&want)) {
                        return fail(
                            "history-dependent",
                            format!(
                                "op {i}: animation {a} at ratio {ratio}: float {} of soa joint {} is {} but {} with a fresh context",
                                k % 40, k / 40, fl(&got)[k], fl(&want)[k]
                            ),
                        );
                    }
                    let d = dirt(p.dirt.wrapping_add(i as u32 * 4), out_len);
                    if let Some(k) = diff_bits(&fl(&got)[soa * 40..], &fl(&d)[soa * 40..]) {
                        return fail("wrote-beyond", format!("op {i}: output element {} beyond the {soa} of the animation was written", soa + k / 40));
                    }
                }
                cx.note(|| format!("op {i}: sample animation {a} at {ratio}: cache {before:?} -> {after:?}, pose {:016x}", hash_f(fl(&got[..soa]))));
            }
            Op::Clear => {
                cx.fault("context cleared");
                with!(&mut job, j => { let mut c = j.take_context().unwrap(); c.clear(); j.set_context(c); });
                cx.note(|| format!("op {i}: clear context"));
            }
            Op::Clone { mode } => {
                cx.fault("context cloned");
                with!(&mut job, j => {
                    let c = j.take_context().unwrap();
                    let n = match mode {
                        0 => c.clone(),
                        1 => c.clone_without_animation_id(),
                        _ => { let d = c.clone(); drop(d); c }
                    };
                    j.set_context(n);
                });
                cx.note(|| format!("op {i}: clone context {mode}"));
            }
            Op::NewCtx { extra } => {
                cx.fault("context replaced");
                with!(&mut job, j => j.set_context(new_ctx(*extra)));
                cx.note(|| format!("op {i}: new context"));
            }
            Op::Fail { kind, anim, tick } => {
                let a = *anim as usize % anims.len();
                let ratio = clock.step(tick, &models[a].timepoints, cx);
                put!(a);
                cur = Some(a);
                cx.fault(["run without output", "run with short output", "run without animation", "run with poisoned output", "run with small context"][*kind as usize % 5]);
                let mut saved: Option<SamplingContext> = None;
                match kind % 5 {
                    0 => with!(&mut job, j => j.clear_output()),
                    1 => with!(&mut job, j => j.set_output(Arc::new(RwLock::new(vec![SoaTransform::default(); models[a].soa() - 1])))),
                    2 => {
                        with!(&mut job, j => j.clear_animation());
                        set = None;
                    }
                    3 => with!(&mut job, j => j.set_output(poison(out_len))),
                    _ => {
                        saved = with!(&mut job, j => j.take_context());
                        let n = (models[a].soa() - 1) * 4;
                        with!(&mut job, j => j.set_context(SamplingContext::new(n)));
                    }
                }
                let r = with!(&mut job, j => { j.set_ratio(ratio); j.run() });
                ensure!(r.is_err(), "accepted", "op {i}: a run with an unusable resource ({kind}) succeeded");
                with!(&mut job, j => { j.set_output(out.clone()); if let Some(c) = saved { j.set_context(c) } });
                cx.note(|| format!("op {i}: failed run {kind}"));
            }
            Op::Replace { anim, spec, via } => {
                let a = *anim as usize % anims.len();
                if spec.tracks as usize > room {
                    return fail(crate::cx::BAD_PLAN, "room");
                }
                cx.fault("animation dropped and another loaded");
                epoch += 1;
                epochs[a] = epoch;
                with!(&mut job, j => j.clear_animation());
                set = None;
                let m = spec.build();
                if m.num_tracks > room {
                    return fail(crate::cx::BAD_PLAN, "room");
                }
                let old = std::mem::replace(&mut models[a], m);
                drop(old);
                // free the old one first so that its addresses can be used again
                let dead = anims.swap_remove(a);
                let addr = Arc::as_ptr(&dead) as usize;
                drop(dead);
                let mut n = load_anim(&models[a], p.big)?;
                if *via > 0 {
                    let f = (*via - 1) % FORMATS.len() as u32;
                    let b = must_save(&n, f, "animation")?;
                    n = must_restore(&b, f, *via, "animation")?;
                    cx.fault("animation restored from a snapshot");
                }
                let n = Arc::new(n);
                if Arc::as_ptr(&n) as usize == addr {
                    cx.probe("new animation at the address of a dropped one");
                }
                anims.push(n);
                let last = anims.len() - 1;
                anims.swap(a, last);
                cur = Some(a);
                cx.note(|| format!("op {i}: animation {a} replaced"));
            }
        }
    }
    Ok(())
}

fn gen1(rng: &mut Rng, thorough: bool) -> Value {
    gen(rng, thorough, true)
}
fn exec1(v: &Value, cx: &mut Cx) -> Res {
    exec(v, cx, false)
}
fn exec2(v: &Value, cx: &mut Cx) -> Res {
    exec(v, cx, true)
}

const REAL: &[&str] = &["SamplingJob", "SamplingContext", "Animation (loader, key decoding)", "Archive", "SoaTransform maths", "OzzBuf/OzzMutBuf for Arc<RwLock<Vec>>"];
const STUB: &[&str] = &["playback clock", "memory allocator content and address reuse", "archive byte source"];

pub const C01: Prop = Prop {
    id: "C01",
    gen: gen1,
    exec: exec1,
    runs: (100_000, 2_500_000),
    rule: "one run = 1-3 animations (generated with irregular keys and seek frames, or exported files), one context, 3-60 clock steps and faults; non-trivial when at least one clock fault, switch, failed run, context operation or memory fault happened; distinct by the hash of all sampled poses",
    measure: "distinct (cache position before, cache position after, seek frames, tracks) transitions",
    real: REAL,
    stub: STUB,
    assumptions: &["animations are well formed as written by the ozz builder (each track has keys at 0 and 1, keys sorted by previous key time then track)"],
};

pub const C02: Prop = Prop {
    id: "C02",
    gen: gen1,
    exec: exec2,
    runs: (100_000, 2_500_000),
    rule: "as C01, every sampled pose compared joint by joint with an f64 interpolation of the stored keys found by linear search; distinct by the hash of all sampled poses",
    measure: "distinct (cache position before, cache position after, seek frames, tracks) transitions",
    real: REAL,
    stub: STUB,
    assumptions: &["consecutive rotation keys lie in the same half space, as the ozz builder guarantees", "tolerance 8e-6 of the key magnitude, 2e-5 for quaternions"],
};
