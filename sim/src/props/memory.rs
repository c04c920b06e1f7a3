//! C11: results do not depend on what memory held before; refused memory goes through the standard failure path.

use crate::alloc;
use crate::cx::{fail, plan, Cx, Mem, Prop, Res};
use crate::ensure;
use crate::gen::{AnimModel, AnimSpec, SkelSpec, TrackSpec};
use crate::props::blend::{mask, pose};
use crate::props::hierarchy::rand_mat;
use crate::rng::{Fnv, Rng};
use crate::snap::*;
use crate::util::*;
use glam::{Mat4, Quat, Vec2, Vec3, Vec4};
use ozz_animation_rs::math::SoaTransform;
use ozz_animation_rs::*;
use serde::{Deserialize, Serialize};
use serde_json::Value;
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Serialize, Deserialize, Clone, Debug)]
enum Op {
    /// Two fresh contexts of one size; the first one is kept.
    NewCtx { slot: u32, tracks: u32 },
    CtxFrom { slot: u32, anim: u32 },
    CloneCtx { from: u32, to: u32, mode: u32 },
    ClearCtx { slot: u32 },
    DropCtx { slot: u32 },
    Sample { slot: u32, anim: u32, tick: Tick },
    Anim { slot: u32, spec: AnimSpec, big: bool },
    /// An animation without anything in it.
    EmptyAnim { slot: u32 },
    Skel { slot: u32, spec: SkelSpec, big: bool },
    Track { slot: u32, spec: TrackSpec, big: bool },
    /// Save and restore into another slot. kind: 0 context, 1 animation, 2 skeleton, 3 track
    Save { kind: u32, slot: u32, to: u32, fmt: u32, style: u32 },
    Drop { kind: u32, slot: u32 },
    /// Blend, model space and skinning on a skeleton.
    Pipe { skel: u32, seed: u32, layers: u32, additive: u32 },
    /// The n-th request of at least `min` bytes during the operation is refused.
    Oom { n: u32, min: u32, op: Box<Op> },
    /// A context whose size no memory has.
    Huge { bits: u32, less: u32 },
}

#[derive(Serialize, Deserialize, Clone, Debug)]
struct Plan {
    mem: Mem,
    other: Mem,
    ops: Vec<Op>,
}

const SLOTS: usize = 4;

fn op(rng: &mut Rng, oom: u32) -> Op {
    let s = |rng: &mut Rng| rng.below(SLOTS as u64) as u32;
    if rng.pm(oom) {
        return Op::Oom { n: *rng.pick(&[1u32, 1, 1, 2, 3, 5, 9]), min: *rng.pick(&[1u32, 64, 160, 500]), op: Box::new(op(rng, 0)) };
    }
    match rng.below(34) {
        0..=3 => Op::NewCtx { slot: s(rng), tracks: *rng.pick(&[0u32, 1, 4, 5, 24, 32, 33, 67, 120, 300]) },
        4 => Op::CtxFrom { slot: s(rng), anim: s(rng) },
        5 | 6 => Op::CloneCtx { from: s(rng), to: s(rng), mode: rng.below(2) as u32 },
        7 => Op::ClearCtx { slot: s(rng) },
        8 => Op::DropCtx { slot: s(rng) },
        9 | 10 => Op::Anim { slot: s(rng), spec: AnimSpec::gen(rng, 70), big: rng.pm(200) },
        11 => {
            let slot = s(rng);
            let mut spec = SkelSpec::gen(rng, 40);
            if rng.pm(100) {
                spec.joints = 0;
            }
            Op::Skel { slot, spec, big: rng.pm(200) }
        }
        12 => {
            let k = rng.range(1, 5) as u32;
            let mut spec = TrackSpec::gen(rng, k);
            if rng.pm(100) {
                spec.keys = 0;
            }
            Op::Track { slot: s(rng), spec, big: rng.pm(200) }
        }
        13..=16 => Op::Save {
            kind: *rng.pick(&[0u32, 0, 0, 1, 2, 3]),
            slot: s(rng),
            to: s(rng),
            fmt: rng.below(FORMATS.len() as u64) as u32,
            style: rng.below(4) as u32,
        },
        17 => Op::Drop { kind: rng.range(1, 3) as u32, slot: s(rng) },
        18 | 19 => Op::Pipe { skel: s(rng), seed: rng.u64() as u32, layers: rng.below(4) as u32, additive: rng.below(3) as u32 },
        20 if rng.pm(200) => Op::EmptyAnim { slot: s(rng) },
        20 if rng.pm(200) => Op::Huge { bits: rng.range(31, 64) as u32, less: if rng.pm(500) { 0 } else { rng.u64() as u32 } },
        _ => Op::Sample { slot: s(rng), anim: s(rng), tick: Tick::gen(rng) },
    }
}

fn gen(rng: &mut Rng, thorough: bool) -> Value {
    let oom = *rng.pick(&[0u32, 0, 100, 300]);
    let mut ops = vec![
        Op::Anim { slot: 0, spec: AnimSpec::gen(rng, 70), big: false },
        Op::Anim { slot: 1, spec: AnimSpec::gen(rng, 40), big: rng.pm(200) },
        Op::Skel { slot: 0, spec: SkelSpec::gen(rng, 40), big: false },
        Op::NewCtx { slot: 0, tracks: 70 },
        Op::NewCtx { slot: 1, tracks: 120 },
    ];
    for _ in 0..rng.usize(3, if thorough { 80 } else { 40 }) {
        ops.push(op(rng, oom));
    }
    let m = |rng: &mut Rng| Mem {
        fill: if rng.pm(500) { 7 } else { 1 + rng.below(6) },
        seed: rng.u64() as u32,
        reuse: rng.below(4) as u32,
    };
    let mem = m(rng);
    let mut other = m(rng);
    if rng.pm(300) {
        other = Mem { fill: 0, seed: 0, reuse: 0 };
    }
    serde_json::to_value(Plan { mem, other, ops }).unwrap()
}

enum AnyTrack {
    F(Track<f32>),
    V2(Track<Vec2>),
    V3(Track<Vec3>),
    V4(Track<Vec4>),
    Q(Track<Quat>),
}

macro_rules! tr {
    ($t:expr, $x:ident, $w:ident => $e:expr) => {
        match $t {
            AnyTrack::F($x) => AnyTrack::F($e),
            AnyTrack::V2($x) => AnyTrack::V2($e),
            AnyTrack::V3($x) => AnyTrack::V3($e),
            AnyTrack::V4($x) => AnyTrack::V4($e),
            AnyTrack::Q($x) => AnyTrack::Q($e),
        }
    };
}

impl AnyTrack {
    fn words(&self) -> Vec<u64> {
        match self {
            AnyTrack::F(x) => track_words(x),
            AnyTrack::V2(x) => track_words(x),
            AnyTrack::V3(x) => track_words(x),
            AnyTrack::V4(x) => track_words(x),
            AnyTrack::Q(x) => track_words(x),
        }
    }
}

#[derive(Default)]
struct World {
    ctxs: [Option<SamplingContext>; SLOTS],
    anims: [Option<Animation>; SLOTS],
    skels: [Option<Skeleton>; SLOTS],
    tracks: [Option<AnyTrack>; SLOTS],
    clocks: [f32; SLOTS],
}

fn step(w: &mut World, op: &Op, cx: &mut Cx, out: &mut Vec<(&'static str, u64)>) -> Res {
    let i = |s: u32| s as usize % SLOTS;
    match op {
        Op::NewCtx { slot, tracks } => {
            let a = SamplingContext::new(*tracks as usize);
            let b = SamplingContext::new(*tracks as usize);
            ensure!(a == b && b == a, "fresh-contexts-differ", "two fresh contexts for {tracks} tracks are not equal");
            ensure!(
                ctx_words(&a) == ctx_words(&b),
                "fresh-contexts-differ",
                "two fresh contexts for {tracks} tracks hold other content"
            );
            for fmt in [0, 5] {
                let (x, y) = (must_save(&a, fmt, "fresh context")?, must_save(&b, fmt, "fresh context")?);
                ensure!(
                    x == y,
                    "fresh-contexts-differ",
                    "two fresh contexts for {tracks} tracks differ when saved as {}",
                    FORMATS[fmt as usize]
                );
            }
            ensure!(
                a.max_tracks() >= *tracks as usize && a.max_soa_tracks() * 4 == a.max_tracks(),
                "context-size",
                "context for {tracks} tracks has room for {}",
                a.max_tracks()
            );
            out.push(("new context", hash_words(&ctx_words(&a))));
            w.ctxs[i(*slot)] = Some(a);
        }
        Op::CtxFrom { slot, anim } => {
            if let Some(a) = &w.anims[i(*anim)] {
                let c = SamplingContext::from_animation(a);
                out.push(("context from animation", hash_words(&ctx_words(&c))));
                w.ctxs[i(*slot)] = Some(c);
            }
        }
        Op::CloneCtx { from, to, mode } => {
            if let Some(c) = &w.ctxs[i(*from)] {
                let d = if *mode == 0 { c.clone() } else { c.clone_without_animation_id() };
                if *mode == 0 {
                    ensure!(ctx_words(c) == ctx_words(&d), "clone-differs", "the clone of a context holds other content");
                }
                out.push(("clone context", hash_words(&ctx_words(&d))));
                w.ctxs[i(*to)] = Some(d);
            }
        }
        Op::ClearCtx { slot } => {
            if let Some(c) = &mut w.ctxs[i(*slot)] {
                c.clear();
                out.push(("clear context", hash_words(&ctx_words(c))));
            }
        }
        Op::DropCtx { slot } => w.ctxs[i(*slot)] = None,
        Op::Sample { slot, anim, tick } => {
            let mut clock = Clock { at: w.clocks[i(*slot)] };
            if let (Some(c), Some(a)) = (&mut w.ctxs[i(*slot)], &w.anims[i(*anim)]) {
                let r = clock.step(tick, a.timepoints(), cx);
                w.clocks[i(*slot)] = clock.at;
                let mut o = vec![SoaTransform::default(); a.num_soa_tracks()];
                let fits = c.max_tracks() >= a.num_tracks();
                let res = {
                    let mut j: SamplingJob<&Animation, &mut [SoaTransform], &mut SamplingContext> = SamplingJob::default();
                    j.set_animation(a);
                    j.set_context(c);
                    j.set_output(&mut o[..]);
                    j.set_ratio(r);
                    j.run()
                };
                ensure!(
                    res.is_ok() == fits,
                    "acceptance",
                    "sampling {} tracks with room for {}: {res:?}",
                    a.num_tracks(),
                    c.max_tracks()
                );
                out.push(("sampled pose", hash_f(fl(&o))));
                out.push(("context after sampling", hash_words(&ctx_words(c))));
                cx.probe(if fits { "sampled" } else { "context too small" });
            }
        }
        Op::Anim { slot, spec, big } => {
            let a = load_anim(&spec.build(), *big)?;
            out.push(("loaded animation", hash_words(&anim_words(&a))));
            w.anims[i(*slot)] = Some(a);
        }
        Op::EmptyAnim { slot } => {
            let a = load_anim(&AnimModel::default(), false)?;
            out.push(("loaded animation", hash_words(&anim_words(&a))));
            w.anims[i(*slot)] = Some(a);
            cx.probe("empty animation");
        }
        Op::Skel { slot, spec, big } => {
            let s = load_skel(&spec.build(), *big)?;
            if spec.joints == 0 {
                cx.probe("empty skeleton");
            }
            out.push(("loaded skeleton", hash_words(&skel_words(&s))));
            w.skels[i(*slot)] = Some(s);
        }
        Op::Track { slot, spec, big } => {
            let mut m = spec.build();
            if spec.keys == 0 {
                m.ratios.clear();
                m.values.clear();
                m.steps.clear();
                cx.probe("empty track");
            }
            let t = match m.kind {
                1 => AnyTrack::F(load_track(&m, *big)?),
                2 => AnyTrack::V2(load_track(&m, *big)?),
                3 => AnyTrack::V3(load_track(&m, *big)?),
                4 => AnyTrack::V4(load_track(&m, *big)?),
                _ => AnyTrack::Q(load_track(&m, *big)?),
            };
            out.push(("loaded track", hash_words(&t.words())));
            w.tracks[i(*slot)] = Some(t);
        }
        Op::Save { kind, slot, to, fmt, style } => {
            fn go<T: Snap>(x: &T, fmt: u32, style: u32, out: &mut Vec<(&'static str, u64)>, what: &str) -> Res<T> {
                let b = must_save(x, fmt, what)?;
                out.push(("saved bytes", hash_bytes(&b)));
                must_restore(&b, fmt, style, what)
            }
            match kind % 4 {
                0 => {
                    if let Some(c) = &w.ctxs[i(*slot)] {
                        let d = go(c, *fmt, *style, out, "context")?;
                        out.push(("restored context", hash_words(&ctx_words(&d))));
                        w.ctxs[i(*to)] = Some(d);
                    }
                }
                1 => {
                    if let Some(c) = &w.anims[i(*slot)] {
                        let d = go(c, *fmt, *style, out, "animation")?;
                        out.push(("restored animation", hash_words(&anim_words(&d))));
                        w.anims[i(*to)] = Some(d);
                    }
                }
                2 => {
                    if let Some(c) = &w.skels[i(*slot)] {
                        let d = go(c, *fmt, *style, out, "skeleton")?;
                        out.push(("restored skeleton", hash_words(&skel_words(&d))));
                        w.skels[i(*to)] = Some(d);
                    }
                }
                _ => {
                    if let Some(c) = &w.tracks[i(*slot)] {
                        let d = tr!(c, x, w => go(x, *fmt, *style, out, "track")?);
                        out.push(("restored track", hash_words(&d.words())));
                        w.tracks[i(*to)] = Some(d);
                    }
                }
            }
        }
        Op::Drop { kind, slot } => match kind % 4 {
            1 => w.anims[i(*slot)] = None,
            2 => w.skels[i(*slot)] = None,
            _ => w.tracks[i(*slot)] = None,
        },
        Op::Pipe { skel, seed, layers, additive } => {
            if let Some(s) = &w.skels[i(*skel)] {
                let n = s.num_soa_joints();
                let mut b: BlendingJob<&Skeleton, Vec<SoaTransform>, Vec<SoaTransform>> = BlendingJob::default();
                b.set_skeleton(s);
                b.set_context(BlendingContext::new(n));
                b.set_output(vec![SoaTransform::default(); n]);
                for l in 0..layers + additive {
                    let p = pose(seed ^ l, n);
                    let layer = if (seed >> l) & 1 == 0 {
                        BlendingLayer::with_weight(p, 0.25 + l as f32 * 0.25)
                    } else {
                        BlendingLayer {
                            transform: p,
                            weight: 0.25 + l as f32 * 0.25,
                            joint_weights: mask(seed ^ l, n),
                        }
                    };
                    if l < *layers {
                        b.layers_mut().push(layer);
                    } else {
                        b.additive_layers_mut().push(layer);
                    }
                }
                let r = b.run();
                ensure!(r.is_ok(), "acceptance", "a complete blending job fails: {r:?}");
                let local = b.output().unwrap().clone();
                out.push(("blended pose", hash_f(fl(&local))));
                let mut l: LocalToModelJob<&Skeleton, &[SoaTransform], Vec<Mat4>> = LocalToModelJob::default();
                l.set_skeleton(s);
                l.set_input(&local[..]);
                l.set_output(vec![Mat4::IDENTITY; s.num_joints()]);
                let r = l.run();
                ensure!(r.is_ok(), "acceptance", "a complete model space job fails: {r:?}");
                let mut m = l.output().unwrap().clone();
                out.push(("model matrices", hash_f(mats(&m))));
                let mut rng = Rng::new(*seed as u64);
                m.push(rand_mat(*seed));
                let nv = rng.usize(1, 9);
                let k = rng.usize(1, 6);
                let mut j: SkinningJob<Vec<Mat4>, Vec<u16>, Vec<f32>, Vec<Vec3>, Vec<Vec3>> = SkinningJob::default();
                j.set_vertex_count(nv);
                j.set_influences_count(k);
                j.set_joint_indices((0..nv * k).map(|_| rng.below(m.len() as u64) as u16).collect());
                j.set_joint_weights((0..nv * (k - 1)).map(|_| rng.f(0.0, 0.5)).collect());
                j.set_joint_matrices(m);
                j.set_in_positions((0..nv).map(|x| Vec3::new(x as f32, 1.0, -2.0)).collect());
                j.set_out_positions(vec![Vec3::ZERO; nv]);
                j.set_in_normals((0..nv).map(|x| Vec3::new(1.0, x as f32, 0.5)).collect());
                j.set_out_normals(vec![Vec3::ZERO; nv]);
                let r = j.run();
                ensure!(r.is_ok(), "acceptance", "a complete skinning job fails: {r:?}");
                out.push(("skinned positions", hash_f(vec3s(j.out_positions().unwrap()))));
                out.push(("skinned normals", hash_f(vec3s(j.out_normals().unwrap()))));
                cx.probe("pipeline");
            }
        }
        Op::Oom { n, min, op } => {
            let mut op = op.clone();
            if let Op::Save { fmt, .. } = &mut *op {
                if *fmt % FORMATS.len() as u32 == 2 {
                    // std's ordered map ends the process when it gets no memory
                    *fmt = 0;
                }
            }
            let op = &*op;
            if let Op::Huge { .. } = op {
                // a panic that gets no memory for its message ends the process
                return step(w, op, cx, out);
            }
            let mark = out.len();
            alloc::fail_in((*n).max(1) as u64, *min as usize);
            let r = catch_unwind(AssertUnwindSafe(|| step(w, op, cx, out)));
            let hit = !alloc::fail_pending();
            alloc::fail_off();
            match r {
                Ok(Ok(())) => {
                    if hit {
                        cx.fault("refused memory, coped with");
                    }
                }
                // what failed because of the refusal may be reported as an error
                Ok(Err(v)) if hit && (v.class == "load" || v.class.ends_with("-fails")) => {
                    cx.fault("refused memory, reported");
                    out.truncate(mark);
                    out.push(("error after refused memory", 0));
                }
                Ok(Err(v)) => return Err(v),
                Err(_) => {
                    let (loc, msg) = crate::take_panic();
                    // other crates may treat it in their own way
                    let repo = crate::PANIC_IN_REPO.load(std::sync::atomic::Ordering::SeqCst);
                    ensure!(
                        msg.starts_with(alloc::OOM) || !repo,
                        "refused-memory",
                        "refused memory does not reach the standard allocation error: panic at {loc}: {msg}"
                    );
                    cx.fault("refused memory, standard error");
                    out.truncate(mark);
                    out.push(("refused memory", 1));
                }
            }
        }
        Op::Huge { bits, less } => {
            // 2^64 and more: the largest number there is
            let n = 1usize.checked_shl((*bits).max(31)).unwrap_or(0).wrapping_sub((*less >> 2).max((*bits > 63) as u32) as usize);
            let r = catch_unwind(AssertUnwindSafe(|| SamplingContext::new(n).max_tracks()));
            // the request is far above what the simulated machine has
            match r {
                Ok(m) => {
                    return fail("huge-context", format!("a context for {n} tracks exists with room for {m}, on a machine with 1 GB"))
                }
                Err(_) => {
                    let (loc, msg) = crate::take_panic();
                    // (no request can be made for more than half of the address space, as for a vector)
                    ensure!(
                        msg.starts_with(alloc::OOM) || (n > usize::MAX >> 14 && msg.contains("overflow")),
                        "refused-memory",
                        "refused memory for {n} tracks does not reach the standard allocation error: panic at {loc}: {msg}"
                    );
                    alloc::set_cap(1 << 30);
                    cx.fault("impossible size");
                    out.push(("impossible size refused", 1));
                }
            }
        }
    }
    Ok(())
}

fn history(p: &Plan, mem: &Mem, cx: &mut Cx) -> Res<Vec<(usize, &'static str, u64)>> {
    let z = alloc::stats().zero;
    alloc::configure(mem.cfg());
    let mut w = World::default();
    let mut t = Vec::new();
    let mut out = Vec::new();
    for (i, o) in p.ops.iter().enumerate() {
        cx.steps += 1;
        out.clear();
        let r = step(&mut w, o, cx, &mut out);
        if let Err(v) = r {
            return fail(&v.class, format!("operation {i} {}: {}", short(o), v.detail));
        }
        for &(k, v) in &out {
            t.push((i, k, v));
        }
        let mut h = Fnv::new();
        for (_, v) in &out {
            h.u64(*v);
        }
        cx.state(h.finish());
        ensure!(
            alloc::stats().zero == z,
            "zero-size-request",
            "operation {i} {} asks the allocator for zero bytes, which is undefined",
            short(o)
        );
    }
    drop(w);
    alloc::reset();
    Ok(t)
}

fn short(o: &Op) -> String {
    let s = format!("{o:?}");
    s.chars().take(80).collect()
}

fn exec(v: &Value, cx: &mut Cx) -> Res {
    let p: Plan = plan(v)?;
    // the two histories request memory in the same way, the recorder included
    let (mut c1, mut c2) = (Cx::new(), Cx::new());
    let a = history(&p, &p.mem, &mut c1)?;
    let b = history(&p, &p.other, &mut c2)?;
    for c in [c1, c2] {
        for (k, v) in c.faults {
            *cx.faults.entry(k).or_insert(0) += v;
        }
        for (k, v) in c.probes {
            *cx.probes.entry(k).or_insert(0) += v;
        }
        cx.states.extend(c.states);
        cx.steps += c.steps;
        cx.sim_us += c.sim_us;
    }
    p.mem.count(cx);
    p.other.count(cx);
    cx.nontrivial = true;
    for (x, y) in a.iter().zip(&b) {
        ensure!(
            x == y,
            "memory-dependent",
            "operation {} {}: {} differs between two memory contents",
            x.0,
            short(&p.ops[x.0]),
            x.1
        );
    }
    ensure!(a.len() == b.len(), "memory-dependent", "the two histories have {} and {} results", a.len(), b.len());
    for (i, _, h) in &a {
        cx.u(*i as u64);
        cx.u(*h);
    }
    Ok(())
}

pub static C11: Prop = Prop {
    id: "C11",
    gen,
    exec,
    runs: (12_000, 400_000),
    rule: "A seeded history of context creation, cloning, loading, saving, restoring, sampling, blending, hierarchy and \
           skinning runs is executed twice in memory with different previous content, address reuse and fencing; the \
           histories of all results must be identical, and fresh contexts must be equal. Requests for memory are refused \
           at chosen points. Every block is followed by canaries or an inaccessible page; released blocks are watched.",
    measure: "distinct hashes of the results of one operation",
    real: &["ozz_animation_rs: SamplingContext, Animation, Skeleton, Track, all jobs used, serde and rkyv code", "serde_json, ciborium, bincode, rkyv"],
    stub: &["the global allocator (content, address reuse, refusals, guard pages)", "byte streams"],
    assumptions: &[
        "blocks below 48 bytes are guarded by canaries only, so reads past their end are not seen",
        "refusals unwind from the standard allocation error hook, as std allows",
    ],
};
