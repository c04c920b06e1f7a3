//! C14: a blended frame depends only on that frame's layers.

use crate::cx::{fail, plan, Cx, Mem, Prop, Res, BAD_PLAN};
use crate::ensure;
use crate::gen::{rand_soa, SkelSpec};
use crate::props::sampling::poison;
use crate::rng::{Fnv, Rng};
use crate::util::*;
use glam::Vec4;
use ozz_animation_rs::math::SoaTransform;
use ozz_animation_rs::*;
use serde::{Deserialize, Serialize};
use serde_json::Value;
use std::sync::{Arc, RwLock};

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct LayerSpec {
    /// Index of the pose in the pool.
    pub pose: u32,
    pub weight: f32,
    /// 0: no mask, otherwise the seed of one.
    pub mask: u32,
    /// Elements of the mask beyond the skeleton.
    pub mask_extra: u32,
}

impl LayerSpec {
    pub fn gen(rng: &mut Rng, poses: u32, additive: bool) -> LayerSpec {
        LayerSpec {
            pose: rng.below(poses as u64) as u32,
            weight: gen_weight(rng, additive),
            mask: if rng.pm(350) { 1 + rng.below(1000) as u32 } else { 0 },
            mask_extra: if rng.pm(200) { rng.below(4) as u32 } else { 0 },
        }
    }
}

pub fn gen_weight(rng: &mut Rng, additive: bool) -> f32 {
    match rng.below(8) {
        0 => *rng.pick(&[0.0, 0.0, -0.0]),
        1 => 1.0,
        2 => {
            if additive {
                -rng.f(0.05, 1.0)
            } else {
                -rng.f(0.0, 2.0)
            }
        }
        3 => rng.f(0.0, 0.15),
        4 => {
            if additive {
                -1.0
            } else {
                rng.f(1.0, 20.0)
            }
        }
        _ => rng.f(0.0, 1.0),
    }
}

pub fn mask(seed: u32, n: usize) -> Vec<Vec4> {
    let mut rng = Rng::new(0x3A5C ^ (seed as u64) << 4);
    let style = rng.below(5);
    (0..n)
        .map(|_| {
            let mut a = [0f32; 4];
            for x in a.iter_mut() {
                *x = match style {
                    0 => rng.below(2) as f32,
                    1 => rng.f(0.0, 1.0),
                    2 => rng.f(-1.0, 1.5),
                    3 => *rng.pick(&[-0.0, 0.0, 1.0, 0.5]),
                    _ => {
                        if rng.pm(500) {
                            0.0
                        } else {
                            rng.f(0.0, 0.2)
                        }
                    }
                };
            }
            Vec4::from_array(a)
        })
        .collect()
}

pub fn pose(seed: u32, n: usize) -> Vec<SoaTransform> {
    let mut rng = Rng::new(0x905E ^ (seed as u64) << 8);
    let style = *rng.pick(&[0, 0, 0, 1, 2]);
    (0..n).map(|_| soa_from(&rand_soa(&mut rng, style))).collect()
}

/// Pose suited to additive layers (small rotations, scale near one) or an ordinary one.
pub fn additive_pose(seed: u32, n: usize) -> Vec<SoaTransform> {
    pose(seed, n)
}

#[derive(Serialize, Deserialize, Clone, Debug)]
enum Op {
    Run,
    Add { additive: bool, layer: LayerSpec },
    Remove { additive: bool, at: u32 },
    Change { additive: bool, at: u32, layer: LayerSpec },
    /// New content for a pose buffer (a new sampled frame).
    Pose { at: u32, seed: u32 },
    Threshold(f32),
    /// New context with room for n soa joints; none: take it and put it back.
    Context(Option<u32>),
    Skeleton(u32),
    /// A run that must fail, repaired afterwards:
    /// 0 no output, 1 short output, 2 no skeleton, 3 no context, 4 bad threshold, 5 short layer, 6 poisoned layer,
    /// 7 short mask, 8 poisoned output, 9 short additive layer, 10 poisoned additive layer, 11 short additive mask
    Fail(u32),
    /// Another thread's output: replace the output buffer by one with n extra elements.
    Output(u32),
}

#[derive(Serialize, Deserialize, Clone, Debug)]
struct Plan {
    mem: Mem,
    big: bool,
    skels: Vec<SkelSpec>,
    poses: Vec<u32>,
    pose_extra: u32,
    out_extra: u32,
    dirt: u32,
    ops: Vec<Op>,
}

fn gen(rng: &mut Rng, thorough: bool) -> Value {
    let ns = 1 + rng.below(2) as usize;
    let np = rng.usize(1, 6) as u32;
    let len = rng.usize(4, if thorough { 90 } else { 40 });
    let fails = *rng.pick(&[0u32, 0, 40, 120]);
    let mut ops = Vec::new();
    for _ in 0..rng.usize(0, 4) {
        ops.push(Op::Add { additive: rng.pm(250), layer: LayerSpec::gen(rng, np, false) });
    }
    for _ in 0..len {
        if rng.pm(fails) {
            ops.push(Op::Fail(rng.below(12) as u32));
        }
        let additive = rng.pm(300);
        ops.push(match rng.below(20) {
            0..=8 => Op::Run,
            9 | 10 => Op::Add { additive, layer: LayerSpec::gen(rng, np, additive) },
            11 | 12 => Op::Remove { additive, at: rng.below(8) as u32 },
            13 | 14 => Op::Change { additive, at: rng.below(8) as u32, layer: LayerSpec::gen(rng, np, additive) },
            15 => Op::Pose { at: rng.below(np as u64) as u32, seed: rng.u64() as u32 },
            16 => Op::Threshold(match rng.below(4) {
                0 => 0.1,
                1 => rng.f(0.5, 3.0),
                _ => rng.f(0.001, 1.0),
            }),
            17 => Op::Context(if rng.pm(300) { None } else { Some(rng.below(30) as u32) }),
            18 => Op::Skeleton(rng.below(ns as u64) as u32),
            _ => Op::Output(rng.below(4) as u32),
        });
    }
    ops.push(Op::Run);
    let mut skels: Vec<SkelSpec> = (0..ns).map(|_| SkelSpec::gen(rng, 80)).collect();
    if rng.pm(4) {
        skels[0].wide(rng);
    }
    serde_json::to_value(Plan {
        mem: Mem::gen(rng),
        big: rng.pm(200),
        skels,
        poses: (0..np).map(|_| rng.u64() as u32).collect(),
        pose_extra: *rng.pick(&[0u32, 0, 1, 3]),
        out_extra: *rng.pick(&[0u32, 0, 1, 3]),
        dirt: rng.u64() as u32,
        ops,
    })
    .unwrap()
}

type Buf = Arc<RwLock<Vec<SoaTransform>>>;

/// Layers as seen by the model: transforms, weight, mask.
pub struct ModelLayer<'a> {
    pub pose: &'a [SoaTransform],
    pub weight: f32,
    pub mask: Option<&'a [Vec4]>,
}

/// f64 reference of one lane; the flags say whether translation, rotation and scale are comparable
/// (well conditioned).
pub struct LaneResult {
    pub v: [f64; 10],
    pub tol: [f64; 3],
    pub rot_ok: bool,
    pub scale_ok: bool,
}

pub fn lane(v: &SoaTransform, l: usize) -> [f64; 10] {
    let f = fl(std::slice::from_ref(v));
    std::array::from_fn(|c| f[c * 4 + l] as f64)
}

pub fn model_blend(rest: &SoaTransform, idx: usize, l: usize, layers: &[ModelLayer], add: &[ModelLayer], threshold: f32) -> LaneResult {
    let mut acc = [0f64; 10];
    let mut mag = [0f64; 3];
    let mut w_sum = 0f64;
    let mut rot_ok = true;
    let mut first = true;
    let mut margin = f64::INFINITY;
    let mut push = |p: [f64; 10], w: f64, first: bool, acc: &mut [f64; 10], mag: &mut [f64; 3]| {
        for c in 0..3 {
            acc[c] += p[c] * w;
            mag[0] = mag[0].max((p[c] * w).abs());
            acc[7 + c] += p[7 + c] * w;
            mag[2] = mag[2].max((p[7 + c] * w).abs());
        }
        let dot: f64 = (3..7).map(|c| acc[c] * p[c]).sum();
        if !first && w != 0.0 {
            let la: f64 = (3..7).map(|c| acc[c] * acc[c]).sum::<f64>().sqrt();
            if la > 0.0 {
                margin = margin.min(dot.abs() / la);
            }
        }
        let s = if !first && dot < 0.0 { -1.0 } else { 1.0 };
        for c in 3..7 {
            acc[c] += s * p[c] * w;
            mag[1] = mag[1].max((p[c] * w).abs());
        }
    };
    let mut partial = false;
    let mut total = 0f64;
    for ly in layers {
        if ly.weight <= 0.0 {
            continue;
        }
        let w = ly.weight as f64 * ly.mask.map_or(1.0, |m| m[idx][l].max(0.0) as f64);
        partial |= ly.mask.is_some();
        push(lane(&ly.pose[idx], l), w, first, &mut acc, &mut mag);
        first = false;
        w_sum += w;
        total += ly.weight as f64;
    }
    // without masks every joint has the same weight
    let have = if partial { w_sum } else { total };
    let missing = threshold as f64 - have;
    let mut norm = have;
    if missing > 0.0 {
        let w = if first { 1.0 } else { missing };
        push(lane(rest, l), w, first, &mut acc, &mut mag);
        // what is missing is a difference: its error is one of the terms' size
        let r = lane(rest, l);
        for c in 0..10 {
            let k = if c < 3 { 0 } else if c < 7 { 1 } else { 2 };
            mag[k] = mag[k].max(r[c].abs() * (threshold as f64).max(have));
        }
        norm = if first { 1.0 } else { threshold as f64 };
    }
    let mut o = [0f64; 10];
    for c in [0, 1, 2, 7, 8, 9] {
        o[c] = acc[c] / norm;
    }
    let len = (3..7).map(|c| acc[c] * acc[c]).sum::<f64>().sqrt();
    for c in 3..7 {
        o[c] = acc[c] / len;
    }
    let n = (layers.len() + add.len() + 3) as f64;
    let mut tol = [mag[0] / norm * 4e-7 * n + 1e-30, mag[1] / len * 4e-7 * n + 1e-6, mag[2] / norm * 4e-7 * n + 1e-30];
    rot_ok &= len > mag[1] * 1e-3 && margin > 1e-4;
    let mut scale_ok = true;
    for ly in add {
        if ly.weight == 0.0 {
            continue;
        }
        let sub = ly.weight < 0.0;
        let w = ly.weight.abs() as f64 * ly.mask.map_or(1.0, |m| m[idx][l].max(0.0) as f64);
        let p = lane(&ly.pose[idx], l);
        let sg = if sub { -1.0 } else { 1.0 };
        let t0 = tol[2];
        tol[2] = 0.0;
        for c in 0..3 {
            o[c] += sg * p[c] * w;
            tol[0] += (p[c] * w).abs() * 4e-7 + o[c].abs() * 2e-7;
            let f = 1.0 - w + p[7 + c] * w;
            let big = 1.0 + w + (p[7 + c] * w).abs();
            if sub {
                if f.abs() < big * 0.05 {
                    scale_ok = false;
                }
                o[7 + c] /= f;
                tol[2] = tol[2].max(t0 / f.abs() + o[7 + c].abs() * 4e-7 * big / f.abs());
            } else {
                tol[2] = tol[2].max(t0 * f.abs() + o[7 + c].abs() * big * 4e-7);
                o[7 + c] *= f;
            }
        }
        if p[6].abs() < 1e-6 && p[6] != 0.0 {
            rot_ok = false;
        }
        let s = if p[6] < 0.0 { -1.0 } else { 1.0 };
        let mut q = [s * p[3] * w, s * p[4] * w, s * p[5] * w, (s * p[6] - 1.0) * w + 1.0];
        let ql = q.iter().map(|x| x * x).sum::<f64>().sqrt();
        if ql < 0.02 {
            rot_ok = false;
        }
        for x in q.iter_mut() {
            *x /= ql;
        }
        if sub {
            for x in &mut q[..3] {
                *x = -*x;
            }
        }
        let a = [o[3], o[4], o[5], o[6]];
        o[3] = a[3] * q[0] + a[0] * q[3] + a[1] * q[2] - a[2] * q[1];
        o[4] = a[3] * q[1] + a[1] * q[3] + a[2] * q[0] - a[0] * q[2];
        o[5] = a[3] * q[2] + a[2] * q[3] + a[0] * q[1] - a[1] * q[0];
        o[6] = a[3] * q[3] - a[0] * q[0] - a[1] * q[1] - a[2] * q[2];
        tol[1] += 2e-6 + 1e-6 * w / ql;
    }
    LaneResult { v: o, tol, rot_ok, scale_ok }
}

fn exec(v: &Value, cx: &mut Cx) -> Res {
    let p: Plan = plan(v)?;
    if p.skels.is_empty() || p.poses.is_empty() || p.skels.iter().any(|s| s.joints == 0 || s.joints > 1024) {
        return fail(BAD_PLAN, "empty");
    }
    p.mem.apply(cx);
    let models: Vec<_> = p.skels.iter().map(|s| s.build()).collect();
    let mut skels = Vec::new();
    for m in &models {
        skels.push(Arc::new(load_skel(m, p.big)?));
    }
    let room = models.iter().map(|m| m.soa()).max().unwrap();
    let poses: Vec<Buf> = p.poses.iter().map(|&s| Arc::new(RwLock::new(pose(s, room + p.pose_extra as usize)))).collect();
    let mut out: Buf = Arc::new(RwLock::new(dirt(p.dirt, room + p.out_extra as usize)));
    let mut cur = 0usize;
    let mut threshold = 0.1f32;
    let mut layers: [Vec<LayerSpec>; 2] = [Vec::new(), Vec::new()];
    let mk = |l: &LayerSpec, room: usize| BlendingLayer {
        transform: poses[l.pose as usize % poses.len()].clone(),
        weight: l.weight,
        joint_weights: if l.mask > 0 { mask(l.mask, room + l.mask_extra as usize) } else { Vec::new() },
    };
    let mut job: BlendingJobArc = BlendingJob::default();
    job.set_skeleton(skels[0].clone());
    job.set_output(out.clone());
    macro_rules! lv {
        ($j:expr, $a:expr) => {
            if $a {
                $j.additive_layers_mut()
            } else {
                $j.layers_mut()
            }
        };
    }
    for (i, op) in p.ops.iter().enumerate() {
        cx.steps += 1;
        cx.note(|| format!("op {i}: {op:?}"));
        match op {
            Op::Add { additive, layer } => {
                if layers[*additive as usize].len() < 12 {
                    lv!(job, *additive).push(mk(layer, room));
                    layers[*additive as usize].push(layer.clone());
                }
            }
            Op::Remove { additive, at } => {
                let l = &mut layers[*additive as usize];
                if !l.is_empty() {
                    let k = *at as usize % l.len();
                    l.remove(k);
                    lv!(job, *additive).remove(k);
                    cx.fault("layer removed");
                }
            }
            Op::Change { additive, at, layer } => {
                let l = &mut layers[*additive as usize];
                if !l.is_empty() {
                    let k = *at as usize % l.len();
                    let new = mk(layer, room);
                    let slot = &mut lv!(job, *additive)[k];
                    if at / 8 % 2 == 0 {
                        *slot = new;
                    } else {
                        slot.transform = new.transform;
                        slot.weight = new.weight;
                        slot.joint_weights = new.joint_weights;
                    }
                    l[k] = layer.clone();
                    cx.fault("layer changed");
                }
            }
            Op::Pose { at, seed } => {
                let k = *at as usize % poses.len();
                *poses[k].write().unwrap() = pose(*seed, room + p.pose_extra as usize);
            }
            Op::Threshold(t) => {
                if !(*t > 0.0) {
                    return fail(BAD_PLAN, "threshold");
                }
                threshold = *t;
                job.set_threshold(*t);
            }
            Op::Context(n) => {
                cx.fault("context replaced");
                match n {
                    Some(n) => job.set_context(BlendingContext::new(*n as usize % 64)),
                    None => {
                        let c = job.take_context().unwrap();
                        job.set_context(c.clone());
                    }
                }
            }
            Op::Skeleton(k) => {
                let k = *k as usize % skels.len();
                if k != cur {
                    cx.fault("skeleton switch");
                }
                cur = k;
                job.set_skeleton(skels[cur].clone());
            }
            Op::Output(e) => {
                out = Arc::new(RwLock::new(dirt(p.dirt, room + *e as usize % 16)));
                job.set_output(out.clone());
            }
            Op::Fail(kind) => {
                let soa = models[cur].soa();
                let short = Arc::new(RwLock::new(vec![SoaTransform::default(); soa - 1]));
                let add = *kind >= 9;
                let sp = LayerSpec { pose: 0, weight: 0.7, mask: 0, mask_extra: 0 };
                let mut pushed = false;
                cx.fault(
                    [
                        "run without output", "run with short output", "run without skeleton", "run without context", "run with bad threshold", "run with short layer",
                        "run with poisoned layer", "run with short mask", "run with poisoned output", "run with short additive layer", "run with poisoned additive layer",
                        "run with short additive mask",
                    ][*kind as usize % 12],
                );
                match kind % 12 {
                    0 => job.clear_output(),
                    1 => job.set_output(short),
                    2 => job.clear_skeleton(),
                    3 => job.clear_context(),
                    4 => job.set_threshold(if i % 2 == 0 { 0.0 } else { -1.0 }),
                    8 => job.set_output(poison(room)),
                    k => {
                        let mut l = mk(&sp, room);
                        match k {
                            5 | 9 => l.transform = short,
                            6 | 10 => l.transform = poison(room),
                            _ => {
                                if soa < 2 {
                                    continue;
                                }
                                l.joint_weights = vec![Vec4::ONE; soa - 1];
                            }
                        }
                        lv!(job, add).push(l);
                        pushed = true;
                    }
                }
                let r = job.run();
                ensure!(r.is_err(), "accepted", "op {i}: a run with an unusable resource ({kind}) succeeded");
                if pushed {
                    lv!(job, add).pop();
                }
                job.set_output(out.clone());
                job.set_skeleton(skels[cur].clone());
                job.set_threshold(threshold);
                if job.context().is_none() {
                    job.set_context(BlendingContext::default());
                }
            }
            Op::Run => {
                let n = models[cur].soa();
                let len = out.read().unwrap().len();
                let d = dirt(p.dirt.wrapping_add(i as u32), len);
                out.write().unwrap().copy_from_slice(&d);
                if let Err(e) = job.run() {
                    return fail("run-refused", format!("op {i}: blending fails: {e:?}"));
                }
                // a job that has never run, exact output
                let mut fresh: BlendingJobArc = BlendingJob::default();
                let o2: Buf = Arc::new(RwLock::new(vec![SoaTransform::default(); n]));
                fresh.set_skeleton(skels[cur].clone());
                fresh.set_output(o2.clone());
                fresh.set_threshold(threshold);
                for a in [false, true] {
                    for l in &layers[a as usize] {
                        lv!(fresh, a).push(mk(l, room));
                    }
                }
                if let Err(e) = fresh.run() {
                    return fail("run-refused", format!("op {i}: a fresh job fails: {e:?}"));
                }
                let got = out.read().unwrap();
                let want = o2.read().unwrap();
                if let Some(k) = diff_bits(fl(&got[..n]), fl(&want)) {
                    return fail(
                        "history-dependent",
                        format!("op {i}: float {} of soa joint {} is {} but {} from a new job", k % 40, k / 40, fl(&got)[k], fl(&want)[k]),
                    );
                }
                if let Some(k) = diff_bits(&fl(&got)[n * 40..], &fl(&d)[n * 40..]) {
                    return fail("wrote-beyond", format!("op {i}: output element {} beyond the {n} of the skeleton was written", n + k / 40));
                }
                // the model
                let guards: Vec<_> = poses.iter().map(|b| b.read().unwrap()).collect();
                let masks: Vec<Vec<Option<Vec<Vec4>>>> = (0..2)
                    .map(|a| layers[a].iter().map(|l| (l.mask > 0).then(|| mask(l.mask, room + l.mask_extra as usize))).collect())
                    .collect();
                let ml: Vec<Vec<ModelLayer>> = (0..2)
                    .map(|a| {
                        layers[a]
                            .iter()
                            .enumerate()
                            .map(|(k, l)| ModelLayer {
                                pose: &guards[l.pose as usize % poses.len()][..],
                                weight: l.weight,
                                mask: masks[a][k].as_deref(),
                            })
                            .collect()
                    })
                    .collect();
                let rest = skels[cur].joint_rest_poses();
                for idx in 0..n {
                    for l in 0..4 {
                        let r = model_blend(&rest[idx], idx, l, &ml[0], &ml[1], threshold);
                        let g = lane(&got[idx], l);
                        for c in 0..10 {
                            let (grp, ok) = match c {
                                0..=2 => (0, true),
                                3..=6 => (1, r.rot_ok),
                                _ => (2, r.scale_ok),
                            };
                            if !ok {
                                cx.probe("ill-conditioned lane not compared");
                                continue;
                            }
                            ensure!(
                                (g[c] - r.v[c]).abs() <= r.tol[grp],
                                "wrong-pose",
                                "op {i}: joint {} {} component {c}: blended {} but the layers give {} (tolerance {})",
                                idx * 4 + l,
                                ["translation", "rotation", "scale"][grp],
                                g[c],
                                r.v[c],
                                r.tol[grp]
                            );
                        }
                    }
                }
                let act = layers[0].iter().filter(|l| l.weight > 0.0).count();
                let par = layers[0].iter().filter(|l| l.weight > 0.0 && l.mask > 0).count();
                let mut h = Fnv::new();
                for x in [act, par, layers[1].iter().filter(|l| l.weight > 0.0).count(), layers[1].iter().filter(|l| l.weight < 0.0).count(), n, got.len() - n] {
                    h.u64(x as u64);
                }
                cx.state(h.finish());
                if act == 0 {
                    cx.probe("rest pose only");
                }
                if par > 0 {
                    cx.probe("masked layers");
                }
                cx.f32s(fl(&got[..n]));
                cx.sim_us += 16_667;
            }
        }
    }
    Ok(())
}

pub const C14: Prop = Prop {
    id: "C14",
    gen,
    exec,
    runs: (500_000, 12_000_000),
    rule: "one run = one blending job over up to 90 operations (layers added, removed, reweighted, masked, poses moving, threshold, context, skeleton and output replaced, failing runs); every frame compared bit for bit with a new job and, within rounding, with an f64 evaluation of the current layers; distinct by the hash of all blended poses",
    measure: "distinct (active layers, masked layers, additive and subtractive layers, size, spare output) combinations",
    real: &["BlendingJob", "BlendingContext", "Skeleton loader", "SoaTransform maths", "OzzBuf/OzzMutBuf for Arc<RwLock<Vec>>"],
    stub: &["frame sequence", "memory allocator content and address reuse", "archive byte source"],
    assumptions: &["finite transforms and weights", "rotations whose hemisphere decision or length is within rounding of zero are only compared bit for bit"],
};
