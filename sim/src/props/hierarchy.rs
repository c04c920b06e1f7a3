//! C15: partial hierarchy updates.

use crate::cx::{fail, plan, Cx, Mem, Prop, Res, BAD_PLAN};
use crate::ensure;
use crate::gen::{rand_soa, SkelModel, SkelSpec};
use crate::rng::{Fnv, Rng};
use crate::util::*;
use glam::Mat4;
use ozz_animation_rs::math::SoaTransform;
use ozz_animation_rs::*;
use serde::{Deserialize, Serialize};
use serde_json::Value;
use std::sync::{Arc, RwLock};

#[derive(Serialize, Deserialize, Clone, Debug)]
enum Up {
    /// The whole hierarchy (0: default limits, 1: explicit, 2: wide open limits).
    Full(u32),
    /// from = the joint.
    Subtree,
    /// from = to = the joint, then its descendants with from excluded.
    JointThenBelow,
    /// from = the joint, to = some joint in the subtree, then the rest by a full subtree update.
    Part(u32),
    /// from = an ancestor.
    Ancestor(u32),
    /// from = to = the joint only (descendants stay stale).
    Only,
    /// Arbitrary limits.
    Raw { from: i32, to: i32, excluded: bool },
}

#[derive(Serialize, Deserialize, Clone, Debug)]
enum Op {
    Edit { joint: u32, seed: u32, more: u32, up: Up },
    Root { seed: u32 },
    Fail(u32),
    /// The job runs on another object's pose in between (own buffers).
    Other { seed: u32 },
}

#[derive(Serialize, Deserialize, Clone, Debug)]
struct Plan {
    mem: Mem,
    big: bool,
    skel: SkelSpec,
    other: SkelSpec,
    seed: u32,
    in_extra: u32,
    out_extra: u32,
    /// Reuse one job (otherwise a new one for each update).
    reuse: bool,
    ops: Vec<Op>,
}

fn limit(rng: &mut Rng) -> i32 {
    match rng.below(10) {
        0 => i32::MAX,
        1 => i32::MIN,
        2 => -1,
        3 => 1024,
        4 => -rng.range(2, 2000) as i32,
        5 => rng.range(0, 2000) as i32,
        _ => rng.range(0, 40) as i32,
    }
}

fn gen(rng: &mut Rng, thorough: bool) -> Value {
    let len = rng.usize(2, if thorough { 60 } else { 30 });
    let raw = *rng.pick(&[0u32, 100, 300]);
    let ops = (0..len)
        .map(|_| match rng.below(24) {
            0 => Op::Root { seed: rng.u64() as u32 },
            1 => Op::Fail(rng.below(6) as u32),
            2 => Op::Other { seed: rng.u64() as u32 },
            _ => Op::Edit {
                joint: rng.below(3000) as u32,
                seed: rng.u64() as u32,
                more: if rng.pm(300) { rng.range(1, 6) as u32 } else { 0 },
                up: if rng.pm(raw) {
                    Up::Raw { from: limit(rng), to: limit(rng), excluded: rng.pm(400) }
                } else {
                    match rng.below(12) {
                        0 => Up::Full(rng.below(3) as u32),
                        1..=4 => Up::Subtree,
                        5 | 6 => Up::JointThenBelow,
                        7 | 8 => Up::Part(rng.below(100) as u32),
                        9 | 10 => Up::Ancestor(rng.below(20) as u32),
                        _ => Up::Only,
                    }
                },
            },
        })
        .collect();
    let mut skel = SkelSpec::gen(rng, 90);
    if rng.pm(12) {
        skel.wide(rng);
    }
    serde_json::to_value(Plan {
        mem: Mem::gen(rng),
        big: rng.pm(200),
        skel,
        other: SkelSpec::gen(rng, 40),
        seed: rng.u64() as u32,
        in_extra: *rng.pick(&[0u32, 0, 1, 3]),
        out_extra: *rng.pick(&[0u32, 0, 1, 5]),
        reuse: rng.pm(700),
        ops,
    })
    .unwrap()
}

fn affine(v: &SoaTransform, l: usize) -> [[f64; 4]; 4] {
    let f = fl(std::slice::from_ref(v));
    let g = |c: usize| f[c * 4 + l] as f64;
    let (x, y, z, w) = (g(3), g(4), g(5), g(6));
    let s = [g(7), g(8), g(9)];
    [
        [s[0] * (1.0 - 2.0 * (y * y + z * z)), s[0] * 2.0 * (x * y + z * w), s[0] * 2.0 * (x * z - y * w), 0.0],
        [s[1] * 2.0 * (x * y - z * w), s[1] * (1.0 - 2.0 * (x * x + z * z)), s[1] * 2.0 * (y * z + x * w), 0.0],
        [s[2] * 2.0 * (x * z + y * w), s[2] * 2.0 * (y * z - x * w), s[2] * (1.0 - 2.0 * (x * x + y * y)), 0.0],
        [g(0), g(1), g(2), 1.0],
    ]
}

fn mul(a: &[[f64; 4]; 4], b: &[[f64; 4]; 4]) -> ([[f64; 4]; 4], [[f64; 4]; 4]) {
    let mut o = [[0.0; 4]; 4];
    let mut m = [[0.0; 4]; 4];
    for c in 0..4 {
        for r in 0..4 {
            for k in 0..4 {
                o[c][r] += a[k][r] * b[c][k];
                m[c][r] += (a[k][r] * b[c][k]).abs();
            }
        }
    }
    (o, m)
}

fn m64(m: &Mat4) -> [[f64; 4]; 4] {
    m.to_cols_array_2d().map(|c| c.map(|x| x as f64))
}

pub fn rand_mat(seed: u32) -> Mat4 {
    let mut rng = Rng::new(0x3A7 ^ (seed as u64) << 8);
    if seed == 0 {
        return Mat4::IDENTITY;
    }
    let a = soa_from(&rand_soa(&mut rng, 0));
    let m = affine(&a, 0);
    Mat4::from_cols_array_2d(&m.map(|c| c.map(|x| x as f32)))
}

/// Joints an update with these limits covers.
pub fn covered(m: &SkelModel, from: i32, to: i32, excluded: bool) -> Vec<usize> {
    let n = m.n();
    let below = |mut j: i64| -> bool {
        // is j in the subtree of from
        while j >= 0 {
            if j == from as i64 {
                return true;
            }
            j = m.parents[j as usize] as i64;
        }
        from < 0
    };
    (0..n)
        .filter(|&j| below(j as i64) && j as i64 <= to as i64 && !(excluded && j as i64 == from as i64))
        .collect()
}

type Job = LocalToModelJobArc;

struct World {
    m: SkelModel,
    skel: Arc<Skeleton>,
    input: Arc<RwLock<Vec<SoaTransform>>>,
    output: Arc<RwLock<Vec<Mat4>>>,
    root: Mat4,
}

fn update(w: &World, job: &mut Option<Job>, from: i32, to: i32, excluded: bool, what: &str, cx: &mut Cx) -> Res {
    cx.steps += 1;
    let mut j = job.take().unwrap_or_default();
    j.set_skeleton(w.skel.clone());
    j.set_input(w.input.clone());
    j.set_output(w.output.clone());
    j.set_root(&w.root);
    j.set_from(from);
    j.set_to(to);
    j.set_from_excluded(excluded);
    let before = w.output.read().unwrap().clone();
    ensure!(j.validate(), "run-refused", "{what}: validation refuses valid resources");
    if let Err(e) = j.run() {
        return fail("run-refused", format!("{what}: update fails: {e:?}"));
    }
    let after = w.output.read().unwrap();
    let set = covered(&w.m, from, to, excluded);
    let mut it = set.iter().peekable();
    let inp = w.input.read().unwrap();
    let mut scale_skip = 0;
    for i in 0..after.len() {
        if it.peek() == Some(&&i) {
            it.next();
            let p = w.m.parents[i];
            let parent = if p < 0 { m64(&w.root) } else { m64(&after[p as usize]) };
            let (want, mag) = mul(&parent, &affine(&inp[i / 4], i % 4));
            let got = m64(&after[i]);
            // the local matrix itself is rounded: its error is relative to the largest element of a column
            let big: f64 = parent.iter().flatten().fold(0f64, |a, b| a.max(b.abs()));
            let loc = affine(&inp[i / 4], i % 4).iter().flatten().fold(0f64, |a, b| a.max(b.abs()));
            for c in 0..4 {
                for r in 0..4 {
                    let tol = 1e-6 * mag[c][r] + 1e-6 * big * if c < 3 { 3.0f64.max(loc.min(3.0)) } else { 1e-3 } + 1e-30;
                    if !want[c][r].is_finite() || want[c][r].abs() > 1e30 {
                        scale_skip += 1;
                        continue;
                    }
                    ensure!(
                        (got[c][r] - want[c][r]).abs() <= tol,
                        "wrong-matrix",
                        "{what}: update from {from} to {to} excluded {excluded}: joint {i} column {c} row {r} is {} but parent * local is {}",
                        got[c][r],
                        want[c][r]
                    );
                }
            }
        } else {
            ensure!(
                diff_bits(mats(&after[i..i + 1]), mats(&before[i..i + 1])).is_none(),
                "outside-limits",
                "{what}: update from {from} to {to} excluded {excluded} changed joint {i} of {}, which lies outside the limits",
                w.m.n()
            );
        }
    }
    if scale_skip > 0 {
        cx.probe("overflowing matrices not compared");
    }
    let mut h = Fnv::new();
    for x in [from.clamp(-2, 100) as i64, to.clamp(-2, 100) as i64, excluded as i64, set.len() as i64, w.m.n() as i64] {
        h.u64(x as u64);
    }
    cx.state(h.finish());
    cx.note(|| format!("{what}: update from {from} to {to} excluded {excluded}: {} joints", set.len()));
    cx.probe(if set.is_empty() {
        "limits cover nothing"
    } else if set.len() == w.m.n() {
        "limits cover everything"
    } else {
        "limits cover a part"
    });
    *job = Some(j);
    Ok(())
}

/// A full recomputation by a new job into a new buffer.
fn full(w: &World) -> Res<Vec<Mat4>> {
    let out = Arc::new(RwLock::new(vec![Mat4::ZERO; w.m.n()]));
    let mut j: Job = Job::default();
    j.set_skeleton(w.skel.clone());
    j.set_input(w.input.clone());
    j.set_output(out.clone());
    j.set_root(&w.root);
    if let Err(e) = j.run() {
        return fail("run-refused", format!("full update fails: {e:?}"));
    }
    let o = out.read().unwrap().clone();
    Ok(o)
}

fn exec(v: &Value, cx: &mut Cx) -> Res {
    let p: Plan = plan(v)?;
    if p.skel.joints == 0 || p.skel.joints > 1024 || p.other.joints == 0 || p.other.joints > 500 {
        return fail(BAD_PLAN, "joints");
    }
    p.mem.apply(cx);
    let mk = |s: &SkelSpec, seed: u32| -> Res<World> {
        let m = s.build();
        let skel = Arc::new(load_skel(&m, p.big)?);
        let mut rng = Rng::new(seed as u64);
        let input = (0..m.soa() + p.in_extra as usize).map(|_| soa_from(&rand_soa(&mut rng, 0))).collect();
        let mut output = vec![Mat4::from_cols_array(&[f32::from_bits(0x7fc0_1234); 16]); m.n() + p.out_extra as usize];
        for (i, o) in output.iter_mut().enumerate() {
            o.x_axis.x = i as f32;
        }
        Ok(World { m, skel, input: Arc::new(RwLock::new(input)), output: Arc::new(RwLock::new(output)), root: rand_mat(if seed % 2 == 0 { 0 } else { seed }) })
    };
    let mut w = mk(&p.skel, p.seed)?;
    let mut o = mk(&p.other, p.seed ^ 1)?;
    let mut job: Option<Job> = None;
    update(&w, &mut job, SKELETON_NO_PARENT, SKELETON_MAX_JOINTS, false, "start", cx)?;
    let n = w.m.n();
    for (i, op) in p.ops.iter().enumerate() {
        if !p.reuse {
            job = None;
        }
        let what = format!("op {i}");
        let mut stale = false;
        match op {
            Op::Root { seed } => {
                w.root = rand_mat(*seed);
                update(&w, &mut job, -1, n as i32, false, &what, cx)?;
            }
            Op::Other { seed } => {
                let mut rng = Rng::new(*seed as u64);
                for t in o.input.write().unwrap().iter_mut() {
                    *t = soa_from(&rand_soa(&mut rng, 0));
                }
                o.root = rand_mat(*seed);
                let f = rng.range(-1, o.m.n() as i64) as i32;
                update(&o, &mut job, f, 1024, f >= 0 && rng.pm(300), &what, cx)?;
                cx.fault("job used elsewhere in between");
            }
            Op::Fail(kind) => {
                cx.fault(["run without output", "run with short output", "run without input", "run with short input", "run without skeleton", "run with poisoned input"][*kind as usize % 6]);
                let mut j = job.take().unwrap_or_default();
                j.set_skeleton(w.skel.clone());
                j.set_input(w.input.clone());
                j.set_output(w.output.clone());
                match kind % 6 {
                    0 => j.clear_output(),
                    1 => j.set_output(Arc::new(RwLock::new(vec![Mat4::ZERO; n - 1]))),
                    2 => j.clear_input(),
                    3 => j.set_input(Arc::new(RwLock::new(vec![SoaTransform::default(); w.m.soa() - 1]))),
                    4 => j.clear_skeleton(),
                    _ => j.set_input(crate::props::sampling::poison(w.m.soa())),
                }
                ensure!(j.run().is_err(), "accepted", "op {i}: a run with an unusable resource ({kind}) succeeded");
                job = Some(j);
            }
            Op::Edit { joint, seed, more, up } => {
                let j = *joint as usize % n;
                let mut rng = Rng::new(0xED17 ^ *seed as u64);
                let sub = covered(&w.m, j as i32, i32::MAX - 1, false);
                let mut edit = |k: usize| {
                    let new = rand_soa(&mut rng, 0);
                    let mut g = w.input.write().unwrap();
                    let old = g[k / 4];
                    let f = flm(std::slice::from_mut(&mut g[k / 4]));
                    for c in 0..10 {
                        f[c * 4 + k % 4] = new[c * 4 + k % 4];
                    }
                    // the same edit through the accessors of the pose
                    let (l, from) = (k % 4, soa_from(&new));
                    let mut api = old;
                    match *seed % 3 {
                        0 => api.set_transform(l, from.transform(l)),
                        1 => {
                            api.translation.set_vec3(l, from.translation.vec3(l));
                            api.rotation.set_quat(l, from.rotation.quat(l));
                            api.scale.set_vec3(l, from.scale.vec3(l));
                        }
                        _ => api.set_transform(l, g[k / 4].transform(l)),
                    }
                    let (a, b) = (fl(std::slice::from_ref(&api)), fl(std::slice::from_ref(&g[k / 4])));
                    if let Some(c) = diff_bits(a, b) {
                        return fail(
                            "wrong-edit",
                            format!("op {i}: setting joint {k} through the accessors makes component {} of joint {} {} instead of {}", c / 4, k / 4 * 4 + c % 4, a[c], b[c]),
                        );
                    }
                    Ok(())
                };
                edit(j)?;
                for e in 0..*more as usize {
                    edit(sub[(e * 7 + *seed as usize) % sub.len()])?;
                }
                cx.fault("local pose edited");
                let (j, last) = (j as i32, *sub.last().unwrap() as i32);
                match up {
                    Up::Full(0) => update(&w, &mut job, SKELETON_NO_PARENT, SKELETON_MAX_JOINTS, false, &what, cx)?,
                    Up::Full(1) => update(&w, &mut job, -1, n as i32 - 1, true, &what, cx)?,
                    Up::Full(_) => update(&w, &mut job, i32::MIN, i32::MAX, false, &what, cx)?,
                    Up::Subtree => update(&w, &mut job, j, if seed % 2 == 0 { last } else { 1024 }, false, &what, cx)?,
                    Up::JointThenBelow => {
                        update(&w, &mut job, j, j, false, &what, cx)?;
                        update(&w, &mut job, j, last, true, &what, cx)?;
                    }
                    Up::Part(t) => {
                        let to = sub[*t as usize % sub.len()] as i32;
                        update(&w, &mut job, j, to, false, &what, cx)?;
                        update(&w, &mut job, j, last, false, &what, cx)?;
                    }
                    Up::Ancestor(k) => {
                        let mut a = j;
                        for _ in 0..*k {
                            let q = w.m.parents[a as usize] as i32;
                            if q < 0 {
                                break;
                            }
                            a = q;
                        }
                        update(&w, &mut job, a, 1024, false, &what, cx)?;
                    }
                    Up::Only => {
                        update(&w, &mut job, j, j, false, &what, cx)?;
                        stale = sub.len() > 1 || *more > 0;
                    }
                    Up::Raw { from, to, excluded } => {
                        update(&w, &mut job, *from, *to, *excluded, &what, cx)?;
                        stale = true;
                    }
                }
            }
        }
        if stale {
            // catch up, as a caller would at the end of its frame
            update(&w, &mut job, SKELETON_NO_PARENT, SKELETON_MAX_JOINTS, false, &what, cx)?;
        }
        let f = full(&w)?;
        let g = w.output.read().unwrap();
        if let Some(k) = diff_num(mats(&g[..n]), mats(&f)) {
            return fail(
                "inconsistent",
                format!("op {i} ({op:?}): after the update joint {} differs from a full recomputation: {} instead of {}", k / 16, mats(&g)[k], mats(&f)[k]),
            );
        }
        cx.f32s(mats(&g[..n]));
        cx.sim_us += 16_667;
    }
    Ok(())
}

pub const C15: Prop = Prop {
    id: "C15",
    gen,
    exec,
    runs: (300_000, 8_000_000),
    rule: "one run = one skeleton, up to 60 local pose edits each followed by an update limited to the joint, its subtree, a part of it, an ancestor or arbitrary limits, with failed runs and other users of the job in between; after each update joints outside the limits are compared bit for bit with before, joints inside with parent * local in f64, and all with a full recomputation by a new job; distinct by the hash of all matrices",
    measure: "distinct (from, to, excluded, joints covered, joints) updates",
    real: &["LocalToModelJob", "Skeleton loader", "SoaMat4/AosMat4 maths", "OzzBuf/OzzMutBuf for Arc<RwLock<Vec>>"],
    stub: &["edit sequence", "memory allocator content and address reuse", "archive byte source"],
    assumptions: &["joints in depth-first order, as the ozz builder guarantees"],
};
