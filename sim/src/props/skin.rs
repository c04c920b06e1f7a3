//! C16: skinning in any division and order of batches.

use crate::cx::{fail, plan, Cx, Mem, Prop, Res, BAD_PLAN};
use crate::ensure;
use crate::props::hierarchy::rand_mat;
use crate::rng::{Fnv, Rng};
use crate::util::*;
use glam::{Mat4, Vec3};
use ozz_animation_rs::*;
use serde::{Deserialize, Serialize};
use serde_json::Value;
use std::sync::{Arc, RwLock};

#[derive(Serialize, Deserialize, Clone, Debug)]
struct Batch {
    start: u32,
    len: u32,
    /// Which of the reused jobs runs it.
    job: u32,
    /// Elements of the buffers beyond the batch.
    spare: [u32; 4],
    /// 0 counted buffers, 1 borrowed slices, 2 owned vectors
    own: u32,
    /// 0: none; 1 index out of range in the batch, 2 short weights, 3 short indices, 4 short output, 5 short input,
    /// 6 no matrices, 7 empty matrices, 8 short normals output, 9 no influences, 10 few it matrices, 11 poisoned matrices
    fault: u32,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
struct Plan {
    mem: Mem,
    seed: u32,
    vertices: u32,
    influences: u32,
    joints: u32,
    normals: bool,
    tangents: bool,
    it: bool,
    weights: u32,
    batches: Vec<Batch>,
    /// New matrices before these batches (a new frame starts: all vertices are redone).
    frames: u32,
}

fn gen(rng: &mut Rng, thorough: bool) -> Value {
    let vertices = match rng.below(5) {
        0 => rng.range(1, 4),
        1 => rng.range(60, 200),
        _ => rng.range(2, 40),
    } as u32;
    let max = if thorough { 40 } else { 16 };
    let n = rng.usize(0, max);
    let faults = *rng.pick(&[0u32, 0, 60, 200]);
    Plan {
        mem: Mem::gen(rng),
        seed: rng.u64() as u32,
        vertices,
        influences: *rng.pick(&[1u32, 2, 3, 4, 5, 6, 8]),
        joints: if rng.pm(40) { rng.range(120, 700) } else { rng.range(1, 40) } as u32,
        normals: rng.pm(600),
        tangents: rng.pm(500),
        it: rng.pm(400),
        weights: rng.below(4) as u32,
        batches: (0..n)
            .map(|_| Batch {
                start: rng.below(vertices as u64 + 1) as u32,
                len: rng.below(vertices as u64 + 1) as u32,
                job: rng.below(3) as u32,
                spare: std::array::from_fn(|_| if rng.pm(300) { rng.below(9) as u32 } else { 0 }),
                own: rng.below(3) as u32,
                fault: if rng.pm(faults) { rng.range(1, 11) as u32 } else { 0 },
            })
            .collect(),
        frames: rng.range(1, 2) as u32,
    }
    .to()
}

impl Plan {
    fn to(&self) -> Value {
        serde_json::to_value(self).unwrap()
    }
}

struct Mesh {
    n: usize,
    k: usize,
    idx: Vec<u16>,
    w: Vec<f32>,
    pos: Vec<Vec3>,
    nor: Vec<Vec3>,
    tan: Vec<Vec3>,
    m: Vec<Mat4>,
    it: Vec<Mat4>,
}

fn mesh(p: &Plan, frame: u32) -> Mesh {
    let mut rng = Rng::new(0x5C1 ^ (p.seed as u64) << 8);
    let (n, k, j) = (p.vertices as usize, p.influences as usize, p.joints as usize);
    let v = |rng: &mut Rng| Vec3::new(rng.f(-2.0, 2.0), rng.f(-2.0, 2.0), rng.f(-2.0, 2.0));
    let mut w = Vec::new();
    for _ in 0..n {
        let mut left = 1.0f32;
        for i in 0..k - 1 {
            let x = match p.weights {
                0 => rng.f(0.0, left as f64),
                1 => {
                    if i == 0 {
                        1.0
                    } else {
                        0.0
                    }
                }
                2 => rng.f(-0.5, 1.5),
                _ => 1.0 / k as f32,
            };
            left = (left - x).max(0.0);
            w.push(x);
        }
    }
    let idx = (0..n * k).map(|_| rng.below(j as u64) as u16).collect();
    let pos = (0..n).map(|_| v(&mut rng)).collect();
    let nor: Vec<Vec3> = (0..n).map(|_| v(&mut rng)).collect();
    let tan = (0..n).map(|_| v(&mut rng)).collect();
    let m: Vec<Mat4> = (0..j).map(|i| rand_mat(1 + p.seed % 1000 + i as u32 + frame * 977)).collect();
    let it = m.iter().map(|m| m.inverse().transpose()).collect();
    Mesh { n, k, idx, w, pos, nor, tan, m, it }
}

const MARK: Vec3 = Vec3::new(-777.25, 1e30, 0.125);

type Arcs = SkinningJobArc;

fn arc<T>(v: Vec<T>) -> Arc<RwLock<Vec<T>>> {
    Arc::new(RwLock::new(v))
}

fn with_spare<T: Clone>(v: &[T], a: usize, b: usize, spare: usize, fill: T) -> Vec<T> {
    let mut o = v[a..b].to_vec();
    o.extend(std::iter::repeat_n(fill, spare));
    o
}

fn blend(ms: &[Mat4], p: &Mesh, v: usize) -> ([f64; 16], [f64; 16]) {
    let mut o = [0.0; 16];
    let mut mag = [0.0; 16];
    let mut sum = 0.0f64;
    for i in 0..p.k {
        let w = if i + 1 < p.k { p.w[v * (p.k - 1) + i] as f64 } else { 1.0 - sum };
        sum += if i + 1 < p.k { w } else { 0.0 };
        let m = ms[p.idx[v * p.k + i] as usize].to_cols_array();
        for c in 0..16 {
            o[c] += w * m[c] as f64;
            mag[c] += (w * m[c] as f64).abs() + 2e-1 * (m[c] as f64).abs();
        }
    }
    (o, mag)
}

fn apply(m: &([f64; 16], [f64; 16]), v: Vec3, point: f64) -> ([f64; 3], [f64; 3]) {
    let x = [v.x as f64, v.y as f64, v.z as f64, point];
    let mut o = [0.0; 3];
    let mut g = [0.0; 3];
    for r in 0..3 {
        for c in 0..4 {
            o[r] += m.0[c * 4 + r] * x[c];
            g[r] += m.1[c * 4 + r] * x[c].abs();
        }
    }
    (o, g)
}

fn exec(v: &Value, cx: &mut Cx) -> Res {
    let p: Plan = plan(v)?;
    if p.vertices > 2000 || p.influences == 0 || p.influences > 16 || p.joints == 0 || p.joints > 1024 {
        return fail(BAD_PLAN, "sizes");
    }
    p.mem.apply(cx);
    let tangents = p.tangents && p.normals;
    let mut jobs: Vec<Arcs> = (0..3).map(|_| Arcs::default()).collect();
    for frame in 0..p.frames {
        let m = mesh(&p, frame);
        // everything at once
        let all = {
            let mut j: Arcs = Arcs::default();
            let o: Vec<_> = (0..3).map(|_| arc(vec![MARK; m.n])).collect();
            j.set_vertex_count(m.n);
            j.set_influences_count(m.k);
            j.set_joint_matrices(arc(m.m.clone()));
            j.set_joint_indices(arc(m.idx.clone()));
            if m.k > 1 {
                j.set_joint_weights(arc(m.w.clone()));
            }
            j.set_in_positions(arc(m.pos.clone()));
            j.set_out_positions(o[0].clone());
            if p.normals {
                j.set_in_normals(arc(m.nor.clone()));
                j.set_out_normals(o[1].clone());
                if p.it {
                    j.set_joint_it_matrices(arc(m.it.clone()));
                }
            }
            if tangents {
                j.set_in_tangents(arc(m.tan.clone()));
                j.set_out_tangents(o[2].clone());
            }
            ensure!(j.validate(), "run-refused", "validation refuses a complete job");
            if let Err(e) = j.run() {
                return fail("run-refused", format!("skinning {} vertices with {} influences: {e:?}", m.n, m.k));
            }
            o.iter().map(|o| o.read().unwrap().clone()).collect::<Vec<_>>()
        };
        // against the weighted sum
        for i in 0..m.n {
            let t = blend(&m.m, &m, i);
            let n = if p.it && p.normals { blend(&m.it, &m, i) } else { t };
            for (o, (x, pt, mt)) in [(m.pos[i], 1.0, &t), (m.nor[i], 0.0, &n), (m.tan[i], 0.0, &n)].into_iter().enumerate() {
                if o == 1 && !p.normals || o == 2 && !tangents {
                    continue;
                }
                let (want, mag) = apply(mt, x, pt);
                for c in 0..3 {
                    let g = all[o][i][c] as f64;
                    ensure!(
                        (g - want[c]).abs() <= mag[c] * 3e-6,
                        "wrong-vertex",
                        "vertex {i} {} component {c} is {g} but the weighted sum is {}",
                        ["position", "normal", "tangent"][o],
                        want[c]
                    );
                }
            }
        }
        // in batches: given ones, then whatever they left out
        let mut seen: Vec<Vec<Vec3>> = vec![vec![MARK; m.n]; 3];
        let mut done = vec![false; m.n];
        let mut batches = p.batches.clone();
        let mut order = Rng::new(p.seed as u64 ^ 77);
        for b in &batches {
            if b.fault == 0 {
                let (s, e) = range(b, m.n);
                done[s..e].fill(true);
            }
        }
        let mut i = 0;
        while i < m.n {
            if done[i] {
                i += 1;
                continue;
            }
            let s = i;
            while i < m.n && !done[i] {
                i += 1;
            }
            let at = order.usize(0, batches.len());
            batches.insert(at, Batch { start: s as u32, len: (i - s) as u32, job: order.below(3) as u32, spare: [0; 4], own: order.below(3) as u32, fault: 0 });
        }
        for (bi, b) in batches.iter().enumerate() {
            cx.steps += 1;
            let (s, e) = range(b, m.n);
            let len = e - s;
            let sp = |i: usize| b.spare[i] as usize % 16;
            let mut idx = with_spare(&m.idx, s * m.k, e * m.k, sp(0), u16::MAX);
            let mut w = with_spare(&m.w, s * (m.k - 1), e * (m.k - 1), sp(1), f32::NAN);
            let mut pos = with_spare(&m.pos, s, e, sp(2), Vec3::NAN);
            let nor = with_spare(&m.nor, s, e, sp(2), Vec3::NAN);
            let tan = with_spare(&m.tan, s, e, sp(2), Vec3::NAN);
            let mut mm = m.m.clone();
            let mut it = m.it.clone();
            let mut outs: Vec<Vec<Vec3>> = (0..3).map(|o| with_spare(&seen[o], s, e, sp(3), MARK)).collect();
            let mut fault = b.fault;
            let mut poison = false;
            // 1: index error, 2: invalid job, 3: poison
            let mut expect = 0;
            match fault {
                1 if len > 0 => {
                    let k = (bi * 31 + p.seed as usize) % (len * m.k);
                    idx[k] = p.joints as u16 + (bi % 3) as u16 * 1000;
                    expect = 1;
                }
                2 if len > 0 && m.k > 1 => {
                    w.truncate(len * (m.k - 1) - 1);
                    expect = 2;
                }
                3 if len > 0 => {
                    idx.truncate(len * m.k - 1);
                    expect = 2;
                }
                4 if len > 0 => {
                    outs[0].truncate(len - 1);
                    expect = 2;
                }
                5 if len > 0 => {
                    pos.truncate(len - 1);
                    expect = 2;
                }
                6 => expect = 2,
                7 => {
                    mm.clear();
                    expect = 2;
                }
                8 if len > 0 && p.normals => {
                    outs[1].truncate(len - 1);
                    expect = 2;
                }
                9 => expect = 2,
                10 if len > 0 && p.normals && p.it => {
                    let hi = *idx[..len * m.k].iter().max().unwrap() as usize;
                    it.truncate(hi);
                    expect = 1;
                }
                11 => {
                    poison = b.own == 0;
                    expect = if poison { 3 } else { 0 };
                }
                _ => {}
            }
            if expect == 0 {
                fault = 0;
            } else {
                cx.fault(
                    [
                        "", "joint index without matrix", "short weights", "short indices", "short output", "short input", "no matrices", "empty matrices", "short normals output",
                        "no influences", "few inverse matrices", "poisoned matrices",
                    ][fault as usize],
                );
            }
            let before = outs.clone();
            macro_rules! setup {
                ($j:expr, $f:ident, $o:expr) => {{
                    $j.set_vertex_count(len);
                    $j.set_influences_count(if fault == 9 { 0 } else { m.k });
                    if fault == 6 {
                        $j.clear_joint_matrices();
                    } else {
                        $j.set_joint_matrices($f(&mm));
                    }
                    $j.set_joint_indices($f(&idx));
                    if m.k > 1 || sp(1) % 2 == 1 {
                        $j.set_joint_weights($f(&w));
                    } else {
                        $j.clear_joint_weights();
                    }
                    $j.set_in_positions($f(&pos));
                    if p.normals {
                        $j.set_in_normals($f(&nor));
                    } else {
                        $j.clear_in_normals();
                    }
                    if tangents {
                        $j.set_in_tangents($f(&tan));
                    } else {
                        $j.clear_in_tangents();
                    }
                    if p.it && (p.normals || bi % 2 == 0) {
                        $j.set_joint_it_matrices($f(&it));
                    } else {
                        $j.clear_joint_it_matrices();
                    }
                    let mut o = $o.into_iter();
                    $j.set_out_positions(o.next().unwrap());
                    $j.set_out_normals(o.next().unwrap());
                    $j.set_out_tangents(o.next().unwrap());
                }};
            }
            let (ok, r) = match b.own % 3 {
                0 => {
                    let j = &mut jobs[b.job as usize % 3];
                    let o: Vec<_> = outs.iter().map(|o| arc(o.clone())).collect();
                    setup!(j, arcs, o.iter().cloned());
                    if poison {
                        let pm = arcs(&mm);
                        poison_mats(&pm);
                        j.set_joint_matrices(pm);
                    }
                    let ok = j.validate();
                    let r = j.run();
                    for (x, y) in outs.iter_mut().zip(&o) {
                        *x = y.read().unwrap().clone();
                    }
                    (ok, r)
                }
                1 => {
                    let mut j: SkinningJobRef = SkinningJobRef::default();
                    setup!(j, slice, outs.iter_mut().map(|o| &mut o[..]));
                    (j.validate(), j.run())
                }
                _ => {
                    let mut j: SkinningJob<Vec<Mat4>, Vec<u16>, Vec<f32>, Vec<Vec3>, Vec<Vec3>> = SkinningJob::default();
                    setup!(j, cl, outs.iter().cloned());
                    let r = (j.validate(), j.run());
                    outs = vec![j.out_positions().unwrap().clone(), j.out_normals().unwrap().clone(), j.out_tangents().unwrap().clone()];
                    r
                }
            };
            let what = format!("frame {frame} batch {bi} (vertices {s}..{e}, {} influences, ownership {})", m.k, b.own % 3);
            cx.note(|| format!("{what}: fault {fault} -> {r:?}"));
            match (expect, &r) {
                (0, Ok(())) => ensure!(ok, "run-refused", "{what}: ran, although validation said it would not"),
                (0, Err(e)) => return fail("run-refused", format!("{what}: {e:?}")),
                (1, Err(OzzError::InvalidIndex)) => {
                    // vertices before the bad one may be done, the others must be as before
                    for o in 0..3 {
                        for i in 0..outs[o].len() {
                            let same = same3(outs[o][i], before[o][i]);
                            let right = i < len && same3(outs[o][i], all[o][s + i]);
                            ensure!(same || right, "wrote-wrong", "{what}: a run ending in an index error left a wrong value in element {i}");
                        }
                    }
                    continue;
                }
                (2, Err(OzzError::InvalidJob)) | (3, Err(OzzError::LockPoison)) => {
                    ensure!(!ok, "accepted", "{what}: validation accepts a job that cannot run (fault {fault})");
                    for o in 0..3 {
                        for i in 0..outs[o].len() {
                            ensure!(same3(outs[o][i], before[o][i]), "wrote-refused", "{what}: a refused run wrote element {i}");
                        }
                    }
                    continue;
                }
                (_, r) => return fail("wrong-error", format!("{what}: fault {fault} gives {r:?}")),
            }
            for o in 0..3 {
                let used = o == 0 || o == 1 && p.normals || o == 2 && tangents;
                for i in 0..outs[o].len() {
                    if i < len && used {
                        ensure!(
                            same3(outs[o][i], all[o][s + i]),
                            "batch-dependent",
                            "{what}: vertex {} {} is {} but {} when all vertices are skinned at once",
                            s + i,
                            ["position", "normal", "tangent"][o],
                            outs[o][i],
                            all[o][s + i]
                        );
                        seen[o][s + i] = outs[o][i];
                    } else {
                        ensure!(same3(outs[o][i], before[o][i]), "wrote-beyond", "{what}: element {i} of output {o} beyond the batch was written");
                    }
                }
            }
            let mut h = Fnv::new();
            for x in [len.min(8), m.k, p.normals as usize, tangents as usize, p.it as usize, b.own as usize % 3, sp(3).min(1), bi.min(4)] {
                h.u64(x as u64);
            }
            cx.state(h.finish());
        }
        for o in 0..3 {
            if o == 0 || o == 1 && p.normals || o == 2 && tangents {
                if let Some(k) = diff_bits(vec3s(&seen[o]), vec3s(&all[o])) {
                    return fail("batch-dependent", format!("output {o}: vertex {} differs after all batches", k / 3));
                }
                cx.f32s(vec3s(&all[o]));
            }
        }
        if batches.len() > 1 {
            cx.fault("mesh divided into batches");
        }
        cx.sim_us += 16_667;
    }
    Ok(())
}

fn range(b: &Batch, n: usize) -> (usize, usize) {
    let s = (b.start as usize).min(n);
    (s, (s + b.len as usize).min(n))
}

fn same3(a: Vec3, b: Vec3) -> bool {
    diff_num(&a.to_array(), &b.to_array()).is_none()
}

fn slice<T>(v: &Vec<T>) -> &[T] {
    v
}

fn arcs<T: Clone>(v: &Vec<T>) -> Arc<RwLock<Vec<T>>> {
    arc(v.clone())
}

fn cl<T: Clone>(v: &Vec<T>) -> Vec<T> {
    v.clone()
}

fn poison_mats(m: &Arc<RwLock<Vec<Mat4>>>) {
    let o = m.clone();
    let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(move || {
        let _g = o.write().unwrap();
        panic!("thread dies while holding the buffer");
    }));
    crate::take_panic();
}

pub const C16: Prop = Prop {
    id: "C16",
    gen,
    exec,
    runs: (300_000, 8_000_000),
    rule: "one run = one mesh (1-200 vertices, 1-8 influences, optional normals, tangents, inverse matrices) skinned at once and in up to 40 overlapping batches in random order on three reused jobs, borrowed slices and owned vectors, with spare buffer elements and refused batches; each vertex compared bit for bit with the run at once and with the f64 weighted sum; distinct by the hash of all vertices",
    measure: "distinct (batch length, influences, attributes, ownership, spare elements, position) combinations",
    real: &["SkinningJob (all kernels)", "OzzBuf/OzzMutBuf for Arc<RwLock<Vec>>, slices and Vec"],
    stub: &["batch order", "memory allocator content and address reuse"],
    assumptions: &["finite matrices and weights"],
};
