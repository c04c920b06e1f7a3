//! C18: characters whose solvers correct the pose frame after frame.

use crate::cx::{fail, plan, Cx, Mem, Prop, Res};
use crate::ensure;
use crate::gen::SkelModel;
use crate::rng::{Fnv, Rng};
use crate::util::*;
use glam::{DMat4, DQuat, DVec3, Mat4, Quat, Vec3A};
use glam_ext::Transform3A;
use ozz_animation_rs::math::SoaTransform;
use ozz_animation_rs::*;
use serde::{Deserialize, Serialize};
use serde_json::Value;
use std::sync::{Arc, RwLock};

#[derive(Serialize, Deserialize, Clone, Debug)]
struct Actor {
    seed: u32,
    /// Joints above the chain, between its first two and between its last two joints.
    above: u32,
    between: [u32; 2],
    /// Lengths of the bones in the space of the start joint.
    bones: [f32; 2],
    /// 0: no scale, 1: uniform scale, 2: uniform scale with mirrored joints.
    scale: u32,
    /// Corrections stay in the pose (otherwise every frame starts from the animated pose).
    feedback: bool,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
enum Op {
    /// A frame of all actors.
    Step { ms: u32, seed: u32 },
    /// The target jumps: 0 within reach, 1 at the limit of reach, 2 far, 3 near the start, 4 where the end is,
    /// 5 opposite of the end, 6 where softening starts.
    Target { actor: u32, class: u32, seed: u32 },
    /// The target starts to move (or stops).
    Speed { actor: u32, speed: f32, seed: u32 },
    /// 0 pole, 1 twist, 2 soften, 3 weight, 4 other bend side, 5 aim axes, 6 aim offset, 7 aim weight, 8 aim twist, 9 motion layers,
    /// 10 the pose is replaced, 11 bone lengths
    Set { actor: u32, what: u32, seed: u32 },
    /// 0 frame without solvers, 1 target that is not a number, 2 unnormalised axis, 3 new job objects, 4 cleared outputs, 5 infinite target,
    /// 6 no extent
    Fault { actor: u32, kind: u32 },
    /// Nothing moves any more: the solvers run on their own results.
    Steady { weight: f32 },
}

#[derive(Serialize, Deserialize, Clone, Debug)]
struct Plan {
    mem: Mem,
    actors: Vec<Actor>,
    /// All actors use the same job objects.
    share: bool,
    ops: Vec<Op>,
}

fn gen(rng: &mut Rng, thorough: bool) -> Value {
    let len = rng.usize(3, if thorough { 80 } else { 30 });
    let n = if rng.pm(700) { 1 } else { rng.usize(2, 3) };
    let calm = rng.pm(300);
    let ops = (0..len)
        .map(|_| {
            let actor = rng.below(n as u64) as u32;
            let seed = rng.u64() as u32;
            match rng.below(20) {
                0..=8 => Op::Step { ms: if rng.pm(800) { 16 } else { rng.below(300) as u32 }, seed: if calm { 0 } else { seed } },
                9..=11 => Op::Target { actor, class: rng.below(7) as u32, seed },
                12 => Op::Speed { actor, speed: *rng.pick(&[0.0, 0.5, 3.0]), seed },
                13..=16 => Op::Set { actor, what: rng.below(12) as u32, seed },
                17 => Op::Fault { actor, kind: rng.below(7) as u32 },
                18 => Op::Fault { actor, kind: 0 },
                _ => Op::Steady { weight: *rng.pick(&[0.2f32, 0.35, 0.5, 0.8, 0.95, 1.0]) },
            }
        })
        .collect();
    let actors = (0..n)
        .map(|_| {
            let l = *rng.pick(&[1.0f64, 1.0, 0.3, 4.0, 20.0]);
            let r = match rng.below(4) {
                0 => 1.0,
                1 => rng.f(0.9, 1.1) as f64,
                _ => rng.f(0.4, 2.5) as f64,
            };
            Actor {
                seed: rng.u64() as u32,
                above: rng.range(1, 4) as u32,
                between: [0, 1].map(|_| if rng.pm(600) { 0 } else { rng.range(1, 2) as u32 }),
                bones: [l as f32, (l * r) as f32],
                scale: if rng.pm(500) { 0 } else { rng.range(1, 2) as u32 },
                feedback: rng.pm(550),
            }
        })
        .collect();
    serde_json::to_value(Plan { mem: Mem::gen(rng), actors, share: rng.pm(300), ops }).unwrap()
}

// ------------------------------------------------------------------------------------------------

fn dir(rng: &mut Rng) -> DVec3 {
    if rng.pm(150) {
        // along an axis
        let mut v = [0.0; 3];
        v[rng.usize(0, 2)] = if rng.pm(500) { 1.0 } else { -1.0 };
        return DVec3::from(v);
    }
    loop {
        let v = DVec3::new(rng.unit() * 2.0 - 1.0, rng.unit() * 2.0 - 1.0, rng.unit() * 2.0 - 1.0);
        if v.length() > 0.1 && v.length() <= 1.0 {
            return v.normalize();
        }
    }
}

fn perp(rng: &mut Rng, v: DVec3) -> DVec3 {
    loop {
        let p = v.cross(dir(rng));
        if p.length() > 0.2 * v.length() {
            return p.normalize();
        }
    }
}

/// A rotation by a rational parameter (no trigonometry, the same on every platform).
fn rot(axis: DVec3, t: f64) -> DQuat {
    DQuat::from_xyzw(axis.x * t, axis.y * t, axis.z * t, 1.0).normalize()
}

fn rand_rot(rng: &mut Rng) -> DQuat {
    let d = dir(rng);
    rot(d, rng.unit() * 4.0 - 2.0)
}

fn angle(q: DQuat) -> f64 {
    2.0 * DVec3::new(q.x, q.y, q.z).length().atan2(q.w.abs())
}

fn d3(v: Vec3A) -> DVec3 {
    v.as_dvec3()
}

fn f3(v: DVec3) -> Vec3A {
    v.as_vec3a()
}

fn dq(q: Quat) -> DQuat {
    q.as_dquat()
}

#[derive(Clone, Copy)]
struct Loc {
    t: DVec3,
    r: DQuat,
    s: f64,
}

struct Char {
    spec: Actor,
    rng: Rng,
    skel: Arc<Skeleton>,
    parents: Vec<i16>,
    pose: Vec<Loc>,
    input: Arc<RwLock<Vec<SoaTransform>>>,
    models: Arc<RwLock<Vec<Mat4>>>,
    start: usize,
    mid: usize,
    end: usize,
    head: usize,
    /// Hinge of the chain, in the space of the mid joint.
    hinge: DVec3,
    target: DVec3,
    velocity: DVec3,
    pole: DVec3,
    side: f64,
    twist: f32,
    soften: f32,
    weight: f32,
    forward: DVec3,
    up: DVec3,
    offset: DVec3,
    aim_twist: f32,
    aim_weight: f32,
    layers: Vec<MotionBlendingLayer>,
    jobs: usize,
    last: Option<[Quat; 3]>,
    skip: u32,
}

#[derive(Default)]
struct Jobs {
    two: IKTwoBoneJob,
    aim: IKAimJob,
    motion: MotionBlendingJob,
}

const LIMIT: f64 = 1e-9;

impl Char {
    fn new(spec: &Actor) -> Res<Char> {
        let mut rng = Rng::new(0xC18 ^ (spec.seed as u64) << 8);
        let mut parents: Vec<i16> = Vec::new();
        let above = (spec.above as usize).clamp(1, 8);
        let start = above;
        let mid = start + 1 + spec.between[0].min(4) as usize;
        let end = mid + 1 + spec.between[1].min(4) as usize;
        let head = end + 1;
        for i in 0..=end {
            parents.push(i as i16 - 1);
        }
        parents.push(rng.usize(0, above - 1) as i16);
        let n = parents.len();
        let rest = vec![[0f32; 40]; n.div_ceil(4)];
        let m = SkelModel { names: (0..n).map(|i| format!("j{i}")).collect(), parents: parents.clone(), rest };
        let skel = Arc::new(load_skel(&m, false)?);
        let mut c = Char {
            spec: spec.clone(),
            skel,
            parents,
            pose: Vec::new(),
            input: Arc::new(RwLock::new(vec![SoaTransform::default(); n.div_ceil(4)])),
            models: Arc::new(RwLock::new(vec![Mat4::IDENTITY; n])),
            start,
            mid,
            end,
            head,
            hinge: DVec3::Z,
            target: DVec3::X,
            velocity: DVec3::ZERO,
            pole: dir(&mut rng),
            side: 1.0,
            twist: 0.0,
            soften: 1.0,
            weight: 1.0,
            forward: dir(&mut rng),
            up: DVec3::Y,
            offset: DVec3::ZERO,
            aim_twist: 0.0,
            aim_weight: 1.0,
            layers: Vec::new(),
            jobs: 0,
            last: None,
            skip: 0,
            rng,
        };
        c.up = perp(&mut c.rng, c.forward);
        c.repose();
        Ok(c)
    }

    /// A new pose with the same lengths of the bones.
    fn repose(&mut self) {
        let rng = &mut self.rng;
        let n = self.parents.len();
        let size = (self.spec.bones[0] + self.spec.bones[1]) as f64;
        let pose: Vec<Loc> = (0..n)
            .map(|_| {
                let s: f64 = match self.spec.scale {
                    0 => 1.0,
                    _ => rng.f(0.6, 1.6) as f64,
                };
                let s = if self.spec.scale == 2 && rng.pm(300) { -s } else { s };
                let l = rng.unit() * 0.7 * size;
                Loc { t: dir(rng) * l, r: rand_rot(rng), s }
            })
            .collect();
        self.pose = pose;
        self.stretch();
    }

    /// Moves mid and end joint so that the bones have their lengths and the hinge is perpendicular to both.
    fn stretch(&mut self) {
        let local = |l: &Loc| DMat4::from_scale_rotation_translation(DVec3::splat(l.s), l.r, l.t);
        let below = |p: &[Loc], a: usize, b: usize| (a + 1..=b).fold(DMat4::IDENTITY, |m, i| m * local(&p[i]));
        let [l1, l2] = self.spec.bones.map(|b| b.abs().clamp(0.05, 100.0) as f64);
        let to_mid = below(&self.pose, self.start, self.mid - 1);
        // where the mid joint is, in start space
        let want = dir(&mut self.rng) * l1;
        self.pose[self.mid].t = to_mid.inverse().transform_point3(want);
        let mid_ss = to_mid * local(&self.pose[self.mid]);
        let v1 = mid_ss.inverse().transform_point3(DVec3::ZERO);
        let scale = l1 / v1.length();
        self.hinge = perp(&mut self.rng, v1);
        let bend = self.rng.unit() * 8.0 - 4.0;
        let bend = if self.rng.pm(100) { bend * 0.01 } else { bend };
        let v2 = rot(self.hinge, bend) * v1.normalize() * (l2 / scale);
        let to_end = below(&self.pose, self.mid, self.end - 1);
        self.pose[self.end].t = to_end.inverse().transform_point3(v2);
    }

    /// The animation moves on: ancestors and start joint turn, the chain bends.
    fn animate(&mut self, seed: u32) {
        if seed == 0 {
            return;
        }
        let mut r = Rng::new(0xA41 ^ (seed as u64) << 8 ^ self.spec.seed as u64);
        for i in (0..=self.start).chain([self.head]) {
            let d = dir(&mut r);
            self.pose[i].r = (self.pose[i].r * rot(d, r.unit() * 0.1)).normalize();
        }
        let b = r.unit() * 0.3 - 0.15;
        self.pose[self.mid].r = (self.pose[self.mid].r * rot(self.hinge, b)).normalize();
    }

    fn upload(&mut self) {
        let mut v = self.input.write().unwrap();
        let f = flm(&mut v);
        for (i, l) in self.pose.iter().enumerate() {
            let a = [l.t.x, l.t.y, l.t.z, l.r.x, l.r.y, l.r.z, l.r.w, l.s, l.s, l.s];
            for (c, x) in a.iter().enumerate() {
                f[i / 4 * 40 + c * 4 + i % 4] = *x as f32;
            }
        }
    }

    fn update(&mut self, from: usize) -> Res {
        self.upload();
        let mut j = LocalToModelJobArc::default();
        j.set_skeleton(self.skel.clone());
        j.set_input(self.input.clone());
        j.set_output(self.models.clone());
        if from > 0 {
            j.set_from(from as i32);
        }
        if let Err(e) = j.run() {
            return fail("run-refused", format!("hierarchy update fails: {e:?}"));
        }
        Ok(())
    }

    fn model(&self, i: usize) -> Mat4 {
        self.models.read().unwrap()[i]
    }

    fn model64(&self, i: usize) -> DMat4 {
        self.model(i).as_dmat4()
    }

    /// Lengths of the bones and the scale from start space to model space.
    fn reach(&self) -> (f64, f64, f64) {
        let inv = self.model64(self.start).inverse();
        let m = inv.transform_point3(self.model64(self.mid).w_axis.truncate());
        let e = inv.transform_point3(self.model64(self.end).w_axis.truncate());
        (m.length(), (e - m).length(), self.model64(self.start).x_axis.truncate().length())
    }

    fn retarget(&mut self, class: u32, seed: u32) -> Res {
        self.update(0)?;
        let mut r = Rng::new(0x7A6 ^ (seed as u64) << 8);
        let (l1, l2, k) = self.reach();
        let (lo, hi) = ((l1 - l2).abs(), l1 + l2);
        let soft = (self.soften as f64).clamp(0.0, 1.0);
        let s = self.model64(self.start).w_axis.truncate();
        let e = self.model64(self.end).w_axis.truncate();
        let t = r.unit();
        let d = match class % 7 {
            0 => lo + (hi - lo) * (0.05 + 0.9 * t),
            1 => *r.pick(&[hi, hi * 1.001, hi * 0.999, lo, lo * 1.01, lo * 0.99]),
            2 => hi * (1.0 + 5.0 * t),
            3 => hi * 0.05 * (1.0 + t),
            4 => {
                self.target = e;
                return Ok(());
            }
            5 => {
                self.target = s - (e - s);
                return Ok(());
            }
            _ => hi * soft * (0.95 + 0.1 * t),
        };
        self.target = s + dir(&mut r) * d * k;
        Ok(())
    }

    fn set(&mut self, what: u32, seed: u32) {
        let mut r = Rng::new(0x5E7 ^ (seed as u64) << 8);
        match what % 12 {
            0 => self.pole = dir(&mut r) * r.f(0.5, 4.0) as f64,
            1 => self.twist = if r.pm(300) { 0.0 } else { r.f(-3.2, 3.2) },
            2 => self.soften = *r.pick(&[1.0f32, 1.0, 0.97, 0.8, 0.5, 0.0, 2.0, -1.0]),
            3 => self.weight = if r.pm(500) { 1.0 } else { *r.pick(&[0.0f32, 0.5, 0.9, 0.1, 1.5, -0.3, 0.25, 0.995, 0.9999999, 1.0000001, 0.001]) },
            4 => self.side = -self.side,
            5 => {
                self.forward = dir(&mut r);
                self.up = if r.pm(700) { perp(&mut r, self.forward) } else { dir(&mut r) };
            }
            6 => {
                let l = (self.spec.bones[0] + self.spec.bones[1]) as f64;
                self.offset = if r.pm(400) { DVec3::ZERO } else { dir(&mut r) * (r.unit() * l) };
            }
            7 => self.aim_weight = if r.pm(500) { 1.0 } else { *r.pick(&[0.0f32, 0.5, 0.9, 0.1, 1.5, -0.3, 0.25, 0.995, 0.9999999, 1.0000001, 0.001]) },
            8 => self.aim_twist = if r.pm(300) { 0.0 } else { r.f(-3.2, 3.2) },
            9 => {
                let n = r.usize(0, 5);
                let style = r.below(4);
                let base = rand_rot(&mut r);
                self.layers = (0..n)
                    .map(|_| {
                        let q = match style {
                            0 => rand_rot(&mut r),
                            1 => base,
                            _ => {
                                let d = dir(&mut r);
                                base * rot(d, r.unit() * 0.3)
                            }
                        };
                        let q = if r.pm(300) { -q } else { q };
                        let len = if r.pm(150) { 0.0 } else { r.unit() * 3.0 };
                        MotionBlendingLayer {
                            weight: match r.below(6) {
                                0 => *r.pick(&[0.0f32, -0.0, -1.0, -0.2]),
                                1 => r.f(1.0, 20.0),
                                _ => r.f(0.0, 1.0),
                            },
                            delta: Transform3A { translation: f3(dir(&mut r) * len), rotation: q.as_quat(), scale: Vec3A::splat(r.f(0.5, 2.0)) },
                        }
                    })
                    .collect();
            }
            10 => {
                self.rng = Rng::new(seed as u64);
                self.repose();
            }
            _ => {
                let l = r.f(0.2, 10.0);
                self.spec.bones = [l, l * r.f(0.4, 2.5)];
                self.rng = Rng::new(seed as u64);
                self.stretch();
            }
        }
    }
}

/// What the two-bone solver is given, and the space its contract is stated in.
struct Chain {
    s: DMat4,
    l1: f64,
    l2: f64,
    target: DVec3,
    /// Distance of the target, distance the end can take.
    t: f64,
    d: f64,
    soften: f64,
}

impl Chain {
    fn new(c: &Char, target: DVec3) -> Chain {
        let s = c.model64(c.start);
        let inv = s.inverse();
        let m = inv.transform_point3(c.model64(c.mid).w_axis.truncate());
        let e = inv.transform_point3(c.model64(c.end).w_axis.truncate());
        let (l1, l2) = (m.length(), (e - m).length());
        let target = inv.transform_point3(target);
        let t = target.length();
        let chain = l1 + l2;
        let soften = (c.soften as f64).clamp(0.0, 1.0);
        let (da, ds) = (chain * soften, chain - chain * soften);
        // falls behind in the soft zone, stays within what the bones allow
        let d = if t > da && t > 0.0 && ds > 1e-6 * chain {
            let alpha = (t - da) / ds;
            da + ds - ds * (3.0 / (alpha + 3.0)).powi(4)
        } else {
            t
        };
        let d = d.clamp((l1 - l2).abs(), chain);
        Chain { s, l1, l2, target, t, d, soften: da }
    }

    /// The chain in start space after the corrections: end position and hinge.
    fn apply(&self, c: &Char, qs: DQuat, qm: DQuat) -> (DVec3, DVec3) {
        let inv = self.s.inverse();
        let m = c.model64(c.mid);
        let mid = DMat4::from_quat(qs) * inv * m * DMat4::from_quat(qm);
        let end = mid * m.inverse() * c.model64(c.end);
        (end.w_axis.truncate(), mid.transform_vector3(c.hinge * c.side))
    }
}

fn near(cx: &mut Cx, name: &str, got: f64, tol: f64) -> bool {
    if cx.verbose {
        let k = (got / tol * 20.0).min(1000.0) as u64;
        cx.probe(&format!("{name} {k:4}"));
    }
    got <= tol
}

fn nlerp(q: DQuat, w: f64) -> DQuat {
    let q = if q.w < 0.0 { -q } else { q };
    DQuat::from_xyzw(q.x * w, q.y * w, q.z * w, (q.w - 1.0) * w + 1.0).normalize()
}

fn set_two(j: &mut IKTwoBoneJob, c: &Char, target: Vec3A, weight: f32) {
    j.set_target(target);
    j.set_mid_axis(f3(c.hinge * c.side));
    j.set_pole_vector(f3(c.pole));
    j.set_twist_angle(c.twist);
    j.set_soften(c.soften);
    j.set_weight(weight);
    j.set_start_joint(c.model(c.start));
    j.set_mid_joint(c.model(c.mid));
    j.set_end_joint(c.model(c.end));
}

fn set_aim(j: &mut IKAimJob, c: &Char, target: Vec3A, weight: f32) {
    j.set_target(target);
    j.set_forward(f3(c.forward));
    j.set_offset(f3(c.offset));
    j.set_up(f3(c.up));
    j.set_pole_vector(f3(c.pole));
    j.set_twist_angle(c.aim_twist);
    j.set_weight(weight);
    j.set_joint(c.model(c.head));
}

/// How far two directions are apart.
fn apart(a: DVec3, b: DVec3) -> f64 {
    a.cross(b).length().atan2(a.dot(b))
}

/// How uncertain the rotation between two directions is: more the nearer they are to opposite.
fn turning(a: DVec3, b: DVec3) -> f64 {
    let c = (apart(a, b) / 2.0).cos();
    // nearly opposite directions are taken for opposite
    if c < 9e-4 {
        3e-3
    } else {
        1e-6 / c
    }
}

fn check_two(j: &IKTwoBoneJob, c: &Char, target: Vec3A, cx: &mut Cx, what: &str) -> Res {
    let (qs, qm) = (dq(j.start_joint_correction()), dq(j.mid_joint_correction()));
    let w = j.weight();
    if w <= 0.0 {
        ensure!(qs == DQuat::IDENTITY && qm == DQuat::IDENTITY && !j.reached(), "wrong-weighting", "{what}: weight {w} corrects the chain by {qs} and {qm}");
        cx.probe("chain: weight 0");
        return Ok(());
    }
    for q in [qs, qm] {
        ensure!((q.length() - 1.0).abs() < 1e-4, "not-a-rotation", "{what}: correction {q} has length {}", q.length());
    }
    if w < 1.0 {
        ensure!(!j.reached(), "wrong-flag", "{what}: reached with weight {w}");
        let mut full = IKTwoBoneJob::default();
        set_two(&mut full, c, target, 1.0);
        full.run().map_err(|e| crate::cx::Violation { class: "run-refused".into(), detail: format!("{what}: {e:?}") })?;
        for (name, got, f) in [("start", qs, dq(full.start_joint_correction())), ("mid", qm, dq(full.mid_joint_correction()))] {
            let want = nlerp(f, w as f64);
            if want.length() > 0.5 && f.w > 1e-4 {
                let e = angle(want.conjugate() * got);
                ensure!(near(cx, "nlerp", e, 2e-5), "wrong-weighting", "{what}: {name} correction with weight {w} is {got}, {e} off that share of the full correction {f}");
            }
        }
        cx.probe("chain: partial weight");
        return check_two(&full, c, target, cx, what);
    }
    let k = Chain::new(c, d3(target));
    let (l1, l2, t, d) = (k.l1, k.l2, k.t, k.d);
    let size = l1 + l2;
    let margin = 2e-6 * (size + t) + 1e-4 * LIMIT;
    // positions in model space are rounded before the solver sees them
    let far = [c.start, c.mid, c.end].iter().map(|&i| c.model64(i).w_axis.truncate().length()).fold(d3(target).length(), f64::max)
        / k.s.x_axis.truncate().length();
    let margin = margin + 1e-6 * far;
    let inside = t > (l1 - l2).abs() + margin && t < k.soften - margin;
    let outside = t < (l1 - l2).abs() - margin || t > k.soften + margin;
    if inside {
        ensure!(j.reached(), "wrong-flag", "{what}: not reached, target at {t}, bones {l1} and {l2}, soft from {}", k.soften);
        cx.probe("chain: reached");
    }
    if outside {
        ensure!(!j.reached(), "wrong-flag", "{what}: reached, but the target at {t} is out of reach of bones {l1} and {l2}, soft from {}", k.soften);
        cx.probe(if t > k.soften { "chain: out of reach" } else { "chain: too near" });
    }
    let (end, hinge) = k.apply(c, qs, qm);
    if d < 0.03 * size || t < 0.02 * size || t < 30.0 * margin {
        cx.probe("chain: target at the start joint, not compared");
        return Ok(());
    }
    let to = k.target / t;
    // the direction is found from the end after bending: an opposite one has no unique rotation
    let bent = k.apply(c, DQuat::IDENTITY, qm).0;
    let opposite = apart(bent, to) > std::f64::consts::PI - 0.01;
    let e = (end - to * d).length();
    // the bends before and after are found from the cosines of their angles
    let d0 = k.apply(c, DQuat::IDENTITY, DQuat::IDENTITY).0.length();
    let cos = (l1 * l1 + l2 * l2 - d0 * d0) / (2.0 * l1 * l2);
    let sin = (1.0 - cos * cos).max(0.0).sqrt();
    let eps = 5e-7 * (1.0 + l1 / l2 + l2 / l1) + 5e-7 * far * (size + d0) / (l1 * l2);
    let bend = (eps / sin.max(1e-9)).min((2.0 * eps).sqrt() * 1.5);
    let tol = 2e-6 * (size * size / d + size + far) * (1.0 + l1 / l2 + l2 / l1) + l1 * l2 / d * bend + turning(bent, to) * d;
    ensure!(
        near(cx, "end", e, tol),
        "off-target",
        "{what}: after the corrections the end is at {end}, {e} from {} (target at distance {t}, bones {l1} and {l2}, reached {})",
        to * d,
        j.reached()
    );
    // the hinge turns to the plane of target and pole
    let pole = k.s.inverse().transform_vector3(c.pole);
    let normal = to.cross(pole.normalize());
    if normal.length() > 0.1 && !opposite && bent.length() > 0.03 * size {
        let q = DQuat::from_axis_angle(to, c.twist as f64);
        let e = apart(hinge, q * normal);
        ensure!(
            near(cx, "plane", e, 3e-3),
            "wrong-plane",
            "{what}: the chain bends around {hinge}, {e} off the axis {} of target {to}, pole {pole} and twist {}",
            q * normal,
            c.twist
        );
    } else {
        cx.probe("chain: pole along the target, plane not compared");
    }
    Ok(())
}

fn check_aim(j: &IKAimJob, c: &Char, target: Vec3A, cx: &mut Cx, what: &str) -> Res {
    let q = dq(j.joint_correction());
    let w = j.weight();
    ensure!((q.length() - 1.0).abs() < 1e-4, "not-a-rotation", "{what}: aim correction {q} has length {}", q.length());
    let m = c.model64(c.head);
    let inv = m.inverse();
    let t = inv.transform_point3(d3(target));
    let (f, o, up) = (d3(f3(c.forward)), d3(f3(c.offset)), c.up);
    let far = m.w_axis.truncate().length().max(d3(target).length()) / m.x_axis.truncate().length();
    let r2 = t.length_squared();
    let ac2 = o.length_squared() - f.dot(o).powi(2);
    let margin = 2e-6 * (r2 + o.length_squared()) + 2e-6 * far * t.length();
    if t.length() < 30e-6 * far.max(1e-3) {
        cx.probe("aim: target at the joint, not compared");
        return Ok(());
    }
    if ac2 > r2 + margin {
        ensure!(!j.reached() && q == DQuat::IDENTITY, "wrong-flag", "{what}: aim: target {t} within the offset {o} is reached, correction {q}");
        cx.probe("aim: target within the offset");
        return Ok(());
    }
    if ac2 > r2 - margin {
        cx.probe("aim: target at the offset, not compared");
        return Ok(());
    }
    ensure!(j.reached(), "wrong-flag", "{what}: aim: target {t} with offset {o} is not reached");
    if w < 1.0 {
        let mut full = IKAimJob::default();
        set_aim(&mut full, c, target, 1.0);
        full.run().map_err(|e| crate::cx::Violation { class: "run-refused".into(), detail: format!("{what}: {e:?}") })?;
        let fq = dq(full.joint_correction());
        let want = nlerp(fq, (w as f64).max(0.0));
        if fq.w > 1e-4 {
            let e = angle(want.conjugate() * q);
            ensure!(near(cx, "aim nlerp", e, 2e-5), "wrong-weighting", "{what}: aim correction with weight {w} is {q}, {e} off that share of the full correction {fq}");
        }
        cx.probe("aim: partial weight");
        return check_aim(&full, c, target, cx, what);
    }
    cx.probe("aim: reached");
    let ai = (r2 - ac2).sqrt();
    let from = o + f * (ai - f.dot(o));
    let opposite = apart(from, t) > std::f64::consts::PI - 0.01;
    let line = q * f;
    let e = (t - q * o).cross(line).length();
    let tol = 2e-6 * (t.length() + o.length() + far) + (2e-6 * (r2 + margin / 2e-6) / ai).min(3e-3 * t.length()) + turning(from, t) * t.length();
    ensure!(near(cx, "aim", e, tol), "off-target", "{what}: aim: after the correction the line from {} along {line} misses the target {t} by {e}", q * o);
    if ai > f.dot(o) + tol {
        ensure!((t - q * o).dot(line) > -tol, "off-target", "{what}: aim: the target {t} is behind {} along {line}", q * o);
    }
    let pole = inv.transform_vector3(c.pole).normalize();
    let (a, b) = ((q * up).cross(t / t.length()), pole.cross(t / t.length()));
    if a.length() > 0.1 && b.length() > 0.1 && !opposite && e < 1e-3 * t.length() {
        let tw = DQuat::from_axis_angle(t / t.length(), c.aim_twist as f64);
        let e = apart(a, tw * b);
        ensure!(near(cx, "aim plane", e, 3e-3), "wrong-plane", "{what}: aim: up vector {} is {e} off the pole {pole} (twist {})", q * up, c.aim_twist);
    } else {
        cx.probe("aim: pole or up along the target, not compared");
    }
    Ok(())
}

fn check_motion(out: &Transform3A, layers: &[MotionBlendingLayer], cx: &mut Cx, what: &str) -> Res {
    let ls: Vec<_> = layers.iter().filter(|l| l.weight > 0.0).collect();
    ensure!(out.scale == Vec3A::ONE, "wrong-motion", "{what}: blended motion has scale {}", out.scale);
    let sum: f64 = ls.iter().map(|l| l.weight as f64).sum();
    let (got_t, got_r) = (d3(out.translation), dq(out.rotation));
    if ls.is_empty() {
        ensure!(got_t == DVec3::ZERO && got_r == DQuat::IDENTITY, "wrong-motion", "{what}: motion without layers is {out:?}");
        cx.probe("motion: no layer counts");
        return Ok(());
    }
    // mean length along the mean direction
    let len = ls.iter().map(|l| d3(l.delta.translation).length() * l.weight as f64).sum::<f64>() / sum;
    let mean = ls.iter().map(|l| d3(l.delta.translation).normalize_or_zero() * l.weight as f64).sum::<DVec3>() / sum;
    if mean.length() > 1e-3 {
        let want = mean.normalize() * len;
        let e = (got_t - want).length();
        ensure!(near(cx, "motion", e, 1e-6 * len * (2.0 + 1.0 / mean.length())), "wrong-motion", "{what}: motion {got_t} of {} layers instead of {want}", ls.len());
    } else {
        ensure!(got_t.length() <= len * 1.001 + 1e-6, "wrong-motion", "{what}: motion {got_t} is longer than the mean length {len}");
        cx.probe("motion: opposed directions");
    }
    // mean rotation, all on the side of what is accumulated
    let mut acc = glam::DVec4::ZERO;
    let mut clear = true;
    for l in &ls {
        let q = glam::DVec4::from(dq(l.delta.rotation));
        let dot = acc.dot(q);
        clear &= acc == glam::DVec4::ZERO || dot.abs() > 1e-5 * acc.length();
        acc += q * if dot >= 0.0 { l.weight as f64 } else { -l.weight as f64 };
    }
    if clear && acc.length() > 1e-2 * sum {
        let want = DQuat::from_vec4(acc.normalize());
        let e = angle(want.conjugate() * got_r);
        ensure!((got_r.length() - 1.0).abs() < 1e-5, "wrong-motion", "{what}: rotation {got_r} of the motion is not normalised");
        ensure!(near(cx, "motion rotation", e, 1e-6 * (2.0 + sum / acc.length())), "wrong-motion", "{what}: rotation {got_r} of {} layers instead of {want}", ls.len());
    }
    cx.probe("motion blended");
    Ok(())
}

fn words(q: Quat) -> [f32; 4] {
    q.to_array()
}

/// One frame of one actor. Gives the angles of the corrections.
fn frame(c: &mut Char, j: &mut Jobs, cx: &mut Cx, what: &str) -> Res<[f64; 3]> {
    cx.steps += 1;
    // the character walks
    j.motion.layers_mut().clear();
    j.motion.layers_mut().extend(c.layers.iter().cloned());
    if let Err(e) = j.motion.run() {
        return fail("run-refused", format!("{what}: motion: {e:?}"));
    }
    let out = j.motion.output();
    cx.f32s(&out.translation.to_array());
    cx.f32s(&words(out.rotation));
    check_motion(&out, &c.layers, cx, what)?;
    let root = &mut c.pose[0];
    let t = root.t + root.r * d3(out.translation);
    root.t = if t.length() > 30.0 { t * 0.1 } else { t };
    root.r = (root.r * dq(out.rotation)).normalize();

    let keep = c.pose.clone();
    c.update(0)?;
    if c.skip > 0 {
        // the solvers do not run in this frame: the last corrections are used again
        c.skip -= 1;
        if let (Some(q), false) = (c.last, c.spec.feedback) {
            for (i, q) in [c.start, c.mid, c.head].into_iter().zip(q) {
                c.pose[i].r = (c.pose[i].r * dq(q)).normalize();
            }
            c.update(0)?;
            c.pose = keep;
        }
        return Ok([0.0; 3]);
    }
    let target = f3(c.target);
    set_two(&mut j.two, c, target, c.weight);
    set_aim(&mut j.aim, c, target, c.aim_weight);
    for (name, r) in [("two bones", j.two.run()), ("aim", j.aim.run())] {
        if let Err(e) = r {
            return fail("run-refused", format!("{what}: {name}: {e:?}"));
        }
    }
    let q = [j.two.start_joint_correction(), j.two.mid_joint_correction(), j.aim.joint_correction()];
    for q in q {
        cx.f32s(&words(q));
    }
    cx.u(j.two.reached() as u64 + 2 * j.aim.reached() as u64);
    if !q.iter().all(|q| q.is_finite()) {
        // the caller has to keep target and pole apart
        let s = c.model64(c.start);
        let to = (d3(target) - s.w_axis.truncate()).normalize_or_zero();
        let parallel = to.cross(c.pole.normalize()).length() < 1e-5;
        ensure!(parallel && q[2].is_finite(), "not-a-rotation", "{what}: corrections {q:?} for target {target}");
        cx.fault("target and pole are parallel");
        // the application drops such a result
        if !c.spec.feedback {
            c.pose = keep;
        }
        return Ok([0.0; 3]);
    }
    check_two(&j.two, c, target, cx, what)?;
    check_aim(&j.aim, c, target, cx, what)?;
    let chain = Chain::new(c, d3(target));
    let (k_start, reached) = (c.model64(c.start).w_axis.truncate(), j.two.reached());
    for (i, q) in [c.start, c.mid, c.head].into_iter().zip(q) {
        c.pose[i].r = (c.pose[i].r * dq(q)).normalize();
    }
    c.update(if c.start < c.head { c.start } else { 0 })?;
    c.update(0)?;
    if reached && chain.d > 0.03 * (chain.l1 + chain.l2) {
        // seen by the application: the model matrices after the next update of the hierarchy
        let e = (c.model64(c.end).w_axis.truncate() - d3(target)).length();
        let size = k_start.length() + d3(target).length() + (chain.l1 + chain.l2) * chain.s.x_axis.truncate().length();
        let tol = 1e-4 * size * ((chain.l1 + chain.l2) / chain.d).max(1.0) + 4e-3 * chain.d * chain.s.x_axis.truncate().length();
        ensure!(near(cx, "applied", e, tol), "off-target", "{what}: reached, but the end joint of the updated hierarchy is {e} from the target");
    }
    let m = c.model(c.end);
    cx.f32s(&m.to_cols_array());
    c.last = Some(q);
    if !c.spec.feedback {
        c.pose = keep;
    }
    let mut h = Fnv::new();
    for x in [
        (chain.t / (chain.l1 + chain.l2) * 16.0).min(64.0) as u64,
        (chain.l1 / (chain.l1 + chain.l2) * 16.0) as u64,
        (c.soften * 8.0) as i64 as u64,
        (c.weight * 8.0) as i64 as u64,
        (c.aim_weight * 8.0) as i64 as u64,
        (c.twist != 0.0) as u64 + 2 * (c.aim_twist != 0.0) as u64 + 4 * c.spec.feedback as u64 + 8 * (c.side > 0.0) as u64,
        reached as u64 + 2 * j.aim.reached() as u64,
        c.layers.len() as u64,
        c.spec.scale as u64,
    ] {
        h.u64(x);
    }
    cx.state(h.finish());
    cx.note(|| format!("{what}: target at {:.4} of bones {:.4} + {:.4}: reached {reached}, corrections {q:?}", chain.t, chain.l1, chain.l2));
    Ok(q.map(|q| angle(dq(q))))
}

fn steady(c: &mut Char, j: &mut Jobs, weight: f32, cx: &mut Cx, what: &str) -> Res {
    let weight = weight.clamp(0.2, 1.0);
    c.skip = 0;
    c.velocity = DVec3::ZERO;
    let layers = std::mem::take(&mut c.layers);
    let (w, aw) = (c.weight, c.aim_weight);
    (c.weight, c.aim_weight) = (weight, weight);
    let n = ((1e-4f64.ln() / (1.0 - 0.75 * weight as f64).ln()).ceil() as u32).max(2);
    for i in 0..n {
        frame(c, j, cx, &format!("{what} frame {i}"))?;
        cx.sim_us += 16_667;
    }
    (c.weight, c.aim_weight) = (1.0, 1.0);
    c.update(0)?;
    let k = Chain::new(c, d3(f3(c.target)));
    let a = frame(c, j, cx, &format!("{what} last frame"))?;
    if c.spec.feedback {
        let to = k.target / k.t;
        let pole = k.s.inverse().transform_vector3(c.pole).normalize();
        let size = k.l1 + k.l2;
        // a chain that is straight or folded does not show its bend, one end at the start joint has no direction
        if k.d > 0.1 * size && k.t > 0.1 * size && to.cross(pole).length() > 0.1 {
            let flat = (k.d - size).abs().min((k.d - (k.l1 - k.l2).abs()).abs()) < 1e-3 * size;
            let tol = if flat { 0.2 } else { 2e-2 };
            ensure!(
                near(cx, "rest start", a[0], tol) && near(cx, "rest mid", a[1], tol),
                "no-progress",
                "{what}: after {n} frames with weight {weight} and a resting target at {} of bones {} and {} the chain is still corrected by {} and {}",
                k.t,
                k.l1,
                k.l2,
                a[0],
                a[1]
            );
            cx.probe("chain: comes to rest");
        }
        let inv = c.model64(c.head).inverse();
        let t = inv.transform_point3(c.target);
        let pole = inv.transform_vector3(c.pole).normalize();
        let f = c.forward;
        let ac2 = c.offset.length_squared() - f.dot(c.offset).powi(2);
        let (r2, upc) = (t.length_squared(), c.up.cross(t / t.length()).length());
        if j.aim.reached() && r2 > 1e-6 && ac2 < 0.9 * r2 && pole.cross(t / t.length()).length() > 0.1 && upc > 0.1 {
            ensure!(
                near(cx, "rest aim", a[2], 2e-2),
                "no-progress",
                "{what}: after {n} frames with weight {weight} and a resting target {t} the aim is still corrected by {}",
                a[2]
            );
            cx.probe("aim: comes to rest");
        }
    }
    (c.weight, c.aim_weight) = (w, aw);
    c.layers = layers;
    Ok(())
}

fn exec(v: &Value, cx: &mut Cx) -> Res {
    let p: Plan = plan(v)?;
    p.mem.apply(cx);
    let mut jobs: Vec<Jobs> = Vec::new();
    let mut chars = Vec::new();
    for a in &p.actors {
        let mut c = Char::new(a)?;
        c.retarget(0, a.seed)?;
        if !p.share || jobs.is_empty() {
            jobs.push(Jobs::default());
        }
        c.jobs = jobs.len() - 1;
        chars.push(c);
    }
    if chars.is_empty() {
        return Ok(());
    }
    let n = chars.len();
    let at = |a: u32| a as usize % n;
    for (i, op) in p.ops.iter().enumerate() {
        match op {
            Op::Step { ms, seed } => {
                cx.nontrivial = true;
                cx.sim_us += *ms as u64 * 1000;
                for (k, c) in chars.iter_mut().enumerate() {
                    c.animate(*seed);
                    c.target += c.velocity * (*ms as f64 / 1000.0);
                    if c.target.length() > 200.0 {
                        c.velocity = -c.velocity;
                    }
                    frame(c, &mut jobs[c.jobs], cx, &format!("op {i} actor {k}"))?;
                }
            }
            Op::Target { actor, class, seed } => {
                cx.fault("target jumps");
                chars[at(*actor)].retarget(*class, *seed)?;
            }
            Op::Speed { actor, speed, seed } => {
                let mut r = Rng::new(*seed as u64);
                chars[at(*actor)].velocity = dir(&mut r) * *speed as f64;
            }
            Op::Set { actor, what, seed } => chars[at(*actor)].set(*what, *seed),
            Op::Fault { actor, kind } => {
                let c = &mut chars[at(*actor)];
                let j = &mut jobs[c.jobs];
                match kind % 7 {
                    0 => {
                        cx.fault("frame without solvers");
                        c.skip += 1;
                    }
                    k @ (1 | 5) => {
                        cx.fault("target is not a number");
                        c.update(0)?;
                        let t = Vec3A::splat(if k == 1 { f32::NAN } else { f32::INFINITY });
                        set_two(&mut j.two, c, t, 1.0);
                        set_aim(&mut j.aim, c, t, 1.0);
                        // the application drops these results
                        let _ = (j.two.run(), j.aim.run());
                    }
                    2 => {
                        cx.fault("axis not normalised");
                        c.update(0)?;
                        set_two(&mut j.two, c, f3(c.target), 1.0);
                        set_aim(&mut j.aim, c, f3(c.target), 1.0);
                        j.two.set_mid_axis(f3(c.hinge * 0.9));
                        j.aim.set_forward(f3(c.forward * 1.1));
                        let (a, b) = (j.two.run(), j.aim.run());
                        ensure!(
                            matches!(a, Err(OzzError::InvalidJob)) && matches!(b, Err(OzzError::InvalidJob)),
                            "not-refused",
                            "op {i}: axes that are not normalised give {a:?} and {b:?}"
                        );
                    }
                    3 => {
                        cx.fault("restart of the application");
                        *j = Jobs::default();
                        c.last = None;
                    }
                    4 => {
                        cx.fault("results cleared");
                        j.two.clear_outs();
                        j.aim.clear_outs();
                        j.motion.clear_output();
                    }
                    _ => {
                        cx.fault("chain without extent");
                        set_two(&mut j.two, c, f3(c.target), 1.0);
                        j.two.set_mid_joint(c.model(c.start));
                        j.two.set_end_joint(c.model(c.start));
                        let _ = j.two.run();
                    }
                }
            }
            Op::Steady { weight } => {
                cx.fault("faults stop");
                for (k, c) in chars.iter_mut().enumerate() {
                    steady(c, &mut jobs[c.jobs], *weight, cx, &format!("op {i} actor {k} at rest"))?;
                }
            }
        }
    }
    Ok(())
}

pub const C18: Prop = Prop {
    id: "C18",
    gen,
    exec,
    runs: (800_000, 10_000_000),
    rule: "one run = up to three characters with a chain of two bones, an aiming joint and root motion, played for up to 80 operations of a simulated application: moving and jumping targets, changing poles, twists, weights and bone lengths, corrections fed back into the pose, frames without solvers, targets that are not numbers, refused runs, restarts; every frame the corrections are applied in f64 and by the hierarchy update and compared with where the chain can reach; after the faults stop the corrections must fade within a bounded number of frames; distinct by the hash of all corrections",
    measure: "distinct (relative distance, bone ratio, softening, weights, twists, feedback, flags, layers, scale) frames",
    real: &["IKTwoBoneJob", "IKAimJob", "MotionBlendingJob", "LocalToModelJob", "Skeleton loader", "AosMat4/quaternion maths"],
    stub: &["application loop and clock", "targets", "memory allocator content and address reuse"],
    assumptions: &[
        "the hinge axis is perpendicular to both bones and the joints of the chain are scaled uniformly, as the solver requires",
        "bones of 0.05 to 100 units; tolerances grow where the geometry leaves the answer open (target at the start joint or opposite to the end, pole along the target)",
    ],
};
