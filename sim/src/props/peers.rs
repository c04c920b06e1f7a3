//! C04: lock-step peers never diverge.
//!
//! Several peers simulate the same game over a lossy network: they exchange inputs, predict missing
//! ones, roll back, crash, restart from disk and join late. Each peer runs the real library in its own
//! way of owning things; the reference is a peer without any history.

use crate::cx::{fail, plan, Cx, Mem, Prop, Res};
use crate::ensure;
use crate::props::hierarchy::rand_mat;
use crate::rig::*;
use crate::rng::{mix, Rng};
use crate::snap::{restore, save, FORMATS};
use crate::util::*;
use glam::{Quat, Vec3, Vec3A};
use glam_ext::Transform3A;
use ozz_animation_rs::*;
use serde::{Deserialize, Serialize};
use serde_json::Value;
use std::collections::{BTreeMap, VecDeque};

// ---------------------------------------------------------------- plan

#[derive(Serialize, Deserialize, Clone, Debug)]
struct PeerSpec {
    /// Way of owning buffers and assets.
    style: u32,
    /// How the assets are loaded.
    assets: u32,
    /// Clock rate in per mille of the nominal one.
    rate: u32,
    /// Ticks the peer may run ahead of the confirmed inputs.
    predict: u32,
    /// What happens to contexts at a rollback.
    rewind: u32,
    /// New job objects: never, after a rollback, every tick.
    jobs: u32,
    /// One context for everything, or one each.
    one_ctx: bool,
    ctx_tracks: u32,
    fmt: u32,
    /// Per mille of job runs that are first tried in a way that is refused.
    refused: u32,
    /// Ticks between saves to disk.
    save: u32,
    dirt: u32,
    /// Tick of the first input, 0: there from the start.
    join: u32,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
enum Fault {
    Crash { peer: u32, at: u32, down: u32, torn: bool, mem: Mem },
    Stall { peer: u32, at: u32, down: u32 },
    Split { side: u32, at: u32, down: u32 },
    /// The rate of a clock changes.
    Rate { peer: u32, at: u32, rate: u32 },
    /// Everything sent is lost for a while.
    Dead { at: u32, down: u32 },
}

#[derive(Serialize, Deserialize, Clone, Debug)]
struct Net {
    seed: u32,
    loss: u32,
    dup: u32,
    delay: u32,
    jitter: u32,
    /// Ticks between the input of a peer and its use.
    lag: u32,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
struct Plan {
    mem: Mem,
    assets: AssetSpec,
    game: u32,
    chars: u32,
    ticks: u32,
    hold: u32,
    peers: Vec<PeerSpec>,
    net: Net,
    faults: Vec<Fault>,
}

const MAX_PEERS: usize = 4;
const PERIOD: u64 = 16_667;

fn gen(rng: &mut Rng, thorough: bool) -> Value {
    let n = rng.usize(2, MAX_PEERS);
    let ticks = rng.range(4, if thorough { 60 } else { 24 }) as u32;
    let predict = *rng.pick(&[0u32, 2, 5, 8]);
    // fences cost a system call per block
    let memory = |rng: &mut Rng| {
        let mut m = Mem::gen(rng);
        if m.reuse == 3 && rng.pm(850) {
            m.reuse = 1;
        }
        m
    };
    let mut peers: Vec<PeerSpec> = (0..n)
        .map(|i| PeerSpec {
            style: rng.below(5) as u32,
            assets: rng.below(2 + FORMATS.len() as u64) as u32,
            rate: if rng.pm(500) { 1000 } else { rng.range(500, 2000) as u32 },
            predict: if rng.pm(700) { predict } else { rng.below(9) as u32 },
            rewind: rng.below(5) as u32,
            jobs: rng.below(3) as u32,
            one_ctx: rng.pm(250),
            ctx_tracks: *rng.pick(&[40u32, 41, 44, 64, 100]),
            fmt: rng.below(FORMATS.len() as u64) as u32,
            refused: if rng.pm(500) { 0 } else { 30 },
            save: rng.range(1, 12) as u32,
            dirt: rng.u64() as u32,
            join: if i > 0 && rng.pm(200) { rng.range(1, ticks as i64) as u32 } else { 0 },
        })
        .collect();
    for s in &mut peers {
        // an owner loads its assets again for every job
        if s.style == 0 && s.jobs == 2 {
            s.jobs = 1;
        }
    }
    let span = ticks * (PERIOD as u32 / 1000);
    let mut faults = Vec::new();
    for _ in 0..*rng.pick(&[0usize, 1, 2, 3, 5]) {
        let peer = rng.below(n as u64) as u32;
        let at = rng.below(span as u64 * 3 / 2) as u32;
        let down = rng.range(1, 200) as u32;
        faults.push(match rng.below(9) {
            0..=3 => Fault::Crash { peer, at, down, torn: rng.pm(300), mem: memory(rng) },
            4 => Fault::Stall { peer, at, down },
            5 | 6 => Fault::Split { side: rng.range(1, (1 << n) - 2) as u32, at, down },
            7 => Fault::Rate { peer, at, rate: rng.range(400, 2500) as u32 },
            _ => Fault::Dead { at, down },
        });
    }
    let mut assets = AssetSpec::gen(rng);
    for a in &mut assets.anims {
        if a.points > 40 && rng.pm(800) {
            a.points = 2 + a.points % 39;
        }
    }
    let bad = *rng.pick(&[0u32, 50, 300]);
    serde_json::to_value(Plan {
        mem: memory(rng),
        assets,
        game: rng.u64() as u32,
        chars: rng.range(1, 2) as u32,
        ticks,
        hold: rng.range(1, 6) as u32,
        peers,
        net: Net {
            seed: rng.u64() as u32,
            loss: bad,
            dup: if rng.pm(500) { 0 } else { 200 },
            delay: rng.range(1, 60) as u32,
            jitter: if rng.pm(300) { 0 } else { rng.range(1, 120) as u32 },
            lag: rng.below(4) as u32,
        },
        faults,
    })
    .unwrap()
}

// ---------------------------------------------------------------- the game

/// What a peer decides for a tick.
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq, Default)]
struct Input {
    speed: i8,
    flags: u8,
    w: [u8; 3],
    aim: [i8; 3],
    misc: u8,
}

fn input(p: &Plan, peer: usize, tick: u32) -> Input {
    if tick < p.net.lag.max(p.peers[peer].join) {
        return Input::default();
    }
    let mut rng = Rng::new(mix(mix(p.game as u64, peer as u64), (tick / p.hold.max(1)) as u64));
    Input {
        speed: rng.range(-40, 100) as i8,
        flags: rng.u64() as u8,
        w: [rng.u64() as u8, if rng.pm(300) { 0 } else { rng.u64() as u8 }, rng.u64() as u8],
        aim: [rng.u64() as i8, rng.u64() as i8, rng.u64() as i8],
        misc: rng.u64() as u8,
    }
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
struct Char {
    time: f32,
    track: f32,
    pos: [f32; 3],
    rot: [f32; 4],
    edges: u32,
    health: f32,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
struct Game {
    tick: u32,
    chars: Vec<Char>,
}

const WHAT: [&str; 9] = [
    "the sampled poses",
    "the blended pose",
    "the model matrices",
    "the IK corrections",
    "the matrices after IK",
    "the skinned vertices",
    "the track values and edges",
    "the root motion",
    "the state of the game",
];

type Dig = [u64; 9];

fn put(d: &mut Dig, k: usize, w: &[u32]) {
    let mut h = d[k];
    for &x in w {
        let x = if f32::from_bits(x).is_nan() { 0x7fc0_0000 } else { x };
        h = (h.rotate_left(5) ^ x as u64).wrapping_mul(0x517c_c1b7_2722_0a95);
    }
    d[k] = mix(h, w.len() as u64);
}

fn bits(v: &[f32]) -> Vec<u32> {
    v.iter().map(|f| f.to_bits()).collect()
}

// ---------------------------------------------------------------- a peer's own part: the library at work

trait Node {
    fn tick(&mut self, g: &mut Game, inputs: &[Input]) -> Res<Dig>;
    fn contexts(&self) -> Vec<SamplingContext>;
    fn put_contexts(&mut self, c: Vec<SamplingContext>);
    fn new_jobs(&mut self);
    fn into_assets(self: Box<Self>) -> Assets;
    fn refused(&self) -> u64;
}

struct Jobs<S: Style> {
    sampling: Vec<Job<S>>,
    blending: Job<S>,
    model: Job<S>,
    partial: Job<S>,
    skinning: Job<S>,
    float: Job<S>,
    v2: Job<S>,
    v3: Job<S>,
    v4: Job<S>,
    quat: Job<S>,
    trig: Job<S>,
    motion: MotionBlendingJob,
    aim: IKAimJob,
    two: IKTwoBoneJob,
}

impl<S: Style> Jobs<S> {
    fn new(sampling: usize) -> Jobs<S> {
        let j = |k: u32| Job::<S>::new(&Cfg::new(k, 0));
        Jobs {
            sampling: (0..sampling).map(|_| j(0)).collect(),
            blending: j(1),
            model: j(2),
            partial: j(2),
            skinning: j(3),
            float: j(7),
            v2: j(8),
            v3: j(9),
            v4: j(10),
            quat: j(11),
            trig: j(12),
            motion: MotionBlendingJob::default(),
            aim: IKAimJob::default(),
            two: IKTwoBoneJob::default(),
        }
    }
}

struct Body<S: Style> {
    jobs: Jobs<S>,
    assets: Assets,
    bufs: Bufs,
    cells: Cells<S>,
    spec: PeerSpec,
    slots: usize,
    rng: Rng,
    refused: u64,
    /// Contexts are thrown away before every tick.
    amnesia: bool,
}

const SLOTS: usize = 3;

impl<S: Style> Body<S> {
    fn new(p: &Plan, spec: &PeerSpec, life: u64, amnesia: bool) -> Res<Body<S>> {
        let assets = p.assets.load_as(spec.assets % 8)?;
        // the mesh is an asset, the rest of the memory is the peer's
        let mut bufs = Bufs::new(p.game, 0);
        let mut rng = Rng::new(mix(spec.dirt as u64, life));
        for i in [0usize, 1, 2, 3] {
            let n = bufs.poses[i].data.len();
            bufs.poses[i].data = dirt(rng.u64() as u32, n);
        }
        for i in [0usize, 1] {
            let n = bufs.mats[i].data.len();
            bufs.mats[i].data = rand_mats(&mut rng, n);
        }
        for i in [3usize, 4, 5] {
            let n = bufs.vecs[i].data.len();
            bufs.vecs[i].data = rand_vecs(&mut rng, n);
        }
        let cells = bufs.cells::<S>();
        let slots = if spec.one_ctx { 1 } else { SLOTS * p.chars as usize };
        Ok(Body { jobs: Jobs::new(slots), assets, bufs, cells, spec: spec.clone(), slots, rng, refused: 0, amnesia })
    }
}

struct At<'a, S: Style> {
    assets: &'a Assets,
    bufs: &'a mut Bufs,
    cells: &'a Cells<S>,
    rng: &'a mut Rng,
    refused_pm: u32,
    refused: &'a mut u64,
}

/// Brings a job to the settings and runs it, now and then after an attempt that is refused.
fn go<S: Style>(j: &mut Job<S>, cfg: &Cfg, at: &mut At<S>) -> Res<Vec<u32>> {
    if at.refused_pm > 0 && at.rng.pm(at.refused_pm) {
        *at.refused += 1;
        let mut bad = cfg.clone();
        match &mut bad {
            Cfg::Sampling(c) => {
                if at.rng.pm(500) {
                    c.anim = None
                } else {
                    c.out = None
                }
            }
            Cfg::Blending(c) => {
                if at.rng.pm(500) {
                    c.skel = None
                } else {
                    c.threshold = 0.0
                }
            }
            Cfg::Model(c) => {
                if at.rng.pm(500) {
                    c.skel = None
                } else {
                    c.input = None
                }
            }
            Cfg::Skinning(c) => {
                if at.rng.pm(500) {
                    c.mats = None
                } else {
                    c.count = 1000
                }
            }
            Cfg::TrackF(c) | Cfg::TrackV2(c) | Cfg::TrackV3(c) | Cfg::TrackV4(c) | Cfg::TrackQ(c) => c.track = None,
            Cfg::Trig(c) => c.track = None,
            _ => {}
        }
        // where the way of owning buffers knows it: a holder of the output panicked
        let needs = cfg.writes();
        let broken = if !needs.is_empty() && at.rng.pm(500) {
            j.apply(cfg, Env { assets: at.assets, bufs: at.bufs, cells: at.cells });
            match needs[0] {
                (0, i) => S::poison(&at.cells.poses[i]),
                (1, i) => S::poison(&at.cells.mats[i]),
                (_, i) => S::poison(&at.cells.vecs[i]),
            }
        } else {
            false
        };
        if !broken {
            j.apply(&bad, Env { assets: at.assets, bufs: at.bufs, cells: at.cells });
        }
        let r = j.run();
        if broken {
            match needs[0] {
                (0, i) => S::heal(&at.cells.poses[i]),
                (1, i) => S::heal(&at.cells.mats[i]),
                (_, i) => S::heal(&at.cells.vecs[i]),
            }
        }
        ensure!(r.is_err(), "not-refused", "{} with a missing or poisoned resource is not refused", cfg.name());
    }
    j.apply(cfg, Env { assets: at.assets, bufs: at.bufs, cells: at.cells });
    if let Err(e) = j.run() {
        return fail("refused", format!("{} of a peer is refused: {e:?}", cfg.name()));
    }
    match j.outputs() {
        Some(o) => o.store(at.bufs),
        None => return fail("refused", format!("an output of {} can not be read", cfg.name())),
    }
    j.in_step(at.bufs);
    Ok(j.results())
}

fn rotation(pose: &[math::SoaTransform], joint: usize) -> Quat {
    let f = fl(pose);
    let b = joint / 4 * 40 + 12 + joint % 4;
    Quat::from_xyzw(f[b], f[b + 4], f[b + 8], f[b + 12])
}

fn set_rotation(pose: &mut [math::SoaTransform], joint: usize, q: Quat) {
    let f = flm(pose);
    let b = joint / 4 * 40 + 12 + joint % 4;
    for (k, v) in q.to_array().iter().enumerate() {
        f[b + 4 * k] = *v;
    }
}

impl<S: Style> Node for Body<S> {
    fn tick(&mut self, g: &mut Game, inputs: &[Input]) -> Res<Dig> {
        let mut d = Dig::default();
        if self.spec.jobs % 3 == 2 {
            self.new_jobs();
        }
        if self.amnesia {
            self.jobs = Jobs::new(self.slots);
        }
        let Body { jobs, assets, bufs, cells, spec, slots, rng, refused, .. } = self;
        let n = inputs.len();
        let tick = g.tick;
        for (c, ch) in g.chars.iter_mut().enumerate() {
            let (a, b) = (&inputs[c % n], &inputs[(c + 1) % n]);
            let mut at = At { assets, bufs, cells, rng, refused_pm: spec.refused, refused };
            let at = &mut at;
            let skel_i = (a.flags as usize + (ch.edges as usize >> 2)) & 1;
            let (soa, joints, parents, rest) = {
                let s = &at.assets.skels[skel_i].arc;
                (s.num_soa_joints(), s.num_joints(), s.joint_parents().to_vec(), s.joint_rest_poses().to_vec())
            };

            // sampling
            let prev = ch.time;
            ch.time += a.speed as f32 * 0.0013;
            if ch.time.abs() > 3.0 {
                ch.time -= ch.time.trunc();
            }
            for k in 0..SLOTS {
                let anim = (k + (b.misc as usize & 1)) & 1;
                let t = ch.time * [1.0f32, 1.7, 0.6][k];
                let ratio = match a.misc & 6 {
                    0 => t,
                    _ => t.rem_euclid(1.0),
                };
                let slot = (c * SLOTS + k) % *slots;
                let cfg = Cfg::Sampling(Sampling {
                    anim: Some(anim),
                    ctx: Some((spec.ctx_tracks.clamp(40, 400) as usize, 0)),
                    ratio,
                    out: Some(k),
                });
                go(&mut jobs.sampling[slot], &cfg, at)?;
                let have = at.assets.anims[anim].arc.num_soa_tracks();
                put(&mut d, 0, &soa_bits(&at.bufs.poses[k].data[..have]));
                if have < soa {
                    let mut v = at.bufs.poses[k].data.clone();
                    v[have..soa].copy_from_slice(&rest[have..soa]);
                    at.bufs.set_pose(at.cells, k, v);
                }
            }

            // blending
            let w = |x: u8| x as f32 / 255.0;
            let m = |on: bool, s: u8| on.then_some((s as u32 % 50, 10 + (s as usize & 1)));
            let mut layers = vec![
                L { buf: 0, weight: w(a.w[0]), mask: m(a.flags & 2 != 0, b.misc) },
                L { buf: 1, weight: w(a.w[1]), mask: m(b.flags & 2 != 0, a.misc) },
            ];
            if a.flags & 4 != 0 {
                layers.swap(0, 1);
            }
            if b.flags & 4 != 0 {
                layers.push(L { buf: 4, weight: 0.25, mask: None });
            }
            let mut additive = Vec::new();
            if a.flags & 8 != 0 {
                additive.push(L { buf: 2, weight: w(b.w[2]) - 0.3, mask: m(ch.edges & 1 == 1, a.w[2]) });
            }
            let cfg = Cfg::Blending(Blending {
                skel: Some(skel_i),
                ctx: Some((10 + (spec.dirt as usize & 1), 0)),
                threshold: 0.1,
                layers,
                additive,
                out: Some(3),
            });
            go(&mut jobs.blending, &cfg, at)?;
            put(&mut d, 1, &soa_bits(&at.bufs.poses[3].data[..soa]));

            // local to model
            let root = (b.misc >> 4) as u32;
            let cfg = Cfg::Model(Model { skel: Some(skel_i), input: Some(3), out: Some(0), root, from: -1, to: 1024, excluded: false });
            go(&mut jobs.model, &cfg, at)?;
            put(&mut d, 2, &mat_bits(&at.bufs.mats[0].data[..joints]));

            // IK on a chain of three and on one joint
            let chain = (0..joints)
                .cycle()
                .skip(a.misc as usize % joints)
                .take(joints)
                .find(|&j| parents[j] >= 0 && parents[parents[j] as usize] >= 0);
            let target = Vec3A::new(b.aim[0] as f32 / 50.0, b.aim[1] as f32 / 50.0, b.aim[2] as f32 / 50.0);
            let mut ik = Vec::new();
            let mut first = None;
            if let (Some(end), true) = (chain, a.flags & 16 != 0) {
                let mid = parents[end] as usize;
                let start = parents[mid] as usize;
                let m = &at.bufs.mats[0].data;
                let j = &mut jobs.two;
                j.set_target(target);
                j.set_mid_axis(if a.flags & 2 != 0 { Vec3A::Z } else { Vec3A::NEG_Y });
                j.set_pole_vector(if a.flags & 32 != 0 { Vec3A::Y } else { Vec3A::X });
                j.set_soften([0.9, 1.0, 0.3, 0.0][(b.misc & 3) as usize]);
                j.set_twist_angle(ch.health * 0.1);
                j.set_weight(w(b.w[1]));
                j.set_start_joint(m[start]);
                j.set_mid_joint(m[mid]);
                j.set_end_joint(m[end]);
                if let Err(e) = j.run() {
                    return fail("refused", format!("two-bone IK of a peer is refused: {e:?}"));
                }
                ik.extend(bits(&j.start_joint_correction().to_array()));
                ik.extend(bits(&j.mid_joint_correction().to_array()));
                ik.push(j.reached() as u32);
                let mut v = at.bufs.poses[3].data.clone();
                let s = rotation(&v, start) * j.start_joint_correction();
                let t = rotation(&v, mid) * j.mid_joint_correction();
                set_rotation(&mut v, start, s);
                set_rotation(&mut v, mid, t);
                at.bufs.set_pose(at.cells, 3, v);
                first = Some(start);
            }
            if b.flags & 16 != 0 {
                let joint = b.misc as usize % joints;
                let j = &mut jobs.aim;
                j.set_target(target);
                j.set_forward(if a.flags & 1 != 0 { Vec3A::X } else { Vec3A::NEG_Z });
                // too far off for some targets
                j.set_offset(Vec3A::new(0.0, [0.1, 0.9, 0.0, 2.5][(a.misc >> 3 & 3) as usize], 0.0));
                j.set_up(if a.flags & 2 != 0 { Vec3A::Y } else { Vec3A::X });
                j.set_pole_vector(if b.flags & 1 != 0 { Vec3A::Y } else { Vec3A::Z });
                j.set_twist_angle([0.2, 0.0][(b.flags >> 3 & 1) as usize]);
                j.set_weight(w(a.w[2]));
                j.set_joint(at.bufs.mats[0].data[joint]);
                if let Err(e) = j.run() {
                    return fail("refused", format!("aim IK of a peer is refused: {e:?}"));
                }
                ik.extend(bits(&j.joint_correction().to_array()));
                ik.push(j.reached() as u32);
                let mut v = at.bufs.poses[3].data.clone();
                let q = rotation(&v, joint) * j.joint_correction();
                set_rotation(&mut v, joint, q);
                at.bufs.set_pose(at.cells, 3, v);
                first = Some(first.map_or(joint, |f| f.min(joint)));
            }
            put(&mut d, 3, &ik);
            if let Some(f) = first {
                // both corrections below the lower joint; matrices may drift, so the rest is given back
                let cfg = Cfg::Model(Model {
                    skel: Some(skel_i),
                    input: Some(3),
                    out: Some(0),
                    root,
                    from: f as i32,
                    to: if b.flags & 64 != 0 { joints as i32 - 1 } else { 1024 },
                    excluded: false,
                });
                go(&mut jobs.partial, &cfg, at)?;
                put(&mut d, 4, &mat_bits(&at.bufs.mats[0].data[..joints]));
            }

            // skinning
            let mut v = at.bufs.mats[0].data.clone();
            for (i, x) in v.iter_mut().enumerate().skip(joints) {
                *x = rand_mat(i as u32);
            }
            at.bufs.set_mats(at.cells, 1, v.iter().map(|m| m.inverse().transpose()).collect());
            at.bufs.set_mats(at.cells, 0, v);
            let infl = 1 + a.w[0] as usize % 5;
            let normals = b.flags & 32 != 0;
            let tangents = normals && a.flags & 64 != 0;
            let cfg = Cfg::Skinning(Skinning {
                count: 12 - (b.w[0] as usize % 4),
                infl,
                mats: Some(0),
                it: (b.w[2] & 1 == 1).then_some(1),
                idx: Some(c % IDX),
                wts: (infl > 1).then_some(c % WTS),
                ins: [Some(0), normals.then_some(1), tangents.then_some(2)],
                outs: [Some(3), normals.then_some(4), tangents.then_some(5)],
            });
            go(&mut jobs.skinning, &cfg, at)?;
            let count = 12 - (b.w[0] as usize % 4);
            put(&mut d, 5, &vec_bits(&at.bufs.vecs[3].data[..count]));
            if normals {
                put(&mut d, 5, &vec_bits(&at.bufs.vecs[4].data[..count]));
            }
            if tangents {
                put(&mut d, 5, &vec_bits(&at.bufs.vecs[5].data[..count]));
            }

            // tracks
            let r = ch.time.rem_euclid(1.0);
            let ts = |ratio: f32, i: usize| TrackS { track: Some(i), ratio };
            let f = go(&mut jobs.float, &Cfg::TrackF(ts(r, (a.w[0] & 1) as usize)), at)?;
            let r2 = go(&mut jobs.v2, &Cfg::TrackV2(ts(r, 0)), at)?;
            let r4 = go(&mut jobs.v4, &Cfg::TrackV4(ts(r, 0)), at)?;
            put(&mut d, 6, &f);
            put(&mut d, 6, &r2);
            put(&mut d, 6, &r4);
            ch.health = (ch.health * 0.5 + f32::from_bits(f[0])).clamp(-10.0, 10.0);
            let from = ch.track;
            ch.track += (a.speed as f32 - b.speed as f32 * 0.25) * 0.004;
            let e = go(
                &mut jobs.trig,
                &Cfg::Trig(Trig { track: Some(c & 1), from, to: ch.track, threshold: (a.aim[0] / 32) as f32 * 0.4 + 0.05 }),
                at,
            )?;
            put(&mut d, 6, &e);
            ch.edges = ch.edges.wrapping_add(e.len() as u32 / 2);
            if ch.track.abs() > 3.0 {
                ch.track -= ch.track.trunc();
            }

            // root motion
            let pr = prev.rem_euclid(1.0);
            let mut layer = Vec::new();
            for k in 0..2 {
                let s = [1.0f32, 0.37][k];
                let f3 = |w: Vec<u32>| Vec3::new(f32::from_bits(w[0]), f32::from_bits(w[1]), f32::from_bits(w[2]));
                let f4 = |w: Vec<u32>| Quat::from_array([0, 1, 2, 3].map(|i| f32::from_bits(w[i])));
                let t0 = f3(go(&mut jobs.v3, &Cfg::TrackV3(ts(pr * s, 0)), at)?);
                let t1 = f3(go(&mut jobs.v3, &Cfg::TrackV3(ts(r * s, 0)), at)?);
                let q0 = f4(go(&mut jobs.quat, &Cfg::TrackQ(ts(pr * s, 0)), at)?);
                let q1 = f4(go(&mut jobs.quat, &Cfg::TrackQ(ts(r * s, 0)), at)?);
                layer.push(MotionBlendingLayer {
                    weight: w(a.w[k]),
                    delta: Transform3A::new(t1 - t0, q1 * q0.conjugate(), Vec3::ONE),
                });
            }
            jobs.motion.layers_mut().clear();
            jobs.motion.layers_mut().extend(layer);
            if let Err(e) = jobs.motion.run() {
                return fail("refused", format!("motion blending of a peer is refused: {e:?}"));
            }
            let o = jobs.motion.output().clone();
            put(&mut d, 7, &bits(&o.translation.to_array()));
            put(&mut d, 7, &bits(&o.rotation.to_array()));
            put(&mut d, 7, &bits(&o.scale.to_array()));
            let q = Quat::from_array(ch.rot);
            let p = Vec3::from_array(ch.pos) + q * Vec3::from(o.translation);
            ch.pos = p.to_array().map(|x| if x.is_finite() { x % 100.0 } else { 0.0 });
            let q = q * o.rotation;
            let q = if q.is_finite() && q.length() > 0.1 { q.normalize() } else { Quat::IDENTITY };
            ch.rot = q.to_array();

            let mut w = vec![tick, ch.edges];
            w.extend(bits(&[ch.time, ch.track, ch.health]));
            w.extend(bits(&ch.pos));
            w.extend(bits(&ch.rot));
            put(&mut d, 8, &w);
        }
        g.tick += 1;
        Ok(d)
    }

    fn contexts(&self) -> Vec<SamplingContext> {
        self.jobs
            .sampling
            .iter()
            .map(|j| match j.sampling_ctx() {
                Some(c) => c.clone(),
                None => SamplingContext::new(self.spec.ctx_tracks.clamp(40, 400) as usize),
            })
            .collect()
    }

    fn put_contexts(&mut self, c: Vec<SamplingContext>) {
        let tracks = self.spec.ctx_tracks.clamp(40, 400) as usize;
        for (i, j) in self.jobs.sampling.iter_mut().enumerate() {
            // a job takes its first context with its first settings
            let cfg = Cfg::Sampling(Sampling { anim: None, ctx: Some((tracks, 0)), ratio: 0.0, out: None });
            j.apply(&cfg, Env { assets: &self.assets, bufs: &self.bufs, cells: &self.cells });
            if !c.is_empty() {
                j.put_ctx(c[i % c.len()].clone());
            }
        }
    }

    fn new_jobs(&mut self) {
        let c = self.contexts();
        self.jobs = Jobs::new(self.slots);
        self.put_contexts(c);
    }

    fn into_assets(self: Box<Self>) -> Assets {
        let b = *self;
        drop(b.jobs);
        b.assets
    }

    fn refused(&self) -> u64 {
        self.refused
    }
}

fn node(p: &Plan, spec: &PeerSpec, life: u64) -> Res<Box<dyn Node>> {
    Ok(match spec.style % 5 {
        0 => Box::new(Body::<Owned>::new(p, spec, life, false)?),
        1 => Box::new(Body::<Borrowed>::new(p, spec, life, false)?),
        2 => Box::new(Body::<Counted>::new(p, spec, life, false)?),
        3 => Box::new(Body::<Locked>::new(p, spec, life, false)?),
        _ => Box::new(Body::<User>::new(p, spec, life, false)?),
    })
}

fn new_game(p: &Plan) -> Game {
    let c = Char { time: 0.0, track: 0.0, pos: [0.0; 3], rot: [0.0, 0.0, 0.0, 1.0], edges: 0, health: 0.0 };
    Game { tick: 0, chars: vec![c; p.chars as usize] }
}

// ---------------------------------------------------------------- the network and the peers

#[derive(Serialize, Deserialize, Clone)]
struct Saved {
    game: Game,
    fmt: u32,
    contexts: Vec<Vec<u8>>,
}

fn pack(game: &Game, contexts: &[SamplingContext], fmt: u32) -> Res<Vec<u8>> {
    let mut s = Saved { game: game.clone(), fmt, contexts: vec![] };
    for c in contexts {
        match save(c, fmt) {
            Ok(b) => s.contexts.push(b),
            Err(e) => return fail("save-fails", format!("a context can not be saved as {}: {e}", FORMATS[fmt as usize % 6])),
        }
    }
    let mut b = bincode::serialize(&s).unwrap();
    let h = crate::snap::hash_bytes(&b);
    b.extend_from_slice(&h.to_le_bytes());
    Ok(b)
}

/// None if the bytes are damaged.
fn unpack(b: &[u8], style: u32) -> Res<Option<(Game, Vec<SamplingContext>)>> {
    if b.len() < 8 {
        return Ok(None);
    }
    let (b, h) = b.split_at(b.len() - 8);
    if crate::snap::hash_bytes(b).to_le_bytes() != h {
        return Ok(None);
    }
    let s: Saved = bincode::deserialize(b).unwrap();
    let mut c = Vec::new();
    for b in &s.contexts {
        match restore(b, s.fmt, style) {
            Ok(x) => c.push(x),
            Err(e) => return fail("restore-fails", format!("a saved context can not be restored from {}: {e}", FORMATS[s.fmt as usize % 6])),
        }
    }
    Ok(Some((s.game, c)))
}

#[derive(Clone)]
enum Msg {
    Inputs { from: usize, life: u64, seq: u64, start: u32, list: Vec<Input>, ack: u32 },
    Ask { from: usize },
    State { bytes: Vec<u8> },
}

enum Event {
    Timer { peer: usize, life: u64 },
    Deliver { to: usize, msg: Msg },
    Fault(usize),
    Up { peer: usize, mem: Mem },
}

struct Snap {
    game: Game,
    contexts: Vec<SamplingContext>,
}

struct Peer {
    node: Option<Box<dyn Node>>,
    life: u64,
    joined: bool,
    asking: bool,
    game: Game,
    /// States before the ticks from the confirmed one on.
    snaps: VecDeque<Snap>,
    /// Inputs known, by peer and tick.
    known: Vec<BTreeMap<u32, Input>>,
    /// Inputs used, by tick.
    used: BTreeMap<u32, Vec<Input>>,
    digs: BTreeMap<u32, Dig>,
    confirmed: u32,
    /// What each other peer has of this one's inputs, and the newest message that said so.
    acks: Vec<(u64, u64, u32)>,
    seq: u64,
    disk: [Option<Vec<u8>>; 2],
    next_disk: usize,
    saved_at: u32,
    rate: u32,
    stalled_until: u64,
    rollbacks: u64,
    refused: u64,
}

struct Sim<'a> {
    p: &'a Plan,
    now: u64,
    seq: u64,
    queue: BTreeMap<(u64, u64), Event>,
    peers: Vec<Peer>,
    reference: Vec<Dig>,
    /// Assets of the dead: what was lent stays until the end.
    grave: Vec<Assets>,
    rng: Rng,
    quiet: u64,
    splits: Vec<(u64, u64, u32)>,
    dead: Vec<(u64, u64)>,
    msgs: u64,
}

impl Sim<'_> {
    fn post(&mut self, at: u64, e: Event) {
        self.seq += 1;
        self.queue.insert((at, self.seq), e);
    }

    fn send(&mut self, from: usize, to: usize, msg: Msg, cx: &mut Cx) {
        self.msgs += 1;
        let n = &self.p.net;
        let (mut copies, mut jitter) = (1, n.jitter as u64);
        if self.now < self.quiet {
            if self.splits.iter().any(|s| s.0 <= self.now && self.now < s.1 && (s.2 >> from & 1) != (s.2 >> to & 1)) {
                cx.fault("message lost in a partition");
                return;
            }
            if self.dead.iter().any(|s| s.0 <= self.now && self.now < s.1) {
                cx.fault("message lost in an outage");
                return;
            }
            if self.rng.pm(n.loss) {
                cx.fault("message lost");
                return;
            }
            if self.rng.pm(n.dup) {
                cx.fault("message duplicated");
                copies = 2;
            }
            if self.rng.pm(n.loss / 3) {
                cx.fault("message delayed for long");
                jitter = jitter * 6 + 200;
            }
        }
        for _ in 0..copies {
            let d = n.delay as u64 * 1000 + self.rng.below(jitter * 1000 + 1);
            self.post(self.now + d, Event::Deliver { to, msg: msg.clone() });
        }
    }

    fn period(&self, i: usize) -> u64 {
        PERIOD * 1000 / self.peers[i].rate.clamp(200, 4000) as u64
    }

    /// The peer comes to life, from its disk or with nothing.
    fn boot(&mut self, i: usize, cx: &mut Cx) -> Res {
        let p = self.p;
        let spec = &p.peers[i];
        let life = self.peers[i].life;
        let mut nd = node(p, spec, life)?;
        let mut best: Option<(Game, Vec<SamplingContext>)> = None;
        for k in 0..2 {
            if let Some(b) = &self.peers[i].disk[k] {
                match unpack(b, spec.dirt)? {
                    Some(s) => {
                        if best.as_ref().map_or(true, |o| o.0.tick < s.0.tick) {
                            best = Some(s);
                        }
                    }
                    None => cx.fault("torn save found"),
                }
            }
        }
        let peer = &mut self.peers[i];
        peer.asking = spec.join > 0 && best.is_none();
        let (game, ctx) = best.unwrap_or_else(|| (new_game(p), vec![]));
        if life > 0 {
            cx.probe(if game.tick > 0 { "restart from a save" } else { "restart from nothing" });
        }
        if !ctx.is_empty() && spec.rewind % 5 != 2 {
            nd.put_contexts(ctx);
        }
        peer.node = Some(nd);
        peer.joined = true;
        peer.install(game);
        peer.seq = 0;
        peer.acks = vec![(0, 0, 0); p.peers.len()];
        let at = self.now + 1 + self.rng.below(1000);
        self.post(at, Event::Timer { peer: i, life });
        Ok(())
    }

    fn input_for(&self, i: usize, j: usize, t: u32) -> Option<Input> {
        let p = self.p;
        if i == j || t < p.net.lag.max(p.peers[j].join) {
            return Some(input(p, j, t));
        }
        self.peers[i].known[j].get(&t).cloned()
    }

    /// The first tick for which the inputs of `j` are missing.
    fn have(&self, i: usize, j: usize) -> u32 {
        let mut t = self.peers[i].confirmed;
        while t < self.p.ticks && self.input_for(i, j, t).is_some() {
            t += 1;
        }
        t
    }

    fn timer(&mut self, i: usize, cx: &mut Cx) -> Res {
        let p = self.p;
        let n = p.peers.len();
        let spec = &p.peers[i];
        if self.peers[i].asking {
            for j in 0..n {
                if j != i {
                    self.send(i, j, Msg::Ask { from: i }, cx);
                }
            }
            return Ok(());
        }
        self.correct(i, cx)?;
        // one tick ahead
        let cur = self.peers[i].game.tick;
        let ready = (0..n).map(|j| self.have(i, j)).min().unwrap();
        if cur < p.ticks && (cur < ready || cur < self.peers[i].confirmed + spec.predict.min(12)) {
            self.simulate(i, cx)?;
            self.confirm(i, cx)?;
        }
        // inputs go out again until they are known to have arrived
        let cur = self.peers[i].game.tick;
        let last = (cur + p.net.lag + 1).min(p.ticks);
        for j in 0..n {
            if j == i {
                continue;
            }
            let start = self.peers[i].acks[j].2.min(last);
            let end = last.min(start + 24);
            let list = (start..end).map(|t| input(p, i, t)).collect();
            let ack = self.have(i, j);
            let peer = &mut self.peers[i];
            peer.seq += 1;
            let m = Msg::Inputs { from: i, life: peer.life, seq: peer.seq, start, list, ack };
            self.send(i, j, m, cx);
        }
        Ok(())
    }

    /// Rolls back to the first tick that was simulated with wrong inputs.
    fn correct(&mut self, i: usize, cx: &mut Cx) -> Res {
        let n = self.p.peers.len();
        let peer = &self.peers[i];
        let mut wrong = None;
        'ticks: for t in peer.confirmed..peer.game.tick {
            for j in 0..n {
                if let Some(x) = self.input_for(i, j, t) {
                    if peer.used[&t][j] != x {
                        wrong = Some(t);
                        break 'ticks;
                    }
                }
            }
        }
        if let Some(t) = wrong {
            cx.fault("rollback");
            let spec = &self.p.peers[i];
            let peer = &mut self.peers[i];
            peer.rollbacks += 1;
            let cur = peer.game.tick;
            while peer.snaps.back().is_some_and(|s| s.game.tick > t) {
                peer.snaps.pop_back();
            }
            let s = peer.snaps.pop_back().expect("a state to go back to");
            let node = peer.node.as_mut().unwrap();
            if spec.jobs % 3 == 1 {
                node.new_jobs();
            }
            match spec.rewind % 5 {
                0 => node.put_contexts(s.contexts.clone()),
                // contexts are caches and may stay
                1 => {}
                2 => {
                    let c = s.contexts.iter().map(|c| SamplingContext::new(c.max_tracks())).collect();
                    node.put_contexts(c);
                }
                3 => {
                    let mut c = Vec::new();
                    for x in &s.contexts {
                        let mut x = x.clone();
                        x.clear();
                        c.push(x);
                    }
                    node.put_contexts(c);
                }
                _ => {
                    let b = pack(&s.game, &s.contexts, spec.fmt)?;
                    match unpack(&b, spec.dirt)? {
                        Some((_, c)) => node.put_contexts(c),
                        None => unreachable!(),
                    }
                }
            }
            peer.game = s.game;
            for t in t..cur {
                cx.probe("tick simulated again");
                ensure!(self.peers[i].game.tick == t, "harness", "tick {} instead of {t}", self.peers[i].game.tick);
                self.simulate(i, cx)?;
            }
        }
        self.confirm(i, cx)
    }

    fn simulate(&mut self, i: usize, cx: &mut Cx) -> Res {
        let n = self.p.peers.len();
        let t = self.peers[i].game.tick;
        let mut used = Vec::new();
        for j in 0..n {
            used.push(match self.input_for(i, j, t) {
                Some(x) => x,
                None => {
                    cx.probe("input predicted");
                    // as the last one known
                    let k = &self.peers[i].known[j];
                    k.range(..t).next_back().map(|x| x.1.clone()).unwrap_or_default()
                }
            });
        }
        let peer = &mut self.peers[i];
        let node = peer.node.as_mut().unwrap();
        let contexts = node.contexts();
        peer.snaps.push_back(Snap { game: peer.game.clone(), contexts });
        let d = match node.tick(&mut peer.game, &used) {
            Ok(d) => d,
            Err(v) => return fail(&v.class, format!("peer {i}, tick {t}: {}", v.detail)),
        };
        cx.steps += 1;
        peer.used.insert(t, used);
        peer.digs.insert(t, d);
        Ok(())
    }

    fn confirm(&mut self, i: usize, cx: &mut Cx) -> Res {
        let n = self.p.peers.len();
        loop {
            let t = self.peers[i].confirmed;
            if t >= self.peers[i].game.tick {
                break;
            }
            for j in 0..n {
                match self.input_for(i, j, t) {
                    Some(x) if x == self.peers[i].used[&t][j] => {}
                    _ => return Ok(()),
                }
            }
            let peer = &mut self.peers[i];
            let d = peer.digs.remove(&t).unwrap();
            let r = &self.reference[t as usize];
            for k in 0..d.len() {
                if d[k] != r[k] {
                    let s = &self.p.peers[i];
                    return fail(
                        "diverged",
                        format!(
                            "peer {i} ({} buffers, {} rollbacks, life {}) computes {} of confirmed tick {t} differently",
                            ["owned", "borrowed", "counted", "locked", "user-defined"][s.style as usize % 5],
                            peer.rollbacks,
                            peer.life,
                            WHAT[k]
                        ),
                    );
                }
            }
            for x in d {
                cx.u(x);
            }
            peer.used.remove(&t);
            peer.confirmed += 1;
            while peer.snaps.front().is_some_and(|s| s.game.tick < t + 1) && (peer.snaps.len() > 1 || peer.game.tick == t + 1) {
                peer.snaps.pop_front();
            }
        }
        let spec = &self.p.peers[i];
        let peer = &mut self.peers[i];
        if peer.confirmed >= peer.saved_at + spec.save.max(1) {
            let b = self.state_of(i)?;
            let peer = &mut self.peers[i];
            peer.disk[peer.next_disk] = Some(b);
            peer.next_disk ^= 1;
            peer.saved_at = peer.confirmed;
            cx.probe("save to disk");
        }
        Ok(())
    }

    /// The confirmed state of a peer as bytes.
    fn state_of(&self, i: usize) -> Res<Vec<u8>> {
        let peer = &self.peers[i];
        let fmt = self.p.peers[i].fmt;
        match peer.snaps.iter().find(|s| s.game.tick == peer.confirmed) {
            Some(s) => pack(&s.game, &s.contexts, fmt),
            None => pack(&peer.game, &peer.node.as_ref().unwrap().contexts(), fmt),
        }
    }

    fn deliver(&mut self, to: usize, msg: Msg, cx: &mut Cx) -> Res {
        if self.peers[to].node.is_none() {
            cx.fault("message to a peer that is down");
            return Ok(());
        }
        match msg {
            Msg::Inputs { from, life, seq, start, list, ack } => {
                if self.peers[to].asking {
                    return Ok(());
                }
                let peer = &mut self.peers[to];
                for (k, x) in list.into_iter().enumerate() {
                    peer.known[from].insert(start + k as u32, x);
                }
                let a = &mut peer.acks[from];
                if (life, seq) >= (a.0, a.1) {
                    *a = (life, seq, ack);
                } else {
                    cx.fault("message out of order");
                }
            }
            Msg::Ask { from } => {
                if !self.peers[to].asking {
                    let bytes = self.state_of(to)?;
                    self.send(to, from, Msg::State { bytes }, cx);
                }
            }
            Msg::State { bytes } => {
                if self.peers[to].asking {
                    if let Some((g, c)) = unpack(&bytes, self.p.peers[to].dirt)? {
                        cx.fault("late join from another peer's state");
                        let peer = &mut self.peers[to];
                        peer.asking = false;
                        peer.node.as_mut().unwrap().put_contexts(c);
                        peer.install(g);
                    }
                }
            }
        }
        Ok(())
    }

    fn crash(&mut self, i: usize, torn: bool) {
        let peer = &mut self.peers[i];
        if let Some(n) = peer.node.take() {
            peer.refused += n.refused();
            self.grave.push(n.into_assets());
        }
        peer.life += 1;
        peer.snaps.clear();
        peer.used.clear();
        peer.digs.clear();
        for k in &mut peer.known {
            k.clear();
        }
        if torn {
            // the last save was under way
            let last = peer.next_disk ^ 1;
            if let Some(b) = &mut peer.disk[last] {
                let n = b.len() / 2;
                b.truncate(n);
                peer.next_disk = last;
            }
        }
    }
}

impl Peer {
    fn install(&mut self, g: Game) {
        self.confirmed = g.tick;
        self.saved_at = g.tick;
        self.game = g;
        self.snaps.clear();
        self.used.clear();
        self.digs.clear();
    }
}

fn exec(v: &Value, cx: &mut Cx) -> Res {
    let p: Plan = plan(v)?;
    let n = p.peers.len();
    ensure!((2..=MAX_PEERS).contains(&n), crate::cx::BAD_PLAN, "two to four peers");
    ensure!(p.peers[0].join == 0 && p.ticks <= 400 && (1..=4).contains(&p.chars), crate::cx::BAD_PLAN, "sizes");
    // the reference: plain borrowed buffers, new jobs and contexts every tick, no faults
    let spec = PeerSpec {
        style: 1,
        assets: 0,
        rate: 1000,
        predict: 0,
        rewind: 0,
        jobs: 0,
        one_ctx: false,
        ctx_tracks: 40,
        fmt: 0,
        refused: 0,
        save: 1,
        dirt: 0,
        join: 0,
    };
    let mut reference = Vec::new();
    {
        let mut nd = Body::<Borrowed>::new(&p, &spec, 0, true)?;
        let mut g = new_game(&p);
        for t in 0..p.ticks {
            let inputs: Vec<Input> = (0..n).map(|j| input(&p, j, t)).collect();
            reference.push(nd.tick(&mut g, &inputs)?);
        }
    }
    p.mem.apply(cx);
    let mut s = Sim {
        p: &p,
        now: 0,
        seq: 0,
        queue: BTreeMap::new(),
        peers: (0..n)
            .map(|i| Peer {
                node: None,
                life: 0,
                joined: false,
                asking: false,
                game: new_game(&p),
                snaps: VecDeque::new(),
                known: vec![BTreeMap::new(); n],
                used: BTreeMap::new(),
                digs: BTreeMap::new(),
                confirmed: 0,
                acks: vec![(0, 0, 0); n],
                seq: 0,
                disk: [None, None],
                next_disk: 0,
                saved_at: 0,
                rate: p.peers[i].rate,
                stalled_until: 0,
                rollbacks: 0,
                refused: 0,
            })
            .collect(),
        reference,
        grave: Vec::new(),
        rng: Rng::new(0x4E7 ^ (p.net.seed as u64) << 8),
        quiet: 0,
        splits: Vec::new(),
        dead: Vec::new(),
        msgs: 0,
    };
    // faults stop some time after the undisturbed end
    let mut quiet = p.ticks as u64 * PERIOD;
    for (k, f) in p.faults.iter().enumerate() {
        let (at, end) = match *f {
            Fault::Crash { at, down, .. } | Fault::Stall { at, down, .. } => (at, at.saturating_add(down)),
            Fault::Split { at, down, side } => {
                s.splits.push((at as u64 * 1000, (at as u64 + down as u64) * 1000, side));
                (at, at.saturating_add(down))
            }
            Fault::Dead { at, down } => {
                s.dead.push((at as u64 * 1000, (at as u64 + down as u64) * 1000));
                (at, at.saturating_add(down))
            }
            Fault::Rate { at, .. } => (at, at),
        };
        quiet = quiet.max(end as u64 * 1000);
        s.post(at as u64 * 1000, Event::Fault(k));
    }
    for i in 0..n {
        let at = p.peers[i].join as u64 * PERIOD;
        quiet = quiet.max(at);
        s.post(at, Event::Up { peer: i, mem: Mem::default() });
    }
    s.quiet = quiet;
    let r = play(&mut s, cx);
    let refused: u64 = s.peers.iter().map(|x| x.refused + x.node.as_ref().map_or(0, |n| n.refused())).sum();
    if refused > 0 {
        cx.nontrivial = true;
        *cx.faults.entry("refused run, then repaired".into()).or_insert(0) += refused;
    }
    cx.sim_us += s.now;
    for i in 0..n {
        s.crash(i, false);
    }
    r
}

fn play(s: &mut Sim, cx: &mut Cx) -> Res {
    let p = s.p;
    let n = p.peers.len();
    let mut order = 0u64;
    let mut slowest = 1000;
    for x in &p.peers {
        slowest = slowest.min(x.rate.clamp(200, 4000));
    }
    for f in &p.faults {
        if let Fault::Rate { rate, .. } = f {
            slowest = slowest.min(*rate);
        }
    }
    let period = PERIOD * 1000 / slowest.clamp(200, 4000) as u64;
    let trip = (p.net.delay as u64 + p.net.jitter as u64) * 1000 + period;
    // a tick per round trip and peer is the slowest way without prediction, plus joining and restarts
    let limit = s.quiet + (p.net.jitter as u64 * 6 + 200) * 1000 + (p.ticks as u64 + 20) * (2 * trip + 2 * period) + 1_000_000;
    while let Some(((at, seq), e)) = s.queue.pop_first() {
        s.now = at;
        if at > limit {
            let w: Vec<String> = s.peers.iter().map(|x| format!("{}/{}", x.confirmed, x.game.tick)).collect();
            return fail("no-progress", format!("{} ticks are not confirmed by all peers in time: {}", p.ticks, w.join(" ")));
        }
        let _ = seq;
        let kind = match &e {
            Event::Timer { peer, .. } => *peer as u64,
            Event::Deliver { to, .. } => 16 + *to as u64,
            Event::Fault(k) => 32 + *k as u64,
            Event::Up { peer, .. } => 64 + *peer as u64,
        };
        order = mix(order, kind);
        cx.state(order);
        match e {
            Event::Timer { peer: i, life } => {
                if s.peers[i].life != life || s.peers[i].node.is_none() {
                    continue;
                }
                if s.peers[i].stalled_until > at {
                    let t = s.peers[i].stalled_until;
                    s.post(t, Event::Timer { peer: i, life });
                    continue;
                }
                s.timer(i, cx)?;
                let next = at + s.period(i);
                s.post(next, Event::Timer { peer: i, life });
            }
            Event::Deliver { to, msg } => {
                s.deliver(to, msg, cx)?;
                if p.peers[to].predict % 2 == 1 && s.peers[to].node.is_some() && !s.peers[to].asking {
                    s.correct(to, cx)?;
                }
            }
            Event::Up { peer: i, mem } => {
                if s.peers[i].node.is_some() {
                    continue;
                }
                if s.peers[i].life > 0 {
                    mem.apply(cx);
                }
                s.boot(i, cx)?;
            }
            Event::Fault(k) => match &p.faults[k] {
                Fault::Crash { peer, down, torn, mem, .. } => {
                    let i = *peer as usize % n;
                    if s.peers[i].node.is_some() {
                        cx.fault("crash and restart");
                        s.crash(i, *torn);
                        s.post(at + *down as u64 * 1000, Event::Up { peer: i, mem: mem.clone() });
                    }
                }
                Fault::Stall { peer, down, .. } => {
                    cx.fault("stalled peer");
                    s.peers[*peer as usize % n].stalled_until = at + *down as u64 * 1000;
                }
                Fault::Rate { peer, rate, .. } => {
                    cx.fault("clock rate changed");
                    s.peers[*peer as usize % n].rate = *rate;
                }
                Fault::Split { .. } | Fault::Dead { .. } => {}
            },
        }
        if s.peers.iter().all(|x| x.joined && x.node.is_some() && x.confirmed >= p.ticks) {
            cx.probe("all peers at the last tick");
            return Ok(());
        }
    }
    fail("harness", "the simulation ran out of events")
}

pub static C04: Prop = Prop {
    id: "C04",
    gen,
    exec,
    runs: (12_000, 600_000),
    rule: "Two to four peers run one game over a simulated network: inputs are exchanged, predicted, rolled back; messages are \
           lost, duplicated, reordered, delayed and cut off by partitions; clocks differ, peers stall, crash, restart from saves \
           (some torn), and join late from another peer's state. Each peer owns its assets, buffers and contexts in its own way, \
           keeps or renews its jobs, starts from other memory content and meets refused runs. Every confirmed tick of every peer \
           must be bit for bit that of a reference with new jobs and contexts every tick, and once faults stop all peers reach \
           the last tick within a bounded time. Non-trivial: at least one fault.",
    measure: "distinct orders of events (timers, deliveries, faults) up to an instant",
    real: &[
        "ozz_animation_rs: all nine job kinds, contexts, their serde and rkyv code, archives, buffer ownership kinds",
    ],
    stub: &[
        "network, clocks, disk and the peers' protocol (rollback, saves, joining)",
        "the global allocator (content and address reuse)",
        "the game around the jobs",
    ],
    assumptions: &["peers run the same build on the same architecture", "messages and intact saves are not altered, only lost or cut"],
};
