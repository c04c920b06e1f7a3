//! C17: a job object carries nothing over. C07: a refused job has no effect. C06: poisoned buffers.

use crate::cx::{plan, Cx, Mem, Prop, Res};
use crate::ensure;
use crate::rig::*;
use crate::rng::{Fnv, Rng};
use ozz_animation_rs::math::SoaTransform;
use serde::{Deserialize, Serialize};
use serde_json::Value;

const JOBS: usize = 4;

#[derive(Serialize, Deserialize, Clone, Debug)]
struct Setup {
    mem: Mem,
    /// Way of owning resources.
    style: u32,
    assets: AssetSpec,
    bufs: u32,
    /// Kind and seed of the first settings of each job.
    jobs: Vec<(u32, u32)>,
}

impl Setup {
    fn gen(rng: &mut Rng, styles: &[u32], buffered: bool) -> Setup {
        let kind = |rng: &mut Rng| {
            if buffered || rng.pm(550) {
                rng.below(4) as u32
            } else {
                rng.below(KINDS as u64) as u32
            }
        };
        let n = rng.usize(1, JOBS);
        Setup {
            mem: Mem::gen(rng),
            style: *rng.pick(styles),
            assets: AssetSpec::gen(rng),
            bufs: rng.u64() as u32,
            jobs: (0..n).map(|_| (kind(rng), rng.u64() as u32)).collect(),
        }
    }
}

struct World<'a, S: Style> {
    assets: &'a Assets,
    bufs: Bufs,
    cells: Cells<S>,
    jobs: Vec<Job<S>>,
    cfgs: Vec<Cfg>,
}

impl<'a, S: Style> World<'a, S> {
    fn new(s: &Setup, assets: &'a Assets, small: u32) -> World<'a, S> {
        let bufs = Bufs::new(s.bufs, small);
        let cells = bufs.cells::<S>();
        let cfgs: Vec<Cfg> = s.jobs.iter().map(|&(k, seed)| Cfg::new(k, seed)).collect();
        World { assets, bufs, cells, jobs: cfgs.iter().map(|c| Job::new(c)).collect(), cfgs }
    }
    fn apply(&mut self, j: usize, c: &Cfg) {
        let e = Env { assets: self.assets, bufs: &self.bufs, cells: &self.cells };
        self.jobs[j].apply(c, e);
    }
    /// Runs the job with its current settings.
    fn run(&mut self, j: usize) -> Result<(), ozz_animation_rs::OzzError> {
        let c = self.cfgs[j].clone();
        self.apply(j, &c);
        self.jobs[j].run()
    }
}

macro_rules! styled {
    ($style:expr, $f:ident ( $($a:expr),* )) => {
        match $style % 5 {
            0 => $f::<Owned>($($a),*),
            1 => $f::<Borrowed>($($a),*),
            2 => $f::<Counted>($($a),*),
            3 => $f::<Locked>($($a),*),
            _ => $f::<User>($($a),*),
        }
    };
}

fn good(s: &Setup) -> Res {
    ensure!(!s.jobs.is_empty() && s.jobs.len() <= JOBS, crate::cx::BAD_PLAN, "jobs");
    Ok(())
}

// ---------------------------------------------------------------- C17

#[derive(Serialize, Deserialize, Clone, Debug)]
enum Op17 {
    /// Changes some settings of a job.
    Change { job: u32, seed: u32, n: u32 },
    Edit { pool: u32, id: u32, seed: u32 },
    /// A buffer gets another length.
    Resize { id: u32, len: u32, seed: u32 },
    Run { job: u32, again: u32 },
    ClearOuts { job: u32 },
    /// The job object is replaced by one that has run something else.
    Swap { a: u32, b: u32 },
}

#[derive(Serialize, Deserialize, Clone, Debug)]
struct Plan17 {
    setup: Setup,
    small: u32,
    ops: Vec<Op17>,
}

fn gen17(rng: &mut Rng, thorough: bool) -> Value {
    let setup = Setup::gen(rng, &[0, 1, 2, 2, 3, 3, 4], false);
    let len = rng.usize(4, if thorough { 90 } else { 40 });
    let mut ops = Vec::new();
    let nj = setup.jobs.len() as u64;
    for _ in 0..len {
        let job = rng.below(nj) as u32;
        ops.push(match rng.below(12) {
            0..=3 => Op17::Change { job, seed: rng.u64() as u32, n: rng.range(1, 4) as u32 },
            4 => Op17::Edit { pool: rng.below(5) as u32, id: rng.below(8) as u32, seed: rng.u64() as u32 },
            5 if rng.pm(300) => Op17::Resize { id: rng.below(8) as u32, len: rng.range(8, 14) as u32, seed: rng.u64() as u32 },
            6 if rng.pm(400) => Op17::ClearOuts { job },
            7 if rng.pm(300) => Op17::Swap { a: job, b: rng.below(nj) as u32 },
            _ => Op17::Run { job, again: if rng.pm(250) { rng.range(1, 2) as u32 } else { 0 } },
        });
    }
    let small = *rng.pick(&[0u32, 0, 100, 300]);
    serde_json::to_value(Plan17 { setup, small, ops }).unwrap()
}

fn exec17(v: &Value, cx: &mut Cx) -> Res {
    let p: Plan17 = plan(v)?;
    good(&p.setup)?;
    p.setup.mem.apply(cx);
    styled!(p.setup.style, run17(&p, cx))
}

fn run17<S: Style>(p: &Plan17, cx: &mut Cx) -> Res {
    let assets = p.setup.assets.load()?;
    let mut w = World::<S>::new(&p.setup, &assets, p.small);
    let n = w.jobs.len();
    let mut runs = vec![0u32; n];
    cx.probe(S::NAME);
    for (i, op) in p.ops.iter().enumerate() {
        cx.steps += 1;
        match op {
            Op17::Change { job, seed, n: k } => {
                let j = *job as usize % n;
                let mut rng = Rng::new(*seed as u64);
                for _ in 0..(*k).min(8) {
                    w.cfgs[j].change(&mut rng, false);
                }
                cx.fault("settings changed");
            }
            Op17::Edit { pool, id, seed } => {
                w.bufs.edit(&w.cells, *pool, *id, *seed);
                cx.fault("buffer content changed");
            }
            Op17::Resize { id, len, seed } => {
                let mut rng = Rng::new(*seed as u64);
                let v = rand_pose(&mut rng, *len as usize % 32);
                w.bufs.set_pose(&w.cells, *id as usize % POSES, v);
                cx.fault("buffer length changed");
            }
            Op17::ClearOuts { job } => {
                w.jobs[*job as usize % n].clear_outs();
                cx.fault("results cleared");
            }
            Op17::Swap { a, b } => {
                let (a, b) = (*a as usize % n, *b as usize % n);
                // two jobs of one kind exchange their tasks
                if a != b && std::mem::discriminant(&w.cfgs[a]) == std::mem::discriminant(&w.cfgs[b]) {
                    w.jobs.swap(a, b);
                    cx.fault("job objects exchanged");
                }
            }
            Op17::Run { job, again } => {
                let j = *job as usize % n;
                let c = w.cfgs[j].clone();
                let (want, want_res, want_out) = fresh(&c, w.assets, &w.bufs);
                let got = w.run(j);
                cx.note(|| format!("step {i} {c:?} -> {got:?}"));
                let name = c.name();
                ensure!(
                    code(&want) == code(&got),
                    "carried-over",
                    "step {i}: {name} job ({}) after {} runs returns {got:?}, a new one {want:?}",
                    S::NAME,
                    runs[j]
                );
                let out = w.jobs[j].outputs().unwrap_or_default();
                ensure!(
                    out.words() == want_out.words(),
                    "carried-over",
                    "step {i}: {name} job ({}) after {} runs writes other outputs than a new one",
                    S::NAME,
                    runs[j]
                );
                if got.is_ok() {
                    ensure!(
                        w.jobs[j].results() == want_res,
                        "carried-over",
                        "step {i}: {name} job ({}) after {} runs has other results than a new one",
                        S::NAME,
                        runs[j]
                    );
                }
                want_out.store(&mut w.bufs);
                w.jobs[j].in_step(&w.bufs);
                if let Some(b) = w.bufs.changed(&w.cells) {
                    ensure!(false, "carried-over", "step {i}: {name} job ({}) changed {b}", S::NAME);
                }
                ensure!(
                    !w.bufs.busy(&w.cells),
                    "keeps-buffer",
                    "step {i}: {name} job ({}) still holds a buffer after its run",
                    S::NAME
                );
                runs[j] += 1;
                cx.probe(name);
                if got.is_err() {
                    cx.probe("refused");
                }
                let mut h = Fnv::new();
                h.u64(code(&got) as u64);
                let (words, res) = (out.words(), w.jobs[j].results());
                for x in words.iter().chain(&res) {
                    h.u64(*x as u64);
                }
                cx.u(h.finish());
                cx.state(h.finish());
                for k in 0..*again {
                    let r = w.jobs[j].run();
                    let o = w.jobs[j].outputs().unwrap_or_default();
                    ensure!(
                        code(&r) == code(&got) && o.words() == words && w.jobs[j].results() == res,
                        "rerun-differs",
                        "step {i}: {name} job ({}) run again ({}) without changes gives other outputs",
                        S::NAME,
                        k + 1
                    );
                    cx.fault("run again");
                }
            }
        }
    }
    drop(w);
    Ok(())
}

pub static C17: Prop = Prop {
    id: "C17",
    gen: gen17,
    exec: exec17,
    runs: (60_000, 3_000_000),
    rule: "One run = up to four jobs of the nine kinds on shared buffers in one of five ways of ownership, 4-90 steps of \
           changed settings, buffer contents and lengths, cleared results, exchanged objects and (repeated) runs; every run \
           is compared bit for bit with a new job given the current settings only. Non-trivial: a change before a run.",
    measure: "distinct hashes of the result and outputs of a run",
    real: &["ozz_animation_rs: all nine job kinds, contexts, objects and the buffer types of base.rs"],
    stub: &["the user-defined style: objects, buffers and contexts of the simulator", "the global allocator"],
    assumptions: &["a buffer is not input and output of one job at a time (borrow rules forbid it)"],
};

// ---------------------------------------------------------------- C07

#[derive(Serialize, Deserialize, Clone, Debug)]
enum Op07 {
    Change { job: u32, seed: u32, n: u32 },
    Edit { pool: u32, id: u32, seed: u32 },
    Run { job: u32 },
    /// Something is missing or too small for some runs, then comes back.
    Fail { job: u32, how: u32, seed: u32, runs: u32 },
}

#[derive(Serialize, Deserialize, Clone, Debug)]
struct Plan07 {
    setup: Setup,
    ops: Vec<Op07>,
}

fn gen07(rng: &mut Rng, thorough: bool) -> Value {
    let setup = Setup::gen(rng, &[0, 1, 2, 2, 3, 3, 4], false);
    let len = rng.usize(4, if thorough { 60 } else { 30 });
    let mut ops = Vec::new();
    let nj = setup.jobs.len() as u64;
    for _ in 0..len {
        let job = rng.below(nj) as u32;
        ops.push(match rng.below(12) {
            0..=2 => Op07::Change { job, seed: rng.u64() as u32, n: rng.range(1, 4) as u32 },
            3 => Op07::Edit { pool: rng.below(5) as u32, id: rng.below(8) as u32, seed: rng.u64() as u32 },
            4..=7 => Op07::Fail { job, how: rng.below(64) as u32, seed: rng.u64() as u32, runs: rng.range(1, 2) as u32 },
            _ => Op07::Run { job },
        });
    }
    serde_json::to_value(Plan07 { setup, ops }).unwrap()
}

fn exec07(v: &Value, cx: &mut Cx) -> Res {
    let p: Plan07 = plan(v)?;
    good(&p.setup)?;
    p.setup.mem.apply(cx);
    styled!(p.setup.style, run07(&p, cx))
}

/// Settings that must be refused, and a buffer to be shortened in place (pool, index, new length).
fn spoil(c: &Cfg, how: u32, seed: u32, a: &Assets, b: &Bufs) -> Option<(Cfg, Option<(u32, usize, usize)>, &'static str)> {
    let mut c = c.clone();
    let mut rng = Rng::new(0x5B01 ^ seed as u64);
    let rng = &mut rng;
    let mut cut = None;
    // (the buffer is needed up to n elements)
    let mut short = |rng: &mut Rng, pool: u32, id: Option<usize>, n: usize| -> Option<()> {
        if n == 0 {
            return None;
        }
        cut = Some((pool, id?, *rng.pick(&[0, n - 1, n / 2])));
        Some(())
    };
    let what;
    match &mut c {
        Cfg::Sampling(c) => {
            let n = a.anims[c.anim?].arc.num_soa_tracks();
            match how % 5 {
                0 => {
                    c.anim = None;
                    what = "animation missing";
                }
                1 => {
                    c.ctx = None;
                    what = "context missing";
                }
                2 => {
                    c.out = None;
                    what = "output missing";
                }
                3 => {
                    if n < 1 {
                        return None;
                    }
                    c.ctx = Some(((n - 1) * 4, 90 + seed % 3));
                    what = "context too small";
                }
                _ => {
                    short(rng, 0, c.out, n)?;
                    what = "output too small";
                }
            }
        }
        Cfg::Blending(c) => {
            let n = a.skels[c.skel?].arc.num_soa_joints();
            match how % 9 {
                0 => {
                    c.skel = None;
                    what = "skeleton missing";
                }
                1 => {
                    c.ctx = None;
                    what = "context missing";
                }
                2 => {
                    c.out = None;
                    what = "output missing";
                }
                3 => {
                    short(rng, 0, c.out, n)?;
                    what = "output too small";
                }
                4 => {
                    c.threshold = *rng.pick(&[0.0f32, -0.5, f32::NAN]);
                    what = "threshold not positive";
                }
                5 | 6 => {
                    let l = if how % 9 == 5 { &c.layers } else { &c.additive };
                    if l.is_empty() {
                        return None;
                    }
                    let i = rng.usize(0, l.len() - 1);
                    let id = l[i].buf;
                    short(rng, 0, Some(id), n)?;
                    what = if how % 9 == 5 { "layer too small" } else { "additive layer too small" };
                }
                k => {
                    let l = if k == 7 { &mut c.layers } else { &mut c.additive };
                    if l.is_empty() || n < 2 {
                        return None;
                    }
                    let i = rng.usize(0, l.len() - 1);
                    l[i].mask = Some((seed % 50, rng.usize(1, n - 1)));
                    what = if k == 7 { "joint weights too small" } else { "additive joint weights too small" };
                }
            }
        }
        Cfg::Model(c) => {
            let s = &a.skels[c.skel?].arc;
            match how % 5 {
                0 => {
                    c.skel = None;
                    what = "skeleton missing";
                }
                1 => {
                    c.input = None;
                    what = "input missing";
                }
                2 => {
                    c.out = None;
                    what = "output missing";
                }
                3 => {
                    short(rng, 0, c.input, s.num_soa_joints())?;
                    what = "input too small";
                }
                _ => {
                    short(rng, 1, c.out, s.num_joints())?;
                    what = "output too small";
                }
            }
        }
        Cfg::Skinning(c) => match how % 20 {
            0 => {
                c.mats = None;
                what = "matrices missing";
            }
            1 => {
                c.idx = None;
                what = "indices missing";
            }
            2 => {
                if c.infl < 2 {
                    return None;
                }
                c.wts = None;
                what = "weights missing";
            }
            3 | 4 | 5 => {
                let k = how as usize % 20 - 3;
                if k > 0 && c.ins[1].is_none() || k == 2 && c.ins[2].is_none() {
                    return None;
                }
                c.outs[k] = None;
                what = "output missing";
            }
            6 => {
                c.ins[0] = None;
                what = "positions missing";
            }
            7 => {
                c.ins[1] = None;
                c.ins[2].as_ref()?;
                what = "tangents without normals";
            }
            8 => {
                c.infl = 0;
                what = "no influences";
            }
            9 => {
                cut = Some((1, c.mats?, 0));
                what = "matrices empty";
            }
            10 => {
                short(rng, 4, c.idx, c.count * c.infl)?;
                what = "indices too small";
            }
            11 => {
                if c.infl < 2 {
                    return None;
                }
                short(rng, 3, c.wts, c.count * (c.infl - 1))?;
                what = "weights too small";
            }
            12 | 13 | 14 => {
                let k = how as usize % 20 - 12;
                if k > 0 && c.ins[1].is_none() || k == 2 && c.ins[2].is_none() {
                    return None;
                }
                short(rng, 2, c.outs[k], c.count)?;
                what = "output too small";
            }
            15 | 16 | 17 => {
                let k = how as usize % 20 - 15;
                if k == 2 && c.ins[1].is_none() {
                    return None;
                }
                short(rng, 2, c.ins[k], c.count)?;
                what = "input too small";
            }
            18 => {
                c.count = 13 + rng.usize(3, 100);
                what = "more vertices than buffers hold";
            }
            _ => {
                c.count = *rng.pick(&[usize::MAX, usize::MAX / 2 + 1, usize::MAX / 4 + 1]);
                what = "far more vertices than buffers hold";
            }
        },
        Cfg::Aim(c) => {
            c.v[1] = *rng.pick(&[glam::Vec3A::ZERO, glam::Vec3A::new(0.5, 0.0, 0.0), glam::Vec3A::splat(2.0)]);
            what = "forward not normalised";
        }
        Cfg::Two(c) => {
            c.v[1] = *rng.pick(&[glam::Vec3A::ZERO, glam::Vec3A::new(0.5, 0.0, 0.0), glam::Vec3A::splat(2.0)]);
            what = "axis not normalised";
        }
        Cfg::Motion(_) => return None,
        Cfg::TrackF(c) | Cfg::TrackV2(c) | Cfg::TrackV3(c) | Cfg::TrackV4(c) | Cfg::TrackQ(c) => {
            c.track = None;
            what = "track missing";
        }
        Cfg::Trig(c) => {
            c.track = None;
            what = "track missing";
        }
    }
    let _ = b;
    Some((c, cut, what))
}

fn trim<S: Style>(b: &mut Bufs, c: &Cells<S>, cut: (u32, usize, usize)) {
    let (pool, i, n) = cut;
    match pool {
        0 => {
            let v: Vec<SoaTransform> = b.poses[i].data[..n.min(b.poses[i].data.len())].to_vec();
            b.set_pose(c, i, v);
        }
        1 => {
            let v = b.mats[i].data[..n.min(b.mats[i].data.len())].to_vec();
            b.set_mats(c, i, v);
        }
        2 => {
            let v = b.vecs[i].data[..n.min(b.vecs[i].data.len())].to_vec();
            b.set_vecs(c, i, v);
        }
        3 => {
            b.wts[i].data.truncate(n);
            b.wts[i].ver += 1;
            S::write(&c.wts[i], &b.wts[i].data);
        }
        _ => {
            b.idx[i].data.truncate(n);
            b.idx[i].ver += 1;
            S::write(&c.idx[i], &b.idx[i].data);
        }
    }
}

fn untrim<S: Style>(b: &mut Bufs, c: &Cells<S>, cut: (u32, usize, usize), full: &Bufs) {
    let (pool, i, _) = cut;
    match pool {
        0 => b.set_pose(c, i, full.poses[i].data.clone()),
        1 => b.set_mats(c, i, full.mats[i].data.clone()),
        2 => b.set_vecs(c, i, full.vecs[i].data.clone()),
        3 => {
            b.wts[i].data = full.wts[i].data.clone();
            b.wts[i].ver += 1;
            S::write(&c.wts[i], &b.wts[i].data);
        }
        _ => {
            b.idx[i].data = full.idx[i].data.clone();
            b.idx[i].ver += 1;
            S::write(&c.idx[i], &b.idx[i].data);
        }
    }
}

fn run07<S: Style>(p: &Plan07, cx: &mut Cx) -> Res {
    let assets = p.setup.assets.load()?;
    let mut live = World::<S>::new(&p.setup, &assets, 0);
    // the same history without the refused runs
    let mut twin = World::<S>::new(&p.setup, &assets, 0);
    let n = live.jobs.len();
    cx.probe(S::NAME);
    for (i, op) in p.ops.iter().enumerate() {
        cx.steps += 1;
        match op {
            Op07::Change { job, seed, n: k } => {
                let j = *job as usize % n;
                let mut rng = Rng::new(*seed as u64);
                for _ in 0..(*k).min(8) {
                    live.cfgs[j].change(&mut rng, true);
                }
                twin.cfgs[j] = live.cfgs[j].clone();
            }
            Op07::Edit { pool, id, seed } => {
                live.bufs.edit(&live.cells, *pool, *id, *seed);
                twin.bufs.edit(&twin.cells, *pool, *id, *seed);
            }
            Op07::Run { job } => {
                let j = *job as usize % n;
                let c = live.cfgs[j].clone();
                let name = c.name();
                live.apply(j, &c);
                let says = live.jobs[j].validate();
                let got = live.jobs[j].run();
                let want = twin.run(j);
                ensure!(
                    says.is_none() || says == Some(got.is_ok()),
                    "validation",
                    "step {i}: {name} job ({}): validation says {says:?}, the run {got:?}",
                    S::NAME
                );
                ensure!(
                    got.is_ok(),
                    "complete-refused",
                    "step {i}: complete {name} job ({}) refused: {got:?}",
                    S::NAME
                );
                ensure!(
                    code(&got) == code(&want),
                    "after-refusal",
                    "step {i}: {name} job ({}) returns {got:?}, one that was never refused {want:?}",
                    S::NAME
                );
                let (a, b) = (live.jobs[j].outputs().unwrap_or_default(), twin.jobs[j].outputs().unwrap_or_default());
                ensure!(
                    a.words() == b.words() && live.jobs[j].results() == twin.jobs[j].results(),
                    "after-refusal",
                    "step {i}: {name} job ({}) gives other results than one that was never refused",
                    S::NAME
                );
                for x in a.words().iter().chain(&live.jobs[j].results()) {
                    cx.u(*x as u64);
                }
                cx.state(cx.hash());
                a.store(&mut live.bufs);
                live.jobs[j].in_step(&live.bufs);
                b.store(&mut twin.bufs);
                twin.jobs[j].in_step(&twin.bufs);
                cx.probe(name);
            }
            Op07::Fail { job, how, seed, runs } => {
                let j = *job as usize % n;
                let c = live.cfgs[j].clone();
                let Some((bad, cut, what)) = spoil(&c, *how, *seed, &assets, &live.bufs) else {
                    continue;
                };
                let full = live.bufs.clone();
                let name = c.name();
                // the job is complete first, so that something is taken away from it
                live.apply(j, &c);
                if let Some(cut) = cut {
                    trim(&mut live.bufs, &live.cells, cut);
                }
                live.apply(j, &bad);
                let before = (live.jobs[j].outputs().map(|o| o.words()), live.jobs[j].results(), live.jobs[j].context());
                for _ in 0..(*runs).clamp(1, 4) {
                    let says = live.jobs[j].validate();
                    ensure!(
                        says != Some(true),
                        "validation",
                        "step {i}: {name} job ({}), {what}: validation accepts it",
                        S::NAME
                    );
                    let r = live.jobs[j].run();
                    ensure!(
                        code(&r) == 1,
                        "not-refused",
                        "step {i}: {name} job ({}), {what}: the run returns {r:?} instead of the invalid-job error",
                        S::NAME
                    );
                    let after = (live.jobs[j].outputs().map(|o| o.words()), live.jobs[j].results(), live.jobs[j].context());
                    ensure!(
                        after.0 == before.0 && after.1 == before.1,
                        "refusal-writes",
                        "step {i}: {name} job ({}), {what}: the refused run changed its outputs",
                        S::NAME
                    );
                    ensure!(
                        after.2 == before.2,
                        "refusal-writes",
                        "step {i}: {name} job ({}), {what}: the refused run changed the sampling context",
                        S::NAME
                    );
                    if let Some(b) = live.bufs.changed(&live.cells) {
                        ensure!(false, "refusal-writes", "step {i}: {name} job ({}), {what}: the refused run changed {b}", S::NAME);
                    }
                    ensure!(
                        !live.bufs.busy(&live.cells),
                        "keeps-buffer",
                        "step {i}: {name} job ({}), {what}: still holds a buffer after the refused run",
                        S::NAME
                    );
                }
                if let Some(cut) = cut {
                    untrim(&mut live.bufs, &live.cells, cut, &full);
                }
                live.apply(j, &c);
                cx.fault(what);
            }
        }
    }
    drop(live);
    drop(twin);
    Ok(())
}

pub static C07: Prop = Prop {
    id: "C07",
    gen: gen07,
    exec: exec07,
    runs: (60_000, 3_000_000),
    rule: "One run = up to four jobs of the nine kinds in one of five ways of ownership, 4-60 steps of valid changes and runs \
           with refused runs in between: a resource taken away, shortened in place or in another way invalid, then put back. \
           Refused runs must leave outputs and context untouched; accepted runs must equal those of a twin history without \
           refusals. Non-trivial: at least one refused run.",
    measure: "distinct hashes of the result history",
    real: &["ozz_animation_rs: all nine job kinds, contexts, objects and the buffer types of base.rs"],
    stub: &["the user-defined style: objects, buffers and contexts of the simulator", "the global allocator"],
    assumptions: &["index content is valid (the invalid-index error is the business of C16)"],
};

// ---------------------------------------------------------------- C06

#[derive(Serialize, Deserialize, Clone, Debug)]
enum Op06 {
    Change { job: u32, seed: u32, n: u32 },
    Edit { pool: u32, id: u32, seed: u32 },
    Run { job: u32 },
    /// A holder of the buffer panics, maybe after having written something.
    Poison { pool: u32, id: u32, torn: u32 },
    /// How: the poison is cleared, or the buffer replaced by another one.
    Heal { pool: u32, id: u32, replace: bool },
}

#[derive(Serialize, Deserialize, Clone, Debug)]
struct Plan06 {
    setup: Setup,
    ops: Vec<Op06>,
}

fn gen06(rng: &mut Rng, thorough: bool) -> Value {
    let setup = Setup::gen(rng, &[3, 3, 3, 4], true);
    let len = rng.usize(4, if thorough { 80 } else { 40 });
    let mut ops = Vec::new();
    let nj = setup.jobs.len() as u64;
    let mut sick: Vec<(u32, u32)> = Vec::new();
    for _ in 0..len {
        let job = rng.below(nj) as u32;
        ops.push(match rng.below(14) {
            0..=1 => Op06::Change { job, seed: rng.u64() as u32, n: rng.range(1, 4) as u32 },
            2 => Op06::Edit { pool: rng.below(5) as u32, id: rng.below(8) as u32, seed: rng.u64() as u32 },
            3..=5 if sick.len() < 3 => {
                let pool = *rng.pick(&[0u32, 0, 0, 1, 1, 2, 2, 3, 4]);
                let id = rng.below([POSES, MATS, VECS, WTS, IDX][pool as usize] as u64) as u32;
                sick.push((pool, id));
                Op06::Poison { pool, id, torn: if rng.pm(400) { rng.u64() as u32 } else { 0 } }
            }
            6..=7 if !sick.is_empty() => {
                let i = rng.usize(0, sick.len() - 1);
                let (pool, id) = sick.remove(i);
                Op06::Heal { pool, id, replace: rng.pm(500) }
            }
            _ => Op06::Run { job },
        });
    }
    serde_json::to_value(Plan06 { setup, ops }).unwrap()
}

fn exec06(v: &Value, cx: &mut Cx) -> Res {
    let p: Plan06 = plan(v)?;
    good(&p.setup)?;
    p.setup.mem.apply(cx);
    if p.setup.style % 5 == 4 {
        run06::<User>(&p, cx)
    } else {
        run06::<Locked>(&p, cx)
    }
}

macro_rules! on_cell {
    ($w:expr, $pool:expr, $id:expr, $b:ident, $c:ident => $e:expr) => {
        match $pool % 5 {
            0 => {
                let ($b, $c) = (&mut $w.bufs.poses[$id], &mut $w.cells.poses[$id]);
                $e
            }
            1 => {
                let ($b, $c) = (&mut $w.bufs.mats[$id], &mut $w.cells.mats[$id]);
                $e
            }
            2 => {
                let ($b, $c) = (&mut $w.bufs.vecs[$id], &mut $w.cells.vecs[$id]);
                $e
            }
            3 => {
                let ($b, $c) = (&mut $w.bufs.wts[$id], &mut $w.cells.wts[$id]);
                $e
            }
            _ => {
                let ($b, $c) = (&mut $w.bufs.idx[$id], &mut $w.cells.idx[$id]);
                $e
            }
        }
    };
}

fn run06<S: Style>(p: &Plan06, cx: &mut Cx) -> Res {
    let assets = p.setup.assets.load()?;
    let mut w = World::<S>::new(&p.setup, &assets, 0);
    let n = w.jobs.len();
    let mut sick: Vec<(u32, usize)> = Vec::new();
    let sizes = [POSES, MATS, VECS, WTS, IDX];
    cx.probe(S::NAME);
    for (i, op) in p.ops.iter().enumerate() {
        cx.steps += 1;
        match op {
            Op06::Change { job, seed, n: k } => {
                let j = *job as usize % n;
                let mut rng = Rng::new(*seed as u64);
                for _ in 0..(*k).min(8) {
                    w.cfgs[j].change(&mut rng, true);
                }
            }
            Op06::Edit { pool, id, seed } => {
                let at = (*pool % 5, *id as usize % sizes[*pool as usize % 5]);
                if !sick.contains(&at) {
                    w.bufs.edit(&w.cells, *pool, *id, *seed);
                }
            }
            Op06::Poison { pool, id, torn } => {
                let (pool, id) = (*pool % 5, *id as usize % sizes[*pool as usize % 5]);
                if *torn > 0 {
                    w.bufs.edit(&w.cells, pool, id as u32, *torn);
                }
                let ok = on_cell!(w, pool, id, _b, c => S::poison(c));
                ensure!(ok, "harness", "could not poison the buffer");
                if !sick.contains(&(pool, id)) {
                    sick.push((pool, id));
                }
                cx.fault(if *torn > 0 { "holder panics, content torn" } else { "holder panics" });
            }
            Op06::Heal { pool, id, replace } => {
                let (pool, id) = (*pool % 5, *id as usize % sizes[*pool as usize % 5]);
                if !sick.contains(&(pool, id)) {
                    continue;
                }
                sick.retain(|x| *x != (pool, id));
                if *replace {
                    on_cell!(w, pool, id, b, c => *c = S::cell(&b.data));
                    for j in &mut w.jobs {
                        j.forget();
                    }
                    cx.fault("buffer replaced");
                } else {
                    on_cell!(w, pool, id, _b, c => S::heal(c));
                    cx.fault("poison cleared");
                }
            }
            Op06::Run { job } => {
                let j = *job as usize % n;
                let c = w.cfgs[j].clone();
                let name = c.name();
                w.apply(j, &c);
                let needs = c.needs();
                // whether a run needs the pose of a layer without weight is its own business
                let idle: Vec<(u32, usize)> = match &c {
                    Cfg::Blending(b) => b
                        .layers
                        .iter()
                        .filter(|l| l.weight <= 0.0)
                        .chain(b.additive.iter().filter(|l| l.weight == 0.0))
                        .map(|l| (0, l.buf))
                        .collect(),
                    Cfg::Skinning(k) if k.count == 0 => needs.clone(),
                    _ => vec![],
                };
                let active: Vec<(u32, usize)> = match &c {
                    Cfg::Blending(b) => b
                        .layers
                        .iter()
                        .filter(|l| l.weight > 0.0)
                        .chain(b.additive.iter().filter(|l| l.weight != 0.0))
                        .map(|l| (0, l.buf))
                        .chain(b.out.map(|i| (0, i)))
                        .collect(),
                    Cfg::Skinning(k) if k.count == 0 => vec![],
                    _ => needs.clone(),
                };
                let hit = needs.iter().any(|x| sick.contains(x));
                if hit && !active.iter().any(|x| sick.contains(x)) && idle.iter().any(|x| sick.contains(x)) {
                    continue;
                }
                cx.note(|| format!("step {i} {c:?} poisoned {sick:?}"));
                let says = w.jobs[j].validate();
                let before = (w.jobs[j].results(), w.jobs[j].context());
                if hit {
                    let got = w.jobs[j].run();
                    ensure!(
                        code(&got) == 2,
                        "poison-not-reported",
                        "step {i}: {name} job ({}) needs a poisoned buffer and returns {got:?}",
                        S::NAME
                    );
                    ensure!(
                        says == Some(false),
                        "poison-validation",
                        "step {i}: {name} job ({}) needs a poisoned buffer and validation says {says:?}",
                        S::NAME
                    );
                    if let Some(b) = w.bufs.changed(&w.cells) {
                        ensure!(false, "poison-writes", "step {i}: {name} job ({}), refused for a poisoned buffer, changed {b}", S::NAME);
                    }
                    ensure!(
                        before == (w.jobs[j].results(), w.jobs[j].context()),
                        "poison-writes",
                        "step {i}: {name} job ({}), refused for a poisoned buffer, changed its context",
                        S::NAME
                    );
                    cx.probe("refused for poison");
                } else {
                    let (want, want_res, want_out) = fresh(&c, w.assets, &w.bufs);
                    let got = w.jobs[j].run();
                    ensure!(
                        code(&got) == code(&want),
                        "unaffected-job",
                        "step {i}: {name} job ({}) with {} poisoned buffers elsewhere returns {got:?}, a new one {want:?}",
                        S::NAME,
                        sick.len()
                    );
                    ensure!(
                        says == Some(got.is_ok()),
                        "poison-validation",
                        "step {i}: {name} job ({}) needs no poisoned buffer: validation says {says:?}, the run {got:?}",
                        S::NAME
                    );
                    ensure!(
                        w.jobs[j].results() == want_res,
                        "unaffected-job",
                        "step {i}: {name} job ({}) has other results than a new one",
                        S::NAME
                    );
                    want_out.store(&mut w.bufs);
                    w.jobs[j].in_step(&w.bufs);
                    if let Some(b) = w.bufs.changed(&w.cells) {
                        ensure!(
                            false,
                            "unaffected-job",
                            "step {i}: after {name} job ({}) {b} differs from what a new job makes",
                            S::NAME
                        );
                    }
                    if !sick.is_empty() {
                        cx.probe("unaffected by poison elsewhere");
                    }
                }
                ensure!(
                    !w.bufs.busy(&w.cells),
                    "keeps-buffer",
                    "step {i}: {name} job ({}) still holds a buffer after its run",
                    S::NAME
                );
                cx.probe(name);
                let mut h = Fnv::new();
                h.u64(hit as u64);
                if let Some(o) = w.jobs[j].outputs() {
                    for x in o.words() {
                        h.u64(x as u64);
                    }
                }
                cx.u(h.finish());
                cx.state(h.finish());
            }
        }
    }
    drop(w);
    Ok(())
}

pub static C06: Prop = Prop {
    id: "C06",
    gen: gen06,
    exec: exec06,
    runs: (60_000, 3_000_000),
    rule: "One run = up to four buffered jobs on shared lock-protected (or user-defined) buffers, 4-80 steps of changes, runs, \
           panics of a holder of a chosen buffer (its content possibly half changed), cleared poison and replaced buffers. A \
           run that needs a poisoned buffer must return the lock-poisoned error and change nothing; every other run must equal \
           that of a new job. Non-trivial: at least one poisoned buffer.",
    measure: "distinct hashes of the outputs of a run",
    real: &["ozz_animation_rs: sampling, blending, local-to-model and skinning jobs and the buffer types of base.rs", "std::sync::RwLock and its poisoning by real panics"],
    stub: &["the user-defined style's buffers report poison by themselves", "the global allocator"],
    assumptions: &[
        "the poison exists before the run starts",
        "whether a layer without weight or a mesh without vertices needs its buffers is left open",
    ],
};
