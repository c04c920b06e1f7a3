//! C05: threads that share assets and lock-protected buffers behave like some sequential execution.

use crate::cx::{fail, plan, Cx, Prop, Res};
use crate::ensure;
use crate::rig::*;
use crate::rng::{Fnv, Rng};
use crate::sched::{self, Access, Mode, SBuf, Threaded};
use ozz_animation_rs::{OzzBuf, OzzMutBuf};
use serde::{Deserialize, Serialize};
use serde_json::Value;
use std::cell::RefCell;

#[derive(Serialize, Deserialize, Clone, Debug)]
enum Op {
    /// Changes settings of a job of the thread.
    Change { job: u32, seed: u32, n: u32 },
    Run { job: u32 },
    Validate { job: u32 },
    /// User code reads a buffer.
    Look { pool: u32, id: u32 },
    /// User code writes a buffer, in two halves.
    Write { pool: u32, id: u32, seed: u32 },
    /// User code changes the length of a buffer.
    Resize { pool: u32, id: u32, len: u32 },
    /// User code panics while it holds the buffer.
    Die { pool: u32, id: u32, seed: u32 },
    Heal { pool: u32, id: u32 },
}

#[derive(Serialize, Deserialize, Clone, Debug)]
struct Thread {
    /// Kind and seed of each job.
    jobs: Vec<(u32, u32)>,
    ops: Vec<Op>,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
struct Plan {
    assets: AssetSpec,
    bufs: u32,
    /// Buffers are taken from so few.
    hot: u32,
    writers_first: bool,
    /// Per mille of the waiting that is done in the real lock.
    real: u32,
    threads: Vec<Thread>,
    /// After so many seams, the n-th of those that can goes on.
    sched: Vec<(u32, u32)>,
}

fn gen(rng: &mut Rng, thorough: bool) -> Value {
    let nt = rng.usize(2, if thorough { 6 } else { 5 });
    let faults = rng.pm(350);
    let sizes = rng.pm(200);
    let theme = rng.below(6);
    let mut threads = Vec::new();
    for _ in 0..nt {
        let kind = |rng: &mut Rng| match (theme, rng.below(10)) {
            (0, 0..=6) => 1,
            (1, 0..=6) => 3,
            (2, 0..=6) => 2,
            (_, 0..=2) => 0,
            (_, 3..=4) => 1,
            (_, 5..=6) => 2,
            (_, 7..=8) => 3,
            _ => rng.below(KINDS as u64) as u32,
        };
        let jobs: Vec<_> = (0..rng.usize(1, 3)).map(|_| (kind(rng), rng.u64() as u32)).collect();
        let nj = jobs.len() as u64;
        let user = rng.pm(250);
        let ops = (0..rng.usize(2, if thorough { 14 } else { 8 }))
            .map(|_| {
                let job = rng.below(nj) as u32;
                let pool = rng.below(5) as u32;
                let id = rng.below(8) as u32;
                let seed = rng.u64() as u32;
                match rng.below(if user { 20 } else { 11 }) {
                    0..=1 => Op::Change { job, seed, n: rng.range(1, 4) as u32 },
                    2 => Op::Validate { job },
                    3..=9 => Op::Run { job },
                    10 => Op::Look { pool, id },
                    11 | 12 if faults => Op::Die { pool, id, seed },
                    13 if faults => Op::Heal { pool, id },
                    14 | 15 if sizes => Op::Resize { pool, id, len: if rng.pm(400) { 0 } else { rng.below(80) as u32 } },
                    _ => Op::Write { pool, id, seed },
                }
            })
            .collect();
        threads.push(Thread { jobs, ops });
    }
    let span = *rng.pick(&[3u64, 8, 20, 60]);
    let sched = (0..rng.usize(2, if thorough { 200 } else { 80 }))
        .map(|_| (rng.below(span) as u32, rng.below(12) as u32))
        .collect();
    serde_json::to_value(Plan {
        assets: AssetSpec::gen(rng),
        bufs: rng.u64() as u32,
        hot: rng.range(1, 4) as u32,
        writers_first: rng.pm(500),
        real: if rng.pm(300) { rng.range(50, 300) as u32 } else { 0 },
        threads,
        sched,
    })
    .unwrap()
}

/// Every buffer gets one role, so that the pipelines have no cycle.
fn roles(c: &mut Cfg, hot: usize) {
    match c {
        Cfg::Sampling(c) => c.out = c.out.map(|i| i % hot),
        Cfg::Blending(c) => {
            let old = c.out.unwrap_or(0);
            for l in c.layers.iter_mut().chain(&mut c.additive) {
                l.buf %= hot + 1;
            }
            let out = c.layers.iter().chain(&c.additive).map(|l| l.buf).fold(old % (hot + 2), usize::max);
            let mut used = vec![out];
            let mut once = |l: &L| {
                let new = !used.contains(&l.buf);
                used.push(l.buf);
                new
            };
            c.layers.retain(&mut once);
            c.additive.retain(&mut once);
            c.out = Some(out);
        }
        Cfg::Model(c) => {
            c.input = c.input.map(|i| i % (hot + 2) % POSES);
            c.out = c.out.map(|i| i % (hot + 1) % MATS);
        }
        Cfg::Skinning(c) => {
            c.mats = c.mats.map(|i| i % 2);
            c.it = c.it.map(|i| 2 + i % 2);
            let second = c.outs[0].is_some_and(|i| i % 2 == 1);
            let from = if second && c.ins[0].is_some_and(|i| i % 2 == 1) { 3 } else { 0 };
            let to = if second { 6 } else { 3 };
            if second {
                c.ins[2] = None;
                c.outs[2] = None;
            }
            for k in 0..3 {
                c.ins[k] = c.ins[k].map(|_| from + k);
                c.outs[k] = c.outs[k].map(|_| to + k);
            }
        }
        _ => {}
    }
}

fn base(pool: u32) -> usize {
    match pool {
        0 => 0,
        1 => POSES,
        2 => POSES + MATS,
        3 => POSES + MATS + VECS,
        _ => POSES + MATS + VECS + WTS,
    }
}

/// A run of a job, or the answer of its validation.
struct Rec {
    thread: usize,
    op: usize,
    cfg: Cfg,
    start: (Vec<usize>, Vec<bool>),
    end: Vec<usize>,
    acc: Vec<Access>,
    code: u32,
    results: Vec<u32>,
    valid: Option<bool>,
}

/// Only one thread runs at a time.
struct Force<T>(T);
unsafe impl<T> Send for Force<T> {}
unsafe impl<T> Sync for Force<T> {}

struct World {
    assets: Assets,
    bufs: Bufs,
    cells: Cells<Threaded>,
    recs: RefCell<Vec<Rec>>,
    lookers: RefCell<u64>,
}

fn user<T: Elem>(b: &SBuf<T>, op: &Op, new: impl FnOnce(usize) -> Vec<T>, w: &World) {
    let mut b = b.share();
    match op {
        Op::Look { .. } => {
            if let Ok(g) = OzzBuf::buf(&b) {
                let n = g.len();
                sched::seam(10, n);
                *w.lookers.borrow_mut() += 1;
            }
        }
        Op::Write { .. } => {
            if let Ok(mut g) = OzzMutBuf::mut_buf(&mut b) {
                let n = g.len();
                let v = new(n);
                let h = n / 2;
                g[..h].copy_from_slice(&v[..h]);
                sched::seam(11, n);
                g[h..].copy_from_slice(&v[h..]);
            };
        }
        Op::Die { .. } => {
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                if let Ok(mut g) = OzzMutBuf::mut_buf(&mut b) {
                    let n = g.len();
                    let v = new(n);
                    g[..n / 2].copy_from_slice(&v[..n / 2]);
                    sched::seam(12, n);
                    std::panic::panic_any(Died);
                };
            }));
            if let Err(p) = r {
                if !p.is::<Died>() {
                    std::panic::resume_unwind(p);
                }
                crate::take_panic();
            }
        }
        Op::Heal { .. } => b.heal(),
        Op::Resize { len, .. } => b.resize(*len as usize),
        _ => {}
    }
}

struct Died;

fn thread(t: usize, spec: &Thread, hot: usize, w: &World) {
    let mut cfgs: Vec<Cfg> = spec.jobs.iter().map(|&(k, s)| Cfg::new(k, s)).collect();
    let mut jobs: Vec<Job<Threaded>> = cfgs.iter().map(|c| Job::new(c)).collect();
    let e = Env { assets: &w.assets, bufs: &w.bufs, cells: &w.cells };
    for (c, j) in cfgs.iter_mut().zip(&mut jobs) {
        roles(c, hot);
        j.apply(c, e);
    }
    for (i, op) in spec.ops.iter().enumerate() {
        sched::seam(0, i);
        match op {
            Op::Change { job, seed, n } => {
                let k = *job as usize % jobs.len();
                let mut rng = Rng::new(0xC5A ^ *seed as u64);
                for _ in 0..*n % 8 {
                    cfgs[k].change(&mut rng, true);
                }
                roles(&mut cfgs[k], hot);
                jobs[k].apply(&cfgs[k], e);
            }
            Op::Run { job } | Op::Validate { job } => {
                let k = *job as usize % jobs.len();
                sched::mark(true);
                let start = sched::newest();
                let (code_, valid) = match op {
                    Op::Run { .. } => (code(&jobs[k].run()), None),
                    _ => (0, jobs[k].validate()),
                };
                let acc = sched::mark(false);
                let end = sched::newest().0;
                w.recs.borrow_mut().push(Rec {
                    thread: t,
                    op: i,
                    cfg: cfgs[k].clone(),
                    start,
                    end,
                    acc,
                    code: code_,
                    results: jobs[k].results(),
                    valid: match op {
                        Op::Run { .. } => None,
                        _ => match valid {
                            Some(v) => Some(v),
                            None => continue,
                        },
                    },
                });
            }
            Op::Look { pool, id }
            | Op::Write { pool, id, .. }
            | Op::Resize { pool, id, .. }
            | Op::Die { pool, id, .. }
            | Op::Heal { pool, id } => {
                let seed = match op {
                    Op::Write { seed, .. } | Op::Die { seed, .. } => *seed,
                    _ => 0,
                };
                let mut rng = Rng::new(0x3317 ^ seed as u64);
                let rng = &mut rng;
                let id = *id as usize;
                match pool % 5 {
                    0 => user(&w.cells.poses[id % (hot + 2) % POSES], op, |n| rand_pose(rng, n), w),
                    1 => user(&w.cells.mats[id % (hot + 1) % MATS], op, |n| rand_mats(rng, n), w),
                    2 => user(&w.cells.vecs[id % VECS], op, |n| rand_vecs(rng, n), w),
                    3 => user(&w.cells.wts[id % WTS], op, |n| (0..n).map(|_| rng.f(0.0, 0.3)).collect(), w),
                    _ => user(
                        &w.cells.idx[id % IDX],
                        op,
                        |n| (0..n).map(|_| rng.below(MAX_JOINTS as u64 / 2) as u16).collect(),
                        w,
                    ),
                }
                sched::mark(false);
            }
        }
    }
    sched::seam(13, t);
}

/// All choices of one version per buffer; None if there are too many.
fn choices(sets: &[(usize, Vec<usize>)]) -> Option<Vec<Vec<(usize, usize)>>> {
    let mut all = vec![vec![]];
    for (b, vs) in sets {
        if all.len() * vs.len() > 48 {
            return None;
        }
        all = all
            .into_iter()
            .flat_map(|c: Vec<(usize, usize)>| {
                vs.iter().map(move |&v| {
                    let mut c = c.clone();
                    c.push((*b, v));
                    c
                })
            })
            .collect();
    }
    Some(all)
}

fn with(bufs: &Bufs, choice: &[(usize, usize)]) -> Bufs {
    let mut b = bufs.clone();
    for &(id, ver) in choice {
        let c = sched::version(id, ver);
        if id < base(1) {
            b.poses[id].data = sched::from_bytes(&c);
        } else if id < base(2) {
            b.mats[id - base(1)].data = sched::from_bytes(&c);
        } else if id < base(3) {
            b.vecs[id - base(2)].data = sched::from_bytes(&c);
        } else if id < base(4) {
            b.wts[id - base(3)].data = sched::from_bytes(&c);
        } else {
            b.idx[id - base(4)].data = sched::from_bytes(&c);
        }
    }
    b
}

fn judge(r: &Rec, w: &World, cx: &mut Cx) -> Res {
    let what = format!("thread {} step {}: {} job", r.thread, r.op, r.cfg.name());
    let needs: Vec<usize> = {
        let mut v: Vec<usize> = r.cfg.needs().iter().map(|&(p, i)| base(p) + i).collect();
        v.sort();
        v.dedup();
        v
    };
    let writes: Vec<usize> = r.cfg.writes().iter().map(|&(p, i)| base(p) + i).collect();
    let refused = r.acc.iter().any(|a| a.refused);
    let late = r.acc.iter().any(|a| a.refused && !r.start.1[a.buf]);
    let live = |b: usize| (r.start.0[b]..=r.end[b]).collect::<Vec<usize>>();
    let resized = needs.iter().any(|&b| {
        let n = sched::version(b, r.start.0[b]).len();
        live(b).iter().any(|&v| sched::version(b, v).len() != n)
    });

    // outputs appear all at once, and nothing else is written
    let mut pieces: Vec<usize> = Vec::new();
    for a in r.acc.iter().filter(|a| a.before != a.after) {
        ensure!(writes.contains(&a.buf), "writes-input", "{what} changed {}", sched::name(a.buf));
        ensure!(
            !pieces.contains(&a.buf),
            "published in pieces",
            "{what} gave {} back half done: others could read it between two writes of one run",
            sched::name(a.buf)
        );
        pieces.push(a.buf);
    }
    if r.valid.is_some() {
        ensure!(pieces.is_empty(), "validation-writes", "{what}: validation changed a buffer");
    }
    if refused {
        cx.probe("needed a poisoned buffer");
        match r.valid {
            Some(v) => ensure!(!v, "poisoned-but-valid", "{what}: validation accepts a poisoned buffer"),
            None => {
                ensure!(r.code == 2, "poison-code", "{what} met a poisoned buffer and returned code {}", r.code);
                ensure!(
                    late || pieces.is_empty(),
                    "poisoned-but-written",
                    "{what} changed its output although a buffer it needs was poisoned before it started"
                );
            }
        }
        return Ok(());
    }
    ensure!(r.code != 2, "poison-code", "{what} reports poison but no buffer it took was poisoned");

    let matches = |c: &[(usize, usize)]| -> Result<(), &'static str> {
        let bufs = with(&w.bufs, c);
        if let Some(v) = r.valid {
            let cells = bufs.cells::<Owned>();
            let mut j = Job::<Owned>::new(&r.cfg);
            j.apply(&r.cfg, Env { assets: &w.assets, bufs: &bufs, cells: &cells });
            return if j.validate() == Some(v) { Ok(()) } else { Err("another answer") };
        }
        let (res, results, outs) = fresh(&r.cfg, &w.assets, &bufs);
        if code(&res) != r.code {
            return Err("another result code");
        }
        if r.code != 0 {
            return Ok(());
        }
        if results != r.results {
            return Err("other results");
        }
        let published = |b: usize| {
            let a = r.acc.iter().filter(|a| a.buf == b && a.mode == Mode::Write);
            let v = a.clone().find(|a| a.before != a.after).or(a.last());
            v.map(|a| sched::version(b, a.after))
        };
        for (i, v) in &outs.poses {
            let b = base(0) + i;
            if published(b).is_some_and(|p| soa_bits(&sched::from_bytes(&p)) != soa_bits(v)) {
                return Err("another output");
            }
        }
        for (i, v) in &outs.mats {
            let b = base(1) + i;
            if published(b).is_some_and(|p| mat_bits(&sched::from_bytes(&p)) != mat_bits(v)) {
                return Err("another output");
            }
        }
        for (i, v) in &outs.vecs {
            let b = base(2) + i;
            if published(b).is_some_and(|p| vec_bits(&sched::from_bytes(&p)) != vec_bits(v)) {
                return Err("another output");
            }
        }
        Ok(())
    };
    let sets: Vec<(usize, Vec<usize>)> = needs
        .iter()
        .map(|&b| {
            let mut vs: Vec<usize> = r.acc.iter().filter(|a| a.buf == b).map(|a| a.before).collect();
            if let Some(a) = r.acc.iter().find(|a| a.buf == b && a.before != a.after) {
                vs = vec![a.before];
            }
            if vs.is_empty() || r.code != 0 || r.valid.is_some() {
                vs.extend(live(b));
            }
            vs.sort();
            vs.dedup();
            (b, vs)
        })
        .collect();
    if r.code != 0 {
        ensure!(
            resized || r.code == 3 || pieces.is_empty(),
            "refused-but-written",
            "{what} returned code {} but changed its output",
            r.code
        );
    }
    match choices(&sets) {
        None => cx.probe("too many contents to compare"),
        Some(all) => {
            let mut why = "";
            let mut ok = false;
            // the latest first: usually right
            for c in all.iter().rev() {
                match matches(c) {
                    Ok(()) => {
                        ok = true;
                        break;
                    }
                    Err(e) => why = e,
                }
            }
            if all.len() > 1 {
                cx.probe("a buffer was taken several times with different contents");
            }
            if !ok {
                return fail(
                    "not sequential",
                    format!(
                        "{what}: alone, from the buffer contents it took, it gives {why} (code {}); took {}",
                        r.code,
                        r.acc
                            .iter()
                            .map(|a| format!("{} v{}->{}", sched::name(a.buf), a.before, a.after))
                            .collect::<Vec<_>>()
                            .join(", ")
                    ),
                );
            }
        }
    }
    Ok(())
}

fn tell(events: &[(u8, u32, u32)], cx: &mut Cx) {
    for (i, e) in events.iter().enumerate() {
        cx.u((e.0 as u64) << 40 | (e.1 as u64) << 32 | e.2 as u64);
        if cx.verbose && i < 600 {
            let names = [
                "begins step", "reaches to read", "reaches to write", "waits for", "waits in the real lock for", "gave back",
                "uses", "uses a shared asset", "ends", "sleeps elsewhere", "looks", "half written", "dies", "last step",
            ];
            let n = names.get(e.0 as usize).unwrap_or(&"?");
            let x = if matches!(e.0, 1..=6) { sched::name(e.2 as usize) } else { e.2.to_string() };
            cx.note(|| format!("thread {} {n} {x}", e.1));
        }
    }
}

fn exec(v: &Value, cx: &mut Cx) -> Res {
    let p: Plan = plan(v)?;
    ensure!(
        !p.threads.is_empty()
            && p.threads.len() <= sched::MAX_THREADS
            && p.threads.iter().all(|t| !t.jobs.is_empty() && t.jobs.len() <= 8),
        crate::cx::BAD_PLAN,
        "threads"
    );
    let assets = p.assets.load()?;
    sched::begin(sched::Setup { sched: p.sched.clone(), writers_first: p.writers_first, real: p.real });
    let bufs = Bufs::new(p.bufs, 0);
    let cells = bufs.cells::<Threaded>();
    let hot = (p.hot as usize).clamp(1, 4);
    let w = Force(World { assets, bufs, cells, recs: RefCell::new(vec![]), lookers: RefCell::new(0) });
    let r = {
        let wp: *const World = &w.0;
        let specs: *const Vec<Thread> = &p.threads;
        let work = (0..p.threads.len())
            .map(|t| {
                Box::new(move || {
                    // the world outlives the threads' work: go() returns after they ended
                    let (w, s) = unsafe { (&*wp, &(&*specs)[t]) };
                    thread(t, s, hot, w)
                }) as Box<dyn FnOnce()>
            })
            .collect();
        sched::go(work)
    };
    if let Err(v) = r {
        // threads may still be stuck in it
        sched::with_events(|e| tell(e, cx));
        std::mem::forget(w);
        std::mem::forget(p);
        return Err(v);
    }
    let recs = w.0.recs.take();
    for r in &recs {
        cx.steps += 1;
        cx.probe(r.cfg.name());
        if let Err(v) = judge(r, &w.0, cx) {
            sched::with_events(|e| tell(e, cx));
            return Err(v);
        }
        let mut h = Fnv::new();
        for a in &r.acc {
            h.u64(a.buf as u64);
            h.u64(a.after as u64);
            h.bytes(&sched::version(a.buf, a.after));
        }
        h.u64(r.code as u64);
        cx.u(h.finish());
    }
    // nothing is held, nothing changed behind the locks
    let newest = sched::newest();
    let mut k = 0;
    let mut check = |b: &dyn Fn() -> (bool, Vec<u8>)| -> Res {
        let (free, c) = b();
        let id = k;
        k += 1;
        ensure!(free, "still held", "all threads are done but {} is held", sched::name(id));
        ensure!(
            c == *sched::version(id, newest.0[id]),
            "changed without lock",
            "{} is not what the last writer left",
            sched::name(id)
        );
        Ok(())
    };
    let c = &w.0.cells;
    for b in &c.poses {
        check(&|| (b.free(), b.content()))?;
    }
    for b in &c.mats {
        check(&|| (b.free(), b.content()))?;
    }
    for b in &c.vecs {
        check(&|| (b.free(), b.content()))?;
    }
    for b in &c.wts {
        check(&|| (b.free(), b.content()))?;
    }
    for b in &c.idx {
        check(&|| (b.free(), b.content()))?;
    }
    let s = sched::end();
    tell(&s.events, cx);
    let mut h = Fnv::new();
    for e in s.events.iter().filter(|e| matches!(e.0, 1..=5 | 8)) {
        h.u64((e.0 as u64) << 40 | (e.1 as u64) << 32 | e.2 as u64);
    }
    cx.state(h.finish());
    cx.sim_us += s.steps;
    for (n, k) in [
        (s.switches, "thread switch"),
        (s.preempted, "thread stopped inside a job run"),
        (s.contended, "buffer held by another thread"),
        (s.real_waits, "wait inside the real lock"),
    ] {
        if n > 0 {
            cx.nontrivial |= k == "thread stopped inside a job run";
            *cx.faults.entry(k.to_string()).or_insert(0) += n;
        }
    }
    for t in &p.threads {
        for o in &t.ops {
            match o {
                Op::Die { .. } => cx.fault("panic of a holder"),
                Op::Heal { .. } => cx.fault("poison cleared"),
                Op::Resize { .. } => cx.fault("buffer resized by another thread"),
                Op::Write { .. } => cx.fault("buffer rewritten by user code"),
                _ => {}
            }
        }
    }
    Ok(())
}

pub static C05: Prop = Prop {
    id: "C05",
    gen,
    exec,
    runs: (100_000, 6_000_000),
    rule: "One run = 2-6 real threads, each with up to three long-lived jobs and some user code, on shared assets and \
           lock-protected buffers; the seeded schedule decides at every taking, use and return of a buffer and at every \
           reach for a shared asset which thread goes on, some of the waiting happens in the real lock, holders panic and \
           buffers are rewritten and resized. Every run of a job must give what a new job gives alone from the buffer \
           contents the run took; buffers change only under a write lock and once per run; no deadlock. Non-trivial: a \
           thread was stopped inside a job run.",
    measure: "distinct orders of lock events over all threads",
    real: &[
        "ozz_animation_rs: all nine job kinds and the lock-protected buffers of base.rs",
        "std::sync::RwLock, OS threads, real panics",
    ],
    stub: &["the OS scheduler: one thread at a time, chosen by the seed", "a model of the lock that decides who may take it next"],
    assumptions: &[
        "a buffer has one role in all pipelines and is used once per job; the streams of a mesh come from one producer",
        "simulated time is counted in seams (one microsecond each)",
    ],
};
