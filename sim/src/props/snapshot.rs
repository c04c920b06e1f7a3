//! C03: a snapshot taken at any instant restores to an indistinguishable state.

use crate::alloc;
use crate::cx::{fail, plan, Cx, Mem, Prop, Res};
use crate::ensure;
use crate::gen::{AnimModel, AnimSpec, SkelModel, SkelSpec, TrackModel, TrackSpec};
use crate::props::blend::pose;
use crate::rng::{mix, Fnv, Rng};
use crate::snap::*;
use crate::util::*;
use glam::{Mat4, Quat, Vec2, Vec3, Vec4};
use ozz_animation_rs::math::SoaTransform;
use ozz_animation_rs::*;
use serde::{Deserialize, Serialize};
use serde_json::Value;

#[derive(Serialize, Deserialize, Clone, Debug)]
enum Op {
    Sample { ctx: u32, anim: u32, tick: Tick },
    /// A run that is refused, because the output is too small.
    Refused { ctx: u32, anim: u32 },
    Clear { ctx: u32 },
    NewCtx { ctx: u32, tracks: u32 },
    Copy { from: u32, to: u32 },
    Anim { slot: u32, spec: AnimSpec },
    Skel { spec: SkelSpec },
    Track { spec: TrackSpec },
    Play { tick: Tick, threshold: f32 },
    Pipe { seed: u32 },
    /// Everything is saved, lost and restored.
    Crash(Crash),
}

#[derive(Serialize, Deserialize, Clone, Debug)]
struct Crash {
    /// Formats of contexts, animations, skeleton, tracks.
    fmt: [u32; 4],
    style: u32,
    /// Animations, skeleton and track come from the assets again, only the contexts from the snapshot.
    assets: bool,
    mem: Mem,
    /// A second crash right after the restore, in these formats.
    again: Option<[u32; 4]>,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
struct Plan {
    mem: Mem,
    anims: Vec<AnimSpec>,
    skel: SkelSpec,
    track: TrackSpec,
    ctxs: Vec<u32>,
    ops: Vec<Op>,
}

const CTXS: usize = 3;

fn fmts(rng: &mut Rng) -> [u32; 4] {
    let one = rng.below(FORMATS.len() as u64) as u32;
    let mut f = [one; 4];
    if rng.pm(500) {
        for x in &mut f {
            *x = rng.below(FORMATS.len() as u64) as u32;
        }
    }
    f
}

fn gen(rng: &mut Rng, thorough: bool) -> Value {
    let n = rng.usize(1, 3);
    let anims: Vec<AnimSpec> = (0..n).map(|_| AnimSpec::gen_any(rng, 40)).collect();
    let skel = SkelSpec::gen(rng, 40);
    let kind = rng.range(1, 5) as u32;
    let track = TrackSpec::gen(rng, kind);
    let ctxs = (0..rng.usize(1, CTXS)).map(|_| *rng.pick(&[40u32, 40, 41, 68, 120])).collect();
    let len = rng.usize(2, if thorough { 60 } else { 30 });
    let crash = *rng.pick(&[60u32, 150, 300]);
    let mut ops = Vec::new();
    for _ in 0..len {
        let c = rng.below(CTXS as u64) as u32;
        let a = rng.below(3) as u32;
        ops.push(if rng.pm(crash) {
            Op::Crash(Crash {
                fmt: fmts(rng),
                style: rng.below(4) as u32,
                assets: rng.pm(250),
                mem: Mem::gen(rng),
                again: if rng.pm(300) { Some(fmts(rng)) } else { None },
            })
        } else {
            match rng.below(24) {
                0 => Op::Refused { ctx: c, anim: a },
                1 => Op::Clear { ctx: c },
                2 => Op::NewCtx { ctx: c, tracks: *rng.pick(&[0u32, 1, 7, 40, 80, 200]) },
                3 => Op::Copy { from: c, to: rng.below(CTXS as u64) as u32 },
                4 => Op::Anim { slot: a, spec: AnimSpec::gen(rng, 40) },
                5 => Op::Skel { spec: SkelSpec::gen(rng, 40) },
                6 => {
                    let kind = rng.range(1, 5) as u32;
                    Op::Track { spec: TrackSpec::gen(rng, kind) }
                }
                7..=9 => Op::Play { tick: Tick::gen(rng), threshold: rng.f(-2.0, 2.0) },
                10 => Op::Pipe { seed: rng.u64() as u32 },
                _ => Op::Sample { ctx: c, anim: a, tick: Tick::gen(rng) },
            }
        });
    }
    if !ops.iter().any(|o| matches!(o, Op::Crash(_))) {
        let at = rng.usize(0, ops.len());
        ops.insert(
            at,
            Op::Crash(Crash { fmt: fmts(rng), style: rng.below(4) as u32, assets: false, mem: Mem::gen(rng), again: None }),
        );
    }
    serde_json::to_value(Plan { mem: Mem::gen(rng), anims, skel, track, ctxs, ops }).unwrap()
}

pub enum AnyTrack {
    F(Track<f32>),
    V2(Track<Vec2>),
    V3(Track<Vec3>),
    V4(Track<Vec4>),
    Q(Track<Quat>),
}

macro_rules! each {
    ($t:expr, $x:ident => $e:expr) => {
        match $t {
            AnyTrack::F($x) => $e,
            AnyTrack::V2($x) => $e,
            AnyTrack::V3($x) => $e,
            AnyTrack::V4($x) => $e,
            AnyTrack::Q($x) => $e,
        }
    };
}

impl AnyTrack {
    pub fn load(m: &TrackModel) -> Res<AnyTrack> {
        Ok(match m.kind {
            1 => AnyTrack::F(load_track(m, false)?),
            2 => AnyTrack::V2(load_track(m, false)?),
            3 => AnyTrack::V3(load_track(m, false)?),
            4 => AnyTrack::V4(load_track(m, false)?),
            _ => AnyTrack::Q(load_track(m, false)?),
        })
    }
    fn restore(&self, b: &[u8], fmt: u32, style: u32) -> Res<AnyTrack> {
        Ok(match self {
            AnyTrack::F(_) => AnyTrack::F(must_restore(b, fmt, style, "track")?),
            AnyTrack::V2(_) => AnyTrack::V2(must_restore(b, fmt, style, "track")?),
            AnyTrack::V3(_) => AnyTrack::V3(must_restore(b, fmt, style, "track")?),
            AnyTrack::V4(_) => AnyTrack::V4(must_restore(b, fmt, style, "track")?),
            AnyTrack::Q(_) => AnyTrack::Q(must_restore(b, fmt, style, "track")?),
        })
    }
    pub fn ratios(&self) -> &[f32] {
        each!(self, t => t.ratios())
    }
    pub fn sample(&self, r: f32) -> Vec<f32> {
        fn go<V: track::TrackValue>(t: &Track<V>, r: f32) -> V {
            let mut j: TrackSamplingJob<V, &Track<V>> = TrackSamplingJob::default();
            j.set_track(t);
            j.set_ratio(r);
            j.run().expect("track sampling");
            j.result()
        }
        match self {
            AnyTrack::F(t) => vec![go(t, r)],
            AnyTrack::V2(t) => go(t, r).to_array().to_vec(),
            AnyTrack::V3(t) => go(t, r).to_array().to_vec(),
            AnyTrack::V4(t) => go(t, r).to_array().to_vec(),
            AnyTrack::Q(t) => go(t, r).to_array().to_vec(),
        }
    }
}

struct World {
    ctxs: Vec<SamplingContext>,
    anims: Vec<Animation>,
    skel: Skeleton,
    track: AnyTrack,
    clocks: [f32; CTXS],
    play: f32,
    // the assets
    anim_models: Vec<AnimModel>,
    skel_model: SkelModel,
    track_model: TrackModel,
}

type Out = Vec<(&'static str, u64)>;

fn step(w: &mut World, op: &Op, live: bool, cx: &mut Cx, out: &mut Out) -> Res {
    let n = w.ctxs.len();
    let na = w.anims.len();
    match op {
        Op::Sample { ctx, anim, tick } => {
            let (c, a) = (*ctx as usize % n, *anim as usize % na);
            let mut clock = Clock { at: w.clocks[c] };
            let r = clock.step(tick, w.anims[a].timepoints(), cx);
            w.clocks[c] = clock.at;
            let anim = &w.anims[a];
            let mut o = vec![SoaTransform::default(); anim.num_soa_tracks()];
            let res = {
                let mut j: SamplingJob<&Animation, &mut [SoaTransform], &mut SamplingContext> = SamplingJob::default();
                j.set_animation(anim);
                j.set_context(&mut w.ctxs[c]);
                j.set_output(&mut o[..]);
                j.set_ratio(r);
                j.run()
            };
            out.push(("accepted sampling", res.is_ok() as u64));
            out.push(("sampled pose", hash_f(fl(&o))));
            out.push(("context after sampling", hash_words(&ctx_portable(&w.ctxs[c]))));
        }
        Op::Refused { ctx, anim } => {
            let (c, a) = (*ctx as usize % n, *anim as usize % na);
            let mut j: SamplingJob<&Animation, &mut [SoaTransform], &mut SamplingContext> = SamplingJob::default();
            j.set_animation(&w.anims[a]);
            j.set_context(&mut w.ctxs[c]);
            j.set_output(&mut []);
            j.set_ratio(0.5);
            let ok = j.run().is_ok();
            out.push(("accepted sampling", ok as u64));
        }
        Op::Clear { ctx } => w.ctxs[*ctx as usize % n].clear(),
        Op::NewCtx { ctx, tracks } => w.ctxs[*ctx as usize % n] = SamplingContext::new(*tracks as usize),
        Op::Copy { from, to } => {
            let d = w.ctxs[*from as usize % n].clone();
            w.ctxs[*to as usize % n] = d;
        }
        Op::Anim { slot, spec } => {
            let m = spec.build();
            let i = *slot as usize % na;
            w.anims[i] = load_anim(&m, false)?;
            w.anim_models[i] = m;
        }
        Op::Skel { spec } => {
            let m = spec.build();
            w.skel = load_skel(&m, false)?;
            w.skel_model = m;
        }
        Op::Track { spec } => {
            let m = spec.build();
            w.track = AnyTrack::load(&m)?;
            w.track_model = m;
        }
        Op::Play { tick, threshold } => {
            let mut clock = Clock { at: w.play };
            let r = clock.step(tick, w.track.ratios(), cx);
            let from = std::mem::replace(&mut w.play, clock.at);
            out.push(("sampled track", hash_f(&w.track.sample(r))));
            if let AnyTrack::F(t) = &w.track {
                let mut j: TrackTriggeringJob<&Track<f32>> = TrackTriggeringJob::default();
                j.set_track(t);
                j.set_from(from);
                j.set_to(r);
                j.set_threshold(*threshold);
                let mut h = Fnv::new();
                match j.run() {
                    Ok(it) => {
                        for e in it.take(100_000) {
                            h.str(&format!("{e:?}"));
                        }
                    }
                    Err(e) => h.str(&format!("{e:?}")),
                }
                out.push(("track edges", h.finish()));
            }
        }
        Op::Pipe { seed } => {
            let s = &w.skel;
            let n = s.num_soa_joints();
            let mut b: BlendingJob<&Skeleton, Vec<SoaTransform>, Vec<SoaTransform>> = BlendingJob::default();
            b.set_skeleton(s);
            b.set_context(BlendingContext::new(n));
            b.set_output(vec![SoaTransform::default(); n]);
            b.layers_mut().push(BlendingLayer::with_weight(pose(*seed, n), 0.05));
            let r1 = b.run();
            let local = b.output().unwrap().clone();
            let mut l: LocalToModelJob<&Skeleton, &[SoaTransform], Vec<Mat4>> = LocalToModelJob::default();
            l.set_skeleton(s);
            l.set_input(&local[..]);
            l.set_output(vec![Mat4::IDENTITY; s.num_joints()]);
            let r2 = l.run();
            out.push(("accepted pipeline", r1.is_ok() as u64 * 2 + r2.is_ok() as u64));
            out.push(("blended pose", hash_f(fl(&local))));
            out.push(("model matrices", hash_f(mats(l.output().unwrap()))));
        }
        Op::Crash(c) => {
            for round in 0..1 + c.again.is_some() as usize {
                let f = if round == 0 { c.fmt } else { c.again.unwrap() };
                crash(w, c, f, live && true, round == 0, cx, out)?;
            }
        }
    }
    Ok(())
}

fn crash(w: &mut World, c: &Crash, f: [u32; 4], live: bool, first: bool, cx: &mut Cx, out: &mut Out) -> Res {
    // both histories save; only the live one loses its memory
    let mut ctxs = Vec::new();
    for x in &w.ctxs {
        ctxs.push(must_save(x, f[0], "context")?);
    }
    let mut anims = Vec::new();
    for x in &w.anims {
        anims.push(must_save(x, f[1], "animation")?);
    }
    let skel = must_save(&w.skel, f[2], "skeleton")?;
    let track = each!(&w.track, t => must_save(t, f[3], "track")?);
    for b in &ctxs {
        out.push(("saved context", hash_bytes(b)));
    }
    for b in &anims {
        out.push(("saved animation", hash_bytes(b)));
    }
    out.push(("saved skeleton", hash_bytes(&skel)));
    out.push(("saved track", hash_bytes(&track)));
    if !live {
        return Ok(());
    }
    // saved again, nothing having happened
    for (x, b) in w.ctxs.iter().zip(&ctxs) {
        ensure!(must_save(x, f[0], "context")? == *b, "saved-twice", "a context saved twice as {} gives other bytes", name(f[0]));
    }
    for (x, b) in w.anims.iter().zip(&anims) {
        ensure!(must_save(x, f[1], "animation")? == *b, "saved-twice", "an animation saved twice as {} gives other bytes", name(f[1]));
    }
    ensure!(must_save(&w.skel, f[2], "skeleton")? == skel, "saved-twice", "a skeleton saved twice as {} gives other bytes", name(f[2]));
    let again = each!(&w.track, t => must_save(t, f[3], "track")?);
    ensure!(again == track, "saved-twice", "a track saved twice as {} gives other bytes", name(f[3]));

    let old_c: Vec<Vec<u64>> = w.ctxs.iter().map(ctx_words).collect();
    let old_a: Vec<Vec<u64>> = w.anims.iter().map(anim_words).collect();
    let old_s = skel_words(&w.skel);
    let old_t = each!(&w.track, t => track_words(t));
    let keep: Vec<SamplingContext> = w.ctxs.iter().map(|c| c.clone()).collect();
    let kind = AnyTrack::F(load_track(&TrackModel { kind: 1, ..empty_track() }, false)?);
    let track_kind = std::mem::replace(&mut w.track, kind);
    w.ctxs.clear();
    w.anims.clear();
    w.skel = Skeleton::from_archive(&mut Archive::from_slice(&SkelModel { names: vec![], parents: vec![], rest: vec![] }.bytes(false)).unwrap())
        .or_else(|e| fail("load", format!("{e:?}")))?;
    if first {
        c.mem.apply(cx);
    }
    cx.fault("crash and restore");

    for b in &ctxs {
        w.ctxs.push(must_restore(b, f[0], c.style, "context")?);
    }
    if c.assets {
        cx.probe("assets loaded again");
        for m in &w.anim_models {
            w.anims.push(load_anim(m, false)?);
        }
        w.skel = load_skel(&w.skel_model, false)?;
        w.track = AnyTrack::load(&w.track_model)?;
    } else {
        for b in &anims {
            w.anims.push(must_restore(b, f[1], c.style, "animation")?);
        }
        w.skel = must_restore(&skel, f[2], c.style, "skeleton")?;
        w.track = track_kind.restore(&track, f[3], c.style)?;
    }
    drop(track_kind);
    for (i, x) in w.ctxs.iter().enumerate() {
        ensure!(
            *x == keep[i] && keep[i] == *x,
            "restored-differs",
            "context {i} restored from {} is not equal to the saved one",
            name(f[0])
        );
        ensure!(ctx_words(x) == old_c[i], "restored-differs", "context {i} restored from {} holds other content", name(f[0]));
        ensure!(
            must_save(x, f[0], "context")? == ctxs[i],
            "saved-restored",
            "context {i} restored and saved as {} gives other bytes",
            name(f[0])
        );
    }
    for (i, x) in w.anims.iter().enumerate() {
        ensure!(anim_words(x) == old_a[i], "restored-differs", "animation {i} restored from {} holds other content", name(f[1]));
        ensure!(
            must_save(x, f[1], "animation")? == anims[i],
            "saved-restored",
            "animation {i} restored and saved as {} gives other bytes",
            name(f[1])
        );
    }
    ensure!(skel_words(&w.skel) == old_s, "restored-differs", "the skeleton restored from {} holds other content", name(f[2]));
    ensure!(
        must_save(&w.skel, f[2], "skeleton")? == skel,
        "saved-restored",
        "the skeleton restored and saved as {} gives other bytes",
        name(f[2])
    );
    let new_t = each!(&w.track, t => track_words(t));
    ensure!(new_t == old_t, "restored-differs", "the track restored from {} holds other content", name(f[3]));
    let new_b = each!(&w.track, t => must_save(t, f[3], "track")?);
    ensure!(new_b == track, "saved-restored", "the track restored and saved as {} gives other bytes", name(f[3]));
    for x in f {
        cx.probe(name(x));
    }
    Ok(())
}

fn name(f: u32) -> &'static str {
    FORMATS[f as usize % FORMATS.len()]
}

fn empty_track() -> TrackModel {
    TrackModel { kind: 1, name: String::new(), ratios: vec![], values: vec![], steps: vec![] }
}

fn world(p: &Plan) -> Res<World> {
    let anim_models: Vec<AnimModel> = p.anims.iter().map(|s| s.build()).collect();
    let (skel_model, track_model) = (p.skel.build(), p.track.build());
    let mut anims = Vec::new();
    for m in &anim_models {
        anims.push(load_anim(m, false)?);
    }
    Ok(World {
        ctxs: p.ctxs.iter().map(|&n| SamplingContext::new(n as usize)).collect(),
        anims,
        skel: load_skel(&skel_model, false)?,
        track: AnyTrack::load(&track_model)?,
        clocks: [0.0; CTXS],
        play: 0.0,
        anim_models,
        skel_model,
        track_model,
    })
}

fn history(p: &Plan, live: bool, cx: &mut Cx) -> Res<Vec<(usize, &'static str, u64)>> {
    if live {
        p.mem.apply(cx);
    }
    let mut w = world(p)?;
    let mut t = Vec::new();
    let mut out = Vec::new();
    let mut h = 0;
    for (i, o) in p.ops.iter().enumerate() {
        cx.steps += 1;
        out.clear();
        if let Err(v) = step(&mut w, o, live, cx, &mut out) {
            return fail(&v.class, format!("step {i}: {}", v.detail));
        }
        for &(k, v) in &out {
            t.push((i, k, v));
            h = mix(h, v);
        }
        if live {
            cx.state(h);
        }
    }
    drop(w);
    alloc::reset();
    Ok(t)
}

/// Everything of a world, as one member of a fleet sends it to the next.
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Parcel {
    fmt: [u32; 4],
    style: u32,
    ctxs: Vec<String>,
    anims: Vec<String>,
    skel: String,
    track: String,
    kind: u32,
    clocks: Vec<u32>,
    play: u32,
}

fn hex(b: &[u8]) -> String {
    use std::fmt::Write;
    let mut s = String::with_capacity(b.len() * 2);
    for x in b {
        let _ = write!(s, "{x:02x}");
    }
    s
}

fn unhex(s: &str) -> Vec<u8> {
    let d = |c: u8| if c <= b'9' { c.wrapping_sub(b'0') } else { c.wrapping_sub(b'a').wrapping_add(10) } & 15;
    s.as_bytes().chunks(2).map(|c| d(c[0]) << 4 | d(*c.last().unwrap())).collect()
}

impl Parcel {
    fn pack(w: &World, fmt: [u32; 4], style: u32) -> Res<Parcel> {
        let mut p = Parcel {
            fmt,
            style,
            ctxs: Vec::new(),
            anims: Vec::new(),
            skel: hex(&must_save(&w.skel, fmt[2], "skeleton")?),
            track: hex(&each!(&w.track, t => must_save(t, fmt[3], "track")?)),
            kind: match w.track {
                AnyTrack::F(_) => 1,
                AnyTrack::V2(_) => 2,
                AnyTrack::V3(_) => 3,
                AnyTrack::V4(_) => 4,
                AnyTrack::Q(_) => 5,
            },
            clocks: w.clocks.iter().map(|c| c.to_bits()).collect(),
            play: w.play.to_bits(),
        };
        for x in &w.ctxs {
            p.ctxs.push(hex(&must_save(x, fmt[0], "context")?));
        }
        for x in &w.anims {
            p.anims.push(hex(&must_save(x, fmt[1], "animation")?));
        }
        Ok(p)
    }
    fn unpack(&self, w: &mut World) -> Res {
        let (f, st) = (self.fmt, self.style);
        w.ctxs.clear();
        for x in &self.ctxs {
            w.ctxs.push(must_restore(&unhex(x), f[0], st, "context")?);
        }
        w.anims.clear();
        for x in &self.anims {
            w.anims.push(must_restore(&unhex(x), f[1], st, "animation")?);
        }
        w.skel = must_restore(&unhex(&self.skel), f[2], st, "skeleton")?;
        let b = unhex(&self.track);
        w.track = match self.kind {
            1 => AnyTrack::F(must_restore(&b, f[3], st, "track")?),
            2 => AnyTrack::V2(must_restore(&b, f[3], st, "track")?),
            3 => AnyTrack::V3(must_restore(&b, f[3], st, "track")?),
            4 => AnyTrack::V4(must_restore(&b, f[3], st, "track")?),
            _ => AnyTrack::Q(must_restore(&b, f[3], st, "track")?),
        };
        for (c, b) in w.clocks.iter_mut().zip(&self.clocks) {
            *c = f32::from_bits(*b);
        }
        w.play = f32::from_bits(self.play);
        Ok(())
    }
}

/// One stretch of a history between two crashes, started from what another member sent.
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Leg {
    pub plan: Value,
    pub from: usize,
    pub to: usize,
    pub parcel: Option<Parcel>,
}

pub type Results = Vec<(usize, String, u64)>;

/// The results of the stretch and what is sent on.
pub fn leg(l: &Leg) -> Res<(Results, Parcel)> {
    let p: Plan = plan(&l.plan)?;
    sane(&p)?;
    let mut quiet = Cx::new();
    let mut w = world(&p)?;
    if let Some(x) = &l.parcel {
        x.unpack(&mut w)?;
    }
    let (mut all, mut out) = (Vec::new(), Vec::new());
    let mut pack = ([5; 4], 1);
    for (i, o) in p.ops.iter().enumerate().take(l.to).skip(l.from) {
        if let Op::Crash(c) = o {
            pack = (c.fmt, c.style);
        }
        out.clear();
        step(&mut w, o, false, &mut quiet, &mut out)?;
        all.extend(out.iter().filter(|x| x.0 != "saved context").map(|x| (i, x.0.to_string(), x.1)));
    }
    Ok((all, Parcel::pack(&w, pack.0, pack.1)?))
}

/// The results of the whole history at one place, and where it is cut.
pub fn whole(v: &Value, cx: &mut Cx) -> Res<(Results, Vec<usize>)> {
    let p: Plan = plan(v)?;
    sane(&p)?;
    let all = history(&p, false, cx)?;
    let cuts = p.ops.iter().enumerate().filter(|x| matches!(x.1, Op::Crash(_))).map(|x| x.0 + 1).chain([p.ops.len()]).collect();
    Ok((all.into_iter().filter(|x| x.1 != "saved context").map(|x| (x.0, x.1.to_string(), x.2)).collect(), cuts))
}

fn sane(p: &Plan) -> Res {
    ensure!(
        !p.anims.is_empty() && !p.ctxs.is_empty() && p.ctxs.len() <= CTXS,
        crate::cx::BAD_PLAN,
        "an animation and a context"
    );
    Ok(())
}

fn exec(v: &Value, cx: &mut Cx) -> Res {
    let p: Plan = plan(v)?;
    sane(&p)?;
    let mut quiet = Cx::new();
    let b = history(&p, false, &mut quiet)?;
    let a = history(&p, true, cx)?;
    for (x, y) in a.iter().zip(&b) {
        ensure!(
            x == y,
            "history-differs",
            "step {}: {} differs from the history that was never interrupted",
            x.0,
            x.1
        );
    }
    ensure!(a.len() == b.len(), "history-differs", "the histories have {} and {} results", a.len(), b.len());
    for (_, name, h) in &a {
        // (a saved context also says how large it is in memory, which depends on the platform)
        if *name != "saved context" {
            cx.named(name, *h);
        }
    }
    Ok(())
}

pub static C03: Prop = Prop {
    id: "C03",
    gen,
    exec,
    runs: (9_000, 300_000),
    rule: "A seeded history of sampling on several contexts, track playback, blending and asset changes is executed twice: \
           once uninterrupted, once with crashes at seeded steps at which everything is saved (each kind of object in one of \
           six forms of serde and rkyv), lost and restored into memory with other content and reuse. All results and all \
           saved bytes of the two histories must be identical. Non-trivial: at least one crash.",
    measure: "distinct hashes of the result history after a step",
    real: &[
        "ozz_animation_rs: SamplingContext, Animation, Skeleton, Track, their serde and rkyv code, sampling, blending, local-to-model and track jobs",
        "serde_json, ciborium, bincode, rkyv",
    ],
    stub: &["the global allocator (content and address reuse across a crash)", "byte streams of the stream formats"],
    assumptions: &[
        "finite values only (text formats have no other numbers)",
        "skeletons have distinct joint names",
        "a crash loses all memory; the snapshot itself is intact",
    ],
};
