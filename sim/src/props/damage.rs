//! C20: a damaged snapshot is refused or restored, and what was restored can be used without harm.

use crate::alloc;
use crate::cx::{fail, plan, Cx, Mem, Prop, Res};
use crate::ensure;
use crate::gen::{rand_soa, AnimModel, AnimSpec, SkelModel, SkelSpec, TrackModel, TrackSpec, W};
use crate::props::load::{apply, inspect, invalid, Damage, Loaded, Obj};
use crate::props::snapshot::AnyTrack;
use crate::rng::{Fnv, Rng};
use crate::snap::*;
use crate::util::*;
use glam::Mat4;
use ozz_animation_rs::math::SoaTransform;
use ozz_animation_rs::*;
use serde::{Deserialize, Serialize};
use serde_json::Value;
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Serialize, Deserialize, Clone, Debug)]
enum What {
    /// A context that has sampled these ticks.
    Ctx { tracks: u32, ticks: Vec<Tick> },
    Anim,
    Skel { spec: SkelSpec },
    Track { spec: TrackSpec },
    Poses { n: u32, seed: u32 },
}

/// A change of the tree a self-describing format holds: well-formed text with wrong content.
#[derive(Serialize, Deserialize, Clone, Debug)]
struct Tree {
    /// Key of the object whose value (or a value inside) is changed, and which of the values inside.
    key: u32,
    inner: u32,
    how: u32,
    v: u32,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
struct Copy {
    tree: Vec<Tree>,
    bytes: Vec<Damage>,
    /// What is done with a restored object.
    seed: u32,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
struct Plan {
    mem: Mem,
    anim: AnimSpec,
    other: AnimSpec,
    what: What,
    /// An index into `FORMATS`, one more is the archive.
    fmt: u32,
    style: u32,
    copies: Vec<Copy>,
}

const ARCHIVE: u32 = FORMATS.len() as u32;
const RKYV: u32 = 5;
const MAX: u32 = 40;

fn gen(rng: &mut Rng, thorough: bool) -> Value {
    let anim = if rng.pm(700) { AnimSpec::gen(rng, *rng.clone().pick(&[1u32, 4, 9, 40])) } else { AnimSpec::gen_any(rng, MAX) };
    let other = AnimSpec::gen(rng, MAX);
    let what = match rng.below(10) {
        0..=3 => What::Ctx {
            tracks: *rng.pick(&[0u32, 1, 4, 8, 12, 40, 40]),
            ticks: (0..rng.below(4)).map(|_| Tick::gen(rng)).collect(),
        },
        4 | 5 => What::Anim,
        6 | 7 => What::Skel { spec: SkelSpec::gen(rng, *rng.clone().pick(&[1u32, 4, 10, 40])) },
        8 => {
            let kind = rng.range(1, 5) as u32;
            What::Track { spec: TrackSpec::gen(rng, kind) }
        }
        _ => What::Poses { n: rng.below(6) as u32, seed: rng.u64() as u32 },
    };
    let fmt = match what {
        What::Ctx { .. } | What::Poses { .. } => {
            if rng.pm(500) {
                RKYV
            } else {
                rng.below(RKYV as u64) as u32
            }
        }
        _ => {
            let f = rng.below(6) as u32;
            if f == RKYV {
                ARCHIVE
            } else {
                f
            }
        }
    };
    let n = rng.usize(1, if thorough { 24 } else { 10 });
    let copies = (0..n)
        .map(|_| {
            let tree = fmt < 4 && rng.pm(600);
            Copy {
                tree: (0..if tree { 1 + if rng.pm(300) { rng.below(3) } else { 0 } } else { 0 })
                    .map(|_| Tree {
                        key: rng.u64() as u32,
                        inner: if rng.pm(700) { 0 } else { rng.u64() as u32 },
                        how: rng.below(10) as u32,
                        v: rng.u64() as u32,
                    })
                    .collect(),
                bytes: (0..if tree && rng.pm(900) { 0 } else { 1 + if rng.pm(300) { rng.below(4) } else { 0 } })
                    .map(|_| Damage::gen(rng))
                    .collect(),
                seed: rng.u64() as u32,
            }
        })
        .collect();
    serde_json::to_value(Plan { mem: Mem::gen(rng), anim, other, what, fmt, style: rng.below(4) as u32, copies }).unwrap()
}

const NUMBERS: [f64; 16] = [
    0.0, 1.0, 2.0, 3.0, 4.0, -1.0, 0.5, 255.0, 65535.0, 65536.0, 2147483647.0, 4294967295.0, 4294967296.0, 9.007199254740992e15,
    1.8446744073709552e19, -1e300,
];

fn hurt(t: &mut Value, d: &Tree, cx: &mut Cx) {
    let node: &mut Value = match t {
        Value::Object(m) if !m.is_empty() => {
            let i = d.key as usize % m.len();
            m.values_mut().nth(i).unwrap()
        }
        Value::Array(a) if !a.is_empty() => {
            let i = d.key as usize % a.len();
            &mut a[i]
        }
        t => t,
    };
    let mut node = node;
    let mut inner = d.inner;
    while inner != 0 {
        let n = match node {
            Value::Array(a) => a.len(),
            Value::Object(m) => m.len(),
            _ => 0,
        };
        if n == 0 {
            break;
        }
        let i = inner as usize % n;
        node = match node {
            Value::Array(a) => &mut a[i],
            Value::Object(m) => m.values_mut().nth(i).unwrap(),
            n => n,
        };
        inner >>= 8;
    }
    let num = |v: u32| {
        let x = NUMBERS[v as usize % NUMBERS.len()];
        if x.fract() == 0.0 && x >= 0.0 && x < 1.9e19 {
            Value::from(x as u64)
        } else if x.fract() == 0.0 && x > -1e18 {
            Value::from(x as i64)
        } else {
            Value::from(x)
        }
    };
    match (d.how, &mut *node) {
        (0 | 1, Value::Array(a)) => {
            let n = if d.v & 1 == 0 { a.len().saturating_sub(1 + (d.v >> 1) as usize % 4) } else { 0 };
            a.truncate(n);
            cx.fault("list cut");
        }
        (2 | 3, Value::Array(a)) => {
            if let Some(l) = a.last().cloned() {
                for _ in 0..1 + d.v % 5 {
                    a.push(l.clone());
                }
                cx.fault("list extended");
            }
        }
        (4, Value::Array(a)) if a.len() > 1 => {
            let n = a.len();
            a.rotate_left(1 + d.v as usize % (n - 1));
            cx.fault("list shuffled");
        }
        (0..=6, n @ Value::Number(_)) => {
            *n = num(d.v);
            cx.fault("number changed");
        }
        (0..=6, Value::String(s)) => {
            s.insert(0, char::from_u32(d.v % 0x700).unwrap_or('x'));
            cx.fault("text changed");
        }
        (5, Value::Object(m)) => {
            if let Some(k) = m.keys().nth(d.v as usize % m.len().max(1)).cloned() {
                let v = m.remove(&k).unwrap();
                m.insert(format!("{k}_"), v);
            }
            cx.fault("field renamed");
        }
        (7, n) => {
            *n = Value::Null;
            cx.fault("value nulled");
        }
        (8, n) => {
            *n = Value::Array(vec![n.clone(), n.clone()]);
            cx.fault("value of another kind");
        }
        (_, n) => {
            *n = num(d.v);
            cx.fault("value of another kind");
        }
    }
}

/// The saved bytes with the places of interest.
fn marked(b: &[u8], fmt: u32) -> W {
    let mut w = W::new(false);
    w.b = b.to_vec();
    w.marks = vec![0, b.len() / 2];
    match fmt {
        4 => {
            // what may be a length
            for p in 0..b.len().saturating_sub(7).min(20_000) {
                let v = u64::from_le_bytes(b[p..p + 8].try_into().unwrap());
                if v > 0 && v <= 4096 {
                    w.marks.push(p);
                    w.marks.push(p + 4);
                }
            }
        }
        RKYV => {
            // the root is at the end
            let from = b.len().saturating_sub(160) & !3;
            for p in (from..b.len()).step_by(4) {
                w.marks.push(p);
            }
        }
        _ => {
            for p in (0..b.len()).step_by((b.len() / 64).max(1)) {
                w.marks.push(p);
            }
        }
    }
    w
}

/// The original of what is saved.
enum Orig {
    Ctx(SamplingContext),
    Obj(Obj, Loaded),
    Poses(Vec<SoaTransform>),
}

/// What came back.
enum Back {
    Ctx(SamplingContext),
    Obj(Loaded),
    Poses(Vec<SoaTransform>),
}

fn poses_save(p: &Vec<SoaTransform>, fmt: u32) -> Result<Vec<u8>, String> {
    match fmt {
        0..=2 => serde_json::to_vec(p).map_err(|e| e.to_string()),
        3 => {
            let mut v = Vec::new();
            ciborium::into_writer(p, &mut v).map_err(|e| e.to_string())?;
            Ok(v)
        }
        4 => bincode::serialize(p).map_err(|e| e.to_string()),
        _ => rkyv::to_bytes::<_, 1024>(p).map(|v| v.to_vec()).map_err(|e| e.to_string()),
    }
}

fn poses_restore(b: &[u8], fmt: u32) -> Result<Vec<SoaTransform>, String> {
    match fmt {
        0 => serde_json::from_slice(b).map_err(|e| e.to_string()),
        1 => serde_json::from_reader(b).map_err(|e| e.to_string()),
        2 => serde_json::from_value(serde_json::from_slice(b).map_err(|e| e.to_string())?).map_err(|e| e.to_string()),
        3 => ciborium::from_reader(b).map_err(|e| e.to_string()),
        4 => bincode::deserialize(b).map_err(|e| e.to_string()),
        _ => {
            use rkyv::Deserialize;
            let mut v = rkyv::AlignedVec::with_capacity(b.len());
            v.extend_from_slice(b);
            let a = rkyv::check_archived_root::<Vec<SoaTransform>>(&v).map_err(|e| e.to_string())?;
            Ok(a.deserialize(&mut rkyv::Infallible).unwrap())
        }
    }
}

fn do_save(o: &Loaded, fmt: u32) -> Result<Vec<u8>, String> {
    match o {
        Loaded::Anim(x) => save(x, fmt),
        Loaded::Skel(x) => save(x, fmt),
        Loaded::T1(x) => save(x, fmt),
        Loaded::T2(x) => save(x, fmt),
        Loaded::T3(x) => save(x, fmt),
        Loaded::T4(x) => save(x, fmt),
        Loaded::TQ(x) => save(x, fmt),
        Loaded::Prims(_) => Ok(vec![]),
    }
}

fn do_restore(like: &Orig, b: &[u8], fmt: u32, style: u32) -> Result<Back, String> {
    Ok(match like {
        // always the validated form
        Orig::Ctx(_) => Back::Ctx(restore(b, fmt, if fmt == RKYV { 1 } else { style })?),
        Orig::Poses(_) => Back::Poses(poses_restore(b, fmt)?),
        Orig::Obj(o, _) if fmt == ARCHIVE => {
            let mut ar = Archive::from_slice(b).map_err(|e| format!("{e:?}"))?;
            Back::Obj(o.load(&mut ar).map_err(|e| format!("{e:?}"))?)
        }
        Orig::Obj(_, l) => Back::Obj(match l {
            Loaded::Anim(_) => Loaded::Anim(restore(b, fmt, style)?),
            Loaded::Skel(_) => Loaded::Skel(restore(b, fmt, style)?),
            Loaded::T1(_) => Loaded::T1(restore(b, fmt, style)?),
            Loaded::T2(_) => Loaded::T2(restore(b, fmt, style)?),
            Loaded::T3(_) => Loaded::T3(restore(b, fmt, style)?),
            Loaded::T4(_) => Loaded::T4(restore(b, fmt, style)?),
            Loaded::TQ(_) => Loaded::TQ(restore(b, fmt, style)?),
            Loaded::Prims(_) => return Err("no snapshot".into()),
        }),
    })
}

fn sample(anim: &Animation, ctx: &mut SamplingContext, r: f32, out: &mut [SoaTransform]) -> Result<(), OzzError> {
    let mut j: SamplingJob<&Animation, &mut [SoaTransform], &mut SamplingContext> = SamplingJob::default();
    j.set_animation(anim);
    j.set_context(ctx);
    j.set_output(out);
    j.set_ratio(r);
    j.run()
}

/// Runs something that may panic; what the process would not survive is a violation.
fn guard<T>(what: &str, f: impl FnOnce() -> T) -> Res<Option<T>> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(Some(v)),
        Err(_) => {
            let (loc, msg) = crate::take_panic();
            if msg.starts_with(alloc::OOM) {
                return fail("memory", format!("{what} asks for {} bytes at once and dies when they are refused ({loc})", alloc::largest()));
            }
            Ok(None)
        }
    }
}

fn use_ctx(mut c: SamplingContext, orig: &Animation, other: &Animation, seed: u32, what: &str, sh: &mut Fnv, cx: &mut Cx) -> Res {
    let mut rng = Rng::new(seed as u64 ^ 0xC20);
    for w in ctx_words(&c) {
        sh.u64(w);
    }
    let n = c.max_tracks();
    let (s, o) = (c.max_soa_tracks(), c.max_outdated());
    ensure!(
        s * 4 == n
            && s.div_ceil(8) == o
            && [c.translations().len(), c.rotations().len(), c.scales().len()] == [s, s, s]
            && [c.translation_entries().len(), c.rotation_entries().len(), c.scale_entries().len()] == [n, n, n]
            && [c.translation_outdated().len(), c.rotation_outdated().len(), c.scale_outdated().len()] == [o, o, o],
        "inconsistent",
        "{what}: the restored context for {n} tracks has parts that do not fit"
    );
    let copy = c.clone();
    // equal but for values that equal nothing
    let eq = copy == c;
    let nan = {
        fn any<T>(v: &[T]) -> bool {
            let f = unsafe { std::slice::from_raw_parts(v.as_ptr() as *const f32, std::mem::size_of_val(v) / 4) };
            f.iter().any(|x| x.is_nan())
        }
        any(c.translations()) || any(c.rotations()) || any(c.scales()) || c.ratio().is_nan()
    };
    ensure!(eq != nan, "inconsistent", "{what}: the restored context {} its clone", if eq { "equals" } else { "does not equal" });
    ensure!(ctx_words(&copy) == ctx_words(&c), "inconsistent", "{what}: the clone of the restored context differs");
    drop(copy);
    let fmt = rng.below(6) as u32;
    ensure!(save(&c, fmt).is_ok(), "save-fails", "{what}: the restored context can not be saved as {}", FORMATS[fmt as usize]);
    // sampling with it ends
    for _ in 0..1 + rng.below(4) {
        let a = if rng.pm(700) { orig } else { other };
        let n = a.num_soa_tracks();
        let mut out = vec![SoaTransform::default(); n];
        let r = *rng.pick(&[0.0f32, 1.0, 0.5, 0.25, 0.9, c.ratio()]);
        match guard(&format!("{what}: sampling with the restored context"), || sample(a, &mut c, r, &mut out))? {
            None => cx.probe("sampling with a damaged context panicked"),
            Some(Err(_)) => cx.probe("sampling with a damaged context refused"),
            Some(Ok(())) => cx.probe("sampling with a damaged context ran"),
        }
        cx.steps += 1;
    }
    // and once cleared it is as good as new
    c.clear();
    for a in [orig, other] {
        let n = a.num_soa_tracks();
        if n > c.max_soa_tracks() {
            continue;
        }
        let mut new = SamplingContext::new(c.max_tracks());
        let (mut x, mut y) = (vec![SoaTransform::default(); n], vec![SoaTransform::default(); n]);
        for _ in 0..2 {
            let r = rng.f(0.0, 1.0);
            let rx = guard(&format!("{what}: sampling with the cleared context"), || sample(a, &mut c, r, &mut x).is_ok())?;
            let ry = sample(a, &mut new, r, &mut y).is_ok();
            ensure!(
                rx == Some(ry) && diff_bits(fl(&x), fl(&y)).is_none(),
                "not-cleared",
                "{what}: after clear the restored context samples ratio {r} other than a new one ({})",
                if rx.is_none() { "panics" } else { "another pose" }
            );
        }
        cx.probe("cleared context as good as new");
    }
    Ok(())
}

fn use_anim(a: &Animation, good: &Animation, seed: u32, what: &str, cx: &mut Cx) -> Res {
    let mut rng = Rng::new(seed as u64 ^ 0xC20A);
    let mut c = SamplingContext::new(200);
    let mut n = a.num_soa_tracks().min(60);
    if rng.pm(200) {
        n = n.saturating_sub(1);
    }
    let mut out = vec![SoaTransform::default(); n];
    for _ in 0..1 + rng.below(5) {
        let r = match rng.below(4) {
            0 => 0.0,
            1 => 1.0,
            2 if !a.timepoints().is_empty() => *rng.pick(a.timepoints()),
            _ => rng.f(-0.1, 1.1),
        };
        match guard(&format!("{what}: sampling the animation"), || sample(a, &mut c, r, &mut out))? {
            None => cx.probe("sampling a damaged animation panicked"),
            Some(Err(_)) => cx.probe("sampling a damaged animation refused"),
            Some(Ok(())) => cx.probe("sampling a damaged animation ran"),
        }
        cx.steps += 1;
    }
    // the context is none the worse
    let n = good.num_soa_tracks();
    let mut new = SamplingContext::new(200);
    let (mut x, mut y) = (vec![SoaTransform::default(); n], vec![SoaTransform::default(); n]);
    let r = rng.f(0.0, 1.0);
    let rx = guard(&format!("{what}: sampling an undamaged animation afterwards"), || sample(good, &mut c, r, &mut x).is_ok())?;
    let ry = sample(good, &mut new, r, &mut y).is_ok();
    ensure!(
        rx == Some(ry) && diff_bits(fl(&x), fl(&y)).is_none(),
        "context-spoiled",
        "{what}: after sampling it, the context samples another animation at {r} other than a new one ({})",
        if rx.is_none() { "panics" } else { "another pose" }
    );
    Ok(())
}

fn use_skel(s: &Skeleton, seed: u32, what: &str, cx: &mut Cx) -> Res {
    let mut rng = Rng::new(seed as u64 ^ 0xC205);
    let local = s.joint_rest_poses().to_vec();
    let n = s.num_joints();
    for _ in 0..2 {
        let r = guard(&format!("{what}: updating model matrices"), || {
            let mut j: LocalToModelJob<&Skeleton, &[SoaTransform], Vec<Mat4>> = LocalToModelJob::default();
            j.set_skeleton(s);
            j.set_input(&local);
            j.set_output(vec![Mat4::IDENTITY; n]);
            if rng.pm(600) {
                j.set_from(rng.range(-1, n as i64) as i32);
                j.set_from_excluded(rng.pm(400));
            }
            if rng.pm(400) {
                j.set_to(rng.range(-1, n as i64) as i32);
            }
            j.run().is_ok()
        })?;
        cx.probe(match r {
            None => "model matrices of a damaged skeleton panicked",
            Some(false) => "model matrices of a damaged skeleton refused",
            _ => "model matrices of a damaged skeleton computed",
        });
        cx.steps += 1;
    }
    let k = s.num_soa_joints();
    guard(&format!("{what}: blending"), || {
        let mut b: BlendingJob<&Skeleton, Vec<SoaTransform>, Vec<SoaTransform>> = BlendingJob::default();
        b.set_skeleton(s);
        b.set_context(BlendingContext::new(k));
        b.set_output(vec![SoaTransform::default(); k]);
        b.layers_mut().push(BlendingLayer::with_weight(local.clone(), 0.05));
        b.run().is_ok()
    })?;
    Ok(())
}

fn use_track(l: Loaded, seed: u32, what: &str, cx: &mut Cx) -> Res {
    let mut rng = Rng::new(seed as u64 ^ 0xC207);
    let t = match l {
        Loaded::T1(t) => AnyTrack::F(t),
        Loaded::T2(t) => AnyTrack::V2(t),
        Loaded::T3(t) => AnyTrack::V3(t),
        Loaded::T4(t) => AnyTrack::V4(t),
        Loaded::TQ(t) => AnyTrack::Q(t),
        _ => return Ok(()),
    };
    for _ in 0..3 {
        let r = match rng.below(4) {
            0 => 0.0,
            1 => 1.0,
            _ => rng.f(-0.1, 1.1),
        };
        let ok = guard(&format!("{what}: sampling the track"), || {
            t.sample(r);
        })?;
        cx.probe(if ok.is_some() { "damaged track sampled" } else { "sampling a damaged track panicked" });
        cx.steps += 1;
    }
    if let AnyTrack::F(t) = &t {
        let (from, to) = (rng.f(-1.0, 2.0), rng.f(-1.0, 2.0));
        let ok = guard(&format!("{what}: triggering the track"), || {
            let mut j: TrackTriggeringJob<&Track<f32>> = TrackTriggeringJob::default();
            j.set_track(t);
            j.set_from(from);
            j.set_to(to);
            j.set_threshold(rng.f(-1.0, 1.0));
            j.run().map(|it| it.count()).unwrap_or(0)
        })?;
        // the iteration ends, with no more edges than each passage over the keys can give
        if let Some(n) = ok {
            let most = 5 * (t.key_count() + 2) + 8;
            ensure!(n <= most, "endless", "{what}: triggering from {from} to {to} gives {n} edges, there are {} keys", t.key_count());
            cx.probe("damaged track triggered");
        }
    }
    Ok(())
}

fn exec(v: &Value, cx: &mut Cx) -> Res {
    let p: Plan = plan(v)?;
    p.mem.apply(cx);
    let am: AnimModel = p.anim.build();
    let om = p.other.build();
    let (anim, other) = (load_anim(&am, false)?, load_anim(&om, false)?);
    let load = |o: Obj, b: Vec<u8>| -> Res<Orig> {
        let l = Archive::from_slice(&b).and_then(|mut a| o.load(&mut a)).or_else(|e| fail("load-failed", format!("{e:?}")))?;
        Ok(Orig::Obj(o, l))
    };
    let orig = match &p.what {
        What::Ctx { tracks, ticks } => {
            let mut c = SamplingContext::new((*tracks as usize).max(if *tracks == 40 { anim.num_tracks() } else { 0 }));
            let mut clock = Clock { at: 0.0 };
            let mut out = vec![SoaTransform::default(); anim.num_soa_tracks()];
            for t in ticks {
                let r = clock.step(t, anim.timepoints(), cx);
                let _ = sample(&anim, &mut c, r, &mut out);
            }
            Orig::Ctx(c)
        }
        What::Anim => load(Obj::Anim(am.clone(), Box::new(am.flat())), am.bytes(false))?,
        What::Skel { spec } => {
            let m: SkelModel = spec.build();
            let b = m.bytes(false);
            load(Obj::Skel(m), b)?
        }
        What::Track { spec } => {
            let m: TrackModel = spec.build();
            let b = m.bytes(false);
            load(Obj::Track(m), b)?
        }
        What::Poses { n, seed } => {
            let mut rng = Rng::new(*seed as u64);
            Orig::Poses((0..*n).map(|_| soa_from(&rand_soa(&mut rng, 0))).collect())
        }
    };
    let kind = match &p.what {
        What::Ctx { .. } => "context",
        What::Anim => "animation",
        What::Skel { .. } => "skeleton",
        What::Track { .. } => "track",
        What::Poses { .. } => "list of poses",
    };
    let fmt = match &orig {
        Orig::Obj(..) if p.fmt == RKYV => 4, // no validation is offered for these
        Orig::Obj(..) => p.fmt % (ARCHIVE + 1),
        _ => p.fmt % ARCHIVE,
    };
    let name = if fmt == ARCHIVE { "archive" } else { FORMATS[fmt as usize] };
    let saved = match &orig {
        Orig::Ctx(c) => save(c, fmt),
        Orig::Poses(v) => poses_save(v, fmt),
        Orig::Obj(o, _) if fmt == ARCHIVE => {
            let mut w = W::new(false);
            o.write(&mut w);
            Ok(w.b)
        }
        Orig::Obj(_, l) => do_save(l, fmt),
    };
    let saved = saved.or_else(|e| fail("save-fails", format!("{kind} as {name}: {e}")))?;
    let words = |o: &Orig, b: &Back| -> bool {
        match (o, b) {
            (Orig::Ctx(a), Back::Ctx(b)) => ctx_portable(a) == ctx_portable(b),
            (Orig::Poses(a), Back::Poses(b)) => a.len() == b.len() && diff_bits(fl(a), fl(b)).is_none(),
            (Orig::Obj(o, _), Back::Obj(l)) => o.check(l).is_ok(),
            _ => false,
        }
    };
    for (i, c) in p.copies.iter().enumerate() {
        let mut data = saved.clone();
        if fmt < 4 && !c.tree.is_empty() {
            let mut t: Value = if fmt < 3 {
                serde_json::from_slice(&saved).unwrap()
            } else {
                match &orig {
                    Orig::Ctx(c) => serde_json::to_value(c),
                    Orig::Poses(v) => serde_json::to_value(v),
                    Orig::Obj(_, Loaded::Anim(x)) => serde_json::to_value(x),
                    Orig::Obj(_, Loaded::Skel(x)) => serde_json::to_value(x),
                    Orig::Obj(_, Loaded::T1(x)) => serde_json::to_value(x),
                    Orig::Obj(_, Loaded::T2(x)) => serde_json::to_value(x),
                    Orig::Obj(_, Loaded::T3(x)) => serde_json::to_value(x),
                    Orig::Obj(_, Loaded::T4(x)) => serde_json::to_value(x),
                    Orig::Obj(_, Loaded::TQ(x)) => serde_json::to_value(x),
                    _ => Ok(Value::Null),
                }
                .unwrap_or(Value::Null)
            };
            for d in &c.tree {
                hurt(&mut t, d, cx);
            }
            data = if fmt < 3 {
                t.to_string().into_bytes()
            } else {
                let mut v = Vec::new();
                ciborium::into_writer(&t, &mut v).unwrap();
                v
            };
        }
        let w = marked(&data, fmt);
        for d in &c.bytes {
            apply(&mut data, &w, d, cx);
        }
        drop(w);
        let changed = data != saved;
        let len = data.len();
        let what = format!("copy {i} of a {kind} as {name} ({len} bytes), damaged by {:?} {:?}", c.tree, c.bytes);
        let live = alloc::live();
        alloc::reset_peak();
        alloc::set_cap(64 << 20);
        let r = catch_unwind(AssertUnwindSafe(|| do_restore(&orig, &data, fmt, p.style)));
        let peak = alloc::peak().saturating_sub(live);
        let largest = alloc::largest();
        alloc::set_cap(1 << 30);
        cx.steps += 1;
        let bound = (4 << 20) + 1024 * len;
        let r = match r {
            Ok(r) => r,
            Err(_) => {
                let (loc, msg) = crate::take_panic();
                if msg.starts_with(alloc::OOM) {
                    return fail("memory", format!("{what}: restoring asks for {largest} bytes at once and dies when they are refused"));
                }
                return fail("panic", format!("{what}: restoring panics at {loc}: {msg}"));
            }
        };
        ensure!(
            peak <= bound && largest <= bound,
            "memory",
            "{what}: restoring used up to {peak} bytes (largest request {largest}) for {len} bytes supplied"
        );
        let mut sh = Fnv::new();
        match r {
            Err(_) => {
                ensure!(changed, "restore-fails", "the undamaged {kind} can not be restored from {name}");
                cx.probe("damaged snapshot refused");
                sh.u64(i as u64);
            }
            Ok(b) => {
                cx.probe(if changed { "damaged snapshot restored" } else { "undamaged snapshot restored" });
                ensure!(changed || words(&orig, &b), "restored-differs", "the {kind} restored from {name} differs");
                match b {
                    Back::Ctx(c2) => use_ctx(c2, &anim, &other, c.seed, &what, &mut sh, cx)?,
                    Back::Poses(v) => {
                        ensure!(v.len() * 160 <= 64 * len + 4096, "invented-content", "{what}: {} poses", v.len());
                        sh.f32s(fl(&v));
                    }
                    Back::Obj(l) => {
                        if let Orig::Obj(o, _) = &orig {
                            if let Some(e) = invalid(o, &l) {
                                return fail("invalid-value", format!("{what}: {e}"));
                            }
                        }
                        let held = match catch_unwind(AssertUnwindSafe(|| inspect(&l, &mut sh))) {
                            Ok(h) => h,
                            Err(_) => {
                                let (loc, msg) = crate::take_panic();
                                return fail("panic", format!("{what}: inspecting the restored object panics at {loc}: {msg}"));
                            }
                        };
                        ensure!(
                            held <= 64 * len + 4096,
                            "invented-content",
                            "{what}: the object shows {held} bytes, the snapshot had {len}"
                        );
                        if c.seed % 4 == 0 {
                            let f = (c.seed >> 2) % 6;
                            guard(&format!("{what}: saving the restored object as {}", FORMATS[f as usize]), || do_save(&l, f))?;
                        }
                        match &l {
                            Loaded::Anim(a) => use_anim(a, &other, c.seed, &what, cx)?,
                            Loaded::Skel(s) => use_skel(s, c.seed, &what, cx)?,
                            _ => use_track(l, c.seed, &what, cx)?,
                        }
                    }
                }
            }
        }
        cx.u(sh.finish());
        cx.state(sh.finish());
    }
    // what was not damaged is still restored
    let b = do_restore(&orig, &saved, fmt, p.style).or_else(|e| fail("restore-fails", format!("the undamaged {kind} from {name}: {e}")))?;
    ensure!(words(&orig, &b), "restored-differs", "the {kind} restored from {name} differs");
    Ok(())
}

pub const C20: Prop = Prop {
    id: "C20",
    gen,
    exec,
    runs: (50_000, 3_000_000),
    rule: "one run = up to 24 damaged copies of one snapshot (or archive) restored, inspected, saved, used by jobs and dropped; non-trivial when a copy was damaged",
    measure: "distinct outcomes (refused, or content of the restored object)",
    real: &["serde and rkyv implementations of the library's types", "archive loaders", "SamplingContext", "SamplingJob, LocalToModelJob, BlendingJob, TrackSamplingJob, TrackTriggeringJob on damaged objects"],
    stub: &["stored bytes", "memory content, address reuse, fenced blocks, requests above 64 MiB refused"],
    assumptions: &[
        "memory bound: 4 MiB plus 1024 times the bytes supplied (the formats' own parsers included)",
        "rkyv: only through its validation, which the library offers for contexts and poses; unvalidated access to damaged bytes is outside the property, as rkyv documents",
        "serde_json, ciborium, bincode and rkyv do not themselves fail on damaged input",
    ],
};
