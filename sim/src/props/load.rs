//! C08 (loading from any byte delivery), C09 (failing streams) and C10 (damaged bytes).

use crate::alloc;
use crate::cx::{fail, plan, Cx, Mem, Prop, Res, BAD_PLAN};
use crate::ensure;
use crate::gen::*;
use crate::rng::{Fnv, Rng};
use crate::stream::{Chunk, SimStream, KINDS};
use crate::util::*;
use glam::{Quat, Vec2, Vec3, Vec4};
use ozz_animation_rs::track::TrackValue;
use ozz_animation_rs::*;
use serde::{Deserialize, Serialize};
use serde_json::Value;
use std::cell::RefCell;
use std::io::{ErrorKind, Read};
use std::rc::Rc;

// ------------------------------------------------------------------------------------------------
// objects
// ------------------------------------------------------------------------------------------------

#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum ObjSpec {
    /// `raw` is not 0: values are random bits.
    Skel { spec: SkelSpec, raw: u32 },
    Anim { spec: AnimSpec, raw: u32 },
    Track { spec: TrackSpec, raw: u32 },
    /// An exported file.
    File(u32),
    Prims { seed: u32, n: u32 },
}

const FILES: &[(&str, u32)] = &[
    ("additive/skeleton", 0),
    ("blend/skeleton", 0),
    ("playback/skeleton", 0),
    ("look_at/skeleton", 0),
    ("additive/animation_base", 1),
    ("blend/animation1", 1),
    ("playback/animation", 1),
    ("additive/animation_splay_additive", 1),
    ("partial_blend/animation_partial", 1),
    ("track/track", 2),
    ("motion/track_position", 2),
    ("motion/track_rotation", 2),
];

pub enum Obj {
    Skel(SkelModel),
    Anim(AnimModel, Box<[Flat; 3]>),
    Track(TrackModel),
    Prims(Vec<Prim>),
}

pub enum Loaded {
    Skel(Skeleton),
    Anim(Animation),
    T1(Track<f32>),
    T2(Track<Vec2>),
    T3(Track<Vec3>),
    T4(Track<Vec4>),
    TQ(Track<Quat>),
    Prims(Vec<Vec<u64>>),
}

/// One read through the generic archive interface.
#[derive(Clone, Debug)]
pub enum Prim {
    /// Width kind, values (bits), way of reading: 0 one by one, 1 read_vec, 2 read_slice
    Num(u32, Vec<u64>, u32),
    Vecs(u32, Vec<u64>, u32),
    Text(String),
    TagVersion(String, u32),
}

fn width(k: u32) -> usize {
    [1, 1, 2, 2, 4, 4, 8, 8, 4, 8, 1][k as usize]
}

impl ObjSpec {
    pub fn gen(rng: &mut Rng, prims: bool, big_objects: bool) -> ObjSpec {
        let raw = if rng.pm(400) { 1 + rng.u64() as u32 / 2 } else { 0 };
        match rng.below(if prims { 13 } else { 12 }) {
            0..=3 => {
                let mut spec = SkelSpec::gen(rng, if big_objects { 80 } else { 24 });
                if rng.pm(60) {
                    spec.joints = 0;
                }
                if big_objects && rng.pm(20) {
                    spec.joints = rng.range(200, 1024) as u32;
                }
                ObjSpec::Skel { spec, raw }
            }
            4..=7 => {
                let mut spec = AnimSpec::gen(rng, if big_objects { 80 } else { 12 });
                if !big_objects && rng.pm(900) {
                    spec.points = spec.points.min(12);
                }
                if rng.pm(60) {
                    spec.tracks = 0;
                }
                if big_objects && rng.pm(10) {
                    if rng.pm(150) {
                        spec.huge(rng);
                    } else {
                        spec.wide(rng);
                    }
                }
                ObjSpec::Anim { spec, raw }
            }
            8..=10 => {
                let kind = rng.range(1, 5) as u32;
                let mut spec = TrackSpec::gen(rng, kind);
                if rng.pm(100) {
                    spec.keys = rng.below(2) as u32;
                }
                ObjSpec::Track { spec, raw }
            }
            11 => {
                if rng.pm(100) && big_objects {
                    ObjSpec::File(rng.below(FILES.len() as u64) as u32)
                } else {
                    ObjSpec::Track { spec: TrackSpec::gen(rng, 1), raw }
                }
            }
            _ => ObjSpec::Prims { seed: rng.u64() as u32, n: rng.range(1, 12) as u32 },
        }
    }

    pub fn build(&self) -> Obj {
        match self {
            ObjSpec::Skel { spec, raw } => {
                let mut spec = spec.clone();
                spec.joints = spec.joints.min(2000);
                let mut m = spec.build();
                if *raw != 0 {
                    let mut rng = Rng::new(*raw as u64);
                    for r in m.rest.iter_mut() {
                        for v in r.iter_mut() {
                            *v = f32::from_bits(rng.u64() as u32);
                        }
                    }
                    for p in m.parents.iter_mut() {
                        *p = rng.u64() as i16;
                    }
                }
                Obj::Skel(m)
            }
            ObjSpec::Anim { spec, raw } => {
                let mut m = spec.build();
                let mut fl = m.flat();
                if *raw != 0 {
                    // any stored content is loaded as it is
                    let mut rng = Rng::new(*raw as u64);
                    for t in m.timepoints.iter_mut() {
                        *t = f32::from_bits(rng.u64() as u32);
                    }
                    m.duration = f32::from_bits(rng.u64() as u32);
                    for f in fl.iter_mut() {
                        let n = rng.usize(0, 30);
                        let small = m.timepoints.len() <= 255;
                        f.ratios = (0..n).map(|_| rng.u64() as u16 & if small { 0xff } else { 0xffff }).collect();
                        f.previouses = (0..n).map(|_| rng.u64() as u16).collect();
                        f.keys = (0..n).map(|_| [0; 3].map(|_| rng.u64() as u16)).collect();
                        f.entries = (0..rng.usize(0, 20)).map(|_| rng.u64() as u8).collect();
                        f.desc = (0..rng.usize(0, 9)).map(|_| rng.u64() as u32).collect();
                        f.interval = f32::from_bits(rng.u64() as u32);
                    }
                }
                Obj::Anim(m, Box::new(fl))
            }
            ObjSpec::Track { spec, raw } => {
                let mut m = spec.build();
                if spec.keys < 2 {
                    m.ratios.truncate(spec.keys as usize);
                    m.values.truncate(spec.keys as usize);
                    m.steps.truncate(spec.keys as usize);
                }
                if *raw != 0 {
                    let mut rng = Rng::new(*raw as u64);
                    for r in m.ratios.iter_mut() {
                        *r = f32::from_bits(rng.u64() as u32);
                    }
                    for v in m.values.iter_mut() {
                        *v = v.map(|_| f32::from_bits(rng.u64() as u32));
                    }
                }
                Obj::Track(m)
            }
            ObjSpec::File(i) => {
                let (name, kind) = FILES[*i as usize % FILES.len()];
                match (resource(name), kind) {
                    (Some(b), 0) => Obj::Skel(SkelModel::parse(&b)),
                    (Some(b), 1) => {
                        let (m, f) = AnimModel::parse(&b);
                        Obj::Anim(m, Box::new(f))
                    }
                    (Some(b), _) => Obj::Track(TrackModel::parse(&b)),
                    _ => Obj::Prims(Vec::new()),
                }
            }
            ObjSpec::Prims { seed, n } => {
                let mut rng = Rng::new(*seed as u64 ^ 0x9417);
                Obj::Prims(
                    (0..(*n).min(64))
                        .map(|_| match rng.below(8) {
                            0 => Prim::Text(name(&mut rng, 2 + *seed % 2)),
                            1 => Prim::TagVersion(name(&mut rng, 3), rng.u64() as u32),
                            2 | 3 => {
                                let k = rng.range(2, 5) as u32;
                                let comps = k.min(4) as usize;
                                let n = rng.usize(1, 3);
                                Prim::Vecs(k, (0..n * comps).map(|_| rng.u64() & 0xffff_ffff).collect(), rng.below(3) as u32)
                            }
                            _ => {
                                let k = rng.below(11) as u32;
                                let m = if width(k) == 8 { u64::MAX } else { (1u64 << (8 * width(k))) - 1 };
                                let m = if k == 10 { 1 } else { m };
                                let n = rng.usize(0, 5);
                                Prim::Num(k, (0..n).map(|_| rng.u64() & m).collect(), rng.below(3) as u32)
                            }
                        })
                        .collect(),
                )
            }
        }
    }
}

fn many<T: ozz_animation_rs::ArchiveRead<T> + Default + Clone, R: Read>(
    ar: &mut Archive<R>,
    n: usize,
    how: u32,
) -> Result<Vec<T>, OzzError> {
    match how {
        0 => {
            let mut v = Vec::new();
            for _ in 0..n {
                v.push(ar.read::<T>()?);
            }
            Ok(v)
        }
        1 => ar.read_vec::<T>(n),
        _ => {
            let mut v = vec![T::default(); n];
            ar.read_slice(&mut v)?;
            Ok(v)
        }
    }
}

fn bits3<V: TrackValue>(v: &[V]) -> Vec<u32> {
    let n = std::mem::size_of_val(v) / 4;
    unsafe { std::slice::from_raw_parts(v.as_ptr() as *const u32, n) }.to_vec()
}

fn keys_of<T>(v: &[T]) -> &[[u16; 3]] {
    assert_eq!(std::mem::size_of::<T>(), 6);
    unsafe { std::slice::from_raw_parts(v.as_ptr() as *const [u16; 3], v.len()) }
}

impl Obj {
    pub fn kind(&self) -> &'static str {
        match self {
            Obj::Skel(_) => "skeleton",
            Obj::Anim(..) => "animation",
            Obj::Track(_) => "track",
            Obj::Prims(_) => "values",
        }
    }

    pub fn body(&self, w: &mut W) {
        match self {
            Obj::Skel(m) => m.body(w),
            Obj::Anim(m, f) => m.body(f, w),
            Obj::Track(m) => m.body(w),
            Obj::Prims(ps) => {
                for p in ps {
                    w.mark();
                    match p {
                        Prim::Num(k, vs, _) => {
                            for v in vs {
                                let mut b = v.to_le_bytes()[..width(*k)].to_vec();
                                if w.big {
                                    b.reverse();
                                }
                                w.b.extend_from_slice(&b);
                            }
                        }
                        Prim::Vecs(_, vs, _) => {
                            for v in vs {
                                w.u32(*v as u32);
                            }
                        }
                        Prim::Text(s) => {
                            w.text(s);
                            w.u8(0);
                        }
                        Prim::TagVersion(s, v) => {
                            w.text(s);
                            w.u8(0);
                            w.u32(*v);
                        }
                    }
                }
            }
        }
    }

    pub fn write(&self, w: &mut W) {
        w.endian();
        self.body(w);
    }

    pub fn load<R: Read>(&self, ar: &mut Archive<R>) -> Result<Loaded, OzzError> {
        Ok(match self {
            Obj::Skel(_) => Loaded::Skel(Skeleton::from_archive(ar)?),
            Obj::Anim(..) => Loaded::Anim(Animation::from_archive(ar)?),
            Obj::Track(m) => load_kind(m.kind + 1, ar)?,
            Obj::Prims(ps) => {
                let mut out: Vec<Vec<u64>> = Vec::new();
                for p in ps {
                    out.push(match p {
                        Prim::Num(k, vs, how) => {
                            let n = vs.len();
                            macro_rules! get {
                                ($t:ty, $f:expr) => {
                                    many::<$t, R>(ar, n, *how)?.into_iter().map($f).collect()
                                };
                            }
                            match k {
                                0 => get!(u8, |x| x as u64),
                                1 => get!(i8, |x| x as u8 as u64),
                                2 => get!(u16, |x| x as u64),
                                3 => get!(i16, |x| x as u16 as u64),
                                4 => get!(u32, |x| x as u64),
                                5 => get!(i32, |x| x as u32 as u64),
                                6 => get!(u64, |x| x),
                                7 => get!(i64, |x| x as u64),
                                8 => get!(f32, |x| x.to_bits() as u64),
                                9 => get!(f64, |x| x.to_bits()),
                                // the bytes in memory, which are other than 0 and 1 when a value is no bool
                                _ if *how == 0 => {
                                    let mut o = Vec::new();
                                    for _ in 0..n {
                                        let r = ar.read::<bool>();
                                        match std::hint::black_box(&r) {
                                            Ok(b) => o.push(unsafe { *(b as *const bool as *const u8) } as u64),
                                            Err(_) => return Err(r.unwrap_err()),
                                        }
                                    }
                                    o
                                }
                                _ => {
                                    let v = std::hint::black_box(many::<bool, R>(ar, n, *how)?);
                                    unsafe { std::slice::from_raw_parts(v.as_ptr() as *const u8, v.len()) }.iter().map(|b| *b as u64).collect()
                                }
                            }
                        }
                        Prim::Vecs(k, vs, how) => {
                            let c = (*k).min(4) as usize;
                            let n = vs.len() / c;
                            let mut o: Vec<u64> = Vec::new();
                            match k {
                                2 => many::<Vec2, R>(ar, n, *how)?
                                    .iter()
                                    .for_each(|v| o.extend(v.to_array().iter().map(|x| x.to_bits() as u64))),
                                3 => many::<Vec3, R>(ar, n, *how)?
                                    .iter()
                                    .for_each(|v| o.extend(v.to_array().iter().map(|x| x.to_bits() as u64))),
                                4 => many::<Vec4, R>(ar, n, *how)?
                                    .iter()
                                    .for_each(|v| o.extend(v.to_array().iter().map(|x| x.to_bits() as u64))),
                                _ => many::<Quat, R>(ar, n, *how)?
                                    .iter()
                                    .for_each(|v| o.extend(v.to_array().iter().map(|x| x.to_bits() as u64))),
                            }
                            o
                        }
                        Prim::Text(_) => ar.read_tag()?.bytes().map(|b| b as u64).collect(),
                        Prim::TagVersion(..) => {
                            let (t, v) = ar.read_tag_version()?;
                            t.bytes().map(|b| b as u64).chain([v as u64]).collect()
                        }
                    });
                }
                Loaded::Prims(out)
            }
        })
    }

    /// The loaded object holds exactly the stored content.
    pub fn check(&self, l: &Loaded) -> Res {
        fn fb(a: &[f32]) -> Vec<u32> {
            a.iter().map(|x| x.to_bits()).collect()
        }
        match (self, l) {
            (Obj::Skel(m), Loaded::Skel(s)) => {
                ensure!(s.num_joints() == m.n(), "wrong-object", "{} joints loaded, {} stored", s.num_joints(), m.n());
                ensure!(
                    s.num_soa_joints() == m.n().div_ceil(4) && s.num_aligned_joints() == m.n().div_ceil(4) * 4,
                    "wrong-object",
                    "aligned joint counts of {} joints: {} {}",
                    m.n(),
                    s.num_soa_joints(),
                    s.num_aligned_joints()
                );
                ensure!(s.joint_parents() == &m.parents[..], "wrong-object", "parents {:?}, stored {:?}", s.joint_parents(), m.parents);
                let want: Vec<u32> = m.rest.iter().flat_map(|r| fb(r)).collect();
                let got = fb(fl(s.joint_rest_poses()));
                if let Some(i) = (0..want.len().max(got.len())).find(|&i| got.get(i) != want.get(i)) {
                    return fail("wrong-object", format!("rest pose value {i}: {:x?}, stored {:x?}", got.get(i), want.get(i)));
                }
                ensure!(s.joint_names().len() == m.n(), "wrong-object", "{} names for {} joints", s.joint_names().len(), m.n());
                for (i, n) in m.names.iter().enumerate() {
                    ensure!(
                        s.joint_by_name(n) == Some(i as i16) && s.name_by_joint(i as i16) == Some(n.as_str()),
                        "wrong-object",
                        "joint {i} is named {n:?}, lookup gives {:?} and {:?}",
                        s.joint_by_name(n),
                        s.name_by_joint(i as i16)
                    );
                }
                let mut seen = Vec::new();
                s.iter_depth_first_reverse(|j, p| seen.push((j, p)));
                seen.reverse();
                let want: Vec<(i16, i16)> = m.parents.iter().enumerate().map(|(i, &p)| (i as i16, p)).collect();
                ensure!(seen == want, "wrong-object", "reverse iteration gives {seen:?}, stored {want:?}");
            }
            (Obj::Anim(m, f), Loaded::Anim(a)) => {
                ensure!(
                    a.duration().to_bits() == m.duration.to_bits() && a.num_tracks() == m.num_tracks && a.name() == m.name,
                    "wrong-object",
                    "duration {} tracks {} name {:?}, stored {} {} {:?}",
                    a.duration(),
                    a.num_tracks(),
                    a.name(),
                    m.duration,
                    m.num_tracks,
                    m.name
                );
                ensure!(
                    a.num_soa_tracks() == m.soa() && a.num_aligned_tracks() == m.aligned(),
                    "wrong-object",
                    "aligned track counts"
                );
                ensure!(fb(a.timepoints()) == fb(&m.timepoints), "wrong-object", "time points differ");
                let ctrl = [a.translations_ctrl(), a.rotations_ctrl(), a.scales_ctrl()];
                let keys = [keys_of(a.translations()), keys_of(a.rotations()), keys_of(a.scales())];
                for c in 0..3 {
                    let w = ["translation", "rotation", "scale"][c];
                    ensure!(ctrl[c].ratios == &f[c].ratios[..], "wrong-object", "{w} ratios differ from the stored ones");
                    ensure!(ctrl[c].previouses == &f[c].previouses[..], "wrong-object", "{w} previouses differ");
                    ensure!(ctrl[c].iframe_entries == &f[c].entries[..], "wrong-object", "{w} seek entries differ");
                    ensure!(ctrl[c].iframe_desc == &f[c].desc[..], "wrong-object", "{w} seek descriptions differ");
                    ensure!(
                        ctrl[c].iframe_interval.to_bits() == f[c].interval.to_bits(),
                        "wrong-object",
                        "{w} seek interval {}, stored {}",
                        ctrl[c].iframe_interval,
                        f[c].interval
                    );
                    ensure!(keys[c] == &f[c].keys[..], "wrong-object", "{w} keys differ from the stored ones");
                }
            }
            (Obj::Track(m), l) => {
                macro_rules! t {
                    ($t:expr) => {{
                        let t = $t;
                        let want: Vec<u32> =
                            m.values.iter().flat_map(|v| (0..m.comps()).map(|c| v[c].to_bits()).collect::<Vec<_>>()).collect();
                        ensure!(
                            t.key_count() == m.ratios.len() && t.name() == m.name,
                            "wrong-object",
                            "{} keys, name {:?}, stored {} {:?}",
                            t.key_count(),
                            t.name(),
                            m.ratios.len(),
                            m.name
                        );
                        ensure!(fb(t.ratios()) == fb(&m.ratios), "wrong-object", "track ratios differ");
                        ensure!(bits3(t.values()) == want, "wrong-object", "track values differ");
                        ensure!(t.steps() == &m.step_bytes()[..], "wrong-object", "steps {:?}, stored {:?}", t.steps(), m.step_bytes());
                    }};
                }
                match (m.kind, l) {
                    (1, Loaded::T1(t)) => t!(t),
                    (2, Loaded::T2(t)) => t!(t),
                    (3, Loaded::T3(t)) => t!(t),
                    (4, Loaded::T4(t)) => t!(t),
                    (5, Loaded::TQ(t)) => t!(t),
                    _ => return fail("wrong-object", "another kind of object"),
                }
            }
            (Obj::Prims(ps), Loaded::Prims(o)) => {
                for (i, (p, g)) in ps.iter().zip(o).enumerate() {
                    let want: Vec<u64> = match p {
                        Prim::Num(_, v, _) | Prim::Vecs(_, v, _) => v.clone(),
                        Prim::Text(s) => s.bytes().map(|b| b as u64).collect(),
                        Prim::TagVersion(s, v) => s.bytes().map(|b| b as u64).chain([*v as u64]).collect(),
                    };
                    ensure!(&want == g, "wrong-value", "read {i} ({p:?}) gives {g:x?}");
                }
            }
            _ => return fail("wrong-object", "another kind of object"),
        }
        Ok(())
    }
}

/// Loads with the loader of a kind: 0 skeleton, 1 animation, 2.. tracks.
fn load_kind<R: Read>(k: u32, ar: &mut Archive<R>) -> Result<Loaded, OzzError> {
    Ok(match k {
        0 => Loaded::Skel(Skeleton::from_archive(ar)?),
        1 => Loaded::Anim(Animation::from_archive(ar)?),
        2 => Loaded::T1(Track::from_archive(ar)?),
        3 => Loaded::T2(Track::from_archive(ar)?),
        4 => Loaded::T3(Track::from_archive(ar)?),
        5 => Loaded::T4(Track::from_archive(ar)?),
        _ => Loaded::TQ(Track::from_archive(ar)?),
    })
}

/// A stream the simulator can look at while an archive reads from it.
#[derive(Clone)]
struct Handle(Rc<RefCell<SimStream>>);

impl Handle {
    fn new(s: SimStream) -> Handle {
        Handle(Rc::new(RefCell::new(s)))
    }
    fn pos(&self) -> usize {
        self.0.borrow().pos
    }
    fn count(&self, cx: &mut Cx) {
        let s = self.0.borrow();
        for (k, n) in [("short read", s.short), ("interrupted read", s.eintr), ("stream error", s.failed), ("early end of stream", s.eof)] {
            if n > 0 {
                *cx.faults.entry(k.into()).or_insert(0) += n;
                cx.nontrivial = true;
            }
        }
        cx.steps += s.call as u64;
        cx.sim_us += s.call as u64 * 100 + s.eintr * 50;
    }
}

impl Read for Handle {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        self.0.borrow_mut().read(b)
    }
}

fn gen_chunks(rng: &mut Rng) -> Vec<Chunk> {
    match rng.below(5) {
        0 => Vec::new(),
        1 => vec![Chunk { n: 1, eintr: rng.below(2) as u32 }],
        _ => (0..rng.usize(1, 12))
            .map(|_| Chunk {
                n: match rng.below(4) {
                    0 => 1,
                    1 => rng.range(1, 3) as u32,
                    2 => rng.range(1, 9) as u32,
                    _ => rng.range(1, 300) as u32,
                },
                eintr: if rng.pm(250) { rng.range(1, 3) as u32 } else { 0 },
            })
            .collect(),
    }
}

// ------------------------------------------------------------------------------------------------
// C08
// ------------------------------------------------------------------------------------------------

#[derive(Serialize, Deserialize, Clone, Debug)]
struct P8 {
    mem: Mem,
    objs: Vec<ObjSpec>,
    big: Vec<bool>,
    /// All objects behind one byte order tag.
    single: bool,
    chunks: Vec<Chunk>,
    /// Also look at the meta data only.
    meta: bool,
    /// Also load from memory: 1 slice, 2 vector
    from: u32,
}

fn gen8(rng: &mut Rng, thorough: bool) -> Value {
    let n = 1 + rng.below(if thorough { 6 } else { 4 }) as usize;
    let p = P8 {
        mem: Mem::gen(rng),
        objs: (0..n).map(|_| ObjSpec::gen(rng, true, true)).collect(),
        big: (0..n).map(|_| rng.pm(450)).collect(),
        single: rng.pm(500),
        chunks: gen_chunks(rng),
        meta: rng.pm(300),
        from: rng.below(3) as u32,
    };
    serde_json::to_value(p).unwrap()
}

fn exec8(v: &Value, cx: &mut Cx) -> Res {
    let p: P8 = plan(v)?;
    if p.objs.is_empty() || p.big.is_empty() {
        return fail(BAD_PLAN, "empty");
    }
    p.mem.apply(cx);
    let objs: Vec<Obj> = p.objs.iter().map(|o| o.build()).collect();
    let mut data: Vec<u8> = Vec::new();
    let mut ends = Vec::new();
    let mut metas = Vec::new();
    for (i, o) in objs.iter().enumerate() {
        let big = p.big[if p.single { 0 } else { i % p.big.len() }];
        let mut w = W::new(big);
        if !p.single || i == 0 {
            w.endian();
        }
        let start = data.len();
        o.body(&mut w);
        if big {
            cx.probe("big endian object");
        }
        let at = |k: usize| start + w.marks[k];
        metas.push(match o {
            // after the joint count, after the parents
            Obj::Skel(m) if m.n() > 0 => {
                let first = w.marks[w.marks.len() - 1 - m.rest.len()];
                (at(w.marks.len() - 3 - m.rest.len() - m.n()), start + first)
            }
            Obj::Anim(m, _) => {
                let e = start + w.texts[0].0 + m.name.len();
                (e, e)
            }
            _ => (start + w.b.len(), start + w.b.len()),
        });
        data.extend_from_slice(&w.b);
        ends.push(data.len());
        cx.s(o.kind());
    }
    let total = data.len();
    // what follows belongs to somebody else
    data.extend_from_slice(&[0xA5; 64]);
    let h = Handle::new(SimStream::new(data.clone(), p.chunks.clone()));
    let mut sh = Fnv::new();
    {
        let mut shared: Option<Archive<Handle>> = None;
        for (i, o) in objs.iter().enumerate() {
            let start = if i == 0 { 0 } else { ends[i - 1] };
            let what = format!("object {i} ({})", o.kind());
            let mut own: Option<Archive<Handle>> = None;
            let ar = if p.single {
                if shared.is_none() {
                    shared = Some(open(h.clone(), &what)?);
                }
                shared.as_mut().unwrap()
            } else {
                own = Some(open(h.clone(), &what)?);
                own.as_mut().unwrap()
            };
            let big = p.big[if p.single { 0 } else { i % p.big.len() }];
            ensure!(ar.endian_swap() == big, "byte-order", "{what}: endian_swap() is {} for a {} archive", ar.endian_swap(), if big { "big endian" } else { "little endian" });
            match o.load(ar) {
                Ok(l) => {
                    if let Err(mut e) = o.check(&l) {
                        e.detail = format!("{what} of {}, {}: {}", objs.len(), if big { "big endian" } else { "little endian" }, e.detail);
                        return Err(e);
                    }
                }
                Err(e) => return fail("load-failed", format!("{what} does not load: {e:?} at byte {} of {start}..{}", h.pos(), ends[i])),
            }
            drop(own);
            ensure!(h.pos() == ends[i], "consumed", "{what} ends at byte {}, but the stream is at {}", ends[i], h.pos());
            sh.u64(h.0.borrow().call as u64);
            sh.str(o.kind());
        }
    }
    ensure!(h.pos() == total, "consumed", "the objects have {total} bytes, {} were consumed", h.pos());
    h.count(cx);
    cx.u(h.0.borrow().call as u64);
    if p.meta && !p.single {
        for (i, o) in objs.iter().enumerate() {
            let start = if i == 0 { 0 } else { ends[i - 1] };
            let d = data[start..].to_vec();
            let h = Handle::new(SimStream::new(d, p.chunks.clone()));
            let mut ar = open(h.clone(), "meta")?;
            cx.probe("meta read");
            match o {
                Obj::Skel(m) => {
                    for with in [false, true] {
                        let h = Handle::new(SimStream::new(data[start..].to_vec(), p.chunks.clone()));
                        let mut ar = open(h.clone(), "meta")?;
                        let me = match Skeleton::read_meta(&mut ar, with) {
                            Ok(m) => m,
                            Err(e) => return fail("meta", format!("skeleton meta does not load: {e:?}")),
                        };
                        ensure!(
                            me.num_joints as usize == m.n() && me.version == 2,
                            "meta",
                            "skeleton meta: {} joints, version {}; stored {} and 2",
                            me.num_joints,
                            me.version,
                            m.n()
                        );
                        if with {
                            ensure!(me.joint_parents == m.parents, "meta", "skeleton meta: parents {:?}, stored {:?}", me.joint_parents, m.parents);
                            for (j, n) in m.names.iter().enumerate() {
                                ensure!(
                                    me.joint_names.get_by_left(n.as_str()) == Some(&(j as i16)),
                                    "meta",
                                    "skeleton meta: joint {j} is named {n:?}"
                                );
                            }
                        }
                        let want = if with { metas[i].1 } else { metas[i].0 } - start;
                        ensure!(h.pos() == want, "meta", "skeleton meta ends at byte {want}, the stream is at {}", h.pos());
                    }
                }
                Obj::Anim(m, f) => {
                    let me = match Animation::read_meta(&mut ar) {
                        Ok(m) => m,
                        Err(e) => return fail("meta", format!("animation meta does not load: {e:?}")),
                    };
                    let got = [
                        me.version,
                        me.duration.to_bits(),
                        me.num_tracks,
                        me.timepoints_count,
                        me.translations_count,
                        me.rotations_count,
                        me.scales_count,
                        me.t_iframe_entries_count,
                        me.t_iframe_desc_count,
                        me.r_iframe_entries_count,
                        me.r_iframe_desc_count,
                        me.s_iframe_entries_count,
                        me.s_iframe_desc_count,
                    ];
                    let l = |n: usize| n as u32;
                    let want = [
                        7,
                        m.duration.to_bits(),
                        l(m.num_tracks),
                        l(m.timepoints.len()),
                        l(f[0].keys.len()),
                        l(f[1].keys.len()),
                        l(f[2].keys.len()),
                        l(f[0].entries.len()),
                        l(f[0].desc.len()),
                        l(f[1].entries.len()),
                        l(f[1].desc.len()),
                        l(f[2].entries.len()),
                        l(f[2].desc.len()),
                    ];
                    ensure!(got == want && me.name == m.name, "meta", "animation meta {got:?} {:?}, stored {want:?} {:?}", me.name, m.name);
                    ensure!(h.pos() == metas[i].0 - start, "meta", "animation meta ends at byte {}, the stream is at {}", metas[i].0 - start, h.pos());
                }
                _ => {}
            }
        }
    }
    if p.from > 0 && !p.single {
        for (i, o) in objs.iter().enumerate() {
            let start = if i == 0 { 0 } else { ends[i - 1] };
            let d = &data[start..ends[i]];
            let r = if p.from == 1 {
                Archive::from_slice(d).and_then(|mut a| o.load(&mut a))
            } else {
                Archive::from_vec(d.to_vec()).and_then(|mut a| o.load(&mut a))
            };
            cx.probe("loaded from memory");
            match r {
                Ok(l) => o.check(&l)?,
                Err(e) => return fail("load-failed", format!("object {i} ({}) does not load from memory: {e:?}", o.kind())),
            }
        }
    }
    cx.state(sh.finish());
    Ok(())
}

fn open(h: Handle, what: &str) -> Res<Archive<Handle>> {
    match Archive::new(h) {
        Ok(a) => Ok(a),
        Err(e) => fail("load-failed", format!("{what}: the archive does not open: {e:?}")),
    }
}

// ------------------------------------------------------------------------------------------------
// C09
// ------------------------------------------------------------------------------------------------

/// A place in the archive: field mark (modulo) plus a distance, clamped.
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct At {
    mark: u32,
    d: i32,
}

impl At {
    fn gen(rng: &mut Rng) -> At {
        At { mark: rng.u64() as u32, d: if rng.pm(500) { rng.range(-3, 3) as i32 } else { rng.range(0, 400) as i32 } }
    }
    fn pos(&self, w: &W) -> usize {
        let m = w.marks[self.mark as usize % w.marks.len()] as i64 + self.d as i64;
        if m < 0 {
            return 0;
        }
        // keep far distances inside
        (m as usize) % (w.b.len() + 1)
    }
}

#[derive(Serialize, Deserialize, Clone, Debug)]
enum Try {
    Intact,
    Cut(At),
    /// The stream fails from this byte on (`times` reads fail, then it would work again).
    Fail { at: At, kind: u32, times: u32 },
    /// 0 another object's tag, 1 shorter, 2 longer, 3 empty, 4 other case, 5 one letter changed, 6 not text
    Tag { how: u32, n: u32 },
    Version(u32),
    /// A byte of a stored text is not UTF-8.
    Text { which: u32, at: u32, byte: u32 },
    /// The loader of another kind.
    OtherKind(u32),
    /// Only the meta data, with the stream ending at this byte.
    Meta { cut: At, with: bool },
}

#[derive(Serialize, Deserialize, Clone, Debug)]
struct P9 {
    mem: Mem,
    obj: ObjSpec,
    big: bool,
    chunks: Vec<Chunk>,
    tries: Vec<Try>,
}

fn gen9(rng: &mut Rng, thorough: bool) -> Value {
    let n = rng.usize(2, if thorough { 40 } else { 16 });
    let p = P9 {
        mem: Mem::gen(rng),
        obj: ObjSpec::gen(rng, true, rng.clone().pm(200)),
        big: rng.pm(300),
        chunks: gen_chunks(rng),
        tries: (0..n)
            .map(|_| match rng.below(14) {
                0 => Try::Intact,
                1..=4 => Try::Cut(At::gen(rng)),
                5..=8 => Try::Fail {
                    at: At::gen(rng),
                    kind: rng.below(KINDS.len() as u64) as u32,
                    times: if rng.pm(500) { 1 } else { u32::MAX },
                },
                9 => Try::Tag { how: rng.below(7) as u32, n: rng.u64() as u32 },
                10 => Try::Version(match rng.below(4) {
                    0 => 0,
                    1 => rng.u64() as u32,
                    _ => rng.range(0, 12) as u32,
                }),
                11 => Try::Text { which: rng.u64() as u32, at: rng.u64() as u32, byte: *rng.pick(&[0xffu32, 0x80, 0xc0, 0xfe]) },
                12 => Try::OtherKind(rng.below(7) as u32),
                _ => Try::Meta { cut: At::gen(rng), with: rng.pm(500) },
            })
            .collect(),
    };
    serde_json::to_value(p).unwrap()
}

fn kind_no(o: &Obj) -> u32 {
    match o {
        Obj::Skel(_) => 0,
        Obj::Anim(..) => 1,
        Obj::Track(m) => m.kind + 1,
        Obj::Prims(_) => 99,
    }
}

fn exec9(v: &Value, cx: &mut Cx) -> Res {
    let p: P9 = plan(v)?;
    p.mem.apply(cx);
    let o = p.obj.build();
    let mut w = W::new(p.big);
    o.write(&mut w);
    let prims = matches!(o, Obj::Prims(_));
    let k = kind_no(&o);
    // tag and version end here: byte order, tag, terminator, version
    let tag_end = if prims { 0 } else { w.marks[2] };
    let mut sh = Fnv::new();
    for (i, t) in p.tries.iter().enumerate() {
        let what = format!("try {i} {t:?} on a {} archive of {} bytes", o.kind(), w.b.len());
        let mut data = w.b.clone();
        let mut fail_at: Option<(usize, ErrorKind, u32)> = None;
        let mut other = None;
        let mut meta = None;
        // what the load must give
        enum Want {
            Ok,
            Io(ErrorKind),
            Tag,
            Version,
            Text(usize),
            TagOrText,
        }
        let mut want = Want::Ok;
        match t {
            Try::Intact => {}
            Try::Cut(at) => {
                let n = at.pos(&w);
                if n < data.len() {
                    want = Want::Io(ErrorKind::UnexpectedEof);
                    cx.fault("truncated archive");
                }
                data.truncate(n);
            }
            Try::Fail { at, kind, times } => {
                let n = at.pos(&w);
                let ek = KINDS[*kind as usize % KINDS.len()];
                fail_at = Some((n, ek, *times));
                if n < data.len() {
                    want = Want::Io(ek);
                }
            }
            Try::Tag { how, n } if !prims => {
                let end = w.marks[2] - 1;
                let tag = data[1..end].to_vec();
                let mut new = tag.clone();
                match how % 7 {
                    0 => {
                        const TAGS: [&str; 8] = [
                            "ozz-skeleton",
                            "ozz-animation",
                            "ozz-float_track",
                            "ozz-float2_track",
                            "ozz-float3_track",
                            "ozz-float4_track",
                            "ozz-quat_track",
                            "ozz-raw_skeleton",
                        ];
                        new = TAGS[*n as usize % 8].as_bytes().to_vec();
                    }
                    1 => new.truncate(*n as usize % tag.len()),
                    2 => new.push(b'a' + (*n % 26) as u8),
                    3 => new.clear(),
                    4 => new.make_ascii_uppercase(),
                    5 => {
                        let l = new.len();
                        new[*n as usize % l] ^= 1 << (n / 64 % 4);
                        new.iter_mut().for_each(|b| *b = (*b).max(1));
                    }
                    _ => {
                        let l = new.len();
                        new[*n as usize % l] = 0xff;
                    }
                }
                if new != tag {
                    want = if how % 7 == 6 { Want::TagOrText } else { Want::Tag };
                    cx.fault("wrong tag");
                }
                let mut d = vec![data[0]];
                d.extend_from_slice(&new);
                d.extend_from_slice(&data[end..]);
                data = d;
            }
            Try::Version(n) if !prims => {
                let b = if p.big { n.to_be_bytes() } else { n.to_le_bytes() };
                data[tag_end..tag_end + 4].copy_from_slice(&b);
                if data != w.b {
                    want = Want::Version;
                    cx.fault("wrong version");
                }
            }
            Try::Text { which, at, byte } => {
                let texts: Vec<_> = w.texts.iter().filter(|t| t.1 > 0).collect();
                if !texts.is_empty() {
                    let (s, l) = *texts[*which as usize % texts.len()];
                    data[s + *at as usize % l] = *byte as u8;
                    if let Err(e) = std::str::from_utf8(&data[s..s + l]) {
                        want = Want::Text(e.valid_up_to());
                        cx.fault("invalid text");
                    } else if data != w.b {
                        // still text: not this scenario
                        data = w.b.clone();
                    }
                }
            }
            Try::OtherKind(n) if !prims => {
                other = Some(*n);
                if *n != k {
                    want = Want::Tag;
                    cx.fault("wrong kind of object");
                }
            }
            Try::Meta { cut, with } if k <= 1 => {
                let n = cut.pos(&w);
                meta = Some(*with);
                let need = match &o {
                    Obj::Skel(m) if *with && m.n() > 0 => w.marks[w.marks.len() - 1 - m.rest.len()],
                    Obj::Skel(_) => w.marks[4],
                    Obj::Anim(m, _) => w.texts[0].0 + m.name.len(),
                    _ => 0,
                };
                if n < need {
                    want = Want::Io(ErrorKind::UnexpectedEof);
                    cx.fault("truncated archive");
                }
                data.truncate(n);
            }
            _ => continue,
        }
        let len = data.len();
        let mut s = SimStream::new(data, p.chunks.clone());
        if let Some((n, ek, times)) = fail_at {
            s.fail_at = Some((n, ek));
            s.fail_times = times;
        }
        let h = Handle::new(s);
        let live = alloc::live();
        let r: Result<Option<Loaded>, OzzError> = Archive::new(h.clone()).and_then(|mut ar| match (other, meta) {
            (Some(n), _) => load_kind(n, &mut ar).map(Some),
            (_, Some(with)) => match &o {
                Obj::Skel(_) => Skeleton::read_meta(&mut ar, with).map(|_| None),
                _ => Animation::read_meta(&mut ar).map(|_| None),
            },
            _ => o.load(&mut ar).map(Some),
        });
        cx.steps += 1;
        let failed = r.is_err();
        let got = match &r {
            Ok(_) => "an object".to_string(),
            Err(e) => format!("{e:?}"),
        };
        let mut kept = alloc::live() as i64 - live as i64 - got.capacity() as i64;
        match (&want, r) {
            (Want::Ok, Ok(l)) => {
                if let Some(l) = l {
                    if other.map(|n| n == k).unwrap_or(true) {
                        if let Err(mut e) = o.check(&l) {
                            e.detail = format!("{what}: {}", e.detail);
                            return Err(e);
                        }
                    }
                    drop(l);
                }
                kept = alloc::live() as i64 - live as i64 - got.capacity() as i64;
                cx.probe("intact load after faults");
            }
            (Want::Io(k), Err(OzzError::IO(g))) if *k == g => {
                ensure!(h.0.borrow().eof + h.0.borrow().failed > 0, "wrong-error", "{what}: {got} although the stream did not end or fail");
            }
            (Want::Tag | Want::TagOrText, Err(OzzError::InvalidTag)) => {}
            (Want::TagOrText, Err(OzzError::Utf8(_))) => {}
            (Want::Version, Err(OzzError::InvalidVersion)) => {}
            (Want::Text(n), Err(OzzError::Utf8(g))) => {
                ensure!(g as usize == *n, "wrong-error", "{what}: text valid up to {n}, reported {g}");
            }
            (Want::Text(_), Err(OzzError::InvalidTag)) if prims => {}
            (want, _) => {
                let w = match want {
                    Want::Ok => "an object".into(),
                    Want::Io(k) => format!("IO({k:?})"),
                    Want::Tag => "InvalidTag".into(),
                    Want::TagOrText => "InvalidTag or Utf8".into(),
                    Want::Version => "InvalidVersion".into(),
                    Want::Text(n) => format!("Utf8({n})"),
                };
                return fail(
                    if failed { "wrong-error" } else { "accepted" },
                    format!("{what}: got {got}, expected {w} (stream at {} of {len})", h.pos()),
                );
            }
        }
        ensure!(kept == 0, "leak", "{what}: the load kept {kept} bytes");
        h.count(cx);
        sh.u64(h.pos() as u64);
        sh.str(&got);
        cx.s(&got);
        cx.state(sh.finish());
    }
    Ok(())
}

// ------------------------------------------------------------------------------------------------
// C10
// ------------------------------------------------------------------------------------------------

#[derive(Serialize, Deserialize, Clone, Debug)]
pub(super) enum Damage {
    Flip { at: At, bit: u32 },
    /// A byte is replaced.
    Byte { at: At, v: u32 },
    /// A 32 bit field is replaced (0: other extreme values, see `WORDS`)
    Word { at: At, v: u32 },
    Zero { at: At, n: u32 },
    Ones { at: At, n: u32 },
    Noise { at: At, n: u32, seed: u32 },
    Lose { at: At, n: u32 },
    Double { at: At, n: u32 },
    Cut { at: At },
    /// A block of another place (misdirected write).
    Copy { at: At, from: At, n: u32 },
}

impl Damage {
    pub(super) fn gen(rng: &mut Rng) -> Damage {
        let at = At::gen(rng);
        match rng.below(16) {
            0..=2 => Damage::Flip { at, bit: rng.below(8) as u32 },
            3 => Damage::Byte { at, v: rng.below(256) as u32 },
            4..=8 => Damage::Word {
                at: At { mark: rng.u64() as u32, d: 0 },
                v: if rng.pm(700) { *rng.pick(&WORDS) } else { rng.u64() as u32 },
            },
            9 => Damage::Zero { at, n: rng.range(1, 64) as u32 },
            10 => Damage::Ones { at, n: rng.range(1, 16) as u32 },
            11 => Damage::Noise { at, n: rng.range(1, 64) as u32, seed: rng.u64() as u32 },
            12 => Damage::Lose { at, n: rng.range(1, 40) as u32 },
            13 => Damage::Double { at, n: rng.range(1, 40) as u32 },
            14 => Damage::Cut { at },
            _ => Damage::Copy { at, from: At::gen(rng), n: rng.range(1, 64) as u32 },
        }
    }
}

const WORDS: [u32; 14] = [
    0, 1, 2, 0xff, 0xffff, 0x10000, 0x00ff_ffff, 0x7fff_fffe, 0x7fff_ffff, 0x8000_0000, 0xffff_fff8, 0xffff_fffe, 0xffff_ffff, 0x4000_0000,
];

#[derive(Serialize, Deserialize, Clone, Debug)]
struct P10 {
    mem: Mem,
    obj: ObjSpec,
    big: bool,
    chunks: Vec<Chunk>,
    /// Each entry is one damaged copy of the archive.
    copies: Vec<Vec<Damage>>,
}

fn gen10(rng: &mut Rng, thorough: bool) -> Value {
    let n = rng.usize(1, if thorough { 30 } else { 12 });
    let p = P10 {
        mem: Mem::gen(rng),
        obj: ObjSpec::gen(rng, true, rng.clone().pm(150)),
        big: rng.pm(300),
        chunks: if rng.pm(700) { Vec::new() } else { gen_chunks(rng) },
        copies: (0..n)
            .map(|_| {
                (0..1 + if rng.pm(300) { rng.below(4) } else { 0 })
                    .map(|_| Damage::gen(rng))
                    .collect()
            })
            .collect(),
    };
    serde_json::to_value(p).unwrap()
}

pub(super) fn apply(d: &mut Vec<u8>, w: &W, dm: &Damage, cx: &mut Cx) {
    let pos = |at: &At, d: &Vec<u8>| at.pos(w).min(d.len());
    match dm {
        Damage::Flip { at, bit } => {
            let i = pos(at, d);
            if i < d.len() {
                d[i] ^= 1 << (bit % 8);
                cx.fault("bit flip");
            }
        }
        Damage::Byte { at, v } => {
            let i = pos(at, d);
            if i < d.len() {
                d[i] = *v as u8;
                cx.fault("byte changed");
            }
        }
        Damage::Word { at, v } => {
            let i = pos(at, d);
            if i + 4 <= d.len() {
                let b = if w.big { v.to_be_bytes() } else { v.to_le_bytes() };
                d[i..i + 4].copy_from_slice(&b);
                cx.fault("field changed");
            }
        }
        Damage::Zero { at, n } => {
            let i = pos(at, d);
            let e = (i + *n as usize).min(d.len());
            d[i..e].fill(0);
            cx.fault("zeroed block");
        }
        Damage::Ones { at, n } => {
            let i = pos(at, d);
            let e = (i + *n as usize).min(d.len());
            d[i..e].fill(0xff);
            cx.fault("erased block");
        }
        Damage::Noise { at, n, seed } => {
            let i = pos(at, d);
            let e = (i + *n as usize).min(d.len());
            let mut r = Rng::new(*seed as u64);
            for x in &mut d[i..e] {
                *x = r.u64() as u8;
            }
            cx.fault("torn block");
        }
        Damage::Lose { at, n } => {
            let i = pos(at, d);
            let e = (i + *n as usize).min(d.len());
            d.drain(i..e);
            cx.fault("lost range");
        }
        Damage::Double { at, n } => {
            let i = pos(at, d);
            let e = (i + *n as usize).min(d.len());
            let c = d[i..e].to_vec();
            d.splice(i..i, c);
            cx.fault("duplicated range");
        }
        Damage::Cut { at } => {
            let i = pos(at, d);
            d.truncate(i);
            cx.fault("lost tail");
        }
        Damage::Copy { at, from, n } => {
            let f = pos(from, d);
            let e = (f + *n as usize).min(d.len());
            let c = d[f..e].to_vec();
            let i = pos(at, d);
            for (k, b) in c.into_iter().enumerate() {
                if i + k < d.len() {
                    d[i + k] = b;
                }
            }
            cx.fault("misdirected block");
        }
    }
}

/// Values that cannot exist in memory as the type they were loaded as.
pub(super) fn invalid(o: &Obj, l: &Loaded) -> Option<String> {
    let text = |what: &str, s: &str| match std::str::from_utf8(s.as_bytes()) {
        Ok(_) => None,
        Err(e) => Some(format!("{what} is no text: {e} in {:02x?}", s.as_bytes())),
    };
    match (o, l) {
        (Obj::Prims(ps), Loaded::Prims(vs)) => ps.iter().zip(vs).enumerate().find_map(|(i, (p, v))| match p {
            Prim::Num(k, ..) if *k >= 10 => v.iter().find(|b| **b > 1).map(|b| format!("value {i} is a bool of {b}")),
            Prim::Text(_) | Prim::TagVersion(..) => {
                let n = v.len() - matches!(p, Prim::TagVersion(..)) as usize;
                let b: Vec<u8> = v[..n].iter().map(|b| *b as u8).collect();
                std::str::from_utf8(&b).err().map(|e| format!("value {i} is no text: {e} in {b:02x?}"))
            }
            _ => None,
        }),
        (_, Loaded::Skel(s)) => s.joint_names().iter().find_map(|(n, j)| text(&format!("name of joint {j}"), n)),
        (_, Loaded::Anim(a)) => text("animation name", a.name()),
        (_, Loaded::T1(t)) => text("track name", t.name()),
        (_, Loaded::T2(t)) => text("track name", t.name()),
        (_, Loaded::T3(t)) => text("track name", t.name()),
        (_, Loaded::T4(t)) => text("track name", t.name()),
        (_, Loaded::TQ(t)) => text("track name", t.name()),
        _ => None,
    }
}

/// Looks at everything a loaded object offers.
pub(super) fn inspect(l: &Loaded, sh: &mut Fnv) -> usize {
    let mut held = 0;
    match l {
        Loaded::Skel(s) => {
            held += s.num_joints() * 2 + s.num_soa_joints() * 160;
            sh.f32s(fl(s.joint_rest_poses()));
            for i in 0..s.num_joints() {
                sh.u64(s.joint_parent(i) as u64);
                sh.u64(s.is_leaf(i) as u64);
                if let Some(n) = s.name_by_joint(i as i16) {
                    sh.u64(s.joint_by_name(n).unwrap_or(-9) as u64);
                }
            }
            for (n, i) in s.joint_names().iter() {
                held += n.len();
                sh.u64(*i as u64);
            }
            let mut n = 0u64;
            s.iter_depth_first_reverse(|_, _| n += 1);
            s.iter_depth_first(-1i32, |j, p| n = n.wrapping_mul(31).wrapping_add((j as u64) ^ (p as u64)));
            for i in [0usize, s.num_joints() / 2, s.num_joints()] {
                s.iter_depth_first(i, |j, p| n = n.wrapping_mul(31).wrapping_add((j as u64) ^ (p as u64)));
            }
            sh.u64(n);
        }
        Loaded::Anim(a) => {
            sh.f32s(a.timepoints());
            sh.u64(a.duration().to_bits() as u64);
            sh.u64((a.num_tracks() + a.num_aligned_tracks() + a.num_soa_tracks()) as u64);
            sh.str(a.name());
            held += a.timepoints().len() * 4 + a.name().len();
            for c in [a.translations_ctrl(), a.rotations_ctrl(), a.scales_ctrl()] {
                for x in c.ratios.iter().chain(c.previouses) {
                    sh.u64(*x as u64);
                }
                sh.bytes(c.iframe_entries);
                for x in c.iframe_desc {
                    sh.u64(*x as u64);
                }
                sh.u64(c.iframe_interval.to_bits() as u64);
                held += c.ratios.len() * 4 + c.iframe_entries.len() + c.iframe_desc.len() * 4;
            }
            for k in a.translations().iter().chain(a.scales()) {
                let v = k.decompress();
                sh.u64(if v.x.is_nan() { 1 } else { v.x.to_bits() as u64 });
            }
            for k in a.rotations() {
                sh.u64(k.decompress().w.to_bits() as u64);
            }
        }
        Loaded::Prims(vs) => vs.iter().flatten().for_each(|v| sh.u64(*v)),
        _ => {
            macro_rules! t {
                ($t:expr) => {{
                    let t = $t;
                    held += t.ratios().len() * 4 + t.steps().len() + std::mem::size_of_val(t.values()) + t.name().len();
                    sh.u64(t.key_count() as u64);
                    sh.f32s(t.ratios());
                    sh.bytes(t.steps());
                    for b in bits3(t.values()) {
                        sh.u64(b as u64);
                    }
                    sh.str(t.name());
                    sh.u64((t.ratios().len() == t.key_count() && t.values().len() == t.key_count()) as u64);
                }};
            }
            match l {
                Loaded::T1(t) => t!(t),
                Loaded::T2(t) => t!(t),
                Loaded::T3(t) => t!(t),
                Loaded::T4(t) => t!(t),
                Loaded::TQ(t) => t!(t),
                _ => {}
            }
        }
    }
    held
}

fn exec10(v: &Value, cx: &mut Cx) -> Res {
    let p: P10 = plan(v)?;
    p.mem.apply(cx);
    let o = p.obj.build();
    let mut w = W::new(p.big);
    o.write(&mut w);
    for (i, c) in p.copies.iter().enumerate() {
        let mut data = w.b.clone();
        for d in c {
            apply(&mut data, &w, d, cx);
        }
        let changed = data != w.b;
        let what = format!("copy {i} ({} bytes of a {} archive) damaged by {c:?}", data.len(), o.kind());
        let len = data.len();
        let h = Handle::new(SimStream::new(data, p.chunks.clone()));
        let live = alloc::live();
        alloc::reset_peak();
        // larger requests are refused, as on a machine with little memory
        alloc::set_cap(64 << 20);
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            Archive::new(h.clone()).and_then(|mut ar| o.load(&mut ar))
        }));
        let peak = alloc::peak().saturating_sub(live);
        let largest = alloc::largest();
        alloc::set_cap(1 << 30);
        cx.steps += 1;
        let bound = (1 << 20) + 512 * len;
        let r = match r {
            Ok(r) => r,
            Err(_) => {
                let (loc, msg) = crate::take_panic();
                if msg.starts_with(alloc::OOM) {
                    return fail("memory", format!("{what}: loading asks for {largest} bytes at once and dies when they are refused"));
                }
                return fail("panic", format!("{what}: loading panics at {loc}: {msg}"));
            }
        };
        ensure!(
            peak <= bound && largest <= bound,
            "memory",
            "{what}: loading used up to {peak} bytes (largest request {largest}) for {len} bytes supplied"
        );
        let mut sh = Fnv::new();
        let loaded = r.is_ok();
        match r {
            Err(e) => {
                sh.str(&format!("{e:?}"));
            }
            Ok(l) => {
                if !changed {
                    o.check(&l)?;
                }
                if let Some(e) = invalid(&o, &l) {
                    return fail("invalid-value", format!("{what}: {e}"));
                }
                let held = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| inspect(&l, &mut sh)));
                match held {
                    Ok(held) => {
                        // every byte of the object was in the stream
                        ensure!(
                            held <= 2 * len + 4096,
                            "invented-content",
                            "{what}: the object shows {held} bytes, the stream had {len}"
                        );
                    }
                    Err(_) => {
                        let (loc, msg) = crate::take_panic();
                        return fail("panic", format!("{what}: inspecting the loaded object panics at {loc}: {msg}"));
                    }
                }
                drop(l);
            }
        }
        let kept = alloc::live() as i64 - live as i64;
        ensure!(kept == 0, "leak", "{what}: {kept} bytes are kept");
        cx.probe(if loaded { "damaged archive loaded" } else { "damaged archive refused" });
        h.count(cx);
        cx.u(sh.finish());
        cx.state(sh.finish());
    }
    // an undamaged copy still loads
    let h = Handle::new(SimStream::new(w.b.clone(), p.chunks.clone()));
    match Archive::new(h).and_then(|mut ar| o.load(&mut ar)) {
        Ok(l) => o.check(&l)?,
        Err(e) => return fail("load-failed", format!("the undamaged {} does not load: {e:?}", o.kind())),
    }
    Ok(())
}

const REAL: &[&str] = &["Archive", "Skeleton/Animation/Track loaders and accessors", "OzzError", "Endian"];

pub const C08: Prop = Prop {
    id: "C08",
    gen: gen8,
    exec: exec8,
    runs: (200_000, 8_000_000),
    rule: "one run = one stream of 1-6 objects stored back to back; non-trivial when a short or interrupted read was delivered",
    measure: "sequences of object kinds with the number of read calls each took",
    real: REAL,
    stub: &["byte stream (chunking, interruptions)", "memory content and address reuse"],
    assumptions: &["archives follow the published layout (written by the harness' own writer, checked against the exported files)"],
};

pub const C09: Prop = Prop {
    id: "C09",
    gen: gen9,
    exec: exec9,
    runs: (600_000, 25_000_000),
    rule: "one run = a series of load attempts on one archive, each with a truncation, stream error, wrong tag, version, text or kind; non-trivial when at least one fault was injected",
    measure: "sequences of (stream position, outcome) of the attempts",
    real: REAL,
    stub: &["byte stream (end, errors, chunking, interruptions)", "memory content and address reuse"],
    assumptions: &["an interrupted read is retried, as for every std reader"],
};

pub const C10: Prop = Prop {
    id: "C10",
    gen: gen10,
    exec: exec10,
    runs: (400_000, 18_000_000),
    rule: "one run = up to 30 damaged copies of one archive loaded, inspected and dropped; non-trivial when a copy was damaged",
    measure: "distinct outcomes (error or inspected content)",
    real: REAL,
    stub: &["stored bytes", "byte stream", "memory content, address reuse, requests above 64 MiB refused"],
    assumptions: &["memory bound: 1 MiB plus 512 times the bytes supplied", "jobs run on a damaged object that loaded are covered by C20"],
};
