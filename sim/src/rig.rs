//! All kinds of jobs behind one interface, in every way of owning their resources.

use crate::cx::Res;
use crate::gen::{AnimSpec, SkelSpec, TrackSpec};
use crate::props::blend::mask;
use crate::props::snapshot::AnyTrack;
use crate::rng::Rng;
use crate::snap::{ctx_words, restore, save, Snap};
use crate::util::*;
use glam::{Mat4, Quat, Vec2, Vec3, Vec3A, Vec4};
use glam_ext::Transform3A;
use ozz_animation_rs::math::SoaTransform;
use ozz_animation_rs::sampling_job::AsSamplingContext;
use ozz_animation_rs::*;
use serde::{Deserialize, Serialize};
use std::cell::{Cell, RefCell, UnsafeCell};
use std::fmt::Debug;
use std::ops::{Deref, DerefMut};
use std::rc::Rc;
use std::sync::{Arc, RwLock};

// ---------------------------------------------------------------- styles of ownership

/// An object as the different styles hold it.
pub struct Asset<T: 'static> {
    pub arc: Arc<T>,
    pub rc: Rc<T>,
    make: Box<dyn Fn() -> T>,
}

impl<T: 'static> Asset<T> {
    pub fn new(make: impl Fn() -> T + 'static) -> Asset<T> {
        Asset { arc: Arc::new(make()), rc: Rc::new(make()), make: Box::new(make) }
    }
}

pub trait Elem: Debug + Clone + Copy + Default + PartialEq + 'static {}
impl<T: Debug + Clone + Copy + Default + PartialEq + 'static> Elem for T {}

pub trait Style: 'static {
    const NAME: &'static str;
    /// Whether the caller keeps access to a buffer that a job holds.
    const SHARED: bool;
    type Obj<T: Debug + 'static>: OzzObj<T>;
    type In<T: Elem>: OzzBuf<T>;
    type Out<T: Elem>: OzzMutBuf<T>;
    type Ctx: AsSamplingContext;
    /// What the caller keeps of a buffer.
    type Cell<T: Elem>;

    fn obj<T: Debug + 'static>(a: &Asset<T>) -> Self::Obj<T>;
    fn cell<T: Elem>(v: &[T]) -> Self::Cell<T>;
    fn input<T: Elem>(c: &Self::Cell<T>, v: &[T]) -> Self::In<T>;
    fn output<T: Elem>(c: &Self::Cell<T>, v: &[T]) -> Self::Out<T>;
    /// Changes what the caller can reach.
    fn write<T: Elem>(c: &Self::Cell<T>, v: &[T]);
    fn read<T: Elem>(c: &Self::Cell<T>) -> Option<Vec<T>>;
    fn ctx(c: SamplingContext) -> Self::Ctx;
    /// A holder of the buffer panics. False where that has no meaning.
    fn poison<T: Elem>(_: &Self::Cell<T>) -> bool {
        false
    }
    fn heal<T: Elem>(_: &Self::Cell<T>) {}
    /// Buffers still borrowed by somebody.
    fn busy<T: Elem>(_: &Self::Cell<T>) -> bool {
        false
    }
}

// plain values

pub struct Owned;

impl Style for Owned {
    const NAME: &'static str = "owned";
    const SHARED: bool = false;
    type Obj<T: Debug + 'static> = T;
    type In<T: Elem> = Vec<T>;
    type Out<T: Elem> = Vec<T>;
    type Ctx = SamplingContext;
    type Cell<T: Elem> = ();
    fn obj<T: Debug + 'static>(a: &Asset<T>) -> T {
        (a.make)()
    }
    fn cell<T: Elem>(_: &[T]) {}
    fn input<T: Elem>(_: &(), v: &[T]) -> Vec<T> {
        v.to_vec()
    }
    fn output<T: Elem>(_: &(), v: &[T]) -> Vec<T> {
        v.to_vec()
    }
    fn write<T: Elem>(_: &(), _: &[T]) {}
    fn read<T: Elem>(_: &()) -> Option<Vec<T>> {
        None
    }
    fn ctx(c: SamplingContext) -> SamplingContext {
        c
    }
}

// borrowed

thread_local! {
    static LOANS: RefCell<Vec<Box<dyn FnOnce()>>> = const { RefCell::new(Vec::new()) };
}

/// Everything lent lives as long as this.
pub struct Lender;

impl Drop for Lender {
    fn drop(&mut self) {
        loop {
            let l = LOANS.with(|l| l.borrow_mut().pop());
            match l {
                Some(f) => f(),
                None => break,
            }
        }
    }
}

fn lend<T: 'static>(v: Vec<T>) -> &'static mut [T] {
    let p: *mut [T] = Box::into_raw(v.into_boxed_slice());
    LOANS.with(|l| l.borrow_mut().push(Box::new(move || drop(unsafe { Box::from_raw(p) }))));
    unsafe { &mut *p }
}

pub struct Borrowed;

impl Style for Borrowed {
    const NAME: &'static str = "borrowed";
    const SHARED: bool = false;
    type Obj<T: Debug + 'static> = &'static T;
    type In<T: Elem> = &'static [T];
    type Out<T: Elem> = &'static mut [T];
    type Ctx = &'static mut SamplingContext;
    type Cell<T: Elem> = ();
    fn obj<T: Debug + 'static>(a: &Asset<T>) -> &'static T {
        // the assets outlive the jobs
        unsafe { &*Arc::as_ptr(&a.arc) }
    }
    fn cell<T: Elem>(_: &[T]) {}
    fn input<T: Elem>(_: &(), v: &[T]) -> &'static [T] {
        lend(v.to_vec())
    }
    fn output<T: Elem>(_: &(), v: &[T]) -> &'static mut [T] {
        lend(v.to_vec())
    }
    fn write<T: Elem>(_: &(), _: &[T]) {}
    fn read<T: Elem>(_: &()) -> Option<Vec<T>> {
        None
    }
    fn ctx(c: SamplingContext) -> &'static mut SamplingContext {
        &mut lend(vec![c])[0]
    }
}

// counted

pub struct Counted;

impl Style for Counted {
    const NAME: &'static str = "counted";
    const SHARED: bool = true;
    type Obj<T: Debug + 'static> = Rc<T>;
    type In<T: Elem> = Rc<RefCell<Vec<T>>>;
    type Out<T: Elem> = Rc<RefCell<Vec<T>>>;
    type Ctx = SamplingContext;
    type Cell<T: Elem> = Rc<RefCell<Vec<T>>>;
    fn obj<T: Debug + 'static>(a: &Asset<T>) -> Rc<T> {
        a.rc.clone()
    }
    fn cell<T: Elem>(v: &[T]) -> Rc<RefCell<Vec<T>>> {
        ozz_rc_buf(v.to_vec())
    }
    fn input<T: Elem>(c: &Self::Cell<T>, _: &[T]) -> Self::In<T> {
        c.clone()
    }
    fn output<T: Elem>(c: &Self::Cell<T>, _: &[T]) -> Self::Out<T> {
        c.clone()
    }
    fn write<T: Elem>(c: &Self::Cell<T>, v: &[T]) {
        let mut b = c.borrow_mut();
        b.clear();
        b.extend_from_slice(v);
    }
    fn read<T: Elem>(c: &Self::Cell<T>) -> Option<Vec<T>> {
        Some(c.borrow().clone())
    }
    fn ctx(c: SamplingContext) -> SamplingContext {
        c
    }
    fn busy<T: Elem>(c: &Self::Cell<T>) -> bool {
        c.try_borrow_mut().is_err()
    }
}

// shared between threads

pub struct Locked;

impl Style for Locked {
    const NAME: &'static str = "shared between threads";
    const SHARED: bool = true;
    type Obj<T: Debug + 'static> = Arc<T>;
    type In<T: Elem> = Arc<RwLock<Vec<T>>>;
    type Out<T: Elem> = Arc<RwLock<Vec<T>>>;
    type Ctx = SamplingContext;
    type Cell<T: Elem> = Arc<RwLock<Vec<T>>>;
    fn obj<T: Debug + 'static>(a: &Asset<T>) -> Arc<T> {
        a.arc.clone()
    }
    fn cell<T: Elem>(v: &[T]) -> Arc<RwLock<Vec<T>>> {
        ozz_arc_buf(v.to_vec())
    }
    fn input<T: Elem>(c: &Self::Cell<T>, _: &[T]) -> Self::In<T> {
        c.clone()
    }
    fn output<T: Elem>(c: &Self::Cell<T>, _: &[T]) -> Self::Out<T> {
        c.clone()
    }
    fn write<T: Elem>(c: &Self::Cell<T>, v: &[T]) {
        let mut b = c.write().unwrap_or_else(|e| e.into_inner());
        b.clear();
        b.extend_from_slice(v);
    }
    fn read<T: Elem>(c: &Self::Cell<T>) -> Option<Vec<T>> {
        Some(c.read().unwrap_or_else(|e| e.into_inner()).clone())
    }
    fn ctx(c: SamplingContext) -> SamplingContext {
        c
    }
    fn poison<T: Elem>(c: &Self::Cell<T>) -> bool {
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            let _g = c.write().unwrap_or_else(|e| e.into_inner());
            panic!("the holder of a buffer panics");
        }));
        crate::take_panic();
        r.is_err() && c.is_poisoned()
    }
    fn heal<T: Elem>(c: &Self::Cell<T>) {
        c.clear_poison();
    }
    fn busy<T: Elem>(c: &Self::Cell<T>) -> bool {
        matches!(c.try_write(), Err(std::sync::TryLockError::WouldBlock))
    }
}

// user-defined

pub struct SimObj<T>(Arc<T>);

impl<T: Debug> OzzObj<T> for SimObj<T> {
    fn obj(&self) -> &T {
        &self.0
    }
}

struct SimInner<T> {
    v: UnsafeCell<Vec<T>>,
    readers: Cell<usize>,
    writers: Cell<usize>,
    broken: Cell<bool>,
}

/// A buffer with its own idea of locking, which counts its guards.
pub struct SimBuf<T>(Rc<SimInner<T>>);

pub struct SimRead<'t, T>(&'t SimInner<T>);
pub struct SimWrite<'t, T>(&'t SimInner<T>);

impl<T> Deref for SimRead<'_, T> {
    type Target = [T];
    fn deref(&self) -> &[T] {
        unsafe { &*self.0.v.get() }
    }
}
impl<T> Drop for SimRead<'_, T> {
    fn drop(&mut self) {
        self.0.readers.set(self.0.readers.get() - 1);
    }
}
impl<T> Deref for SimWrite<'_, T> {
    type Target = [T];
    fn deref(&self) -> &[T] {
        unsafe { &*self.0.v.get() }
    }
}
impl<T> DerefMut for SimWrite<'_, T> {
    fn deref_mut(&mut self) -> &mut [T] {
        unsafe { &mut *self.0.v.get() }
    }
}
impl<T> Drop for SimWrite<'_, T> {
    fn drop(&mut self) {
        self.0.writers.set(self.0.writers.get() - 1);
    }
}

impl<T: Elem> OzzBuf<T> for SimBuf<T> {
    type Buf<'t> = SimRead<'t, T>;
    fn buf(&self) -> Result<SimRead<'_, T>, OzzError> {
        if self.0.broken.get() {
            return Err(OzzError::LockPoison);
        }
        assert!(self.0.writers.get() == 0, "read access while somebody writes");
        self.0.readers.set(self.0.readers.get() + 1);
        Ok(SimRead(&self.0))
    }
}

impl<T: Elem> OzzMutBuf<T> for SimBuf<T> {
    type MutBuf<'t> = SimWrite<'t, T>;
    fn mut_buf(&mut self) -> Result<SimWrite<'_, T>, OzzError> {
        if self.0.broken.get() {
            return Err(OzzError::LockPoison);
        }
        assert!(self.0.writers.get() == 0 && self.0.readers.get() == 0, "write access while somebody holds the buffer");
        self.0.writers.set(1);
        Ok(SimWrite(&self.0))
    }
}

pub struct User;

impl Style for User {
    const NAME: &'static str = "user-defined";
    const SHARED: bool = true;
    type Obj<T: Debug + 'static> = SimObj<T>;
    type In<T: Elem> = SimBuf<T>;
    type Out<T: Elem> = SimBuf<T>;
    type Ctx = UserCtx;
    type Cell<T: Elem> = SimBuf<T>;
    fn obj<T: Debug + 'static>(a: &Asset<T>) -> SimObj<T> {
        SimObj(a.arc.clone())
    }
    fn cell<T: Elem>(v: &[T]) -> SimBuf<T> {
        SimBuf(Rc::new(SimInner {
            v: UnsafeCell::new(v.to_vec()),
            readers: Cell::new(0),
            writers: Cell::new(0),
            broken: Cell::new(false),
        }))
    }
    fn input<T: Elem>(c: &Self::Cell<T>, _: &[T]) -> Self::In<T> {
        SimBuf(c.0.clone())
    }
    fn output<T: Elem>(c: &Self::Cell<T>, _: &[T]) -> Self::Out<T> {
        SimBuf(c.0.clone())
    }
    fn write<T: Elem>(c: &Self::Cell<T>, v: &[T]) {
        let b = unsafe { &mut *c.0.v.get() };
        b.clear();
        b.extend_from_slice(v);
    }
    fn read<T: Elem>(c: &Self::Cell<T>) -> Option<Vec<T>> {
        Some(unsafe { (*c.0.v.get()).clone() })
    }
    fn ctx(c: SamplingContext) -> UserCtx {
        UserCtx(Box::new(c))
    }
    fn poison<T: Elem>(c: &Self::Cell<T>) -> bool {
        c.0.broken.set(true);
        true
    }
    fn heal<T: Elem>(c: &Self::Cell<T>) {
        c.0.broken.set(false);
    }
    fn busy<T: Elem>(c: &Self::Cell<T>) -> bool {
        c.0.readers.get() + c.0.writers.get() > 0
    }
}

pub struct UserCtx(Box<SamplingContext>);

impl AsSamplingContext for UserCtx {
    fn as_ref(&self) -> &SamplingContext {
        &self.0
    }
    fn as_mut(&mut self) -> &mut SamplingContext {
        &mut self.0
    }
}

// ---------------------------------------------------------------- what the jobs work on

pub struct Assets {
    pub anims: Vec<Asset<Animation>>,
    pub skels: Vec<Asset<Skeleton>>,
    pub floats: Vec<Asset<Track<f32>>>,
    pub v2: Asset<Track<Vec2>>,
    pub v3: Asset<Track<Vec3>>,
    pub v4: Asset<Track<Vec4>>,
    pub quat: Asset<Track<Quat>>,
    _lender: Lender,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct AssetSpec {
    pub anims: Vec<AnimSpec>,
    pub skels: Vec<SkelSpec>,
    /// Two float tracks, then one of each other kind.
    pub tracks: Vec<TrackSpec>,
}

pub const MAX_JOINTS: u32 = 40;

impl AssetSpec {
    pub fn gen(rng: &mut Rng) -> AssetSpec {
        let mut anims: Vec<AnimSpec> = (0..2).map(|_| AnimSpec::gen(rng, MAX_JOINTS)).collect();
        if rng.pm(300) {
            anims[1] = anims[0].twin_of(rng);
        }
        AssetSpec {
            anims,
            skels: (0..2).map(|_| SkelSpec::gen(rng, MAX_JOINTS)).collect(),
            tracks: [1u32, 1, 2, 3, 4, 5].iter().map(|&k| TrackSpec::gen(rng, k)).collect(),
        }
    }

    pub fn load(&self) -> Res<Assets> {
        self.load_as(0)
    }

    /// `how`: 0 and 1 from archives of both byte orders, otherwise also saved and restored in a format.
    pub fn load_as(&self, how: u32) -> Res<Assets> {
        let big = how % 2 == 1;
        // the bytes are made once
        fn via<T: Snap>(x: &T, how: u32) -> Vec<u8> {
            if how < 2 {
                return vec![];
            }
            save(x, how - 2).expect("an asset is saved")
        }
        fn back<T: Snap>(b: &[u8], how: u32) -> T {
            restore(b, how - 2, how).expect("a saved asset is restored")
        }
        crate::ensure!(
            self.anims.len() == 2 && self.skels.len() == 2 && self.tracks.len() == 6,
            crate::cx::BAD_PLAN,
            "assets are missing"
        );
        let mut anims = Vec::new();
        for s in &self.anims {
            let m = s.build();
            let b = via(&load_anim(&m, big)?, how);
            let a = m.bytes(big);
            let load = move || Animation::from_archive(&mut Archive::from_slice(&a).unwrap()).unwrap();
            anims.push(Asset::new(move || if how < 2 { load() } else { back(&b, how) }));
        }
        let mut skels = Vec::new();
        for s in &self.skels {
            let m = s.build();
            let b = via(&load_skel(&m, big)?, how);
            skels.push(Asset::new(move || if how < 2 { load_skel(&m, big).unwrap() } else { back(&b, how) }));
        }
        fn track<V: track::TrackValue + 'static>(s: &TrackSpec, kind: u32, how: u32) -> Res<Asset<Track<V>>>
        where
            Track<V>: Snap,
        {
            let big = how % 2 == 1;
            let mut s = s.clone();
            s.kind = kind;
            let m = s.build();
            let b = via(&load_track::<V>(&m, big)?, how);
            Ok(Asset::new(move || if how < 2 { load_track(&m, big).unwrap() } else { back(&b, how) }))
        }
        Ok(Assets {
            anims,
            skels,
            floats: vec![track(&self.tracks[0], 1, how)?, track(&self.tracks[1], 1, how)?],
            v2: track(&self.tracks[2], 2, how)?,
            v3: track(&self.tracks[3], 3, how)?,
            v4: track(&self.tracks[4], 4, how)?,
            quat: track(&self.tracks[5], 5, how)?,
            _lender: Lender,
        })
    }
}

/// Reference content of a buffer, and its version.
#[derive(Clone, Debug)]
pub struct Buf<T> {
    pub data: Vec<T>,
    pub ver: u32,
}

#[derive(Clone, Debug, Default)]
pub struct Bufs {
    pub poses: Vec<Buf<SoaTransform>>,
    pub mats: Vec<Buf<Mat4>>,
    pub vecs: Vec<Buf<Vec3>>,
    pub wts: Vec<Buf<f32>>,
    pub idx: Vec<Buf<u16>>,
}

/// The buffers as a style holds them.
pub struct Cells<S: Style> {
    pub poses: Vec<S::Cell<SoaTransform>>,
    pub mats: Vec<S::Cell<Mat4>>,
    pub vecs: Vec<S::Cell<Vec3>>,
    pub wts: Vec<S::Cell<f32>>,
    pub idx: Vec<S::Cell<u16>>,
}

pub fn soa_bits(v: &[SoaTransform]) -> Vec<u32> {
    fl(v).iter().map(|f| f.to_bits()).collect()
}
pub fn mat_bits(v: &[Mat4]) -> Vec<u32> {
    mats(v).iter().map(|f| f.to_bits()).collect()
}
pub fn vec_bits(v: &[Vec3]) -> Vec<u32> {
    vec3s(v).iter().map(|f| f.to_bits()).collect()
}

pub const POSES: usize = 7;
pub const MATS: usize = 4;
pub const VECS: usize = 8;
pub const WTS: usize = 2;
pub const IDX: usize = 2;

pub fn rand_pose(rng: &mut Rng, n: usize) -> Vec<SoaTransform> {
    (0..n).map(|_| soa_from(&crate::gen::rand_soa(rng, 0))).collect()
}

pub fn rand_mats(rng: &mut Rng, n: usize) -> Vec<Mat4> {
    (0..n).map(|_| crate::props::hierarchy::rand_mat(rng.u64() as u32)).collect()
}

pub fn rand_vecs(rng: &mut Rng, n: usize) -> Vec<Vec3> {
    (0..n).map(|_| Vec3::new(rng.f(-3.0, 3.0), rng.f(-3.0, 3.0), rng.f(-3.0, 3.0))).collect()
}

impl Bufs {
    /// `small`: per mille of buffers that may be too small.
    pub fn new(seed: u32, small: u32) -> Bufs {
        let mut rng = Rng::new(0xB0F5 ^ seed as u64);
        let rng = &mut rng;
        let mut b = Bufs::default();
        let len = |rng: &mut Rng, full: usize| {
            if rng.pm(small) {
                rng.usize(0, full)
            } else {
                full + if rng.pm(300) { rng.usize(0, 3) } else { 0 }
            }
        };
        for _ in 0..POSES {
            let n = len(rng, MAX_JOINTS as usize / 4);
            b.poses.push(Buf { data: rand_pose(rng, n), ver: 0 });
        }
        for _ in 0..MATS {
            let n = len(rng, MAX_JOINTS as usize);
            b.mats.push(Buf { data: rand_mats(rng, n), ver: 0 });
        }
        for _ in 0..VECS {
            let n = len(rng, 12);
            b.vecs.push(Buf { data: rand_vecs(rng, n), ver: 0 });
        }
        for _ in 0..WTS {
            let n = len(rng, 12 * 5);
            b.wts.push(Buf { data: (0..n).map(|_| rng.f(0.0, 0.3)).collect(), ver: 0 });
        }
        for _ in 0..IDX {
            let n = len(rng, 12 * 6);
            let limit = if small > 0 && rng.pm(20) { MAX_JOINTS as u64 + 3 } else { MAX_JOINTS as u64 };
            b.idx.push(Buf { data: (0..n).map(|_| rng.below(limit) as u16).collect(), ver: 0 });
        }
        b
    }

    pub fn cells<S: Style>(&self) -> Cells<S> {
        Cells {
            poses: self.poses.iter().map(|b| S::cell(&b.data)).collect(),
            mats: self.mats.iter().map(|b| S::cell(&b.data)).collect(),
            vecs: self.vecs.iter().map(|b| S::cell(&b.data)).collect(),
            wts: self.wts.iter().map(|b| S::cell(&b.data)).collect(),
            idx: self.idx.iter().map(|b| S::cell(&b.data)).collect(),
        }
    }

    /// New content for one buffer, of the same length.
    pub fn edit<S: Style>(&mut self, c: &Cells<S>, pool: u32, id: u32, seed: u32) {
        let mut rng = Rng::new(0xED17 ^ seed as u64);
        let rng = &mut rng;
        match pool % 5 {
            0 => {
                let i = id as usize % POSES;
                let n = self.poses[i].data.len();
                self.set_pose(c, i, rand_pose(rng, n));
            }
            1 => {
                let i = id as usize % MATS;
                let n = self.mats[i].data.len();
                self.set_mats(c, i, rand_mats(rng, n));
            }
            2 => {
                let i = id as usize % VECS;
                let n = self.vecs[i].data.len();
                self.set_vecs(c, i, rand_vecs(rng, n));
            }
            3 => {
                let i = id as usize % WTS;
                let n = self.wts[i].data.len();
                self.wts[i].data = (0..n).map(|_| rng.f(0.0, 0.3)).collect();
                self.wts[i].ver += 1;
                S::write(&c.wts[i], &self.wts[i].data);
            }
            _ => {
                let i = id as usize % IDX;
                let n = self.idx[i].data.len();
                self.idx[i].data = (0..n).map(|_| rng.below(MAX_JOINTS as u64) as u16).collect();
                self.idx[i].ver += 1;
                S::write(&c.idx[i], &self.idx[i].data);
            }
        }
    }
    pub fn set_pose<S: Style>(&mut self, c: &Cells<S>, i: usize, v: Vec<SoaTransform>) {
        self.poses[i].data = v;
        self.poses[i].ver += 1;
        S::write(&c.poses[i], &self.poses[i].data);
    }
    pub fn set_mats<S: Style>(&mut self, c: &Cells<S>, i: usize, v: Vec<Mat4>) {
        self.mats[i].data = v;
        self.mats[i].ver += 1;
        S::write(&c.mats[i], &self.mats[i].data);
    }
    pub fn set_vecs<S: Style>(&mut self, c: &Cells<S>, i: usize, v: Vec<Vec3>) {
        self.vecs[i].data = v;
        self.vecs[i].ver += 1;
        S::write(&c.vecs[i], &self.vecs[i].data);
    }

    /// The name of a buffer whose real content is not the reference content.
    pub fn changed<S: Style>(&self, c: &Cells<S>) -> Option<String> {
        for (i, b) in self.poses.iter().enumerate() {
            if S::read(&c.poses[i]).is_some_and(|v| soa_bits(&v) != soa_bits(&b.data)) {
                return Some(format!("pose buffer {i}"));
            }
        }
        for (i, b) in self.mats.iter().enumerate() {
            if S::read(&c.mats[i]).is_some_and(|v| mat_bits(&v) != mat_bits(&b.data)) {
                return Some(format!("matrix buffer {i}"));
            }
        }
        for (i, b) in self.vecs.iter().enumerate() {
            if S::read(&c.vecs[i]).is_some_and(|v| vec_bits(&v) != vec_bits(&b.data)) {
                return Some(format!("vertex buffer {i}"));
            }
        }
        for (i, b) in self.wts.iter().enumerate() {
            if S::read(&c.wts[i]).is_some_and(|v| v != b.data) {
                return Some(format!("weight buffer {i}"));
            }
        }
        for (i, b) in self.idx.iter().enumerate() {
            if S::read(&c.idx[i]).is_some_and(|v| v != b.data) {
                return Some(format!("index buffer {i}"));
            }
        }
        None
    }

    pub fn busy<S: Style>(&self, c: &Cells<S>) -> bool {
        c.poses.iter().any(|x| S::busy(x))
            || c.mats.iter().any(|x| S::busy(x))
            || c.vecs.iter().any(|x| S::busy(x))
            || c.wts.iter().any(|x| S::busy(x))
            || c.idx.iter().any(|x| S::busy(x))
    }
}

// ---------------------------------------------------------------- settings

#[derive(Clone, Debug, PartialEq)]
pub struct L {
    pub buf: usize,
    pub weight: f32,
    /// Seed and length of a joint mask.
    pub mask: Option<(u32, usize)>,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Sampling {
    pub anim: Option<usize>,
    /// Room for so many tracks; another second number is another context.
    pub ctx: Option<(usize, u32)>,
    pub ratio: f32,
    pub out: Option<usize>,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Blending {
    pub skel: Option<usize>,
    /// Soa joints; another second number is another context.
    pub ctx: Option<(usize, u32)>,
    pub threshold: f32,
    pub layers: Vec<L>,
    pub additive: Vec<L>,
    pub out: Option<usize>,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Model {
    pub skel: Option<usize>,
    pub input: Option<usize>,
    pub out: Option<usize>,
    pub root: u32,
    pub from: i32,
    pub to: i32,
    pub excluded: bool,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Skinning {
    pub count: usize,
    pub infl: usize,
    pub mats: Option<usize>,
    pub it: Option<usize>,
    pub idx: Option<usize>,
    pub wts: Option<usize>,
    pub ins: [Option<usize>; 3],
    pub outs: [Option<usize>; 3],
}

#[derive(Clone, Debug, PartialEq)]
pub struct Aim {
    pub v: [Vec3A; 5],
    pub twist: f32,
    pub weight: f32,
    pub joint: u32,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Two {
    pub v: [Vec3A; 3],
    pub twist: f32,
    pub soften: f32,
    pub weight: f32,
    pub joints: [u32; 3],
}

#[derive(Clone, Debug, PartialEq)]
pub struct Motion {
    pub layers: Vec<(f32, [f32; 7])>,
}

#[derive(Clone, Debug, PartialEq)]
pub struct TrackS {
    pub track: Option<usize>,
    pub ratio: f32,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Trig {
    pub track: Option<usize>,
    pub from: f32,
    pub to: f32,
    pub threshold: f32,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Cfg {
    Sampling(Sampling),
    Blending(Blending),
    Model(Model),
    Skinning(Skinning),
    Aim(Aim),
    Two(Two),
    Motion(Motion),
    TrackF(TrackS),
    TrackV2(TrackS),
    TrackV3(TrackS),
    TrackV4(TrackS),
    TrackQ(TrackS),
    Trig(Trig),
}

pub const KINDS: u32 = 13;

fn v3(rng: &mut Rng) -> Vec3A {
    Vec3A::new(rng.f(-2.0, 2.0), rng.f(-2.0, 2.0), rng.f(-2.0, 2.0))
}

fn unit(rng: &mut Rng) -> Vec3A {
    match rng.below(4) {
        0 => Vec3A::X,
        1 => Vec3A::Y,
        2 => Vec3A::NEG_Z,
        _ => {
            let v = v3(rng);
            if v.length() < 0.1 {
                Vec3A::Z
            } else {
                v.normalize()
            }
        }
    }
}

fn weight(rng: &mut Rng) -> f32 {
    match rng.below(6) {
        0 => *rng.pick(&[0.0, 0.0, -0.0, 1e-40]),
        1 => 1.0,
        2 => -0.5,
        3 => rng.f(0.0, 0.1),
        _ => rng.f(0.0, 1.5),
    }
}

fn ratio(rng: &mut Rng) -> f32 {
    match rng.below(8) {
        0 => *rng.pick(&[0.0, 0.0, -0.0, 1e-40]),
        1 => 1.0,
        2 => rng.f(-1.0, 2.0),
        _ => rng.f(0.0, 1.0),
    }
}

/// A buffer that none of the others is.
fn other(rng: &mut Rng, n: usize, used: &[Option<usize>]) -> Option<usize> {
    loop {
        let i = rng.usize(0, n - 1);
        if !used.contains(&Some(i)) {
            return Some(i);
        }
    }
}

fn layer(rng: &mut Rng, out: Option<usize>, valid: bool) -> L {
    L {
        buf: other(rng, POSES, &[out]).unwrap(),
        weight: weight(rng),
        mask: if rng.pm(350) {
            let n = MAX_JOINTS as usize / 4;
            let len = if !valid && rng.pm(80) { rng.usize(1, n) } else { n + rng.usize(0, 2) };
            Some((rng.u64() as u32 % 50, len))
        } else {
            None
        },
    }
}

fn motion(rng: &mut Rng) -> (f32, [f32; 7]) {
    let q = crate::gen::rand_quat(rng, 0, None);
    let z = rng.pm(100);
    let t = |rng: &mut Rng| if z { 0.0 } else { rng.f(-2.0, 2.0) };
    (weight(rng), [t(rng), t(rng), t(rng), q[0] as f32, q[1] as f32, q[2] as f32, q[3] as f32])
}

impl Cfg {
    pub fn name(&self) -> &'static str {
        match self {
            Cfg::Sampling(_) => "sampling",
            Cfg::Blending(_) => "blending",
            Cfg::Model(_) => "local-to-model",
            Cfg::Skinning(_) => "skinning",
            Cfg::Aim(_) => "aim IK",
            Cfg::Two(_) => "two-bone IK",
            Cfg::Motion(_) => "motion blending",
            Cfg::Trig(_) => "track triggering",
            _ => "track sampling",
        }
    }

    /// A complete job.
    pub fn new(kind: u32, seed: u32) -> Cfg {
        let mut rng = Rng::new(0xCF6 ^ (seed as u64) << 4);
        let rng = &mut rng;
        let ts = |rng: &mut Rng| TrackS { track: Some(0), ratio: ratio(rng) };
        let mut c = match kind % KINDS {
            0 => Cfg::Sampling(Sampling { anim: Some(0), ctx: Some((MAX_JOINTS as usize, 0)), ratio: ratio(rng), out: Some(0) }),
            1 => Cfg::Blending(Blending {
                skel: Some(0),
                ctx: Some((10, 0)),
                threshold: 0.1,
                layers: vec![],
                additive: vec![],
                out: Some(0),
            }),
            2 => Cfg::Model(Model { skel: Some(0), input: Some(1), out: Some(0), root: 0, from: -1, to: 1024, excluded: false }),
            3 => Cfg::Skinning(Skinning {
                count: 4,
                infl: 1,
                mats: Some(0),
                it: None,
                idx: Some(0),
                wts: None,
                ins: [Some(0), None, None],
                outs: [Some(1), None, None],
            }),
            4 => Cfg::Aim(Aim {
                v: [v3(rng), Vec3A::X, Vec3A::ZERO, Vec3A::Y, Vec3A::Y],
                twist: 0.0,
                weight: 1.0,
                joint: 0,
            }),
            5 => Cfg::Two(Two {
                v: [v3(rng), Vec3A::Z, Vec3A::Y],
                twist: 0.0,
                soften: 1.0,
                weight: 1.0,
                joints: [0, 1, 2],
            }),
            6 => Cfg::Motion(Motion { layers: vec![motion(rng)] }),
            7 => Cfg::TrackF(ts(rng)),
            8 => Cfg::TrackV2(ts(rng)),
            9 => Cfg::TrackV3(ts(rng)),
            10 => Cfg::TrackV4(ts(rng)),
            11 => Cfg::TrackQ(ts(rng)),
            _ => Cfg::Trig(Trig { track: Some(0), from: 0.0, to: rng.f(-1.5, 2.5), threshold: rng.f(-1.0, 1.0) }),
        };
        for _ in 0..rng.usize(0, 8) {
            c.change(rng, true);
        }
        c
    }

    /// Changes one setting. `valid`: the job stays complete.
    pub fn change(&mut self, rng: &mut Rng, valid: bool) {
        let gone = |rng: &mut Rng| !valid && rng.pm(120);
        match self {
            Cfg::Sampling(c) => match rng.below(8) {
                0 => c.anim = if gone(rng) { None } else { Some(rng.usize(0, 1)) },
                1 => {
                    c.ctx = if gone(rng) {
                        None
                    } else {
                        let n = if !valid && rng.pm(200) { rng.usize(0, 40) } else { *rng.pick(&[40usize, 44, 100]) };
                        Some((n, rng.u64() as u32 % 3))
                    }
                }
                2 => c.out = if gone(rng) { None } else { Some(rng.usize(0, POSES - 1)) },
                _ => c.ratio = ratio(rng),
            },
            Cfg::Blending(c) => match rng.below(12) {
                0 => c.skel = if gone(rng) { None } else { Some(rng.usize(0, 1)) },
                1 => c.ctx = if gone(rng) { None } else { Some((rng.usize(0, 12), rng.u64() as u32 % 3)) },
                2 => {
                    let used: Vec<_> = c.layers.iter().chain(&c.additive).map(|l| Some(l.buf)).collect();
                    c.out = if gone(rng) { None } else if used.len() < POSES { other(rng, POSES, &used) } else { c.out };
                }
                3 => c.threshold = if !valid && rng.pm(100) { *rng.pick(&[0.0f32, -1.0]) } else { rng.f(0.01, 1.5) },
                4 | 5 if c.layers.len() < 4 => {
                    let l = layer(rng, c.out, valid);
                    let at = rng.usize(0, c.layers.len());
                    c.layers.insert(at, l);
                }
                6 if c.additive.len() < 3 => {
                    let l = layer(rng, c.out, valid);
                    c.additive.push(l);
                }
                7 if !c.layers.is_empty() => {
                    let at = rng.usize(0, c.layers.len() - 1);
                    c.layers.remove(at);
                }
                8 if !c.additive.is_empty() => {
                    let at = rng.usize(0, c.additive.len() - 1);
                    c.additive.remove(at);
                }
                9 if !c.additive.is_empty() => {
                    let at = rng.usize(0, c.additive.len() - 1);
                    c.additive[at].weight = weight(rng);
                }
                _ if !c.layers.is_empty() => {
                    let at = rng.usize(0, c.layers.len() - 1);
                    match rng.below(3) {
                        0 => c.layers[at] = layer(rng, c.out, valid),
                        1 => c.layers[at].mask = layer(rng, c.out, valid).mask,
                        _ => c.layers[at].weight = weight(rng),
                    }
                }
                _ => {}
            },
            Cfg::Model(c) => match rng.below(8) {
                0 => c.skel = if gone(rng) { None } else { Some(rng.usize(0, 1)) },
                1 => c.input = if gone(rng) { None } else { Some(rng.usize(0, POSES - 1)) },
                2 => c.out = if gone(rng) { None } else { Some(rng.usize(0, MATS - 1)) },
                3 => c.root = rng.u64() as u32 % 20,
                4 => c.from = if rng.pm(400) { -1 } else { rng.range(-2, 45) as i32 },
                5 => c.to = if rng.pm(400) { 1024 } else { rng.range(-2, 45) as i32 },
                _ => c.excluded = !c.excluded,
            },
            Cfg::Skinning(c) => match rng.below(14) {
                0 | 1 => c.count = rng.usize(0, 12),
                2 | 3 => {
                    c.infl = if !valid && rng.pm(50) { 0 } else { rng.usize(1, 6) };
                    if c.infl > 1 && c.wts.is_none() && !gone(rng) {
                        c.wts = Some(rng.usize(0, WTS - 1));
                    }
                }
                4 => c.mats = if gone(rng) { None } else { other(rng, MATS, &[c.it]) },
                5 | 6 => c.it = if rng.pm(400) { None } else { other(rng, MATS, &[c.mats]) },
                7 => c.idx = if gone(rng) { None } else { Some(rng.usize(0, IDX - 1)) },
                8 => {
                    let none = if valid { c.infl <= 1 && rng.pm(500) } else { rng.pm(200) };
                    c.wts = if none { None } else { Some(rng.usize(0, WTS - 1)) }
                }
                9 => {
                    let used: Vec<_> = c.ins.iter().chain(&c.outs).copied().collect();
                    if gone(rng) {
                        c.ins[0] = None;
                    } else {
                        c.ins[0] = other(rng, VECS, &used);
                    }
                }
                10 => {
                    let used: Vec<_> = c.ins.iter().chain(&c.outs).copied().collect();
                    if gone(rng) {
                        c.outs[0] = None;
                    } else {
                        c.outs[0] = other(rng, VECS, &used);
                    }
                }
                // normals and tangents come and go with their outputs
                _ => {
                    let k = if rng.pm(600) { 1 } else { 2 };
                    let on = rng.pm(700);
                    let used: Vec<_> = c.ins.iter().chain(&c.outs).copied().collect();
                    if on {
                        let i = other(rng, VECS, &used);
                        let mut used = used;
                        used.push(i);
                        if k == 1 || c.ins[1].is_some() {
                            c.ins[k] = i;
                            c.outs[k] = other(rng, VECS, &used);
                        }
                        if gone(rng) {
                            c.outs[k] = None;
                        }
                    } else {
                        c.ins[k] = None;
                        if rng.pm(500) {
                            c.outs[k] = None;
                        }
                        if k == 1 {
                            c.ins[2] = None;
                        }
                    }
                }
            },
            Cfg::Aim(c) => match rng.below(9) {
                0 | 1 => c.v[0] = v3(rng),
                2 => c.v[1] = if !valid && rng.pm(150) { v3(rng) } else { unit(rng) },
                3 => c.v[2] = if rng.pm(400) { Vec3A::ZERO } else { v3(rng) },
                4 => c.v[3] = unit(rng),
                5 => c.v[4] = unit(rng),
                6 => c.twist = if rng.pm(300) { 0.0 } else { rng.f(-3.0, 3.0) },
                7 => c.weight = weight(rng),
                _ => c.joint = rng.u64() as u32 % 20,
            },
            Cfg::Two(c) => match rng.below(8) {
                0 | 1 => c.v[0] = v3(rng),
                2 => c.v[1] = if !valid && rng.pm(150) { v3(rng) } else { unit(rng) },
                3 => c.v[2] = unit(rng),
                4 => c.twist = if rng.pm(300) { 0.0 } else { rng.f(-3.0, 3.0) },
                5 => c.soften = rng.f(-0.2, 1.2),
                6 => c.weight = weight(rng),
                _ => {
                    let i = rng.usize(0, 2);
                    c.joints[i] = rng.u64() as u32 % 20;
                }
            },
            Cfg::Motion(c) => match rng.below(4) {
                0 if !c.layers.is_empty() => {
                    let at = rng.usize(0, c.layers.len() - 1);
                    c.layers.remove(at);
                }
                1 if !c.layers.is_empty() => {
                    let at = rng.usize(0, c.layers.len() - 1);
                    c.layers[at].0 = weight(rng);
                }
                _ if c.layers.len() < 5 => c.layers.push(motion(rng)),
                _ => {}
            },
            Cfg::TrackF(c) => {
                if rng.pm(250) {
                    c.track = if gone(rng) { None } else { Some(rng.usize(0, 1)) }
                } else {
                    c.ratio = ratio(rng)
                }
            }
            Cfg::TrackV2(c) | Cfg::TrackV3(c) | Cfg::TrackV4(c) | Cfg::TrackQ(c) => {
                if rng.pm(250) {
                    c.track = if gone(rng) { None } else { Some(0) }
                } else {
                    c.ratio = ratio(rng)
                }
            }
            Cfg::Trig(c) => match rng.below(5) {
                0 => c.track = if gone(rng) { None } else { Some(rng.usize(0, 1)) },
                1 => c.from = rng.f(-2.0, 3.0),
                2 => c.to = rng.f(-2.0, 3.0),
                3 => {
                    c.from = c.to;
                    c.to += rng.f(-0.5, 0.5);
                }
                _ => c.threshold = rng.f(-1.0, 1.0),
            },
        }
    }

    /// Buffers that a run reads or writes: (pool, index).
    pub fn needs(&self) -> Vec<(u32, usize)> {
        let mut v = Vec::new();
        match self {
            Cfg::Sampling(c) => v.extend(c.out.map(|i| (0, i))),
            Cfg::Blending(c) => {
                v.extend(c.out.map(|i| (0, i)));
                v.extend(c.layers.iter().chain(&c.additive).map(|l| (0, l.buf)));
            }
            Cfg::Model(c) => {
                v.extend(c.input.map(|i| (0, i)));
                v.extend(c.out.map(|i| (1, i)));
            }
            Cfg::Skinning(c) => {
                v.extend(c.mats.map(|i| (1, i)));
                v.extend(c.idx.map(|i| (4, i)));
                if c.infl > 1 {
                    v.extend(c.wts.map(|i| (3, i)));
                }
                v.extend(c.ins[0].map(|i| (2, i)));
                v.extend(c.outs[0].map(|i| (2, i)));
                if c.ins[1].is_some() {
                    v.extend(c.it.map(|i| (1, i)));
                    v.extend(c.ins[1].map(|i| (2, i)));
                    v.extend(c.outs[1].map(|i| (2, i)));
                    if c.ins[2].is_some() {
                        v.extend(c.ins[2].map(|i| (2, i)));
                        v.extend(c.outs[2].map(|i| (2, i)));
                    }
                }
            }
            _ => {}
        }
        v
    }

    /// Buffers the job writes.
    pub fn writes(&self) -> Vec<(u32, usize)> {
        let mut v = Vec::new();
        match self {
            Cfg::Sampling(c) => v.extend(c.out.map(|i| (0, i))),
            Cfg::Blending(c) => v.extend(c.out.map(|i| (0, i))),
            Cfg::Model(c) => v.extend(c.out.map(|i| (1, i))),
            Cfg::Skinning(c) => {
                v.extend(c.outs[0].map(|i| (2, i)));
                if c.ins[1].is_some() {
                    v.extend(c.outs[1].map(|i| (2, i)));
                    if c.ins[2].is_some() {
                        v.extend(c.outs[2].map(|i| (2, i)));
                    }
                }
            }
            _ => {}
        }
        v
    }
}

// ---------------------------------------------------------------- job objects

type SJob<S> = SamplingJob<<S as Style>::Obj<Animation>, <S as Style>::Out<SoaTransform>, <S as Style>::Ctx>;
type BJob<S> = BlendingJob<<S as Style>::Obj<Skeleton>, <S as Style>::In<SoaTransform>, <S as Style>::Out<SoaTransform>>;
type MJob<S> = LocalToModelJob<<S as Style>::Obj<Skeleton>, <S as Style>::In<SoaTransform>, <S as Style>::Out<Mat4>>;
type KJob<S> = SkinningJob<
    <S as Style>::In<Mat4>,
    <S as Style>::In<u16>,
    <S as Style>::In<f32>,
    <S as Style>::In<Vec3>,
    <S as Style>::Out<Vec3>,
>;
type TJob<S, V> = TrackSamplingJob<V, <S as Style>::Obj<Track<V>>>;

enum Obj<S: Style> {
    Sampling(SJob<S>),
    Blending(BJob<S>),
    Model(MJob<S>),
    Skinning(KJob<S>),
    Aim(IKAimJob),
    Two(IKTwoBoneJob),
    Motion(MotionBlendingJob),
    TrackF(TJob<S, f32>),
    TrackV2(TJob<S, Vec2>),
    TrackV3(TJob<S, Vec3>),
    TrackV4(TJob<S, Vec4>),
    TrackQ(TJob<S, Quat>),
    Trig(TrackTriggeringJob<S::Obj<Track<f32>>>, Vec<u32>),
}

pub struct Job<S: Style> {
    obj: Obj<S>,
    cfg: Option<Cfg>,
    /// Versions of the buffer contents that the job holds, by place.
    held: Vec<(u32, usize, u32)>,
    /// Contexts taken out of the job.
    stash: Vec<((usize, u32), S::Ctx)>,
}

/// What is around a job.
pub struct Env<'a, S: Style> {
    pub assets: &'a Assets,
    pub bufs: &'a Bufs,
    pub cells: &'a Cells<S>,
}

impl<S: Style> Clone for Env<'_, S> {
    fn clone(&self) -> Self {
        *self
    }
}
impl<S: Style> Copy for Env<'_, S> {}

macro_rules! field {
    ($j:expr, $old:expr, $new:expr, $f:ident, $set:ident, $clear:ident, $mk:expr) => {
        if $old.map(|o| o.$f) != Some($new.$f) {
            match $new.$f {
                Some(i) => $j.$set($mk(i)),
                None => $j.$clear(),
            }
        }
    };
}

impl<S: Style> Job<S> {
    pub fn new(kind: &Cfg) -> Job<S> {
        let obj = match kind {
            Cfg::Sampling(_) => Obj::Sampling(SamplingJob::default()),
            Cfg::Blending(_) => Obj::Blending(BlendingJob::default()),
            Cfg::Model(_) => Obj::Model(LocalToModelJob::default()),
            Cfg::Skinning(_) => Obj::Skinning(SkinningJob::default()),
            Cfg::Aim(_) => Obj::Aim(IKAimJob::default()),
            Cfg::Two(_) => Obj::Two(IKTwoBoneJob::default()),
            Cfg::Motion(_) => Obj::Motion(MotionBlendingJob::default()),
            Cfg::TrackF(_) => Obj::TrackF(TrackSamplingJob::default()),
            Cfg::TrackV2(_) => Obj::TrackV2(TrackSamplingJob::default()),
            Cfg::TrackV3(_) => Obj::TrackV3(TrackSamplingJob::default()),
            Cfg::TrackV4(_) => Obj::TrackV4(TrackSamplingJob::default()),
            Cfg::TrackQ(_) => Obj::TrackQ(TrackSamplingJob::default()),
            Cfg::Trig(_) => Obj::Trig(TrackTriggeringJob::default(), vec![]),
        };
        Job { obj, cfg: None, held: vec![], stash: vec![] }
    }

    /// Whether the place has to be given the buffer (again).
    fn stale(&mut self, place: u32, id: usize, ver: u32) -> bool {
        for h in &mut self.held {
            if h.0 == place {
                let same = h.1 == id && (S::SHARED || h.2 == ver);
                h.1 = id;
                h.2 = ver;
                return !same;
            }
        }
        self.held.push((place, id, ver));
        true
    }
    fn unheld(&mut self, place: u32) -> bool {
        let n = self.held.len();
        self.held.retain(|h| h.0 != place);
        n != self.held.len()
    }
    /// The job gets its buffers again (they were replaced).
    pub fn forget(&mut self) {
        for h in &mut self.held {
            h.1 = usize::MAX;
        }
    }

    /// Brings the job to the settings, through as few setters as possible.
    pub fn apply(&mut self, new: &Cfg, e: Env<S>) {
        let old = self.cfg.take();
        // the borrow checker: decide about buffers before borrowing the job object
        let mut stale = Vec::new();
        let mut want: Vec<(u32, u32, Option<usize>)> = Vec::new();
        match new {
            Cfg::Sampling(c) => want.push((0, 0, c.out)),
            Cfg::Blending(c) => {
                want.push((0, 0, c.out));
                for (i, l) in c.layers.iter().enumerate() {
                    want.push((100 + i as u32, 0, Some(l.buf)));
                }
                for (i, l) in c.additive.iter().enumerate() {
                    want.push((200 + i as u32, 0, Some(l.buf)));
                }
                for i in c.layers.len()..20 {
                    self.unheld(100 + i as u32);
                }
                for i in c.additive.len()..20 {
                    self.unheld(200 + i as u32);
                }
            }
            Cfg::Model(c) => {
                want.push((0, 1, c.out));
                want.push((1, 0, c.input));
            }
            Cfg::Skinning(c) => {
                for k in 0..3 {
                    want.push((k, 2, c.outs[k as usize]));
                    want.push((3 + k, 2, c.ins[k as usize]));
                }
                want.push((6, 1, c.mats));
                want.push((7, 1, c.it));
                want.push((8, 4, c.idx));
                want.push((9, 3, c.wts));
            }
            _ => {}
        }
        for (place, pool, id) in want {
            let s = match id {
                Some(i) => {
                    let ver = match pool {
                        0 => e.bufs.poses[i].ver,
                        1 => e.bufs.mats[i].ver,
                        2 => e.bufs.vecs[i].ver,
                        3 => e.bufs.wts[i].ver,
                        _ => e.bufs.idx[i].ver,
                    };
                    self.stale(place, i, ver)
                }
                None => self.unheld(place),
            };
            if s {
                stale.push(place);
            }
        }
        let stale = |p: u32| stale.contains(&p);
        let pose_in = |i: usize| S::input(&e.cells.poses[i], &e.bufs.poses[i].data);
        let pose_out = |i: usize| S::output(&e.cells.poses[i], &e.bufs.poses[i].data);
        let vec_in = |i: usize| S::input(&e.cells.vecs[i], &e.bufs.vecs[i].data);
        let vec_out = |i: usize| S::output(&e.cells.vecs[i], &e.bufs.vecs[i].data);
        let mat_in = |i: usize| S::input(&e.cells.mats[i], &e.bufs.mats[i].data);
        match (&mut self.obj, new) {
            (Obj::Sampling(j), Cfg::Sampling(c)) => {
                let o = match &old {
                    Some(Cfg::Sampling(o)) => Some(o),
                    _ => None,
                };
                field!(j, o, c, anim, set_animation, clear_animation, |i: usize| S::obj(&e.assets.anims[i]));
                if o.map(|o| o.ctx) != Some(c.ctx) {
                    if let (Some(o), Some(x)) = (o.and_then(|o| o.ctx), j.take_context()) {
                        self.stash.push((o, x));
                    }
                    match c.ctx {
                        Some(k) => match self.stash.iter().position(|s| s.0 == k) {
                            Some(i) => j.set_context(self.stash.remove(i).1),
                            None => j.set_context(S::ctx(SamplingContext::new(k.0))),
                        },
                        None => j.clear_context(),
                    }
                }
                if o.map(|o| o.ratio.to_bits()) != Some(c.ratio.to_bits()) {
                    j.set_ratio(c.ratio);
                }
                if stale(0) {
                    match c.out {
                        Some(i) => j.set_output(pose_out(i)),
                        None => j.clear_output(),
                    }
                }
            }
            (Obj::Blending(j), Cfg::Blending(c)) => {
                let o = match &old {
                    Some(Cfg::Blending(o)) => Some(o),
                    _ => None,
                };
                field!(j, o, c, skel, set_skeleton, clear_skeleton, |i: usize| S::obj(&e.assets.skels[i]));
                if o.map(|o| o.ctx) != Some(c.ctx) {
                    match c.ctx {
                        Some(k) => j.set_context(BlendingContext::new(k.0)),
                        None => j.clear_context(),
                    }
                }
                if o.map(|o| o.threshold) != Some(c.threshold) {
                    j.set_threshold(c.threshold);
                }
                if stale(0) {
                    match c.out {
                        Some(i) => j.set_output(pose_out(i)),
                        None => j.clear_output(),
                    }
                }
                let none = vec![];
                fn layers<S: Style>(
                    j: &mut Vec<BlendingLayer<S::In<SoaTransform>>>,
                    o: &[L],
                    c: &[L],
                    stale: impl Fn(u32) -> bool,
                    pose: impl Fn(usize) -> S::In<SoaTransform>,
                ) {
                    j.truncate(c.len());
                    let m = |l: &L| l.mask.map_or(vec![], |(s, n)| mask(s, n));
                    for (i, l) in c.iter().enumerate() {
                        if i >= j.len() {
                            j.push(match l.mask {
                                None if l.weight.to_bits() == 0 => BlendingLayer::new(pose(l.buf)),
                                None => BlendingLayer::with_weight(pose(l.buf), l.weight),
                                Some(_) => BlendingLayer { transform: pose(l.buf), weight: l.weight, joint_weights: m(l) },
                            });
                            continue;
                        }
                        if stale(i as u32) {
                            j[i].transform = pose(l.buf);
                        }
                        if o.get(i).map(|o| o.weight) != Some(l.weight) {
                            j[i].weight = l.weight;
                        }
                        if o.get(i).map(|o| o.mask) != Some(l.mask) {
                            j[i].joint_weights = m(l);
                        }
                    }
                }
                layers::<S>(j.layers_mut(), o.map_or(&none, |o| &o.layers), &c.layers, |i| stale(100 + i), pose_in);
                layers::<S>(
                    j.additive_layers_mut(),
                    o.map_or(&none, |o| &o.additive),
                    &c.additive,
                    |i| stale(200 + i),
                    pose_in,
                );
            }
            (Obj::Model(j), Cfg::Model(c)) => {
                let o = match &old {
                    Some(Cfg::Model(o)) => Some(o),
                    _ => None,
                };
                field!(j, o, c, skel, set_skeleton, clear_skeleton, |i: usize| S::obj(&e.assets.skels[i]));
                if stale(1) {
                    match c.input {
                        Some(i) => j.set_input(pose_in(i)),
                        None => j.clear_input(),
                    }
                }
                if stale(0) {
                    match c.out {
                        Some(i) => j.set_output(S::output(&e.cells.mats[i], &e.bufs.mats[i].data)),
                        None => j.clear_output(),
                    }
                }
                if o.map(|o| o.root) != Some(c.root) {
                    j.set_root(&crate::props::hierarchy::rand_mat(c.root));
                }
                if o.map(|o| o.from) != Some(c.from) {
                    j.set_from(c.from);
                }
                if o.map(|o| o.to) != Some(c.to) {
                    j.set_to(c.to);
                }
                if o.map(|o| o.excluded) != Some(c.excluded) {
                    j.set_from_excluded(c.excluded);
                }
            }
            (Obj::Skinning(j), Cfg::Skinning(c)) => {
                let o = match &old {
                    Some(Cfg::Skinning(o)) => Some(o),
                    _ => None,
                };
                if o.map(|o| o.count) != Some(c.count) {
                    j.set_vertex_count(c.count);
                }
                if o.map(|o| o.infl) != Some(c.infl) {
                    j.set_influences_count(c.infl);
                }
                macro_rules! buf {
                    ($p:expr, $id:expr, $set:ident, $clear:ident, $mk:expr) => {
                        if stale($p) {
                            match $id {
                                Some(i) => j.$set($mk(i)),
                                None => j.$clear(),
                            }
                        }
                    };
                }
                buf!(0, c.outs[0], set_out_positions, clear_out_positions, vec_out);
                buf!(1, c.outs[1], set_out_normals, clear_out_normals, vec_out);
                buf!(2, c.outs[2], set_out_tangents, clear_out_tangents, vec_out);
                buf!(3, c.ins[0], set_in_positions, clear_in_positions, vec_in);
                buf!(4, c.ins[1], set_in_normals, clear_in_normals, vec_in);
                buf!(5, c.ins[2], set_in_tangents, clear_in_tangents, vec_in);
                buf!(6, c.mats, set_joint_matrices, clear_joint_matrices, mat_in);
                buf!(7, c.it, set_joint_it_matrices, clear_joint_it_matrices, mat_in);
                buf!(8, c.idx, set_joint_indices, clear_joint_indices, |i: usize| S::input(
                    &e.cells.idx[i],
                    &e.bufs.idx[i].data
                ));
                buf!(9, c.wts, set_joint_weights, clear_joint_weights, |i: usize| S::input(
                    &e.cells.wts[i],
                    &e.bufs.wts[i].data
                ));
            }
            (Obj::Aim(j), Cfg::Aim(c)) => {
                let o = match &old {
                    Some(Cfg::Aim(o)) => Some(o),
                    _ => None,
                };
                let ch = |k: usize| o.map(|o| o.v[k]) != Some(c.v[k]);
                if ch(0) {
                    j.set_target(c.v[0]);
                }
                if ch(1) {
                    j.set_forward(c.v[1]);
                }
                if ch(2) {
                    j.set_offset(c.v[2]);
                }
                if ch(3) {
                    j.set_up(c.v[3]);
                }
                if ch(4) {
                    j.set_pole_vector(c.v[4]);
                }
                if o.map(|o| o.twist) != Some(c.twist) {
                    j.set_twist_angle(c.twist);
                }
                if o.map(|o| o.weight) != Some(c.weight) {
                    j.set_weight(c.weight);
                }
                if o.map(|o| o.joint) != Some(c.joint) {
                    j.set_joint(ik_mat(c.joint, 0));
                }
            }
            (Obj::Two(j), Cfg::Two(c)) => {
                let o = match &old {
                    Some(Cfg::Two(o)) => Some(o),
                    _ => None,
                };
                let ch = |k: usize| o.map(|o| o.v[k]) != Some(c.v[k]);
                if ch(0) {
                    j.set_target(c.v[0]);
                }
                if ch(1) {
                    j.set_mid_axis(c.v[1]);
                }
                if ch(2) {
                    j.set_pole_vector(c.v[2]);
                }
                if o.map(|o| o.twist) != Some(c.twist) {
                    j.set_twist_angle(c.twist);
                }
                if o.map(|o| o.soften) != Some(c.soften) {
                    j.set_soften(c.soften);
                }
                if o.map(|o| o.weight) != Some(c.weight) {
                    j.set_weight(c.weight);
                }
                let ch = |k: usize| o.map(|o| o.joints[k]) != Some(c.joints[k]);
                if ch(0) {
                    j.set_start_joint(ik_mat(c.joints[0], 0));
                }
                if ch(1) {
                    j.set_mid_joint(ik_mat(c.joints[1], 1));
                }
                if ch(2) {
                    j.set_end_joint(ik_mat(c.joints[2], 2));
                }
            }
            (Obj::Motion(j), Cfg::Motion(c)) => {
                let mk = |l: &(f32, [f32; 7])| MotionBlendingLayer {
                    weight: l.0,
                    delta: Transform3A::new(
                        Vec3::new(l.1[0], l.1[1], l.1[2]),
                        Quat::from_xyzw(l.1[3], l.1[4], l.1[5], l.1[6]),
                        Vec3::ONE,
                    ),
                };
                let o = match &old {
                    Some(Cfg::Motion(o)) => &o.layers[..],
                    _ => &[],
                };
                j.layers_mut().truncate(c.layers.len());
                for (i, l) in c.layers.iter().enumerate() {
                    if i >= j.layers().len() {
                        j.layers_mut().push(mk(l));
                    } else if o.get(i).map(|o| o.1) != Some(l.1) {
                        j.layers_mut()[i] = mk(l);
                    } else {
                        j.layers_mut()[i].weight = l.0;
                    }
                }
            }
            (Obj::TrackF(j), Cfg::TrackF(c)) => track_apply::<S, f32>(j, old.as_ref(), c, |i| S::obj(&e.assets.floats[i])),
            (Obj::TrackV2(j), Cfg::TrackV2(c)) => track_apply::<S, Vec2>(j, old.as_ref(), c, |_| S::obj(&e.assets.v2)),
            (Obj::TrackV3(j), Cfg::TrackV3(c)) => track_apply::<S, Vec3>(j, old.as_ref(), c, |_| S::obj(&e.assets.v3)),
            (Obj::TrackV4(j), Cfg::TrackV4(c)) => track_apply::<S, Vec4>(j, old.as_ref(), c, |_| S::obj(&e.assets.v4)),
            (Obj::TrackQ(j), Cfg::TrackQ(c)) => track_apply::<S, Quat>(j, old.as_ref(), c, |_| S::obj(&e.assets.quat)),
            (Obj::Trig(j, _), Cfg::Trig(c)) => {
                let o = match &old {
                    Some(Cfg::Trig(o)) => Some(o),
                    _ => None,
                };
                field!(j, o, c, track, set_track, clear_track, |i: usize| S::obj(&e.assets.floats[i]));
                if o.map(|o| o.from) != Some(c.from) {
                    j.set_from(c.from);
                }
                if o.map(|o| o.to) != Some(c.to) {
                    j.set_to(c.to);
                }
                if o.map(|o| o.threshold) != Some(c.threshold) {
                    j.set_threshold(c.threshold);
                }
            }
            _ => unreachable!(),
        }
        self.cfg = Some(new.clone());
    }

    /// None where the job has no public validation.
    pub fn validate(&self) -> Option<bool> {
        Some(match &self.obj {
            Obj::Sampling(j) => j.validate(),
            Obj::Blending(j) => j.validate(),
            Obj::Model(j) => j.validate(),
            Obj::Skinning(j) => j.validate(),
            Obj::Aim(_) | Obj::Two(_) => return None,
            Obj::Motion(j) => j.validate(),
            Obj::TrackF(j) => j.validate(),
            Obj::TrackV2(j) => j.validate(),
            Obj::TrackV3(j) => j.validate(),
            Obj::TrackV4(j) => j.validate(),
            Obj::TrackQ(j) => j.validate(),
            Obj::Trig(j, _) => j.validate(),
        })
    }

    pub fn run(&mut self) -> Result<(), OzzError> {
        match &mut self.obj {
            Obj::Sampling(j) => j.run(),
            Obj::Blending(j) => j.run(),
            Obj::Model(j) => j.run(),
            Obj::Skinning(j) => j.run(),
            Obj::Aim(j) => j.run(),
            Obj::Two(j) => j.run(),
            Obj::Motion(j) => j.run(),
            Obj::TrackF(j) => j.run(),
            Obj::TrackV2(j) => j.run(),
            Obj::TrackV3(j) => j.run(),
            Obj::TrackV4(j) => j.run(),
            Obj::TrackQ(j) => j.run(),
            Obj::Trig(j, r) => {
                let it = j.run()?;
                r.clear();
                for e in it.take(20_000) {
                    let v = serde_json::to_value(&e).unwrap_or_default();
                    r.push(v["ratio"].as_f64().map_or(0, |x| (x as f32).to_bits()));
                    r.push(v["rising"].as_bool().map_or(2, |b| b as u32));
                }
                Ok(())
            }
        }
    }

    /// Clears what the job object itself returns.
    pub fn clear_outs(&mut self) {
        match &mut self.obj {
            Obj::Aim(j) => j.clear_outs(),
            Obj::Two(j) => j.clear_outs(),
            Obj::Motion(j) => j.clear_output(),
            Obj::TrackF(j) => j.clear_outs(),
            Obj::TrackV2(j) => j.clear_outs(),
            Obj::TrackV3(j) => j.clear_outs(),
            Obj::TrackV4(j) => j.clear_outs(),
            Obj::TrackQ(j) => j.clear_outs(),
            _ => {}
        }
    }

    /// Results held by the job object itself.
    pub fn results(&self) -> Vec<u32> {
        fn b(v: &[f32]) -> Vec<u32> {
            v.iter().map(|f| f.to_bits()).collect()
        }
        match &self.obj {
            Obj::Aim(j) => {
                let mut v = b(&j.joint_correction().to_array());
                v.push(j.reached() as u32);
                v
            }
            Obj::Two(j) => {
                let mut v = b(&j.start_joint_correction().to_array());
                v.extend(b(&j.mid_joint_correction().to_array()));
                v.push(j.reached() as u32);
                v
            }
            Obj::Motion(j) => {
                let o = j.output();
                let mut v = b(&o.translation.to_array());
                v.extend(b(&o.rotation.to_array()));
                v.extend(b(&o.scale.to_array()));
                v
            }
            Obj::TrackF(j) => b(&[j.result()]),
            Obj::TrackV2(j) => b(&j.result().to_array()),
            Obj::TrackV3(j) => b(&j.result().to_array()),
            Obj::TrackV4(j) => b(&j.result().to_array()),
            Obj::TrackQ(j) => b(&j.result().to_array()),
            Obj::Trig(_, r) => r.clone(),
            _ => vec![],
        }
    }

    /// The buffers the job holds for writing, as it sees them; None if one can not be read.
    pub fn outputs(&self) -> Option<Outputs> {
        let mut o = Outputs::default();
        match (&self.obj, self.cfg.as_ref()) {
            (Obj::Sampling(j), Some(Cfg::Sampling(c))) => {
                if let (Some(b), Some(i)) = (j.output(), c.out) {
                    o.poses.push((i, b.buf().ok()?.to_vec()));
                }
            }
            (Obj::Blending(j), Some(Cfg::Blending(c))) => {
                if let (Some(b), Some(i)) = (j.output(), c.out) {
                    o.poses.push((i, b.buf().ok()?.to_vec()));
                }
            }
            (Obj::Model(j), Some(Cfg::Model(c))) => {
                if let (Some(b), Some(i)) = (j.output(), c.out) {
                    o.mats.push((i, b.buf().ok()?.to_vec()));
                }
            }
            (Obj::Skinning(j), Some(Cfg::Skinning(c))) => {
                for (k, b) in [j.out_positions(), j.out_normals(), j.out_tangents()].into_iter().enumerate() {
                    if let (Some(b), Some(i)) = (b, c.outs[k]) {
                        o.vecs.push((i, b.buf().ok()?.to_vec()));
                    }
                }
            }
            _ => {}
        }
        Some(o)
    }

    /// After a run of this job the reference content was brought in step with it.
    pub fn in_step(&mut self, bufs: &Bufs) {
        let kind = self.cfg.clone();
        for h in &mut self.held {
            match &kind {
                Some(Cfg::Sampling(_)) | Some(Cfg::Blending(_)) if h.0 == 0 => h.2 = bufs.poses[h.1].ver,
                Some(Cfg::Model(_)) if h.0 == 0 => h.2 = bufs.mats[h.1].ver,
                Some(Cfg::Skinning(_)) if h.0 < 3 => h.2 = bufs.vecs[h.1].ver,
                _ => {}
            }
        }
    }

    pub fn sampling_ctx(&self) -> Option<&SamplingContext> {
        match &self.obj {
            Obj::Sampling(j) => j.context().map(|c| c.as_ref()),
            _ => None,
        }
    }

    /// Another context in the place of the one the job has.
    pub fn put_ctx(&mut self, c: SamplingContext) {
        if let Obj::Sampling(j) = &mut self.obj {
            j.set_context(S::ctx(c));
        }
    }

    pub fn context(&self) -> Vec<u64> {
        match &self.obj {
            Obj::Sampling(j) => j.context().map_or(vec![], |c| ctx_words(c.as_ref())),
            _ => vec![],
        }
    }
}

fn track_apply<S: Style, V: track::TrackValue + Debug + 'static>(
    j: &mut TJob<S, V>,
    old: Option<&Cfg>,
    c: &TrackS,
    mk: impl Fn(usize) -> S::Obj<Track<V>>,
) {
    let o = match old {
        Some(Cfg::TrackF(o) | Cfg::TrackV2(o) | Cfg::TrackV3(o) | Cfg::TrackV4(o) | Cfg::TrackQ(o)) => Some(o),
        _ => None,
    };
    field!(j, o, c, track, set_track, clear_track, mk);
    if o.map(|o| o.ratio) != Some(c.ratio) {
        j.set_ratio(c.ratio);
    }
}

/// A matrix for IK joints, shifted so that a chain has extent.
pub fn ik_mat(seed: u32, shift: u32) -> Mat4 {
    let m = crate::props::hierarchy::rand_mat(seed);
    Mat4::from_translation(Vec3::new(shift as f32 * 1.1, shift as f32 * 0.4, 0.0)) * m
}

#[derive(Default, Clone)]
pub struct Outputs {
    pub poses: Vec<(usize, Vec<SoaTransform>)>,
    pub mats: Vec<(usize, Vec<Mat4>)>,
    pub vecs: Vec<(usize, Vec<Vec3>)>,
}

impl Outputs {
    pub fn words(&self) -> Vec<u32> {
        let mut w = Vec::new();
        for (_, v) in &self.poses {
            w.push(v.len() as u32);
            w.extend(soa_bits(v));
        }
        for (_, v) in &self.mats {
            w.push(v.len() as u32);
            w.extend(mat_bits(v));
        }
        for (_, v) in &self.vecs {
            w.push(v.len() as u32);
            w.extend(vec_bits(v));
        }
        w
    }
    /// Takes the content over into the reference.
    pub fn store(self, bufs: &mut Bufs) {
        for (i, v) in self.poses {
            bufs.poses[i].data = v;
            bufs.poses[i].ver += 1;
        }
        for (i, v) in self.mats {
            bufs.mats[i].data = v;
            bufs.mats[i].ver += 1;
        }
        for (i, v) in self.vecs {
            bufs.vecs[i].data = v;
            bufs.vecs[i].ver += 1;
        }
    }
}

/// What a new job with these settings does: result, results of the object, buffers written.
pub fn fresh(cfg: &Cfg, assets: &Assets, bufs: &Bufs) -> (Result<(), OzzError>, Vec<u32>, Outputs) {
    let cells = bufs.cells::<Owned>();
    let mut j = Job::<Owned>::new(cfg);
    j.apply(cfg, Env { assets, bufs, cells: &cells });
    let r = j.run();
    (r, j.results(), j.outputs().unwrap_or_default())
}

/// Error as a comparable number.
pub fn code(r: &Result<(), OzzError>) -> u32 {
    match r {
        Ok(()) => 0,
        Err(OzzError::InvalidJob) => 1,
        Err(OzzError::LockPoison) => 2,
        Err(OzzError::InvalidIndex) => 3,
        Err(_) => 9,
    }
}

#[allow(dead_code)]
pub type Tracks = AnyTrack;
