//! Seeded scheduling of real threads: one thread runs at a time and hands over only at seams (taking,
//! using and giving back a buffer, reaching for a shared asset, starting and ending a step). The locks
//! are the repository's own; a model of them decides who may go on, so that waiting is a decision of
//! the schedule and a deadlock is an observation. A part of the waiting is done in the real lock.

use crate::cx::Violation;
use crate::rig::{Asset, Elem, Style};
use ozz_animation_rs::*;
use std::cell::Cell;
use std::fmt::Debug;
use std::ops::{Deref, DerefMut};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::sync::{Arc, Mutex, MutexGuard, OnceLock, RwLock};

pub const MAX_THREADS: usize = 6;
const NOBODY: usize = usize::MAX;
const CONTROL: usize = MAX_THREADS;
const STEP_LIMIT: u64 = 200_000;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Mode {
    Read,
    Write,
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Status {
    Ready,
    /// Waits in the model for a lock.
    Want(usize, Mode),
    /// Waits inside the real lock.
    Inside(usize, Mode),
    /// Waits for something the simulator does not know.
    Foreign,
    Done,
}

#[derive(Default)]
struct Lock {
    writer: Option<usize>,
    readers: Vec<usize>,
    /// Contents, oldest first, as bytes.
    versions: Vec<Arc<Vec<u8>>>,
    poisoned: bool,
}

/// One access of a buffer by a run.
#[derive(Clone, Debug)]
pub struct Access {
    pub buf: usize,
    pub mode: Mode,
    pub refused: bool,
    pub before: usize,
    pub after: usize,
}

pub struct State {
    status: Vec<Status>,
    locks: Vec<Lock>,
    sched: Vec<(u32, u32)>,
    at: usize,
    left: u32,
    writers_first: bool,
    real: u32,
    acquires: u64,
    pub events: Vec<(u8, u32, u32)>,
    pub steps: u64,
    pub switches: u64,
    pub contended: u64,
    pub real_waits: u64,
    pub preempted: u64,
    violation: Option<Violation>,
    acc: Vec<Vec<Access>>,
    in_run: Vec<bool>,
}

static STATE: Mutex<Option<State>> = Mutex::new(None);
static TURN: AtomicUsize = AtomicUsize::new(NOBODY);
static ABORT: AtomicBool = AtomicBool::new(false);
/// The thread that has noticed its turn.
static ACTIVE: AtomicUsize = AtomicUsize::new(NOBODY);
static PROGRESS: AtomicU64 = AtomicU64::new(0);
/// A thread has come back from the real lock and waits for its turn.
static ARRIVED: [AtomicBool; MAX_THREADS] = [const { AtomicBool::new(false) }; MAX_THREADS];
static TIDS: [AtomicUsize; MAX_THREADS] = [const { AtomicUsize::new(0) }; MAX_THREADS];

thread_local!(static ME: Cell<usize> = const { Cell::new(NOBODY) });

/// Payload of the panic that ends a thread of an abandoned run.
struct Abandoned;

fn state() -> MutexGuard<'static, Option<State>> {
    STATE.lock().unwrap_or_else(|e| e.into_inner())
}

extern "C" {
    fn syscall(n: i64, ...) -> i64;
    fn open(path: *const u8, flags: i32, ...) -> i32;
    fn read(fd: i32, buf: *mut u8, n: usize) -> isize;
    fn close(fd: i32) -> i32;
}

fn gettid() -> usize {
    unsafe { syscall(186) as usize }
}

/// Whether the kernel says that the thread sleeps. Does not allocate.
fn sleeps(tid: usize) -> bool {
    let mut path = [0u8; 64];
    let mut n = 0;
    for c in b"/proc/self/task/" {
        path[n] = *c;
        n += 1;
    }
    let mut d = [0u8; 20];
    let mut k = 0;
    let mut t = tid;
    while t > 0 {
        d[k] = b'0' + (t % 10) as u8;
        t /= 10;
        k += 1;
    }
    while k > 0 {
        k -= 1;
        path[n] = d[k];
        n += 1;
    }
    for c in b"/stat\0" {
        path[n] = *c;
        n += 1;
    }
    let mut buf = [0u8; 256];
    let r = unsafe {
        let fd = open(path.as_ptr(), 0);
        if fd < 0 {
            return false;
        }
        let r = read(fd, buf.as_mut_ptr(), 255);
        close(fd);
        r
    };
    if r <= 0 {
        return false;
    }
    // "pid (name) S ..."
    match buf.iter().rposition(|&c| c == b')') {
        Some(p) => buf.get(p + 2) == Some(&b'S'),
        None => false,
    }
}

// ---------------------------------------------------------------- the schedule

impl State {
    fn grantable(&self, t: usize, b: usize, m: Mode) -> bool {
        let l = &self.locks[b];
        match m {
            Mode::Write => l.writer.is_none() && l.readers.is_empty(),
            Mode::Read => {
                if l.writer.is_some() {
                    return false;
                }
                let waiting = self.status.iter().enumerate().any(|(o, s)| match s {
                    Status::Inside(x, Mode::Write) => *x == b,
                    Status::Want(x, Mode::Write) => self.writers_first && *x == b && o != t,
                    _ => false,
                });
                !waiting
            }
        }
    }
    fn enabled(&self, t: usize) -> bool {
        match self.status[t] {
            Status::Ready => true,
            Status::Want(b, m) => self.grantable(t, b, m),
            _ => false,
        }
    }
    fn grant(&mut self, t: usize, b: usize, m: Mode) {
        match m {
            Mode::Read => self.locks[b].readers.push(t),
            Mode::Write => self.locks[b].writer = Some(t),
        }
    }
    /// Who goes on. None: nobody can.
    fn next(&mut self, me: usize) -> Option<usize> {
        let n = self.status.len();
        let mine = me < n && self.enabled(me);
        let t = if mine && self.left > 0 {
            self.left -= 1;
            me
        } else {
            let en: Vec<usize> = (0..n).filter(|&t| self.enabled(t)).collect();
            if en.is_empty() {
                return None;
            }
            if mine && self.left == 0 && self.at >= self.sched.len() {
                me
            } else {
                let t = match self.sched.get(self.at) {
                    Some(&(_, x)) => en[x as usize % en.len()],
                    None => *en.iter().find(|&&t| t > me).unwrap_or(&en[0]),
                };
                self.at += 1;
                self.left = self.sched.get(self.at).map_or(0, |s| s.0);
                t
            }
        };
        if t != me {
            self.switches += 1;
            if me < n && self.in_run[me] {
                self.preempted += 1;
            }
        }
        if let Status::Want(b, m) = self.status[t] {
            self.grant(t, b, m);
            self.status[t] = Status::Ready;
        }
        Some(t)
    }
    fn fail(&mut self, class: &str, detail: String) {
        if self.violation.is_none() {
            self.violation = Some(Violation { class: class.into(), detail });
        }
        ABORT.store(true, SeqCst);
    }
    fn event(&mut self, kind: u8, t: usize, x: usize) {
        self.events.push((kind, t as u32, x as u32));
    }
}

fn pass(to: usize) {
    TURN.store(to, SeqCst);
    POOL.wake(to);
}

fn wait_turn(me: usize) {
    let mut n = 0u32;
    while TURN.load(SeqCst) != me {
        n += 1;
        if n < 300 {
            std::hint::spin_loop();
        } else {
            std::thread::park();
        }
    }
    ACTIVE.store(me, SeqCst);
    PROGRESS.fetch_add(1, SeqCst);
}

fn abandoned(me: usize) -> bool {
    if ABORT.load(SeqCst) {
        if !std::thread::panicking() {
            std::panic::resume_unwind(Box::new(Abandoned));
        }
        let _ = me;
        return true;
    }
    false
}

/// Gives the turn to whoever the schedule names; returns when it is ours again.
fn switch(me: usize) {
    let mut g = state();
    let s = g.as_mut().unwrap();
    s.steps += 1;
    if s.steps > STEP_LIMIT {
        s.fail("no progress", format!("{STEP_LIMIT} steps and the jobs are still not done"));
    }
    let to = s.next(me).unwrap_or(CONTROL);
    drop(g);
    if to == me {
        PROGRESS.fetch_add(1, SeqCst);
        return;
    }
    pass(to);
    wait_turn(me);
}

/// A point at which another thread may go on.
pub fn seam(kind: u8, x: usize) {
    let me = ME.get();
    if me == NOBODY || abandoned(me) {
        return;
    }
    {
        let mut g = state();
        let s = g.as_mut().unwrap();
        if s.status[me] == Status::Foreign {
            // back from a wait the simulator did not know
            s.status[me] = Status::Ready;
            drop(g);
            wait_turn(me);
            if abandoned(me) {
                return;
            }
            g = state();
        }
        if let Some(s) = g.as_mut() {
            s.event(kind, me, x);
        }
    }
    switch(me);
    abandoned(me);
}

// ---------------------------------------------------------------- buffers

pub struct SBuf<T> {
    id: usize,
    real: Arc<RwLock<Vec<T>>>,
}

unsafe impl<T> Send for SBuf<T> {}
unsafe impl<T> Sync for SBuf<T> {}

type RealR<'t, T> = <Arc<RwLock<Vec<T>>> as OzzBuf<T>>::Buf<'t>;
type RealW<'t, T> = <Arc<RwLock<Vec<T>>> as OzzMutBuf<T>>::MutBuf<'t>;

pub struct GuardR<'t, T: Elem> {
    g: Option<RealR<'t, T>>,
    id: usize,
    uses: Cell<u32>,
}

pub struct GuardW<'t, T: Elem> {
    g: Option<RealW<'t, T>>,
    id: usize,
    uses: Cell<u32>,
}

fn bytes<T: Copy>(v: &[T]) -> &[u8] {
    unsafe { std::slice::from_raw_parts(v.as_ptr() as *const u8, std::mem::size_of_val(v)) }
}

pub fn from_bytes<T: Elem>(b: &[u8]) -> Vec<T> {
    let n = b.len() / std::mem::size_of::<T>();
    let mut v = vec![T::default(); n];
    unsafe {
        std::ptr::copy_nonoverlapping(b.as_ptr(), v.as_mut_ptr() as *mut u8, n * std::mem::size_of::<T>());
    }
    v
}

/// Waits until the lock may be taken. The turn is ours when this returns; what `f` returned is the result.
fn acquire<R>(id: usize, m: Mode, f: impl FnOnce() -> R) -> R {
    let me = ME.get();
    if me == NOBODY || ABORT.load(SeqCst) {
        if me != NOBODY {
            abandoned(me);
        }
        return f();
    }
    // somebody else may come first
    seam(if m == Mode::Read { 1 } else { 2 }, id);
    let mut g = state();
    let s = g.as_mut().unwrap();
    s.acquires += 1;
    let free = s.grantable(me, id, m);
    if free {
        s.grant(me, id, m);
        drop(g);
        return f();
    }
    s.contended += 1;
    let nobody_inside = !s.status.iter().any(|x| matches!(x, Status::Inside(b, _) if *b == id));
    let recursive = s.locks[id].readers.contains(&me) || s.locks[id].writer == Some(me);
    let inside = nobody_inside
        && !recursive
        && !s.locks[id].poisoned
        && (crate::rng::mix(s.real as u64, s.acquires) % 1000) < s.real as u64 % 1000
        // held in a way that the real lock can not pass either
        && (s.locks[id].writer.is_some() || m == Mode::Write);
    if !inside {
        s.event(3, me, id);
        s.status[me] = Status::Want(id, m);
        drop(g);
        switch(me);
        abandoned(me);
        return f();
    }
    s.event(4, me, id);
    s.real_waits += 1;
    s.status[me] = Status::Inside(id, m);
    ARRIVED[me].store(false, SeqCst);
    drop(g);
    pass(CONTROL);
    let r = f();
    ARRIVED[me].store(true, SeqCst);
    POOL.wake(CONTROL);
    wait_turn(me);
    abandoned(me);
    r
}

fn taken(id: usize, m: Mode, content: Option<&[u8]>) {
    let me = ME.get();
    if me == NOBODY {
        return;
    }
    let mut g = state();
    let s = g.as_mut().unwrap();
    let cur = s.locks[id].versions.len() - 1;
    match content {
        None => {
            let l = &mut s.locks[id];
            if !l.poisoned {
                s.fail("lock error", format!("buffer {} is not poisoned but could not be taken", name(id)));
            }
            s.acc[me].push(Access { buf: id, mode: m, refused: true, before: cur, after: cur });
            // the real lock was given back together with the error
            drop(g);
            given(id, m);
        }
        Some(c) => {
            if s.locks[id].poisoned {
                s.fail("poison ignored", format!("buffer {} is poisoned but was handed out", name(id)));
            }
            if c != &s.locks[id].versions[cur][..] {
                s.fail("changed without lock", format!("buffer {} changed while nobody held it for writing", name(id)));
            }
            s.acc[me].push(Access { buf: id, mode: m, refused: false, before: cur, after: cur });
        }
    }
}

/// The content at the end of a hold, before the lock is given back.
fn giving(id: usize, m: Mode, content: &[u8], panicking: bool) {
    let me = ME.get();
    if me == NOBODY {
        return;
    }
    let mut g = state();
    let s = g.as_mut().unwrap();
    let cur = s.locks[id].versions.len() - 1;
    let same = content == &s.locks[id].versions[cur][..];
    match m {
        Mode::Read => {
            if !same {
                s.fail("changed under a reader", format!("buffer {} changed while somebody read it", name(id)));
            }
        }
        Mode::Write => {
            if panicking {
                s.locks[id].poisoned = true;
            }
            if !same {
                s.locks[id].versions.push(Arc::new(content.to_vec()));
                let after = s.locks[id].versions.len() - 1;
                if let Some(a) = s.acc[me].iter_mut().rev().find(|a| a.buf == id && a.mode == Mode::Write) {
                    a.after = after;
                }
            }
        }
    }
}

/// The lock was given back.
fn given(id: usize, m: Mode) {
    let me = ME.get();
    if me == NOBODY {
        return;
    }
    let mut g = state();
    let s = g.as_mut().unwrap();
    let l = &mut s.locks[id];
    match m {
        Mode::Read => {
            if let Some(i) = l.readers.iter().position(|&t| t == me) {
                l.readers.swap_remove(i);
            }
        }
        Mode::Write => l.writer = None,
    }
    // a thread that waits inside the real lock comes first
    let mut who = None;
    for t in 0..s.status.len() {
        if let Status::Inside(b, mode) = s.status[t] {
            let l = &s.locks[b];
            if b == id && l.writer.is_none() && (mode == Mode::Read || l.readers.is_empty()) {
                who = Some((t, mode));
            }
        }
    }
    drop(g);
    if let Some((t, mode)) = who {
        let t0 = std::time::Instant::now();
        while !ARRIVED[t].load(SeqCst) && !ABORT.load(SeqCst) {
            std::thread::yield_now();
            if t0.elapsed().as_secs() > 10 {
                if let Some(s) = state().as_mut() {
                    s.fail("lost wake-up", format!("buffer {} is free but a thread waits for it", name(id)));
                }
                break;
            }
        }
        if let Some(s) = state().as_mut() {
            s.grant(t, id, mode);
            s.status[t] = Status::Ready;
        }
    }
    seam(5, id);
}

impl<T: Elem> Deref for GuardR<'_, T> {
    type Target = [T];
    fn deref(&self) -> &[T] {
        used(&self.uses, self.id);
        self.g.as_ref().unwrap()
    }
}
impl<T: Elem> Deref for GuardW<'_, T> {
    type Target = [T];
    fn deref(&self) -> &[T] {
        used(&self.uses, self.id);
        self.g.as_ref().unwrap()
    }
}
impl<T: Elem> DerefMut for GuardW<'_, T> {
    fn deref_mut(&mut self) -> &mut [T] {
        used(&self.uses, self.id);
        self.g.as_mut().unwrap()
    }
}

fn used(c: &Cell<u32>, id: usize) {
    let n = c.get();
    c.set(n + 1);
    if n < 4 || n % 8 == 0 {
        seam(6, id);
    }
}

impl<T: Elem> Drop for GuardR<'_, T> {
    fn drop(&mut self) {
        if let Some(g) = self.g.take() {
            giving(self.id, Mode::Read, bytes(&g), false);
            drop(g);
            given(self.id, Mode::Read);
        }
    }
}
impl<T: Elem> Drop for GuardW<'_, T> {
    fn drop(&mut self) {
        if let Some(g) = self.g.take() {
            giving(self.id, Mode::Write, bytes(&g), std::thread::panicking());
            drop(g);
            given(self.id, Mode::Write);
        }
    }
}

impl<T: Elem> OzzBuf<T> for SBuf<T> {
    type Buf<'t> = GuardR<'t, T>;
    fn buf(&self) -> Result<GuardR<'_, T>, OzzError> {
        let r = acquire(self.id, Mode::Read, || OzzBuf::buf(&self.real));
        match r {
            Ok(g) => {
                taken(self.id, Mode::Read, Some(bytes(&g)));
                Ok(GuardR { g: Some(g), id: self.id, uses: Cell::new(0) })
            }
            Err(e) => {
                taken(self.id, Mode::Read, None);
                Err(e)
            }
        }
    }
}

impl<T: Elem> OzzMutBuf<T> for SBuf<T> {
    type MutBuf<'t> = GuardW<'t, T>;
    fn mut_buf(&mut self) -> Result<GuardW<'_, T>, OzzError> {
        let id = self.id;
        let real = &mut self.real;
        let r = acquire(id, Mode::Write, || OzzMutBuf::mut_buf(real));
        match r {
            Ok(g) => {
                taken(id, Mode::Write, Some(bytes(&g)));
                Ok(GuardW { g: Some(g), id, uses: Cell::new(0) })
            }
            Err(e) => {
                taken(id, Mode::Write, None);
                Err(e)
            }
        }
    }
}

impl<T: Elem> SBuf<T> {
    pub fn share(&self) -> SBuf<T> {
        SBuf { id: self.id, real: self.real.clone() }
    }
    pub fn id(&self) -> usize {
        self.id
    }
    /// The user's own code changes the size, under the lock.
    pub fn resize(&mut self, n: usize) {
        let me = ME.get();
        let real = self.real.clone();
        let mut g = acquire(self.id, Mode::Write, || real.write().unwrap_or_else(|e| e.into_inner()));
        if me != NOBODY {
            g.resize(n, T::default());
            let c = bytes(&g[..]).to_vec();
            if let Some(s) = state().as_mut() {
                let l = &mut s.locks[self.id];
                if c[..] != l.versions[l.versions.len() - 1][..] {
                    l.versions.push(Arc::new(c));
                }
            }
        }
        drop(g);
        given(self.id, Mode::Write);
    }
    /// The poison is cleared by the user's code.
    pub fn heal(&self) {
        let real = self.real.clone();
        let g = acquire(self.id, Mode::Write, || real.write().unwrap_or_else(|e| e.into_inner()));
        self.real.clear_poison();
        if let Some(s) = state().as_mut() {
            s.locks[self.id].poisoned = false;
        }
        drop(g);
        given(self.id, Mode::Write);
    }
    /// Nobody holds the lock any more.
    pub fn free(&self) -> bool {
        !matches!(self.real.try_write(), Err(std::sync::TryLockError::WouldBlock))
    }
    pub fn content(&self) -> Vec<u8> {
        bytes(&self.real.read().unwrap_or_else(|e| e.into_inner())[..]).to_vec()
    }
}

// ---------------------------------------------------------------- the style

pub struct SObj<T>(Arc<T>);

impl<T: Debug> OzzObj<T> for SObj<T> {
    fn obj(&self) -> &T {
        seam(7, 0);
        &self.0
    }
}

thread_local!(static NEXT_ID: Cell<usize> = const { Cell::new(0) });

/// Numbers the buffers made from here on.
pub fn number_from(n: usize) {
    NEXT_ID.set(n);
}

pub struct Threaded;

impl Style for Threaded {
    const NAME: &'static str = "scheduled";
    const SHARED: bool = true;
    type Obj<T: Debug + 'static> = SObj<T>;
    type In<T: Elem> = SBuf<T>;
    type Out<T: Elem> = SBuf<T>;
    type Ctx = SamplingContext;
    type Cell<T: Elem> = SBuf<T>;
    fn obj<T: Debug + 'static>(a: &Asset<T>) -> SObj<T> {
        SObj(a.arc.clone())
    }
    fn cell<T: Elem>(v: &[T]) -> SBuf<T> {
        let id = NEXT_ID.get();
        NEXT_ID.set(id + 1);
        let b = SBuf { id, real: ozz_arc_buf(v.to_vec()) };
        if let Some(s) = state().as_mut() {
            while s.locks.len() <= id {
                s.locks.push(Lock::default());
            }
            s.locks[id].versions.push(Arc::new(bytes(v).to_vec()));
        }
        b
    }
    fn input<T: Elem>(c: &SBuf<T>, _: &[T]) -> SBuf<T> {
        c.share()
    }
    fn output<T: Elem>(c: &SBuf<T>, _: &[T]) -> SBuf<T> {
        c.share()
    }
    fn write<T: Elem>(_: &SBuf<T>, _: &[T]) {}
    fn read<T: Elem>(_: &SBuf<T>) -> Option<Vec<T>> {
        None
    }
    fn ctx(c: SamplingContext) -> SamplingContext {
        c
    }
}

pub fn name(id: usize) -> String {
    use crate::rig::*;
    let mut i = id;
    for (n, what) in [(POSES, "pose"), (MATS, "matrices"), (VECS, "vertices"), (WTS, "weights"), (IDX, "indices")] {
        if i < n {
            return format!("{what} {i}");
        }
        i -= n;
    }
    format!("{id}")
}

// ---------------------------------------------------------------- threads

type Work = Box<dyn FnOnce()>;
struct Sent(Work);
unsafe impl Send for Sent {}

struct Pool {
    threads: [OnceLock<std::thread::Thread>; MAX_THREADS],
    work: [Mutex<Option<Sent>>; MAX_THREADS],
    control: OnceLock<std::thread::Thread>,
}

static POOL: Pool = Pool {
    threads: [const { OnceLock::new() }; MAX_THREADS],
    work: [const { Mutex::new(None) }; MAX_THREADS],
    control: OnceLock::new(),
};

impl Pool {
    fn wake(&self, t: usize) {
        let h = if t == CONTROL { &self.control } else { &self.threads[t] };
        if let Some(h) = h.get() {
            h.unpark();
        }
    }
    fn start(&self) {
        self.control.get_or_init(std::thread::current);
        for (t, h) in self.threads.iter().enumerate() {
            h.get_or_init(|| {
                let h = std::thread::Builder::new().stack_size(1 << 20).spawn(move || body(t)).expect("thread");
                h.thread().clone()
            });
        }
        while TIDS.iter().any(|t| t.load(SeqCst) == 0) {
            std::thread::yield_now();
        }
    }
}

fn body(t: usize) {
    TIDS[t].store(gettid(), SeqCst);
    ME.set(t);
    loop {
        wait_turn(t);
        let w = POOL.work[t].lock().unwrap_or_else(|e| e.into_inner()).take();
        let Some(w) = w else {
            // not ours to run
            pass(CONTROL);
            while TURN.load(SeqCst) == t {
                std::thread::park();
            }
            continue;
        };
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(w.0));
        let mut g = state();
        let s = g.as_mut().unwrap();
        if let Err(p) = r {
            if !p.is::<Abandoned>() {
                let (loc, msg) = crate::take_panic();
                let file = loc.split(':').next().unwrap_or("").to_string();
                s.fail(&format!("panic in {file}"), format!("a thread panicked at {loc}: {msg}"));
            }
        }
        let mine = s.status[t] != Status::Foreign;
        s.status[t] = Status::Done;
        s.event(8, t, 0);
        if !mine {
            continue;
        }
        let to = if ABORT.load(SeqCst) { CONTROL } else { s.next(t).unwrap_or(CONTROL) };
        drop(g);
        pass(to);
    }
}

pub struct Setup {
    pub sched: Vec<(u32, u32)>,
    pub writers_first: bool,
    pub real: u32,
}

/// Makes the world; buffers created from now on belong to it.
pub fn begin(c: Setup) {
    POOL.start();
    ABORT.store(false, SeqCst);
    number_from(0);
    let left = c.sched.first().map_or(0, |s| s.0);
    *state() = Some(State {
        status: vec![],
        locks: vec![],
        sched: c.sched,
        at: 0,
        left,
        writers_first: c.writers_first,
        real: c.real,
        acquires: 0,
        events: vec![],
        steps: 0,
        switches: 0,
        contended: 0,
        real_waits: 0,
        preempted: 0,
        violation: None,
        acc: vec![],
        in_run: vec![],
    });
}

/// Runs the threads to their end.
pub fn go(work: Vec<Work>) -> Result<(), Violation> {
    let n = work.len();
    {
        let mut g = state();
        let s = g.as_mut().unwrap();
        s.status = vec![Status::Ready; n];
        s.acc = vec![vec![]; n];
        s.in_run = vec![false; n];
    }
    for (t, w) in work.into_iter().enumerate() {
        *POOL.work[t].lock().unwrap_or_else(|e| e.into_inner()) = Some(Sent(w));
    }
    let mut to = state().as_mut().unwrap().next(NOBODY);
    let mut patience = 100;
    loop {
        match to {
            Some(t) => {
                pass(t);
                let mut last = PROGRESS.load(SeqCst);
                let mut idle = 0;
                // the threads hand over among themselves; watch for one that sleeps somewhere else
                while TURN.load(SeqCst) != CONTROL {
                    std::thread::park_timeout(std::time::Duration::from_micros(500));
                    let p = PROGRESS.load(SeqCst);
                    let cur = TURN.load(SeqCst);
                    if cur >= n || p != last || ACTIVE.load(SeqCst) != cur || !sleeps(TIDS[cur].load(SeqCst)) {
                        last = p;
                        idle = 0;
                        continue;
                    }
                    idle += 1;
                    if idle < 6 {
                        continue;
                    }
                    // it waits for something the simulator does not know
                    let mut g = state();
                    let s = g.as_mut().unwrap();
                    if TURN.load(SeqCst) == cur && PROGRESS.load(SeqCst) == last {
                        s.status[cur] = Status::Foreign;
                        s.event(9, cur, 0);
                        TURN.store(CONTROL, SeqCst);
                    }
                    break;
                }
            }
            None => {
                let mut g = state();
                let s = g.as_mut().unwrap();
                if s.status.iter().all(|x| *x == Status::Done) {
                    break;
                }
                if s.status.contains(&Status::Foreign) && patience > 0 {
                    // it may come back by itself
                    patience -= 1;
                    drop(g);
                    std::thread::sleep(std::time::Duration::from_millis(20));
                    to = state().as_mut().unwrap().next(NOBODY);
                    continue;
                }
                let what: Vec<String> = s
                    .status
                    .iter()
                    .enumerate()
                    .filter(|(_, x)| **x != Status::Done)
                    .map(|(t, x)| match x {
                        Status::Want(b, m) | Status::Inside(b, m) => {
                            let l = &s.locks[*b];
                            format!(
                                "thread {t} waits to {m:?} {} (writer {:?}, readers {:?})",
                                name(*b),
                                l.writer,
                                l.readers
                            )
                        }
                        x => format!("thread {t} is {x:?}"),
                    })
                    .collect();
                s.fail("deadlock", what.join("; "));
            }
        }
        if ABORT.load(SeqCst) {
            abandon(n);
            break;
        }
        // threads inside a real lock: wait until they sleep there or come back
        let mut late = None;
        for t in 0..n {
            let st = state().as_ref().unwrap().status[t];
            match st {
                Status::Inside(b, m) => {
                    let t0 = std::time::Instant::now();
                    while !ARRIVED[t].load(SeqCst) && !sleeps(TIDS[t].load(SeqCst)) {
                        std::hint::spin_loop();
                        if t0.elapsed().as_secs() > 10 {
                            break;
                        }
                    }
                    if ARRIVED[t].load(SeqCst) {
                        late = Some((t, b, m));
                    }
                }
                Status::Foreign => {
                    // back again?
                    let t0 = std::time::Instant::now();
                    loop {
                        if TURN.load(SeqCst) == CONTROL && sleeps(TIDS[t].load(SeqCst)) {
                            break;
                        }
                        std::thread::yield_now();
                        if t0.elapsed().as_secs() > 10 {
                            break;
                        }
                    }
                }
                _ => {}
            }
        }
        let mut g = state();
        let s = g.as_mut().unwrap();
        if let Some((t, b, m)) = late {
            s.fail("not exclusive", format!("thread {t} got {} to {m:?} while another thread held it", name(b)));
            drop(g);
            abandon(n);
            break;
        }
        to = s.next(NOBODY);
    }
    let g = state();
    match &g.as_ref().unwrap().violation {
        Some(v) => Err(v.clone()),
        None => Ok(()),
    }
}

/// Ends the threads of a run that is given up.
fn abandon(n: usize) {
    ABORT.store(true, SeqCst);
    for w in &POOL.work {
        w.lock().unwrap_or_else(|e| e.into_inner()).take();
    }
    let t0 = std::time::Instant::now();
    loop {
        let open: Vec<usize> = {
            let g = state();
            let s = g.as_ref().unwrap();
            (0..n).filter(|&t| s.status[t] != Status::Done).collect()
        };
        let Some(&t) = open.first() else { break };
        // any of them may be stuck: give each a moment
        for &t in &open {
            pass(t);
            let t1 = std::time::Instant::now();
            while TURN.load(SeqCst) == t && t1.elapsed().as_millis() < 200 {
                std::thread::yield_now();
            }
            {
                let mut g = state();
                let s = g.as_mut().unwrap();
                if s.status[t] == Status::Ready && TURN.load(SeqCst) == CONTROL {
                    // it had not begun
                    s.status[t] = Status::Done;
                }
            }
        }
        let _ = t;
        if t0.elapsed().as_secs() > 3 {
            break;
        }
    }
    TURN.store(NOBODY, SeqCst);
}

/// A run of a job begins or ends in this thread; accesses since the last call.
pub fn mark(in_run: bool) -> Vec<Access> {
    let me = ME.get();
    let mut g = state();
    let s = g.as_mut().unwrap();
    s.in_run[me] = in_run;
    std::mem::take(&mut s.acc[me])
}

/// Number of the newest content of every buffer, and which of them are poisoned.
pub fn newest() -> (Vec<usize>, Vec<bool>) {
    let g = state();
    let s = g.as_ref().unwrap();
    (s.locks.iter().map(|l| l.versions.len() - 1).collect(), s.locks.iter().map(|l| l.poisoned).collect())
}

pub fn version(id: usize, v: usize) -> Arc<Vec<u8>> {
    state().as_ref().unwrap().locks[id].versions[v].clone()
}

/// Takes the record of the run.
pub fn end() -> State {
    state().take().unwrap()
}

pub fn with_events(f: impl FnOnce(&[(u8, u32, u32)])) {
    if let Some(s) = state().as_ref() {
        f(&s.events);
    }
}
