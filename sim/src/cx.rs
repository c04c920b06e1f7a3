//! What a run records, and the interface of a property.

use crate::alloc::{self, MemCfg, Reuse};
use crate::rng::{Fnv, Rng};
use serde_json::Value;
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Debug)]
pub struct Violation {
    pub class: String,
    pub detail: String,
}

pub type Res<T = ()> = Result<T, Violation>;

pub fn fail<T>(class: &str, detail: impl Into<String>) -> Res<T> {
    Err(Violation { class: class.to_string(), detail: detail.into() })
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $class:expr, $($arg:tt)*) => {
        if !($c) {
            return $crate::cx::fail($class, format!($($arg)*));
        }
    };
}

/// The plan could not be interpreted (only happens to minimisation candidates).
pub const BAD_PLAN: &str = "bad-plan";

#[derive(Default)]
pub struct Cx {
    pub log: Option<Fnv>,
    pub faults: BTreeMap<String, u64>,
    pub probes: BTreeMap<String, u64>,
    pub states: BTreeSet<u64>,
    pub steps: u64,
    pub sim_us: u64,
    pub nontrivial: bool,
    pub verbose: bool,
    pub trace: Vec<String>,
    /// Tier of the current batch.
    pub thorough: bool,
    /// The log after every entry (to find the first entry that differs).
    pub chain: Option<Vec<(u64, String)>>,
}

impl Cx {
    pub fn new() -> Cx {
        Cx { log: Some(Fnv::new()), ..Cx::default() }
    }
    pub fn fault(&mut self, k: &str) {
        alloc::pause(true);
        *self.faults.entry(k.to_string()).or_insert(0) += 1;
        alloc::pause(false);
        self.nontrivial = true;
    }
    pub fn probe(&mut self, k: &str) {
        alloc::pause(true);
        *self.probes.entry(k.to_string()).or_insert(0) += 1;
        alloc::pause(false);
    }
    pub fn u(&mut self, v: u64) {
        self.log.as_mut().unwrap().u64(v);
        self.link(|| format!("{v:x}"));
    }
    /// A result with its name.
    pub fn named(&mut self, name: &str, v: u64) {
        self.log.as_mut().unwrap().u64(v);
        self.link(|| format!("{name} {v:x}"));
    }
    /// All values that are not numbers are the same.
    pub fn f32s(&mut self, v: &[f32]) {
        let l = self.log.as_mut().unwrap();
        for v in v {
            l.u64(if v.is_nan() { 0x7fc0_0000 } else { v.to_bits() as u64 });
        }
        l.u64(v.len() as u64);
        self.link(|| format!("{:?}", &v[..v.len().min(400)]));
    }
    pub fn s(&mut self, v: &str) {
        self.log.as_mut().unwrap().str(v);
        self.link(|| v.to_string());
    }
    fn link(&mut self, f: impl FnOnce() -> String) {
        if let Some(c) = &mut self.chain {
            if c.len() < 100_000 {
                c.push((self.log.as_ref().unwrap().finish(), f()));
            }
        }
    }
    pub fn state(&mut self, h: u64) {
        if self.states.len() < 4096 {
            self.states.insert(h);
        }
    }
    pub fn note(&mut self, f: impl FnOnce() -> String) {
        if self.verbose && self.trace.len() < 5000 {
            self.trace.push(f());
        }
    }
    pub fn hash(&self) -> u64 {
        self.log.as_ref().unwrap().finish()
    }
}

pub struct Prop {
    pub id: &'static str,
    pub gen: fn(&mut Rng, bool) -> Value,
    pub exec: fn(&Value, &mut Cx) -> Res,
    /// Runs in the quick and thorough tier.
    pub runs: (u64, u64),
    /// How runs are made and what makes one non-trivial.
    pub rule: &'static str,
    pub measure: &'static str,
    pub real: &'static [&'static str],
    pub stub: &'static [&'static str],
    pub assumptions: &'static [&'static str],
}

pub fn plan<T: serde::de::DeserializeOwned>(v: &Value) -> Res<T> {
    match T::deserialize(v) {
        Ok(p) => Ok(p),
        Err(e) => fail(BAD_PLAN, e.to_string()),
    }
}

/// Memory behaviour of a run, part of most plans.
#[derive(serde::Serialize, serde::Deserialize, Clone, Debug, Default)]
pub struct Mem {
    pub fill: u64,
    pub seed: u32,
    pub reuse: u32,
}

impl Mem {
    pub fn gen(rng: &mut Rng) -> Mem {
        Mem {
            fill: if rng.pm(500) { 0 } else { rng.below(7) },
            seed: rng.u64() as u32,
            reuse: if rng.pm(600) { 0 } else { 1 + rng.below(3) as u32 },
        }
    }
    pub fn cfg(&self) -> MemCfg {
        MemCfg {
            fill: self.fill % 8,
            seed: self.seed as u64,
            reuse: match self.reuse {
                0 => Reuse::System,
                1 => Reuse::Lifo,
                2 => Reuse::Never,
                _ => Reuse::Fence,
            },
            cap: 1 << 30,
        }
    }
    pub fn apply(&self, cx: &mut Cx) {
        alloc::configure(self.cfg());
        self.count(cx);
    }
    pub fn count(&self, cx: &mut Cx) {
        if self.fill > 0 {
            cx.fault("dirty memory");
        }
        match self.reuse {
            0 => {}
            1 => cx.fault("address reuse (lifo)"),
            2 => cx.fault("no address reuse"),
            _ => cx.fault("blocks fenced by inaccessible pages"),
        }
    }
}
