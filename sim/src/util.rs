//! Shared helpers of the scenarios.

use crate::cx::{fail, Cx, Res};
use crate::gen::{AnimModel, SkelModel, TrackModel};
use crate::rng::{Fnv, Rng};
use ozz_animation_rs::math::SoaTransform;
use ozz_animation_rs::*;
use serde::{Deserialize, Serialize};
use std::simd::f32x4;

pub fn fl(v: &[SoaTransform]) -> &[f32] {
    unsafe { std::slice::from_raw_parts(v.as_ptr() as *const f32, std::mem::size_of_val(v) / 4) }
}

pub fn flm(v: &mut [SoaTransform]) -> &mut [f32] {
    unsafe { std::slice::from_raw_parts_mut(v.as_mut_ptr() as *mut f32, std::mem::size_of_val(v) / 4) }
}

pub fn mats(v: &[glam::Mat4]) -> &[f32] {
    unsafe { std::slice::from_raw_parts(v.as_ptr() as *const f32, std::mem::size_of_val(v) / 4) }
}

pub fn vec3s(v: &[glam::Vec3]) -> &[f32] {
    unsafe { std::slice::from_raw_parts(v.as_ptr() as *const f32, std::mem::size_of_val(v) / 4) }
}

pub fn soa_from(a: &[f32; 40]) -> SoaTransform {
    let mut t = SoaTransform::default();
    flm(std::slice::from_mut(&mut t)).copy_from_slice(a);
    t
}

/// First index at which the bits differ (equal NaN bits are equal).
pub fn diff_bits(a: &[f32], b: &[f32]) -> Option<usize> {
    if a.len() != b.len() {
        return Some(a.len().min(b.len()));
    }
    (0..a.len()).find(|&i| a[i].to_bits() != b[i].to_bits())
}

/// Like `diff_bits` but all NaNs are equal.
pub fn diff_num(a: &[f32], b: &[f32]) -> Option<usize> {
    if a.len() != b.len() {
        return Some(a.len().min(b.len()));
    }
    (0..a.len()).find(|&i| a[i].to_bits() != b[i].to_bits() && !(a[i].is_nan() && b[i].is_nan()))
}

pub fn hash_f(a: &[f32]) -> u64 {
    let mut h = Fnv::new();
    for v in a {
        h.u64(if v.is_nan() { 0x7fc00000 } else { v.to_bits() as u64 });
    }
    h.finish()
}

/// Recognisable buffer content that no job produces.
pub fn dirt(seed: u32, n: usize) -> Vec<SoaTransform> {
    let mut v = vec![SoaTransform::default(); n];
    let mut rng = Rng::new(0xD127 ^ seed as u64);
    let style = seed % 4;
    for x in flm(&mut v) {
        *x = match style {
            0 => f32::from_bits(0x7fc0_0000 | (rng.u64() as u32 & 0xffff)),
            1 => rng.f(-1e6, 1e6),
            2 => f32::INFINITY,
            _ => -123.5,
        };
    }
    v
}

pub fn load_anim(m: &AnimModel, big: bool) -> Res<Animation> {
    let b = m.bytes(big);
    let r = Archive::from_slice(&b).and_then(|mut a| Animation::from_archive(&mut a));
    match r {
        Ok(a) => Ok(a),
        Err(e) => fail("load", format!("a well-formed animation does not load: {e:?}")),
    }
}

pub fn load_skel(m: &SkelModel, big: bool) -> Res<Skeleton> {
    let b = m.bytes(big);
    let r = Archive::from_slice(&b).and_then(|mut a| Skeleton::from_archive(&mut a));
    match r {
        Ok(a) => Ok(a),
        Err(e) => fail("load", format!("a well-formed skeleton does not load: {e:?}")),
    }
}

pub fn load_track<V: track::TrackValue>(m: &TrackModel, big: bool) -> Res<Track<V>> {
    let b = m.bytes(big);
    let r = Archive::from_slice(&b).and_then(|mut a| Track::<V>::from_archive(&mut a));
    match r {
        Ok(a) => Ok(a),
        Err(e) => fail("load", format!("a well-formed track does not load: {e:?}")),
    }
}

/// One movement of a playback clock.
#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum Tick {
    /// Jump to a ratio (may lie outside 0..1).
    To(f32),
    /// Advance by a difference, wrapping at the ends.
    By(f32),
    /// Stay.
    Hold,
    /// The exact time point with this index (modulo), shifted by some ulps.
    Key(u32, i32),
    Start,
    End,
    Nan,
}

#[derive(Clone)]
pub struct Clock {
    pub at: f32,
}

impl Tick {
    pub fn gen(rng: &mut Rng) -> Tick {
        match rng.below(20) {
            0..=7 => Tick::By(rng.f(0.0, 0.05)),
            8 => Tick::By(-rng.f(0.0, 0.05)),
            9 => Tick::By(-rng.f(0.0, 0.7)),
            10..=12 => Tick::To(rng.f(0.0, 1.0)),
            13 => Tick::To(rng.f(-1.0, 2.0)),
            14 => Tick::Hold,
            15..=17 => Tick::Key(rng.below(400) as u32, rng.range(-1, 1) as i32),
            18 => {
                match rng.below(8) {
                    0..=3 => Tick::Start,
                    4..=6 => Tick::End,
                    _ => Tick::To(*rng.pick(&[-0.0, 1e-40, -1e-40])),
                }
            }
            _ => Tick::By(rng.f(0.0, 0.6)),
        }
    }
}

impl Clock {
    pub fn step(&mut self, t: &Tick, points: &[f32], cx: &mut Cx) -> f32 {
        let old = self.at;
        self.at = match *t {
            Tick::To(v) => {
                cx.fault("clock jump");
                v
            }
            Tick::By(d) => {
                let mut v = self.at + d;
                if !(0.0..=1.0).contains(&v) {
                    v -= v.floor();
                    cx.probe("clock wraps");
                }
                v
            }
            Tick::Hold => {
                cx.fault("clock stall");
                self.at
            }
            Tick::Key(i, d) => {
                cx.fault("clock on a key time");
                if points.is_empty() {
                    0.0
                } else {
                    let v = points[i as usize % points.len()];
                    match d {
                        1 => f32::from_bits(v.to_bits() + 1),
                        -1 if v > 0.0 => f32::from_bits(v.to_bits() - 1),
                        _ => v,
                    }
                }
            }
            Tick::Start => 0.0,
            Tick::End => 1.0,
            Tick::Nan => {
                cx.fault("clock not a number");
                f32::NAN
            }
        };
        if self.at < old {
            cx.fault("clock reversal");
        }
        let r = self.at;
        if !r.is_nan() {
            cx.sim_us += ((r - old).abs().min(4.0) as f64 * 1e6) as u64;
        } else {
            self.at = old;
        }
        if !(0.0..=1.0).contains(&r) {
            cx.probe("ratio outside 0..1");
        }
        r
    }
}

pub fn splat(v: f32) -> f32x4 {
    f32x4::splat(v)
}
