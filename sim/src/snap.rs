//! Saving and restoring the library's objects in every supported way.

use crate::cx::{fail, Res};
use crate::stream::{Chunk, SimStream};
use glam::{Quat, Vec2, Vec3, Vec4};
use ozz_animation_rs::*;
use serde::de::DeserializeOwned;

pub const FORMATS: &[&str] = &["json text", "json stream", "json value", "cbor stream", "bincode", "rkyv"];

pub trait Snap: Sized + serde::Serialize + DeserializeOwned {
    fn rkyv_save(&self) -> Result<Vec<u8>, String>;
    /// `checked`: through rkyv's validation where the type supports it.
    fn rkyv_restore(b: &rkyv::AlignedVec, checked: bool) -> Result<Self, String>;
}

macro_rules! snap {
    ($($t:ty),*) => {$(
        impl Snap for $t {
            fn rkyv_save(&self) -> Result<Vec<u8>, String> {
                rkyv::to_bytes::<_, 1024>(self).map(|v| v.to_vec()).map_err(|e| e.to_string())
            }
            fn rkyv_restore(b: &rkyv::AlignedVec, _: bool) -> Result<Self, String> {
                use rkyv::Deserialize;
                let a = unsafe { rkyv::archived_root::<$t>(b) };
                a.deserialize(&mut rkyv::Infallible).map_err(|e| format!("{e:?}"))
            }
        }
    )*};
}

snap!(Animation, Skeleton, Track<f32>, Track<Vec2>, Track<Vec3>, Track<Vec4>, Track<Quat>);

impl Snap for SamplingContext {
    fn rkyv_save(&self) -> Result<Vec<u8>, String> {
        rkyv::to_bytes::<_, 1024>(self).map(|v| v.to_vec()).map_err(|e| e.to_string())
    }
    fn rkyv_restore(b: &rkyv::AlignedVec, checked: bool) -> Result<Self, String> {
        use rkyv::Deserialize;
        let a = if checked {
            rkyv::check_archived_root::<SamplingContext>(b).map_err(|e| format!("validation: {e}"))?
        } else {
            unsafe { rkyv::archived_root::<SamplingContext>(b) }
        };
        a.deserialize(&mut rkyv::Infallible).map_err(|e| format!("{e:?}"))
    }
}

pub fn save<T: Snap>(x: &T, fmt: u32) -> Result<Vec<u8>, String> {
    match fmt % FORMATS.len() as u32 {
        0 | 1 => serde_json::to_vec(x).map_err(|e| e.to_string()),
        2 => serde_json::to_value(x).map(|v| v.to_string().into_bytes()).map_err(|e| e.to_string()),
        3 => {
            let mut v = Vec::new();
            ciborium::into_writer(x, &mut v).map_err(|e| e.to_string())?;
            Ok(v)
        }
        4 => bincode::serialize(x).map_err(|e| e.to_string()),
        _ => x.rkyv_save(),
    }
}

/// `style`: how the stream delivers (stream formats), or whether rkyv validates.
pub fn restore<T: Snap>(b: &[u8], fmt: u32, style: u32) -> Result<T, String> {
    let stream = || {
        let chunks = match style % 4 {
            0 => vec![],
            1 => vec![Chunk { n: 1, eintr: 0 }],
            2 => vec![Chunk { n: 7, eintr: 1 }, Chunk { n: 64, eintr: 0 }],
            _ => vec![Chunk { n: 4096, eintr: 2 }],
        };
        std::io::BufReader::with_capacity(64, SimStream::new(b.to_vec(), chunks))
    };
    match fmt % FORMATS.len() as u32 {
        0 => serde_json::from_slice(b).map_err(|e| e.to_string()),
        1 => serde_json::from_reader(stream()).map_err(|e| e.to_string()),
        2 => {
            let v: serde_json::Value = serde_json::from_slice(b).map_err(|e| e.to_string())?;
            serde_json::from_value(v).map_err(|e| e.to_string())
        }
        3 => ciborium::from_reader(stream()).map_err(|e| e.to_string()),
        4 => bincode::deserialize(b).map_err(|e| e.to_string()),
        _ => {
            let mut v = rkyv::AlignedVec::with_capacity(b.len());
            v.extend_from_slice(b);
            T::rkyv_restore(&v, style % 2 == 1)
        }
    }
}

pub fn must_save<T: Snap>(x: &T, fmt: u32, what: &str) -> Res<Vec<u8>> {
    match save(x, fmt) {
        Ok(b) => Ok(b),
        Err(e) => fail("save-fails", format!("{what} can not be saved as {}: {e}", FORMATS[fmt as usize % FORMATS.len()])),
    }
}

pub fn must_restore<T: Snap>(b: &[u8], fmt: u32, style: u32, what: &str) -> Res<T> {
    match restore(b, fmt, style) {
        Ok(b) => Ok(b),
        Err(e) => fail(
            "restore-fails",
            format!("a saved {what} can not be restored from {}: {e}", FORMATS[fmt as usize % FORMATS.len()]),
        ),
    }
}

/// Every observable of an animation as words.
pub fn anim_words(a: &Animation) -> Vec<u64> {
    let mut w = vec![a.duration().to_bits() as u64, a.num_tracks() as u64, a.name().len() as u64];
    w.extend(a.name().bytes().map(|b| b as u64));
    w.push(a.timepoints().len() as u64);
    w.extend(a.timepoints().iter().map(|t| t.to_bits() as u64));
    for c in [a.translations_ctrl(), a.rotations_ctrl(), a.scales_ctrl()] {
        w.push(c.ratios.len() as u64);
        w.extend(c.ratios.iter().map(|&v| v as u64));
        w.push(c.previouses.len() as u64);
        w.extend(c.previouses.iter().map(|&v| v as u64));
        w.push(c.iframe_entries.len() as u64);
        w.extend(c.iframe_entries.iter().map(|&v| v as u64));
        w.push(c.iframe_desc.len() as u64);
        w.extend(c.iframe_desc.iter().map(|&v| v as u64));
        w.push(c.iframe_interval.to_bits() as u64);
    }
    // the key types have no public fields
    fn keys<K: std::fmt::Debug>(w: &mut Vec<u64>, k: &[K]) {
        w.push(k.len() as u64);
        if std::mem::size_of::<K>() == 6 {
            let b = unsafe { std::slice::from_raw_parts(k.as_ptr() as *const [u16; 3], k.len()) };
            w.extend(b.iter().map(|v| v[0] as u64 | (v[1] as u64) << 16 | (v[2] as u64) << 32));
        } else {
            w.extend(k.iter().map(|k| crate::rng::hash_str(&format!("{k:?}"))));
        }
    }
    keys(&mut w, a.translations());
    keys(&mut w, a.rotations());
    keys(&mut w, a.scales());
    w
}

pub fn skel_words(s: &Skeleton) -> Vec<u64> {
    let mut w = vec![s.num_joints() as u64, s.joint_names().len() as u64];
    w.extend(s.joint_parents().iter().map(|&p| p as u16 as u64));
    w.extend(crate::util::fl(s.joint_rest_poses()).iter().map(|f| f.to_bits() as u64));
    let mut names: Vec<(i16, u64)> = s.joint_names().iter().map(|(n, &i)| (i, crate::rng::hash_str(n))).collect();
    names.sort();
    for (i, n) in names {
        w.push(i as u16 as u64);
        w.push(n);
    }
    for (n, &i) in s.joint_names() {
        if s.joint_by_name(n) != Some(i) || s.name_by_joint(i) != Some(n.as_str()) {
            w.push(u64::MAX);
        }
    }
    w
}

pub trait Words {
    fn words(&self, w: &mut Vec<u64>);
}
impl Words for f32 {
    fn words(&self, w: &mut Vec<u64>) {
        w.push(self.to_bits() as u64);
    }
}
macro_rules! words {
    ($($t:ty),*) => {$(
        impl Words for $t {
            fn words(&self, w: &mut Vec<u64>) {
                w.extend(self.to_array().iter().map(|v| v.to_bits() as u64));
            }
        }
    )*};
}
words!(Vec2, Vec3, Vec4, Quat);

pub fn track_words<V: track::TrackValue + Words>(t: &Track<V>) -> Vec<u64> {
    let mut w = vec![t.key_count() as u64];
    w.extend(t.ratios().iter().map(|f| f.to_bits() as u64));
    for v in t.values() {
        v.words(&mut w);
    }
    w.extend(t.steps().iter().map(|&s| s as u64));
    w.extend(t.name().bytes().map(|b| b as u64));
    w
}

/// Every observable of a context, bit for bit.
pub fn ctx_words(c: &SamplingContext) -> Vec<u64> {
    let mut w = vec![
        c.max_tracks() as u64,
        c.max_soa_tracks() as u64,
        c.max_outdated() as u64,
        c.size() as u64,
        c.animation_id(),
        c.ratio().to_bits() as u64,
        c.translation_next() as u64,
        c.rotation_next() as u64,
        c.scale_next() as u64,
    ];
    fn bits<T>(v: &[T]) -> &[u32] {
        unsafe { std::slice::from_raw_parts(v.as_ptr() as *const u32, std::mem::size_of_val(v) / 4) }
    }
    w.extend(bits(c.translations()).iter().map(|&v| v as u64));
    w.extend(bits(c.rotations()).iter().map(|&v| v as u64));
    w.extend(bits(c.scales()).iter().map(|&v| v as u64));
    for e in [c.translation_entries(), c.rotation_entries(), c.scale_entries()] {
        w.extend(e.iter().map(|&v| v as u64));
    }
    for e in [c.translation_outdated(), c.rotation_outdated(), c.scale_outdated()] {
        w.extend(e.iter().map(|&v| v as u64));
    }
    w
}

/// What must agree on every platform: all but the size in memory, and any value that is not a number is the same.
pub fn ctx_portable(c: &SamplingContext) -> Vec<u64> {
    let mut w = ctx_words(c);
    w[3] = 0;
    let floats = (std::mem::size_of_val(c.translations()) + std::mem::size_of_val(c.rotations()) + std::mem::size_of_val(c.scales())) / 4;
    for v in &mut w[9..9 + floats] {
        if f32::from_bits(*v as u32).is_nan() {
            *v = 0x7fc0_0000;
        }
    }
    w
}

pub fn hash_words(w: &[u64]) -> u64 {
    let mut h = w.len() as u64;
    for &x in w {
        h = (h.rotate_left(5) ^ x).wrapping_mul(0x517c_c1b7_2722_0a95);
    }
    crate::rng::mix(h, 0)
}

pub fn hash_bytes(b: &[u8]) -> u64 {
    let mut h = b.len() as u64;
    for c in b.chunks(8) {
        let mut x = [0u8; 8];
        x[..c.len()].copy_from_slice(c);
        h = (h.rotate_left(5) ^ u64::from_le_bytes(x)).wrapping_mul(0x517c_c1b7_2722_0a95);
    }
    crate::rng::mix(h, 1)
}
