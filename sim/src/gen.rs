//! World generator: skeletons, animations and tracks as plain models, their archive bytes in both
//! byte orders, and a parser of exported files into the same models.

use crate::rng::Rng;
use serde::{Deserialize, Serialize};

/// Byte writer in a chosen byte order.
pub struct W {
    pub b: Vec<u8>,
    pub big: bool,
    /// Offsets at which a field starts (used to aim faults).
    pub marks: Vec<usize>,
    /// Offset and length of every stored text.
    pub texts: Vec<(usize, usize)>,
}

impl W {
    pub fn new(big: bool) -> W {
        W { b: Vec::new(), big, marks: Vec::new(), texts: Vec::new() }
    }
    pub fn mark(&mut self) {
        self.marks.push(self.b.len());
    }
    pub fn u8(&mut self, v: u8) {
        self.b.push(v);
    }
    pub fn u16(&mut self, v: u16) {
        let x = if self.big { v.to_be_bytes() } else { v.to_le_bytes() };
        self.b.extend_from_slice(&x);
    }
    pub fn u32(&mut self, v: u32) {
        let x = if self.big { v.to_be_bytes() } else { v.to_le_bytes() };
        self.b.extend_from_slice(&x);
    }
    pub fn f32(&mut self, v: f32) {
        self.u32(v.to_bits());
    }
    pub fn cstr(&mut self, v: &str) {
        self.b.extend_from_slice(v.as_bytes());
        self.b.push(0);
    }
    pub fn text(&mut self, v: &str) {
        self.texts.push((self.b.len(), v.len()));
        self.b.extend_from_slice(v.as_bytes());
    }
    /// The byte order tag that starts an archive.
    pub fn endian(&mut self) {
        self.mark();
        let v = if self.big { 0 } else { 1 };
        self.u8(v);
    }
}

/// Byte reader (little or big endian by the archive's first byte).
pub struct Rd<'a> {
    pub b: &'a [u8],
    pub i: usize,
    pub big: bool,
}

impl<'a> Rd<'a> {
    pub fn new(b: &'a [u8]) -> Rd<'a> {
        Rd { b, i: 1, big: b[0] == 0 }
    }
    fn n<const N: usize>(&mut self) -> [u8; N] {
        let mut x: [u8; N] = self.b[self.i..self.i + N].try_into().unwrap();
        self.i += N;
        if self.big {
            x.reverse();
        }
        x
    }
    pub fn u8(&mut self) -> u8 {
        self.n::<1>()[0]
    }
    pub fn u16(&mut self) -> u16 {
        u16::from_le_bytes(self.n())
    }
    pub fn u32(&mut self) -> u32 {
        u32::from_le_bytes(self.n())
    }
    pub fn f32(&mut self) -> f32 {
        f32::from_bits(self.u32())
    }
    pub fn cstr(&mut self) -> String {
        let s = self.i;
        while self.b[self.i] != 0 {
            self.i += 1;
        }
        self.i += 1;
        String::from_utf8(self.b[s..self.i - 1].to_vec()).unwrap()
    }
}

pub fn name(rng: &mut Rng, style: u32) -> String {
    match style % 4 {
        0 => String::new(),
        1 => "walk".to_string(),
        2 => "héllo wörld — 動畫".to_string(),
        _ => (0..rng.usize(1, 40)).map(|_| (b'a' + rng.below(26) as u8) as char).collect(),
    }
}

// ------------------------------------------------------------------------------------------------
// half floats and packed quaternions (independent of the code under test)
// ------------------------------------------------------------------------------------------------

pub fn half(h: u16) -> f64 {
    let s = if h & 0x8000 != 0 { -1.0 } else { 1.0 };
    let e = ((h >> 10) & 0x1f) as i32;
    let m = (h & 0x3ff) as f64;
    if e == 0 {
        s * m * 2f64.powi(-24)
    } else if e == 31 {
        if m == 0.0 {
            s * f64::INFINITY
        } else {
            f64::NAN
        }
    } else {
        s * (1.0 + m / 1024.0) * 2f64.powi(e - 15)
    }
}

/// Nearest half for ordinary magnitudes.
pub fn to_half(v: f32) -> u16 {
    let s = if v < 0.0 { 0x8000 } else { 0 };
    let a = v.abs() as f64;
    if a < 2f64.powi(-14) {
        return s | (a / 2f64.powi(-24)).round() as u16;
    }
    let mut e = a.log2().floor() as i32;
    if a / 2f64.powi(e) >= 2.0 {
        e += 1;
    }
    let m = ((a / 2f64.powi(e) - 1.0) * 1024.0).round() as u32;
    let bits = (((e + 15) as u32) << 10) + m;
    s | bits.min(0x7bff) as u16
}

pub fn quat_pack(q: [f64; 4]) -> [u16; 3] {
    let mut l = 0;
    for i in 1..4 {
        if q[i].abs() > q[l].abs() {
            l = i;
        }
    }
    let sign = (q[l] < 0.0) as u32;
    let r2 = std::f64::consts::SQRT_2;
    let enc = |x: f64| (((x + r2 / 2.0) * 32767.0 / r2).round().max(0.0).min(32767.0)) as u32;
    let o: Vec<u32> = (0..4).filter(|&i| i != l).map(|i| enc(q[i])).collect();
    // bits: 0-1 largest, 2 sign, 3.. three 15 bit values
    let packed: u64 = l as u64 | (sign as u64) << 2 | (o[0] as u64) << 3 | (o[1] as u64) << 18 | (o[2] as u64) << 33;
    [packed as u16, (packed >> 16) as u16, (packed >> 32) as u16]
}

pub fn quat_unpack(k: [u16; 3]) -> [f64; 4] {
    let p = k[0] as u64 | (k[1] as u64) << 16 | (k[2] as u64) << 32;
    let l = (p & 3) as usize;
    let sign = (p >> 2) & 1;
    let v = [(p >> 3) & 0x7fff, (p >> 18) & 0x7fff, (p >> 33) & 0x7fff];
    let r2 = std::f64::consts::SQRT_2;
    let mut q = [0.0; 4];
    let mut n = 0;
    let mut dot = 0.0;
    for i in 0..4 {
        if i != l {
            q[i] = v[n] as f64 * r2 / 32767.0 - r2 / 2.0;
            dot += q[i] * q[i];
            n += 1;
        }
    }
    let w = (1.0 - dot).max(0.0).sqrt();
    q[l] = if sign == 0 { w } else { -w };
    q
}

// ------------------------------------------------------------------------------------------------
// animation
// ------------------------------------------------------------------------------------------------

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Chan {
    /// Per aligned track: (time point index, raw key), ascending.
    pub keys: Vec<Vec<(u16, [u16; 3])>>,
    pub interval: f32,
    pub divs: u32,
}

#[derive(Clone, Debug, Default)]
pub struct AnimModel {
    pub name: String,
    pub duration: f32,
    pub num_tracks: usize,
    pub timepoints: Vec<f32>,
    pub ch: [Chan; 3],
}

/// The arrays stored in the archive for one channel.
#[derive(Clone, Debug, Default, PartialEq)]
pub struct Flat {
    pub ratios: Vec<u16>,
    pub previouses: Vec<u16>,
    pub entries: Vec<u8>,
    pub desc: Vec<u32>,
    pub interval: f32,
    pub keys: Vec<[u16; 3]>,
}

fn gv4(out: &mut Vec<u8>, v: &[u32]) {
    let len = |x: u32| if x < 1 << 8 { 1 } else if x < 1 << 16 { 2 } else if x < 1 << 24 { 3 } else { 4 };
    let mut prefix = 0u8;
    for i in 0..4 {
        prefix |= (len(v[i]) as u8 - 1) << (2 * i);
    }
    out.push(prefix);
    for i in 0..4 {
        out.extend_from_slice(&v[i].to_le_bytes()[..len(v[i])]);
    }
}

impl Chan {
    pub fn flatten(&self, tp: &[f32]) -> Flat {
        let mut order: Vec<(i64, usize, usize)> = Vec::new(); // (previous key's time point, track, key)
        for (t, ks) in self.keys.iter().enumerate() {
            for j in 0..ks.len() {
                let prev = if j == 0 { -1 } else { ks[j - 1].0 as i64 };
                order.push((prev, t, j));
            }
        }
        order.sort();
        let mut f = Flat { interval: self.interval, ..Flat::default() };
        let mut at: Vec<Vec<usize>> = self.keys.iter().map(|k| vec![0; k.len()]).collect();
        for (i, &(_, t, j)) in order.iter().enumerate() {
            at[t][j] = i;
            f.ratios.push(self.keys[t][j].0);
            f.keys.push(self.keys[t][j].1);
            f.previouses.push(if j == 0 { 0 } else { (i - at[t][j - 1]) as u16 });
        }
        if !self.keys.is_empty() {
            for d in 1..=self.divs {
                let time = d as f64 / self.divs as f64;
                let mut entries = vec![0u32; self.keys.len()];
                let mut next = 0;
                for (i, &(prev, t, j)) in order.iter().enumerate() {
                    if j <= 1 || (tp[prev as usize] as f64) <= time {
                        entries[t] = i as u32;
                        next = i;
                    } else {
                        break;
                    }
                }
                f.desc.push(f.entries.len() as u32);
                f.desc.push(next as u32);
                for c in entries.chunks(4) {
                    gv4(&mut f.entries, c);
                }
            }
        }
        f
    }
}

impl AnimModel {
    pub fn aligned(&self) -> usize {
        (self.num_tracks + 3) & !3
    }
    pub fn soa(&self) -> usize {
        self.num_tracks.div_ceil(4)
    }

    pub fn flat(&self) -> [Flat; 3] {
        [
            self.ch[0].flatten(&self.timepoints),
            self.ch[1].flatten(&self.timepoints),
            self.ch[2].flatten(&self.timepoints),
        ]
    }

    pub fn write(&self, w: &mut W) {
        w.endian();
        self.body(&self.flat(), w);
    }

    /// The object without the archive's byte order tag.
    pub fn body(&self, fl: &[Flat; 3], w: &mut W) {
        w.mark();
        w.cstr("ozz-animation");
        w.mark();
        w.u32(7);
        w.mark();
        w.f32(self.duration);
        w.mark();
        for v in [self.num_tracks, self.name.len(), self.timepoints.len()] {
            w.u32(v as u32);
            w.mark();
        }
        for f in fl {
            w.u32(f.keys.len() as u32);
            w.mark();
        }
        for f in fl {
            w.u32(f.entries.len() as u32);
            w.mark();
            w.u32(f.desc.len() as u32);
            w.mark();
        }
        w.text(&self.name);
        w.mark();
        for &t in &self.timepoints {
            w.f32(t);
        }
        for f in fl {
            w.mark();
            for &r in &f.ratios {
                if self.timepoints.len() <= 255 {
                    w.u8(r as u8);
                } else {
                    w.u16(r);
                }
            }
            w.mark();
            for &p in &f.previouses {
                w.u16(p);
            }
            w.mark();
            w.b.extend_from_slice(&f.entries);
            w.mark();
            for &d in &f.desc {
                w.u32(d);
            }
            w.mark();
            w.f32(f.interval);
            w.mark();
            for k in &f.keys {
                for &x in k {
                    w.u16(x);
                }
            }
        }
        w.mark();
    }

    pub fn bytes(&self, big: bool) -> Vec<u8> {
        let mut w = W::new(big);
        self.write(&mut w);
        w.b
    }

    /// Parses an archive into the model; also returns the stored arrays.
    pub fn parse(b: &[u8]) -> (AnimModel, [Flat; 3]) {
        let mut r = Rd::new(b);
        assert_eq!(r.cstr(), "ozz-animation");
        assert_eq!(r.u32(), 7);
        let duration = r.f32();
        let num_tracks = r.u32() as usize;
        let name_len = r.u32() as usize;
        let n_tp = r.u32() as usize;
        let counts = [r.u32(), r.u32(), r.u32()];
        let mut ent = [(0u32, 0u32); 3];
        for e in ent.iter_mut() {
            *e = (r.u32(), r.u32());
        }
        let name = String::from_utf8(b[r.i..r.i + name_len].to_vec()).unwrap();
        r.i += name_len;
        let timepoints: Vec<f32> = (0..n_tp).map(|_| r.f32()).collect();
        let mut m = AnimModel { name, duration, num_tracks, timepoints, ch: Default::default() };
        let mut fl: [Flat; 3] = Default::default();
        for c in 0..3 {
            let n = counts[c] as usize;
            let f = &mut fl[c];
            f.ratios = (0..n).map(|_| if n_tp <= 255 { r.u8() as u16 } else { r.u16() }).collect();
            f.previouses = (0..n).map(|_| r.u16()).collect();
            f.entries = (0..ent[c].0).map(|_| r.u8()).collect();
            f.desc = (0..ent[c].1).map(|_| r.u32()).collect();
            f.interval = r.f32();
            f.keys = (0..n).map(|_| [r.u16(), r.u16(), r.u16()]).collect();
            let al = (num_tracks + 3) & !3;
            let mut ch = Chan { keys: vec![Vec::new(); al], interval: f.interval, divs: f.desc.len() as u32 / 2 };
            let mut track_of = vec![0usize; n];
            for i in 0..n {
                let t = if i < al { i } else { track_of[i - f.previouses[i] as usize] };
                track_of[i] = t;
                ch.keys[t].push((f.ratios[i], f.keys[i]));
            }
            m.ch[c] = ch;
        }
        assert_eq!(r.i, b.len());
        (m, fl)
    }

    /// Reference sampling of one channel of one track at `r` (already clamped), without any cache.
    pub fn bracket(&self, c: usize, track: usize, r: f32) -> ((f32, [u16; 3]), (f32, [u16; 3])) {
        let ks = &self.ch[c].keys[track];
        let mut j = 1;
        while j + 1 < ks.len() && self.timepoints[ks[j].0 as usize] <= r {
            j += 1;
        }
        let a = ks[j - 1];
        let b = ks[j];
        ((self.timepoints[a.0 as usize], a.1), (self.timepoints[b.0 as usize], b.1))
    }

    pub fn float3(&self, c: usize, track: usize, r: f32) -> ([f64; 3], f64) {
        let ((ta, a), (tb, b)) = self.bracket(c, track, r);
        let al = (r as f64 - ta as f64) / (tb as f64 - ta as f64);
        let mut o = [0.0; 3];
        let mut mag: f64 = 0.0;
        for i in 0..3 {
            let (x, y) = (half(a[i]), half(b[i]));
            o[i] = x + (y - x) * al;
            mag = mag.max(x.abs()).max(y.abs());
        }
        (o, mag)
    }

    pub fn quat(&self, track: usize, r: f32) -> ([f64; 4], f64) {
        let ((ta, a), (tb, b)) = self.bracket(1, track, r);
        let al = (r as f64 - ta as f64) / (tb as f64 - ta as f64);
        let (x, y) = (quat_unpack(a), quat_unpack(b));
        let mut o = [0.0; 4];
        let mut l = 0.0;
        for i in 0..4 {
            o[i] = x[i] + (y[i] - x[i]) * al;
            l += o[i] * o[i];
        }
        let l = l.sqrt();
        for v in o.iter_mut() {
            *v /= l;
        }
        (o, l)
    }
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct AnimSpec {
    pub seed: u32,
    pub tracks: u32,
    pub points: u32,
    /// Per mille of the time points at which a track has a key.
    pub density: u32,
    /// Number of seek frames per channel (0: none).
    pub divs: [u32; 3],
    /// Interval stored when there are no seek frames: 0 => 0.0, 1 => 1.0, 2 => small
    pub nodiv: u32,
    pub values: u32,
    pub times: u32,
    pub name: u32,
    /// 0: generated, otherwise an exported file (index + 1).
    #[serde(default)]
    pub file: u32,
    /// Not 0: a twin that differs from the animation described above in little (see `twin`).
    #[serde(default)]
    pub twin: u32,
}

impl AnimSpec {
    pub fn gen(rng: &mut Rng, max_tracks: u32) -> AnimSpec {
        let tracks = match rng.below(10) {
            0 => rng.range(1, 4) as u32,
            1 => 4 * rng.range(1, 4) as u32,
            2 => rng.range(29, 70) as u32,
            3 => *rng.pick(&[32u32, 31, 33, 64, 65]),
            _ => rng.range(1, 24) as u32,
        }
        .min(max_tracks);
        let points = match rng.below(12) {
            0 => 2,
            1 => rng.range(3, 6) as u32,
            2 => *rng.pick(&[254u32, 255, 256, 257]),
            3 => rng.range(240, 400) as u32,
            _ => rng.range(3, 60) as u32,
        };
        let density = match rng.below(4) {
            0 => rng.range(0, 100) as u32,
            1 => 1000,
            _ => rng.range(50, 700) as u32,
        };
        let density = if points > 200 { density.min(250) } else { density };
        let mut divs = [0u32; 3];
        if rng.pm(600) {
            for d in divs.iter_mut() {
                if rng.pm(750) {
                    *d = rng.range(1, 9) as u32;
                }
            }
            if rng.pm(300) {
                divs = [divs[0]; 3];
            }
        }
        AnimSpec {
            seed: rng.u64() as u32,
            tracks,
            points,
            density,
            divs,
            nodiv: rng.below(3) as u32,
            values: rng.below(5) as u32,
            times: rng.below(4) as u32,
            name: rng.below(4) as u32,
            file: 0,
            twin: 0,
        }
    }

    /// An animation with the same structure that differs in one key, one channel, one time or two
    /// tracks only.
    pub fn twin_of(&self, rng: &mut Rng) -> AnimSpec {
        AnimSpec { twin: 1 + rng.below(1 << 20) as u32, ..self.clone() }
    }

    /// Like `gen` but sometimes an exported file.
    pub fn gen_any(rng: &mut Rng, max_tracks: u32) -> AnimSpec {
        let mut s = AnimSpec::gen(rng, max_tracks);
        if max_tracks >= 67 && rng.pm(80) {
            s.file = 1 + rng.below(ANIM_FILES.len() as u64) as u32;
        }
        s
    }

    /// Makes it large: more keys in a channel than 16 bits can number.
    pub fn huge(&mut self, rng: &mut Rng) {
        self.file = 0;
        self.tracks = rng.range(36, 64) as u32;
        self.points = rng.range(1700, 2600) as u32;
        self.density = 1000;
        self.times = rng.below(2) as u32;
        for d in self.divs.iter_mut() {
            *d = rng.range(0, 12) as u32;
        }
    }

    /// More joints than a byte can number.
    pub fn wide(&mut self, rng: &mut Rng) {
        self.file = 0;
        self.tracks = wide_count(rng);
        self.points = rng.range(2, 9) as u32;
    }

    pub fn build(&self) -> AnimModel {
        let mut m = self.build_plain();
        if self.twin > 0 {
            m.make_twin(self.twin);
        }
        m
    }

    fn build_plain(&self) -> AnimModel {
        if self.file > 0 {
            return anim_file((self.file as usize - 1) % ANIM_FILES.len());
        }
        let mut rng = Rng::new(0xA11 ^ (self.seed as u64) << 8);
        let n = self.tracks as usize;
        let points = (self.points as usize).clamp(2, 4000);
        let mut tp: Vec<f32> = vec![0.0, 1.0];
        match self.times {
            0 => {
                for i in 1..points - 1 {
                    tp.push(i as f32 / (points - 1) as f32);
                }
            }
            1 => {
                for _ in 2..points {
                    tp.push(rng.f(0.0, 1.0));
                }
            }
            2 => {
                // clusters of neighbouring floats
                while tp.len() < points {
                    let c = rng.f(0.0, 1.0);
                    for k in 0..rng.below(4) as u32 + 1 {
                        let v = f32::from_bits(c.to_bits() + k);
                        if v < 1.0 && tp.len() < points {
                            tp.push(v);
                        }
                    }
                }
            }
            _ => {
                for _ in 2..points {
                    let v = match rng.below(4) {
                        0 => rng.f(0.0, 0.001),
                        1 => 1.0 - rng.f(0.0, 0.0001),
                        2 => rng.below(32) as f32 / 32.0,
                        _ => rng.f(0.0, 1.0),
                    };
                    tp.push(v);
                }
            }
        }
        tp.sort_by(|a, b| a.partial_cmp(b).unwrap());
        tp.dedup();
        let last = (tp.len() - 1) as u16;
        let al = (n + 3) & !3;
        let mut ch: [Chan; 3] = Default::default();
        for c in 0..3 {
            let divs = self.divs[c];
            ch[c].divs = divs;
            ch[c].interval = if divs > 0 {
                1.0 / divs as f32
            } else {
                [0.0, 1.0, 0.0625][self.nodiv as usize % 3]
            };
            for t in 0..al {
                let mut ks: Vec<(u16, [u16; 3])> = Vec::new();
                let dens = if t >= n {
                    0
                } else if self.density == 1000 {
                    1000
                } else {
                    // different rates per track
                    (self.density as u64 * (rng.below(3))) as u32
                };
                let mut idx: Vec<u16> = vec![0];
                for i in 1..last {
                    if rng.pm(dens) {
                        idx.push(i);
                    }
                }
                idx.push(last);
                let mut pq: Option<[f64; 4]> = None;
                for i in idx {
                    let key = if t >= n {
                        match c {
                            0 => [0, 0, 0],
                            1 => quat_pack([0.0, 0.0, 0.0, 1.0]),
                            _ => [to_half(1.0); 3],
                        }
                    } else if c == 1 {
                        let mut q = rand_quat(&mut rng, self.values, pq);
                        if let Some(p) = pq {
                            let d: f64 = (0..4).map(|i| p[i] * q[i]).sum();
                            if d < 0.0 {
                                for v in q.iter_mut() {
                                    *v = -*v;
                                }
                            }
                        }
                        let k = quat_pack(q);
                        pq = Some(quat_unpack(k));
                        k
                    } else {
                        let mut k = [0u16; 3];
                        for v in k.iter_mut() {
                            *v = match self.values {
                                0 => to_half(rng.f(-10.0, 10.0)),
                                1 => to_half(rng.f(-0.01, 0.01)),
                                2 => to_half(c as f32),
                                3 => {
                                    // any finite half
                                    loop {
                                        let h = rng.u64() as u16;
                                        if h & 0x7c00 != 0x7c00 {
                                            break h;
                                        }
                                    }
                                }
                                _ => to_half(rng.range(-3, 3) as f32),
                            };
                        }
                        k
                    };
                    ks.push((i, key));
                }
                ch[c].keys.push(ks);
            }
        }
        AnimModel {
            name: name(&mut rng, self.name),
            duration: rng.f(0.01, 20.0),
            num_tracks: n,
            timepoints: tp,
            ch,
        }
    }
}

impl AnimModel {
    fn make_twin(&mut self, twin: u32) {
        let mut rng = Rng::new(0x7319 ^ (twin as u64) << 8);
        let n = self.num_tracks;
        let c = rng.usize(0, 2);
        match rng.below(4) {
            // one key
            0 => {
                let t = rng.usize(0, n - 1);
                let k = rng.usize(0, self.ch[c].keys[t].len() - 1);
                self.ch[c].nudge(c, t, k, &mut rng);
            }
            // a whole channel
            1 => {
                for t in 0..n {
                    for k in 0..self.ch[c].keys[t].len() {
                        self.ch[c].nudge(c, t, k, &mut rng);
                    }
                }
            }
            // one time
            2 => {
                if self.timepoints.len() > 2 {
                    let i = rng.usize(1, self.timepoints.len() - 2);
                    let (a, b, o) = (self.timepoints[i - 1], self.timepoints[i + 1], self.timepoints[i]);
                    let v = if rng.pm(500) { (a + o) * 0.5 } else { (o + b) * 0.5 };
                    if v > a && v < b {
                        self.timepoints[i] = v;
                    }
                }
            }
            // two tracks change places
            _ => {
                let (a, b) = (rng.usize(0, n - 1), rng.usize(0, n - 1));
                if rng.pm(500) {
                    self.ch[c].keys.swap(a, b);
                } else {
                    for c in self.ch.iter_mut() {
                        c.keys.swap(a, b);
                    }
                }
            }
        }
    }
}

impl Chan {
    /// Changes the value of one key a little.
    fn nudge(&mut self, c: usize, t: usize, k: usize, rng: &mut Rng) {
        let ks = &mut self.keys[t];
        if c != 1 {
            let v = &mut ks[k].1[rng.usize(0, 2)];
            let f = half(*v) as f32;
            *v = to_half((f * 1.25 + 0.125).clamp(-60000.0, 60000.0));
            return;
        }
        let mut q = quat_unpack(ks[k].1);
        q[rng.usize(0, 3)] += 0.1;
        let l: f64 = q.iter().map(|x| x * x).sum::<f64>().sqrt();
        if l < 0.05 {
            return;
        }
        let new = quat_pack(q.map(|x| x / l));
        let un = quat_unpack(new);
        // neighbours stay in the same half space
        let ok = |o: Option<&(u16, [u16; 3])>| {
            o.map_or(true, |o| {
                let o = quat_unpack(o.1);
                (0..4).map(|i| o[i] * un[i]).sum::<f64>() >= 0.0
            })
        };
        if ok(k.checked_sub(1).map(|k| &ks[k])) && ok(ks.get(k + 1)) {
            ks[k].1 = new;
        }
    }
}

pub fn rand_quat(rng: &mut Rng, style: u32, prev: Option<[f64; 4]>) -> [f64; 4] {
    let mut q = match style {
        2 => [0.0, 0.0, 0.0, 1.0],
        4 => {
            let mut q = [0.0; 4];
            q[rng.below(4) as usize] = if rng.pm(500) { 1.0 } else { -1.0 };
            if rng.pm(500) {
                q[rng.below(4) as usize] += 1.0;
            }
            q
        }
        1 if prev.is_some() => {
            let p = prev.unwrap();
            [0, 1, 2, 3].map(|i| p[i] + rng.unit() * 0.1)
        }
        _ => [0; 4].map(|_| rng.unit() * 2.0 - 1.0),
    };
    let mut l: f64 = q.iter().map(|x| x * x).sum::<f64>().sqrt();
    if l < 0.05 {
        q = [0.0, 0.0, 0.0, 1.0];
        l = 1.0;
    }
    for v in q.iter_mut() {
        *v /= l;
    }
    q
}

pub const ANIM_FILES: &[&str] = &[
    "additive/animation_base",
    "additive/animation_curl_additive",
    "additive/animation_splay_additive",
    "blend/animation1",
    "blend/animation2",
    "blend/animation3",
    "look_at/animation",
    "motion/animation",
    "partial_blend/animation_partial",
    "playback/animation",
    "motion_blend/animation1",
    "motion_blend/animation2",
];

#[cfg(target_arch = "wasm32")]
pub fn resource(name: &str) -> Option<Vec<u8>> {
    #[link(wasm_import_module = "host")]
    extern "C" {
        /// Length of a file (negative: none); copies it when there is room.
        fn file(name: *const u8, n: usize, to: *mut u8, room: usize) -> i32;
    }
    let n = unsafe { file(name.as_ptr(), name.len(), std::ptr::null_mut(), 0) };
    let mut v = vec![0u8; usize::try_from(n).ok()?];
    unsafe { file(name.as_ptr(), name.len(), v.as_mut_ptr(), v.len()) };
    Some(v)
}

#[cfg(not(target_arch = "wasm32"))]
pub fn resource(name: &str) -> Option<Vec<u8>> {
    std::fs::read(format!("/repo/resource/{name}.ozz")).ok()
}

pub fn anim_file(i: usize) -> AnimModel {
    use std::cell::RefCell;
    thread_local!(static CACHE: RefCell<Vec<Option<AnimModel>>> = const { RefCell::new(Vec::new()) });
    CACHE.with(|c| {
        let mut c = c.borrow_mut();
        c.resize(ANIM_FILES.len(), None);
        if c[i].is_none() {
            let m = match resource(ANIM_FILES[i]) {
                Some(b) => AnimModel::parse(&b).0,
                None => anim_fallback(),
            };
            c[i] = Some(m);
        }
        c[i].clone().unwrap()
    })
}

fn anim_fallback() -> AnimModel {
    AnimSpec { seed: 7, tracks: 67, points: 40, density: 300, divs: [0; 3], nodiv: 1, values: 0, times: 0, name: 1, file: 0, twin: 0 }.build()
}

// ------------------------------------------------------------------------------------------------
// skeleton
// ------------------------------------------------------------------------------------------------

#[derive(Clone, Debug, Default)]
pub struct SkelModel {
    pub names: Vec<String>,
    pub parents: Vec<i16>,
    /// Per soa joint: 40 floats (tx4 ty4 tz4 qx4 qy4 qz4 qw4 sx4 sy4 sz4).
    pub rest: Vec<[f32; 40]>,
}

impl SkelModel {
    pub fn n(&self) -> usize {
        self.parents.len()
    }
    pub fn soa(&self) -> usize {
        self.n().div_ceil(4)
    }
    pub fn write(&self, w: &mut W) {
        w.endian();
        self.body(w);
    }
    pub fn body(&self, w: &mut W) {
        w.mark();
        w.cstr("ozz-skeleton");
        w.mark();
        w.u32(2);
        w.mark();
        w.u32(self.n() as u32);
        w.mark();
        if self.n() == 0 {
            // an empty skeleton stores nothing else
            return;
        }
        let chars: usize = self.names.iter().map(|n| n.len() + 1).sum();
        w.u32(chars as u32);
        for n in &self.names {
            w.mark();
            w.text(n);
            w.u8(0);
        }
        w.mark();
        for &p in &self.parents {
            w.u16(p as u16);
        }
        for r in &self.rest {
            w.mark();
            for &v in r {
                w.f32(v);
            }
        }
        w.mark();
    }
    pub fn bytes(&self, big: bool) -> Vec<u8> {
        let mut w = W::new(big);
        self.write(&mut w);
        w.b
    }
    pub fn parse(b: &[u8]) -> SkelModel {
        let mut r = Rd::new(b);
        assert_eq!(r.cstr(), "ozz-skeleton");
        assert_eq!(r.u32(), 2);
        let n = r.u32() as usize;
        let _ = r.u32();
        let names = (0..n).map(|_| r.cstr()).collect();
        let parents = (0..n).map(|_| r.u16() as i16).collect();
        let rest = (0..n.div_ceil(4))
            .map(|_| {
                let mut a = [0f32; 40];
                for v in a.iter_mut() {
                    *v = r.f32();
                }
                a
            })
            .collect();
        assert_eq!(r.i, b.len());
        SkelModel { names, parents, rest }
    }
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct SkelSpec {
    pub seed: u32,
    pub joints: u32,
    /// 0 bushy, 1 chain, 2 star, 3 forest (many roots), 4 mixed
    pub shape: u32,
    pub names: u32,
}

fn wide_count(rng: &mut Rng) -> u32 {
    match rng.below(3) {
        0 => *rng.pick(&[127u32, 128, 129, 255, 256, 257, 260, 512, 513, 1023, 1024]),
        1 => rng.range(100, 300) as u32,
        _ => rng.range(100, 1024) as u32,
    }
}

impl SkelSpec {
    pub fn gen(rng: &mut Rng, max: u32) -> SkelSpec {
        SkelSpec {
            seed: rng.u64() as u32,
            joints: match rng.below(6) {
                0 => rng.range(1, 5) as u32,
                1 => *rng.pick(&[4u32, 8, 16, 31, 32, 33]),
                2 => rng.range(40, 80) as u32,
                _ => rng.range(2, 24) as u32,
            }
            .min(max),
            shape: rng.below(5) as u32,
            names: rng.below(3) as u32,
        }
    }

    /// More joints than a byte can number, up to the supported 1024.
    pub fn wide(&mut self, rng: &mut Rng) {
        self.joints = wide_count(rng);
    }

    pub fn build(&self) -> SkelModel {
        let mut rng = Rng::new(0x5CE1 ^ (self.seed as u64) << 8);
        let n = self.joints as usize;
        let mut parents: Vec<i16> = Vec::new();
        for i in 0..n {
            if i == 0 {
                parents.push(-1);
                continue;
            }
            // any joint on the path from joint i-1 to its root keeps depth-first order
            let mut path = vec![(i - 1) as i16];
            while *path.last().unwrap() >= 0 {
                path.push(parents[*path.last().unwrap() as usize]);
            }
            let p = match self.shape {
                1 => path[0],
                2 => path[path.len() - 2],
                3 => {
                    if rng.pm(300) {
                        -1
                    } else {
                        *rng.pick(&path)
                    }
                }
                0 => path[rng.usize(0, path.len() - 2)],
                _ => {
                    if rng.pm(500) {
                        path[0]
                    } else {
                        path[rng.usize(0, path.len() - 2)]
                    }
                }
            };
            parents.push(p);
        }
        let names = (0..n)
            .map(|i| match self.names {
                0 => format!("joint{i}"),
                1 => format!("ボーン_{i}_é"),
                _ => {
                    if i == 0 {
                        String::new()
                    } else {
                        format!("{}{}", "x".repeat(rng.usize(0, 30)), i)
                    }
                }
            })
            .collect();
        let rest = (0..n.div_ceil(4)).map(|_| rand_soa(&mut rng, 0)).collect();
        SkelModel { names, parents, rest }
    }
}

/// Random soa transform. style 0: ordinary, 1: unit scale, 2: wild but finite.
pub fn rand_soa(rng: &mut Rng, style: u32) -> [f32; 40] {
    let mut a = [0f32; 40];
    for l in 0..4 {
        let qs = if rng.pm(100) { 4 } else { 0 };
        let q = rand_quat(rng, qs, None);
        // signed zeros and values below the normal range
        let edge = rng.pm(50);
        for c in 0..3 {
            a[c * 4 + l] = match style {
                _ if edge => *rng.pick(&[0.0, -0.0, 1e-40, -3e-39, 1.0]),
                2 => rng.f(-1000.0, 1000.0),
                _ => rng.f(-5.0, 5.0),
            };
            a[28 + c * 4 + l] = match style {
                1 => 1.0,
                2 => rng.f(-3.0, 3.0),
                _ => rng.f(0.5, 1.5),
            };
        }
        for c in 0..4 {
            a[12 + c * 4 + l] = q[c] as f32;
        }
    }
    a
}

// ------------------------------------------------------------------------------------------------
// track
// ------------------------------------------------------------------------------------------------

#[derive(Clone, Debug, Default)]
pub struct TrackModel {
    /// 1, 2, 3, 4 components, 5: quaternion
    pub kind: u32,
    pub name: String,
    pub ratios: Vec<f32>,
    pub values: Vec<[f32; 4]>,
    pub steps: Vec<bool>,
}

impl TrackModel {
    pub fn comps(&self) -> usize {
        if self.kind == 5 {
            4
        } else {
            self.kind as usize
        }
    }
    pub fn tag(&self) -> &'static str {
        ["ozz-float_track", "ozz-float2_track", "ozz-float3_track", "ozz-float4_track", "ozz-quat_track"][self.kind as usize - 1]
    }
    pub fn step_bytes(&self) -> Vec<u8> {
        let mut v = vec![0u8; self.ratios.len().div_ceil(8)];
        for (i, &s) in self.steps.iter().enumerate() {
            if s {
                v[i / 8] |= 1 << (i % 8);
            }
        }
        v
    }
    pub fn write(&self, w: &mut W) {
        w.endian();
        self.body(w);
    }
    pub fn body(&self, w: &mut W) {
        w.mark();
        w.cstr(self.tag());
        w.mark();
        w.u32(1);
        w.mark();
        w.u32(self.ratios.len() as u32);
        w.mark();
        w.u32(self.name.len() as u32);
        w.mark();
        for &r in &self.ratios {
            w.f32(r);
        }
        w.mark();
        for v in &self.values {
            for c in 0..self.comps() {
                w.f32(v[c]);
            }
        }
        w.mark();
        let s = self.step_bytes();
        w.b.extend_from_slice(&s);
        w.mark();
        w.text(&self.name);
        w.mark();
    }
    pub fn bytes(&self, big: bool) -> Vec<u8> {
        let mut w = W::new(big);
        self.write(&mut w);
        w.b
    }
    pub fn parse(b: &[u8]) -> TrackModel {
        let mut r = Rd::new(b);
        let tag = r.cstr();
        let kind = match tag.as_str() {
            "ozz-float_track" => 1,
            "ozz-float2_track" => 2,
            "ozz-float3_track" => 3,
            "ozz-float4_track" => 4,
            _ => 5,
        };
        assert_eq!(r.u32(), 1);
        let n = r.u32() as usize;
        let nl = r.u32() as usize;
        let mut m = TrackModel { kind, ..TrackModel::default() };
        m.ratios = (0..n).map(|_| r.f32()).collect();
        for _ in 0..n {
            let mut v = [0.0; 4];
            for c in 0..m.comps() {
                v[c] = r.f32();
            }
            m.values.push(v);
        }
        let st: Vec<u8> = (0..n.div_ceil(8)).map(|_| r.u8()).collect();
        m.steps = (0..n).map(|i| st[i / 8] & (1 << (i % 8)) != 0).collect();
        m.name = String::from_utf8(b[r.i..r.i + nl].to_vec()).unwrap();
        m
    }
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct TrackSpec {
    pub seed: u32,
    pub kind: u32,
    pub keys: u32,
    /// per mille of step keys
    pub step: u32,
    pub values: u32,
    pub times: u32,
    pub name: u32,
}

impl TrackSpec {
    pub fn gen(rng: &mut Rng, kind: u32) -> TrackSpec {
        TrackSpec {
            seed: rng.u64() as u32,
            kind,
            keys: match rng.below(5) {
                0 => *rng.pick(&[0u32, 1, 2, 2, 2, 2]),
                1 => *rng.pick(&[8u32, 9, 7, 16, 17, 8, 9, 7, 16, 17, 255, 256, 257, 300]),
                _ => rng.range(2, 20) as u32,
            },
            step: *rng.pick(&[0u32, 1000, 300, 700]),
            values: rng.below(4) as u32,
            times: rng.below(3) as u32,
            name: rng.below(4) as u32,
        }
    }

    pub fn build(&self) -> TrackModel {
        let mut rng = Rng::new(0x7AC ^ (self.seed as u64) << 8);
        let n = (self.keys as usize).max(2);
        let mut ratios: Vec<f32> = vec![0.0, 1.0];
        let mut guard = 0;
        while ratios.len() < n && guard < 10000 {
            guard += 1;
            let v = match self.times {
                0 => rng.f(0.0, 1.0),
                1 => rng.below(64) as f32 / 64.0,
                _ => rng.below(1024) as f32 / 1024.0,
            };
            if v > 0.0 && v < 1.0 && !ratios.contains(&v) {
                ratios.push(v);
            }
        }
        ratios.sort_by(|a, b| a.partial_cmp(b).unwrap());
        let values: Vec<[f32; 4]> = ratios
            .iter()
            .enumerate()
            .map(|(i, _)| {
                if self.kind == 5 {
                    let q = rand_quat(&mut rng, 0, None);
                    return q.map(|x| x as f32);
                }
                let mut v = [0f32; 4];
                for x in v.iter_mut() {
                    *x = match self.values {
                        0 => rng.f(-2.0, 2.0),
                        1 => rng.range(-1, 1) as f32,
                        2 => {
                            if i % 2 == 0 {
                                0.0
                            } else {
                                1.0
                            }
                        }
                        _ => rng.range(-4, 4) as f32 * 0.5,
                    };
                }
                v
            })
            .collect();
        let steps = ratios.iter().map(|_| rng.pm(self.step)).collect();
        let mut m = TrackModel { kind: self.kind, name: name(&mut rng, self.name), ratios, values, steps };
        if self.keys < 2 {
            // a constant track, or one without keys
            m.ratios.truncate(self.keys as usize);
            m.values.truncate(self.keys as usize);
            m.steps.truncate(self.keys as usize);
        }
        m
    }
}
