//! C12 (edges exactly once over any cutting of time) and C13 (edges against sampled values).

use crate::cx::{fail, plan, Cx, Mem, Prop, Res};
use crate::ensure;
use crate::gen::{TrackModel, TrackSpec};
use crate::rng::{Fnv, Rng};
use crate::util::*;
use ozz_animation_rs::*;
use serde::{Deserialize, Serialize};
use serde_json::Value;
use std::sync::Arc;

#[derive(Serialize, Deserialize, Clone, Debug)]
enum Cut {
    Frac(f32),
    /// The time of a key in the loop at this fraction of the span, shifted by ulps.
    Key(u32, f32, i32),
    /// The time of an edge, likewise.
    Edge(u32, f32, i32),
    /// A loop point in the span, shifted by ulps.
    Loop(f32, i32),
}

#[derive(Serialize, Deserialize, Clone, Debug)]
struct Leg {
    span: f32,
    /// End on: 0 as is, 1 next integer, 2 a key
    snap: u32,
    cuts: Vec<Cut>,
    /// Consume only this many edges of a frame, drop the iterator and start the frame again.
    abandon: u32,
    /// How the two whole-span iterators take turns.
    turns: u32,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
struct Plan {
    mem: Mem,
    big: bool,
    track: TrackSpec,
    /// Other tracks (sampled only), C13.
    other: TrackSpec,
    thr: u32,
    start: f32,
    legs: Vec<Leg>,
    ticks: Vec<Tick>,
}

fn gen(rng: &mut Rng, _thorough: bool, far: bool) -> Value {
    let mut track = TrackSpec::gen(rng, 1);
    if rng.pm(40) {
        track.keys = 1;
    }
    if rng.pm(150) {
        track.times = 3; // keys one or a few ulps apart
    }
    let kind = rng.range(1, 5) as u32;
    let other = TrackSpec::gen(rng, kind);
    let start = match rng.below(if far { 12 } else { 7 }) {
        0..=2 => 0.0,
        3 => rng.f(-3.0, 3.0),
        4 => rng.range(-4, 4) as f32,
        5 => rng.f(-300.0, 300.0),
        6 => rng.range(-200, 200) as f32 + 0.5,
        7 => rng.f(-70000.0, 70000.0),
        8 => rng.f(8.0e6, 8.8e6),
        9 => -rng.f(8.0e6, 1.7e7),
        10 => 16777216.0 + rng.range(-6, 6) as f32,
        _ => *rng.pick(&[1.0f32, -1.0]) * rng.f(1.6e7, 2.0e8),
    };
    let nlegs = rng.usize(1, 3);
    let legs = (0..nlegs)
        .map(|_| {
            let mut span = match rng.below(6) {
                0 => rng.f(0.0, 0.2),
                1 => rng.f(0.0, 8.0),
                2 => rng.range(1, 4) as f32,
                _ => rng.f(0.0, 2.0),
            };
            if start.abs() > 1e6 {
                span = span.max(start.abs() * 1.5e-7) * rng.f(1.0, 3.0);
            }
            if rng.pm(350) {
                span = -span;
            }
            let n = rng.usize(0, 9);
            Leg {
                span,
                snap: rng.below(3) as u32,
                cuts: (0..n)
                    .map(|_| {
                        let d = *rng.pick(&[0, 0, 0, 1, -1, 2]);
                        match rng.below(5) {
                            0 => Cut::Frac(rng.f(0.0, 1.0)),
                            1 => Cut::Key(rng.below(64) as u32, rng.f(0.0, 1.0), d),
                            2 | 3 => Cut::Edge(rng.below(64) as u32, rng.f(0.0, 1.0), d),
                            _ => Cut::Loop(rng.f(0.0, 1.0), d),
                        }
                    })
                    .collect(),
                abandon: if rng.pm(300) { rng.below(4) as u32 } else { 0 },
                turns: rng.u64() as u32,
            }
        })
        .collect();
    serde_json::to_value(Plan {
        mem: Mem::gen(rng),
        big: rng.pm(200),
        track,
        other,
        thr: rng.below(40) as u32,
        start,
        legs,
        ticks: (0..rng.usize(0, 12)).map(|_| Tick::gen(rng)).collect(),
    })
    .unwrap()
}

fn gen12(rng: &mut Rng, t: bool) -> Value {
    gen(rng, t, true)
}
fn gen13(rng: &mut Rng, t: bool) -> Value {
    gen(rng, t, false)
}

type E = (f32, bool);

fn conv(e: Edge) -> E {
    let v = serde_json::to_value(e).unwrap();
    let o = (v["ratio"].as_f64().map(|x| x as f32).unwrap_or(f32::NAN), v["rising"].as_bool().unwrap());
    debug_assert!(Edge::new(o.0, o.1) == e);
    o
}

/// Edges of one pass over the loop: (ratio, rising, step).
pub fn model_edges(m: &TrackModel, thr: f32) -> Vec<(f64, bool, bool)> {
    let n = m.ratios.len();
    let mut v = Vec::new();
    for i in 0..n {
        let p = if i == 0 { n - 1 } else { i - 1 };
        let (a, b) = (m.values[p][0], m.values[i][0]);
        if (a > thr) == (b > thr) {
            continue;
        }
        let step = m.steps[p];
        let r = if step {
            m.ratios[i] as f64
        } else if i == 0 {
            0.0
        } else {
            let al = (thr as f64 - a as f64) / (b as f64 - a as f64);
            m.ratios[p] as f64 + (m.ratios[i] as f64 - m.ratios[p] as f64) * al
        };
        v.push((r, b > thr, step));
    }
    v
}

fn ulps(v: f32, d: i32) -> f32 {
    let mut v = v;
    for _ in 0..d.unsigned_abs() {
        v = if d > 0 { v.next_up() } else { v.next_down() };
    }
    v
}

fn build(p: &Plan) -> (TrackModel, f32) {
    let mut m = p.track.build();
    if p.track.times >= 3 {
        // squeeze the inner keys together and against the ends
        let n = m.ratios.len();
        let mut rng = Rng::new(p.track.seed as u64 ^ 0x51);
        let at = *rng.pick(&[0.5f32, 1.0, 0.25, 0.75]);
        if n > 2 {
            let mut r = at;
            for i in (1..n - 1).rev() {
                for _ in 0..rng.range(1, 3) {
                    r = r.next_down();
                }
                m.ratios[i] = r;
            }
        }
    }
    let n = m.values.len();
    if n == 0 {
        return (m, 0.0);
    }
    let k = p.thr as usize;
    let thr = match k % 4 {
        0 => m.values[k % n][0],
        1 => (m.values[k % n][0] + m.values[(k + 1) % n][0]) * 0.5,
        2 => 0.0,
        _ => m.values[k % n][0] * 0.9 + m.values[(k / 4) % n][0] * 0.1,
    };
    (m, thr)
}

fn key(m: &TrackModel, i: usize) -> f32 {
    m.ratios.get(i % m.ratios.len().max(1)).copied().unwrap_or(0.5)
}

fn end_of(a: f32, leg: &Leg, m: &TrackModel) -> f32 {
    let mut b = a + leg.span;
    match leg.snap {
        1 => b = b.round(),
        2 => b = b.floor() + key(m, leg.cuts.len()),
        _ => {}
    }
    b
}

fn cuts_of(a: f32, b: f32, leg: &Leg, m: &TrackModel, edges: &[(f64, bool, bool)], cx: &mut Cx) -> Vec<f32> {
    let (lo, hi) = (a.min(b), a.max(b));
    let mut v = Vec::new();
    for c in &leg.cuts {
        let base = |f: f32| (lo + (hi - lo) * f).floor();
        let t = match *c {
            Cut::Frac(f) => lo + (hi - lo) * f,
            Cut::Key(i, f, d) => {
                cx.fault("frame boundary on a key");
                ulps(base(f) + key(m, i as usize), d)
            }
            Cut::Edge(i, f, d) => {
                if edges.is_empty() {
                    lo
                } else {
                    cx.fault("frame boundary on an edge");
                    ulps(base(f) + edges[i as usize % edges.len()].0 as f32, d)
                }
            }
            Cut::Loop(f, d) => {
                cx.fault("frame boundary on a loop point");
                ulps(base(f), d)
            }
        };
        if t > lo && t < hi {
            v.push(t);
        }
    }
    v.sort_by(|x, y| x.partial_cmp(y).unwrap());
    v.dedup();
    if b < a {
        v.reverse();
    }
    v.insert(0, a);
    v.push(b);
    v
}

/// More edges than this cannot lie between two times.
fn limit(a: f32, b: f32, track: &Track<f32>) -> usize {
    (((b - a).abs() as usize).min(10_000) + 3) * track.key_count() + 1000
}

fn drain<T: OzzObj<Track<f32>>>(limit: usize, it: &mut track_triggering_job::TrackTriggeringIter<T>) -> Res<Vec<E>> {
    let mut v = Vec::new();
    for e in it.by_ref() {
        v.push(conv(e));
        if v.len() > limit {
            return fail("endless", format!("more than {limit} edges: the iteration does not end (last {:?})", v.last()));
        }
    }
    Ok(v)
}

fn play(job: &mut TrackTriggeringJobArc, a: f32, b: f32, abandon: u32, cx: &mut Cx) -> Res<Vec<E>> {
    job.set_from(a);
    job.set_to(b);
    let n = limit(a, b, job.track().unwrap());
    if abandon > 0 {
        cx.fault("frame abandoned part way");
        let mut it = job.run().map_err(|e| crate::cx::Violation { class: "run-refused".into(), detail: format!("{e:?}") })?;
        for _ in 0..abandon {
            if it.next().is_none() {
                ensure!(it.next().is_none(), "not-fused", "an edge after the end of the iteration");
                break;
            }
        }
    }
    let mut it = job.run().map_err(|e| crate::cx::Violation { class: "run-refused".into(), detail: format!("{e:?}") })?;
    drain(n, &mut it)
}

fn exec12(v: &Value, cx: &mut Cx) -> Res {
    let p: Plan = plan(v)?;
    p.mem.apply(cx);
    let (m, thr) = build(&p);
    let edges = model_edges(&m, thr);
    let track = Arc::new(load_track::<f32>(&m, p.big)?);
    let mut job: TrackTriggeringJobArc = TrackTriggeringJob::default();
    job.set_track(track.clone());
    job.set_threshold(thr);
    let mut a = p.start;
    for (li, leg) in p.legs.iter().enumerate() {
        let b = end_of(a, leg, &m);
        let cuts = cuts_of(a, b, leg, &m, &edges, cx);
        if (b - a).abs() > 4000.0 && a.abs() < 1e6 || !b.is_finite() {
            return fail(crate::cx::BAD_PLAN, "span");
        }
        cx.sim_us += ((b - a).abs().min(1e6) as f64 * 1e6) as u64;
        if b < a {
            cx.fault("time runs backward");
        }
        if a.abs() >= 8388608.0 {
            cx.fault("far from time zero");
        }
        // whole span at once, forward and backward, two iterators taking turns
        let (mut j1, mut j2): (TrackTriggeringJobArc, TrackTriggeringJobArc) = Default::default();
        for (j, x, y) in [(&mut j1, a, b), (&mut j2, b, a)] {
            j.set_track(track.clone());
            j.set_threshold(thr);
            j.set_from(x);
            j.set_to(y);
        }
        let (mut w1, mut w2) = (Vec::new(), Vec::new());
        {
            let (mut i1, mut i2) = match (j1.run(), j2.run()) {
                (Ok(x), Ok(y)) => (x, y),
                _ => return fail("run-refused", "a job with a track is refused"),
            };
            for k in 0..leg.turns % 32 {
                let (it, w) = if leg.turns >> (k % 27 + 5) & 1 == 0 { (&mut i1, &mut w1) } else { (&mut i2, &mut w2) };
                if let Some(e) = it.next() {
                    w.push(conv(e));
                }
            }
            w1.extend(drain(limit(a, b, &track), &mut i1)?);
            w2.extend(drain(limit(a, b, &track), &mut i2)?);
        }
        // frame by frame
        let mut got = Vec::new();
        for k in 1..cuts.len() {
            cx.steps += 1;
            let f = play(&mut job, cuts[k - 1], cuts[k], if k % 2 == 1 { leg.abandon } else { 0 }, cx)?;
            cx.note(|| format!("leg {li} frame {k}: {} .. {} -> {:?}", cuts[k - 1], cuts[k], f));
            let mut h = Fnv::new();
            h.u64(f.len() as u64);
            h.u64((cuts[k] == cuts[k].floor()) as u64);
            h.u64((b < a) as u64);
            h.u64(((cuts[k] - cuts[k].floor()) * 64.0) as u64);
            h.u64(m.ratios.len() as u64);
            h.u64(edges.len() as u64);
            cx.state(h.finish());
            let (lo, hi) = (cuts[k - 1].min(cuts[k]), cuts[k - 1].max(cuts[k]));
            for e in &f {
                ensure!(e.0 >= lo && e.0 <= hi, "outside-frame", "leg {li} frame {k} ({} .. {}) reports an edge at {}", cuts[k - 1], cuts[k], e.0);
            }
            got.extend(f);
        }
        ensure!(
            got == w1,
            "not-once",
            "leg {li} from {a} to {b}, threshold {thr}: cut at {:?} the edges are {got:?}, in one frame {w1:?}",
            &cuts[1..cuts.len() - 1]
        );
        let mirrored: Vec<E> = w2.iter().rev().map(|&(t, r)| (t, !r)).collect();
        ensure!(mirrored == w1, "not-mirrored", "leg {li} from {a} to {b}, threshold {thr}: edges {w1:?}, backward reversed {mirrored:?}");
        // in time order
        for w in w1.windows(2) {
            let ok = if b >= a { w[1].0 >= w[0].0.next_down() } else { w[1].0 <= w[0].0.next_up() };
            ensure!(ok, "order", "leg {li} from {a} to {b}: edge {:?} then {:?}", w[0], w[1]);
        }
        // against the model
        let (lo, hi) = (a.min(b) as f64, a.max(b) as f64);
        let tol = 4e-7 * lo.abs().max(hi.abs()).max(1.0);
        let mut want = Vec::new();
        let mut l = lo.floor() - 1.0;
        while l <= hi {
            for &(r, up, _) in &edges {
                let t = l + r;
                if t >= lo - tol && t <= hi + tol {
                    want.push((t, up, t < lo + tol || t > hi - tol));
                }
            }
            l += 1.0;
        }
        let seen: Vec<E> = if b >= a { w1.clone() } else { w1.iter().rev().map(|&(t, r)| (t, !r)).collect() };
        // `seen` must be `want` without some of the optional edges: the set of possible positions in `seen`
        let mut pos: Vec<usize> = vec![0];
        for &(t, up, opt) in &want {
            let mut next: Vec<usize> = Vec::new();
            for &i in &pos {
                if opt && next.last() != Some(&i) {
                    next.push(i);
                }
                if i < seen.len() && seen[i].1 == up && (seen[i].0 as f64 - t).abs() <= tol {
                    next.push(i + 1);
                }
            }
            next.dedup();
            if next.is_empty() {
                let i = *pos.last().unwrap();
                return fail(
                    "wrong-edges",
                    format!(
                        "leg {li} from {a} to {b}, threshold {thr}: the curve has a {} edge at {t}, reported instead: {:?}",
                        if up { "rising" } else { "falling" },
                        seen.get(i)
                    ),
                );
            }
            pos = next;
        }
        ensure!(
            pos.last() == Some(&seen.len()),
            "spurious-edge",
            "leg {li} from {a} to {b}, threshold {thr}: edge {:?} is not an edge of the curve",
            seen.get(*pos.last().unwrap())
        );
        for e in &w1 {
            cx.f32s(&[e.0]);
            cx.u(e.1 as u64);
        }
        if !w1.is_empty() {
            cx.probe("leg with edges");
        }
        if hi - lo > 1.0 {
            cx.probe("leg longer than a loop");
        }
        a = b;
    }
    Ok(())
}

fn sample_model(m: &TrackModel, r: f32) -> ([f64; 4], f64) {
    let n = m.ratios.len();
    let c = m.comps();
    let val = |i: usize| {
        let mut o = [0f64; 4];
        let mut mag = 0f64;
        for k in 0..c {
            o[k] = m.values[i][k] as f64;
            mag = mag.max(o[k].abs());
        }
        (o, mag)
    };
    if n == 0 {
        return ([0.0, 0.0, 0.0, if m.kind == 5 { 1.0 } else { 0.0 }], 0.0);
    }
    if n == 1 || r < 0.0 {
        return val(0);
    }
    if r > 1.0 {
        return val(n - 1);
    }
    let mut i = 0;
    while i + 1 < n && m.ratios[i + 1] <= r {
        i += 1;
    }
    if i + 1 == n || m.steps[i] {
        return val(i);
    }
    let al = (r as f64 - m.ratios[i] as f64) / (m.ratios[i + 1] as f64 - m.ratios[i] as f64);
    let ((x, mx), (mut y, my)) = (val(i), val(i + 1));
    let mut o = [0.0; 4];
    if m.kind == 5 {
        let dot: f64 = (0..4).map(|k| x[k] * y[k]).sum();
        if dot < 0.0 {
            for k in 0..4 {
                y[k] = -y[k];
            }
        }
    }
    for k in 0..4 {
        o[k] = x[k] + (y[k] - x[k]) * al;
    }
    if m.kind == 5 {
        let l = (0..4).map(|k| o[k] * o[k]).sum::<f64>().sqrt();
        for k in 0..4 {
            o[k] /= l;
        }
    }
    (o, mx.max(my))
}

fn sample_check<V: track::TrackValue>(m: &TrackModel, big: bool, ticks: &[Tick], comps: fn(V) -> Vec<f32>, cx: &mut Cx) -> Res {
    let t = Arc::new(load_track::<V>(m, big)?);
    let mut job: TrackSamplingJob<V, Arc<Track<V>>> = TrackSamplingJob::default();
    job.set_track(t);
    let mut clock = Clock { at: 0.0 };
    for (i, tick) in ticks.iter().enumerate() {
        cx.steps += 1;
        let r = clock.step(tick, &m.ratios, cx);
        if r.is_nan() {
            continue;
        }
        job.set_ratio(r);
        if let Err(e) = job.run() {
            return fail("run-refused", format!("track sampling at {r}: {e:?}"));
        }
        let got = comps(job.result());
        let (want, mag) = sample_model(m, r);
        for c in 0..m.comps() {
            ensure!(
                (got[c] as f64 - want[c]).abs() <= 2e-6 * mag.max(1e-3),
                "wrong-value",
                "tick {i}: track of kind {} at {r}: component {c} is {} but the stored curve gives {}",
                m.kind,
                got[c],
                want[c]
            );
        }
        cx.f32s(&got);
        cx.note(|| format!("sample kind {} at {r}: {got:?}", m.kind));
    }
    Ok(())
}

fn exec13(v: &Value, cx: &mut Cx) -> Res {
    let p: Plan = plan(v)?;
    p.mem.apply(cx);
    let (m, thr) = build(&p);
    let edges = model_edges(&m, thr);
    let track = Arc::new(load_track::<f32>(&m, p.big)?);
    let mut job: TrackTriggeringJobArc = TrackTriggeringJob::default();
    job.set_track(track.clone());
    job.set_threshold(thr);
    let mut sj: TrackSamplingJob<f32, Arc<Track<f32>>> = TrackSamplingJob::default();
    sj.set_track(track.clone());
    let mut sample = |r: f32| -> Res<f32> {
        sj.set_ratio(r);
        match sj.run() {
            Ok(()) => Ok(sj.result()),
            Err(e) => fail("run-refused", format!("{e:?}")),
        }
    };
    let mut mag = 0f32;
    for v in &m.values {
        mag = mag.max(v[0].abs());
    }
    let vtol = 2e-6 * mag.max(thr.abs()).max(1e-3);

    // each edge lies where the sampled value crosses
    let one = play_one(&mut job, 0.0, 1.0)?;
    for &(t, up) in &one {
        let Some(&(r, _, step)) = edges.iter().filter(|e| e.1 == up).min_by(|x, y| (x.0 - t as f64).abs().partial_cmp(&(y.0 - t as f64).abs()).unwrap())
        else {
            return fail("spurious-edge", format!("edge {t} {up}, threshold {thr}"));
        };
        ensure!((r - t as f64).abs() < 1e-6, "edge-time", "edge at {t} but the stored curve crosses {thr} at {r}");
        if t > 0.0 && t < 1.0 {
            if step {
                let (x, y) = (sample(t.next_down())?, sample(t)?);
                let near = edges.iter().filter(|e| (e.0 - t as f64).abs() < 1e-6).count() > 1;
                if !near {
                    ensure!((x > thr) != up && (y > thr) == up, "edge-sample", "step edge {up} at {t}: sampled {x} just before and {y} at it, threshold {thr}");
                }
            } else {
                let x = sample(t)?;
                // the curve may be steep: one ulp of time changes the value by slope * ulp
                let slope = m.ratios.windows(2).enumerate().map(|(i, w)| ((m.values[i + 1][0] - m.values[i][0]) / (w[1] - w[0])).abs()).fold(0f32, f32::max);
                let near_step = m.ratios.iter().any(|k| (k - t).abs() < 1e-6);
                if !near_step {
                    ensure!((x - thr).abs() <= vtol + slope * 2.4e-7, "edge-sample", "edge {up} at {t}: sampled {x}, threshold {thr}");
                }
            }
        }
    }

    // playback: the state given by the edges follows the sampled value
    let mut a = p.start;
    for (li, leg) in p.legs.iter().enumerate() {
        let b = end_of(a, leg, &m);
        if (b - a).abs() > 400.0 || a.abs() > 2000.0 || !b.is_finite() {
            return fail(crate::cx::BAD_PLAN, "span");
        }
        if b < a {
            cx.fault("time runs backward");
        }
        let cuts = cuts_of(a, b, leg, &m, &edges, cx);
        cx.sim_us += ((b - a).abs() as f64 * 1e6) as u64;
        let tol = 4e-7 * (a.abs().max(b.abs()) as f64).max(1.0) + 1e-6;
        let far = |t: f32| {
            let r = t as f64 - (t as f64).floor();
            edges.iter().all(|e| (e.0 - r).abs() > tol && (e.0 - 1.0 - r).abs() > tol && (e.0 + 1.0 - r).abs() > tol)
        };
        let mut state: Option<bool> = None;
        let mut last: Option<E> = None;
        for k in 0..cuts.len() {
            cx.steps += 1;
            if k > 0 {
                let f = play(&mut job, cuts[k - 1], cuts[k], if k % 2 == 0 { leg.abandon } else { 0 }, cx)?;
                for e in &f {
                    if let Some(l) = last {
                        ensure!(l.1 != e.1, "not-alternating", "leg {li}: edge {l:?} followed by {e:?}, threshold {thr}");
                    }
                    if let (Some(s), None) = (state, last) {
                        ensure!(s != e.1, "not-alternating", "leg {li}: the value starts {} the threshold and the first edge is {e:?}", if s { "above" } else { "not above" });
                    }
                    last = Some(*e);
                    state = Some(e.1);
                    cx.f32s(&[e.0]);
                }
            }
            let t = cuts[k];
            let r = t - t.floor();
            let x = sample(r)?;
            cx.f32s(&[x]);
            if far(t) && (x - thr).abs() > vtol {
                match state {
                    None => state = Some(x > thr),
                    Some(s) => {
                        cx.probe("state compared");
                        ensure!(s == (x > thr), "state", "leg {li}: at {t} the sampled value {x} is {} the threshold {thr} but the edges say otherwise (last {last:?})", if x > thr { "above" } else { "not above" });
                    }
                }
            }
            let mut h = Fnv::new();
            h.u64((r * 128.0) as u64);
            h.u64(edges.len() as u64);
            h.u64((b < a) as u64);
            h.u64(m.ratios.len() as u64);
            cx.state(h.finish());
        }
        a = b;
    }

    // sampled curves
    sample_check::<f32>(&m, p.big, &p.ticks, |v| vec![v], cx)?;
    let o = p.other.build();
    let tk = &p.ticks;
    match o.kind {
        1 => sample_check::<f32>(&o, p.big, tk, |v| vec![v], cx),
        2 => sample_check::<glam::Vec2>(&o, p.big, tk, |v| v.to_array().to_vec(), cx),
        3 => sample_check::<glam::Vec3>(&o, p.big, tk, |v| v.to_array().to_vec(), cx),
        4 => sample_check::<glam::Vec4>(&o, p.big, tk, |v| v.to_array().to_vec(), cx),
        5 => sample_check::<glam::Quat>(&o, p.big, tk, |v| v.to_array().to_vec(), cx),
        _ => fail(crate::cx::BAD_PLAN, "kind"),
    }
}

fn play_one(job: &mut TrackTriggeringJobArc, a: f32, b: f32) -> Res<Vec<E>> {
    job.set_from(a);
    job.set_to(b);
    let n = limit(a, b, job.track().unwrap());
    match job.run() {
        Ok(mut it) => drain(n, &mut it),
        Err(e) => fail("run-refused", format!("{e:?}")),
    }
}

pub const C12: Prop = Prop {
    id: "C12",
    gen: gen12,
    exec: exec12,
    runs: (400_000, 12_000_000),
    rule: "one run = one float track, one threshold, 1-3 legs of playback (forward or backward, any distance from time zero) each cut into frames on keys, edges, loop points and one ulp beside them, some frames abandoned part way; non-trivial when a boundary hits a key, edge or loop point, time reverses, or a frame is abandoned; distinct by the hash of all edges",
    measure: "distinct (edges in the frame, boundary position, direction, keys, edges in the loop)",
    real: &["TrackTriggeringJob and its iterator", "Track loader"],
    stub: &["playback clock", "memory allocator content and address reuse", "archive byte source"],
    assumptions: &["key ratios increase strictly from 0 to 1, as the ozz builder guarantees", "spans are finite"],
};

pub const C13: Prop = Prop {
    id: "C13",
    gen: gen13,
    exec: exec13,
    runs: (1_000_000, 25_000_000),
    rule: "as C12 within 2000 loops of time zero; at each frame boundary the real sampler is compared with the state the edges imply, each edge of the first loop with the samples around it, and sampled curves of all five kinds with an f64 evaluation of the stored keys",
    measure: "distinct (boundary position, direction, keys, edges in the loop)",
    real: &["TrackTriggeringJob", "TrackSamplingJob (all value kinds)", "Track loader"],
    stub: &["playback clock", "memory allocator content and address reuse", "archive byte source"],
    assumptions: &["key ratios increase strictly from 0 to 1", "samples closer than 4e-7 of the time to an edge or 2e-6 of the value to the threshold are not compared"],
};
