//! A scenario of C19: the public functions of the math module, as the game code beside the jobs uses them.

use crate::cx::{fail, plan, Cx, Prop, Res, BAD_PLAN};
use crate::rng::{Fnv, Rng};
use glam::{Quat, Vec3, Vec3A};
use glam_ext::Transform3A;
use ozz_animation_rs::math::*;
use serde::{Deserialize, Serialize};
use serde_json::Value;
use std::simd::{f32x4, i32x4};

#[derive(Serialize, Deserialize, Clone, Debug)]
struct Op {
    what: u32,
    /// How large the values are.
    style: u32,
    seed: u32,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
struct Plan {
    ops: Vec<Op>,
}

fn gen(rng: &mut Rng, thorough: bool) -> Value {
    let n = rng.usize(4, if thorough { 120 } else { 50 });
    let ops = (0..n)
        .map(|_| Op { what: rng.below(7) as u32, style: rng.below(8) as u32, seed: rng.u64() as u32 })
        .collect();
    serde_json::to_value(Plan { ops }).unwrap()
}

fn value(rng: &mut Rng, style: u32) -> f32 {
    let s = |rng: &mut Rng| if rng.pm(500) { 1.0 } else { -1.0 };
    match style {
        0 => s(rng) * rng.f(0.0, 1.0),
        1 => s(rng) * rng.f(0.0, 10.0),
        2 => s(rng) * rng.f(0.0, 10_000.0),
        3 => f32::from_bits(rng.u64() as u32),
        // multiples of a quarter turn and their neighbours
        4 => {
            let x = std::f32::consts::FRAC_PI_4 * rng.range(-4000, 4000) as f32;
            f32::from_bits((x.to_bits() as i64 + rng.range(-3, 3)).clamp(0, u32::MAX as i64) as u32)
        }
        5 => *rng.pick(&[
            0.0, -0.0, 1.0, -1.0, 0.5, -0.5, f32::MIN_POSITIVE, f32::EPSILON, 1.0e-40, -1.0e-40, f32::MAX, f32::MIN, f32::INFINITY,
            f32::NEG_INFINITY, f32::NAN, 1.0 + f32::EPSILON, 3.3735e9, 3.4e9, 1.0e20,
        ]),
        6 => {
            let x = 2f32.powi(rng.range(-140, 127) as i32);
            s(rng) * x * rng.f(1.0, 2.0)
        }
        _ => {
            let k = rng.below(7) as u32;
            value(rng, k)
        }
    }
}

fn exec(v: &Value, cx: &mut Cx) -> Res {
    let p: Plan = plan(v)?;
    if p.ops.is_empty() || p.ops.len() > 500 {
        return fail(BAD_PLAN, "ops");
    }
    for op in &p.ops {
        let mut rng = Rng::new(op.seed as u64 ^ 0x5CA1);
        let st = op.style % 8;
        let mut f = || value(&mut rng, st);
        cx.steps += 1;
        match op.what % 7 {
            0 => {
                for _ in 0..8 {
                    let x = f();
                    let (s, c) = f32_sin_cos(x);
                    cx.f32s(&[x, s, c, f32_sin(x), f32_cos(x), f32_asin(x), f32_acos(x), f32_asin(s), f32_acos(c)]);
                }
            }
            1 | 2 => {
                let mut t = SoaTransform::IDENTITY;
                for l in 0..4 {
                    let q = Quat::from_xyzw(f(), f(), f(), f());
                    t.set_transform(l, Transform3A { translation: Vec3A::new(f(), f(), f()), rotation: q, scale: Vec3A::new(f(), f(), f()) });
                }
                let mut u = SoaTransform::splat_transform(Transform3A {
                    translation: Vec3A::new(f(), f(), f()),
                    rotation: Quat::from_xyzw(f(), f(), f(), f()),
                    scale: Vec3A::new(f(), f(), f()),
                });
                u.rotation.set_quat(1, t.rotation.quat(2));
                u.scale.set_vec3(3, t.translation.vec3(0));
                let a = f32x4::from_array([f(), f(), f(), f()]);
                let i = i32x4::from_array([f(), f(), f(), f()].map(|x| x.to_bits() as i32));
                let (t3, t4) = (t.translation, t.rotation);
                let (u3, u4) = (u.scale, u.rotation);
                let vs = if op.what % 7 == 1 {
                    vec![t3, u3, t3.neg(), t3.add(&u3), t3.sub(&u3), t3.mul_num(a), SoaVec3::lerp(&t3, &u3, a), t3.and_num(i), t3.or_num(i), t3.xor_num(i)]
                } else {
                    vec![]
                };
                for v in vs {
                    for x in [v.x, v.y, v.z] {
                        cx.f32s(x.as_array());
                    }
                }
                let qs = if op.what % 7 == 2 {
                    vec![
                        t4, u4, t4.conjugate(), t4.add(&u4), t4.mul(&u4), t4.mul_num(a), t4.normalize(), t4.nlerp(&u4, a), t4.and_num(i), t4.or_num(i),
                        t4.xor_num(i), t4.positive_w(),
                    ]
                } else {
                    vec![]
                };
                for q in qs {
                    for x in [q.x, q.y, q.z, q.w] {
                        cx.f32s(x.as_array());
                    }
                }
                cx.f32s(t4.dot(&u4).as_array());
                let back = t.transform(3);
                cx.f32s(&back.translation.to_array());
                cx.f32s(&back.rotation.to_array());
            }
            3 | 4 => {
                let t = SoaVec3::splat_vec3(Vec3::new(f(), f(), f()));
                let q = SoaQuat::splat_quat(Quat::from_xyzw(f(), f(), f(), f()));
                let q = if op.what % 7 == 3 { q.normalize() } else { q };
                let s = SoaVec3::splat_vec3(Vec3::new(f(), f(), f()));
                for c in SoaMat4::from_affine(&t, &q, &s).cols {
                    cx.f32s(c.as_array());
                }
            }
            // a turning hand: the angle is taken from its sine and cosine again, frame after frame
            5 => {
                let (mut a, d) = (f(), f());
                for _ in 0..30 {
                    let (s, c) = f32_sin_cos(a + d);
                    a = if s >= 0.0 { f32_acos(c) } else { -f32_acos(c) };
                    cx.f32s(&[a]);
                }
                cx.sim_us += 500_000;
            }
            // a rotation turned on frame after frame
            _ => {
                let mut q = SoaQuat::splat_quat(Quat::from_xyzw(f(), f(), f(), f()));
                let a = f();
                let (s, c) = f32_sin_cos(a);
                let d = SoaQuat::splat_quat(Quat::from_xyzw(s, 0.0, 0.0, c));
                for _ in 0..30 {
                    q = q.mul(&d).nlerp(&q, f32x4::splat(0.25));
                    cx.f32s(q.x.as_array());
                    cx.f32s(q.w.as_array());
                }
                cx.sim_us += 500_000;
            }
        }
        let mut h = Fnv::new();
        for x in [op.what as u64 % 7, st as u64, op.seed as u64 % 97] {
            h.u64(x);
        }
        cx.state(h.finish());
    }
    Ok(())
}

pub const MATH: Prop = Prop {
    id: "MATH",
    gen,
    exec,
    runs: (0, 0),
    rule: "",
    measure: "",
    real: &[],
    stub: &[],
    assumptions: &[],
};
