//! How one member of the fleet answers: it executes the plan it is given and says what it observed.

use crate::cx::{Cx, Prop};
use crate::props::snapshot::{self, Leg};
use crate::{host, props};
use serde_json::{json, Value};
use std::sync::atomic::Ordering;

/// What one build of the code made of a plan.
pub fn observe(p: &Prop, plan: &Value, thorough: bool, chain: bool) -> (Value, Cx) {
    let mut cx = Cx::new();
    cx.thorough = thorough;
    if chain {
        cx.chain = Some(Vec::new());
    }
    let before = host::PANICS.load(Ordering::SeqCst);
    let r = host::run_checked(p, plan, &mut cx);
    let panics = host::PANICS.load(Ordering::SeqCst) - before;
    let (r, class, detail) = match r {
        Ok(()) => ("ok", String::new(), String::new()),
        Err(v) if v.class.starts_with("panic in ") => ("panic", String::new(), v.detail),
        Err(v) => ("no", v.class, v.detail),
    };
    let mut o = json!({"r": r, "class": class, "detail": detail, "h": format!("{:016x}", cx.hash()), "panics": panics});
    if let Some(c) = cx.chain.take() {
        o["chain"] = json!(c);
    }
    (o, cx)
}

pub fn answer(req: &[u8]) -> Vec<u8> {
    let v: Value = match serde_json::from_slice(req) {
        Ok(v) => v,
        Err(e) => return json!({"r": "bad", "detail": e.to_string()}).to_string().into_bytes(),
    };
    if v["leg"].is_object() {
        return leg(&v["leg"]).to_string().into_bytes();
    }
    let o = match v["p"].as_str().and_then(props::find) {
        Some(p) => observe(p, &v["plan"], v["t"].as_bool().unwrap_or(false), v["chain"].as_bool().unwrap_or(false)).0,
        None => json!({"r": "bad", "detail": "no such scenario"}),
    };
    o.to_string().into_bytes()
}

/// One stretch of a history that moves from member to member.
pub fn leg(v: &Value) -> Value {
    let l: Leg = match serde_json::from_value(v.clone()) {
        Ok(l) => l,
        Err(e) => return json!({"r": "bad", "detail": e.to_string()}),
    };
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| snapshot::leg(&l)));
    match r {
        Ok(Ok((out, parcel))) => json!({"r": "ok", "out": out, "parcel": parcel}),
        Ok(Err(v)) => json!({"r": "no", "class": v.class, "detail": v.detail}),
        Err(_) => {
            let (loc, msg) = host::take_panic();
            json!({"r": "panic", "detail": format!("{loc}: {msg}")})
        }
    }
}
