//! Shrinks a failing plan: drops array elements (ddmin), shrinks numbers and flags, each candidate
//! being executed in its own process, while the class of the violation stays the same.

use crate::supervisor::exec_child;
use serde_json::Value;
use std::time::Instant;

#[derive(Clone, Debug)]
enum Step {
    Key(String),
    Idx(usize),
}

fn paths(v: &Value, cur: &mut Vec<Step>, arrays: &mut Vec<Vec<Step>>, leaves: &mut Vec<Vec<Step>>) {
    match v {
        Value::Array(a) => {
            arrays.push(cur.clone());
            for (i, x) in a.iter().enumerate() {
                cur.push(Step::Idx(i));
                paths(x, cur, arrays, leaves);
                cur.pop();
            }
        }
        Value::Object(o) => {
            for (k, x) in o {
                cur.push(Step::Key(k.clone()));
                paths(x, cur, arrays, leaves);
                cur.pop();
            }
        }
        Value::Number(_) | Value::Bool(_) => leaves.push(cur.clone()),
        _ => {}
    }
}

fn get_mut<'a>(v: &'a mut Value, p: &[Step]) -> Option<&'a mut Value> {
    let mut v = v;
    for s in p {
        v = match s {
            Step::Key(k) => v.get_mut(k)?,
            Step::Idx(i) => v.get_mut(*i)?,
        };
    }
    Some(v)
}

pub struct Minimiser<'a> {
    pub prop: &'a str,
    pub class: String,
    pub deadline: Instant,
    pub tried: u64,
}

impl Minimiser<'_> {
    /// Index of the first candidate that still fails the same way.
    fn first(&mut self, cands: Vec<Value>) -> Option<Value> {
        for chunk in cands.chunks(8) {
            if Instant::now() >= self.deadline {
                return None;
            }
            self.tried += chunk.len() as u64;
            let res: Vec<bool> = std::thread::scope(|s| {
                let hs: Vec<_> = chunk
                    .iter()
                    .map(|c| {
                        let class = self.class.clone();
                        let prop = self.prop;
                        s.spawn(move || matches!(exec_child(prop, c, 3), Some((cl, _)) if cl == class))
                    })
                    .collect();
                hs.into_iter().map(|h| h.join().unwrap_or(false)).collect()
            });
            if let Some(i) = res.iter().position(|&b| b) {
                return Some(chunk[i].clone());
            }
        }
        None
    }

    pub fn run(&mut self, plan: Value) -> Value {
        let mut cur = plan;
        loop {
            let before = cur.to_string();
            cur = self.arrays(cur);
            cur = self.leaves(cur);
            if cur.to_string() == before || Instant::now() >= self.deadline {
                return cur;
            }
        }
    }

    fn arrays(&mut self, mut cur: Value) -> Value {
        let mut arrays = Vec::new();
        paths(&cur, &mut Vec::new(), &mut arrays, &mut Vec::new());
        // long arrays first
        arrays.sort_by_key(|p| {
            let n = get_mut(&mut cur.clone(), p).and_then(|v| v.as_array().map(|a| a.len())).unwrap_or(0);
            std::cmp::Reverse(n)
        });
        for p in arrays.into_iter().take(60) {
            let mut size = match get_mut(&mut cur, &p).and_then(|v| v.as_array().map(|a| a.len())) {
                Some(n) if n > 0 => n,
                _ => continue,
            };
            while size > 0 {
                let n = match get_mut(&mut cur, &p).and_then(|v| v.as_array().map(|a| a.len())) {
                    Some(n) => n,
                    None => break,
                };
                let mut cands = Vec::new();
                let mut at = 0;
                while at < n {
                    let mut c = cur.clone();
                    if let Some(Value::Array(a)) = get_mut(&mut c, &p) {
                        a.drain(at..(at + size).min(n));
                    }
                    cands.push(c);
                    at += size;
                }
                match self.first(cands) {
                    Some(c) => cur = c,
                    None => {
                        if size == 1 {
                            break;
                        }
                        size = size.div_ceil(2);
                        if size == 1 && n == 1 {
                            break;
                        }
                    }
                }
                if Instant::now() >= self.deadline {
                    return cur;
                }
            }
        }
        cur
    }

    fn leaves(&mut self, mut cur: Value) -> Value {
        let mut leaves = Vec::new();
        paths(&cur, &mut Vec::new(), &mut Vec::new(), &mut leaves);
        for p in leaves.into_iter().take(400) {
            loop {
                let old = match get_mut(&mut cur, &p) {
                    Some(v) => v.clone(),
                    None => break,
                };
                let mut subs: Vec<Value> = Vec::new();
                match &old {
                    Value::Bool(true) => subs.push(Value::Bool(false)),
                    Value::Number(n) => {
                        if let Some(i) = n.as_u64() {
                            for c in [0, 1, i / 2, i.saturating_sub(1)] {
                                if c < i && !subs.contains(&Value::from(c)) {
                                    subs.push(Value::from(c));
                                }
                            }
                        } else if let Some(i) = n.as_i64() {
                            for c in [0, -1, i / 2] {
                                if c > i {
                                    subs.push(Value::from(c));
                                }
                            }
                        } else if let Some(f) = n.as_f64() {
                            for c in [0.0, 1.0, 0.5, (f * 16.0).round() / 16.0] {
                                let simpler = (c as f64).to_string().len() < f.to_string().len();
                                if c != f && simpler {
                                    subs.push(Value::from(c));
                                }
                            }
                        }
                    }
                    _ => {}
                }
                if subs.is_empty() {
                    break;
                }
                let cands = subs
                    .into_iter()
                    .map(|s| {
                        let mut c = cur.clone();
                        *get_mut(&mut c, &p).unwrap() = s;
                        c
                    })
                    .collect();
                match self.first(cands) {
                    Some(c) => cur = c,
                    None => break,
                }
                if Instant::now() >= self.deadline {
                    return cur;
                }
            }
            if Instant::now() >= self.deadline {
                return cur;
            }
        }
        cur
    }
}
