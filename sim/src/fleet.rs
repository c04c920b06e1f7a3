//! The fleet: the same code built for other processors and profiles, one process per member.

use crate::supervisor::verif_dir;
use serde_json::{json, Value};
use std::cell::RefCell;
use std::io::{BufRead, Read, Write};
use std::os::fd::AsRawFd;
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};

pub struct Kind {
    pub name: &'static str,
    path: &'static str,
    wasm: bool,
}

pub const MEMBERS: &[Kind] = &[
    Kind { name: "x86-64 unoptimised", path: "target/fleet-dev/fleetdev/ozzsim", wasm: false },
    Kind { name: "x86-64 of this machine, optimised, no assertions", path: "target/fleet-native/ship/ozzsim", wasm: false },
    Kind { name: "wasm32 without vectors", path: "target/fleet-wasm/wasm32-unknown-unknown/release/ozzsim_wasm.wasm", wasm: true },
    Kind { name: "wasm32 with vectors, no assertions", path: "target/fleet-simd/wasm32-unknown-unknown/ship/ozzsim_wasm.wasm", wasm: true },
];

extern "C" {
    fn poll(fds: *mut [i32; 2], n: u64, timeout: i32) -> i32;
}

struct Peer {
    child: Child,
    to: ChildStdin,
    from: ChildStdout,
    buf: Vec<u8>,
}

impl Drop for Peer {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

thread_local! {
    static PEERS: RefCell<Vec<Option<Peer>>> = RefCell::new(MEMBERS.iter().map(|_| None).collect());
}

/// What is not built.
pub fn missing() -> Option<String> {
    let d = verif_dir();
    MEMBERS.iter().map(|k| format!("{d}/{}", k.path)).find(|p| !std::path::Path::new(p).exists())
}

fn start(k: &Kind) -> std::io::Result<Peer> {
    let d = verif_dir();
    let p = format!("{d}/{}", k.path);
    let mut c = if k.wasm {
        let mut c = Command::new("node");
        c.args([format!("{d}/sim/fleet/peer.mjs"), p]);
        c
    } else {
        let mut c = Command::new(p);
        c.arg("serve");
        c
    };
    let mut child = c.stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn()?;
    let to = child.stdin.take().unwrap();
    let from = child.stdout.take().unwrap();
    Ok(Peer { child, to, from, buf: Vec::new() })
}

impl Peer {
    fn line(&mut self, secs: u64) -> Result<Vec<u8>, &'static str> {
        let t0 = std::time::Instant::now();
        let mut seen = 0;
        loop {
            if let Some(i) = self.buf[seen..].iter().position(|&b| b == b'\n') {
                let rest = self.buf.split_off(seen + i + 1);
                let mut l = std::mem::replace(&mut self.buf, rest);
                l.pop();
                return Ok(l);
            }
            seen = self.buf.len();
            if t0.elapsed().as_secs() >= secs {
                return Err("no answer");
            }
            let mut fd = [self.from.as_raw_fd(), 1];
            if unsafe { poll(&mut fd, 1, 1000) } <= 0 {
                continue;
            }
            let mut b = [0u8; 1 << 16];
            match self.from.read(&mut b) {
                Ok(0) | Err(_) => return Err("ended"),
                Ok(n) => self.buf.extend_from_slice(&b[..n]),
            }
        }
    }
}

/// Hands a request to a member (starts it when it does not run).
pub fn send(i: usize, req: &str) -> bool {
    PEERS.with(|p| {
        let slot = &mut p.borrow_mut()[i];
        for _ in 0..2 {
            if slot.is_none() {
                *slot = start(&MEMBERS[i]).ok();
            }
            if let Some(p) = slot {
                if p.to.write_all(req.as_bytes()).and_then(|_| p.to.write_all(b"\n")).and_then(|_| p.to.flush()).is_ok() {
                    return true;
                }
            }
            *slot = None;
        }
        false
    })
}

/// The answer of a member: `r` is "dead" when it ended and "late" when it did not answer in time.
pub fn recv(i: usize, secs: u64) -> Value {
    PEERS.with(|p| {
        let slot = &mut p.borrow_mut()[i];
        let Some(peer) = slot else { return json!({"r": "dead", "detail": "does not start"}) };
        match peer.line(secs) {
            Ok(l) => serde_json::from_slice(&l).unwrap_or_else(|e| json!({"r": "bad", "detail": e.to_string()})),
            Err(e) => {
                let st = peer.child.try_wait().ok().flatten();
                *slot = None;
                json!({"r": if e == "ended" { "dead" } else { "late" }, "detail": format!("{e} {st:?}")})
            }
        }
    })
}

pub fn ask(i: usize, req: &str, secs: u64) -> Value {
    if send(i, req) {
        recv(i, secs)
    } else {
        json!({"r": "dead", "detail": "does not start"})
    }
}

/// Serves requests until the input ends.
pub fn serve() {
    let stdin = std::io::stdin();
    let mut out = std::io::stdout();
    for l in stdin.lock().lines() {
        let Ok(l) = l else { return };
        crate::cpu_limit(100);
        let mut r = crate::member::answer(l.as_bytes());
        crate::cpu_limit(0);
        r.push(b'\n');
        if out.write_all(&r).and_then(|_| out.flush()).is_err() {
            return;
        }
    }
}
