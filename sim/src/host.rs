//! What every build of the simulator shares: panics are recorded, plans are executed and checked.

use crate::alloc;
use crate::cx::{self, Cx, Prop, Violation, BAD_PLAN};
use serde_json::Value;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;

/// The last panic was raised by code of the repository (or by std on its behalf).
pub static PANIC_IN_REPO: AtomicBool = AtomicBool::new(true);
/// Panics so far, caught ones included.
pub static PANICS: AtomicU64 = AtomicU64::new(0);
pub static LAST_PANIC: Mutex<Option<(String, String)>> = Mutex::new(None);

pub fn take_panic() -> (String, String) {
    LAST_PANIC
        .lock()
        .unwrap_or_else(|e| e.into_inner())
        .take()
        .unwrap_or_else(|| ("?".into(), "panic".into()))
}

pub fn install_hooks() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file().rsplit('/').next().unwrap_or(""), l.line()))
            .unwrap_or_default();
        let dep = info.location().map(|l| l.file().contains("/.cargo/registry/")).unwrap_or(false);
        PANIC_IN_REPO.store(!dep, Ordering::SeqCst);
        PANICS.fetch_add(1, Ordering::SeqCst);
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        };
        if let Ok(mut g) = LAST_PANIC.lock() {
            *g = Some((loc, msg));
        }
    }));
    std::alloc::set_alloc_error_hook(|layout| {
        alloc::fail_off();
        alloc::set_cap(usize::MAX);
        panic!("{} size {}", alloc::OOM, layout.size());
    });
}

/// Executes one plan in this process.
pub fn run_plan(p: &Prop, plan: &Value, cx: &mut Cx) -> Result<(), Violation> {
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (p.exec)(plan, cx)));
    let before = alloc::stats();
    let _ = before;
    alloc::reset();
    match r {
        Ok(r) => r,
        Err(_) => {
            let (loc, msg) = take_panic();
            let file = loc.split(':').next().unwrap_or("").to_string();
            Err(Violation { class: format!("panic in {file}"), detail: format!("unexpected panic at {loc}: {msg}") })
        }
    }
}

/// Also checks the memory canaries of the run.
pub fn run_checked(p: &Prop, plan: &Value, cx: &mut Cx) -> Result<(), Violation> {
    let a = alloc::stats();
    let r = run_plan(p, plan, cx);
    let b = alloc::stats();
    if let Err(v) = &r {
        if v.class == BAD_PLAN {
            return r;
        }
    }
    r?;
    if b.canary != a.canary {
        return cx::fail("memory-overrun", format!("{} blocks written past their end", b.canary - a.canary));
    }
    if b.uaf != a.uaf {
        return cx::fail("use-after-free", format!("{} released blocks were written", b.uaf - a.uaf));
    }
    Ok(())
}

