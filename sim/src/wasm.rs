//! A member of the fleet on WebAssembly: the scenarios as a module that a host calls plan by plan.
#![feature(portable_simd, alloc_error_hook)]
#![allow(clippy::needless_range_loop, clippy::too_many_arguments, clippy::type_complexity, static_mut_refs, dead_code)]

#[path = "alloc_wasm.rs"]
mod alloc;
mod cx;
mod gen;
mod host;
mod member;
mod props;
mod rig;
mod rng;
mod snap;
mod stream;
mod util;

pub use host::*;

#[global_allocator]
static GLOBAL: alloc::SimAlloc = alloc::SimAlloc;

static mut REPLY: Vec<u8> = Vec::new();

#[no_mangle]
pub extern "C" fn oz_init() {
    host::install_hooks();
}

#[no_mangle]
pub extern "C" fn oz_alloc(n: usize) -> *mut u8 {
    let v: Vec<u8> = vec![0; n];
    Box::leak(v.into_boxed_slice()).as_mut_ptr()
}

/// # Safety
/// `p` is a block of `oz_alloc` with `n` bytes.
#[no_mangle]
pub unsafe extern "C" fn oz_run(p: *mut u8, n: usize) -> *const u8 {
    let req = Box::from_raw(std::ptr::slice_from_raw_parts_mut(p, n));
    REPLY = member::answer(&req);
    REPLY.as_ptr()
}

#[no_mangle]
pub unsafe extern "C" fn oz_len() -> usize {
    REPLY.len()
}

/// The last panic as text (after a trap).
#[no_mangle]
pub unsafe extern "C" fn oz_panic() -> *const u8 {
    let (loc, msg) = take_panic();
    REPLY = format!("{loc}: {msg}").into_bytes();
    REPLY.as_ptr()
}
