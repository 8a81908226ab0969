//! The digest program for a 32-bit target: wasm32, run by node (run.js).
#![no_std]
#[path = "../../digest/src/ops.rs"]
mod ops;

/// Cases that fit the buffer.
const BLOCK: usize = 2000;
static mut INPUT: [[u32; 8]; BLOCK] = [[0; 8]; BLOCK];

#[panic_handler]
fn panic(_: &core::panic::PanicInfo<'_>) -> ! {
    core::arch::wasm32::unreachable()
}

fn op(i: usize) -> Option<&'static ops::Op> {
    ops::GROUPS.iter().flat_map(|g| g.iter()).nth(i)
}

#[no_mangle]
pub extern "C" fn input() -> *mut u32 {
    &raw mut INPUT as *mut u32
}
#[no_mangle]
pub extern "C" fn count() -> usize {
    ops::GROUPS.iter().map(|g| g.len()).sum()
}
#[no_mangle]
pub extern "C" fn name_ptr(i: usize) -> *const u8 {
    op(i).map_or(core::ptr::null(), |o| o.0.as_ptr())
}
#[no_mangle]
pub extern "C" fn name_len(i: usize) -> usize {
    op(i).map_or(0, |o| o.0.len())
}
#[no_mangle]
pub extern "C" fn one(i: usize, k: usize) -> u64 {
    let case = unsafe { INPUT[k] };
    op(i).map_or(0, |o| ops::eval(o, &case))
}
#[no_mangle]
pub extern "C" fn block(i: usize, n: usize) -> u64 {
    let mut h = ops::H(7);
    let Some(o) = op(i) else { return 0 };
    for k in 0..n {
        let d = ops::eval(o, &unsafe { INPUT[k] });
        h.u(d as u32);
        h.u((d >> 32) as u32);
    }
    h.0
}
