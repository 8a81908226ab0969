//! micromath for a processor without floating-point unit: every operation on floats becomes a call of
//! a library routine, which `count.S` counts. Linked to a shared library that C37 loads.
#![no_std]
#[path = "calls.rs"]
mod calls;
use calls::Out;

#[panic_handler]
fn panic(_: &core::panic::PanicInfo<'_>) -> ! {
    unsafe { core::arch::asm!("ud2", options(noreturn)) }
}

fn done(o: &Out, to: *mut u32) -> usize {
    for (k, w) in o.words.iter().enumerate() {
        unsafe { to.add(k).write(*w) }
    }
    o.n
}

/// Performs one call; returns how many words of results there are.
///
/// # Safety
/// `args` has 8 words and `to` room for 16.
#[no_mangle]
pub unsafe extern "C" fn soft_call(i: usize, args: *const [u32; 8], to: *mut u32) -> usize {
    let mut o = Out { n: 0, words: [0; 16] };
    if let Some(c) = calls::call(i) {
        (c.1)(&(*args).map(f32::from_bits), &mut o);
    }
    done(&o, to)
}

/// The same for statistics.
///
/// # Safety
/// `sample` has `n` floats.
#[no_mangle]
pub unsafe extern "C" fn soft_statistic(i: usize, sample: *const f32, n: usize, threshold: u32, to: *mut u32) -> usize {
    let mut o = Out { n: 0, words: [0; 16] };
    (calls::STATISTICS[i].1)(core::slice::from_raw_parts(sample, n), f32::from_bits(threshold), &mut o);
    done(&o, to)
}
