//! C30: bounded work and stack. The code under test is compiled so that every basic block calls
//! `__sanitizer_cov_trace_pc` (see checks/C30.sh), which counts the calls and watches the stack.
use micromath::statistics::{Mean, StdDev, Trim, Variance};
use micromath::vector::{F32x2, F32x3, I16x2, I32x3, Vector, Vector2d, Vector3d};
use mmverif::{ensure, spec::*, F32Ext, Mon, Obs, Rng, Run, Verdict, F32};
use std::arch::{asm, global_asm};
use std::hint::black_box as bb;

#[path = "../../../digest/src/ops.rs"]
mod ops;

// Per thread: blocks executed, lowest stack pointer seen. In assembly, for it must not count itself.
global_asm!(
    r#"
    .section .tbss,"awT",@nobits
    .p2align 3
mmverif_blocks: .quad 0
mmverif_low: .quad 0
    .text
    .globl __sanitizer_cov_trace_pc
__sanitizer_cov_trace_pc:
    incq %fs:mmverif_blocks@tpoff
    cmpq %rsp, %fs:mmverif_low@tpoff
    jb 1f
    movq %rsp, %fs:mmverif_low@tpoff
1:  ret
"#,
    options(att_syntax)
);

struct Cost {
    blocks: u64,
    stack: u64,
}

#[inline(never)]
fn cost<R>(f: impl FnOnce() -> R) -> (R, Cost) {
    let (from, top): (u64, u64);
    unsafe { asm!("movq %fs:mmverif_blocks@tpoff, {0}", "movq %rsp, {1}", "movq {1}, %fs:mmverif_low@tpoff", out(reg) from, out(reg) top, options(att_syntax)) }
    let r = f();
    let (to, low): (u64, u64);
    unsafe { asm!("movq %fs:mmverif_blocks@tpoff, {0}", "movq %fs:mmverif_low@tpoff, {1}", out(reg) to, out(reg) low, options(att_syntax)) }
    (r, Cost { blocks: to - from, stack: top - low })
}

/// Blocks for one scalar operation, blocks for one of the groups of operations, blocks per element of
/// a sample, bytes of stack for any of them.
const SCALAR: f64 = 1000.0;
const GROUP: f64 = 20_000.0;
const ELEMENT: f64 = 150.0;
const STACK: f64 = 4096.0;

const METRICS: &[&str] = &["basic blocks executed", "bytes of stack"];

fn judge(name: &str, c: Cost, most: f64, o: &mut Obs) -> Verdict {
    if c.blocks > 0 {
        o.class(0);
    }
    ensure!(o.within(0, c.blocks as f64, most), "{name} executes {} basic blocks", c.blocks);
    ensure!(o.within(1, c.stack as f64, STACK), "{name} takes {} bytes of stack", c.stack);
    Ok(())
}

macro_rules! each {
    ($o:expr, $most:expr; $($name:literal $e:expr),* $(,)?) => { $({
        let (r, c) = cost(|| $e);
        bb(r);
        judge($name, c, $most, $o)?;
    })* };
}

fn unary(a: &[u32], o: &mut Obs) -> Verdict {
    let x = bb(f(a[0]));
    let v = F32(x);
    each!(o, SCALAR;
        "abs" v.abs(), "asin" v.asin(), "atan" v.atan(), "atan_norm" v.atan_norm(), "ceil" v.ceil(), "cos" v.cos(), "cosh" v.cosh(),
        "exp" v.exp(), "floor" v.floor(), "fract" v.fract(), "inv" v.inv(), "invsqrt" v.invsqrt(), "ln" v.ln(), "log2" v.log2(),
        "log10" v.log10(), "recip" v.recip(), "round" v.round(), "signum" v.signum(), "sin" v.sin(), "sin_cos" v.sin_cos(),
        "sqrt" v.sqrt(), "tan" v.tan(), "trunc" v.trunc(), "acos" F32Ext::acos(x), "trait exp" F32Ext::exp(x), "trait sin" F32Ext::sin(x),
        "trait round" F32Ext::round(x), "trait ln" F32Ext::ln(x), "trait sqrt" F32Ext::sqrt(x), "trait fract" F32Ext::fract(x),
    );
    Ok(())
}

fn binary(a: &[u32], o: &mut Obs) -> Verdict {
    let (x, y) = (bb(f(a[0])), bb(f(a[1])));
    let (v, w, n) = (F32(x), F32(y), a[1] as i32);
    each!(o, SCALAR;
        "atan2" v.atan2(w), "copysign" v.copysign(w), "div_euclid" v.div_euclid(w), "hypot" v.hypot(w), "log" v.log(w), "powf" v.powf(w),
        "rem_euclid" v.rem_euclid(w), "mul_add" v.mul_add(w, v), "powi" v.powi(n), "powi" v.powi(y as i32), "atan2_norm" F32Ext::atan2_norm(x, y),
        "trait powi" F32Ext::powi(x, n), "trait powf" F32Ext::powf(x, y), "trait rem_euclid" F32Ext::rem_euclid(x, y), "%" v % w, "/" v / w,
    );
    Ok(())
}

/// The sample is given by the seed of its generator and its length.
fn statistics(a: &[u32], o: &mut Obs) -> Verdict {
    let mut r = Rng::new(a[0] as u64);
    let mut v = vec![];
    mmverif::gen::sample(&mut r, a[1] as u64, &mut v);
    let s: Vec<f32> = v.into_iter().map(f).collect();
    let b: Vec<u8> = s.iter().map(|x| x.to_bits() as u8).collect();
    let t = r.pick(&[2.0f32, 1.0, 0.0, 1e-3, 5.0, f32::NAN, f32::INFINITY]);
    o.class(if s.len() < 100 { 1 } else if s.len() < 10_000 { 2 } else { 3 });
    let most = SCALAR + ELEMENT * s.len() as f64;
    let (s, b) = (bb(s.as_slice()), bb(b.as_slice()));
    // `count`, `last` and so on are core's loops over `next`
    each!(o, most;
        "mean" s.iter().copied().mean(), "variance" s.variance(), "stddev" s.stddev(), "variance of bytes" b.variance(),
        "trim, read to the end" s.trim().for_each(|x| { bb(x); }), "trim_at, read to the end" s.trim_at(t).for_each(|x| { bb(x); }),
        "trim of bytes, read to the end" b.trim_at(t).for_each(|x| { bb(x); }),
        "Sum of F32" s.iter().map(|&x| F32(x)).sum::<F32>(), "Product of F32" s.iter().map(|&x| F32(x)).product::<F32>(),
        "Sum of vectors" { let t: F32x3 = s.iter().map(|&x| F32x3::from((x, x, x))).sum(); t },
    );
    let mut it = s.trim_at(t);
    let mut total = 0;
    for k in 0..s.len() + 2 {
        let (x, c) = cost(|| it.next());
        total += c.blocks;
        if x.is_none() || k > s.len() {
            break;
        }
    }
    judge("trim_at, step by step", Cost { blocks: total, stack: 0 }, most, o)
}

/// How many items are taken from an iterator.
fn pulls(a: &[u32], o: &mut Obs) -> Verdict {
    let (n, what) = (a[0] as usize, a[1]);
    let taken = std::cell::Cell::new(0usize);
    let next = |k: usize| {
        taken.set(taken.get() + 1);
        (k < n).then_some((k % 100) as f32)
    };
    // goes on for ever after `n` if n is large; and None counts as taken
    let mut k = 0;
    let it = std::iter::from_fn(|| {
        k += 1;
        if k > 1_000_000 {
            panic!("takes a million items");
        }
        next(k - 1)
    });
    let (name, most) = match what {
        0 => ("Vector2d::from_iter", 3),
        1 => ("Vector3d::from_iter", 4),
        2 => ("mean", n + 1),
        3 => ("Sum of F32", n + 1),
        4 => ("Product of F32", n + 1),
        5 => ("Sum of Vector2d", n + 1),
        _ => ("Sum of Vector3d", n + 1),
    };
    if what >= 2 && n > 100_000 {
        o.trivial();
        return Ok(());
    }
    o.class(what as usize);
    let end = mmverif::panics(|| match what {
        0 => drop(bb(it.collect::<Vector2d<f32>>())),
        1 => drop(bb(it.collect::<Vector3d<f32>>())),
        2 => drop(bb(it.mean())),
        3 => drop(bb(it.map(F32).sum::<F32>())),
        4 => drop(bb(it.map(F32).product::<F32>())),
        5 => drop(bb(it.map(|x| I16x2::from((x as i16 % 2, 1))).sum::<I16x2>())),
        _ => drop(bb(it.map(|x| I32x3::from((x as i32, 1, 2))).sum::<I32x3>())),
    });
    ensure!(taken.get() <= most, "{name} of {n} items asks its iterator {} times ({end:?})", taken.get());
    ensure!(what < 2 || (end.is_ok() && taken.get() > n), "{name} of {n} items asks its iterator {} times ({end:?})", taken.get());
    Ok(())
}

fn main() {
    let mut run = Run::new("C30", "basic blocks executed and stack used by each call, on hostile arguments and samples; each case is one choice of arguments");
    run.assume("blocks are counted in the crate and the generic code that it instantiates, compiled with little optimization for x86-64; the arithmetic of core and the arguments' own iterators count as one");
    let m = Mon::new("unary").classes(&["blocks counted"]).metrics(METRICS);
    let stride = run.amount(211, 5);
    run.enumerate(&m, (1 << 32) / stride, |i, v| v.push((i * stride) as u32), unary);
    let m = Mon::new("unary hostile").classes(&["blocks counted"]).metrics(METRICS);
    run.random(&m, run.amount(1_000_000, 40_000_000), |r, v| v.push(r.any().to_bits()), unary);
    let m = Mon::new("binary").classes(&["blocks counted"]).metrics(METRICS);
    run.random(
        &m,
        run.amount(8_000_000, 400_000_000),
        |r, v| {
            let x = r.any();
            let y = if r.chance(2) { r.any() } else { r.related(x) };
            let n = if r.chance(4) { r.range(-100_000, 100_000) as i32 as u32 } else { y.to_bits() };
            v.extend([x.to_bits(), n]);
        },
        binary,
    );
    let table: Vec<&ops::Op> = ops::GROUPS.iter().flat_map(|g| g.iter()).filter(|o| o.0 != "text").collect();
    let m = Mon::new("operations").fmt("uffffffff").classes(&["blocks counted"]).metrics(METRICS);
    run.random(
        &m,
        run.amount(2_000_000, 100_000_000),
        |r, v| {
            v.push(r.below(table.len() as u64) as u32);
            v.extend(mmverif::digests::case(r));
        },
        |a, o| {
            let op = table[a[0] as usize];
            let w: [u32; 8] = a[1..].try_into().unwrap();
            let (_, c) = cost(|| bb(ops::eval(op, bb(&w))));
            judge(op.0, c, GROUP, o)
        },
    );
    let m = Mon::new("statistics").fmt("uu").classes(&["blocks counted", "less than 100 values", "less than 10 000 values", "10 000 values or more"]).metrics(METRICS);
    run.random(
        &m,
        run.amount(40_000, 1_000_000),
        |r, v| {
            let n = match r.below(200) {
                0 => r.below(135_000),
                1..=20 => r.below(5000),
                _ => r.below(200),
            };
            v.extend([r.u32(), n as u32]);
        },
        statistics,
    );
    let m = Mon::new("items taken").fmt("uu").classes(&["Vector2d", "Vector3d", "mean", "F32 sum", "F32 product", "Vector2d sum", "Vector3d sum"]);
    run.enumerate(&m, 7 * 402, |i, v| v.extend([match i / 7 { 400 => 10_000, 401 => u32::MAX, n => n as u32 }, (i % 7) as u32]), pulls);
    run.finish()
}
