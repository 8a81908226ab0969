//! C37: single precision only, and few operations on floats. The library is compiled for a processor
//! without floating-point unit (see soft/), where each operation on floats is a call of a routine;
//! those calls are counted, and the results compared with those of this machine.
use mmverif::{ensure, Mon, Obs, Rng, Run, Verdict};
use std::ffi::{c_char, c_int, c_void, CStr, CString};

#[path = "../../../soft/src/calls.rs"]
mod calls;

extern "C" {
    fn dlopen(path: *const c_char, flags: c_int) -> *mut c_void;
    fn dlsym(lib: *mut c_void, name: *const c_char) -> *mut c_void;
}

#[derive(Clone, Copy)]
struct Soft {
    call: unsafe extern "C" fn(usize, *const [u32; 8], *mut u32) -> usize,
    statistic: unsafe extern "C" fn(usize, *const f32, usize, u32, *mut u32) -> usize,
    counts: unsafe extern "C" fn() -> *mut [u64; 4],
    doubles: *const c_char,
}
unsafe impl Sync for Soft {}
unsafe impl Send for Soft {}

impl Soft {
    fn load(path: &std::path::Path) -> Soft {
        let lib = unsafe { dlopen(CString::new(path.to_str().unwrap()).unwrap().as_ptr(), 2) };
        assert!(!lib.is_null(), "{path:?} does not load");
        let get = |name: &CStr| {
            let p = unsafe { dlsym(lib, name.as_ptr()) };
            assert!(!p.is_null(), "{name:?} is missing");
            p
        };
        unsafe {
            Soft {
                call: std::mem::transmute(get(c"soft_call")),
                statistic: std::mem::transmute(get(c"soft_statistic")),
                counts: std::mem::transmute(get(c"soft_counts")),
                doubles: get(c"soft_doubles") as *const c_char,
            }
        }
    }
    /// What `f` returns, and how many operations of single precision, conversions from or to integers,
    /// and operations of double precision it takes.
    fn counted<R>(&self, f: impl FnOnce() -> R) -> (R, [u64; 4]) {
        unsafe {
            let c = (self.counts)();
            c.write([0; 4]);
            let r = f();
            (r, c.read())
        }
    }
    fn double(&self, k: u64) -> String {
        let all = unsafe { CStr::from_ptr(self.doubles) }.to_str().unwrap();
        all.split(' ').nth(k as usize).unwrap_or("?").to_string()
    }
}

/// Operations on floats for one call, and more for each value of a sample.
const CALL: f64 = 120.0;
const VALUE: f64 = 16.0;
const METRICS: &[&str] = &["operations on floats"];

fn judge(soft: &Soft, name: &str, c: [u64; 4], most: f64, o: &mut Obs) -> Verdict {
    if c[0] + c[1] > 0 {
        o.class(0);
    }
    ensure!(c[2] == 0, "{name} computes in double precision: {} calls, the last one of {}", c[2], soft.double(c[3]));
    ensure!(o.within(0, (c[0] + c[1]) as f64, most), "{name} takes {} operations on floats", c[0] + c[1]);
    Ok(())
}

fn one(soft: &Soft, i: usize, a: &[u32; 8], o: &mut Obs) -> Verdict {
    let c = calls::call(i).unwrap();
    if !calls::allowed(c.0, a) {
        return Ok(());
    }
    let mut want = calls::Out { n: 0, words: [0; 16] };
    (c.1)(&a.map(f32::from_bits), &mut want);
    let mut got = [0; 16];
    let (n, count) = soft.counted(|| unsafe { (soft.call)(i, a, got.as_mut_ptr()) });
    ensure!((n, got) == (want.n, want.words), "{} of {:?} without floating-point unit: {:x?}, with it: {:x?}", c.0, a.map(f32::from_bits), &got[..n.min(16)], &want.words[..n.min(16)]);
    judge(soft, c.0, count, CALL, o)
}

fn case(r: &mut Rng, v: &mut Vec<u32>) {
    v.extend(mmverif::digests::case(r));
}

fn main() {
    let root = std::path::PathBuf::from(std::env::var("VERIF_ROOT").unwrap());
    let soft = Soft::load(&root.join("target/soft/libsoft.so"));
    let mut run = Run::new("C37", "calls of floating-point routines by each operation compiled for a processor without floating-point unit, on hostile arguments, and its results against those of hardware");
    run.assume("x86-64 without SSE stands for the processors without floating-point unit; % of floats counts as one operation");
    let scalars = calls::scalars();
    let all = (0..).take_while(|&i| calls::call(i).is_some()).count();
    if std::env::var("C37_TABLE").is_ok() {
        let mut r = Rng::new(1);
        for i in 0..all {
            let mut most = [0u64; 3];
            for _ in 0..200_000 {
                let a = mmverif::digests::case(&mut r);
                if calls::allowed(calls::call(i).unwrap().0, &a) {
                    let mut got = [0; 16];
                    let c = soft.counted(|| unsafe { (soft.call)(i, &a, got.as_mut_ptr()) }).1;
                    for k in 0..3 { most[k] = most[k].max(c[k]); }
                }
            }
            println!("{:30} {most:?}", calls::call(i).unwrap().0);
        }
    }
    let m = Mon::new("scalars").fmt("ffffffff").classes(&["calls counted"]).metrics(METRICS);
    let n = run.amount(1_000_000, 60_000_000);
    run.random(&m, n, case, |a, o| {
        let a: &[u32; 8] = a.try_into().unwrap();
        (0..scalars).try_for_each(|i| one(&soft, i, a, o))
    });
    let m = Mon::new("vectors and quaternions").fmt("ffffffff").classes(&["calls counted"]).metrics(METRICS);
    run.random(&m, n, case, |a, o| {
        let a: &[u32; 8] = a.try_into().unwrap();
        (scalars..all).try_for_each(|i| one(&soft, i, a, o))
    });
    let m = Mon::new("statistics").fmt("uuf").classes(&["calls counted"]).metrics(METRICS);
    let n = run.amount(200_000, 10_000_000);
    run.random(
        &m,
        n,
        |r, v| {
            let n = if r.chance(50) { r.below(20_000) } else { r.below(60) };
            let t = r.pick(&[2.0, 1.0, 0.5, -1.0, 3.0, f32::NAN]);
            v.extend([r.u32(), n as u32, t.to_bits()]);
        },
        |a, o| {
            let mut v = vec![];
            mmverif::gen::sample(&mut Rng::new(a[0] as u64), a[1] as u64, &mut v);
            let s: Vec<f32> = v.into_iter().map(f32::from_bits).collect();
            for (i, c) in calls::STATISTICS.iter().enumerate() {
                let mut want = calls::Out { n: 0, words: [0; 16] };
                (c.1)(&s, f32::from_bits(a[2]), &mut want);
                let mut got = [0; 16];
                let (n, count) = soft.counted(|| unsafe { (soft.statistic)(i, s.as_ptr(), s.len(), a[2], got.as_mut_ptr()) });
                ensure!((n, got) == (want.n, want.words), "{} of {} values without floating-point unit: {n}, {got:x?}, with it: {}, {:x?}", c.0, s.len(), want.n, want.words);
                judge(&soft, c.0, count, CALL + VALUE * s.len() as f64, o)?;
            }
            Ok(())
        },
    );
    run.finish()
}
