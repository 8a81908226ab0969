//! C27: nothing but core, under every choice of features: no allocation, no std, no C library.
use mmverif::{ensure, Mon, Rng, Run};
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::path::{Path, PathBuf};
use std::process::Command;

#[path = "../../../bare/src/inputs.rs"]
mod inputs;
#[path = "../../../digest/src/ops.rs"]
mod ops;

thread_local! {
    static CALLS: Cell<u64> = const { Cell::new(0) };
}

struct Counting;

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        CALLS.with(|c| c.set(c.get() + 1));
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        CALLS.with(|c| c.set(c.get() + 1));
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        CALLS.with(|c| c.set(c.get() + 1));
        System.realloc(p, l, n)
    }
}

#[global_allocator]
static ALLOCATOR: Counting = Counting;

const FEATURES: [&str; 5] = ["quaternion", "statistics", "vector", "num-traits", "defmt"];

fn features(set: u32) -> String {
    FEATURES.iter().enumerate().filter(|(i, _)| set >> i & 1 == 1).map(|(_, f)| *f).collect::<Vec<_>>().join(",")
}

fn cargo(dir: &Path, target: &Path, args: &[&str], set: u32) -> Result<(), String> {
    let f = features(set);
    let out = Command::new("cargo")
        .args(args)
        .args(["--offline", "--quiet", "--features", &f])
        .current_dir(dir)
        .env("CARGO_TARGET_DIR", target)
        .output()
        .map_err(|e| e.to_string())?;
    if out.status.success() {
        Ok(())
    } else {
        Err(String::from_utf8_lossy(&out.stderr).chars().take(2500).collect())
    }
}

/// Names of the operations that the freestanding program knows under these features, and what it
/// printed for them.
fn freestanding(root: &Path, set: u32) -> Result<Vec<(String, String)>, String> {
    let target = root.join(format!("target/bare-{}", set % 8));
    cargo(&root.join("bare"), &target, &["build", "--release"], set).map_err(|e| format!("the freestanding program does not build or link: {e}"))?;
    let out = Command::new(target.join("release/bare")).env_clear().output().map_err(|e| e.to_string())?;
    let text = String::from_utf8_lossy(&out.stdout).into_owned();
    if !out.status.success() {
        return Err(format!("the freestanding program ended with {}: {}", out.status, text.lines().last().unwrap_or("")));
    }
    Ok(text.lines().filter_map(|l| l.split_once(' ')).map(|(a, b)| (a.to_string(), b.to_string())).collect())
}

fn main() {
    let root = PathBuf::from(std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into()));
    let mut run = Run::new("C27", "every operation under a counting allocator; a program with nothing below core, built, linked and run under every set of features; distinct cases are distinct (operation, input), (features, operation) or features");
    run.assume("x86-64 Linux; the freestanding program supplies a panic handler and the memory functions that core itself asks for, and nothing else");
    let all: Vec<&ops::Op> = ops::GROUPS.iter().flat_map(|g| g.iter()).collect();

    let n = run.amount(6_000_000, 400_000_000);
    run.random(
        &Mon::new("allocations").fmt("u"),
        n,
        |r: &mut Rng, v| {
            v.push(r.below(all.len() as u64) as u32);
            let base = r.finite();
            let mode = r.below(4);
            for _ in 0..8 {
                let x = match mode {
                    0 => r.any(),
                    1 => r.moderate(-20, 20),
                    2 => r.related(base),
                    _ => r.hostile(),
                };
                v.push(x.to_bits());
            }
        },
        |a, _| {
            let mut c = [0; 8];
            c.copy_from_slice(&a[1..9]);
            let op = all[a[0] as usize];
            let before = CALLS.with(|c| c.get());
            let d = ops::eval(op, &c);
            let after = CALLS.with(|c| c.get());
            std::hint::black_box(d);
            ensure!(before == after, "{} of {:?} called the allocator {} times", op.0, c.map(f32::from_bits), after - before);
            Ok(())
        },
    );

    // The freestanding program under all sixteen sets of the features that add operations; two sets
    // after one another in each of eight target folders.
    let got: Vec<Result<Vec<(String, String)>, String>> = std::thread::scope(|s| {
        let root = &root;
        let h: Vec<_> = (0..8).map(|i| s.spawn(move || [freestanding(root, i), freestanding(root, i + 8)])).collect();
        let pairs: Vec<_> = h.into_iter().map(|h| h.join().unwrap()).collect();
        let (a, b): (Vec<_>, Vec<_>) = pairs.into_iter().map(|[a, b]| (a, b)).unzip();
        a.into_iter().chain(b).collect()
    });
    let want: Vec<String> = std::thread::scope(|s| {
        let h: Vec<_> = all
            .iter()
            .map(|op| {
                s.spawn(move || {
                    let mut h = ops::H(7);
                    for i in 0..inputs::CASES {
                        let d = mmverif::panics(|| ops::eval(op, &inputs::case(i))).unwrap_or(0xdead);
                        h.u(d as u32);
                        h.u((d >> 32) as u32);
                    }
                    format!("{:016x}", h.0)
                })
            })
            .collect();
        h.into_iter().map(|h| h.join().unwrap()).collect()
    });
    run.enumerate(
        &Mon::new("freestanding").fmt("u").classes(&["operation in the program"]),
        16 * all.len() as u64,
        |i, v| v.extend([i as u32 / all.len() as u32, i as u32 % all.len() as u32]),
        |a, o| {
            let (set, op) = (a[0], all[a[1] as usize].0);
            let lines = match &got[set as usize] {
                Ok(l) => l,
                Err(e) => return Err(format!("with features [{}]: {e}", features(set))),
            };
            let Some(theirs) = lines.iter().find(|l| l.0 == op) else {
                o.trivial();
                return Ok(());
            };
            o.class(0);
            ensure!(theirs.1 == want[a[1] as usize], "with features [{}], {op} returns other results in the freestanding program", features(set));
            Ok(())
        },
    );
    // How many operations each set offers must only grow with the set.
    let m = Mon::new("features only add").fmt("u");
    run.enumerate(
        &m,
        256,
        |i, v| v.extend([i as u32 / 16, i as u32 % 16]),
        |a, o| {
            let (small, large) = (a[0] & a[1], a[0]);
            if small == large {
                o.trivial();
                return Ok(());
            }
            if let (Ok(s), Ok(l)) = (&got[small as usize], &got[large as usize]) {
                for (op, d) in s {
                    ensure!(l.iter().any(|x| x.0 == *op && x.1 == *d), "{op} works with [{}] but not the same with [{}]", features(small), features(large));
                }
            }
            Ok(())
        },
    );

    // The library alone, also with defmt.
    let built: Vec<Result<(), String>> = std::thread::scope(|s| {
        let root = &root;
        let h: Vec<_> = (0..8)
            .map(|i| {
                s.spawn(move || {
                    let target = root.join(format!("target/lib-{i}"));
                    (0..4)
                        .map(|k| {
                            let set = i + 8 * k;
                            cargo(root, &target, &["build", "--lib", "--no-default-features", "--manifest-path", "/repo/Cargo.toml"], set)
                        })
                        .collect::<Vec<_>>()
                })
            })
            .collect();
        let per: Vec<_> = h.into_iter().map(|h| h.join().unwrap()).collect();
        (0..32).map(|set| per[set % 8][set / 8].clone()).collect()
    });
    run.enumerate(
        &Mon::new("library").fmt("u").classes(&["with defmt", "without defmt"]),
        32,
        |i, v| v.push(i as u32),
        |a, o| {
            o.class((a[0] < 16) as usize);
            if let Err(e) = &built[a[0] as usize] {
                return Err(format!("the library does not build with features [{}]: {e}", features(a[0])));
            }
            Ok(())
        },
    );
    run.finish()
}
