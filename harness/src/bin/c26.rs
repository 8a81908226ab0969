//! C26: a result depends on the arguments alone: not on the build, the features, what was called
//! before, or what other threads are doing.
use mmverif::digests::{self, case, output, Digests};
use mmverif::{ensure, gen, Mon, Rng, Run};
use std::path::{Path, PathBuf};
use std::process::Command;

#[path = "../../../digest/src/ops.rs"]
mod ops;

struct Build {
    name: &'static str,
    args: &'static [&'static str],
    flags: &'static str,
    dir: &'static str,
}

const BUILDS: &[Build] = &[
    Build { name: "opt-level 3, all features", args: &["--release", "--features", "quaternion,statistics,vector,num-traits"], flags: "", dir: "release" },
    Build { name: "opt-level 0 with debug assertions, all features", args: &["--features", "quaternion,statistics,vector,num-traits"], flags: "", dir: "debug" },
    Build { name: "opt-level s, no features", args: &["--profile", "small"], flags: "", dir: "small" },
    Build { name: "fat LTO for this processor, all features", args: &["--profile", "fat", "--features", "quaternion,statistics,vector,num-traits"], flags: "-Ctarget-cpu=native", dir: "fat" },
    Build { name: "opt-level 1 with overflow checks, quaternion and vector", args: &["--profile", "checked", "--features", "quaternion,vector"], flags: "", dir: "checked" },
    Build { name: "opt-level 3, statistics and num-traits", args: &["--release", "--features", "statistics,num-traits"], flags: "", dir: "release" },
    Build { name: "opt-level 0 without features", args: &[], flags: "", dir: "debug" },
];

fn compile(root: &Path, i: usize) -> Result<PathBuf, String> {
    let b = &BUILDS[i];
    let target = root.join(format!("target/digest-{i}"));
    let out = Command::new("cargo")
        .args(["build", "--offline", "--quiet"])
        .args(b.args)
        .current_dir(root.join("digest"))
        .env("CARGO_TARGET_DIR", &target)
        .env("RUSTFLAGS", b.flags)
        .output()
        .map_err(|e| e.to_string())?;
    if !out.status.success() {
        return Err(String::from_utf8_lossy(&out.stderr).chars().take(3000).collect());
    }
    Ok(target.join(b.dir).join("digest"))
}

fn digests_of(exe: &Path, inputs: &Path, block: usize) -> Result<Digests, String> {
    output(Command::new(exe).arg(inputs).arg(block.to_string())).map(|t| digests::parse(&t))
}

fn dump(exe: &Path, inputs: &Path, block: usize, op: &str, b: usize) -> Vec<String> {
    let out = Command::new(exe).arg(inputs).arg(block.to_string()).arg(op).arg(b.to_string()).output().unwrap();
    String::from_utf8_lossy(&out.stdout).lines().map(str::to_string).collect()
}

fn main() {
    let root = PathBuf::from(std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into()));
    let mut run = Run::new("C26", "every operation on hostile arguments: in seven builds, amid other calls, and from all threads at once; distinct cases are distinct (operation, input) or (build, operation, block of inputs)");
    run.assume("NaN results are compared as NaN, whatever their bits; only x86-64 builds run here");
    let all: Vec<&ops::Op> = ops::GROUPS.iter().flat_map(|g| g.iter()).collect();

    // inputs, the same for all builds
    const BLOCK: usize = 2000;
    let n = run.amount(100, 1000) as usize * BLOCK;
    let mut r = Rng::new(run.seed ^ 0xC26);
    let cases: Vec<[u32; 8]> = (0..n).map(|_| case(&mut r)).collect();
    let inputs = root.join(format!("target/digest-inputs-{}.bin", std::process::id()));
    std::fs::create_dir_all(root.join("target")).unwrap();
    digests::write_cases(&inputs, &cases);

    let built: Vec<Result<PathBuf, String>> = std::thread::scope(|s| {
        let root = &root;
        let h: Vec<_> = (0..BUILDS.len()).map(|i| s.spawn(move || compile(root, i))).collect();
        h.into_iter().map(|h| h.join().unwrap()).collect()
    });
    let mut exes = vec![];
    for (b, e) in BUILDS.iter().zip(built) {
        match e {
            Ok(e) => exes.push(e),
            Err(e) => {
                println!("{e}\nERROR: the build `{}` failed", b.name);
                std::process::exit(2);
            }
        }
    }
    let got: Vec<Result<Digests, String>> = std::thread::scope(|s| {
        let inputs = &inputs;
        let h: Vec<_> = exes.iter().map(|e| s.spawn(move || digests_of(e, inputs, BLOCK))).collect();
        h.into_iter().map(|h| h.join().unwrap()).collect()
    });
    // against this very program, whose results the next two monitors look at
    let table: Vec<(&str, Box<dyn Fn(&[u32; 8]) -> u64 + Sync>)> = all.iter().map(|op| (op.0, Box::new(move |a: &[u32; 8]| ops::eval(op, a)) as _)).collect();
    let here = digests::here(&table, &cases, BLOCK, |d| {
        let mut h = ops::H(7);
        for d in d {
            h.u(*d as u32);
            h.u((*d >> 32) as u32);
        }
        h.0
    });
    let blocks = n / BLOCK;
    let m = Mon::new("builds").fmt("u").classes(&["operation present in the build"]);
    let names: Vec<&str> = all.iter().map(|o| o.0).collect();
    let total = BUILDS.len() * names.len() * blocks;
    run.enumerate(
        &m,
        total as u64,
        |i, v| {
            let i = i as usize;
            v.extend([(i / blocks / names.len()) as u32, (i / blocks % names.len()) as u32, (i % blocks) as u32]);
        },
        |a, o| {
            let (b, op, k) = (a[0] as usize, names[a[1] as usize], a[2] as usize);
            let d = match &got[b] {
                Ok(d) => d,
                Err(e) => return Err(format!("the build `{}` did not get through: {e}", BUILDS[b].name)),
            };
            let Some(theirs) = d.iter().find(|x| x.0 == op) else {
                o.trivial();
                return Ok(());
            };
            o.class(0);
            let ours = here.iter().find(|x| x.0 == op).unwrap();
            if theirs.1[k] == ours.1[k] {
                return Ok(());
            }
            let values = dump(&exes[b], &inputs, BLOCK, op, k);
            let opf = all[a[1] as usize];
            for (i, v) in values.iter().enumerate() {
                let c = &cases[k * BLOCK + i];
                let w = mmverif::panics(|| ops::eval(opf, c)).unwrap_or(0xdead);
                ensure!(*v == format!("{w:016x}"), "{op} of {:?} differs between the build `{}` and this one", c.map(f32::from_bits), BUILDS[b].name);
            }
            Err(format!("{op} differs between two runs of the build `{}`, or between it and this one", BUILDS[b].name))
        },
    );
    let _ = std::fs::remove_file(&inputs);

    // what was called before
    let n = run.amount(8_000_000, 400_000_000);
    run.random(
        &Mon::new("history").fmt("u").classes(&["the same operation in between", "others in between"]),
        n,
        |r, v| {
            v.push(r.below(names.len() as u64) as u32);
            v.push(r.u32());
            v.extend(case(r));
        },
        |a, o| {
            let op = all[a[0] as usize];
            let mut r = Rng::new(a[1] as u64);
            let mut c = [0; 8];
            c.copy_from_slice(&a[2..10]);
            let first = ops::eval(op, &c);
            let k = r.below(12);
            let same = r.chance(2);
            o.class(!same as usize);
            for _ in 0..k {
                let other = if same { op } else { all[r.below(all.len() as u64) as usize] };
                let mut d = case(&mut r);
                if r.chance(2) {
                    let i = r.below(8) as usize;
                    d = c;
                    d[i] ^= 1 << r.below(32);
                }
                std::hint::black_box(ops::eval(other, &d));
            }
            let again = ops::eval(op, &c);
            ensure!(first == again, "{} of {:?}: a second call returned something else, {k} calls later", op.0, c.map(f32::from_bits));
            Ok(())
        },
    );

    // however many calls went before: each operation over and over on a few inputs, on all threads together
    const CHUNKS: u64 = 64;
    let each = run.amount(1 << 18, 1 << 24) as usize;
    run.enumerate(
        &Mon::new("long runs").fmt("u").classes(&["one input", "several inputs"]),
        names.len() as u64 * CHUNKS,
        |i, v| v.extend([(i / CHUNKS) as u32, (i % CHUNKS) as u32]),
        |a, o| {
            let op = all[a[0] as usize];
            let mut r = Rng::new(0x10116 ^ (a[1] as u64) << 32);
            let k = if a[1] & 7 == 0 { 1 } else { 1 + r.below(12) as usize };
            o.class((k > 1) as usize);
            let c: Vec<[u32; 8]> = (0..k).map(|_| case(&mut r)).collect();
            let call = |j: usize| ops::eval(op, &c[j]);
            let first: Vec<Option<u64>> = (0..k).map(|j| mmverif::panics(|| call(j)).ok()).collect();
            // unwinding is slow: inputs on which the operation panics are left to the other monitors
            let live: Vec<usize> = (0..k).filter(|&j| first[j].is_some()).collect();
            if live.is_empty() {
                o.trivial();
                return Ok(());
            }
            for i in 0..each {
                let j = live[i % live.len()];
                ensure!(Some(call(j)) == first[j], "{} of {:?}: call {i} of a long run returned something else than the first", op.0, c[j].map(f32::from_bits));
            }
            Ok(())
        },
    );

    // what other threads do
    const POOL: usize = 96;
    let mut r = Rng::new(run.seed ^ 0x7007);
    let pool: Vec<[u32; 8]> = (0..POOL).map(|_| case(&mut r)).collect();
    let want: Vec<Vec<u64>> = all.iter().map(|op| pool.iter().map(|c| mmverif::panics(|| ops::eval(op, c)).unwrap_or(0xdead)).collect()).collect();
    let n = run.amount(8_000_000, 400_000_000);
    run.random(
        &Mon::new("threads").fmt("u").classes(&["the inputs in turn", "one input over and over"]),
        n,
        |r, v| v.extend([r.below(names.len() as u64) as u32, r.below(POOL as u64) as u32, r.u32()]),
        |a, o| {
            let (op, i, s) = (a[0] as usize, a[1] as usize, gen::mix(a[2] as u64) as usize);
            let stride = if s & 1 == 0 { 0 } else { s >> 1 & 63 };
            o.class((stride == 0) as usize);
            for k in 0..8 {
                let j = (i + k * stride) % POOL;
                let d = ops::eval(all[op], &pool[j]);
                ensure!(d == want[op][j], "{} of {:?} differs from what one thread alone got", names[op], pool[j].map(f32::from_bits));
            }
            Ok(())
        },
    );
    run.finish()
}
