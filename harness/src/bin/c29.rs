//! C29: the same results on 32-bit and big-endian targets, and a build for microcontrollers.
use mmverif::digests::{self, case, output, Digests};
use mmverif::{ensure, Mon, Rng, Run};
use std::path::{Path, PathBuf};
use std::process::Command;

#[path = "../../../digest/src/ops.rs"]
mod ops;

const ALL: &str = "quaternion,statistics,vector,num-traits";
/// Interpreted: 32-bit and big-endian; the family of most microcontrollers.
const TARGETS: [(&str, &str); 2] = [("powerpc", "powerpc-unknown-linux-gnu"), ("arm", "arm-unknown-linux-gnueabi")];

fn nightly(dir: &Path, target: &Path) -> Command {
    let mut c = Command::new("cargo");
    c.current_dir(dir).env("RUSTUP_TOOLCHAIN", "nightly").env("CARGO_TARGET_DIR", target);
    c
}

/// Where rust-src keeps what the standard library is built from.
fn vendor() -> Result<String, String> {
    let root = output(Command::new("rustc").args(["--print", "sysroot"]).env("RUSTUP_TOOLCHAIN", "nightly"))?;
    Ok(format!("{}/lib/rustlib/src/rust/library/vendor", root.trim()))
}

fn wasm(root: &Path) -> Result<PathBuf, String> {
    let target = root.join("target/wasm");
    let dir = format!("source.vendored.directory=\"{}\"", vendor()?);
    output(nightly(&root.join("wasm"), &target).args([
        "build", "--quiet", "--offline", "--release", "-Zbuild-std=core", "--target", "wasm32v1-none", "--config", "source.crates-io.replace-with=\"vendored\"", "--config", &dir,
    ]))?;
    Ok(target.join("wasm32v1-none/release/digest_wasm.wasm"))
}

fn node(root: &Path, args: &[&str]) -> Command {
    let mut c = Command::new("node");
    c.arg(root.join("wasm/run.js")).args(args);
    c
}

/// Library builds for a Cortex-M0: 32 bits, no floating-point unit, no atomic read-modify-write.
fn thumb(root: &Path, set: usize) -> Result<(), String> {
    let features = [&format!("{ALL},defmt"), ALL, "quaternion,vector", "statistics", "quaternion", "vector", "num-traits", ""][set].to_string();
    let mut c = nightly(&root.join("harness"), &root.join("target/thumb"));
    c.args(["build", "--quiet", "--offline", "--release", "--lib", "--no-default-features", "--manifest-path", "/repo/Cargo.toml", "-Zbuild-std=core", "--target", "thumbv6m-none-eabi", "--features", &features]);
    output(&mut c).map(|_| ()).map_err(|e| format!("with features [{features}]: {e}"))
}

fn interpreter(root: &Path) -> Command {
    let mut c = nightly(&root.join("digest"), &root.join("target/miri"));
    c.env("XDG_CACHE_HOME", root.join("target/miri-cache")).env("MIRIFLAGS", "-Zmiri-disable-isolation -Zmiri-deterministic-floats");
    c
}

fn miri(root: &Path, target: &str, inputs: &Path, block: usize) -> Result<Digests, String> {
    let t = output(interpreter(root).args(["miri", "run", "--quiet", "--offline", "--target", target, "--features", ALL, "--"]).arg(inputs).arg(block.to_string()))?;
    Ok(digests::parse(&t))
}

/// A build that fails in the library is a finding; one that fails elsewhere decides nothing.
fn ours(e: &str) -> bool {
    e.contains("could not compile `micromath`") || e.contains("the library does not build")
}

fn fail(what: &str, e: String) -> ! {
    println!("{e}\nERROR: {what}");
    std::process::exit(2);
}

fn main() {
    let root = PathBuf::from(std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into()));
    let mut run = Run::new("C29", "every operation on hostile arguments: on wasm32 (32-bit, compiled, run by node) and on powerpc (32-bit, big-endian) and arm, interpreted by Miri, against x86-64; distinct cases are distinct (target, operation, block of inputs)");
    run.assume("NaN results are compared as NaN; Miri also reports undefined behaviour and arithmetic overflow; the microcontroller build is compiled, not run");
    let all: Vec<&ops::Op> = ops::GROUPS.iter().flat_map(|g| g.iter()).collect();
    std::fs::create_dir_all(root.join("target")).unwrap();
    let id = std::process::id();
    let file = |k: String| root.join(format!("target/c29-{id}-{k}.bin"));

    const BLOCK: usize = 2000;
    const PARTS: usize = 8;
    let n = run.amount(200, 4000) as usize * BLOCK;
    let small = run.amount(80, 1000) as usize;
    let mut r = Rng::new(run.seed ^ 0xC29);
    let cases: Vec<[u32; 8]> = (0..n).map(|_| case(&mut r)).collect();
    let few: Vec<[u32; 8]> = (0..small * PARTS).map(|_| case(&mut r)).collect();
    let inputs = file("wasm".into());
    digests::write_cases(&inputs, &cases);
    for (k, c) in few.chunks(small).enumerate() {
        digests::write_cases(&file(k.to_string()), c);
    }

    let (module, chips, setup) = std::thread::scope(|s| {
        let root = &root;
        let w = s.spawn(move || wasm(root));
        let t = s.spawn(move || (0..8).map(|k| thumb(root, k)).collect::<Vec<_>>());
        let m = s.spawn(move || {
            for (_, target) in TARGETS {
                output(interpreter(root).args(["miri", "setup", "--target", target]))?;
            }
            // build the program once, on an empty input
            let empty = root.join(format!("target/c29-{id}-empty.bin"));
            std::fs::write(&empty, []).unwrap();
            let e = TARGETS.iter().try_for_each(|t| miri(root, t.1, &empty, 1).map(|_| ()));
            let _ = std::fs::remove_file(&empty);
            e
        });
        (w.join().unwrap(), t.join().unwrap(), m.join().unwrap())
    });
    for (what, e) in [("the wasm32 build failed", module.as_ref().err()), ("Miri could not be set up", setup.as_ref().err())].into_iter().chain(chips.iter().map(|c| ("the thumbv6m build failed", c.as_ref().err()))) {
        match e {
            Some(e) if !ours(e) => fail(what, e.clone()),
            _ => {}
        }
    }
    let broken = module.as_ref().err().or(setup.as_ref().err()).cloned();
    run.enumerate(&Mon::new("builds").fmt("u").classes(&["targets"]), 1, |_, v| v.push(0), |_, o| {
        o.class(0);
        broken.clone().map_or(Ok(()), |e| Err(format!("the library does not build for a 32-bit target: {e}")))
    });
    let module = module.map(|m| m.to_str().unwrap().to_string()).unwrap_or_default();
    let path = inputs.to_str().unwrap().to_string();
    let (on_wasm, interpreted): (Vec<Result<String, String>>, Vec<Result<Digests, String>>) = std::thread::scope(|s| {
        let (root, module, path) = (&root, &module, &path);
        let w: Vec<_> = (0..PARTS).map(|k| s.spawn(move || output(&mut node(root, &[module, path, &BLOCK.to_string(), &k.to_string(), &PARTS.to_string()])))).collect();
        let w = w.into_iter().map(|h| h.join().unwrap()).collect();
        let m: Vec<_> = (0..PARTS * TARGETS.len()).map(|k| { let f = file((k % PARTS).to_string()); s.spawn(move || miri(root, TARGETS[k / PARTS].1, &f, small)) }).collect();
        (w, m.into_iter().map(|h| h.join().unwrap()).collect())
    });
    let table: Vec<(&str, Box<dyn Fn(&[u32; 8]) -> u64 + Sync>)> = all.iter().map(|op| (op.0, Box::new(move |a: &[u32; 8]| ops::eval(op, a)) as _)).collect();
    let fold = |d: &[u64]| {
        let mut h = ops::H(7);
        for d in d {
            h.u(*d as u32);
            h.u((*d >> 32) as u32);
        }
        h.0
    };
    let host = digests::here(&table, &cases, BLOCK, fold);
    let host_few = digests::here(&table, &few, small, fold);
    let names: Vec<&str> = all.iter().map(|o| o.0).collect();
    let find = |d: &Digests, op: &str| d.iter().find(|x| x.0 == op).map(|x| x.1.clone());

    let blocks = n / BLOCK;
    let wasm_digests: Result<Digests, String> = on_wasm.into_iter().collect::<Result<Vec<_>, _>>().map(|t| digests::parse(&t.concat()));
    run.enumerate(
        &Mon::new("wasm32").fmt("u").classes(&["operation in the module"]),
        (names.len() * blocks) as u64,
        |i, v| v.extend([i as u32 / blocks as u32, i as u32 % blocks as u32]),
        |a, o| {
            let (op, k) = (names[a[0] as usize], a[1] as usize);
            let d = wasm_digests.as_ref().map_err(|e| format!("the module did not get through: {e}"))?;
            let Some(theirs) = find(d, op) else {
                o.trivial();
                return Ok(());
            };
            o.class(0);
            if theirs[k] == find(&host, op).unwrap()[k] {
                return Ok(());
            }
            let text = output(&mut node(&root, &[&module, &path, &BLOCK.to_string(), op, &k.to_string()]))?;
            for (c, v) in cases[k * BLOCK..].iter().zip(text.lines()) {
                let w = mmverif::panics(|| ops::eval(all[a[0] as usize], c)).unwrap_or(0xdead);
                ensure!(v == format!("{w:016x}"), "{op} of {:?} differs between wasm32 and this machine", c.map(f32::from_bits));
            }
            Err(format!("{op} differs between two runs on wasm32"))
        },
    );
    for (t, (target, _)) in TARGETS.into_iter().enumerate() {
        run.enumerate(
            &Mon::new(target).fmt("u").classes(&["operation in the program"]),
            (names.len() * PARTS) as u64,
            |i, v| v.extend([i as u32 / PARTS as u32, i as u32 % PARTS as u32]),
            |a, o| {
                let (op, k) = (names[a[0] as usize], a[1] as usize);
                let d = interpreted[t * PARTS + k].as_ref().map_err(|e| format!("the program interpreted for {target} did not get through: {e}"))?;
                let Some(theirs) = find(d, op) else {
                    return Err(format!("{op} is missing in the interpreted program"));
                };
                o.class(0);
                ensure!(theirs[0] == find(&host_few, op).unwrap()[k], "{op} differs between {target} and this machine, on one of {:?}", few[k * small..(k + 1) * small].iter().map(|c| c.map(f32::from_bits)).collect::<Vec<_>>());
                Ok(())
            },
        );
    }
    run.enumerate(
        &Mon::new("microcontroller").fmt("u").classes(&["set of features"]),
        8,
        |i, v| v.push(i as u32),
        |a, o| {
            o.class(0);
            chips[a[0] as usize].clone().map_err(|e| format!("the library does not build for thumbv6m-none-eabi {e}"))
        },
    );
    for k in (0..PARTS).map(|k| k.to_string()).chain(["wasm".into()]) {
        let _ = std::fs::remove_file(file(k));
    }
    run.finish()
}
