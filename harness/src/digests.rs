//! Digests of every operation from other builds of the same sources: shared by C26 and C29.
use crate::Rng;
use std::path::Path;
use std::process::Command;

/// One input of the digest programs.
pub fn case(r: &mut Rng) -> [u32; 8] {
    let mode = r.below(6);
    let base = r.finite();
    let mut w = [0; 8];
    for x in &mut w {
        *x = match mode {
            0 => r.any(),
            1 => r.moderate(-20, 20),
            2 => r.log(-3, 3),
            3 => r.related(base),
            _ => r.hostile(),
        }
        .to_bits();
    }
    w
}

/// Operation, and its digest of every block.
pub type Digests = Vec<(String, Vec<String>)>;

pub fn parse(text: &str) -> Digests {
    text.lines()
        .map(|l| {
            let mut w = l.split(' ').map(str::to_string);
            (w.next().unwrap_or_default(), w.collect())
        })
        .collect()
}

/// Runs a command; its output, or how it ended.
pub fn output(c: &mut Command) -> Result<String, String> {
    let out = c.output().map_err(|e| e.to_string())?;
    if !out.status.success() {
        return Err(format!("{}: {}", out.status, String::from_utf8_lossy(&out.stderr).chars().take(2500).collect::<String>()));
    }
    Ok(String::from_utf8_lossy(&out.stdout).into_owned())
}

pub fn write_cases(path: &Path, cases: &[[u32; 8]]) {
    let bytes: Vec<u8> = cases.iter().flatten().flat_map(|w| w.to_le_bytes()).collect();
    std::fs::write(path, bytes).unwrap();
}

/// The digests that this very program finds, by operations given as (name, evaluation).
pub fn here(ops: &[(&str, Box<dyn Fn(&[u32; 8]) -> u64 + Sync + '_>)], cases: &[[u32; 8]], block: usize, fold: impl Fn(&[u64]) -> u64 + Sync) -> Digests {
    let next = std::sync::atomic::AtomicUsize::new(0);
    let out = std::sync::Mutex::new(vec![]);
    std::thread::scope(|s| {
        for _ in 0..8 {
            s.spawn(|| loop {
                let i = next.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                let Some(op) = ops.get(i) else { break };
                let d: Vec<String> = cases
                    .chunks(block)
                    .map(|c| {
                        // a panic is a result, too
                        let d: Vec<u64> = c.iter().map(|a| crate::panics(|| (op.1)(a)).unwrap_or(0xdead)).collect();
                        format!("{:016x}", fold(&d))
                    })
                    .collect();
                out.lock().unwrap().push((op.0.to_string(), d));
            });
        }
    });
    out.into_inner().unwrap()
}
