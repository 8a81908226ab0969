//! usage: digest INPUTS BLOCK            one line per operation: its name, a digest per block
//!        digest INPUTS BLOCK OP B       every digest of one operation in block B
//! INPUTS holds cases of eight little-endian words.
mod ops;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let bytes = std::fs::read(&args[1]).unwrap();
    let block: usize = args[2].parse().unwrap();
    let cases: Vec<[u32; 8]> = bytes
        .chunks_exact(32)
        .map(|c| {
            let mut w = [0; 8];
            for (i, b) in c.chunks_exact(4).enumerate() {
                w[i] = u32::from_le_bytes([b[0], b[1], b[2], b[3]]);
            }
            w
        })
        .collect();
    let all: Vec<&ops::Op> = ops::GROUPS.iter().flat_map(|g| g.iter()).collect();
    if let (Some(op), Some(b)) = (args.get(3), args.get(4)) {
        let b: usize = b.parse().unwrap();
        let op = all.iter().find(|o| o.0 == op).unwrap();
        for c in cases.chunks(block).nth(b).unwrap() {
            println!("{:016x}", ops::eval(op, c));
        }
        return;
    }
    let next = std::sync::atomic::AtomicUsize::new(0);
    let lines = std::sync::Mutex::new(vec![]);
    let threads = if cfg!(miri) { 1 } else { 4 };
    std::thread::scope(|s| {
        for _ in 0..threads {
            s.spawn(|| loop {
                let i = next.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                let Some(op) = all.get(i) else { break };
                let mut line = op.0.replace(' ', "_");
                for chunk in cases.chunks(block) {
                    let mut h = ops::H(7);
                    for c in chunk {
                        let d = ops::eval(op, c);
                        h.u(d as u32);
                        h.u((d >> 32) as u32);
                    }
                    line.push_str(&format!(" {:016x}", h.0));
                }
                lines.lock().unwrap().push((i, line));
            });
        }
    });
    let mut lines = lines.into_inner().unwrap();
    lines.sort();
    for (_, l) in lines {
        println!("{l}");
    }
}
