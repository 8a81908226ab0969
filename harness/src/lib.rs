//! Runtime-monitoring engine: drives the real micromath code over workloads and lets online
//! oracles observe each execution.
//!
//! A monitor is a closure `Fn(&[u32], &mut Obs) -> Result<(), String>`: it is given one case (the
//! raw bits of the arguments), calls the real code, judges what it observed, and records in `Obs`
//! what kind of case it saw. The engine feeds monitors from workloads (exhaustive bit ranges,
//! seeded hostile generators, explicit lists), turns panics and non-termination of the code under
//! test into violations, writes evidence and replay files and prints the verdict.

use std::cell::Cell;
use std::collections::BTreeMap;
use std::fmt::Write as _;
use std::io::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU32, AtomicU64, AtomicUsize, Ordering::Relaxed};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub use micromath::{F32Ext, F32};

pub mod digests;
pub mod gen;
pub mod spec;
pub use gen::Rng;

/// Most slots of each kind that one monitor may use.
const SLOTS: usize = 24;
/// Detailed violations kept per monitor.
const KEEP: usize = 8;
/// A worker gives up on a monitor after this many violations.
const GIVE_UP: u64 = 2000;
/// CPU seconds that one call may take.
const HANG_CPU_S: f64 = 20.0;
const MAX_ARGS: usize = 4;
/// Seconds that a run goes on after its first violation: code that breaks a property may be slow.
const GO_ON_S: u64 = 60;
/// When the first violation was seen, and its monitor, arguments and text.
static FIRST: Mutex<Option<(Instant, &'static str, Vec<u32>, String)>> = Mutex::new(None);

pub type Verdict = Result<(), String>;

#[derive(Clone, Copy)]
struct Worst {
    util: f64,
    err: f64,
    bound: f64,
    args: [u32; MAX_ARGS],
    nargs: usize,
    count: u64,
    sum: f64,
}

impl Default for Worst {
    fn default() -> Self {
        Worst { util: -1.0, err: 0.0, bound: 0.0, args: [0; MAX_ARGS], nargs: 0, count: 0, sum: 0.0 }
    }
}

/// What a monitor records about the executions that it observed.
pub struct Obs {
    evals: u64,
    nontrivial: u64,
    distinct: u64,
    class: [u64; SLOTS],
    metric: [Worst; SLOTS],
    args: [u32; MAX_ARGS],
    nargs: usize,
    trivial: bool,
}

impl Default for Obs {
    fn default() -> Self {
        Obs {
            evals: 0,
            nontrivial: 0,
            distinct: 0,
            class: [0; SLOTS],
            metric: [Worst::default(); SLOTS],
            args: [0; MAX_ARGS],
            nargs: 0,
            trivial: false,
        }
    }
}

impl Obs {
    /// The case belongs to input class `i` (an index into the monitor's class names).
    #[inline(always)]
    pub fn class(&mut self, i: usize) {
        self.class[i] += 1;
    }
    /// The property says nothing, or nothing interesting, about this case.
    #[inline(always)]
    pub fn trivial(&mut self) {
        self.trivial = true;
    }
    /// Judge a measured error against its bound: records how close the worst case came.
    /// NaN errors fail.
    #[inline(always)]
    pub fn within(&mut self, metric: usize, err: f64, bound: f64) -> bool {
        let m = &mut self.metric[metric];
        m.count += 1;
        m.sum += err;
        let util = err / bound;
        if util > m.util {
            m.util = util;
            m.err = err;
            m.bound = bound;
            m.args = self.args;
            m.nargs = self.nargs;
        }
        err <= bound
    }
    pub fn mean(&self, metric: usize) -> f64 {
        self.metric[metric].sum / self.metric[metric].count as f64
    }
    fn merge(&mut self, o: &Obs) {
        self.evals += o.evals;
        self.nontrivial += o.nontrivial;
        self.distinct += o.distinct;
        for i in 0..SLOTS {
            self.class[i] += o.class[i];
            let (a, b) = (&mut self.metric[i], &o.metric[i]);
            a.count += b.count;
            a.sum += b.sum;
            if b.util > a.util {
                let (c, s) = (a.count, a.sum);
                *a = *b;
                a.count = c;
                a.sum = s;
            }
        }
    }
}

pub struct Mon {
    pub name: &'static str,
    /// Classes of input; every one has to be observed for the run to count.
    pub classes: &'static [&'static str],
    /// Names of the error metrics.
    pub metrics: &'static [&'static str],
    /// How the arguments are to be shown: `f` f32, `i` i32, `u` hex bits.
    pub fmt: &'static str,
}

impl Mon {
    pub const fn new(name: &'static str) -> Mon {
        Mon { name, classes: &[], metrics: &[], fmt: "f" }
    }
    pub const fn classes(mut self, c: &'static [&'static str]) -> Mon {
        self.classes = c;
        self
    }
    pub const fn metrics(mut self, c: &'static [&'static str]) -> Mon {
        self.metrics = c;
        self
    }
    pub const fn fmt(mut self, c: &'static str) -> Mon {
        self.fmt = c;
        self
    }
    fn show(&self, args: &[u32]) -> String {
        let f = self.fmt.as_bytes();
        let mut s = String::new();
        for (i, &a) in args.iter().take(12).enumerate() {
            if i > 0 {
                s.push_str(", ");
            }
            match f[i.min(f.len() - 1)] {
                b'i' => write!(s, "{}", a as i32).unwrap(),
                b'u' => write!(s, "{a:#x}").unwrap(),
                _ => write!(s, "{:?} [{a:#010x}]", f32::from_bits(a)).unwrap(),
            }
        }
        if args.len() > 12 {
            write!(s, ", ... ({} words)", args.len()).unwrap();
        }
        s
    }
}

#[derive(Clone)]
struct Violation {
    mon: &'static str,
    args: Vec<u32>,
    what: String,
}

struct MonReport {
    name: &'static str,
    json: String,
}

/// A place where each worker publishes what it is doing, for the hang watchdog.
#[repr(align(128))]
struct Slot {
    progress: AtomicU64,
    arg: [AtomicU32; MAX_ARGS],
    nargs: AtomicUsize,
    tid: AtomicU64,
}

thread_local! {
    static QUIET: Cell<bool> = const { Cell::new(false) };
    static PANIC_MSG: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}

/// Call `f` and say whether it panicked (the message is kept quiet).
pub fn panics<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    let was = QUIET.with(|q| q.replace(true));
    let r = catch_unwind(AssertUnwindSafe(f));
    QUIET.with(|q| q.set(was));
    r.map_err(|_| PANIC_MSG.with(|m| m.borrow().clone()))
}

fn gettid() -> u64 {
    std::fs::read_link("/proc/thread-self")
        .ok()
        .and_then(|p| p.file_name()?.to_str()?.parse().ok())
        .unwrap_or(0)
}

/// CPU seconds used by one thread of this process.
fn thread_cpu_s(tid: u64) -> Option<f64> {
    let s = std::fs::read_to_string(format!("/proc/self/task/{tid}/stat")).ok()?;
    let rest = &s[s.rfind(')')? + 2..];
    let f: Vec<&str> = rest.split(' ').collect();
    let t: u64 = f.get(11)?.parse::<u64>().ok()? + f.get(12)?.parse::<u64>().ok()?;
    Some(t as f64 / 100.0)
}

pub struct Run {
    pub property: &'static str,
    pub tier_thorough: bool,
    pub seed: u64,
    rule: &'static str,
    start: Instant,
    reports: Vec<MonReport>,
    violations: Vec<Violation>,
    n_violations: u64,
    evals: u64,
    distinct: u64,
    samples: Vec<String>,
    missing: Vec<String>,
    all_exhaustive: bool,
    assumptions: Vec<String>,
    replay: Option<(String, Vec<u32>)>,
    replayed: bool,
    only: Option<String>,
    threads: usize,
    bitmap: Option<Vec<AtomicU64>>,
}

const BITMAP_BITS: u64 = 1 << 31;

impl Run {
    /// `rule`: how the cases are made and what makes one non-trivial.
    pub fn new(property: &'static str, rule: &'static str) -> Run {
        std::panic::set_hook(Box::new(|info| {
            let msg = match info.payload().downcast_ref::<&str>() {
                Some(s) => s.to_string(),
                None => info.payload().downcast_ref::<String>().cloned().unwrap_or_default(),
            };
            let at = info.location().map(|l| l.to_string()).unwrap_or_default();
            if QUIET.with(|q| q.get()) {
                PANIC_MSG.with(|m| *m.borrow_mut() = format!("{msg} at {at}"));
            } else {
                eprintln!("harness panic: {msg} at {at}");
            }
        }));
        let mut replay = None;
        let mut only = None;
        let mut args = std::env::args().skip(1);
        while let Some(a) = args.next() {
            match a.as_str() {
                "--replay" => {
                    let p = args.next().expect("--replay FILE");
                    let s = std::fs::read_to_string(&p).expect("replay file");
                    let mut mon = String::new();
                    let mut v = Vec::new();
                    for l in s.lines() {
                        if let Some(m) = l.strip_prefix("monitor ") {
                            mon = m.to_string();
                        } else if let Some(m) = l.strip_prefix("args") {
                            v = m
                                .split_whitespace()
                                .map(|x| u32::from_str_radix(x.trim_start_matches("0x"), 16).unwrap())
                                .collect();
                        }
                    }
                    replay = Some((mon, v));
                }
                "--only" => only = args.next(),
                _ => panic!("unknown argument {a}"),
            }
        }
        Run {
            property,
            tier_thorough: std::env::var("VERIF_TIER").as_deref() == Ok("thorough"),
            seed: std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1),
            rule,
            start: Instant::now(),
            reports: vec![],
            violations: vec![],
            n_violations: 0,
            evals: 0,
            distinct: 0,
            samples: vec![],
            missing: vec![],
            all_exhaustive: true,
            assumptions: vec![],
            replay,
            replayed: false,
            only,
            threads: std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(16),
            bitmap: None,
        }
    }

    pub fn assume(&mut self, s: &str) {
        self.assumptions.push(s.to_string());
    }

    /// Quick or thorough amount.
    pub fn amount(&self, quick: u64, thorough: u64) -> u64 {
        if self.tier_thorough {
            thorough
        } else {
            quick
        }
    }

    fn wanted(&mut self, m: &Mon, f: &(dyn Fn(&[u32], &mut Obs) -> Verdict + Sync)) -> bool {
        if let Some(o) = &self.only {
            if !m.name.contains(o.as_str()) {
                return false;
            }
        }
        let Some((name, args)) = self.replay.clone() else { return true };
        if name == m.name && !self.replayed {
            self.replayed = true;
            let mut o = Obs::default();
            println!("replaying {} on ({})", m.name, m.show(&args));
            let r = match panics(|| f(&args, &mut o)) {
                Ok(r) => r,
                Err(p) => Err(format!("panicked: {p}")),
            };
            match r {
                Ok(()) => println!("  holds"),
                Err(e) => {
                    println!("  VIOLATED: {e}");
                    self.n_violations += 1;
                }
            }
        }
        false
    }

    /// Run a monitor on every unary input `lo..=hi` (bit patterns).
    pub fn range<F>(&mut self, m: &Mon, lo: u32, hi: u32, f: F) -> Option<Obs>
    where
        F: Fn(&[u32], &mut Obs) -> Verdict + Sync,
    {
        if !self.wanted(m, &f) {
            return None;
        }
        let total = hi as u64 - lo as u64 + 1;
        const CHUNK: u64 = 1 << 18;
        let chunks = total.div_ceil(CHUNK);
        let o = self.drive(m, chunks, true, &f, |c, w| {
            let a = lo as u64 + c * CHUNK;
            let b = (a + CHUNK).min(hi as u64 + 1);
            let mut x = a;
            while x < b {
                let end = b;
                x = w.batch1(x, end);
            }
        });
        Some(o)
    }

    /// Run a monitor on every one of the 2^32 bit patterns.
    pub fn all<F>(&mut self, m: &Mon, f: F) -> Option<Obs>
    where
        F: Fn(&[u32], &mut Obs) -> Verdict + Sync,
    {
        self.range(m, 0, u32::MAX, f)
    }

    /// Run a monitor on `n` cases made by the seeded generator.
    pub fn random<G, F>(&mut self, m: &Mon, n: u64, g: G, f: F) -> Option<Obs>
    where
        G: Fn(&mut Rng, &mut Vec<u32>) + Sync,
        F: Fn(&[u32], &mut Obs) -> Verdict + Sync,
    {
        if !self.wanted(m, &f) {
            return None;
        }
        self.all_exhaustive = false;
        self.fresh_bitmap();
        const CHUNK: u64 = 1 << 12;
        let chunks = n.div_ceil(CHUNK);
        let salt = gen::hash_str(m.name) ^ self.seed.wrapping_mul(0x9E37_79B9_7F4A_7C15);
        let o = self.drive(m, chunks, false, &f, |c, w| {
            let mut r = Rng::new(salt ^ gen::mix(c + 1));
            let mut v = Vec::new();
            for _ in 0..CHUNK.min(n - c * CHUNK) {
                v.clear();
                g(&mut r, &mut v);
                w.one(&v);
                if w.stop() {
                    return;
                }
            }
        });
        Some(o)
    }

    /// Run a monitor on an explicitly enumerated, finite set of cases: `case(i)` writes case `i`.
    pub fn enumerate<G, F>(&mut self, m: &Mon, n: u64, case: G, f: F) -> Option<Obs>
    where
        G: Fn(u64, &mut Vec<u32>) + Sync,
        F: Fn(&[u32], &mut Obs) -> Verdict + Sync,
    {
        if !self.wanted(m, &f) {
            return None;
        }
        self.all_exhaustive = false;
        self.fresh_bitmap();
        let chunk = (n / 4096).clamp(1, 1 << 14);
        let chunks = n.div_ceil(chunk);
        let o = self.drive(m, chunks, false, &f, |c, w| {
            let mut v = Vec::new();
            for i in c * chunk..((c + 1) * chunk).min(n) {
                v.clear();
                case(i, &mut v);
                w.one(&v);
                if w.stop() {
                    return;
                }
            }
        });
        Some(o)
    }

    fn fresh_bitmap(&mut self) {
        // the monitor's name is part of the hash: cases of different monitors are distinct
        if self.bitmap.is_none() {
            self.bitmap = Some((0..BITMAP_BITS / 64).map(|_| AtomicU64::new(0)).collect());
        }
    }

    /// Record a property of the whole observation (e.g. an average) as violated.
    pub fn fail(&mut self, m: &Mon, what: String) {
        self.n_violations += 1;
        self.violations.push(Violation { mon: m.name, args: vec![], what });
    }

    fn drive<F: Fn(&[u32], &mut Obs) -> Verdict + Sync>(
        &mut self,
        m: &Mon,
        chunks: u64,
        exhaustive: bool,
        f: &F,
        work: impl Fn(u64, &mut Worker<'_, F>) + Sync,
    ) -> Obs {
        let t0 = Instant::now();
        let next = AtomicU64::new(0);
        let stop = AtomicBool::new(false);
        let done = Arc::new(AtomicBool::new(false));
        let total = Mutex::new((Obs::default(), Vec::<Violation>::new(), 0u64, Vec::<Vec<u32>>::new()));
        let slots: Arc<Vec<Slot>> = Arc::new(
            (0..self.threads)
                .map(|_| Slot {
                    progress: AtomicU64::new(0),
                    arg: Default::default(),
                    nargs: AtomicUsize::new(0),
                    tid: AtomicU64::new(0),
                })
                .collect(),
        );
        let dog = {
            let (slots, done) = (slots.clone(), done.clone());
            let (prop, name) = (self.property, m.name);
            std::thread::spawn(move || watchdog(prop, name, &slots, &done))
        };
        let bitmap = self.bitmap.as_deref();
        let salt = gen::hash_str(m.name);
        std::thread::scope(|s| {
            for t in 0..self.threads {
                let (next, stop, total, work, slots) = (&next, &stop, &total, &work, &slots);
                std::thread::Builder::new()
                    .stack_size(16 << 20)
                    .spawn_scoped(s, move || {
                        QUIET.with(|q| q.set(true));
                        slots[t].tid.store(gettid(), Relaxed);
                        let mut w = Worker {
                            m,
                            f,
                            obs: Obs::default(),
                            viol: vec![],
                            n_viol: 0,
                            slot: &slots[t],
                            stop,
                            exhaustive,
                            bitmap,
                            salt,
                            samples: vec![],
                        };
                        loop {
                            let c = next.fetch_add(1, Relaxed);
                            if c >= chunks || w.stop() {
                                break;
                            }
                            work(c, &mut w);
                        }
                        w.slot.tid.store(0, Relaxed);
                        let mut g = total.lock().unwrap();
                        g.0.merge(&w.obs);
                        g.2 += w.n_viol;
                        for v in w.viol {
                            if g.1.len() < KEEP {
                                g.1.push(v);
                            }
                        }
                        g.3.extend(w.samples.into_iter().take(1));
                    })
                    .unwrap();
            }
        });
        done.store(true, Relaxed);
        let (obs, viol, n_viol, samples) = total.into_inner().unwrap();
        dog.thread().unpark();
        let _ = dog.join();
        let wall = t0.elapsed().as_secs_f64();

        self.evals += obs.evals;
        let distinct = if exhaustive { obs.nontrivial } else { obs.distinct };
        self.distinct += distinct;
        for s in samples.into_iter().take(2) {
            self.samples.push(format!("{}({})", m.name, m.show(&s)));
        }
        if n_viol == 0 {
            if obs.evals == 0 || obs.nontrivial == 0 {
                self.missing.push(format!("{}: no case observed", m.name));
            }
            for (i, c) in m.classes.iter().enumerate() {
                if obs.class[i] == 0 {
                    self.missing.push(format!("{}: no case of class `{c}`", m.name));
                }
            }
            for (i, c) in m.metrics.iter().enumerate() {
                if obs.metric[i].count == 0 {
                    self.missing.push(format!("{}: metric `{c}` was never measured", m.name));
                }
            }
        }
        let mut j = format!(
            "{{\"monitor\":{},\"evaluations\":{},\"distinct_nontrivial\":{},\"exhaustive\":{},\"wall_s\":{:.2},\"violations\":{}",
            js(m.name), obs.evals, distinct, exhaustive, wall, n_viol
        );
        if !m.classes.is_empty() {
            j.push_str(",\"observed_classes\":{");
            for (i, c) in m.classes.iter().enumerate() {
                write!(j, "{}{}:{}", if i > 0 { "," } else { "" }, js(c), obs.class[i]).unwrap();
            }
            j.push('}');
        }
        if !m.metrics.is_empty() {
            j.push_str(",\"worst_observed\":{");
            for (i, c) in m.metrics.iter().enumerate() {
                let w = &obs.metric[i];
                write!(
                    j,
                    "{}{}:{{\"error\":{},\"bound\":{},\"mean_error\":{},\"measured\":{},\"at\":{}}}",
                    if i > 0 { "," } else { "" },
                    js(c),
                    num(w.err),
                    num(w.bound),
                    num(w.sum / w.count as f64),
                    w.count,
                    js(&m.show(&w.args[..w.nargs]))
                )
                .unwrap();
            }
            j.push('}');
        }
        j.push('}');
        println!(
            "  {:<28} {:>11} cases {:>11} distinct {:>6.1}s{}",
            m.name,
            obs.evals,
            distinct,
            wall,
            if n_viol > 0 { format!("  {n_viol} VIOLATIONS") } else { String::new() }
        );
        for (i, c) in m.metrics.iter().enumerate() {
            let w = &obs.metric[i];
            println!(
                "      {:<24} worst {:.4e} of {:.4e} ({:.0}%) mean {:.3e} at ({})",
                c, w.err, w.bound, w.util * 100.0, w.sum / w.count as f64, m.show(&w.args[..w.nargs])
            );
        }
        let _ = std::io::stdout().flush();
        self.reports.push(MonReport { name: m.name, json: j });
        self.n_violations += n_viol;
        for v in viol {
            println!("      {}({}): {}", v.mon, m.show(&v.args), v.what);
            self.violations.push(v);
        }
        obs
    }

    /// Write the evidence, print the verdict and exit.
    pub fn finish(self) -> ! {
        let root = std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into());
        if self.replay.is_some() {
            if !self.replayed {
                println!("no monitor of that name");
                std::process::exit(2);
            }
            std::process::exit((self.n_violations > 0) as i32);
        }
        let wall = self.start.elapsed().as_secs_f64();
        let monitors: Vec<&str> = self.reports.iter().map(|r| r.json.as_str()).collect();
        let mut samples: Vec<String> = self.samples.iter().map(|s| js(s)).collect();
        samples.truncate(40);
        let assumptions: Vec<String> = self.assumptions.iter().map(|s| js(s)).collect();
        let json = format!(
            "{{\"property\":{},\"tier\":\"{}\",\"seed\":{},\"level\":\"exploration\",\"coverage\":{{\"evaluations\":{},\"distinct_nontrivial\":{},\"rule\":{},\"samples\":[{}],\"exhaustive\":{},\"monitors\":[{}]}},\"assumptions\":[{}],\"wall_s\":{:.2},\"violations\":{}}}\n",
            js(self.property),
            if self.tier_thorough { "thorough" } else { "quick" },
            self.seed,
            self.evals,
            self.distinct,
            js(self.rule),
            samples.join(","),
            self.all_exhaustive,
            monitors.join(","),
            assumptions.join(","),
            wall,
            self.n_violations
        );
        let dir = format!("{root}/evidence");
        std::fs::create_dir_all(&dir).unwrap();
        let path = format!("{dir}/{}.json", self.property);
        if self.only.is_none() {
            std::fs::write(&path, json).unwrap();
        }
        if self.n_violations > 0 {
            if let Some(v) = self.violations.first() {
                let p = write_replay(self.property, v.mon, &v.args, &v.what);
                println!("VIOLATION property={} replay={p}", self.property);
            }
            std::process::exit(1);
        }
        if !self.missing.is_empty() {
            for m in &self.missing {
                println!("ERROR: {m}");
            }
            std::process::exit(2);
        }
        let mut names = BTreeMap::new();
        for r in &self.reports {
            *names.entry(r.name).or_insert(0) += 1;
        }
        println!(
            "OK property={} {} monitors, {} evaluations, {} distinct, {:.1}s",
            self.property,
            names.len(),
            self.evals,
            self.distinct,
            wall
        );
        std::process::exit(0)
    }
}

/// Write a replay file and return its path.
pub fn write_replay(property: &str, mon: &str, args: &[u32], what: &str) -> String {
    let root = std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into());
    let dir = format!("{root}/replay");
    let _ = std::fs::create_dir_all(&dir);
    let p = format!("{dir}/{property}.txt");
    let a: Vec<String> = args.iter().map(|x| format!("{x:#010x}")).collect();
    let _ = std::fs::write(
        &p,
        format!("property {property}\nmonitor {mon}\nargs {}\nwhat {}\nrun: bash /verif/check.sh {property} --replay {p}\n", a.join(" "), what.replace('\n', " ")),
    );
    p
}

fn watchdog(prop: &str, name: &str, slots: &[Slot], done: &AtomicBool) {
    let mut last: Vec<(u64, f64)> = vec![(u64::MAX, 0.0); slots.len()];
    while !done.load(Relaxed) {
        std::thread::park_timeout(Duration::from_millis(2000));
        if let Some((at, name, args, what)) = FIRST.lock().unwrap().as_ref() {
            if at.elapsed().as_secs() > GO_ON_S {
                println!("      {name}({args:x?}): {what}");
                let path = write_replay(prop, name, args, what);
                println!("VIOLATION property={prop} replay={path}");
                let _ = std::io::stdout().flush();
                std::process::exit(1);
            }
        }
        for (i, s) in slots.iter().enumerate() {
            let tid = s.tid.load(Relaxed);
            if tid == 0 {
                continue;
            }
            let p = s.progress.load(Relaxed);
            let Some(cpu) = thread_cpu_s(tid) else { continue };
            if p != last[i].0 {
                last[i] = (p, cpu);
            } else if cpu - last[i].1 > HANG_CPU_S && !done.load(Relaxed) && s.tid.load(Relaxed) != 0 {
                let n = s.nargs.load(Relaxed).min(MAX_ARGS);
                let args: Vec<u32> = (0..n).map(|k| s.arg[k].load(Relaxed)).collect();
                let what = format!("did not return within {HANG_CPU_S} s of CPU time");
                let fl: Vec<f32> = args.iter().map(|&a| f32::from_bits(a)).collect();
                println!("      {name}({fl:?} {args:x?}): {what}");
                let path = write_replay(prop, name, &args, &what);
                println!("VIOLATION property={prop} replay={path}");
                let _ = std::io::stdout().flush();
                std::process::exit(1);
            }
        }
    }
}

struct Worker<'a, F> {
    m: &'a Mon,
    f: &'a F,
    obs: Obs,
    viol: Vec<Violation>,
    n_viol: u64,
    slot: &'a Slot,
    stop: &'a AtomicBool,
    exhaustive: bool,
    bitmap: Option<&'a [AtomicU64]>,
    salt: u64,
    samples: Vec<Vec<u32>>,
}

impl<F: Fn(&[u32], &mut Obs) -> Verdict> Worker<'_, F> {
    fn stop(&self) -> bool {
        self.stop.load(Relaxed)
    }
    #[cold]
    fn violation(&mut self, args: &[u32], what: String) {
        self.n_viol += 1;
        if self.viol.is_empty() {
            FIRST.lock().unwrap().get_or_insert_with(|| (Instant::now(), self.m.name, args.to_vec(), what.clone()));
        }
        if self.viol.len() < KEEP {
            self.viol.push(Violation { mon: self.m.name, args: args.to_vec(), what });
        }
        if self.n_viol >= GIVE_UP {
            self.stop.store(true, Relaxed);
        }
    }
    /// Observe the unary inputs `x..end`; returns where it got to.
    fn batch1(&mut self, x: u64, end: u64) -> u64 {
        let mut cur = x;
        let f = self.f;
        let obs = &mut self.obs;
        let slot = self.slot;
        slot.nargs.store(1, Relaxed);
        obs.nargs = 1;
        let mut err = None;
        let r = catch_unwind(AssertUnwindSafe(|| {
            while cur < end {
                let a = [cur as u32];
                slot.arg[0].store(a[0], Relaxed);
                slot.progress.store(cur, Relaxed);
                obs.args[0] = a[0];
                obs.trivial = false;
                obs.evals += 1;
                cur += 1;
                let v = f(&a, obs);
                if let Err(e) = v {
                    err = Some(e);
                    return;
                }
                obs.nontrivial += !obs.trivial as u64;
            }
        }));
        let args = [(cur.wrapping_sub(1)) as u32];
        if r.is_err() {
            let m = PANIC_MSG.with(|m| m.borrow().clone());
            self.violation(&args, format!("panicked: {m}"));
        } else if let Some(e) = err {
            self.violation(&args, e);
        }
        if self.samples.is_empty() && cur == end {
            self.samples.push(args.to_vec());
        }
        if self.stop() {
            return end;
        }
        cur
    }
    fn one(&mut self, args: &[u32]) {
        let slot = self.slot;
        for (i, &a) in args.iter().take(MAX_ARGS).enumerate() {
            slot.arg[i].store(a, Relaxed);
            self.obs.args[i] = a;
        }
        slot.nargs.store(args.len(), Relaxed);
        slot.progress.store(slot.progress.load(Relaxed) + 1, Relaxed);
        self.obs.nargs = args.len().min(MAX_ARGS);
        self.obs.trivial = false;
        self.obs.evals += 1;
        let f = self.f;
        let obs = &mut self.obs;
        match catch_unwind(AssertUnwindSafe(|| f(args, obs))) {
            Err(_) => {
                let m = PANIC_MSG.with(|m| m.borrow().clone());
                self.violation(args, format!("panicked: {m}"));
            }
            Ok(Err(e)) => self.violation(args, e),
            Ok(Ok(())) => {}
        }
        if !self.obs.trivial {
            self.obs.nontrivial += 1;
            if !self.exhaustive {
                if let Some(b) = self.bitmap {
                    // a lower bound: colliding hashes count once
                    let mut h = self.salt;
                    for &a in args {
                        h = gen::mix(h ^ a as u64);
                    }
                    let bit = h % BITMAP_BITS;
                    let w = &b[(bit / 64) as usize];
                    let mask = 1u64 << (bit % 64);
                    if w.load(Relaxed) & mask == 0 && w.fetch_or(mask, Relaxed) & mask == 0 {
                        self.obs.distinct += 1;
                    }
                }
            }
            if self.samples.is_empty() {
                self.samples.push(args.to_vec());
            }
        }
    }
}

fn num(x: f64) -> String {
    if x.is_finite() {
        format!("{x:e}")
    } else {
        js(&format!("{x}"))
    }
}

/// A JSON string literal.
pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 => write!(o, "\\u{:04x}", c as u32).unwrap(),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($t:tt)+) => {
        if !$c {
            return Err(format!($($t)+));
        }
    };
}

/// Every way of consuming an iterator has to tell of the same items. `part` chooses where it is stopped, skipped
/// and split (any number); `want` are the keys of the items that repeated calls of `next` are to give.
pub fn iterator_protocol<I: Iterator, K: PartialEq + Copy + std::fmt::Debug>(make: impl Fn() -> I, want: &[K], key: impl Fn(I::Item) -> K + Copy, part: usize) -> Verdict {
    let n = want.len();
    let (a, b) = (part % (n + 2), part / (n + 2) % (n + 2));
    let rest = |i: usize| if i < n { &want[i..] } else { &[] };
    let all = |mut i: I| {
        let mut v = vec![];
        while let Some(x) = i.next() {
            v.push(key(x));
            if v.len() > n {
                break;
            }
        }
        v
    };
    let by_next = all(make());
    ensure!(by_next == want, "next() gives {by_next:?}, expected {want:?}");
    // some taken, the rest consumed in another way
    let after = || {
        let mut i = make();
        (0..a).for_each(|_| drop(i.next()));
        i
    };
    let (lo, hi) = after().size_hint();
    ensure!(lo <= rest(a).len() && hi.is_none_or(|h| h >= rest(a).len()), "size_hint {:?} with {} items left", (lo, hi), rest(a).len());
    let mut i = after();
    let c = i.nth(b).map(key);
    ensure!(c == want.get(a + b).copied(), "nth({b}) after {a} items is {c:?} of {want:?}");
    let c = all(i);
    ensure!(c == rest(a + b + 1), "after {a} items and nth({b}) come {c:?} of {want:?}");
    let c = all2(after().skip(b), key, n);
    ensure!(c == rest(a + b), "skip({b}) after {a} items: {c:?} of {want:?}");
    let c = all2(after().step_by(b + 1), key, n);
    let d: Vec<K> = rest(a).iter().step_by(b + 1).copied().collect();
    ensure!(c == d, "step_by({}) after {a} items: {c:?} of {want:?}", b + 1);
    ensure!(after().count() == rest(a).len(), "count() after {a} items is {} of {want:?}", after().count());
    ensure!(after().last().map(key) == rest(a).last().copied(), "last() after {a} items of {want:?}");
    let c: Vec<K> = after().map(key).collect();
    ensure!(c == rest(a), "map, collect after {a} items: {c:?} of {want:?}");
    let c = after().fold(vec![], |mut v, x| {
        v.push(key(x));
        v
    });
    ensure!(c == rest(a), "fold after {a} items: {c:?} of {want:?}");
    let mut c = vec![];
    after().for_each(|x| c.push(key(x)));
    ensure!(c == rest(a), "for_each after {a} items: {c:?} of {want:?}");
    let mut c = vec![];
    for x in after() {
        c.push(key(x));
    }
    ensure!(c == rest(a), "for after {a} items: {c:?} of {want:?}");
    // short-circuiting methods leave the rest
    let mut i = after();
    let mut k = 0;
    let found = i.find(|_| {
        k += 1;
        k > b
    });
    ensure!(found.map(key) == want.get(a + b).copied(), "find after {a} items of {want:?}");
    let c = all(i);
    ensure!(c == rest(a + b + 1), "after {a} items and find of the {b}th come {c:?} of {want:?}");
    let mut i = after();
    k = 0;
    let found = i.any(|_| {
        k += 1;
        k > b
    });
    ensure!(found == (a + b < n), "any after {a} items of {want:?}");
    let c = all(i);
    ensure!(c == rest(a + b + 1), "after {a} items and any of {b} come {c:?} of {want:?}");
    let mut i = after();
    k = 0;
    let found = i.try_fold(0usize, |s, _| {
        k += 1;
        if k > b { None } else { Some(s + 1) }
    });
    ensure!(found == if a + b < n { None } else { Some(rest(a).len()) }, "try_fold after {a} items of {want:?}");
    let c = all(i);
    ensure!(c == rest(a + b + 1), "after {a} items and try_fold of {b} come {c:?} of {want:?}");
    let mut i = after();
    let c = all2(i.by_ref().take(b), key, n);
    ensure!(c == rest(a)[..b.min(rest(a).len())], "take({b}) after {a} items: {c:?} of {want:?}");
    let c = all(i);
    ensure!(c == rest(a + b), "after {a} items and take({b}) come {c:?} of {want:?}");
    let mut p = after().peekable();
    ensure!(p.peek().is_some() == (a < n), "peek after {a} items of {want:?}");
    let c: Vec<K> = p.map(key).collect();
    ensure!(c == rest(a), "peekable after {a} items: {c:?} of {want:?}");
    let c: Vec<K> = after().chain(make()).map(key).take(2 * n + 1).collect();
    ensure!(c == [rest(a), want].concat(), "chain of the rest after {a} and all: {c:?} of {want:?}");
    let z: Vec<(K, K)> = after().zip(make()).map(|(x, y)| (key(x), key(y))).collect();
    ensure!(z == rest(a).iter().copied().zip(want.iter().copied()).collect::<Vec<_>>(), "zip of the rest after {a} and all: {z:?} of {want:?}");
    let e: Vec<(usize, K)> = make().enumerate().map(|(i, x)| (i, key(x))).collect();
    ensure!(e == want.iter().copied().enumerate().collect::<Vec<_>>(), "enumerate: {e:?} of {want:?}");
    Ok(())
}

fn all2<J: Iterator, K>(i: J, key: impl Fn(J::Item) -> K, n: usize) -> Vec<K> {
    i.map(key).take(n + 1).collect()
}

/// Call a unary or binary operation through `F32` and through `F32Ext`; both have to agree.
#[macro_export]
macro_rules! both {
    ($op:ident, $x:expr $(, $y:expr)*) => {{
        let a = $crate::F32($x).$op($($crate::F32($y)),*).0;
        let b = $crate::F32Ext::$op($x $(, $y)*);
        if !$crate::spec::same_bits(a, b) {
            return Err(format!(concat!("F32::", stringify!($op), " returned {:?} but F32Ext::", stringify!($op), " returned {:?}"), a, b));
        }
        a
    }};
}

/// `num_traits::Inv` for `F32`.
pub fn num_traits_inv(x: f32) -> f32 {
    micromath::num_traits::Inv::inv(F32(x)).0
}
