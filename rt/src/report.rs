//! Event counters, violations and the verdict file.
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};

#[derive(Clone, Debug)]
pub struct Violation { pub what: String, pub subject: String, pub decl: String, pub input: String, pub expected: String, pub got: String }

/// The keys are hashes already.
#[derive(Default, Clone)]
pub struct Same(u64);
impl std::hash::Hasher for Same {
    fn write(&mut self, _: &[u8]) { panic!("harness: not a key") }
    fn write_u64(&mut self, v: u64) { self.0 = v.wrapping_mul(0x9E3779B97F4A7C15) }
    fn finish(&self) -> u64 { self.0 }
}

pub struct Ctx {
    pub prop: String,
    pub seed: u64,
    pub thorough: bool,
    /// a small workload, for interpreters
    pub light: bool,
    /// workload multiplier (cases per subject)
    pub n: usize,
    pub counters: BTreeMap<String, u64>,
    pub distinct: HashSet<u64, std::hash::BuildHasherDefault<Same>>,
    pub samples: Vec<String>,
    pub violations: Vec<Violation>,
    pub viol_total: u64,
    seen: HashSet<String>,
}

impl Ctx {
    pub fn new(prop: &str, seed: u64, thorough: bool, n: usize) -> Self {
        Ctx { prop: prop.into(), seed, thorough, light: false, n, counters: Default::default(), distinct: Default::default(), samples: vec![], violations: vec![], viol_total: 0, seen: Default::default() }
    }
    /// at most k random items when light
    pub fn thin<T>(&self, v: Vec<T>, k: usize, rng: &mut crate::rng::Rng) -> Vec<T> {
        if !self.light || v.len() <= k { return v }
        let mut v = v;
        let mut o = vec![];
        for _ in 0..k { let i = rng.below(v.len()); o.push(v.swap_remove(i)) }
        o
    }
    pub fn count(&mut self, what: &str) { self.add(what, 1) }
    pub fn add(&mut self, what: &str, n: u64) {
        if let Some(c) = self.counters.get_mut(what) { *c += n } else { self.counters.insert(what.into(), n); }
    }
    pub fn event(&mut self, what: &str, key: u64) {
        self.count(what);
        self.count("evaluations");
        self.distinct.insert(key ^ crate::rng::hash_bytes(what.as_bytes()));
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.samples.len() < 6 { let s = f(); self.samples.push(s) }
    }
    pub fn violate(&mut self, what: &str, subject: &str, decl: &str, input: String, expected: String, got: String) {
        self.viol_total += 1;
        let key = format!("{}/{}", what, subject);
        if self.violations.len() < 30 && self.seen.insert(key) {
            self.violations.push(Violation { what: what.into(), subject: subject.into(), decl: decl.into(), input, expected, got });
        }
    }
    pub fn json(&self) -> String {
        let mut s = String::from("{");
        write!(s, "\"violations_total\":{},\"counters\":{{", self.viol_total).unwrap();
        for (i, (k, v)) in self.counters.iter().enumerate() { write!(s, "{}{}:{}", if i > 0 { "," } else { "" }, js(k), v).unwrap() }
        write!(s, "}},\"distinct\":{},\"samples\":[", self.distinct.len()).unwrap();
        for (i, v) in self.samples.iter().enumerate() { write!(s, "{}{}", if i > 0 { "," } else { "" }, js(v)).unwrap() }
        s.push_str("],\"violations\":[");
        for (i, v) in self.violations.iter().enumerate() {
            write!(s, "{}{{\"what\":{},\"subject\":{},\"decl\":{},\"input\":{},\"expected\":{},\"got\":{}}}", if i > 0 { "," } else { "" },
                js(&v.what), js(&v.subject), js(&v.decl), js(&v.input), js(&v.expected), js(&v.got)).unwrap();
        }
        s.push_str("]}");
        s
    }
}

pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => { write!(o, "\\u{:04x}", c as u32).unwrap() }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// Operations under way and finished, for the watchdog: an operation that doesn't return is a
/// violation as well. Both counters are relaxed, so they order nothing between the threads.
static IN_FLIGHT: AtomicUsize = AtomicUsize::new(0);
static FINISHED: AtomicUsize = AtomicUsize::new(0);
#[cfg(not(any(target_arch = "wasm32", miri)))]
fn watch() {
    std::thread::spawn(|| {
        let (mut last, mut stuck) = (usize::MAX, 0);
        loop {
            std::thread::sleep(std::time::Duration::from_secs(1));
            let now = FINISHED.load(Relaxed);
            stuck = if IN_FLIGHT.load(Relaxed) > 0 && now == last { stuck + 1 } else { 0 };
            last = now;
            if stuck > 120 {
                eprintln!("HANG: an operation hasn't returned for two minutes");
                std::process::exit(124);
            }
        }
    });
}
#[cfg(any(target_arch = "wasm32", miri))]
fn watch() {}

/// Runs f; a panic in the code under test becomes Err(message).
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    IN_FLIGHT.fetch_add(1, Relaxed);
    let r = catch_unwind(AssertUnwindSafe(f));
    IN_FLIGHT.fetch_sub(1, Relaxed);
    FINISHED.fetch_add(1, Relaxed);
    r.map_err(|e| {
        if let Some(s) = e.downcast_ref::<&str>() { format!("PANIC: {}", s) }
        else if let Some(s) = e.downcast_ref::<String>() { format!("PANIC: {}", s) }
        else { "PANIC".to_string() }
    })
}

pub fn hex(b: &[u8]) -> String {
    let mut s = String::new();
    for (i, x) in b.iter().enumerate() { if i > 0 { s.push(' ') } write!(s, "{:02x}", x).unwrap() }
    format!("[{}]", s)
}

/// Common entry: `prog PROP SEED TIER N OUT.json`. Runs `f` with a context and writes the result file.
pub fn run_main(f: impl FnOnce(&mut Ctx)) {
    let a = args();
    let prop = &a[1];
    let seed: u64 = a[2].parse().unwrap();
    let thorough = a[3] == "thorough";
    let n: usize = a[4].parse().unwrap();
    std::panic::set_hook(Box::new(hook));
    watch();
    let mut ctx = Ctx::new(prop, seed, thorough, n);
    ctx.light = a[3] == "light";
    crate::rng::LIGHT.store(ctx.light, std::sync::atomic::Ordering::Relaxed);
    let r = catch_unwind(AssertUnwindSafe(|| f(&mut ctx)));
    if let Err(e) = r {
        let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
        eprintln!("HARNESS-PANIC {}", m);
        put(&format!("HARNESS-PANIC {}", m));
        std::process::exit(3);
    }
    let out = ctx.json();
    if a[5] == "-" { put(&format!("RESULT {}", out)) } else { std::fs::write(&a[5], out).unwrap() }
}

#[cfg(not(target_arch = "wasm32"))]
mod host {
    pub fn args() -> Vec<String> { std::env::args().collect() }
    pub fn put(s: &str) { println!("{}", s) }
    pub fn hook(_: &std::panic::PanicHookInfo<'_>) {}
}
/// The embedding (lib/wasm.js) supplies the arguments and takes the output.
#[cfg(target_arch = "wasm32")]
mod host {
    #[link(wasm_import_module = "env")]
    extern "C" {
        fn host_args(p: *mut u8, cap: usize) -> usize;
        fn host_put(p: *const u8, n: usize);
    }
    pub fn args() -> Vec<String> {
        let mut b = vec![0u8; 4096];
        let n = unsafe { host_args(b.as_mut_ptr(), b.len()) };
        String::from_utf8_lossy(&b[..n]).split('\n').map(|s| s.to_string()).collect()
    }
    pub fn put(s: &str) { unsafe { host_put(s.as_ptr(), s.len()) } }
    pub fn hook(_: &std::panic::PanicHookInfo<'_>) {}
}
use host::*;
