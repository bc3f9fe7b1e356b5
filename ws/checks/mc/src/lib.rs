//! Shared machinery of the checks: counters, evidence, violations, known findings, and explorers.
use serde_json::{json, Map, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::PathBuf;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub mod sched;

pub fn verif_dir() -> PathBuf { PathBuf::from(std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into())) }

struct Inner {
    samples: Vec<Value>,
    extra: Map<String, Value>,
    assumptions: Vec<String>,
    viol: Vec<(String, Value)>,
    viol_keys: BTreeSet<String>,
    known_hit: BTreeMap<String, String>,
    phase: String,
}

/// One run of one check.
pub struct Run {
    pub id: String,
    pub tier: String,
    pub seed: u64,
    start: Instant,
    states: AtomicU64,
    transitions: AtomicU64,
    validated: AtomicU64,
    progress: AtomicU64,
    exhaustive: AtomicBool,
    known: BTreeMap<String, String>,
    inner: Mutex<Inner>,
    max_samples: usize,
}

thread_local! { static PANIC_MSG: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) }; }

impl Run {
    pub fn new(id: &str) -> Arc<Run> {
        let tier = match std::env::var("VERIF_TIER").as_deref() { Ok("thorough") => "thorough", _ => "quick" }.to_string();
        let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
        let mut known = BTreeMap::new();
        if let Ok(s) = std::fs::read_to_string(verif_dir().join("known-findings.jsonl")) {
            for l in s.lines().filter(|l| !l.trim().is_empty()) {
                let v: Value = serde_json::from_str(l).expect("known-findings.jsonl");
                if v["property"] == id && v["status"] == "open" {
                    for k in v["keys"].as_array().expect("keys") {
                        known.insert(k.as_str().unwrap().to_string(), v["what"].as_str().unwrap().to_string());
                    }
                }
            }
        }
        std::panic::set_hook(Box::new(|i| {
            let m = i.payload().downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| i.payload().downcast_ref::<String>().cloned()).unwrap_or_default();
            let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
            PANIC_MSG.with(|p| *p.borrow_mut() = format!("{m} @ {loc}"));
            if std::env::var("MC_PANICS").is_ok() { eprintln!("panic: {m} @ {loc}\n{}", std::backtrace::Backtrace::force_capture()); }
        }));
        let r = Arc::new(Run {
            id: id.into(), tier, seed, start: Instant::now(), states: 0.into(), transitions: 0.into(), validated: 0.into(), progress: 0.into(),
            exhaustive: AtomicBool::new(true), known,
            inner: Mutex::new(Inner { samples: vec![], extra: Map::new(), assumptions: vec![], viol: vec![], viol_keys: BTreeSet::new(), known_hit: BTreeMap::new(), phase: String::new() }),
            max_samples: 6,
        });
        let w = r.clone();
        std::thread::spawn(move || {
            let (mut last, mut since) = (0, Instant::now());
            loop {
                std::thread::sleep(Duration::from_secs(1));
                let p = w.progress.load(SeqCst);
                if p != last { last = p; since = Instant::now(); }
                if since.elapsed() > Duration::from_secs(240) {
                    let ph = w.inner.lock().unwrap().phase.clone();
                    w.violation(&format!("no-progress:{ph}"), json!({"what": "the code under test did not finish one case within 240 s", "phase": ph}));
                    w.finish();
                }
            }
        });
        r
    }
    pub fn thorough(&self) -> bool { self.tier == "thorough" }
    pub fn pick<T>(&self, quick: T, thorough: T) -> T { if self.thorough() { thorough } else { quick } }
    pub fn states(&self, n: u64) { self.states.fetch_add(n, SeqCst); self.progress.fetch_add(1, SeqCst); }
    pub fn transitions(&self, n: u64) { self.transitions.fetch_add(n, SeqCst); self.progress.fetch_add(1, SeqCst); }
    pub fn validated(&self, n: u64) { self.validated.fetch_add(n, SeqCst); self.progress.fetch_add(1, SeqCst); }
    pub fn not_exhaustive(&self) { self.exhaustive.store(false, SeqCst) }
    pub fn phase(&self, p: &str) { self.inner.lock().unwrap().phase = p.into(); self.progress.fetch_add(1, SeqCst); if std::env::var("MC_TRACE").is_ok() { eprintln!("[{:.1}s] {p}", self.start.elapsed().as_secs_f64()); } }
    pub fn elapsed(&self) -> f64 { self.start.elapsed().as_secs_f64() }
    pub fn sample(&self, v: Value) { let mut i = self.inner.lock().unwrap(); if i.samples.len() < self.max_samples { i.samples.push(v) } }
    pub fn wants_sample(&self) -> bool { self.inner.lock().unwrap().samples.len() < self.max_samples }
    pub fn extra(&self, k: &str, v: Value) { self.inner.lock().unwrap().extra.insert(k.into(), v); }
    pub fn assume(&self, s: &str) { self.inner.lock().unwrap().assumptions.push(s.into()) }
    pub fn n_violations(&self) -> usize { self.inner.lock().unwrap().viol.len() }

    /// Reports a violation identified by `key`: a listed known finding, or a new one.
    pub fn violation(&self, key: &str, detail: Value) {
        let mut i = self.inner.lock().unwrap();
        if let Some(what) = self.known.get(key) { i.known_hit.insert(key.into(), what.clone()); return; }
        if i.viol_keys.insert(key.into()) && i.viol.len() < 20 {
            if std::env::var("MC_TRACE").is_ok() { eprintln!("violation {key}: {detail}"); }
            i.viol.push((key.into(), detail));
        }
    }
    /// Runs one case; an Err or a panic is a violation.
    pub fn case(&self, key: impl Fn() -> String, f: impl FnOnce() -> Result<(), Value>) -> bool {
        match guard(f) {
            Ok(Ok(())) => true,
            Ok(Err(d)) => { let k = key(); self.violation(&k, json!({"case": k, "detail": d})); false }
            Err(p) => { let k = key(); self.violation(&k, json!({"case": k, "panic": p})); false }
        }
    }
    pub fn finish(&self) -> ! {
        loud();
        let i = self.inner.lock().unwrap();
        let dir = verif_dir().join("evidence");
        let _ = std::fs::create_dir_all(dir.join("replay"));
        for (k, what) in &i.known_hit { println!("KNOWN-FINDING: property={} {} [{}]", self.id, what, k); }
        let mut cov = i.extra.clone();
        cov.insert("states".into(), json!(self.states.load(SeqCst)));
        cov.insert("transitions".into(), json!(self.transitions.load(SeqCst)));
        cov.insert("traces_validated_against_impl".into(), json!(self.validated.load(SeqCst)));
        cov.insert("exhaustive".into(), json!(self.exhaustive.load(SeqCst)));
        cov.insert("samples".into(), json!(i.samples));
        cov.insert("known_findings_seen".into(), json!(i.known_hit.keys().collect::<Vec<_>>()));
        let ev = json!({"property": self.id, "tier": self.tier, "seed": self.seed, "level": "model_checking", "coverage": cov,
            "assumptions": i.assumptions, "wall_s": self.start.elapsed().as_secs_f64(), "violations": i.viol.len()});
        std::fs::write(dir.join(format!("{}.json", self.id)), serde_json::to_string_pretty(&ev).unwrap()).expect("evidence");
        for (n, (k, d)) in i.viol.iter().enumerate() {
            let p = dir.join("replay").join(format!("{}-{}.json", self.id, n));
            let _ = std::fs::write(&p, serde_json::to_string_pretty(&json!({"property": self.id, "key": k, "detail": d})).unwrap());
            println!("VIOLATION property={} replay={}", self.id, p.display());
        }
        println!("{} {}: states={} transitions={} validated={} violations={} known={} wall={:.1}s", self.id, self.tier, self.states.load(SeqCst), self.transitions.load(SeqCst),
            self.validated.load(SeqCst), i.viol.len(), i.known_hit.len(), self.start.elapsed().as_secs_f64());
        use std::io::Write;
        let _ = std::io::stdout().flush();
        let _ = std::fs::remove_dir_all(scratch_base().join(std::process::id().to_string()));
        std::process::exit(if i.viol.is_empty() { 0 } else { 1 });
    }
}

static OUT: std::sync::atomic::AtomicI32 = std::sync::atomic::AtomicI32::new(-1);
/// Discards what the code under test prints, until `finish`.
pub fn silence() {
    unsafe {
        let n = libc::open(c"/dev/null".as_ptr(), libc::O_WRONLY);
        OUT.store(libc::dup(1), SeqCst);
        libc::dup2(n, 1);
        if std::env::var("MC_TRACE").is_err() { libc::dup2(n, 2); }
    }
}
fn loud() { let o = OUT.swap(-1, SeqCst); if o >= 0 { use std::io::Write; let _ = std::io::stdout().flush(); unsafe { libc::dup2(o, 1); } } }

/// where scratch directories are: in memory where there is some, next to the build products otherwise
fn scratch_base() -> PathBuf {
    static BASE: std::sync::OnceLock<PathBuf> = std::sync::OnceLock::new();
    BASE.get_or_init(|| {
        let shm = PathBuf::from("/dev/shm/opti-verif");
        let probe = shm.join(format!("probe-{}", std::process::id()));
        let ok = std::fs::create_dir_all(&shm).is_ok() && std::fs::write(&probe, vec![0u8; 64 << 20]).is_ok();
        let _ = std::fs::remove_file(&probe);
        if ok { shm } else { verif_dir().join("target").join("scratch") }
    }).clone()
}
/// A directory of this process for scratch files, removed by `finish`.
pub fn scratch() -> PathBuf {
    let base = scratch_base();
    let d = base.join(std::process::id().to_string());
    static ONCE: std::sync::Once = std::sync::Once::new();
    ONCE.call_once(|| {
        if let Ok(l) = std::fs::read_dir(&base) {
            for e in l.flatten() {
                // what runs that were killed left behind
                let alive = PathBuf::from("/proc").join(e.file_name()).exists();
                if !alive { let _ = std::fs::remove_dir_all(e.path()); }
            }
        }
        std::fs::create_dir_all(&d).expect("scratch directory");
    });
    d
}

/// catch_unwind with the panic's message.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| PANIC_MSG.with(|p| p.borrow().clone()))
}

/// Splits `0..n` over the cores and runs `f` on each index.
pub fn par(n: usize, f: impl Fn(usize) + Sync) {
    let next = AtomicU64::new(0);
    let k = std::thread::available_parallelism().map(|v| v.get()).unwrap_or(4).min(8);
    std::thread::scope(|s| {
        for _ in 0..k {
            std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(s, || loop {
                let i = next.fetch_add(1, SeqCst) as usize;
                if i >= n { break; }
                f(i);
            }).unwrap();
        }
    });
}

/// All sequences over `alphabet` of length exactly `len`, by index (mixed radix).
pub fn seq_of(mut i: usize, radix: usize, len: usize) -> Vec<usize> {
    let mut v = vec![0; len];
    for k in (0..len).rev() { v[k] = i % radix; i /= radix; }
    v
}
pub fn pow(b: usize, e: usize) -> usize { b.pow(e as u32) }
