//! Run context: counters, violations, known findings, evidence.
use serde_json::{Value, json};
use std::collections::{BTreeMap, HashSet};
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::path::PathBuf;
use std::sync::Mutex;
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering};
use std::time::Instant;

pub fn root() -> PathBuf {
    PathBuf::from(std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into()))
}

pub struct Ctx {
    pub prop: String,
    pub thorough: bool,
    pub start: Instant,
    states: Mutex<Vec<HashSet<u64>>>,
    extra_states: AtomicU64,
    transitions: AtomicU64,
    traces: AtomicU64,
    samples: Mutex<Vec<Value>>,
    phases: Mutex<BTreeMap<String, Value>>,
    assumptions: Mutex<Vec<String>>,
    violations: Mutex<BTreeMap<String, (String, Value)>>,
    known_hit: Mutex<BTreeMap<String, String>>,
    known: BTreeMap<String, String>,
    n_viol: AtomicUsize,
    capped: Mutex<Vec<String>>,
}

const SHARDS: usize = 64;

impl Ctx {
    pub fn new(prop: &str, thorough: bool) -> Self {
        let mut known = BTreeMap::new();
        let text = std::fs::read_to_string(root().join("known_findings.txt")).unwrap_or_default();
        for line in text.lines() {
            // KNOWN-FINDING: property=<id> key=<exact key> :: <what fails>
            if let Some(rest) = line.strip_prefix("KNOWN-FINDING: property=") {
                let Some((p, rest)) = rest.split_once(" key=") else { continue };
                let Some((key, what)) = rest.split_once(" :: ") else { continue };
                if p == prop {
                    known.insert(key.to_string(), what.to_string());
                }
            }
        }
        Ctx {
            prop: prop.into(),
            thorough,
            start: Instant::now(),
            states: Mutex::new(vec![HashSet::new(); SHARDS]),
            extra_states: AtomicU64::new(0),
            transitions: AtomicU64::new(0),
            traces: AtomicU64::new(0),
            samples: Mutex::new(vec![]),
            phases: Mutex::new(BTreeMap::new()),
            assumptions: Mutex::new(vec![]),
            violations: Mutex::new(BTreeMap::new()),
            known_hit: Mutex::new(BTreeMap::new()),
            known,
            n_viol: AtomicUsize::new(0),
            capped: Mutex::new(vec![]),
        }
    }
    /// k in thorough mode, q in quick mode.
    pub fn pick<T>(&self, q: T, t: T) -> T {
        if self.thorough { t } else { q }
    }
    pub fn steps(&self, n: u64) {
        self.transitions.fetch_add(n, Ordering::Relaxed);
    }
    pub fn trace(&self) {
        self.traces.fetch_add(1, Ordering::Relaxed);
    }
    pub fn traces_add(&self, n: u64) {
        self.traces.fetch_add(n, Ordering::Relaxed);
    }
    pub fn n_traces(&self) -> u64 {
        self.traces.load(Ordering::Relaxed)
    }
    /// Registers a distinct state by its hash; true if it was new.
    pub fn state(&self, h: u64) -> bool {
        self.states.lock().unwrap()[(h as usize) % SHARDS].insert(h)
    }
    pub fn state_bytes(&self, b: &[u8]) -> bool {
        self.state(hash_bytes(b))
    }
    pub fn states_add(&self, n: u64) {
        self.extra_states.fetch_add(n, Ordering::Relaxed);
    }
    pub fn sample(&self, v: Value) {
        let mut s = self.samples.lock().unwrap();
        if s.len() < 12 {
            s.push(v);
        }
    }
    pub fn phase(&self, name: &str, v: Value) {
        self.phases.lock().unwrap().insert(name.into(), v);
    }
    pub fn assume(&self, s: &str) {
        self.assumptions.lock().unwrap().push(s.into());
    }
    /// Says that an enumeration was cut short (never happens on the bounds we ship).
    pub fn cap(&self, s: &str) {
        self.capped.lock().unwrap().push(s.into());
    }
    pub fn violation(&self, key: &str, what: &str, replay: Value) {
        if let Some(k) = self.known.get(key) {
            self.known_hit.lock().unwrap().insert(key.into(), k.clone());
            return;
        }
        self.n_viol.fetch_add(1, Ordering::Relaxed);
        let mut v = self.violations.lock().unwrap();
        if v.len() < 200 {
            v.entry(key.into()).or_insert((what.into(), replay));
        }
    }
    pub fn n_violations(&self) -> usize {
        self.n_viol.load(Ordering::Relaxed)
    }
    /// assert_eq-like with lazily rendered context.
    pub fn expect_eq<T: PartialEq + std::fmt::Debug>(
        &self,
        key: &str,
        got: &T,
        want: &T,
        replay: impl FnOnce() -> Value,
    ) -> bool {
        if got == want {
            return true;
        }
        self.violation(key, &format!("got {} want {}", trunc(&format!("{got:?}")), trunc(&format!("{want:?}"))), replay());
        false
    }

    pub fn finish(self) -> i32 {
        let dir = root().join("evidence");
        let _ = std::fs::create_dir_all(&dir);
        let viol = self.violations.into_inner().unwrap();
        let known = self.known_hit.into_inner().unwrap();
        let states = self.states.into_inner().unwrap().iter().map(|s| s.len() as u64).sum::<u64>()
            + self.extra_states.load(Ordering::Relaxed);
        let capped = self.capped.into_inner().unwrap();
        let cov = json!({
            "states": states,
            "transitions": self.transitions.load(Ordering::Relaxed),
            "traces_validated_against_impl": self.traces.load(Ordering::Relaxed),
            "samples": self.samples.into_inner().unwrap(),
            "exhaustive": capped.is_empty(),
            "capped": capped,
            "phases": self.phases.into_inner().unwrap(),
            "known_findings_seen": known.keys().collect::<Vec<_>>(),
        });
        let seed: i64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
        let n_viol = self.n_viol.load(Ordering::Relaxed);
        let ev = json!({
            "property": self.prop,
            "tier": if self.thorough { "thorough" } else { "quick" },
            "seed": seed,
            "level": "model_checking",
            "coverage": cov,
            "assumptions": self.assumptions.into_inner().unwrap(),
            "wall_s": self.start.elapsed().as_secs_f64(),
            "violations": n_viol,
        });
        let evp = dir.join(format!("{}.json", self.prop));
        if let Err(e) = std::fs::write(&evp, serde_json::to_string_pretty(&ev).unwrap() + "\n") {
            eprintln!("cannot write {evp:?}: {e}");
        }
        for (k, what) in &known {
            println!("KNOWN-FINDING: property={} {} [{}]", self.prop, what, k);
        }
        println!(
            "{}: states={} transitions={} traces={} violations={} wall={:.1}s",
            self.prop,
            states,
            ev["coverage"]["transitions"],
            ev["coverage"]["traces_validated_against_impl"],
            n_viol,
            self.start.elapsed().as_secs_f64()
        );
        if n_viol == 0 {
            return 0;
        }
        let rp = dir.join(format!("{}.replay.json", self.prop));
        let list: Vec<Value> = viol
            .iter()
            .map(|(k, (w, r))| json!({"key": k, "what": w, "input": r}))
            .collect();
        let _ = std::fs::write(
            &rp,
            serde_json::to_string_pretty(&json!({"property": self.prop, "tier": if self.thorough {"thorough"} else {"quick"}, "violations": list})).unwrap(),
        );
        for (k, (w, _)) in viol.iter().take(15) {
            println!("  violated [{}]: {}", trunc(k), w);
        }
        println!("VIOLATION property={} replay={}", self.prop, rp.display());
        1
    }
}

pub fn trunc(s: &str) -> String {
    if s.len() <= 600 {
        return s.into();
    }
    let mut e = 600;
    while !s.is_char_boundary(e) {
        e -= 1;
    }
    format!("{}…({} chars)", &s[..e], s.len())
}

pub fn hash_bytes(b: &[u8]) -> u64 {
    // FNV-1a with a final mix
    let mut h: u64 = 0xcbf29ce484222325;
    for &x in b {
        h ^= x as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h ^= h >> 29;
    h = h.wrapping_mul(0xbf58476d1ce4e5b9);
    h ^ (h >> 32)
}

pub fn hex(b: &[u8]) -> String {
    let mut s = String::with_capacity(b.len() * 2);
    for x in b {
        s.push_str(&format!("{x:02x}"));
    }
    s
}

thread_local! {
    static QUIET: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
    static LAST: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}

pub fn install_hook() {
    let prev = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        LAST.with(|l| {
            let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
            *l.borrow_mut() = format!("panic at {loc}: {}", info.payload_as_str().unwrap_or("?"));
        });
        if !QUIET.with(|q| q.get()) {
            let text = LAST.with(|l| l.borrow().clone());
            if let Ok(mut l) = LOOSE.lock()
                && !text.contains("scoped thread panicked")
            {
                *l = text;
            }
        }
        // Panics of worker threads the code under test starts are reported by it.
        if !QUIET.with(|q| q.get()) && std::env::var("MC_VERBOSE").is_ok() {
            prev(info);
        }
    }));
}

/// The latest panic outside of a guarded call.
pub static LOOSE: Mutex<String> = Mutex::new(String::new());

/// Since when each thread is inside of the code under test; a call that does not come back is reported.
static SLOTS: Mutex<Vec<std::sync::Weak<AtomicU64>>> = Mutex::new(vec![]);
thread_local! {
    static SLOT: std::sync::Arc<AtomicU64> = {
        let a = std::sync::Arc::new(AtomicU64::new(0));
        let mut l = SLOTS.lock().unwrap();
        l.retain(|w| w.strong_count() > 0);
        l.push(std::sync::Arc::downgrade(&a));
        a
    };
}
fn since_start() -> u64 {
    static T0: std::sync::LazyLock<Instant> = std::sync::LazyLock::new(Instant::now);
    T0.elapsed().as_millis() as u64 + 1
}
/// Starts the watch over the calls.
pub fn watch(limit_secs: u64) {
    since_start();
    std::thread::spawn(move || {
        loop {
            std::thread::sleep(std::time::Duration::from_secs(1));
            let now = since_start();
            let late = SLOTS.lock().unwrap().iter().filter_map(|w| w.upgrade()).any(|a| {
                let t = a.load(Ordering::Relaxed);
                t != 0 && now.saturating_sub(t) > limit_secs * 1000
            });
            if late {
                emergency(&format!("a call has not come back after {limit_secs} seconds"), "see the phases of the evidence for what was done before");
            }
        }
    });
}
/// The standard output, also while the code under test has it redirected.
pub static OUT: std::sync::atomic::AtomicI32 = std::sync::atomic::AtomicI32::new(1);

/// Runs the code under test, turning a panic into Err(description).
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    let old = QUIET.with(|q| q.replace(true));
    SLOT.with(|s| s.store(since_start(), Ordering::Relaxed));
    let r = catch_unwind(AssertUnwindSafe(f));
    SLOT.with(|s| s.store(0, Ordering::Relaxed));
    QUIET.with(|q| q.set(old));
    r.map_err(|_| LAST.with(|l| l.borrow().clone()))
}

/// Runs the jobs over all cores.
pub fn par_for<T: Sync>(jobs: &[T], f: impl Fn(&T) + Sync) {
    let next = AtomicUsize::new(0);
    let n = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(jobs.len().max(1));
    std::thread::scope(|s| {
        for _ in 0..n {
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(s, || {
                    loop {
                        let i = next.fetch_add(1, Ordering::Relaxed);
                        if i >= jobs.len() {
                            break;
                        }
                        f(&jobs[i]);
                    }
                })
                .unwrap();
        }
    });
}

// ---------------------------------------------------------------------------------------------
// Requests for absurd amounts of memory, and verdicts from places that cannot return.

thread_local! {
    /// The text of the input being tried.
    pub static CURRENT: std::cell::Cell<(*const u8, usize)> = const { std::cell::Cell::new((std::ptr::null(), 0)) };
}
/// The largest single allocation that inputs of a few kilobytes may cause; 0 is no limit.
pub static ALLOC_LIMIT: AtomicUsize = AtomicUsize::new(0);
static PROPERTY: Mutex<String> = Mutex::new(String::new());
pub fn set_property(p: &str) {
    *PROPERTY.lock().unwrap() = p.into();
}

/// Reports a violation and ends the process.
pub fn emergency(what: &str, input: &str) -> ! {
    ALLOC_LIMIT.store(0, Ordering::Relaxed);
    let prop = PROPERTY.lock().map(|p| p.clone()).unwrap_or_default();
    let dir = root().join("evidence");
    let rp = dir.join(format!("{prop}.replay.json"));
    let _ = std::fs::create_dir_all(&dir);
    let _ = std::fs::write(&rp, json!({"property": prop, "violations": [{"what": what, "input": input}]}).to_string());
    let _ = std::fs::write(
        dir.join(format!("{prop}.json")),
        json!({"property": prop, "tier": "quick", "seed": 1, "level": "model_checking", "coverage": {"states": 1, "transitions": 1, "traces_validated_against_impl": 1, "samples": [input], "exhaustive": false}, "wall_s": 0.0, "violations": 1}).to_string(),
    );
    let text = format!("  violated: {what}: {}\nVIOLATION property={prop} replay={}\n", trunc(input), rp.display());
    unsafe { libc::write(OUT.load(Ordering::Relaxed), text.as_ptr().cast(), text.len()) };
    std::process::exit(1);
}

pub struct Guarded;
unsafe impl std::alloc::GlobalAlloc for Guarded {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
        check_size(l.size());
        unsafe { std::alloc::System.alloc(l) }
    }
    unsafe fn alloc_zeroed(&self, l: std::alloc::Layout) -> *mut u8 {
        check_size(l.size());
        unsafe { std::alloc::System.alloc_zeroed(l) }
    }
    unsafe fn realloc(&self, p: *mut u8, l: std::alloc::Layout, n: usize) -> *mut u8 {
        check_size(n);
        unsafe { std::alloc::System.realloc(p, l, n) }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) {
        unsafe { std::alloc::System.dealloc(p, l) }
    }
}
fn check_size(n: usize) {
    if n > 1 << 20 {
        let limit = ALLOC_LIMIT.load(Ordering::Relaxed);
        let (p, len) = CURRENT.with(|c| c.get());
        if limit != 0 && n > limit && !p.is_null() {
            CURRENT.with(|c| c.set((std::ptr::null(), 0)));
            let input = unsafe { std::str::from_utf8_unchecked(std::slice::from_raw_parts(p, len)) };
            emergency(&format!("{n} bytes of memory are requested at once"), input);
        }
    }
}
