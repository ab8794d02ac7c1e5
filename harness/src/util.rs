//! Case generation (seeded), result recording, guards against hangs, evidence.
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashMap, HashSet};
use std::hash::{Hash, Hasher};
use std::io::Write;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::sync::{Mutex, MutexGuard, OnceLock};
use std::time::{Duration, Instant};

pub fn lock<T>(m: &Mutex<T>) -> MutexGuard<'_, T> {
    m.lock().unwrap_or_else(|e| e.into_inner())
}

#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64, salt: &str, case: u64) -> Rng {
        let mut h = 0xcbf29ce484222325u64 ^ seed.wrapping_mul(0x9E3779B97F4A7C15);
        for b in salt.bytes() {
            h = (h ^ b as u64).wrapping_mul(0x100000001b3);
        }
        let mut r = Rng(h ^ case.wrapping_mul(0xD1B54A32D192ED03));
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    /// 0..n
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % (n.max(1) as u64)) as usize
    }
    /// a..=b
    pub fn range(&mut self, a: usize, b: usize) -> usize {
        a + self.below(b - a + 1)
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        let mut v = Vec::with_capacity(n + 8);
        while v.len() < n {
            v.extend_from_slice(&self.next().to_le_bytes());
        }
        v.truncate(n);
        v
    }
    pub fn token(&mut self, n: usize) -> String {
        (0..n).map(|_| *self.pick(b"abcdefghijklmnopqrstuvwxyz0123456789") as char).collect()
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = self.below(i + 1);
            v.swap(i, j);
        }
    }
}

#[derive(Clone, Copy, PartialEq)]
pub enum Tier {
    Quick,
    Thorough,
}

pub struct Ctx {
    pub id: String,
    pub tier: Tier,
    pub seed: u64,
    pub case: Option<u64>,
    dir: String,
    started: Instant,
    evals: AtomicU64,
    distinct: Mutex<HashSet<u64>>,
    counters: Mutex<BTreeMap<String, u64>>,
    samples: Mutex<Vec<Value>>,
    known: Vec<(String, String)>,
    violations: Mutex<Vec<(String, Value)>>,
    known_hit: Mutex<BTreeMap<String, String>>,
    rule: Mutex<String>,
    assumptions: Mutex<Vec<String>>,
    guards: Mutex<HashMap<u64, (String, Instant, Duration)>>,
    next_guard: AtomicU64,
    stalls: Mutex<Vec<(Instant, Duration)>>,
    /// the same, for chains of threads that wake each other
    chain_stalls: Mutex<Vec<(Instant, Duration)>>,
    finished: AtomicBool,
    pub unplanned_panics: Mutex<Vec<String>>,
    pub planned_panics: AtomicUsize,
}

static CTX: OnceLock<Ctx> = OnceLock::new();
pub fn c() -> &'static Ctx {
    CTX.get().expect("context")
}

pub const PLANNED: &str = "planned panic";

/// Set when this process is only the workload of a sanitizer (C27): part of the work is done, and what the check
/// itself finds is not the verdict.
pub fn scale() -> Option<usize> {
    static S: OnceLock<Option<usize>> = OnceLock::new();
    *S.get_or_init(|| std::env::var("VH_SCALE").ok().and_then(|s| s.parse().ok()))
}

pub fn init(id: &str, tier: Tier, seed: u64, case: Option<u64>, dir: &str) {
    let mut known = Vec::new();
    if let Ok(text) = std::fs::read_to_string(format!("{dir}/known_findings.txt")) {
        for l in text.lines() {
            // known: property=<id> sig=<signature> <what fails>
            if let Some(rest) = l.strip_prefix("known: property=") {
                let mut it = rest.splitn(3, ' ');
                let (p, s, w) = (it.next(), it.next(), it.next());
                if let (Some(p), Some(s), Some(w)) = (p, s.and_then(|s| s.strip_prefix("sig=")), w) {
                    if p == id {
                        known.push((s.to_string(), w.to_string()));
                    }
                }
            }
        }
    }
    let ctx = Ctx {
        id: id.into(), tier, seed, case, dir: dir.into(), started: Instant::now(),
        evals: AtomicU64::new(0), distinct: Default::default(), counters: Default::default(),
        samples: Default::default(), known, violations: Default::default(), known_hit: Default::default(),
        rule: Default::default(), assumptions: Default::default(), guards: Default::default(),
        next_guard: AtomicU64::new(0), stalls: Default::default(), chain_stalls: Default::default(), finished: AtomicBool::new(false),
        unplanned_panics: Default::default(), planned_panics: AtomicUsize::new(0),
    };
    let _ = CTX.set(ctx);
    std::thread::Builder::new().name("heartbeat".into()).spawn(heartbeat).unwrap();
    pulse();
    let verbose = std::env::var("VH_VERBOSE").is_ok();
    std::panic::set_hook(Box::new(move |info| {
        let s = format!("{info}");
        LAST_PANIC.with(|l| l.set(info.location().filter(|l| l.file().starts_with("/repo/")).map(|_| clip(&s, 500))));
        if s.contains(PLANNED) {
            c().planned_panics.fetch_add(1, SeqCst);
        } else {
            if verbose {
                eprintln!("PANIC {s}");
            }
            lock(&c().unplanned_panics).push(s);
        }
    }));
}

thread_local! { static LAST_PANIC: std::cell::Cell<Option<String>> = const { std::cell::Cell::new(None) }; }

/// What to make of a panic that reached the harness: one raised by a line of the repository, in a call the harness made with
/// valid input, is a violation; anything else is a failure of the harness.
pub fn on_panic(e: Box<dyn std::any::Any + Send>, what: &str) {
    if let Some(s) = LAST_PANIC.with(|l| l.take()) {
        return c().violation("a-call-of-the-repository-panicked", json!({"during": what, "panic": s}));
    }
    let m = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
    println!("ERROR: the harness panicked in {what}: {m}; {:?}", lock(&c().unplanned_panics).last());
    if !c().violated() {
        std::process::exit(4);
    }
}

/// An exchange takes several threads that wake each other: on a busy machine each of them waits for its turn.
fn pulse() {
    let (to, from) = std::sync::mpsc::sync_channel::<()>(0);
    let (back, answers) = std::sync::mpsc::sync_channel::<()>(0);
    std::thread::Builder::new().name("pulse2".into()).spawn(move || while from.recv().is_ok() && back.send(()).is_ok() {}).unwrap();
    let first = move || loop {
        let (t, step) = (Instant::now(), Duration::from_millis(20));
        std::thread::sleep(step);
        for _ in 0..4 {
            if to.send(()).is_err() || answers.recv().is_err() {
                return;
            }
        }
        let lag = t.elapsed().saturating_sub(step);
        if lag > Duration::from_millis(80) {
            lock(&c().chain_stalls).push((Instant::now(), lag));
        }
    };
    std::thread::Builder::new().name("pulse".into()).spawn(first).unwrap();
}

/// Detects that the sandbox itself was stalled (so timing verdicts are not to be trusted) and operations that hang.
fn heartbeat() {
    let step = Duration::from_millis(20);
    loop {
        let t = Instant::now();
        std::thread::sleep(step);
        let lag = t.elapsed().saturating_sub(step);
        let c = c();
        if lag > Duration::from_millis(80) {
            lock(&c.stalls).push((Instant::now(), lag));
        }
        let mut hung = None;
        for (k, (d, since, limit)) in lock(&c.guards).iter() {
            let stalled = c.stalled_since(*since);
            if since.elapsed() > *limit + stalled * 2 {
                hung = Some((*k, d.clone(), *limit));
            }
        }
        if let Some((_, d, limit)) = hung {
            c.violation(&format!("hang:{d}"), json!({"operation": d, "did_not_finish_within_s": limit.as_secs_f64()}));
            finish();
        }
        let max = if c.tier == Tier::Quick { 420 } else { 850 };
        if c.started.elapsed() > Duration::from_secs(max) {
            if lock(&c.violations).is_empty() {
                println!("ERROR: the check did not finish in {max} s");
                std::process::exit(3);
            }
            finish();
        }
    }
}

impl Ctx {
    pub fn quick(&self) -> bool {
        self.tier == Tier::Quick
    }
    /// Scales an amount of work with the tier.
    pub fn n(&self, quick: usize, thorough: usize) -> usize {
        let n = if self.quick() { quick } else { thorough };
        match scale() {
            Some(pct) => (n * pct).div_ceil(100).max(1),
            None => n,
        }
    }
    pub fn rng(&self, salt: &str, case: u64) -> Rng {
        Rng::new(self.seed, salt, case)
    }
    pub fn rule(&self, s: &str) {
        *lock(&self.rule) = s.into();
    }
    pub fn assume(&self, s: &str) {
        lock(&self.assumptions).push(s.into());
    }
    /// One evaluated case; `key` says what distinguishes it, None when it is trivial.
    pub fn eval<K: Hash>(&self, key: Option<K>) {
        self.evals.fetch_add(1, SeqCst);
        if let Some(k) = key {
            let mut h = std::collections::hash_map::DefaultHasher::new();
            k.hash(&mut h);
            lock(&self.distinct).insert(h.finish());
        }
    }
    pub fn count(&self, name: &str, n: u64) {
        *lock(&self.counters).entry(name.to_string()).or_default() += n;
    }
    pub fn max(&self, name: &str, n: u64) {
        let mut cs = lock(&self.counters);
        let e = cs.entry(name.to_string()).or_default();
        *e = (*e).max(n);
    }
    pub fn get(&self, name: &str) -> u64 {
        lock(&self.counters).get(name).copied().unwrap_or(0)
    }
    pub fn sample(&self, v: Value) {
        let mut s = lock(&self.samples);
        if s.len() < 8 {
            s.push(v);
        }
    }
    pub fn violation(&self, sig: &str, detail: Value) {
        if scale().is_some() {
            self.count("functional_alarms", 1);
            return;
        }
        if let Some((s, w)) = self.known.iter().find(|(s, _)| s == sig) {
            lock(&self.known_hit).insert(s.clone(), w.clone());
            return;
        }
        let mut v = lock(&self.violations);
        if std::env::var("VH_VERBOSE").is_ok() {
            eprintln!("violation {sig}: {}", clip(&detail.to_string(), 1500));
        }
        if v.len() < 40 {
            v.push((sig.to_string(), detail));
        }
    }
    /// Enough violations have been seen, there is no point in going on.
    pub fn stopped(&self) -> bool {
        lock(&self.violations).len() >= 3
    }
    pub fn violated(&self) -> bool {
        !lock(&self.violations).is_empty()
    }
    /// Total time the process was not scheduled, as seen by the heartbeat, since `t`.
    pub fn stalled_since(&self, t: Instant) -> Duration {
        let sum = |v: &Mutex<Vec<(Instant, Duration)>>| lock(v).iter().filter(|(at, _)| *at >= t).map(|(_, d)| *d).sum::<Duration>();
        sum(&self.stalls).max(sum(&self.chain_stalls))
    }
    /// Runs `f`; if it takes longer than `secs` the run ends with a violation.
    pub fn guard<T>(&self, desc: &str, secs: u64, f: impl FnOnce() -> T) -> T {
        let k = self.next_guard.fetch_add(1, SeqCst);
        lock(&self.guards).insert(k, (desc.into(), Instant::now(), Duration::from_secs(secs)));
        struct G(u64);
        impl Drop for G {
            fn drop(&mut self) {
                lock(&c().guards).remove(&self.0);
            }
        }
        let _g = G(k);
        f()
    }
    pub fn unplanned(&self) -> Vec<String> {
        lock(&self.unplanned_panics).clone()
    }
    pub fn elapsed(&self) -> f64 {
        self.started.elapsed().as_secs_f64()
    }
}

pub fn clip(s: &str, n: usize) -> String {
    if s.len() <= n {
        return s.to_string();
    }
    let mut e = n;
    while !s.is_char_boundary(e) {
        e -= 1;
    }
    format!("{}... ({} bytes)", &s[..e], s.len())
}

pub fn show(b: &[u8]) -> String {
    clip(&b.escape_ascii().to_string(), 600)
}

/// The minimum the monitors must have seen for a quiet run to mean anything.
pub fn require(name: &str, min: u64) {
    if scale().is_some() {
        return;
    }
    let got = c().get(name);
    if got < min && !c().violated() && c().case.is_none() {
        println!("ERROR: too little was observed: {name} = {got}, expected at least {min}");
        let _ = write_evidence();
        std::process::exit(3);
    }
}

fn write_evidence() -> std::io::Result<()> {
    let c = c();
    let mut samples = lock(&c.samples).clone();
    if samples.is_empty() {
        samples.push(json!("no sample recorded"));
    }
    let mut cov = json!({
        "evaluations": c.evals.load(SeqCst),
        "distinct_nontrivial": lock(&c.distinct).len(),
        "rule": lock(&c.rule).clone(),
        "samples": samples,
        "observed": lock(&c.counters).clone(),
    });
    let up = lock(&c.unplanned_panics).len();
    cov["panics_contained_by_the_code_under_test"] = json!({"planned": c.planned_panics.load(SeqCst), "other": up, "samples": lock(&c.unplanned_panics).iter().take(8).map(|s| clip(s, 300)).collect::<Vec<_>>()});
    cov["stalls_of_the_sandbox_over_80ms"] = json!(lock(&c.stalls).len().max(lock(&c.chain_stalls).len()));
    let ev = json!({
        "property": c.id, "tier": if c.quick() {"quick"} else {"thorough"}, "seed": c.seed,
        "level": "exploration", "coverage": cov, "assumptions": lock(&c.assumptions).clone(),
        "wall_s": c.elapsed(), "violations": lock(&c.violations).len(),
    });
    std::fs::create_dir_all(format!("{}/evidence", c.dir))?;
    std::fs::write(format!("{}/evidence/{}.json", c.dir, c.id), serde_json::to_string_pretty(&ev).unwrap() + "\n")
}

/// Reports the outcome and ends the process.
pub fn finish() -> ! {
    let c = c();
    if c.finished.swap(true, SeqCst) {
        std::thread::sleep(Duration::from_secs(30));
        std::process::exit(1);
    }
    if let Err(e) = write_evidence() {
        println!("ERROR: cannot write the evidence: {e}");
    }
    for (s, w) in lock(&c.known_hit).iter() {
        println!("KNOWN-FINDING: property={} {} [{}]", c.id, w, s);
    }
    let v = lock(&c.violations).clone();
    if v.is_empty() {
        println!("OK property={} evaluations={} distinct={} wall={:.1}s", c.id, c.evals.load(SeqCst), lock(&c.distinct).len(), c.elapsed());
        let _ = std::io::stdout().flush();
        std::process::exit(0);
    }
    let out = format!("{}/out", c.dir);
    let _ = std::fs::create_dir_all(&out);
    let path = format!("{out}/{}-seed{}.json", c.id, c.seed);
    let replay = json!({"property": c.id, "seed": c.seed, "tier": if c.quick() {"quick"} else {"thorough"},
        "how_to_replay": format!("VERIF_SEED={} VERIF_TIER={} ./check.sh {}", c.seed, if c.quick() {"quick"} else {"thorough"}, c.id),
        "violations": v.iter().map(|(s, d)| json!({"signature": s, "detail": d})).collect::<Vec<_>>(),
        "panics": lock(&c.unplanned_panics).iter().take(10).collect::<Vec<_>>()});
    let _ = std::fs::write(&path, serde_json::to_string_pretty(&replay).unwrap());
    for (s, d) in v.iter().take(5) {
        println!("  {s}: {}", clip(&d.to_string(), 700));
    }
    println!("VIOLATION property={} replay={}", c.id, path);
    let _ = std::io::stdout().flush();
    std::process::exit(1);
}

/// Runs the cases 0..n on `threads` threads, stopping early after violations. A panic of the harness itself is an error.
pub fn par(threads: usize, n: usize, salt: &str, f: impl Fn(u64, &mut Rng) + Sync) {
    let next = AtomicUsize::new(0);
    let only = c().case;
    std::thread::scope(|s| {
        for _ in 0..threads.min(n).max(1) {
            s.spawn(|| loop {
                let i = next.fetch_add(1, SeqCst);
                if i >= n || c().stopped() {
                    break;
                }
                if only.map_or(false, |o| o != i as u64) {
                    continue;
                }
                let mut rng = c().rng(salt, i as u64);
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(i as u64, &mut rng)));
                if let Err(e) = r {
                    on_panic(e, &format!("case {i} of {salt}"));
                    finish();
                }
            });
        }
    });
}

/// Counts the bytes in use by this process.
pub struct Counting;
static LIVE: std::sync::atomic::AtomicI64 = std::sync::atomic::AtomicI64::new(0);
static PEAK: std::sync::atomic::AtomicI64 = std::sync::atomic::AtomicI64::new(0);
pub fn live_bytes() -> i64 {
    LIVE.load(SeqCst)
}
/// The most bytes in use since the last call.
pub fn peak_bytes() -> i64 {
    PEAK.swap(LIVE.load(SeqCst), SeqCst)
}
fn more(n: i64) {
    use std::sync::atomic::Ordering::Relaxed;
    let now = LIVE.fetch_add(n, Relaxed) + n;
    if now > PEAK.load(Relaxed) {
        PEAK.fetch_max(now, Relaxed);
    }
}
unsafe impl std::alloc::GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
        more(l.size() as i64);
        std::alloc::System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: std::alloc::Layout) -> *mut u8 {
        more(l.size() as i64);
        std::alloc::System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) {
        LIVE.fetch_sub(l.size() as i64, std::sync::atomic::Ordering::Relaxed);
        std::alloc::System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: std::alloc::Layout, n: usize) -> *mut u8 {
        more(n as i64 - l.size() as i64);
        std::alloc::System.realloc(p, l, n)
    }
}

/// The CPU time this process has used.
pub fn cpu_time() -> f64 {
    let mut t = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe { libc::clock_gettime(libc::CLOCK_PROCESS_CPUTIME_ID, &mut t) };
    t.tv_sec as f64 + t.tv_nsec as f64 / 1e9
}
