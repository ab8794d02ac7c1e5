//! Thread pools: every accepted action runs exactly once, refused ones are handed back, capacity is neither exceeded nor lost.
//! Built with cfg(wruster_verif), which exposes the private pool types.
use crate::traffic::Gate;
use crate::util::*;
use serde_json::{json, Value};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};
use wruster::verif_hooks::{Dynamic, Pool, Static};

type Act = Box<dyn FnOnce() + Send + 'static>;

enum P {
    S(Static),
    D(Dynamic),
    P(Pool),
}
impl P {
    fn run(&mut self, a: Act) -> Result<(), Act> {
        match self {
            P::S(p) => p.run(a).map_err(|e| e.action),
            P::D(p) => p.run(a).map_err(|e| e.action),
            P::P(p) => p.run(a).map_err(|e| e.action),
        }
    }
}

#[derive(Clone, Debug)]
struct Kind {
    what: &'static str,
    min: usize,
    max: usize,
    timeout_us: u64,
}
impl Kind {
    fn random(rng: &mut Rng) -> Kind {
        let timeout_us = *rng.pick(&[0, 50, 200, 1000, 3000, 10_000, 60_000_000]);
        let max = *rng.pick(&[1, 1, 2, 2, 3, 4, 5, 8, 13]);
        match rng.below(3) {
            0 => Kind { what: "static", min: max, max, timeout_us: 0 },
            1 => Kind { what: "dynamic", min: 0, max, timeout_us },
            _ => {
                let min = rng.below(max + 2);
                Kind { what: "pool", min, max: max.max(min), timeout_us: 10_000_000 }
            }
        }
    }
    fn build(&self) -> P {
        match self.what {
            "static" => P::S(Static::new(self.max)),
            "dynamic" => P::D(Dynamic::new(self.max, Duration::from_micros(self.timeout_us))),
            _ => P::P(Pool::new(self.min, if self.max > self.min || self.min == 0 { self.max } else { self.min / 2 })),
        }
    }
    fn json(&self) -> Value {
        json!({"kind": self.what, "min": self.min, "max": self.max, "worker_timeout_us": self.timeout_us})
    }
}

/// What one action did.
#[derive(Default)]
struct One {
    started: AtomicU64,
    finished: AtomicU64,
    dropped: AtomicU64,
    /// run by somebody else after it was handed back
    outside: AtomicBool,
}
#[derive(Default)]
struct Mon {
    running: AtomicU64,
    peak: AtomicU64,
    all: Mutex<Vec<(Arc<One>, bool)>>,
}
struct DropMark(Arc<One>);
impl Drop for DropMark {
    fn drop(&mut self) {
        self.0.dropped.fetch_add(1, SeqCst);
    }
}
struct Fin<'a>(&'a One, &'a Mon);
impl Drop for Fin<'_> {
    fn drop(&mut self) {
        self.1.running.fetch_sub(1, SeqCst);
        self.0.finished.fetch_add(1, SeqCst);
    }
}
#[derive(Clone)]
enum Do {
    Nothing,
    Yield,
    Sleep(u64),
    Panic,
    PanicAny,
    Gate(Arc<Gate>),
}
fn action(mon: &Arc<Mon>, one: &Arc<One>, what: Do) -> Act {
    let (mon, one) = (Arc::clone(mon), Arc::clone(one));
    let mark = DropMark(Arc::clone(&one));
    Box::new(move || {
        let _mark = mark;
        one.started.fetch_add(1, SeqCst);
        if one.outside.load(SeqCst) {
            return;
        }
        let n = mon.running.fetch_add(1, SeqCst) + 1;
        mon.peak.fetch_max(n, SeqCst);
        let _f = Fin(&one, &mon);
        match what {
            Do::Nothing => (),
            Do::Yield => std::thread::yield_now(),
            Do::Sleep(us) => std::thread::sleep(Duration::from_micros(us)),
            Do::Panic => panic!("{PLANNED}"),
            Do::PanicAny => std::panic::resume_unwind(Box::new(7u32)),
            Do::Gate(g) => g.wait(Duration::from_secs(30)),
        }
    })
}

/// Submits until the pool accepts; None when it does not within `secs`.
fn must_accept(p: &mut P, mon: &Arc<Mon>, what: Do, secs: f64) -> Option<Arc<One>> {
    let t = Instant::now();
    let one = Arc::new(One::default());
    let mut a = action(mon, &one, what);
    loop {
        match p.run(a) {
            Ok(()) => {
                lock(&mon.all).push((Arc::clone(&one), true));
                c().count("accepted", 1);
                return Some(one);
            }
            Err(back) => a = back,
        }
        c().count("retried", 1);
        if one.started.load(SeqCst) != 0 {
            c().violation("refused-action-ran", json!({}));
            return None;
        }
        if t.elapsed().as_secs_f64() > secs + c().stalled_since(t).as_secs_f64() {
            return None;
        }
        std::thread::sleep(Duration::from_micros(200));
    }
}

fn until(secs: f64, f: impl Fn() -> bool) -> bool {
    let t = Instant::now();
    let mut spins = 0;
    while !f() {
        if t.elapsed().as_secs_f64() > secs + c().stalled_since(t).as_secs_f64() {
            return f();
        }
        spins += 1;
        if spins < 200 {
            std::thread::yield_now();
        } else {
            std::thread::sleep(Duration::from_micros(100));
        }
    }
    true
}

/// All `max` workers can be busy at once, and one more action is refused and handed back unrun.
fn capacity(p: &mut P, k: &Kind, mon: &Arc<Mon>, when: &str) -> bool {
    let g = Arc::new(Gate::default());
    let mut held = vec![];
    for i in 0..k.max {
        match must_accept(p, mon, Do::Gate(Arc::clone(&g)), 5.0) {
            Some(o) => held.push(o),
            None => {
                g.open();
                c().violation("idle-capacity-refused", json!({"pool": k.json(), "when": when, "busy": i, "max": k.max, "refused_for_s": 5}));
                return false;
            }
        }
    }
    if !until(10.0, || held.iter().all(|o| o.started.load(SeqCst) == 1)) {
        g.open();
        c().violation("accepted-action-not-started", json!({"pool": k.json(), "when": when, "accepted": held.len(),
            "started": held.iter().filter(|o| o.started.load(SeqCst) > 0).count()}));
        return false;
    }
    let one = Arc::new(One::default());
    for _ in 0..3 {
        let id = Arc::new(AtomicU64::new(0));
        let (id2, o2) = (Arc::clone(&id), Arc::clone(&one));
        let extra: Act = Box::new(move || {
            o2.started.fetch_add(1, SeqCst);
            id2.store(42, SeqCst);
        });
        match p.run(extra) {
            Ok(()) => {
                g.open();
                // More than max would run, or it waits behind somebody: both are wrong for a pool without a queue.
                until(1.0, || one.started.load(SeqCst) > 0);
                c().violation("accepted-beyond-the-maximum", json!({"pool": k.json(), "when": when, "ran": one.started.load(SeqCst)}));
                return false;
            }
            Err(back) => {
                c().count("refused_when_full", 1);
                if one.started.load(SeqCst) != 0 {
                    c().violation("refused-action-ran", json!({"pool": k.json(), "when": when}));
                }
                back();
                if id.load(SeqCst) != 42 || one.started.swap(0, SeqCst) != 1 {
                    c().violation("handed-back-another-action", json!({"pool": k.json(), "when": when}));
                }
            }
        }
    }
    g.open();
    if !until(10.0, || held.iter().all(|o| o.finished.load(SeqCst) == 1)) {
        c().violation("action-did-not-finish", json!({"pool": k.json(), "when": when}));
        return false;
    }
    c().count("capacity_checks", 1);
    true
}

/// Drops the pool and checks that all accepted actions are over, exactly once each.
fn end(p: P, k: &Kind, mon: &Arc<Mon>, when: &str) {
    let before = lock(&mon.all).iter().filter(|(o, a)| *a && o.finished.load(SeqCst) == 0).count() as u64;
    c().guard(&format!("dropping a {} pool", k.what), 40, move || drop(p));
    c().count("drops", 1);
    c().max("max_actions_pending_at_drop", before);
    let all = lock(&mon.all);
    for (o, accepted) in all.iter() {
        let (s, f, d) = (o.started.load(SeqCst), o.finished.load(SeqCst), o.dropped.load(SeqCst));
        let bad = if *accepted {
            if s == 0 {
                Some("accepted-action-never-ran")
            } else if s > 1 {
                Some("action-ran-twice")
            } else if f != 1 {
                Some("drop-returned-before-the-action-finished")
            } else if d != 1 {
                Some("action-not-released-once")
            } else {
                None
            }
        } else if s != 0 {
            Some("refused-action-ran")
        } else {
            None
        };
        if let Some(sig) = bad {
            c().violation(sig, json!({"pool": k.json(), "when": when, "accepted": accepted, "started": s, "finished": f, "released": d}));
            break;
        }
    }
    let peak = mon.peak.load(SeqCst);
    c().max("peak_running", peak);
    if peak > k.max as u64 {
        c().violation("more-at-once-than-the-maximum", json!({"pool": k.json(), "when": when, "peak": peak}));
    }
    if mon.running.load(SeqCst) != 0 {
        c().violation("running-after-drop", json!({"pool": k.json(), "when": when}));
    }
}

fn pick_do(rng: &mut Rng) -> Do {
    match rng.below(12) {
        0..=3 => Do::Nothing,
        4 | 5 => Do::Yield,
        6..=8 => Do::Sleep(rng.below(1500) as u64),
        9 => Do::Panic,
        10 => Do::PanicAny,
        _ => Do::Sleep(rng.below(6000) as u64),
    }
}

fn pause(rng: &mut Rng, k: &Kind) {
    match rng.below(8) {
        0..=2 => (),
        3 => std::thread::yield_now(),
        4 => std::thread::sleep(Duration::from_micros(rng.below(400) as u64)),
        5 => std::thread::sleep(Duration::from_millis(rng.below(3) as u64)),
        // around the expiry of the workers
        _ if k.timeout_us > 0 && k.timeout_us < 20_000 => {
            let j = rng.below(600) as i64 - 250;
            let t = Instant::now() + Duration::from_micros((k.timeout_us as i64 + j).max(0) as u64);
            while Instant::now() < t {
                std::hint::spin_loop();
            }
        }
        _ => (),
    }
}

/// Random submissions, one submitter.
fn history(i: u64, rng: &mut Rng) {
    let k = Kind::random(rng);
    let mon = Arc::new(Mon::default());
    let mut p = k.build();
    let n = rng.range(1, 120);
    let (mut acc, mut refu) = (0u64, 0u64);
    for _ in 0..n {
        let one = Arc::new(One::default());
        match p.run(action(&mon, &one, pick_do(rng))) {
            Ok(()) => {
                acc += 1;
                lock(&mon.all).push((one, true));
            }
            Err(back) => {
                refu += 1;
                if rng.chance(1, 2) {
                    drop(back);
                    lock(&mon.all).push((one, false));
                } else if one.started.load(SeqCst) != 0 {
                    c().violation("refused-action-ran", json!({"pool": k.json()}));
                } else {
                    // handed back: it can be run by somebody else
                    one.outside.store(true, SeqCst);
                    back();
                    if one.started.load(SeqCst) != 1 {
                        c().violation("handed-back-another-action", json!({"pool": k.json()}));
                    }
                }
            }
        }
        pause(rng, &k);
    }
    c().count("accepted", acc);
    c().count("refused", refu);
    if rng.chance(2, 3) && !capacity(&mut p, &k, &mon, "after a random history") {
        std::mem::forget(p);
        return;
    }
    if rng.chance(1, 3) {
        for _ in 0..k.max {
            let one = Arc::new(One::default());
            if p.run(action(&mon, &one, Do::Sleep(rng.below(20_000) as u64))).is_ok() {
                lock(&mon.all).push((one, true));
            }
        }
    }
    end(p, &k, &mon, "after a random history");
    c().eval(Some(("history", k.what, k.min, k.max, k.timeout_us, acc, refu)));
    if i < 2 {
        c().sample(json!({"workload": "random history", "pool": k.json(), "submitted": n, "accepted": acc, "refused": refu}));
    }
}

/// One submission at a time, each about when the idle worker expires.
fn expiry(_: u64, rng: &mut Rng) {
    let k = Kind { what: "dynamic", min: 0, max: *rng.pick(&[1, 1, 1, 2, 3]), timeout_us: *rng.pick(&[0, 20, 100, 500, 2000]) };
    let mon = Arc::new(Mon::default());
    let mut p = k.build();
    let rounds = rng.range(50, 250);
    for _ in 0..rounds {
        let Some(one) = must_accept(&mut p, &mon, if rng.chance(1, 10) { Do::Panic } else { Do::Nothing }, 5.0) else {
            c().violation("idle-capacity-refused", json!({"pool": k.json(), "when": "submitting around the expiry of the only worker", "refused_for_s": 5}));
            std::mem::forget(p);
            return;
        };
        if !until(10.0, || one.finished.load(SeqCst) == 1) {
            c().violation("accepted-action-not-started", json!({"pool": k.json(), "when": "around the expiry of a worker", "started": one.started.load(SeqCst)}));
            std::mem::forget(p);
            return;
        }
        let j = rng.below(300) as i64 - 150;
        let t = Instant::now() + Duration::from_micros((k.timeout_us as i64 + j).max(0) as u64);
        while Instant::now() < t {
            std::hint::spin_loop();
        }
    }
    c().count("submissions_around_expiry", rounds as u64);
    if capacity(&mut p, &k, &mon, "after many expirations") {
        end(p, &k, &mon, "after many expirations");
    } else {
        std::mem::forget(p);
    }
    c().eval(Some(("expiry", k.max, k.timeout_us, rounds)));
}

/// Many threads submit to one pool.
fn many_submitters(_: u64, rng: &mut Rng) {
    let k = Kind::random(rng);
    let mon = Arc::new(Mon::default());
    let p = Mutex::new(k.build());
    let threads = rng.range(2, 6);
    let seeds: Vec<Rng> = (0..threads).map(|t| Rng::new(rng.next(), "submitter", t as u64)).collect();
    std::thread::scope(|s| {
        for mut r in seeds {
            let (p, mon, k) = (&p, &mon, &k);
            s.spawn(move || {
                for _ in 0..60 {
                    let one = Arc::new(One::default());
                    let a = action(mon, &one, pick_do(&mut r));
                    match lock(p).run(a) {
                        Ok(()) => {
                            lock(&mon.all).push((one, true));
                            c().count("accepted", 1);
                        }
                        Err(a) => {
                            drop(a);
                            lock(&mon.all).push((one, false));
                            c().count("refused", 1);
                        }
                    }
                    pause(&mut r, k);
                }
            });
        }
    });
    let mut p = p.into_inner().unwrap_or_else(|e| e.into_inner());
    if capacity(&mut p, &k, &mon, "after concurrent submissions") {
        end(p, &k, &mon, "after concurrent submissions");
    } else {
        std::mem::forget(p);
    }
    c().eval(Some(("submitters", k.what, k.min, k.max, threads)));
}

/// Drop while the actions run, and while workers expire.
fn drop_early(_: u64, rng: &mut Rng) {
    let k = Kind::random(rng);
    let mon = Arc::new(Mon::default());
    let mut p = k.build();
    for _ in 0..rng.below(k.max + 1) {
        let one = Arc::new(One::default());
        let what = match rng.below(4) {
            0 => Do::Panic,
            1 => Do::Nothing,
            _ => Do::Sleep(rng.below(15_000) as u64),
        };
        if p.run(action(&mon, &one, what)).is_ok() {
            lock(&mon.all).push((one, true));
            c().count("accepted", 1);
        }
    }
    pause(rng, &k);
    end(p, &k, &mon, "dropped early");
    c().eval(Some(("drop", k.what, k.min, k.max, k.timeout_us)));
}

/// With a worker that has been idle for a while, the first try is accepted, whichever workers are busy.
/// A refusal counts when it comes again after the same history with much longer pauses.
fn settled(i: u64, rng: &mut Rng) {
    let k = loop {
        let k = Kind::random(rng);
        if k.timeout_us == 0 || k.timeout_us >= 10_000_000 {
            break k;
        }
    };
    let k = Kind { timeout_us: 60_000_000, ..k };
    let max = k.max;
    // true: submit; false: release the n-th of those running
    let mut script = vec![];
    let mut busy = 0;
    for _ in 0..rng.range(2, 4 * max + 4) {
        if busy < max && (busy == 0 || rng.chance(3, 5)) {
            script.push((true, 0));
            busy += 1;
        } else {
            script.push((false, rng.below(busy)));
            busy -= 1;
        }
    }
    let attempt = |pause: Duration| -> Option<Value> {
        let mon = Arc::new(Mon::default());
        let mut p = k.build();
        let mut running: Vec<(Arc<Gate>, Arc<One>)> = vec![];
        let mut refused = None;
        let mut changed = true;
        for (n, (submit, which)) in script.iter().enumerate() {
            if *submit {
                if changed {
                    std::thread::sleep(pause);
                }
                changed = false;
                let (g, one) = (Arc::new(Gate::default()), Arc::new(One::default()));
                match p.run(action(&mon, &one, Do::Gate(Arc::clone(&g)))) {
                    Ok(()) => {
                        lock(&mon.all).push((Arc::clone(&one), true));
                        c().count("accepted", 1);
                        running.push((g, one));
                    }
                    Err(_) => {
                        refused = Some(json!({"step": n, "busy": running.len(), "pause_ms": pause.as_millis() as u64}));
                        break;
                    }
                }
            } else {
                let (g, one) = running.remove(*which);
                // what runs has been seen running before it is released
                let ok = until(10.0, || one.started.load(SeqCst) == 1);
                g.open();
                if !ok || !until(10.0, || one.finished.load(SeqCst) == 1) {
                    refused = Some(json!({"step": n, "why": "an accepted action did not run to its end"}));
                    break;
                }
                changed = true;
            }
        }
        running.iter().for_each(|(g, _)| g.open());
        if refused.is_none() {
            end(p, &k, &mon, "settled");
        } else {
            drop(p);
        }
        refused
    };
    let mut found = vec![];
    for ms in [3, 60, 1000] {
        match attempt(Duration::from_millis(ms)) {
            None => {
                c().count("settled_histories", 1);
                c().eval(Some(("settled", k.what, k.min, k.max, i)));
                return;
            }
            Some(v) => found.push(v),
        }
    }
    c().violation("idle-worker-not-used", json!({"pool": k.json(), "script": script.iter().map(|(s, w)| if *s { "run".into() } else { format!("release {w}") }).collect::<Vec<_>>(), "refused": found}));
}

/// More panics than workers; the pool keeps its capacity.
fn panics(_: u64, rng: &mut Rng) {
    let k = Kind::random(rng);
    let mon = Arc::new(Mon::default());
    let mut p = k.build();
    for _ in 0..k.max * 3 + 2 {
        let what = if rng.chance(1, 2) { Do::Panic } else { Do::PanicAny };
        if must_accept(&mut p, &mon, what, 5.0).is_none() {
            c().violation("idle-capacity-refused", json!({"pool": k.json(), "when": "after panics", "refused_for_s": 5}));
            std::mem::forget(p);
            return;
        }
        c().count("panicking_actions", 1);
    }
    if capacity(&mut p, &k, &mon, "after panics") {
        end(p, &k, &mon, "after panics");
    } else {
        std::mem::forget(p);
    }
    c().eval(Some(("panics", k.what, k.min, k.max, k.timeout_us)));
}

/// Threads of this process, heartbeat and main included.
fn threads() -> usize {
    std::fs::read_dir("/proc/self/task").map(|d| d.count()).unwrap_or(0)
}

/// Idle workers of a dynamic pool end, and the static ones stay; capacity is back afterwards.
fn idle_end(rng: &mut Rng) {
    let base = threads();
    for timeout_us in [1000, 30_000] {
        for max in [1, 3, 10] {
            let k = Kind { what: "dynamic", min: 0, max, timeout_us };
            let mon = Arc::new(Mon::default());
            let mut p = k.build();
            for round in 0..3 {
                if !capacity(&mut p, &k, &mon, "idle rounds") {
                    std::mem::forget(p);
                    return;
                }
                c().max("worker_threads_seen", threads().saturating_sub(base) as u64);
                if !until(10.0, || threads() <= base) {
                    c().violation("idle-workers-do-not-end", json!({"pool": k.json(), "round": round, "threads_left": threads() - base}));
                    std::mem::forget(p);
                    return;
                }
                c().count("idle_rounds", 1);
                std::thread::sleep(Duration::from_micros(rng.below(500) as u64));
            }
            end(p, &k, &mon, "idle rounds");
        }
    }
    // Workers still within their idle period do not delay the drop until its end.
    let k = Kind { what: "dynamic", min: 0, max: 4, timeout_us: 60_000_000 };
    let mon = Arc::new(Mon::default());
    let mut p = k.build();
    if capacity(&mut p, &k, &mon, "long idle period") {
        let t = Instant::now();
        end(p, &k, &mon, "long idle period");
        if t.elapsed() > Duration::from_secs(10) + c().stalled_since(t) {
            c().violation("drop-waits-for-the-idle-period", json!({"pool": k.json(), "took_s": t.elapsed().as_secs_f64()}));
        }
    }
    if !until(10.0, || threads() <= base) {
        c().violation("threads-left-after-drop", json!({"threads_left": threads() as i64 - base as i64}));
    }
}

pub fn run() {
    c().rule("a case is distinct by its workload, the kind and sizes of the pool, the idle time of its workers and what it accepted and refused");
    c().assume("a pool has no queue: with all workers busy it refuses; an idle worker may take up to 5 s before it is found");
    idle_end(&mut c().rng("idle", 0));
    par(8, c().n(500, 8000), "history", history);
    par(6, c().n(60, 1200), "expiry", expiry);
    par(3, c().n(40, 700), "submitters", many_submitters);
    par(6, c().n(300, 5000), "drop", drop_early);
    par(6, c().n(80, 1500), "panics", panics);
    par(6, c().n(150, 4000), "settled", settled);
    require("accepted", 5000);
    require("refused", 500);
    require("refused_when_full", 500);
    require("capacity_checks", 200);
    require("submissions_around_expiry", 2000);
    require("panicking_actions", 300);
    require("drops", 500);
    require("settled_histories", 100);
    let up = lock(&c().unplanned_panics);
    if !up.is_empty() {
        c().violation("panic-in-the-pool", json!({"panics": up.iter().take(3).collect::<Vec<_>>()}));
    }
}
