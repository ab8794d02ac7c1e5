//! C23: the client's pool of idle connections: bounded, exclusive, LRU, expiring, closed with the client.
//! Built with cfg(wruster_verif), which exposes the pool itself; without it only the client is observed.
use crate::rawsrv::*;
use crate::util::*;
use serde_json::json;
use std::collections::HashMap;
use std::io::Write;
use std::net::TcpStream;
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};
use wruster::http::client::Client;
use wruster::http::headers::Headers;
use wruster::http::{HttpMethod, Request};
#[cfg(wruster_verif)]
use wruster::verif_hooks::{ConnectionPool, PoolResource};

const MAX: usize = 100;
const IDLE: f64 = 30.0;
/// how much later than its limit an idle connection may be closed
const LATE: f64 = 20.0;

/// A pooled value that tells what became of it.
#[cfg(wruster_verif)]
struct Tok {
    n: u64,
    st: Arc<Mutex<HashMap<u64, Life>>>,
}
#[cfg(wruster_verif)]
#[derive(Clone, Debug)]
struct Life {
    key: String,
    born: Instant,
    got: u32,
    dropped: Option<Instant>,
}
#[cfg(wruster_verif)]
impl Drop for Tok {
    fn drop(&mut self) {
        if let Some(l) = lock(&self.st).get_mut(&self.n) {
            if l.dropped.is_some() {
                c().violation("pool:dropped-twice", json!({"key": l.key}));
            }
            l.dropped = Some(Instant::now());
        }
    }
}
#[cfg(wruster_verif)]
static TOK: AtomicU64 = AtomicU64::new(1);
#[cfg(wruster_verif)]
fn tok(st: &Arc<Mutex<HashMap<u64, Life>>>, key: &str) -> (u64, Tok) {
    let n = TOK.fetch_add(1, SeqCst);
    lock(st).insert(n, Life { key: key.into(), born: Instant::now(), got: 0, dropped: None });
    (n, Tok { n, st: st.clone() })
}

/// One thread against an exact model.
#[cfg(wruster_verif)]
fn history(i: u64, rng: &mut Rng) {
    let pool: ConnectionPool<Tok> = ConnectionPool::new(if rng.chance(1, 2) { None } else { Some(Duration::from_secs(600)) });
    let st: Arc<Mutex<HashMap<u64, Life>>> = Default::default();
    // least recently used first
    let mut model: Vec<(String, u64)> = vec![];
    let keys = *rng.pick(&[3, 60, 100, 101, 130, 250]);
    let ops = rng.range(50, 900);
    let mut log = vec![];
    let (mut evictions, mut replaced) = (0, 0);
    for step in 0..ops {
        let key = format!("k{}", rng.below(keys));
        let fail = |why: String, model: &Vec<(String, u64)>, log: &Vec<String>| {
            c().violation("pool:history", json!({"case": i, "step": step, "key": key, "why": why, "keys": keys, "pooled": model.len(), "last_operations": log.iter().rev().take(12).collect::<Vec<_>>()}));
        };
        match rng.below(100) {
            0..=69 => {
                let (n, t) = tok(&st, &key);
                pool.insert(&key, PoolResource::new(t));
                log.push(format!("insert {key}"));
                let mut gone = None;
                if let Some(k) = model.iter().position(|(k, _)| *k == key) {
                    gone = Some((model.remove(k).1, "replaced"));
                    replaced += 1;
                } else if model.len() == MAX {
                    gone = Some((model.remove(0).1, "the least recently used"));
                    evictions += 1;
                }
                model.push((key.clone(), n));
                let lost: Vec<String> = model.iter().filter(|(_, n)| lock(&st)[n].dropped.is_some()).map(|(k, _)| k.clone()).collect();
                if !lost.is_empty() {
                    return fail(format!("{lost:?} dropped although they are neither the least recently used nor replaced"), &model, &log);
                }
                if let Some((n, why)) = gone {
                    if lock(&st)[&n].dropped.is_none() {
                        return fail(format!("the entry of {} was not dropped ({why})", lock(&st)[&n].key), &model, &log);
                    }
                }
            }
            70..=97 => {
                let got = pool.get(&key).map(|r| r.n);
                log.push(format!("get {key}"));
                let want = model.iter().position(|(k, _)| *k == key).map(|k| model.remove(k).1);
                if got != want {
                    return fail(format!("get returned {got:?}, expected {want:?}"), &model, &log);
                }
            }
            98 if rng.chance(1, 4) => {
                let mut got: Vec<u64> = pool.drain().iter().map(|r| r.n).collect();
                log.push("drain".into());
                let mut want: Vec<u64> = model.drain(..).map(|(_, n)| n).collect();
                got.sort();
                want.sort();
                if got != want {
                    return fail(format!("drain returned {} entries, expected {}", got.len(), want.len()), &model, &log);
                }
            }
            _ => (),
        }
    }
    let t = Instant::now();
    c().guard("drop of a pool", 60, || drop(pool));
    drop_time(t, "pool");
    if lock(&st).values().any(|l| l.dropped.is_none()) {
        c().violation("pool:leak", json!({"case": i, "why": "entries survived their pool"}));
    }
    c().count("pool_histories", 1);
    c().count("pool_operations", ops as u64);
    c().count("evictions", evictions);
    c().count("replacements", replaced);
    c().eval(Some(("history", keys, ops, evictions, replaced)));
}

fn drop_time(t: Instant, what: &str) {
    let s = t.elapsed().as_secs_f64();
    if s > 3.0 + 2.0 * c().stalled_since(t).as_secs_f64() {
        c().violation("drop-blocks", json!({"what": what, "after_s": s}));
    }
    c().max("longest_drop_us", (s * 1e6) as u64);
}

/// Many threads: each token is with one of them, in the pool, or gone.
#[cfg(wruster_verif)]
fn contention(i: u64, rng: &mut Rng) {
    let pool: ConnectionPool<Tok> = ConnectionPool::new(None);
    let st: Arc<Mutex<HashMap<u64, Life>>> = Default::default();
    let keys = *rng.pick(&[1, 4, 101, 160]);
    let seeds: Vec<u64> = (0..8).map(|_| rng.next()).collect();
    let gets = AtomicU64::new(0);
    std::thread::scope(|s| {
        for seed in seeds {
            let (pool, st, gets) = (&pool, &st, &gets);
            s.spawn(move || {
                let mut rng = Rng::new(seed, "contention", i);
                let mut mine: Vec<Tok2> = vec![];
                for _ in 0..300 {
                    let key = format!("k{}", rng.below(keys));
                    if rng.chance(1, 2) {
                        if let Some(r) = pool.get(&key) {
                            let mut st = lock(st);
                            let l = st.get_mut(&r.n).unwrap();
                            l.got += 1;
                            if l.got > 1 || l.dropped.is_some() || l.key != key {
                                c().violation("pool:not-exclusive", json!({"case": i, "key": key, "entry": format!("{l:?}")}));
                            }
                            drop(st);
                            gets.fetch_add(1, SeqCst);
                            if rng.chance(1, 3) {
                                mine.push(Tok2(r.resource()));
                            }
                        }
                    } else {
                        let (_, t) = tok(st, &key);
                        pool.insert(&key, PoolResource::new(t));
                    }
                    if rng.chance(1, 50) {
                        mine.clear();
                    }
                }
            });
        }
    });
    let left = pool.drain();
    let alive = lock(&st).values().filter(|l| l.dropped.is_none()).count();
    if left.len() > MAX || alive != left.len() {
        c().violation("pool:bound", json!({"case": i, "in_the_pool": left.len(), "alive": alive, "maximum": MAX}));
    }
    drop(left);
    let t = Instant::now();
    c().guard("drop of a pool", 60, || drop(pool));
    drop_time(t, "pool");
    c().count("contended_gets", gets.load(SeqCst));
    c().eval(Some(("contention", i)));
}
#[cfg(wruster_verif)]
struct Tok2(#[allow(dead_code)] Tok);

/// Entries of a pool with a short limit: none goes before its time, all go after it.
#[cfg(wruster_verif)]
fn expiry(limit_ms: u64, secs: u64) {
    let limit = limit_ms as f64 / 1000.0;
    let pool: ConnectionPool<Tok> = ConnectionPool::new(Some(Duration::from_millis(limit_ms)));
    let st: Arc<Mutex<HashMap<u64, Life>>> = Default::default();
    let mut rng = c().rng("expiry", limit_ms);
    let t0 = Instant::now();
    let mut k = 0;
    let mut pending: Vec<(String, u64, Instant, f64)> = vec![];
    while t0.elapsed().as_secs() < secs && !c().stopped() {
        // one that is left alone, and one that is asked for within its limit
        let key = format!("alone{}", k % 40);
        k += 1;
        let (_, t) = tok(&st, &key);
        pool.insert(&key, PoolResource::new(t));
        let key = format!("used{k}");
        let (n, t) = tok(&st, &key);
        pool.insert(&key, PoolResource::new(t));
        pending.push((key, n, Instant::now(), limit * rng.below(80) as f64 / 100.0));
        let mut j = 0;
        while j < pending.len() {
            let (key, n, at, after) = &pending[j];
            if at.elapsed().as_secs_f64() < *after {
                j += 1;
                continue;
            }
            let got = pool.get(key).map(|r| r.n);
            let age = at.elapsed().as_secs_f64();
            if got.is_none() && age < limit * 0.97 {
                c().violation("expired-too-early", json!({"limit_s": limit, "idle_s": age, "level": "pool"}));
                return;
            }
            if got.is_some() && got != Some(*n) {
                c().violation("pool:not-exclusive", json!({"key": key, "why": "another entry"}));
                return;
            }
            if got.is_some() {
                lock(&st).get_mut(n).unwrap().got += 1;
            }
            c().count("entries_used_within_the_limit", 1);
            pending.remove(j);
        }
        std::thread::sleep(Duration::from_millis(20 + (limit_ms / 20).min(700)));
        let now = Instant::now();
        for l in lock(&st).values() {
            let age = (now - l.born).as_secs_f64();
            if l.dropped.is_none() && l.got == 0 && age > limit + LATE + c().stalled_since(l.born).as_secs_f64() {
                c().violation("not-expired", json!({"limit_s": limit, "idle_s": age, "level": "pool"}));
                return;
            }
        }
    }
    let v: Vec<Life> = lock(&st).values().cloned().collect();
    let expired = v.iter().filter(|l| l.got == 0 && l.dropped.is_some()).count();
    c().count("entries_expired_or_replaced", expired as u64);
    c().eval(Some(("expiry", limit_ms)));
    c().guard("drop of a pool", 60, || drop(pool));
}

/// What the servers know about one connection.
#[derive(Debug, Clone)]
struct Seen {
    addr: usize,
    requests: u64,
    last: Instant,
    closed: Option<Instant>,
}
struct World {
    servers: Vec<RawServer>,
    seen: Arc<Mutex<HashMap<u64, Seen>>>,
}
impl World {
    fn new(n: usize, net: u8) -> World {
        let seen: Arc<Mutex<HashMap<u64, Seen>>> = Default::default();
        static ID: AtomicU64 = AtomicU64::new(1);
        let servers = (0..n)
            .map(|a| {
                let seen = seen.clone();
                RawServer::start([127, 0, net, 1 + a as u8].into(), move |_, sock: TcpStream| {
                    let id = ID.fetch_add(1, SeqCst);
                    lock(&seen).insert(id, Seen { addr: a, requests: 0, last: Instant::now(), closed: None });
                    let mut r = ReqReader::new(sock);
                    while let Ok(Some(q)) = r.request() {
                        {
                            let mut s = lock(&seen);
                            let e = s.get_mut(&id).unwrap();
                            e.requests += 1;
                            e.last = Instant::now();
                        }
                        if r.has_data() {
                            c().violation("not-exclusive", json!({"why": "two requests at once on one connection"}));
                        }
                        let ms: u64 = q.target.trim_start_matches('/').parse().unwrap_or(0);
                        std::thread::sleep(Duration::from_millis(ms));
                        if r.has_data() {
                            c().violation("not-exclusive", json!({"why": "two requests at once on one connection"}));
                        }
                        let body = id.to_string();
                        if r.sock.write_all(format!("HTTP/1.1 200 OK\r\nContent-Length: {}\r\n\r\n{body}", body.len()).as_bytes()).is_err() {
                            break;
                        }
                    }
                    lock(&seen).get_mut(&id).unwrap().closed = Some(Instant::now());
                })
            })
            .collect();
        World { servers, seen }
    }
    /// The number of the connection that was used.
    fn call(&self, client: &Client, a: usize, ms: u64) -> Result<u64, String> {
        use std::io::Read;
        let q = Request { method: HttpMethod::GET, uri: format!("/{ms}"), version: "HTTP/1.1".into(), headers: Headers::new(), body: None };
        let mut r = client.run(&self.servers[a].addr.to_string(), q).map_err(|e| format!("{e:?}"))?;
        let mut s = String::new();
        r.body.as_mut().ok_or("no body")?.read_to_string(&mut s).map_err(|e| e.to_string())?;
        s.parse().map_err(|_| s)
    }
    fn open(&self) -> Vec<u64> {
        let mut v: Vec<u64> = lock(&self.seen).iter().filter(|(_, s)| s.closed.is_none()).map(|(i, _)| *i).collect();
        v.sort();
        v
    }
    /// Waits until exactly these connections are open.
    fn settles(&self, want: &[u64], secs: u64) -> Result<(), (Vec<u64>, Vec<u64>)> {
        let mut want = want.to_vec();
        want.sort();
        let end = Instant::now() + Duration::from_secs(secs);
        loop {
            let open = self.open();
            if open == want {
                return Ok(());
            }
            let lost: Vec<u64> = want.iter().filter(|i| !open.contains(i)).copied().collect();
            if Instant::now() > end || !lost.is_empty() {
                return Err((open.iter().filter(|i| !want.contains(i)).copied().collect(), lost));
            }
            std::thread::sleep(Duration::from_millis(2));
        }
    }
}

/// One caller: every connection is predicted; then the idle ones are watched until they are closed.
fn client_history(net: u8, calls: usize, idle: bool) {
    let w = World::new(130, net);
    let client = Client::new();
    let mut rng = c().rng("client-history", net as u64);
    let mut model: Vec<(usize, u64)> = vec![];
    let began = Instant::now();
    for k in 0..calls {
        let a = if k < 130 { k } else { rng.below(130) };
        // (expiry must not interfere)
        if began.elapsed().as_secs_f64() > IDLE * 0.8 {
            c().count("histories_cut_by_time", 1);
            break;
        }
        let got = match w.call(&client, a, 0) {
            Ok(n) => n,
            Err(e) => {
                c().violation("call-failed", json!({"call": k, "error": e}));
                return;
            }
        };
        let d = |why: String| json!({"call": k, "address": a, "why": why, "pooled": model.len()});
        match model.iter().position(|(b, _)| *b == a) {
            Some(i) => {
                if model[i].1 != got {
                    c().violation("connection-not-reused", d(format!("connection {got}, but {} was idle", model[i].1)));
                    return;
                }
                model.remove(i);
                c().count("connections_reused", 1);
            }
            None if model.iter().any(|(_, n)| *n == got) => {
                c().violation("wrong-connection", d(format!("connection {got} belongs to another address")));
                return;
            }
            None => (),
        }
        if model.len() == MAX {
            model.remove(0);
            c().count("connections_dropped_as_least_recently_used", 1);
        }
        model.push((a, got));
        if k % 7 == 0 || k > calls - 20 {
            let want: Vec<u64> = model.iter().map(|(_, n)| *n).collect();
            if let Err((more, less)) = w.settles(&want, 20) {
                c().violation("wrong-connections-kept", json!({"call": k, "open_but_not_to_be_kept": more.len(), "closed_but_to_be_kept": less.len(), "to_be_kept": want.len()}));
                return;
            }
            c().count("sets_of_idle_connections_compared", 1);
        }
        c().eval(Some(("client", net, k)));
    }
    if !idle {
        // more of them while some are in use, then the end of the client
        let t = Instant::now();
        c().guard("drop of a client", 60, || drop(client));
        drop_time(t, "client");
        if let Err((more, _)) = w.settles(&[], 10) {
            c().violation("not-closed-on-drop", json!({"still_open": more.len()}));
        }
        c().count("clients_dropped_with_idle_connections", 1);
        return;
    }
    // One is used every 11 s and another once after 25 s: they must stay the same connections.
    let keep = model[60];
    let late = model[61];
    let t0 = Instant::now();
    let (mut next, mut late_used) = (11.0, false);
    loop {
        let s = t0.elapsed().as_secs_f64();
        if s > IDLE + LATE || c().stopped() {
            break;
        }
        let mut expect = |x: (usize, u64), what: &str| match w.call(&client, x.0, 0) {
            Ok(n) if n == x.1 => {
                c().count("connections_used_within_the_limit", 1);
                true
            }
            r => {
                c().violation("expired-too-early", json!({"level": "client", "which": what, "found": format!("{r:?}"), "expected_connection": x.1, "limit_s": IDLE}));
                false
            }
        };
        if s > next {
            next += 11.0;
            if !expect(keep, "used every 11 s") {
                return;
            }
        }
        if s > 25.0 && !late_used {
            late_used = true;
            if !expect(late, "used after 25 s") {
                return;
            }
        }
        for x in lock(&w.seen).values() {
            if let Some(t) = x.closed {
                if x.last > began && t > t0 && (t - x.last).as_secs_f64() < IDLE * 0.97 {
                    c().violation("expired-too-early", json!({"level": "client", "idle_s": (t - x.last).as_secs_f64(), "limit_s": IDLE}));
                    return;
                }
            }
        }
        std::thread::sleep(Duration::from_millis(50));
    }
    let slack = c().stalled_since(t0).as_secs_f64();
    let left: Vec<f64> = lock(&w.seen).values().filter(|s| s.closed.is_none()).map(|s| s.last.elapsed().as_secs_f64()).filter(|s| *s > IDLE + LATE + slack).collect();
    if !left.is_empty() {
        c().violation("not-expired", json!({"level": "client", "limit_s": IDLE, "open": left.len(), "idle_s": left}));
        return;
    }
    let gone = lock(&w.seen).values().filter(|s| s.closed.map_or(false, |t| t > t0)).count();
    c().count("idle_connections_closed_in_time", gone as u64);
    drop(client);
    if let Err((more, _)) = w.settles(&[], 10) {
        c().violation("not-closed-on-drop", json!({"still_open": more.len()}));
    }
}

/// Many callers at once, then as many idle connections as allowed, then the drop.
fn client_contention(net: u8, per: usize) {
    let w = World::new(120, net);
    let client = Arc::new(Client::new());
    std::thread::scope(|s| {
        for t in 0..12 {
            let (w, client) = (&w, client.clone());
            s.spawn(move || {
                let mut rng = c().rng("client-contention", t + net as u64 * 100);
                for _ in 0..per {
                    let ms = if rng.chance(1, 20) { rng.below(5) as u64 } else { 0 };
                    if let Err(e) = w.call(&client, rng.below(120), ms) {
                        c().violation("call-failed", json!({"error": e}));
                        return;
                    }
                    c().count("concurrent_calls", 1);
                }
            });
        }
    });
    if c().violated() {
        return;
    }
    std::thread::sleep(Duration::from_millis(200));
    let open = w.open().len();
    c().max("idle_connections_after_contention", open as u64);
    if open > MAX {
        c().violation("too-many-idle-connections", json!({"open": open, "maximum": MAX}));
    }
    let mut per_addr: HashMap<usize, usize> = HashMap::new();
    for s in lock(&w.seen).values().filter(|s| s.closed.is_none()) {
        *per_addr.entry(s.addr).or_default() += 1;
    }
    c().eval(Some(("client-contention", net, per_addr.len())));
    // the client goes while one caller is waiting and one response is open
    let (c2, w2) = (client.clone(), &w);
    std::thread::scope(|s| {
        let h = s.spawn(move || {
            let r = w2.call(&c2, 5, 150);
            drop(c2);
            r
        });
        std::thread::sleep(Duration::from_millis(30));
        drop(client);
        match h.join() {
            Ok(Ok(_)) => (),
            r => c().violation("call-failed", json!({"why": "while the last handle but one of the client was dropped", "found": format!("{r:?}")})),
        }
    });
    if let Err((more, _)) = w.settles(&[], 10) {
        c().violation("not-closed-on-drop", json!({"still_open": more.len()}));
    }
    c().count("clients_dropped_with_idle_connections", 1);
}

/// The end of a client right after (or while) its thread starts.
fn drops(i: u64, rng: &mut Rng) {
    for _ in 0..40 {
        let us = *rng.pick(&[0, 0, 5, 20, 50, 100, 200, 400]);
        let spin = Instant::now();
        let t;
        if cfg!(not(wruster_verif)) || rng.chance(1, 2) {
            let x = Client::default();
            while spin.elapsed().as_micros() < us {}
            t = Instant::now();
            c().guard("drop of a client", 60, || drop(x));
        } else {
            #[cfg(wruster_verif)]
            let x: ConnectionPool<u8> = ConnectionPool::new(Some(Duration::from_millis(1)));
            #[cfg(not(wruster_verif))]
            let x = ();
            while spin.elapsed().as_micros() < us {}
            t = Instant::now();
            c().guard("drop of a pool", 60, || drop(x));
        }
        drop_time(t, "a pool that has just been created");
        c().count("early_drops", 1);
    }
    c().eval(Some(("drops", i)));
}

pub fn run() {
    c().rule("a case is distinct by its parameters and what happened in it (evictions, replacements), each predicted call counting as one");
    c().assume(&format!("the limits of the property are the client's constants: {MAX} connections, {IDLE} s; an idle connection may be closed up to {LATE} s late (the pool looks every 15 s)"));
    c().assume("the pool itself is reached through a guarded re-export; the client is used through its public interface");
    let slow: Vec<std::thread::JoinHandle<()>> = if scale().is_some() { vec![] } else { vec![
        std::thread::spawn(|| client_history(3, 260, true)),
        #[cfg(wruster_verif)]
        std::thread::spawn(|| expiry(1500, if c().quick() { 40 } else { 300 })),
        #[cfg(wruster_verif)]
        std::thread::spawn(|| expiry(9000, if c().quick() { 45 } else { 400 })),
        #[cfg(wruster_verif)]
        std::thread::spawn(|| expiry(16_000, if c().quick() { 48 } else { 400 })),
    ] };
    #[cfg(wruster_verif)]
    {
        par(3, c().n(300, 6000), "history", history);
        par(1, c().n(40, 800), "contention", contention);
    }
    #[cfg(not(wruster_verif))]
    c().assume("the pool itself could not be reached on this tree: it is observed through the client only");
    par(6, c().n(60, 3000), "drops", drops);
    for k in 0..c().n(2, 20) as u8 {
        client_history(10 + k, 500, false);
        client_contention(100 + k, 120);
        if c().stopped() {
            return;
        }
    }
    for h in slow {
        let _ = h.join();
    }
    if cfg!(wruster_verif) {
        require("pool_operations", 50_000);
        require("evictions", 500);
        require("replacements", 500);
        require("contended_gets", 5000);
        require("entries_used_within_the_limit", 100);
        require("entries_expired_or_replaced", 100);
    }
    require("connections_dropped_as_least_recently_used", 200);
    require("sets_of_idle_connections_compared", 50);
    require("connections_reused", 200);
    require("connections_used_within_the_limit", 4);
    require("idle_connections_closed_in_time", 90);
    require("concurrent_calls", 2000);
    require("early_drops", 2000);
    require("clients_dropped_with_idle_connections", 4);
}
