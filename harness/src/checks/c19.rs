//! C19: what is left of connections after they have ended.
use crate::srv::*;
use crate::util::*;
use crate::wire::*;
use serde_json::json;
use std::collections::BTreeMap;
use std::io::{Read, Write};
use std::net::SocketAddr;
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::sync::Arc;
use std::time::{Duration, Instant};
use wruster::http::{Body, Request, Response, StatusCode};

const IDLE: f64 = 10.0;

/// Open descriptors by kind.
fn fds() -> BTreeMap<String, usize> {
    let mut m = BTreeMap::new();
    if let Ok(d) = std::fs::read_dir("/proc/self/fd") {
        for e in d.flatten() {
            let t = std::fs::read_link(e.path()).map(|p| p.to_string_lossy().to_string()).unwrap_or_default();
            let kind = if t.starts_with("socket:") {
                "socket"
            } else if t.contains("eventpoll") {
                "eventpoll"
            } else if t.contains("eventfd") {
                "eventfd"
            } else if t.contains("timerfd") {
                "timerfd"
            } else if t.starts_with("pipe:") {
                "pipe"
            } else {
                continue;
            };
            *m.entry(kind.to_string()).or_default() += 1;
        }
    }
    m
}
fn over(now: &BTreeMap<String, usize>, base: &BTreeMap<String, usize>) -> Option<String> {
    let more: Vec<String> = now.iter().filter(|(k, v)| **v > base.get(*k).copied().unwrap_or(0)).map(|(k, v)| format!("{k}: {} instead of {}", v, base.get(k).copied().unwrap_or(0))).collect();
    (!more.is_empty()).then(|| more.join(", "))
}
fn threads() -> usize {
    std::fs::read_dir("/proc/self/task").map(|d| d.count()).unwrap_or(0)
}
/// Until the threads that start at the beginning have started.
fn settle() {
    let start = Instant::now();
    let (mut n, mut since) = (threads(), Instant::now());
    while since.elapsed() < Duration::from_millis(300) + 4 * c().stalled_since(since) && start.elapsed() < Duration::from_secs(15) {
        std::thread::sleep(Duration::from_millis(20));
        let now = threads();
        if now != n {
            (n, since) = (now, Instant::now());
        }
    }
}
fn wait_for(secs: f64, f: impl Fn() -> bool) -> bool {
    let t = Instant::now();
    while !f() {
        if t.elapsed().as_secs_f64() > secs + 2.0 * c().stalled_since(t).as_secs_f64() {
            return f();
        }
        std::thread::sleep(Duration::from_millis(20));
    }
    true
}

/// The server with a handler that leaves nothing behind itself.
fn server(tls: bool) -> (Running, Arc<AtomicU64>) {
    let calls = Arc::new(AtomicU64::new(0));
    let k = Arc::clone(&calls);
    let s = start_all(tls, timeouts(700, 700), move |q: &mut Request| {
        k.fetch_add(1, SeqCst);
        match hdr(q, "X-Do").as_deref() {
            Some("panic") => panic!("{PLANNED}"),
            Some("read") => {
                let mut v = vec![];
                if let Some(b) = q.body.as_mut() {
                    let _ = std::io::Read::read_to_end(&mut b.content, &mut v);
                }
                Response::from_content(std::io::Cursor::new(v.clone()), v.len() as u64, mime::TEXT_PLAIN)
            }
            Some("big") => Response { status: StatusCode::OK, headers: Default::default(), body: Some(Body::new(None, 60_000_000, Box::new(std::io::repeat(b'x')))) },
            Some("short") => Response { status: StatusCode::OK, headers: Default::default(), body: Some(Body::new(None, 1000, Box::new(std::io::Cursor::new(vec![1u8; 10])))) },
            Some("take") => {
                drop(q.body.take());
                Response::from_status(StatusCode::OK)
            }
            Some("sleep") => {
                std::thread::sleep(Duration::from_millis(150));
                Response::from_status(StatusCode::OK)
            }
            _ => Response::from_status(StatusCode::OK),
        }
    });
    (s, calls)
}

/// (name, connections of it per round in quick, only over TLS)
const WAYS: [(&str, usize, bool); 20] = [
    ("close", 400, false), ("keep-alive-then-close", 250, false), ("http10", 150, false), ("pipelined", 150, false),
    ("body-read", 200, false), ("body-unread", 150, false), ("body-taken", 150, false), ("malformed", 300, false), ("ambiguous-length", 150, false),
    ("connect-close", 400, false), ("half-request-close", 250, false), ("half-request-reset", 250, false), ("half-closed", 150, false),
    ("reset-before-response", 150, false), ("short-source", 150, false), ("panic", 200, false), ("read-timeout", 60, false), ("write-timeout", 12, false),
    ("garbage-handshake", 200, true), ("abandoned-handshake", 200, true),
];

fn one(addr: SocketAddr, tls: bool, way: &str, rng: &mut Rng) -> Option<()> {
    let plain = way.ends_with("-handshake");
    let mut cn = (if plain { Conn::connect(addr) } else { Conn::open(addr, tls) }).ok()?;
    let req = |what: &str, more: &str| format!("POST /x HTTP/1.1\r\nX-Do: {what}\r\n{more}\r\n").into_bytes();
    let ask = |cn: &mut Conn, what: &str, more: &str| -> Option<Resp> {
        cn.try_send(&req(what, more));
        cn.response(20.0, false).ok()
    };
    match way {
        "close" => {
            ask(&mut cn, "", "Connection: close\r\n")?;
        }
        "keep-alive-then-close" => {
            for _ in 0..rng.range(1, 6) {
                ask(&mut cn, "", "")?;
            }
        }
        "http10" => {
            cn.try_send(b"GET / HTTP/1.0\r\n\r\n");
            cn.response(20.0, false).ok()?;
        }
        "pipelined" => {
            let mut b = vec![];
            for _ in 0..8 {
                b.extend(req("", ""));
            }
            cn.try_send(&b);
            for _ in 0..rng.range(1, 8) {
                cn.response(20.0, false).ok()?;
            }
        }
        "body-read" | "body-unread" | "body-taken" => {
            let n = rng.range(1, 60_000);
            let mut b = req(match way { "body-read" => "read", "body-taken" => "take", _ => "" }, &format!("Content-Length: {n}\r\n"));
            b.extend(vec![b'b'; n]);
            cn.try_send(&b);
            cn.response(20.0, false).ok()?;
        }
        "malformed" => {
            cn.try_send(b"NOT A REQUEST\r\nat all\r\n\r\n");
            let _ = cn.until_eof(20.0);
        }
        "ambiguous-length" => {
            cn.try_send(&req("", "Transfer-Encoding: chunked\r\n"));
            let _ = cn.until_eof(20.0);
        }
        "connect-close" => (),
        "half-request-close" | "half-request-reset" => {
            let b = req("", "");
            cn.try_send(&b[..rng.range(1, b.len() - 1)]);
            if way.ends_with("reset") {
                std::thread::sleep(Duration::from_micros(rng.below(2000) as u64));
                cn.abort();
            }
        }
        "half-closed" => {
            cn.try_send(&req("", ""));
            cn.half_close();
            let _ = cn.until_eof(20.0);
        }
        "reset-before-response" => {
            cn.try_send(&req("sleep", ""));
            std::thread::sleep(Duration::from_millis(rng.below(20) as u64));
            cn.abort();
        }
        "short-source" => {
            cn.try_send(&req("short", ""));
            let _ = cn.until_eof(20.0);
        }
        "panic" => {
            cn.try_send(&req("panic", ""));
            let _ = cn.until_eof(20.0);
        }
        "read-timeout" => {
            cn.try_send(&req("", "")[..rng.range(0, 10)]);
            let _ = cn.until_eof(20.0);
        }
        "write-timeout" => {
            set_buf(&cn.sock, true, 100_000);
            cn.try_send(&req("big", ""));
            std::thread::sleep(Duration::from_millis(1100));
        }
        "garbage-handshake" => {
            let _ = (&cn.sock).write(&rng.clone().bytes(200));
            let _ = cn.until_eof(20.0);
        }
        "abandoned-handshake" => {
            let mut cc = rustls::ClientConnection::new(client_config(), "localhost".try_into().unwrap()).ok()?;
            let mut v = vec![];
            cc.write_tls(&mut v).ok()?;
            let _ = (&cn.sock).write(&v[..rng.range(1, v.len())]);
            if rng.chance(1, 2) {
                cn.abort();
            }
        }
        _ => unreachable!(),
    }
    Some(())
}

/// More connections than the server takes.
fn overload(srv: &Running) {
    let mut conns = vec![];
    for _ in 0..130 {
        if let Ok(mut cn) = srv.conn() {
            cn.try_send(b"GET / HTTP/1.1\r\nX-Do: sleep\r\n\r\n");
            conns.push(cn);
        }
    }
    c().max("worker_threads_seen", threads() as u64);
    for cn in conns.iter_mut() {
        if matches!(cn.response(20.0, false), Ok(r) if r.status == 503) {
            c().count("refused", 1);
        }
    }
}

fn round(srv: &Running, scale: usize, salt: u64, measure: bool, fd_base: &BTreeMap<String, usize>) {
    for (k, (way, n, only_tls)) in WAYS.iter().enumerate() {
        if *only_tls && !srv.tls || c().violated() {
            continue;
        }
        let n = (n * scale / if srv.tls { 3 } else { 1 }).max(10);
        par(if way.ends_with("timeout") { 30 } else { 8 }, n, &format!("{way}:{salt}:{}", srv.tls), |_, rng| {
            if one(srv.addr, srv.tls, way, rng).is_none() {
                c().count("exchanges_not_completed", 1);
            }
        });
        c().count("connections", n as u64);
        c().count(&format!("way:{way}"), n as u64);
        if measure {
            // Everything of these connections is closed again, in the time the timeouts allow.
            if !wait_for(9.0, || over(&fds(), fd_base).is_none()) {
                c().violation("descriptors-left", json!({"connections_ended_by": way, "tls": srv.tls, "how_many": n, "left": over(&fds(), fd_base)}));
                return;
            }
            c().eval(Some((way, srv.tls, k)));
        }
    }
    overload(srv);
    if measure && !wait_for(9.0, || over(&fds(), fd_base).is_none()) {
        c().violation("descriptors-left", json!({"connections_ended_by": "refusal under overload", "tls": srv.tls, "left": over(&fds(), fd_base)}));
    }
    c().eval(Some(("overload", srv.tls, 0)));
}

/// Waits for the extra workers to end; violation when they do not.
fn workers_end(base: usize, when: &str) -> bool {
    let peak = threads();
    if !wait_for(IDLE + 6.0, || threads() <= base) {
        c().violation("worker-threads-left", json!({"when": when, "threads": threads(), "before": base, "at_the_peak": peak, "waited_s": IDLE + 6.0}));
        return false;
    }
    c().count("idle_workers_seen_ending", (peak.saturating_sub(base)) as u64);
    true
}

/// Memory of one kept-alive connection over many requests, and of a large body.
fn one_connection(srv: &Running) {
    let Ok(mut cn) = srv.conn() else { return };
    let mut go = |n: usize| -> bool {
        for k in 0..n {
            let b: &[u8] = match k % 3 {
                0 => b"GET /a?x=1 HTTP/1.1\r\nX-A: b\r\n\r\n",
                1 => b"POST /b HTTP/1.1\r\nContent-Length: 5\r\n\r\nhello",
                _ => b"POST /c HTTP/1.1\r\nX-Do: read\r\nContent-Length: 5\r\n\r\nhello",
            };
            if !cn.try_send(b) || cn.response(20.0, false).is_err() {
                return false;
            }
        }
        true
    };
    if !go(500) {
        c().violation("exchange-failed", json!({"what": "500 requests on one connection", "tls": srv.tls}));
        return;
    }
    let before = live_bytes();
    let n = c().n(66_000, 140_000);
    let t = std::time::Instant::now();
    let ok = go(n);
    c().max(&format!("ms_for_the_requests_on_one_connection:{}", if srv.tls { "tls" } else { "plain" }), t.elapsed().as_millis() as u64);
    if !ok {
        c().violation("exchange-failed", json!({"what": "many requests on one connection", "tls": srv.tls}));
        return;
    }
    let grown = live_bytes() - before;
    c().max(&format!("heap_growth_on_one_connection_bytes:{}", if srv.tls { "tls" } else { "plain" }), grown.max(0) as u64);
    c().count("requests_on_one_connection", n as u64);
    if grown > 40_000 {
        c().violation("memory-grows-with-requests", json!({"requests": n, "grown_bytes": grown, "tls": srv.tls}));
    }
    // A large body nobody reads is not kept.
    let len = 100_000_000usize;
    cn.try_send(format!("POST /d HTTP/1.1\r\nContent-Length: {len}\r\n\r\n").as_bytes());
    let before = live_bytes();
    let chunk = vec![b'x'; 1 << 20];
    let mut left = len;
    let mut peak = 0;
    while left > 0 {
        let k = left.min(chunk.len());
        if !cn.try_send(&chunk[..k]) {
            break;
        }
        left -= k;
        peak = peak.max(live_bytes() - before);
    }
    let ok = cn.response(20.0, false).is_ok();
    c().max("heap_for_a_body_of_100_mb_bytes", peak.max(0) as u64);
    if peak > 30_000_000 {
        c().violation("memory-grows-with-the-body", json!({"body": len, "peak_bytes": peak, "tls": srv.tls}));
    }
    let _ = ok;
}

/// Both servers, one after the other within each round, so that they share the waits for the idle workers.
fn whole(scale: usize, rounds: usize) {
    let fd0 = fds();
    let mut srvs = [server(false), server(true)];
    settle();
    let base_threads = threads();
    let fd_base = fds();
    for (srv, _) in &srvs {
        round(srv, 1, 0, false, &fd_base);
    }
    if !workers_end(base_threads, "after the first round") {
        return;
    }
    if !wait_for(10.0, || over(&fds(), &fd_base).is_none()) {
        c().violation("descriptors-left", json!({"connections_ended_by": "everything", "left": over(&fds(), &fd_base)}));
        return;
    }
    let mut last = live_bytes();
    for r in 0..rounds {
        let conns0 = c().get("connections");
        let calls0: u64 = srvs.iter().map(|s| s.1.load(SeqCst)).sum();
        for (srv, _) in &srvs {
            round(srv, scale, 1 + r as u64, true, &fd_base);
        }
        if c().violated() || !workers_end(base_threads, "after a round of connections of every kind") {
            return;
        }
        let now = live_bytes();
        let n = c().get("connections") - conns0;
        let grown = now - last;
        c().max("heap_growth_over_a_round_bytes", grown.max(0) as u64);
        c().max("connections_in_a_round_at_least", n);
        c().count("handler_calls", srvs.iter().map(|s| s.1.load(SeqCst)).sum::<u64>() - calls0);
        if grown > 30_000 + n as i64 {
            c().violation("memory-grows-with-connections", json!({"connections": n, "grown_bytes": grown, "per_connection": grown as f64 / n as f64}));
            return;
        }
        last = now;
    }
    for (srv, _) in &mut srvs {
        one_connection(srv);
        let addr = srv.addr;
        match srv.shutdown_in(40) {
            Some(Ok(())) => (),
            o => c().violation("shutdown", json!({"got": format!("{o:?}"), "addr": addr.to_string()})),
        }
    }
    if !wait_for(8.0, || over(&fds(), &fd0).is_none()) {
        c().violation("descriptors-left", json!({"connections_ended_by": "shutdown of the server", "left": over(&fds(), &fd0)}));
    }
}

/// Many short connections at the same time: what the server keeps of each would add up.
fn churn() {
    let srv = start_all(false, timeouts(5_000, 5_000), |_| Response::from_status(StatusCode::OK));
    let go = |n: usize| {
        std::thread::scope(|s| {
            for _ in 0..16 {
                s.spawn(|| {
                    for _ in 0..n {
                        let Ok(mut sock) = std::net::TcpStream::connect(srv.addr) else { continue };
                        let _ = sock.set_read_timeout(Some(Duration::from_secs(10)));
                        let _ = sock.write_all(b"GET / HTTP/1.1\r\nConnection: close\r\n\r\n");
                        let mut b = [0; 200];
                        let mut got = 0;
                        while let Ok(k) = sock.read(&mut b) {
                            if k == 0 {
                                break;
                            }
                            got += k;
                        }
                        if got > 30 {
                            c().count("connections_of_the_churn", 1);
                        }
                    }
                });
            }
        });
        std::thread::sleep(Duration::from_millis(500));
        live_bytes()
    };
    go(100);
    let mut last = go(300);
    let n = c().n(2000, 12_000);
    let mut grown = 0;
    // what is not kept does not grow twice
    for _ in 0..2 {
        let now = go(n);
        grown = now - last;
        last = now;
        if grown <= 12_000 {
            break;
        }
    }
    c().max("heap_growth_over_the_churn_bytes", grown.max(0) as u64);
    if grown > 12_000 {
        c().violation("memory-grows-with-connections", json!({"what": "short connections at the same time", "connections": 16 * n, "grown_bytes": grown}));
    }
    srv.stop();
}

pub fn run() {
    c().rule("a case is distinct by the way its connections end and TLS; descriptors are compared after each, heap and threads after each round");
    c().assume("the heap is counted by the allocator of the process, which also holds the clients; growth below 30 kB + 1 byte per connection per round is noise");
    let before = threads();
    let heap = live_bytes();
    let (scale, rounds) = if c().quick() { (2, 1) } else { (6, 6) };
    churn();
    whole(scale, rounds);
    if !c().violated() {
        if !wait_for(10.0, || threads() <= before) {
            c().violation("worker-threads-left", json!({"when": "after shutdown", "threads": threads(), "before": before}));
        }
        c().max("heap_growth_over_two_servers_bytes", (live_bytes() - heap).max(0) as u64);
    }
    for (w, _, _) in WAYS {
        require(&format!("way:{w}"), 10);
    }
    require("connections_of_the_churn", 10_000);
    require("connections", 5000);
    require("idle_workers_seen_ending", 100);
    require("refused", 10);
    require("requests_on_one_connection", 130_000);
}
