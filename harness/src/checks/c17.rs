//! C17: the write timeout, against clients that take the response slowly or not at all.
use crate::srv::*;
use crate::traffic::*;
use crate::util::*;
use crate::wire::*;
use serde_json::{json, Value};
use std::collections::HashMap;
use std::io::Read;
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};
use wruster::http::headers::Header;
use wruster::http::{Body, Request, Response, StatusCode};

const SLACK: f64 = 0.8;

/// Knows which response sources are still held by the server, and for how long each was.
#[derive(Default)]
struct Sources {
    live: Mutex<HashMap<String, Instant>>,
    done: Mutex<HashMap<String, (f64, u64)>>,
}
/// The response body: position-dependent bytes, optionally slow to produce.
struct Source {
    id: String,
    len: u64,
    pos: u64,
    block: Vec<u8>,
    pause: Option<(u64, Duration)>,
    mon: Arc<Sources>,
}
fn block(id: &str) -> Vec<u8> {
    payload(id, 65521)
}
impl Read for Source {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        if let Some((every, d)) = self.pause {
            if self.pos / every != (self.pos + b.len() as u64) / every {
                std::thread::sleep(d);
            }
        }
        let at = (self.pos % self.block.len() as u64) as usize;
        let n = b.len().min(self.block.len() - at).min((self.len - self.pos) as usize);
        b[..n].copy_from_slice(&self.block[at..at + n]);
        self.pos += n as u64;
        Ok(n)
    }
}
impl Drop for Source {
    fn drop(&mut self) {
        if let Some(t) = lock(&self.mon.live).remove(&self.id) {
            lock(&self.mon.done).insert(self.id.clone(), (t.elapsed().as_secs_f64(), self.pos));
        }
    }
}

fn server(tls: bool, w: f64, small: bool) -> (Running, Arc<Sources>) {
    let mon: Arc<Sources> = Default::default();
    let m = Arc::clone(&mon);
    let log: VLog = Arc::new(Log { seen: Default::default(), calls: Default::default(), running: Default::default(), peak: Default::default() });
    let mut s = start_all(tls, timeouts(60_000, (w * 1000.0) as u64), move |q: &mut Request| {
        let Some(len) = hdr(q, "X-Vlen").and_then(|l| l.parse::<u64>().ok()) else { return handle(&log, q) };
        let id = hdr(q, "X-Vid").unwrap_or_default();
        let pause = hdr(q, "X-Vpause").and_then(|p| p.split_once(':').map(|(a, b)| (a.parse().unwrap_or(1), Duration::from_millis(b.parse().unwrap_or(0)))));
        lock(&m.live).insert(id.clone(), Instant::now());
        let src = Source { id: id.clone(), len, pos: 0, block: block(&id), pause, mon: Arc::clone(&m) };
        let mut r = Response { status: StatusCode::OK, headers: Default::default(), body: Some(Body::new(None, len, Box::new(src))) };
        r.headers.add(Header { name: "X-Vid".into(), value: id });
        if let Some(n) = hdr(q, "X-Vhead").and_then(|n| n.parse::<usize>().ok()) {
            r.headers.add(Header { name: "X-Large".into(), value: "h".repeat(n) });
        }
        r
    });
    s.small = small && small_send_buffers(s.addr, 5_000);
    if s.small {
        c().count("servers_with_small_send_buffers", 1);
    }
    (s, mon)
}

fn ask(id: &str, len: u64, more: &str) -> Vec<u8> {
    format!("GET /big HTTP/1.1\r\nX-Vid: {id}\r\nX-Vlen: {len}\r\n{more}\r\n").into_bytes()
}

/// Checks the bytes of one response as they come, without keeping them.
struct Sink {
    id: String,
    len: u64,
    block: Vec<u8>,
    head: Option<()>,
    got: u64,
    /// where to go on looking for the end of the head
    scanned: usize,
}
impl Sink {
    fn new(id: &str, len: u64) -> Sink {
        Sink { id: id.into(), len, block: block(id), head: None, got: 0, scanned: 0 }
    }
    /// Consumes from the connection's buffer; Ok(true) when the response is complete.
    fn eat(&mut self, cn: &mut Conn) -> Result<bool, Value> {
        if self.head.is_none() {
            let Some(e) = cn.buf[self.scanned..].windows(4).position(|w| w == b"\r\n\r\n") else {
                self.scanned = cn.buf.len().saturating_sub(3);
                return Ok(false);
            };
            let e = e + self.scanned;
            let head = String::from_utf8_lossy(&cn.buf[..e]).to_string();
            let l = head.to_ascii_lowercase();
            if !head.starts_with("HTTP/1.1 200") || !l.contains(&format!("content-length: {}", self.len)) || !l.contains(&format!("x-vid: {}", self.id)) {
                return Err(json!({"why": "wrong head", "head": clip(&head, 300), "id": self.id}));
            }
            cn.buf.drain(..e + 4);
            self.head = Some(());
        }
        let n = (cn.buf.len() as u64).min(self.len - self.got) as usize;
        for (i, b) in cn.buf[..n].iter().enumerate() {
            let want = self.block[((self.got + i as u64) % self.block.len() as u64) as usize];
            if *b != want {
                return Err(json!({"why": "wrong byte", "at": self.got + i as u64, "id": self.id}));
            }
        }
        cn.buf.drain(..n);
        self.got += n as u64;
        Ok(self.got == self.len)
    }
}

const STUCK: [&str; 12] = ["large-head", "pipelined-tiny", "never-reads", "few-bytes", "chunk-now-and-then", "stops-half-way", "never-reads-but-sends", "pipelined-large", "pipelined-small", "second-response", "drip-all-the-time", "at-the-buffer"];

/// A client that does not take its response; checks how long the server holds on to it.
fn stuck(srv: &Running, mon: &Arc<Sources>, how: &str, w: f64, rng: &mut Rng) -> Result<(), Value> {
    let tls = srv.tls;
    let err = |m: String| json!({"client": how, "tls": tls, "write_timeout_s": w, "why": m});
    let cn = if srv.small { Conn::open_narrow(srv.addr, tls) } else { srv.conn() };
    let mut cn = cn.map_err(|e| err(format!("connect: {e}")))?;
    if !srv.small {
        set_buf(&cn.sock, true, 150_000);
    }
    let t0 = Instant::now();
    let mut ids = vec![];
    let mut one = |len: u64| {
        let id = new_id("stuck");
        ids.push(id.clone());
        (id.clone(), ask(&id, len, ""), len)
    };
    let big = 40_000_000 + rng.below(1000) as u64;
    let mut sink = None;
    match how {
        "pipelined-large" => {
            let mut b = vec![];
            for _ in 0..30 {
                b.extend(one(1_500_000).1);
            }
            cn.try_send(&b);
        }
        "pipelined-small" => {
            // small responses until the connection is full
            cn.sock.set_nonblocking(false).ok();
            let mut b = vec![];
            for _ in 0..400 {
                b.extend(one(40_000).1);
            }
            cn.try_send(&b);
        }
        "pipelined-tiny" => {
            // each response is one write, what may wait is its flush
            let mut b = vec![];
            for _ in 0..600 {
                b.extend(one(8_000).1);
            }
            cn.try_send(&b);
        }
        "second-response" => {
            let (id, b, len) = one(300_000);
            cn.try_send(&b);
            let mut k = Sink::new(&id, len);
            while !k.eat(&mut cn)? {
                if cn.fill(Instant::now() + Duration::from_secs(20)).map_err(|e| err(format!("first response: {e:?}")))? == 0 {
                    return Err(err("first response cut".into()));
                }
            }
            cn.try_send(&one(big).1);
        }
        "at-the-buffer" => {
            // sizes at which the server changes its way of writing
            let len = *rng.pick(&[(2 << 20) - 1, 2 << 20, (2 << 20) + 1, 6 << 20]) as u64;
            let mut b = vec![];
            for _ in 0..8 {
                b.extend(one(len).1);
            }
            cn.try_send(&b);
        }
        "large-head" => {
            // taken at a steady pace that is too slow: neither part alone needs the whole timeout
            let (id, _, len) = one(12_000_000);
            cn.try_send(&ask(&id, len, "X-Vhead: 12000000\r\n"));
            sink = Some(Sink::new(&id, len));
        }
        _ => {
            let (id, b, len) = one(big);
            cn.try_send(&b);
            sink = Some(Sink::new(&id, len));
        }
    }
    let hard = Instant::now() + Duration::from_secs_f64(w * 2.0 + SLACK + 3.0);
    let all_gone = |ids: &[String]| ids.iter().all(|i| !lock(&mon.live).contains_key(i));
    let started = |ids: &[String]| ids.iter().any(|i| lock(&mon.live).contains_key(i) || lock(&mon.done).contains_key(i));
    let s = Instant::now();
    while !started(&ids) && s.elapsed() < Duration::from_secs(10) {
        std::thread::sleep(Duration::from_millis(2));
    }
    if !started(&ids) {
        return Err(err("the request was not handled".into()));
    }
    let mut half = 0;
    let begun = Instant::now();
    loop {
        std::thread::sleep(Duration::from_millis(10));
        if all_gone(&ids) && (sink.is_some() || Instant::now() >= hard || {
            // for pipelines: nothing new is started for a while
            std::thread::sleep(Duration::from_millis(300));
            all_gone(&ids)
        }) {
            break;
        }
        if Instant::now() > hard {
            break;
        }
        match how {
            "few-bytes" => {
                let _ = cn.fill_max(Instant::now() + Duration::from_millis(40), 7);
            }
            "drip-all-the-time" => {
                let _ = cn.fill_max(Instant::now() + Duration::from_millis(1), 3000);
            }
            "chunk-now-and-then" => {
                std::thread::sleep(Duration::from_secs_f64(w * 0.35));
                for _ in 0..30 {
                    let _ = cn.fill_max(Instant::now() + Duration::from_millis(1), 4096);
                }
            }
            "large-head" => {
                let due = (24e6 * begun.elapsed().as_secs_f64() / (1.6 * w)) as usize;
                while cn.received < due && !cn.eof && cn.fill_max(Instant::now() + Duration::from_millis(5), (due - cn.received).min(65536)).is_ok() {}
            }
            "stops-half-way" if half < 300 => {
                half += 1;
                for _ in 0..20 {
                    let _ = cn.fill_max(Instant::now() + Duration::from_millis(1), 4096);
                }
            }
            "never-reads-but-sends" => {
                let _ = cn.sock.set_nonblocking(true);
                if !tls {
                    use std::io::Write;
                    let _ = (&cn.sock).write(b"GET /v HTTP/1.1\r\nX-Vid: behind\r\n\r\n");
                }
                let _ = cn.sock.set_nonblocking(false);
            }
            _ => (),
        }
        if let Some(k) = sink.as_mut() {
            k.eat(&mut cn)?;
        }
    }
    let stall = c().stalled_since(t0).as_secs_f64();
    let done = lock(&mon.done);
    let live = lock(&mon.live);
    let mut worst: f64 = 0.0;
    for i in &ids {
        let held = done.get(i).map(|d| d.0).or(live.get(i).map(|t| t.elapsed().as_secs_f64()));
        if let Some(h) = held {
            worst = worst.max(h);
        }
    }
    let still = ids.iter().filter(|i| live.contains_key(*i)).count();
    drop((done, live));
    // Reading slowly counts from the moment the server has something it cannot write.
    let extra = if how == "stops-half-way" { 0.6 } else { 0.0 };
    c().max("held_ms_over_the_timeout_at_most", ((worst - w).max(0.0) * 1000.0) as u64);
    if still > 0 || worst > w + SLACK + extra + 2.0 * stall {
        return Err(json!({"client": how, "tls": tls, "write_timeout_s": w, "a_response_was_held_for_s": worst, "still_held": still, "allowed_s": w + SLACK + extra + 2.0 * stall}));
    }
    if worst > w * 0.7 {
        c().count("stuck_until_the_timeout", 1);
    }
    // What comes now is the rest of what was written, a true prefix, and the end of the connection.
    let end = Instant::now() + Duration::from_secs(20);
    let total: u64 = ids.iter().filter_map(|i| lock(&mon.done).get(i).map(|d| d.1)).sum();
    if let Some(k) = sink.as_mut() {
        loop {
            let _ = set_buf(&cn.sock, true, 1 << 20);
            match cn.fill(end) {
                Ok(0) => break,
                Ok(_) => {
                    k.eat(&mut cn)?;
                }
                Err(e) => return Err(err(format!("the connection was not closed: {e:?}"))),
            }
        }
        if k.got == k.len {
            return Err(err("a response not taken in time was complete in the end".into()));
        }
    } else {
        loop {
            match cn.fill(end) {
                Ok(0) => break,
                Ok(_) => cn.buf.clear(),
                Err(e) => return Err(err(format!("the connection was not closed: {e:?}"))),
            }
        }
    }
    let _ = total;
    c().count("stuck_clients_closed", 1);
    c().eval(Some(("stuck", how, tls, (w * 1000.0) as u64)));
    Ok(())
}

/// A client that takes its responses fast enough, one after the other on one connection.
fn takes(srv: &Running, w: f64, rng: &mut Rng) -> Result<(), Value> {
    let tls = srv.tls;
    let mut cn = srv.conn().map_err(|e| json!({"connect": e.to_string()}))?;
    for round in 0..rng.range(2, 4) {
        let how = *rng.pick(&["late-start", "pauses", "steady", "slow-source", "small-window", "early-stop-late-end"]);
        let len = match how {
            "slow-source" => 400_000,
            _ => *rng.pick(&[100_000, (2 << 20) - 1, (2 << 20) + 1, 5_000_000, 20_000_000]) + rng.below(100) as u64,
        };
        let id = new_id("takes");
        let more = if how == "slow-source" { format!("X-Vpause: 50000:{}\r\n", (w * 1000.0 / 5.0) as u64) } else { String::new() };
        if how == "small-window" {
            set_buf(&cn.sock, true, 30_000);
        }
        let t0 = Instant::now();
        cn.send(&ask(&id, len, &more)).map_err(|e| json!({"send": e.to_string(), "round": round}))?;
        let nap = |f: f64| std::thread::sleep(Duration::from_secs_f64(f * w));
        if how == "late-start" {
            nap(0.45);
        }
        let mut k = Sink::new(&id, len);
        let mut paused = 0;
        let deadline = Instant::now() + Duration::from_secs_f64(w * 3.0 + 20.0);
        loop {
            if k.eat(&mut cn)? {
                break;
            }
            if how == "pauses" && paused < 5 && k.got > len * paused / 6 {
                paused += 1;
                nap(0.08);
            }
            if how == "early-stop-late-end" && paused == 0 && k.got > len / 2 {
                paused = 1;
                nap(0.4);
            }
            match cn.fill(deadline) {
                Ok(0) => {
                    let took = t0.elapsed().as_secs_f64();
                    if took > w * 0.8 && how != "slow-source" {
                        c().count("taken_too_slowly_by_this_sandbox", 1);
                        return Ok(());
                    }
                    return Err(json!({"why": "the response was cut although the client was reading", "client": how, "tls": tls, "write_timeout_s": w, "after_s": took, "got": k.got, "of": len, "round": round}));
                }
                Ok(_) => (),
                Err(e) => return Err(json!({"why": "the response did not come", "client": how, "tls": tls, "write_timeout_s": w, "got": k.got, "of": len, "round": round, "error": format!("{e:?}")})),
            }
        }
        c().count("responses_taken_in_time", 1);
        c().count("bytes_taken_in_time", len);
        c().eval(Some(("takes", how, tls, (w * 1000.0) as u64, round)));
        // the time between responses is not the server's to count
        if rng.chance(1, 2) {
            nap(0.6);
        }
    }
    Ok(())
}

fn confirmed(sig: &str, serial: &Mutex<()>, mut f: impl FnMut() -> Result<(), Value>) {
    let mut last = match f() {
        Ok(()) => return,
        Err(d) => d,
    };
    for _ in 0..2 {
        let _one = lock(serial);
        c().count("timings_repeated", 1);
        let t = Instant::now();
        match f() {
            Ok(()) => return,
            Err(d) => last = d,
        }
        if c().stalled_since(t) > Duration::from_millis(400) {
            c().count("timings_dropped_sandbox_stalled", 1);
            return;
        }
    }
    c().violation(sig, last);
}

fn scenario(tls: bool, w: f64, repeats: usize, good: usize, small: bool) {
    let (srv, mon) = server(tls, w, small);
    let serial = Mutex::new(());
    let beside = good_clients(srv.addr, tls, 1, 30.0);
    std::thread::scope(|sc| {
        for r in 0..repeats {
            for (k, how) in STUCK.iter().enumerate() {
                let (srv, mon, serial) = (&srv, &mon, &serial);
                sc.spawn(move || {
                    let mut rng = c().rng("stuck", (k + 100 * r) as u64 + (w * 1000.0) as u64 * 1000 + tls as u64);
                    let tag = format!("{how}:{}", if tls { "tls" } else { "plain" });
                    confirmed(&format!("not-given-up-in-time:{tag}"), serial, || stuck(srv, mon, how, w, &mut rng));
                });
            }
        }
        for k in 0..good {
            let (srv, serial) = (&srv, &serial);
            sc.spawn(move || {
                let mut rng = c().rng("takes", k as u64 + (w * 1000.0) as u64 * 1000 + tls as u64);
                confirmed(&format!("cut-although-reading:{}", if tls { "tls" } else { "plain" }), serial, || takes(srv, w, &mut rng));
            });
        }
    });
    c().count("good_requests_beside", beside.end());
    if c().stopped() {
        return;
    }
    // Every worker stuck with a client that does not read.
    let mut conns = vec![];
    for _ in 0..100 {
        if let Ok(mut cn) = srv.conn() {
            set_buf(&cn.sock, true, 150_000);
            cn.try_send(&ask(&new_id("fill"), 30_000_000, ""));
            conns.push(cn);
        }
    }
    std::thread::sleep(Duration::from_secs_f64(0.3));
    c().max("stuck_at_the_same_time", lock(&mon.live).len() as u64);
    std::thread::sleep(Duration::from_secs_f64(w));
    if let Err(d) = capacity_probe(&srv, 100, (w + SLACK) as u64 + 10) {
        c().violation("workers-not-freed", json!({"tls": tls, "write_timeout_s": w, "found": d}));
    } else {
        c().count("capacity_checks", 1);
    }
    drop(conns);
    srv.stop_later();
}

pub fn run() {
    c().rule("a case is distinct by the way the client takes or does not take the response, TLS, the timeout and the position of the response on its connection");
    c().assume("the server gave up in time when it released the source of the response at most 0.8 s (plus twice the time the sandbox was stalled) after the timeout, in one of three tries");
    c().assume("a client is fast enough when it has taken the response within 0.8 of the timeout; the time the source itself needs is not the client's");
    let quick = c().quick();
    std::thread::scope(|s| {
        s.spawn(|| scenario(false, 2.5, 1, 4, false));
        s.spawn(|| scenario(true, 2.5, 1, 4, false));
    });
    std::thread::scope(|s| {
        s.spawn(|| scenario(false, 1.6, 1, 2, true));
        s.spawn(|| scenario(true, 1.6, 1, 2, true));
    });
    if !quick {
        for round in 0..14 {
            if c().stopped() {
                break;
            }
            let t = [0.9, 1.5, 4.0, 2.2][round % 4];
            std::thread::scope(|s| {
                s.spawn(move || scenario(false, t, 2, 6, round % 3 == 2));
                s.spawn(move || scenario(true, t, 2, 6, round % 3 == 1));
            });
        }
    } else {
        scenario(false, 0.3, 1, 0, false);
    }
    require("stuck_clients_closed", 20);
    require("stuck_until_the_timeout", 12);
    require("responses_taken_in_time", 12);
    require("stuck_at_the_same_time", 90);
    require("capacity_checks", 3);
}
