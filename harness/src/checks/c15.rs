//! C15: handlers that panic, at every moment of an exchange.
use crate::srv::*;
use crate::traffic::*;
use crate::util::*;
use crate::wire::*;
use serde_json::json;
use std::collections::HashSet;
use std::io::Read;
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};
use wruster::http::{Body, Request, Response, StatusCode};

/// When and how a handler panics.
const HOW: [&str; 9] = ["enter", "after-reading", "mid-reading", "end", "any", "string", "source-first", "source-middle", "source-late"];

struct Exploding {
    left: usize,
    at: usize,
}
impl Read for Exploding {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        if self.left <= self.at {
            panic!("{PLANNED}");
        }
        let n = b.len().min(self.left - self.at);
        b[..n].fill(b'x');
        self.left -= n;
        Ok(n)
    }
}

fn boom(how: &str) -> ! {
    match how {
        "any" => std::panic::panic_any(vec![1u8, 2, 3]),
        "string" => std::panic::panic_any(format!("{PLANNED} with a string")),
        _ => panic!("{PLANNED}"),
    }
}

fn server(tls: bool) -> (Running, VLog) {
    let log: VLog = Arc::new(Log { seen: Default::default(), calls: Default::default(), running: Default::default(), peak: Default::default() });
    let l = Arc::clone(&log);
    let s = start_all(tls, timeouts(60_000, 30_000), move |q: &mut Request| {
        let Some(how) = hdr(q, "X-Vpanic") else { return handle(&l, q) };
        if let Some(g) = hdr(q, "X-Vpgate") {
            gate(&g).wait(Duration::from_secs(60));
        }
        match how.as_str() {
            "mid-reading" => {
                if let Some(b) = q.body.as_mut() {
                    let mut t = [0; 3];
                    let _ = b.content.read(&mut t);
                }
                boom("")
            }
            "after-reading" => {
                if let Some(b) = q.body.as_mut() {
                    let _ = b.content.read_to_end(&mut vec![]);
                }
                boom("")
            }
            "end" => {
                let _r = handle(&l, q);
                boom("")
            }
            s if s.starts_with("source") => {
                let total = 300_000;
                let at = match s {
                    "source-first" => total,
                    "source-middle" => total / 2,
                    _ => 1,
                };
                Response { status: StatusCode::OK, headers: Default::default(), body: Some(Body::new(None, total as u64, Box::new(Exploding { left: total, at }))) }
            }
            how => boom(how),
        }
    });
    (s, log)
}

/// The connection of a panicking handler ends, and carries nothing but the answers before it and possibly its own.
fn dead_end(cn: &mut Conn, how: &str, head: bool) -> Result<(), serde_json::Value> {
    if let Err(e) = cn.until_eof(20.0) {
        return Err(json!({"why": "the connection was not closed", "got": format!("{e:?}"), "panics": how}));
    }
    let src = how.starts_with("source");
    let b = &cn.buf;
    let heads = b.windows(9).filter(|w| w == b"HTTP/1.1 ").count();
    if heads > 1 || b.windows(5).any(|w| w.eq_ignore_ascii_case(b"x-vid")) {
        return Err(json!({"why": "more than the response of the panicking handler", "got": show(b), "panics": how}));
    }
    if src && !head {
        // What was announced cannot be complete.
        if let Ok(Some((r, _))) = parse_response(b, head) {
            if r.status == 200 {
                return Err(json!({"why": "a complete 200 response from a source that panicked", "got": show(b), "panics": how}));
            }
        }
    } else if !src {
        if let Ok(Some((r, _))) = parse_response(b, head) {
            if r.status < 500 {
                return Err(json!({"why": "a success for a handler that panicked", "got": show(b), "panics": how}));
            }
        }
    }
    Ok(())
}

fn panicking(rng: &mut Rng) -> (Spec, &'static str) {
    let how = *rng.pick(&HOW);
    let mut s = Spec::random(rng, "boom", 20_000, 2000);
    s.extra.push(("X-Vpanic".into(), how.into()));
    s.connection = *rng.pick(&[None, None, Some("close"), Some("keep-alive")]);
    if how.starts_with("source") && s.method == "HEAD" {
        s.method = "GET";
    }
    (s, how)
}

/// Good requests, one that panics, and pipelined ones behind it.
fn conversation(srv: &Running, log: &VLog, tls: bool, i: u64, rng: &mut Rng, never: &Mutex<HashSet<String>>) {
    let mut cn = match srv.conn() {
        Ok(cn) => cn,
        Err(e) => {
            c().violation("cannot-connect", json!({"case": i, "error": e.to_string()}));
            return;
        }
    };
    let before: Vec<Spec> = (0..rng.below(4)).map(|_| Spec::random(rng, "pre", 3000, 3000)).collect();
    let (s, how) = panicking(rng);
    let behind: Vec<Spec> = (0..rng.below(3)).map(|_| Spec::random(rng, "behind", 300, 300)).collect();
    if let Err((sig, d)) = drive(&mut cn, &before, 3, Seg::Whole, rng, 30.0) {
        c().violation(&format!("before-the-panic:{sig}"), d);
        return;
    }
    for b in &behind {
        lock(never).insert(b.id.clone());
    }
    let mut bytes = s.bytes();
    bytes.extend(batch_bytes(&behind));
    // What is behind the panic may be cut by the close.
    cn.try_send(&bytes);
    c().count(&format!("panic:{how}"), 1);
    c().count("panics", 1);
    if let Err(d) = dead_end(&mut cn, how, s.method == "HEAD") {
        c().violation("after-the-panic", json!({"case": i, "tls": tls, "request": s.brief(), "before": before.len(), "pipelined_behind": behind.len(), "found": d}));
    }
    let _ = log;
    c().eval(Some((tls, how, before.len(), behind.len(), s.method, s.body.len().min(9000))));
}

/// All workers panic at the same moment while `others` connections wait in their handlers or are kept alive.
fn wave(srv: &Running, n: usize, others: usize, rng: &mut Rng) {
    let (pg, og) = (new_id("pg"), new_id("og"));
    let (pgate, ogate) = (gate(&pg), gate(&og));
    let mut held = vec![];
    for _ in 0..others {
        let mut s = Spec::simple("other");
        s.extra.push(("X-Vgate".into(), og.clone()));
        s.resp_len = rng.below(20_000);
        let Ok(mut cn) = srv.conn() else { continue };
        cn.try_send(&s.bytes());
        held.push((cn, s));
    }
    let mut bad = vec![];
    for _ in 0..n {
        let (mut s, how) = panicking(rng);
        s.extra.push(("X-Vpgate".into(), pg.clone()));
        let Ok(mut cn) = srv.conn() else { continue };
        cn.try_send(&s.bytes());
        bad.push((cn, s, how));
    }
    let t = Instant::now();
    while (pgate.inside() as usize) < n && t.elapsed() < Duration::from_secs(15) {
        std::thread::sleep(Duration::from_millis(2));
    }
    c().max("panics_at_the_same_moment", pgate.inside());
    if (pgate.inside() as usize) < n {
        c().violation("capacity-before-the-wave", json!({"wanted": n, "others": others, "in_handlers": pgate.inside(), "held": ogate.inside()}));
    }
    pgate.open();
    for (cn, s, how) in bad.iter_mut() {
        c().count("panics", 1);
        if let Err(d) = dead_end(cn, how, s.method == "HEAD") {
            c().violation("after-the-panic", json!({"wave_of": n, "request": s.brief(), "found": d}));
            return;
        }
    }
    if ogate.inside() as usize != others {
        c().violation("others-disturbed", json!({"in_service": ogate.inside(), "expected": others}));
    }
    ogate.open();
    for (cn, s) in held.iter_mut() {
        let r = cn.response(30.0, false);
        match &r {
            Ok(r) if s.check(r).is_ok() => c().count("others_served", 1),
            r => {
                c().violation("others-disturbed", json!({"request": s.brief(), "got": clip(&format!("{r:?}"), 400)}));
                return;
            }
        }
        // and go on on the same connection
        let s2 = Spec::simple("again");
        cn.try_send(&s2.bytes());
        if !matches!(cn.response(30.0, false), Ok(r) if s2.check(&r).is_ok()) {
            c().violation("others-disturbed", json!({"request": s2.brief(), "when": "the next request on the same connection"}));
            return;
        }
    }
    c().eval(Some(("wave", n, others)));
}

fn one_server(tls: bool, cases: usize, salt: &str) {
    let (mut srv, log) = server(tls);
    let never = Mutex::new(HashSet::new());
    let beside = good_clients(srv.addr, tls, 2, 30.0);
    par(6, cases, salt, |i, rng| conversation(&srv, &log, tls, i, rng, &never));
    let good = beside.end();
    c().count("good_requests_beside", good);
    if c().stopped() {
        return;
    }
    let check = |when: &str| {
        if let Err(d) = capacity_probe(&srv, 100, 40) {
            c().violation("capacity-lost", json!({"when": when, "tls": tls, "panics_so_far": c().get("panics"), "found": d}));
            return false;
        }
        c().count("capacity_checks", 1);
        true
    };
    if !check("after many panics") {
        return;
    }
    let mut rng = c().rng(salt, 9999);
    for (n, others) in if c().quick() { vec![(40, 50), (100, 0)] } else { vec![(8, 0), (40, 50), (92, 8), (100, 0), (1, 99), (100, 0), (60, 30)] } {
        wave(&srv, n, others, &mut rng);
        if c().stopped() || !check("after a wave of panics") {
            return;
        }
    }
    let seen = lock(&log.seen);
    for id in lock(&never).iter() {
        if seen.contains_key(id) {
            c().violation("handler-ran-behind-a-panic", json!({"id": id, "tls": tls}));
            break;
        }
    }
    drop(seen);
    // Panics while shutting down.
    let (pg, og) = (new_id("pg"), new_id("og"));
    let mut bad = vec![];
    for _ in 0..5 {
        let (mut s, how) = panicking(&mut rng);
        s.extra.push(("X-Vpgate".into(), pg.clone()));
        if let Ok(mut cn) = srv.conn() {
            cn.try_send(&s.bytes());
            bad.push((cn, s, how));
        }
    }
    let mut other = Spec::simple("last");
    other.extra.push(("X-Vgate".into(), og.clone()));
    other.resp_len = 50_000;
    let mut ocn = srv.conn().ok();
    if let Some(cn) = ocn.as_mut() {
        cn.try_send(&other.bytes());
    }
    let t = Instant::now();
    while (gate(&pg).inside() < 5 || gate(&og).inside() < 1) && t.elapsed() < Duration::from_secs(10) {
        std::thread::sleep(Duration::from_millis(2));
    }
    let addr = srv.addr;
    let server = srv.take();
    let (tx, rx) = std::sync::mpsc::channel();
    std::thread::spawn(move || {
        let _ = tx.send(shutdown_in(server, 60));
    });
    std::thread::sleep(Duration::from_millis(50));
    gate(&pg).open();
    for (cn, s, how) in bad.iter_mut() {
        if let Err(d) = dead_end(cn, how, s.method == "HEAD") {
            c().violation("after-the-panic", json!({"during": "shutdown", "request": s.brief(), "found": d}));
        }
    }
    gate(&og).open();
    if let Some(mut cn) = ocn {
        match cn.response(20.0, false) {
            Ok(r) if other.check(&r).is_ok() => c().count("others_served", 1),
            r => c().violation("others-disturbed", json!({"during": "shutdown", "got": clip(&format!("{r:?}"), 400)})),
        }
    }
    match rx.recv_timeout(Duration::from_secs(70)) {
        Ok(Some(Ok(()))) => c().count("shutdowns", 1),
        o => c().violation("shutdown-after-panics", json!({"tls": tls, "got": format!("{o:?}")})),
    }
    if std::net::TcpListener::bind(addr).is_err() {
        c().violation("port-still-taken", json!({"addr": addr.to_string()}));
    }
}

/// A handler that panics on the only connection there is, again and again, and then nothing but good requests.
fn little_servers(_: u64, rng: &mut Rng) {
    let calls = Arc::new(AtomicU64::new(0));
    let k = Arc::clone(&calls);
    let every = rng.range(1, 4) as u64;
    let tls = rng.chance(1, 3);
    let mut srv = start_all(tls, timeouts(20_000, 20_000), move |q: &mut Request| {
        let n = k.fetch_add(1, SeqCst);
        if n % every == 0 {
            panic!("{PLANNED}");
        }
        let _ = q;
        Response::from_status(StatusCode::OK)
    });
    let n = rng.range(5, 60);
    for i in 0..n {
        let t = Instant::now();
        let Ok(mut cn) = srv.conn() else {
            c().violation("cannot-connect", json!({"request": i, "panics_every": every}));
            return;
        };
        cn.try_send(b"GET / HTTP/1.1\r\nConnection: close\r\n\r\n");
        let _ = cn.until_eof(20.0);
        let ok = matches!(parse_response(&cn.buf, false), Ok(Some((r, _))) if r.status == 200);
        let should = (i as u64) % every != 0;
        if ok != should || t.elapsed() > Duration::from_secs(15) {
            c().violation("sequence-of-panics", json!({"request": i, "panics_every": every, "expected_answer": should, "got": show(&cn.buf), "took_s": t.elapsed().as_secs_f64()}));
            return;
        }
        c().count(if should { "good_after_a_panic" } else { "panics" }, 1);
    }
    match srv.shutdown_in(40) {
        Some(Ok(())) => c().count("shutdowns", 1),
        o => c().violation("shutdown-after-panics", json!({"tls": tls, "got": format!("{o:?}")})),
    }
    c().eval(Some(("little", every, tls, n)));
}

pub fn run() {
    c().rule("a case is distinct by TLS, moment and kind of the panic, number of requests before and behind it, method and body size; waves by their sizes");
    c().assume("a panicking handler unwinds (panic=unwind)");
    one_server(false, c().n(1500, 8000), "plain");
    if !c().stopped() {
        one_server(true, c().n(500, 3000), "tls");
    }
    par(4, c().n(80, 600), "little", little_servers);
    require("panics", 700);
    require("capacity_checks", 6);
    require("others_served", 50);
    require("shutdowns", 10);
    require("good_requests_beside", 50);
    for h in HOW {
        require(&format!("panic:{h}"), 10);
    }
}
