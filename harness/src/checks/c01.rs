//! C01: each request gets exactly its own response, once and in order.
use crate::srv::*;
use crate::traffic::*;
use crate::util::*;
use serde_json::json;
use std::collections::HashSet;
use std::sync::Mutex;

pub fn run() {
    let c = c();
    c.rule("a case is one connection with its sequence of requests (methods, targets, body sizes, how much of the body the handler reads, response kind and size, handler delay), pipelining depth and segmentation; non-trivial when it carries at least two requests and at least one is pipelined or has a body; counted distinct by the sequence of (method, body size class, read mode, response kind), depth and segmentation");
    c.assume("requests run at most 100 at a time, below the capacity of the server");
    for round in 0..c.n(14, 150) {
        if c.stopped() {
            break;
        }
        round_of(round, false);
    }
    if !c.stopped() {
        round_of(1000, true);
    }
    for round in 0..c.n(2, 30) {
        if c.stopped() {
            break;
        }
        beside_stuck_clients(round, round % 3 == 1);
    }
    require("responses_matched", 1000);
    require("pipelined_batches", 100);
    require("stuck_clients", 50);
}

fn round_of(round: usize, tls: bool) {
    let c = c();
    let (srv, log) = universal(tls, timeouts(30_000, 60_000));
    let expected = Mutex::new(HashSet::new());
    let maybe = Mutex::new(HashSet::new());
    let conns = if tls { 40 } else { c.n(120, 200) };
    let reset_close = [true, false][round % 2];
    par(if tls { 24 } else { 64 }, conns, &format!("c01-{round}-{tls}"), |i, rng| {
        if i % 9 == 8 {
            noise(&srv, rng, &maybe, reset_close);
            return;
        }
        let n = rng.range(1, 14);
        let depth = *rng.pick(&[1, 2, 4, 8, 14]);
        let seg = *rng.pick(&SEGS);
        let small = depth > 1 && (tls || rng.chance(2, 3));
        let (mb, mr) = if small { (6000, 6000) } else { (120_000, 120_000) };
        let mut specs: Vec<Spec> = (0..n)
            .map(|_| {
                let mut s = Spec::random(rng, "a", mb, mr);
                if rng.chance(1, 5) {
                    s.delay_ms = rng.range(1, 20) as u64;
                }
                s
            })
            .collect();
        // Requests that look alike except for their ids make swapped responses show only through the id.
        if rng.chance(1, 4) {
            for s in specs.iter_mut() {
                s.body = b"same".to_vec();
                s.method = "POST";
                s.read = "all".into();
                s.resp = "str";
                s.resp_len = 30;
            }
        }
        let closes = rng.chance(1, 2);
        if closes {
            specs.last_mut().unwrap().connection = Some("close");
        }
        lock(&expected).extend(specs.iter().map(|s| s.id.clone()));
        let mut conn = match srv.conn() {
            Ok(x) => x,
            Err(e) => return c.violation("cannot-connect", json!({"error": e.to_string()})),
        };
        let key: Vec<_> = specs.iter().map(|s| (s.method, s.body.len().min(3), s.read.split(':').next().unwrap().to_string(), s.resp)).collect();
        let interesting = n > 1 && (depth > 1 || specs.iter().any(|s| !s.body.is_empty()));
        c.eval(interesting.then_some((key, depth, seg)));
        let r = drive(&mut conn, &specs, depth, seg, rng, 20.0).and_then(|_| {
            c.count("responses_matched", n as u64);
            if depth > 1 {
                c.count("pipelined_batches", 1);
            }
            if closes {
                expect_end(&mut conn, 20.0)
            } else if rng.chance(1, 6) && !conn.quiet_for(30) {
                Err(("bytes-nobody-asked-for".into(), json!({"bytes": show(&conn.buf), "eof": conn.eof})))
            } else {
                Ok(())
            }
        });
        if let Err((sig, d)) = r {
            c.violation(&sig, json!({"round": round, "tls": tls, "case": i, "depth": depth, "seg": format!("{seg:?}"), "requests_on_connection": n, "detail": d}));
        } else if i < 2 {
            c.sample(json!({"tls": tls, "depth": depth, "seg": format!("{seg:?}"), "requests": specs.iter().take(4).map(|s| s.brief()).collect::<Vec<_>>()}));
        }
    });
    srv.stop();
    if !c.violated() {
        for (sig, d) in check_log(&log, &lock(&expected), &lock(&maybe)) {
            c.violation(&sig, json!({"round": round, "tls": tls, "detail": d}));
        }
    }
    c.count("handler_calls", log.calls.load(std::sync::atomic::Ordering::SeqCst));
    c.max("peak_concurrent_handlers", log.peak.load(std::sync::atomic::Ordering::SeqCst));
}

/// Clients that ask for many large responses and take none, so that writing them fails, and others that get theirs meanwhile and afterwards.
fn beside_stuck_clients(round: usize, tls: bool) {
    let c = c();
    let (srv, log) = universal(tls, timeouts(30_000, 500));
    let expected = Mutex::new(HashSet::new());
    let maybe = Mutex::new(HashSet::new());
    par(56, 40 + if tls { 60 } else { 300 }, &format!("c01-stuck-{round}"), |i, rng| {
        let Ok(mut conn) = srv.conn() else { return c.violation("cannot-connect", json!({"round": round})) };
        if i < 40 {
            let specs: Vec<Spec> = (0..rng.range(8, 14))
                .map(|_| {
                    let mut s = Spec::simple("stuck");
                    s.resp = *rng.pick(&["content", "str"]);
                    s.resp_len = *rng.pick(&[100_000, 700_000, 1_900_000, 1_900_000, 3_000_000]);
                    s
                })
                .collect();
            lock(&maybe).extend(specs.iter().map(|s| s.id.clone()));
            conn.try_send(&batch_bytes(&specs));
            std::thread::sleep(std::time::Duration::from_millis(rng.range(1500, 3500) as u64));
            if rng.chance(1, 2) {
                conn.abort();
            }
            c.count("stuck_clients", 1);
            return;
        }
        let n = rng.range(1, 8);
        let depth = *rng.pick(&[1, 1, 4]);
        let specs: Vec<Spec> = (0..n).map(|_| Spec::random(rng, "b", 2000, 3000)).collect();
        lock(&expected).extend(specs.iter().map(|s| s.id.clone()));
        c.eval(Some(("beside", i % 50, n, depth)));
        if i % 4 != 0 {
            std::thread::sleep(std::time::Duration::from_millis(rng.below(200) as u64));
        }
        if let Err((sig, d)) = drive(&mut conn, &specs, depth, Seg::Whole, rng, 20.0) {
            c.violation(&sig, json!({"beside_stuck_clients": true, "round": round, "tls": tls, "case": i, "depth": depth, "detail": d}));
        }
        c.count("responses_matched", n as u64);
    });
    srv.stop();
    if !c.violated() {
        for (sig, d) in check_log(&log, &lock(&expected), &lock(&maybe)) {
            c.violation(&sig, json!({"beside_stuck_clients": true, "round": round, "tls": tls, "detail": d}));
        }
    }
}

/// Connections that end badly: their requests may or may not run, but at most once, and nobody else notices.
fn noise(srv: &Running, rng: &mut Rng, maybe: &Mutex<HashSet<String>>, reset: bool) {
    let Ok(mut conn) = srv.conn() else { return };
    let specs: Vec<Spec> = (0..rng.range(1, 6)).map(|_| Spec::random(rng, "n", 30_000, 30_000)).collect();
    lock(maybe).extend(specs.iter().map(|s| s.id.clone()));
    let mut b = batch_bytes(&specs);
    match rng.below(3) {
        0 => b.truncate(rng.below(b.len())),
        1 => {
            let at = b.len() - rng.below(b.len().min(50));
            b.truncate(at);
            b.extend_from_slice(&rng.bytes(40));
        }
        _ => {}
    }
    conn.try_send(&b[..b.len().min(100_000)]);
    c().count("aborted_connections", 1);
    if rng.chance(1, 2) {
        let _ = conn.fill(std::time::Instant::now() + std::time::Duration::from_millis(rng.below(20) as u64));
    }
    if reset && rng.chance(1, 2) {
        conn.abort();
    }
}
