//! C16: the read timeout, against clients that pace their bytes in every way.
use crate::srv::*;
use crate::traffic::*;
use crate::util::*;
use crate::wire::*;
use serde_json::{json, Value};
use std::net::SocketAddr;
use std::sync::atomic::{AtomicBool, Ordering::SeqCst};
use std::sync::Mutex;
use std::time::{Duration, Instant};

const SLACK: f64 = 0.65;

/// How a client never completes its request.
const NEVER: [&str; 25] = [
    "silent", "part-of-line", "part-of-head", "head-but-one-byte", "trickle-head", "trickle-headers", "trickle-crlf", "trickle-method",
    "body-silent", "body-silent-unread", "body-trickle", "body-trickle-unread", "body-trickle-taken", "body-late-trickle", "body-but-one-byte", "body-flood",
    "second-silent", "second-part", "second-trickle", "pipelined-part", "pipelined-body-trickle", "half-then-half",
    "sends-on-after-close", "sends-on-after-400", "sends-much-after-close",
];
const NEVER_TLS: [&str; 4] = ["no-handshake", "hello-trickle", "hello-part", "handshake-unfinished"];

fn eof_until(cn: &mut Conn, limit: Instant) -> Option<Instant> {
    loop {
        match cn.fill(limit) {
            Ok(0) => return Some(Instant::now()),
            Ok(_) => cn.buf.clear(),
            Err(_) => return None,
        }
    }
}

/// Sends pieces every `every` until the connection ends; None when it is still open at the limit.
fn trickle(cn: &mut Conn, every: f64, limit: Instant, mut next: impl FnMut(usize) -> Vec<u8>) -> Option<Instant> {
    let mut i = 0;
    loop {
        if Instant::now() >= limit {
            return None;
        }
        if cn.send(&next(i)).is_err() {
            return Some(Instant::now());
        }
        i += 1;
        let until = (Instant::now() + Duration::from_secs_f64(every)).min(limit);
        match cn.fill(until) {
            Ok(0) => return Some(Instant::now()),
            Ok(_) => cn.buf.clear(),
            Err(_) => (),
        }
    }
}

/// The bytes of the first flight of a TLS client.
fn client_hello() -> Vec<u8> {
    let mut cc = rustls::ClientConnection::new(client_config(), "localhost".try_into().unwrap()).unwrap();
    let mut v = vec![];
    cc.write_tls(&mut v).unwrap();
    v
}

/// Runs one strategy; Ok(seconds the server waited) or what is wrong.
fn never(addr: SocketAddr, tls: bool, how: &str, t: f64, rng: &mut Rng) -> Result<(f64, Option<String>), Value> {
    let err = |m: String| json!({"strategy": how, "tls": tls, "read_timeout_s": t, "why": m});
    let plain = NEVER_TLS.contains(&how);
    let mut cn = (if plain { Conn::connect(addr) } else { Conn::open(addr, tls) }).map_err(|e| err(format!("connect: {e}")))?;
    let mut from = Instant::now();
    let hard = |from: Instant| from + Duration::from_secs_f64(t * 2.0 + SLACK + 3.0);
    let mut s = Spec::simple("never");
    let mut ran_id = Some(s.id.clone());
    let big = |read: &str| {
        let mut s = Spec::simple("never");
        s.method = "POST";
        s.read = read.into();
        s
    };
    let with_len = |s: &Spec, n: u64| {
        let mut h = s.head();
        h.truncate(h.len() - 2);
        h.extend_from_slice(format!("Content-Length: {n}\r\n\r\n").as_bytes());
        h
    };
    let mut send = |cn: &mut Conn, b: &[u8]| cn.send(b).map_err(|e| err(format!("send: {e}")));
    let end = match how {
        "silent" | "no-handshake" => {
            if how == "silent" && tls {
                // the handshake is done with the first flush
                send(&mut cn, b"")?;
                from = Instant::now();
            }
            eof_until(&mut cn, hard(from))
        }
        "hello-part" => {
            let h = client_hello();
            send(&mut cn, &h[..rng.range(1, h.len() - 1)])?;
            eof_until(&mut cn, hard(from))
        }
        "hello-trickle" => {
            let h = client_hello();
            trickle(&mut cn, t / 20.0, hard(from), |i| vec![h[i.min(h.len() - 1)]])
        }
        "handshake-unfinished" => {
            send(&mut cn, &client_hello())?;
            eof_until(&mut cn, hard(from))
        }
        "part-of-line" => {
            send(&mut cn, *rng.pick(&[&b"G"[..], b"GET", b"GET /", b"GET / HT", b"GET / HTTP/1.1"]))?;
            eof_until(&mut cn, hard(from))
        }
        "part-of-head" => {
            let h = s.head();
            send(&mut cn, &h[..rng.range(20, h.len() - 2)])?;
            eof_until(&mut cn, hard(from))
        }
        "head-but-one-byte" => {
            let h = s.head();
            send(&mut cn, &h[..h.len() - 1])?;
            eof_until(&mut cn, hard(from))
        }
        "trickle-method" => trickle(&mut cn, t / 7.0, hard(from), |i| b"OPTIONS /aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa"[i.min(25)..i.min(25) + 1].to_vec()),
        "trickle-head" => {
            s.extra.push(("X-Long".into(), "y".repeat(3000)));
            let h = s.head();
            trickle(&mut cn, t / 20.0, hard(from), |i| vec![h[i.min(h.len() - 3)]])
        }
        "trickle-headers" => {
            send(&mut cn, b"GET / HTTP/1.1\r\n")?;
            trickle(&mut cn, t / 5.0, hard(from), |i| format!("X-H{i}: {i}\r\n").into_bytes())
        }
        "trickle-crlf" => {
            ran_id = None;
            trickle(&mut cn, t / 9.0, hard(from), |_| b"\r\n".to_vec())
        }
        "body-silent" | "body-silent-unread" => {
            s = big(if how == "body-silent" { "all" } else { "none" });
            ran_id = None;
            let mut b = with_len(&s, 5000);
            b.extend_from_slice(b"some");
            send(&mut cn, &b)?;
            eof_until(&mut cn, hard(from))
        }
        "body-but-one-byte" => {
            s = big(rng.pick(&READS));
            ran_id = None;
            let mut b = with_len(&s, 5000);
            b.extend(vec![b'x'; 4999]);
            send(&mut cn, &b)?;
            eof_until(&mut cn, hard(from))
        }
        "body-trickle" | "body-trickle-unread" | "body-trickle-taken" => {
            s = big(match how {
                "body-trickle" => *rng.pick(&["all", "allcontent", "string", "echo"]),
                "body-trickle-taken" => "take",
                _ => "none",
            });
            ran_id = None;
            send(&mut cn, &with_len(&s, 5000))?;
            trickle(&mut cn, t / 15.0, hard(from), |_| b"x".to_vec())
        }
        "body-late-trickle" => {
            // most of the time goes with the head, the rest with the body
            s = big("all");
            ran_id = None;
            let h = with_len(&s, 5000);
            let cut = rng.range(1, h.len() - 1);
            send(&mut cn, &h[..cut])?;
            std::thread::sleep(Duration::from_secs_f64(t * 0.75));
            send(&mut cn, &h[cut..])?;
            trickle(&mut cn, t / 8.0, hard(from), |_| b"x".to_vec())
        }
        "body-flood" => {
            s = big(rng.pick(&["none", "all", "take"]));
            ran_id = None;
            // What the handler has read must not fill the memory: the flood goes at some MB/s.
            send(&mut cn, &with_len(&s, 1 << 60))?;
            let chunk = vec![b'x'; 65536];
            let limit = hard(from);
            loop {
                if Instant::now() > limit {
                    break None;
                }
                if cn.send(&chunk).is_err() {
                    break Some(Instant::now());
                }
                std::thread::sleep(Duration::from_millis(4));
            }
        }
        "second-silent" | "second-part" | "second-trickle" => {
            let n = rng.range(1, 3);
            for k in 0..n {
                let f = Spec::simple("first");
                send(&mut cn, &f.bytes())?;
                match cn.response(t + 20.0, false) {
                    Ok(r) if f.check(&r).is_ok() => (),
                    o => return Err(err(format!("first request {k}: {}", clip(&format!("{o:?}"), 200)))),
                }
                if k + 1 < n {
                    std::thread::sleep(Duration::from_secs_f64(t * 0.4));
                }
            }
            from = Instant::now();
            match how {
                "second-silent" => eof_until(&mut cn, hard(from)),
                "second-part" => {
                    let h = s.head();
                    std::thread::sleep(Duration::from_secs_f64(t * 0.5));
                    send(&mut cn, &h[..rng.range(1, h.len() - 1)])?;
                    eof_until(&mut cn, hard(from))
                }
                _ => {
                    let h = s.head();
                    trickle(&mut cn, t / 10.0, hard(from), |i| vec![h[i.min(h.len() - 3)]])
                }
            }
        }
        "pipelined-part" | "pipelined-body-trickle" => {
            let f = Spec::simple("first");
            let mut b = f.bytes();
            if how == "pipelined-part" {
                let h = s.head();
                b.extend_from_slice(&h[..rng.range(1, h.len() - 1)]);
            } else {
                s = big("all");
                ran_id = None;
                b.extend(with_len(&s, 300));
            }
            send(&mut cn, &b)?;
            match cn.response(t + 20.0, false) {
                Ok(r) if f.check(&r).is_ok() => (),
                o => return Err(err(format!("first request: {}", clip(&format!("{o:?}"), 200)))),
            }
            from = Instant::now();
            if how == "pipelined-part" {
                eof_until(&mut cn, hard(from))
            } else {
                trickle(&mut cn, t / 12.0, hard(from), |_| b"x".to_vec())
            }
        }
        "sends-on-after-close" | "sends-on-after-400" | "sends-much-after-close" => {
            // the connection is over for the server, but not for the client
            let mut f = Spec::simple("last");
            f.connection = Some("close");
            if how == "sends-on-after-400" {
                send(&mut cn, *rng.pick(&[&b"GET / HTTP/1.1\r\nbad header\r\n\r\n"[..], b"what / HTTP/1.1\r\n\r\n"]))?;
            } else {
                send(&mut cn, &f.bytes())?;
            }
            match cn.response(t + 20.0, false) {
                Ok(r) if r.status == 400 && how.ends_with("400") || f.check(&r).is_ok() => (),
                o => return Err(err(format!("last response: {}", clip(&format!("{o:?}"), 200)))),
            }
            from = Instant::now();
            let limit = hard(from);
            let (chunk, every) = if how == "sends-much-after-close" { (vec![b'x'; 20_000], 0.01) } else { (vec![b'x'], t / 20.0) };
            loop {
                if Instant::now() > limit {
                    break None;
                }
                if cn.send(&chunk).is_err() {
                    break Some(Instant::now());
                }
                std::thread::sleep(Duration::from_secs_f64(every));
            }
        }
        "half-then-half" => {
            // pauses, each shorter than the timeout
            let h = s.head();
            let limit = hard(from);
            trickle(&mut cn, t * 0.7, limit, |i| h[i * 20..(i + 1) * 20].to_vec())
        }
        _ => unreachable!("{how}"),
    };
    match end {
        Some(e) => Ok((e.duration_since(from).as_secs_f64(), ran_id)),
        None => Err(err(format!("still open after {:.1} s", from.elapsed().as_secs_f64()))),
    }
}

/// Runs `f`; a failure counts only when it is seen three times in a row, alone.
fn confirmed(sig: &str, serial: &Mutex<()>, mut f: impl FnMut() -> Result<(), Value>) {
    let mut last = match f() {
        Ok(()) => return,
        Err(d) => d,
    };
    for _ in 0..2 {
        let _one = lock(serial);
        c().count("timings_repeated", 1);
        let t = Instant::now();
        match f() {
            Ok(()) => return,
            Err(d) => last = d,
        }
        if c().stalled_since(t) > Duration::from_millis(400) {
            c().count("timings_dropped_sandbox_stalled", 1);
            return;
        }
    }
    c().violation(sig, last);
}

/// A complete request, paced so that it is complete after about `part` of the timeout, several times on one connection.
fn completes(addr: SocketAddr, tls: bool, t: f64, rng: &mut Rng) -> Result<(), Value> {
    let mut cn = Conn::open(addr, tls).map_err(|e| json!({"connect": e.to_string()}))?;
    let rounds = rng.range(2, 5);
    for round in 0..rounds {
        let mut s = Spec::random(rng, "slow", 3000, 5000);
        if s.read == "echo" {
            s.read = "all".into();
            s.resp = "str";
        }
        let mut what = *rng.pick(&["think", "trickle", "halves", "late-body", "slow-handler"]);
        if what == "late-body" && s.body.is_empty() {
            what = "halves";
        }
        let b = s.bytes();
        let budget = t * 0.5;
        let t0 = Instant::now();
        let mut send = |cn: &mut Conn, b: &[u8]| cn.send(b).map_err(|e| json!({"send": e.to_string(), "round": round, "paced": what, "after_s": t0.elapsed().as_secs_f64(), "read_timeout_s": t, "tls": tls}));
        let nap = |f: f64| std::thread::sleep(Duration::from_secs_f64(f));
        match what {
            "think" => {
                nap(budget);
                send(&mut cn, &b)?;
            }
            "trickle" => {
                let n = rng.range(4, 12);
                let step = b.len().div_ceil(n);
                for p in b.chunks(step) {
                    send(&mut cn, p)?;
                    nap(budget / n as f64);
                }
            }
            "halves" => {
                let cut = rng.range(1, b.len() - 1);
                send(&mut cn, &b[..cut])?;
                nap(budget);
                send(&mut cn, &b[cut..])?;
            }
            "late-body" => {
                let h = s.head().len();
                send(&mut cn, &b[..h])?;
                nap(budget);
                send(&mut cn, &b[h..])?;
            }
            _ => {
                // everything has arrived, the handler is what takes long
                s.delay_ms = (t * 1300.0) as u64;
                send(&mut cn, &s.bytes())?;
            }
        }
        let sent_after = t0.elapsed().as_secs_f64();
        match cn.response(t * 1.5 + 15.0, s.method == "HEAD") {
            Ok(r) => {
                s.check(&r).map_err(|(g, d)| json!({"sig": g, "detail": d, "paced": what, "read_timeout_s": t, "tls": tls}))?;
            }
            Err(e) if sent_after > t * 0.75 => {
                // the sandbox was too slow for this to mean anything
                c().count("paced_too_slowly", 1);
                let _ = e;
                return Ok(());
            }
            Err(e) => {
                return Err(json!({"why": "a request complete within the timeout was not answered", "got": format!("{e:?}"), "paced": what, "round": round,
                    "complete_after_s": sent_after, "read_timeout_s": t, "tls": tls, "request": s.brief()}))
            }
        }
        c().count("slow_but_in_time_answered", 1);
        c().eval(Some(("in-time", what, tls, (t * 1000.0) as u64, round, s.method)));
    }
    Ok(())
}

/// Waits that are long, but far from the timeouts: whatever else has a limit of some seconds must not end them.
fn long_waits(tls: bool, wait: f64, timeout: u64) {
    let (srv, _) = universal(tls, timeouts(timeout, timeout));
    std::thread::scope(|sc| {
        for how in ["silent", "between requests", "within the head", "within the body", "in the handler", "before taking the response", "while taking the response"] {
            let srv = &srv;
            sc.spawn(move || {
                let nap = |f: f64| std::thread::sleep(Duration::from_secs_f64(f));
                let r: Result<(), Value> = (|| {
                    let e = |what: &str, e: String| json!({"what": what, "error": e});
                    let mut cn = Conn::open(srv.addr, tls).map_err(|x| e("connect", x.to_string()))?;
                    let mut s = Spec::simple("long");
                    s.method = "POST";
                    s.body = payload("long", 5000);
                    s.read = "all".into();
                    if how == "between requests" {
                        cn.send(&s.bytes()).map_err(|x| e("send", x.to_string()))?;
                        s.check(&cn.response(20.0, false).map_err(|x| e("first", format!("{x:?}")))?).map_err(|x| x.1)?;
                    }
                    if how == "in the handler" {
                        s.delay_ms = (wait * 1000.0) as u64;
                    }
                    if how.ends_with("the response") {
                        s.resp = "content";
                        s.resp_len = 20_000_000;
                    }
                    let b = s.bytes();
                    let cut = match how {
                        "within the head" => 30,
                        "within the body" => b.len() - 100,
                        "silent" | "between requests" => 0,
                        _ => b.len(),
                    };
                    cn.send(&b[..cut]).map_err(|x| e("send", x.to_string()))?;
                    if how == "while taking the response" {
                        while cn.buf.len() < 1000 {
                            cn.fill_max(Instant::now() + Duration::from_secs(20), 2000).map_err(|x| e("part", format!("{x:?}")))?;
                        }
                    }
                    if how != "in the handler" {
                        nap(wait);
                    }
                    cn.send(&b[cut..]).map_err(|x| e("send", x.to_string()))?;
                    s.check(&cn.response(wait + 20.0, false).map_err(|x| e("response", format!("{x:?}")))?).map_err(|x| x.1)?;
                    Ok(())
                })();
                if let Err(d) = r {
                    c().violation("ended-before-its-time", json!({"waiting": how, "for_s": wait, "timeouts_ms": timeout, "tls": tls, "found": d}));
                }
                c().count("long_waits", 1);
                c().eval(Some(("long", how, tls, wait as u64)));
            });
        }
    });
    srv.stop();
}

fn scenario(tls: bool, t: f64, repeats: usize, good: usize) {
    let (srv, log) = universal(tls, timeouts((t * 1000.0) as u64, 30_000));
    let serial = Mutex::new(());
    let over = AtomicBool::new(false);
    let mut plan: Vec<&str> = vec![];
    for _ in 0..repeats {
        plan.extend(NEVER);
        if tls {
            plan.extend(NEVER_TLS);
        }
    }
    plan.truncate(92);
    std::thread::scope(|sc| {
        for (k, how) in plan.iter().enumerate() {
            let (srv, serial, log) = (&srv, &serial, &log);
            sc.spawn(move || {
                let mut rng = c().rng("never", k as u64 + (t * 1000.0) as u64 * 1000 + tls as u64);
                let tag = format!("{how}:{}", if tls { "tls" } else { "plain" });
                confirmed(&format!("not-closed-in-time:{tag}"), serial, || {
                    let t0 = Instant::now();
                    let (took, id) = never(srv.addr, tls, how, t, &mut rng)?;
                    let stall = c().stalled_since(t0).as_secs_f64();
                    c().max("closed_after_ms_over_the_timeout_at_most", ((took - t).max(0.0) * 1000.0) as u64);
                    if took > t + SLACK + 2.0 * stall {
                        return Err(json!({"strategy": how, "tls": tls, "read_timeout_s": t, "closed_after_s": took, "allowed_s": t + SLACK + 2.0 * stall}));
                    }
                    if let Some(id) = id {
                        if lock(&log.seen).contains_key(&id) {
                            c().violation("handler-ran-for-an-incomplete-head", json!({"strategy": how, "tls": tls}));
                        }
                    }
                    c().count("never_complete_closed", 1);
                    c().eval(Some(("never", *how, tls, (t * 1000.0) as u64)));
                    Ok(())
                });
            });
        }
        let goods: Vec<_> = (0..good)
            .map(|k| {
                let (srv, serial) = (&srv, &serial);
                sc.spawn(move || {
                    for r in 0..2 {
                        let mut rng = c().rng("in-time", k as u64 * 10 + r + (t * 1000.0) as u64 * 1000 + tls as u64);
                        confirmed(&format!("not-answered:{}", if tls { "tls" } else { "plain" }), serial, || completes(srv.addr, tls, t, &mut rng));
                    }
                })
            })
            .collect();
        for g in goods {
            let _ = g.join();
        }
        over.store(true, SeqCst);
    });
    if c().stopped() {
        return;
    }
    // All workers taken by clients that never finish: they are all free again after the timeout.
    let mut conns = vec![];
    let mut rng = c().rng("fill", tls as u64);
    let t0 = Instant::now();
    for k in 0..100 {
        if let Ok(mut cn) = if tls && k % 2 == 0 { Conn::connect(srv.addr) } else { Conn::open(srv.addr, tls && k % 4 == 1) } {
            if !tls {
                let h = Spec::simple("fill").head();
                cn.try_send(&h[..rng.below(h.len())]);
            }
            conns.push(cn);
        }
    }
    std::thread::sleep(Duration::from_secs_f64((t + 0.2 - t0.elapsed().as_secs_f64()).max(0.0)));
    if let Err(d) = capacity_probe(&srv, 100, (t + SLACK) as u64 + 8) {
        c().violation("workers-not-freed", json!({"tls": tls, "read_timeout_s": t, "found": d}));
    } else {
        c().count("capacity_checks", 1);
    }
    drop(conns);
    srv.stop_later();
}

/// Timeouts as long as they can be told: what arrives is answered as with any other.
fn endless(tls: bool) {
    let huge = [Duration::MAX, Duration::from_secs(i64::MAX as u64), Duration::from_secs(i64::MAX as u64 - 1_000_000), Duration::from_secs(1 << 53), Duration::from_secs(u64::from(u32::MAX)), Duration::from_millis(u64::from(u32::MAX) + 5), Duration::new(3_000_000, 999_999_999)];
    for t in huge {
        let (srv, _) = universal(tls, wruster::Timeouts { read_request_timeout: t, write_response_timeout: t });
        let r: Result<(), Value> = (|| {
            let mut cn = Conn::open(srv.addr, tls).map_err(|x| json!(x.to_string()))?;
            for i in 0..4 {
                let mut s = Spec::simple("endless");
                s.method = "POST";
                s.body = payload("endless", 3000);
                s.read = "all".into();
                s.resp = "content";
                s.resp_len = if i == 3 { 2_000_000 } else { 200 };
                let b = s.bytes();
                let cut = [0, 10, b.len() - 50, 30][i];
                cn.send(&b[..cut]).map_err(|x| json!(x.to_string()))?;
                std::thread::sleep(Duration::from_millis(60));
                cn.send(&b[cut..]).map_err(|x| json!(x.to_string()))?;
                if i == 3 {
                    std::thread::sleep(Duration::from_millis(200));
                }
                s.check(&cn.response(20.0, false).map_err(|x| json!(format!("{x:?}")))?).map_err(|x| x.1)?;
            }
            Ok(())
        })();
        c().eval(Some(("endless", tls, t.as_secs())));
        match r {
            Ok(()) => c().count("endless_timeouts", 1),
            Err(d) => c().violation("in-time-not-answered", json!({"timeouts": format!("{t:?}"), "tls": tls, "found": d})),
        }
        srv.stop();
    }
}

pub fn run() {
    c().rule("a case is distinct by the way the client paces its bytes, TLS, the timeout and the position of the request on its connection");
    c().assume("a connection counts as closed in time when the client sees its end at most 0.65 s (plus twice the time the sandbox was stalled) after the timeout, in one of three tries");
    c().assume("a request counts as well within the timeout when its last byte is sent before half of it");
    let quick = c().quick();
    std::thread::scope(|s| {
        s.spawn(|| scenario(false, 2.0, 3, 6));
        s.spawn(|| scenario(true, 2.0, 2, 6));
        s.spawn(|| scenario(false, 0.25, 1, 4));
        for tls in [false, true] {
            s.spawn(move || endless(tls));
            s.spawn(move || long_waits(tls, 12.5, 90_000));
            if !quick {
                s.spawn(move || long_waits(tls, 65.0, 200_000));
            }
        }
        {
            // the defaults: 30 s
            s.spawn(|| {
                let addr = fresh_addr();
                let mut server = wruster::Server::new();
                if server.run(&addr.to_string(), wruster::router::Router::new()).is_ok() {
                    if let Ok(mut cn) = Conn::connect(addr) {
                        let t0 = Instant::now();
                        let e = eof_until(&mut cn, t0 + Duration::from_secs(40));
                        let took = e.map(|e| e.duration_since(t0).as_secs_f64());
                        if !took.map_or(false, |s| s > 25.0 && s < 33.0) {
                            c().violation("default-read-timeout", json!({"documented_s": 30, "closed_after_s": took}));
                        }
                        c().count("default_timeout_seen", 1);
                    }
                    let _ = server.shutdown();
                }
            });
        }
    });
    if !quick {
        for round in 0..18 {
            if c().stopped() {
                break;
            }
            let t = [0.25, 0.9, 1.3, 3.1, 0.5, 5.0][round % 6];
            std::thread::scope(|s| {
                s.spawn(move || scenario(false, t, 3, 6));
                s.spawn(move || scenario(true, t, 3, 6));
            });
        }
    }
    require("never_complete_closed", 100);
    require("long_waits", 14);
    require("endless_timeouts", 14);
    require("slow_but_in_time_answered", 60);
    require("capacity_checks", 3);
}
