//! C18: shutting down with connections in every state.
use crate::srv::*;
use crate::traffic::*;
use crate::util::*;
use crate::wire::*;
use serde_json::{json, Value};
use std::collections::HashMap;
use std::io::Read;
use std::net::{SocketAddr, TcpListener, TcpStream};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::sync::{mpsc, Arc, Mutex};
use std::time::{Duration, Instant};
use wruster::http::Request;

/// When each handler started and ended.
#[derive(Default)]
struct Times {
    start: Mutex<HashMap<String, Instant>>,
    end: Mutex<HashMap<String, Instant>>,
    running: AtomicU64,
}
struct Done(Arc<Times>, String);
impl Drop for Done {
    fn drop(&mut self) {
        lock(&self.0.end).insert(self.1.clone(), Instant::now());
        self.0.running.fetch_sub(1, SeqCst);
    }
}

fn server(tls: bool, read_ms: u64) -> (Running, VLog, Arc<Times>) {
    let log: VLog = Arc::new(Log { seen: Default::default(), calls: Default::default(), running: Default::default(), peak: Default::default() });
    let times: Arc<Times> = Default::default();
    let (l, t) = (Arc::clone(&log), Arc::clone(&times));
    let s = start_all(tls, timeouts(read_ms, 30_000), move |q: &mut Request| {
        let id = hdr(q, "X-Vid").unwrap_or_default();
        t.running.fetch_add(1, SeqCst);
        lock(&t.start).insert(id.clone(), Instant::now());
        let _d = Done(Arc::clone(&t), id);
        handle(&l, q)
    });
    (s, log, times)
}

const STATES: [&str; 14] = ["new", "idle-kept", "part-of-head", "part-of-line", "gated", "gated-large", "gated-body", "gated-pipelined", "gated-close", "lingering", "half-closed", "slow-reader", "gated-flood", "being-written"];

struct Cl {
    cn: Conn,
    state: &'static str,
    /// in its handler when the shutdown starts: must be answered
    must: Option<Spec>,
    /// what it sends after the shutdown started
    rest: Vec<u8>,
    behind: Vec<Spec>,
    stays: bool,
    pause_ms: u64,
}

fn open(srv: &Running, state: &'static str, gname: &str, rng: &mut Rng) -> Result<Cl, Value> {
    let mut cn = if state == "being-written" { Conn::open_narrow(srv.addr, srv.tls) } else { srv.conn() }.map_err(|e| json!({"connect": e.to_string()}))?;
    let (mut must, mut rest, mut behind) = (None, vec![], vec![]);
    let mut gated = |rng: &mut Rng| {
        let mut s = Spec::simple("gated");
        s.extra.push(("X-Vgate".into(), gname.to_string()));
        s.resp_len = rng.below(5000);
        s
    };
    match state {
        "new" => {
            if srv.tls && rng.chance(1, 2) {
                cn.try_send(b"");
            }
        }
        "idle-kept" | "lingering" | "half-closed" => {
            let n = rng.range(1, 3);
            for k in 0..n {
                let mut s = Spec::random(rng, "idle", 2000, 2000);
                if k + 1 == n && state != "idle-kept" {
                    s.connection = Some("close");
                    s.version = "HTTP/1.1";
                }
                cn.try_send(&s.bytes());
                match cn.response(20.0, s.method == "HEAD") {
                    Ok(r) if s.check(&r).is_ok() => (),
                    o => return Err(json!({"before_the_shutdown": clip(&format!("{o:?}"), 200)})),
                }
            }
        }
        "part-of-head" => {
            let h = Spec::simple("part").head();
            cn.try_send(&h[..rng.range(17, h.len() - 1)]);
        }
        "part-of-line" => {
            cn.try_send(&b"GET /v HT"[..rng.range(1, 9)]);
        }
        "gated" | "gated-close" | "gated-large" | "slow-reader" => {
            let mut s = gated(rng);
            if state == "gated-close" {
                s.connection = Some("close");
            }
            if state == "gated-large" || state == "slow-reader" {
                s.resp = *rng.pick(&["str", "content", "body"]);
                s.resp_len = rng.range(100_000, 4_000_000);
            }
            cn.try_send(&s.bytes());
            must = Some(s);
        }
        "gated-body" => {
            // the handler reads what is sent only after the shutdown has begun
            let mut s = gated(rng);
            s.body = body_bytes(rng, 60_000);
            s.read = rng.pick(&["all", "none", "allcontent", "take", "echo"]).to_string();
            if s.read == "echo" {
                s.resp = "echo";
            }
            let b = s.bytes();
            let h = s.head().len();
            let cut = rng.range(h, b.len());
            cn.try_send(&b[..cut]);
            rest = b[cut..].to_vec();
            must = Some(s);
        }
        "being-written" => {
            // the handler is done, its response is on the way: more of it than fits into the buffers in between
            let mut s = Spec::simple("written");
            s.resp = *rng.pick(&["str", "content", "body"]);
            s.resp_len = if srv.small { rng.range(300_000, 1_000_000) } else { rng.range(4_500_000, 6_000_000) };
            if rng.chance(1, 4) {
                s.connection = Some("close");
            }
            cn.try_send(&s.bytes());
            while cn.buf.len() < 300 {
                match cn.fill_max(Instant::now() + Duration::from_secs(20), 400) {
                    Ok(n) if n > 0 => (),
                    o => return Err(json!({"before_the_shutdown": clip(&format!("{o:?}"), 200)})),
                }
            }
            must = Some(s);
        }
        "gated-pipelined" | "gated-flood" => {
            let mut s = gated(rng);
            s.resp_len = rng.range(100, 300_000);
            let n = if state == "gated-flood" { rng.range(200, 1500) } else { rng.range(1, 20) };
            let mut b = s.bytes();
            for _ in 0..n {
                let p = Spec::simple("behind");
                b.extend(p.bytes());
                behind.push(p);
            }
            cn.try_send(&b);
            must = Some(s);
        }
        _ => unreachable!(),
    }
    let stays = rng.chance(1, 150);
    Ok(Cl { cn, state, must, rest, behind, stays, pause_ms: rng.range(1, 300) as u64 })
}

fn case(i: u64, rng: &mut Rng) {
    let tls = rng.chance(1, 3);
    let read_ms = *rng.pick(&[60_000, 60_000, 20_000]);
    let (mut srv, log, times) = server(tls, read_ms);
    let gname = new_id("stop");
    let g = gate(&gname);
    let full = rng.chance(1, 12);
    let n = if full { 100 } else { rng.below(30) };
    let mut clients = vec![];
    let (mut gated, mut written) = (0, 0);
    // In many cases, connections that came and went before the ones that are there at the shutdown.
    let churn = !full && rng.chance(2, 3);
    let mut gone: Vec<Conn> = vec![];
    for k in 0..n {
        if churn && rng.chance(1, 2) {
            for _ in 0..rng.range(1, 3) {
                let s = Spec::simple("gone");
                let Ok(mut cn) = srv.conn() else { continue };
                cn.try_send(&s.bytes());
                let _ = cn.response(20.0, false);
                gone.push(cn);
            }
        }
        if churn && (k == n / 2 || rng.chance(1, 8)) && !gone.is_empty() {
            c().count("connections_gone_before_the_shutdown", gone.len() as u64);
            rng.shuffle(&mut gone);
            gone.truncate(if k == n / 2 { 0 } else { gone.len() / 2 });
            std::thread::sleep(Duration::from_millis(30));
        }
        let state = if full { *rng.pick(&["gated", "idle-kept", "part-of-head"]) } else { *rng.pick(&STATES) };
        match open(&srv, state, &gname, rng) {
            Ok(cl) => {
                gated += (cl.must.is_some() && cl.state != "being-written") as u64;
                written += (cl.state == "being-written") as u64;
                clients.push(cl);
            }
            Err(d) => {
                c().violation("before-the-shutdown", json!({"case": i, "state": state, "found": d}));
                return;
            }
        }
    }
    let detail = |why: &str, more: Value| {
        let mut states: HashMap<&str, usize> = HashMap::new();
        // the states that were there say what the shutdown had to deal with
        *states.entry("connections").or_default() = n;
        json!({"case": i, "why": why, "tls": tls, "connections": n, "in_handlers": gated, "found": more})
    };
    let t = Instant::now();
    while g.inside() < gated && t.elapsed() < Duration::from_secs(15) {
        std::thread::sleep(Duration::from_millis(1));
    }
    if g.inside() < gated {
        c().violation("before-the-shutdown", detail("not all requests reached their handler", json!({"reached": g.inside()})));
        return;
    }
    drop(gone);
    let addr = srv.addr;
    // more connections than the server takes, and a storm of new ones
    let mut extra = vec![];
    if full {
        for _ in 0..rng.range(1, 12) {
            if let Ok(cn) = Conn::connect(addr) {
                extra.push(cn);
            }
        }
        std::thread::sleep(Duration::from_millis(30));
    }
    let storm = rng.chance(1, 3);
    let stop_storm = Arc::new(AtomicBool::new(false));
    let storms: Vec<_> = (0..if storm { 3 } else { 0 })
        .map(|k| {
            let stop = Arc::clone(&stop_storm);
            let mut rng = Rng::new(rng.next(), "storm", k);
            std::thread::spawn(move || stormer(addr, tls, stop, &mut rng))
        })
        .collect();
    if storm {
        std::thread::sleep(Duration::from_millis(rng.below(30) as u64));
    }
    // The shutdown.
    let server = srv.take();
    let called = Instant::now();
    let (tx, rx) = mpsc::channel();
    std::thread::spawn(move || {
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| server.shutdown().map_err(|e| e.to_string())));
        let _ = tx.send((r.unwrap_or_else(|_| Err("shutdown panicked".into())), Instant::now()));
    });
    let hold = Duration::from_millis(rng.range(5, 120) as u64);
    let mut returned = None;
    if gated > 0 {
        // It does not return while handlers run.
        if let Ok((r, _)) = rx.recv_timeout(hold) {
            c().violation("returned-while-handlers-run", detail("shutdown returned although handlers were running", json!({"running": times.running.load(SeqCst), "result": format!("{r:?}")})));
            g.open();
            return;
        }
        c().count("seen_waiting_for_handlers", 1);
        // Idle and silent connections need not wait for the handlers to be closed; the request bodies go on.
        for cl in clients.iter_mut() {
            let rest = std::mem::take(&mut cl.rest);
            if !rest.is_empty() {
                for p in rest.chunks(rest.len().div_ceil(3)) {
                    if cl.cn.send(p).is_err() {
                        c().violation("exchange-interrupted", detail("the body of a request in progress is no longer taken", json!({"state": cl.state})));
                    }
                }
            }
        }
        g.open();
    }
    let released = Instant::now();
    // All clients read to the end at the same time.
    let results: Mutex<Vec<(usize, Result<(), (String, Value)>)>> = Mutex::new(vec![]);
    std::thread::scope(|s| {
        for (k, cl) in clients.iter_mut().enumerate() {
            let (results, times, log) = (&results, &times, &log);
            s.spawn(move || {
                let r = finish_client(cl, called, times, log);
                lock(results).push((k, r));
            });
        }
        for cn in extra.iter_mut() {
            s.spawn(move || {
                if cn.until_eof(20.0).is_err() {
                    c().violation("connection-left-open", json!({"case": i, "state": "beyond the capacity", "tls": tls}));
                }
            });
        }
        match rx.recv_timeout(Duration::from_secs(30)) {
            Ok((Ok(()), at)) => returned = Some(at),
            Ok((Err(e), _)) => c().violation("shutdown-failed", detail("shutdown returned an error", json!(e))),
            Err(_) => c().violation("shutdown-hangs", detail("shutdown did not return in 30 s after the handlers were released", json!({"running": times.running.load(SeqCst)}))),
        }
        if let Some(at) = returned {
            let running = times.running.load(SeqCst);
            let calls = log.calls.load(SeqCst);
            if running != 0 {
                c().violation("handler-running-after-shutdown", detail("a handler runs after shutdown returned", json!({"running": running})));
            }
            match TcpListener::bind(addr) {
                Ok(_) => (),
                Err(e) => c().violation("port-still-taken", detail("the address cannot be bound again", json!(e.to_string()))),
            }
            let started_later = lock(&times.start).iter().filter(|(_, t)| **t > at).count();
            std::thread::sleep(Duration::from_millis(15));
            if log.calls.load(SeqCst) != calls || started_later > 0 {
                c().violation("handler-started-after-shutdown", detail("a handler was called after shutdown returned", json!({"started_later": started_later})));
            }
            if TcpStream::connect_timeout(&addr, Duration::from_secs(2)).is_ok() {
                c().violation("port-still-open", detail("a connection was accepted after shutdown returned", json!(null)));
            }
        }
    });
    stop_storm.store(true, SeqCst);
    for s in storms {
        if let Ok(Some(d)) = s.join() {
            c().violation("storm", detail("a connection made during the shutdown", d));
        }
    }
    for (k, r) in results.into_inner().unwrap_or_default() {
        if let Err((sig, d)) = r {
            c().violation(&sig, detail(clients[k].state, d));
        }
        c().count(&format!("state:{}", clients[k].state), 1);
    }
    if let Some(at) = returned {
        let slow = written > 0 || clients.iter().any(|cl| cl.state == "slow-reader");
        let took = at.saturating_duration_since(released).as_secs_f64();
        c().max("returned_ms_after_the_handlers_at_most", (took * 1000.0) as u64);
        let allowed = if slow { 15.0 } else { 8.0 } + c().stalled_since(released).as_secs_f64() * 2.0;
        if took > allowed {
            c().violation("shutdown-slow", detail("shutdown took long although no handler was running", json!({"took_s": took, "allowed_s": allowed})));
        }
        c().count("shutdowns", 1);
    }
    c().eval(Some((tls, n, gated, storm, full, hold.as_millis() as u64)));
    if i < 3 {
        c().sample(json!({"tls": tls, "states": clients.iter().map(|c| c.state).collect::<Vec<_>>(), "storm": storm}));
    }
}

fn finish_client(cl: &mut Cl, called: Instant, times: &Arc<Times>, log: &VLog) -> Result<(), (String, Value)> {
    if cl.state == "half-closed" {
        cl.cn.half_close();
    }
    if let Some(s) = &cl.must {
        if cl.state == "being-written" {
            // the rest is not taken before the shutdown has been on for a while
            std::thread::sleep(Duration::from_millis(cl.pause_ms).saturating_sub(called.elapsed()));
        }
        if cl.state == "slow-reader" {
            for _ in 0..20 {
                let _ = cl.cn.fill_max(Instant::now() + Duration::from_millis(5), 8192);
                std::thread::sleep(Duration::from_millis(10));
            }
        }
        match cl.cn.response(20.0, s.method == "HEAD") {
            Ok(r) => {
                s.check(&r)?;
                c().count("answers_to_running_handlers", 1);
            }
            Err(e) => {
                return Err(("response-lost".into(), json!({"request": s.brief(), "got": format!("{e:?}"), "reset": cl.cn.reset, "received": cl.cn.received, "pipelined_behind": cl.behind.len(), "state": cl.state})));
            }
        }
    }
    // Requests behind: answered in order, completely, if their handler was running before the shutdown; nothing else.
    for b in &cl.behind {
        let started_before = lock(&times.start).get(&b.id).map_or(false, |t| *t < called);
        match cl.cn.response(20.0, b.method == "HEAD") {
            Ok(r) => b.check(&r)?,
            Err(WErr::Eof(_)) if !started_before => break,
            Err(e) => return Err(("response-lost".into(), json!({"request": b.brief(), "got": format!("{e:?}"), "state": cl.state}))),
        }
    }
    match cl.cn.until_eof(20.0) {
        Ok(()) => (),
        Err(e) => return Err(("connection-left-open".into(), json!({"state": cl.state, "got": format!("{e:?}")}))),
    }
    if !cl.cn.buf.is_empty() && cl.must.is_none() {
        return Err(("bytes-nobody-asked-for".into(), json!({"state": cl.state, "bytes": show(&cl.cn.buf)})));
    }
    let _ = log;
    // Most clients close when the server does, some stay.
    if cl.stays {
        c().count("clients_that_do_not_close", 1);
    } else {
        let _ = cl.cn.sock.shutdown(std::net::Shutdown::Both);
    }
    Ok(())
}

/// Makes connections and requests until told to stop; each is answered completely or closed.
fn stormer(addr: SocketAddr, tls: bool, stop: Arc<AtomicBool>, rng: &mut Rng) -> Option<Value> {
    let mut refused = 0;
    while !stop.load(SeqCst) && refused < 50 {
        let Ok(mut cn) = Conn::open(addr, tls) else {
            refused += 1;
            std::thread::sleep(Duration::from_millis(2));
            continue;
        };
        let mut s = Spec::simple("storm");
        s.resp_len = rng.below(3000);
        if !cn.try_send(&s.bytes()) {
            continue;
        }
        match cn.response(20.0, false) {
            Ok(r) if r.status == 503 => (),
            Ok(r) => {
                if let Err((_, d)) = s.check(&r) {
                    return Some(d);
                }
                c().count("storm_requests_answered", 1);
            }
            Err(WErr::Eof(_)) => c().count("storm_requests_refused", 1),
            Err(e) => return Some(json!({"got": format!("{e:?}")})),
        }
        let mut tmp = [0; 1];
        let _ = cn.sock.set_nonblocking(true);
        let _ = (&cn.sock).read(&mut tmp);
    }
    None
}

/// Start, use, shut down and start again on the same address, quickly.
fn cycles(_: u64, rng: &mut Rng) {
    let tls = rng.chance(1, 4);
    let (srv, log, _) = server(tls, 60_000);
    let addr = srv.addr;
    let mut server = Some(srv);
    for round in 0..rng.range(3, 8) {
        let mut conns = vec![];
        let s = Spec::simple("cycle");
        for _ in 0..rng.below(4) {
            if let Ok(mut cn) = Conn::open(addr, tls) {
                cn.try_send(&s.bytes());
                let _ = cn.response(10.0, false);
                conns.push(cn);
            }
        }
        let mut srv = server.take().unwrap();
        let t = Instant::now();
        match srv.shutdown_in(30) {
            Some(Ok(())) => (),
            o => {
                c().violation("shutdown-hangs", json!({"idle_connections": conns.len(), "round": round, "got": format!("{o:?}")}));
                return;
            }
        }
        c().max("idle_shutdown_ms_at_most", t.elapsed().as_millis() as u64);
        // A client that has its answer can still be in the end of its exchange.
        if t.elapsed() > Duration::from_secs(8) + c().stalled_since(t) * 2 {
            c().violation("shutdown-slow", json!({"idle_connections": conns.len(), "took_s": t.elapsed().as_secs_f64()}));
        }
        for cn in conns.iter_mut() {
            if cn.until_eof(10.0).is_err() {
                c().violation("connection-left-open", json!({"round": round}));
            }
        }
        c().count("shutdowns", 1);
        // the same address again
        let r = wruster::router::Router::new();
        let l = Arc::clone(&log);
        r.add("/", wruster::http::HttpMethod::GET, Box::new(move |q: &mut Request| handle(&l, q)));
        let mut s2 = wruster::Server::from_timeouts(timeouts(60_000, 30_000));
        let res = if tls {
            let (k, ce) = tls_pair();
            s2.run_tls(&addr.to_string(), r, k, ce)
        } else {
            s2.run(&addr.to_string(), r)
        };
        if let Err(e) = res {
            c().violation("port-still-taken", json!({"addr": addr.to_string(), "error": e.to_string(), "round": round}));
            return;
        }
        server = Some(Running::adopt(addr, tls, s2));
    }
    server.unwrap().stop_later();
    c().eval(Some(("cycles", tls)));
}

/// A server that served so many connections that whatever counts them has come round, with some that are there since the beginning.
fn worn(n: usize) {
    let (mut srv, _, _) = server(false, 60_000);
    let exchange = |cn: &mut Conn| cn.try_send(&Spec::simple("worn").bytes()) && cn.response(20.0, false).is_ok();
    // one of each of the first, some not used before the end
    let mut old = vec![];
    for k in 0..5 {
        if let Ok(mut cn) = srv.conn() {
            if k < 3 && !exchange(&mut cn) {
                return c().violation("worn:exchange", json!({"connection": k}));
            }
            old.push(cn);
        }
    }
    std::thread::scope(|s| {
        for _ in 0..8 {
            s.spawn(|| {
                for _ in 0..n / 8 {
                    let Ok(mut sock) = std::net::TcpStream::connect(srv.addr) else { continue };
                    let _ = sock.set_read_timeout(Some(Duration::from_secs(10)));
                    let _ = std::io::Write::write_all(&mut sock, b"GET / HTTP/1.1\r\nConnection: close\r\n\r\n");
                    let (mut b, mut got) = ([0; 500], 0);
                    while let Ok(k) = sock.read(&mut b) {
                        if k == 0 {
                            break;
                        }
                        got += k;
                    }
                    c().count("connections_before_a_late_shutdown", (got > 30) as u64);
                }
            });
        }
    });
    for (k, cn) in old.iter_mut().enumerate() {
        if !exchange(cn) {
            return c().violation("worn:old-connection", json!({"connection": k, "connections_meanwhile": n}));
        }
    }
    let t = Instant::now();
    match srv.shutdown_in(30) {
        Some(Ok(())) if t.elapsed() <= Duration::from_secs(8) + c().stalled_since(t) * 2 => (),
        o => return c().violation("worn:shutdown", json!({"got": format!("{o:?}"), "took_s": t.elapsed().as_secs_f64(), "connections_before": n})),
    }
    for (k, cn) in old.iter_mut().enumerate() {
        if cn.until_eof(10.0).is_err() {
            return c().violation("worn:connection-left-open", json!({"connection": k, "connections_before": n}));
        }
    }
    c().count("shutdowns", 1);
    c().eval(Some(("worn", n)));
}

pub fn run() {
    c().rule("a case is distinct by TLS, number of connections, how many were in handlers, whether the server was full, and whether new connections kept coming");
    c().assume("a request counts as running when its handler was entered before shutdown was called; 8 s (15 s with slow readers) after the last handler is still prompt");
    par(8, c().n(200, 3500), "states", case);
    par(4, c().n(30, 400), "cycles", cycles);
    if !c().stopped() {
        worn(c().n(66_500, 140_000));
    }
    require("connections_before_a_late_shutdown", 65_600);
    require("connections_gone_before_the_shutdown", 500);
    require("shutdowns", 200);
    require("answers_to_running_handlers", 500);
    require("seen_waiting_for_handlers", 100);
    for s in STATES {
        require(&format!("state:{s}"), 20);
    }
}
