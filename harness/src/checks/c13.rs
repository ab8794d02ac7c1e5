//! C13: what happens at and beyond the capacity of 100 connections.
use crate::srv::*;
use crate::traffic::*;
use crate::util::*;
use crate::wire::*;
use serde_json::json;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::time::{Duration, Instant};

const MAX: usize = 100;

fn refused(cn: &mut Conn, secs: f64) -> Result<(), serde_json::Value> {
    match cn.response(secs, false) {
        Ok(r) if r.status == 503 => (),
        o => return Err(json!({"expected": "503", "got": clip(&format!("{o:?}"), 300), "reset": cn.reset})),
    }
    expect_end(cn, secs).map_err(|(s, d)| json!({"after_the_503": s, "got": d}))
}

/// One server through several rounds of overload.
fn rounds(tls: bool, n: usize, salt: &str) {
    let (srv, log) = universal(tls, timeouts(60_000, 30_000));
    let mut rng = c().rng(salt, tls as u64);
    std::thread::sleep(Duration::from_millis(50));
    for round in 0..n {
        if c().stopped() {
            break;
        }
        let name = new_id("full");
        let g = gate(&name);
        let mut held: Vec<(Conn, Spec)> = vec![];
        let mut idle: Vec<Conn> = vec![];
        // Capacity of earlier rounds may take a moment to come back.
        let t = Instant::now();
        let deadline = t + Duration::from_secs(30);
        let idlers = *rng.pick(&[0, 0, 1, 30, 99]);
        let wanted = MAX - idlers;
        let mut early = 0;
        while held.len() + idle.len() < MAX && Instant::now() < deadline {
            let Ok(mut cn) = srv.conn() else {
                c().violation("cannot-connect", json!({"round": round}));
                return;
            };
            if idle.len() < idlers {
                // Served once, so it is known to be in service, and then kept open.
                let s = Spec::simple("idle");
                cn.try_send(&s.bytes());
                match cn.response(20.0, false) {
                    Ok(r) if r.status == 503 => {
                        early += 1;
                        std::thread::sleep(Duration::from_millis(20));
                    }
                    Ok(r) if s.check(&r).is_ok() => idle.push(cn),
                    o => {
                        c().violation("neither-served-nor-503", json!({"round": round, "in_service": held.len() + idle.len(), "got": clip(&format!("{o:?}"), 300)}));
                        return;
                    }
                }
                continue;
            }
            let mut s = Spec::simple("held");
            s.extra.push(("X-Vgate".into(), name.clone()));
            s.body = body_bytes(&mut rng, 2000);
            s.read = "all".into();
            s.resp_len = rng.below(3000);
            let before = g.inside();
            cn.try_send(&s.bytes());
            let t = Instant::now();
            let mut refuse = false;
            while g.inside() == before && t.elapsed() < Duration::from_secs(20) {
                if matches!(cn.fill_max(Instant::now() + Duration::from_millis(2), 4096), Ok(_)) {
                    refuse = true;
                    break;
                }
            }
            if refuse {
                if let Err(d) = refused(&mut cn, 20.0) {
                    c().violation("neither-served-nor-503", json!({"round": round, "in_service": held.len() + idle.len(), "got": d}));
                    return;
                }
                early += 1;
                if round == 0 {
                    break;
                }
                std::thread::sleep(Duration::from_millis(20));
            } else if g.inside() == before {
                c().violation("left-hanging", json!({"round": round, "in_service": held.len() + idle.len(), "what": "a connection within the capacity was neither served nor refused in 20 s"}));
                return;
            } else {
                held.push((cn, s));
            }
        }
        c().count("refused_while_capacity_came_back", early as u64);
        let full = held.len() + idle.len();
        if full < MAX {
            c().violation("capacity-not-available", json!({"round": round, "in_service": full, "of": MAX, "waited_s": t.elapsed().as_secs_f64(), "refused_meanwhile": early, "first_round": round == 0}));
            return;
        }
        c().count("times_full", 1);
        // Everything beyond is told 503: silent ones, ones that send a request, a part, or much.
        let extras = rng.range(1, 40);
        std::thread::scope(|s| {
            for e in 0..extras {
                let srv = &srv;
                let mut rng = Rng::new(rng.next(), "extra", e as u64);
                s.spawn(move || {
                    let Ok(mut cn) = srv.conn() else {
                        c().violation("cannot-connect", json!({"round": round, "extra": e}));
                        return;
                    };
                    let kind = if tls { 1 } else { rng.below(4) };
                    let sp = Spec::simple("extra");
                    match kind {
                        0 => (),
                        1 => {
                            cn.try_send(&sp.bytes());
                        }
                        2 => {
                            cn.try_send(&sp.bytes()[..10]);
                        }
                        _ => {
                            std::thread::sleep(Duration::from_millis(rng.below(20) as u64));
                            cn.try_send(&sp.bytes());
                        }
                    }
                    if let Err(d) = refused(&mut cn, 15.0) {
                        c().violation("not-refused", json!({"round": round, "in_service": MAX, "extra_connection_sends": kind, "tls": tls, "got": d}));
                    }
                    c().count("refused_at_full_capacity", 1);
                    c().eval(Some((round, e, kind, tls, idlers)));
                });
            }
        });
        // A few that stall while they are refused (their handshake is missing) hold up the refusal of no others, and end, too.
        if tls {
            std::thread::sleep(Duration::from_millis(100));
            let t = Instant::now();
            let n = rng.range(3, 8);
            let mut stallers: Vec<Conn> = (0..n).filter_map(|_| Conn::connect(srv.addr).ok()).collect();
            for cn in stallers.iter_mut() {
                if rng.chance(1, 2) {
                    continue;
                }
                cn.try_send(&b"\x16\x03\x01\x00\xf0\x01\x00\x00\xec\x03\x03abc"[..rng.range(1, 14)]);
            }
            let mut others = vec![];
            for _ in 0..2 {
                let t = Instant::now();
                if let Ok(mut cn) = srv.conn() {
                    cn.try_send(&Spec::simple("extra").bytes());
                    others.push((refused(&mut cn, 20.0), t.elapsed().as_secs_f64()));
                }
            }
            let allowed = 3.0 + 3.0 * c().stalled_since(t).as_secs_f64();
            if let Some((r, s)) = others.iter().find(|(r, s)| r.is_err() || *s > allowed) {
                c().violation("refusal-held-up", json!({"round": round, "stalled_handshakes": n, "took_s": s, "allowed_s": allowed, "refused": format!("{r:?}")}));
            }
            for cn in stallers.iter_mut() {
                let left = 12.0 - t.elapsed().as_secs_f64();
                if cn.until_eof(left.max(1.0)).is_err() && c().stalled_since(t) < Duration::from_secs(2) {
                    c().violation("left-hanging", json!({"round": round, "what": "a connection without a handshake beyond the capacity", "after_s": t.elapsed().as_secs_f64()}));
                    break;
                }
            }
            c().count("stalled_while_refused", n as u64);
            c().eval(Some((round, "stalled while refused", n)));
        }
        // Those in service go on undisturbed.
        if g.inside() as usize != wanted {
            c().violation("service-disturbed", json!({"round": round, "handlers_running": g.inside(), "expected": wanted}));
        }
        for cn in idle.iter_mut().take(10) {
            let s = Spec::simple("idle");
            cn.try_send(&s.bytes());
            if !matches!(cn.response(20.0, false), Ok(r) if s.check(&r).is_ok()) {
                c().violation("service-disturbed", json!({"round": round, "what": "an idle kept-alive connection no longer works"}));
            }
        }
        // One place becomes free while the others are busy: exactly the next connection gets it.
        if !idle.is_empty() {
            drop(idle.pop());
            let t = Instant::now();
            let mut ok = false;
            while t.elapsed() < Duration::from_secs(15) && !ok {
                let Ok(mut cn) = srv.conn() else { break };
                let s = Spec::simple("free");
                cn.try_send(&s.bytes());
                ok = matches!(cn.response(20.0, false), Ok(r) if s.check(&r).is_ok());
                if ok {
                    idle.push(cn);
                } else {
                    std::thread::sleep(Duration::from_millis(20));
                }
            }
            if !ok {
                c().violation("capacity-not-available", json!({"round": round, "what": "one connection ended, the next one is not served"}));
            }
            c().count("single_places_reused", 1);
        }
        g.open();
        for (cn, s) in held.iter_mut() {
            match cn.response(30.0, false) {
                Ok(r) => {
                    if let Err((sig, d)) = s.check(&r) {
                        c().violation(&format!("service-disturbed:{sig}"), d);
                    }
                }
                Err(e) => c().violation("service-disturbed", json!({"round": round, "what": "a connection in service got no response", "got": format!("{e:?}")})),
            }
            c().count("in_service_undisturbed", 1);
            // Half of them end, half go on for one more exchange.
            if rng.chance(1, 2) {
                let s = Spec::simple("more");
                cn.try_send(&s.bytes());
                if !matches!(cn.response(20.0, false), Ok(r) if s.check(&r).is_ok()) {
                    c().violation("service-disturbed", json!({"round": round, "what": "a kept-alive connection is not served after the overload"}));
                    break;
                }
            }
        }
        drop(held);
        drop(idle);
        if let Err(d) = capacity_probe(&srv, MAX, 20) {
            c().violation("capacity-lost", json!({"round": round, "got": d}));
            break;
        }
    }
    if log.peak.load(SeqCst) as usize > MAX {
        c().violation("too-many-handlers", json!({"at_once": log.peak.load(SeqCst), "max": MAX}));
    }
    c().max("peak_handlers", log.peak.load(SeqCst));
    srv.stop();
}

/// Far more clients than places, coming and going all the time: each connection is served or told 503.
fn stampede(tls: bool, clients: usize, secs: f64, salt: &str) {
    let (srv, log) = universal(tls, timeouts(30_000, 30_000));
    let stop = AtomicBool::new(false);
    let (served, busy) = (AtomicU64::new(0), AtomicU64::new(0));
    let start = Instant::now();
    std::thread::scope(|s| {
        for k in 0..clients {
            let (srv, stop, served, busy) = (&srv, &stop, &served, &busy);
            let mut rng = c().rng(salt, k as u64);
            s.spawn(move || {
                while !stop.load(SeqCst) && !c().stopped() && start.elapsed().as_secs_f64() < secs {
                    let t = Instant::now();
                    let mut cn = match srv.conn() {
                        Ok(cn) => cn,
                        Err(e) => {
                            c().violation("cannot-connect", json!({"error": e.to_string(), "clients": clients}));
                            return;
                        }
                    };
                    let n = *rng.pick(&[1, 1, 2, 5]);
                    for i in 0..n {
                        let mut s = Spec::random(&mut rng, "st", 3000, 20_000);
                        s.delay_ms = *rng.pick(&[0, 0, 1, 10, 40]);
                        let sent = cn.try_send(&s.bytes());
                        match cn.response(25.0, s.method == "HEAD") {
                            Ok(r) if r.status == 503 && i == 0 => {
                                busy.fetch_add(1, SeqCst);
                                if let Err((sig, d)) = expect_end(&mut cn, 15.0) {
                                    c().violation(&format!("after-503:{sig}"), d);
                                }
                                std::thread::sleep(Duration::from_millis(rng.below(8) as u64));
                                break;
                            }
                            Ok(r) => {
                                if let Err((sig, d)) = s.check(&r) {
                                    c().violation(&sig, d);
                                    return;
                                }
                                served.fetch_add(1, SeqCst);
                            }
                            Err(e) => {
                                if c().stalled_since(t) > Duration::from_secs(5) {
                                    break;
                                }
                                let sig = if matches!(e, WErr::Timeout(_)) { "left-hanging" } else { "silently-dropped" };
                                c().violation(sig, json!({"exchange": i, "sent_completely": sent, "reset": cn.reset, "got": format!("{e:?}"), "clients": clients, "tls": tls}));
                                return;
                            }
                        }
                    }
                }
            });
        }
    });
    if log.peak.load(SeqCst) as usize > MAX {
        c().violation("too-many-handlers", json!({"at_once": log.peak.load(SeqCst), "max": MAX}));
    }
    c().max("peak_handlers", log.peak.load(SeqCst));
    c().count("stampede_served", served.load(SeqCst));
    c().count("stampede_503", busy.load(SeqCst));
    c().eval(Some(("stampede", tls, clients, busy.load(SeqCst) > 0)));
    if !c().violated() {
        if let Err(d) = capacity_probe(&srv, MAX, 25) {
            c().violation("capacity-lost", json!({"after": "stampede", "got": d}));
        }
    }
    srv.stop();
}

/// The extra workers end after their idle period, the capacity must be there again afterwards.
fn expiry() {
    let (srv, _) = universal(false, timeouts(30_000, 30_000));
    for round in 0..c().n(2, 6) {
        if let Err(d) = capacity_probe(&srv, MAX, 20) {
            c().violation("capacity-lost", json!({"after_idle_periods": round, "got": d}));
            break;
        }
        c().count("idle_periods", 1);
        c().eval(Some(("expiry", round)));
        std::thread::sleep(Duration::from_millis([11_000, 9_950, 10_020, 10_000, 12_000, 10_100][round]));
        // In the moment the workers end, connections come and go.
        for _ in 0..300 {
            let Ok(mut cn) = srv.conn() else { continue };
            let mut s = Spec::simple("exp");
            s.connection = Some("close");
            cn.try_send(&s.bytes());
            match cn.response(10.0, false) {
                Ok(r) if s.check(&r).is_ok() => c().count("served_around_expiry", 1),
                o => c().violation("not-served-around-expiry", json!({"round": round, "got": clip(&format!("{o:?}"), 200)})),
            }
        }
    }
    if let Err(d) = capacity_probe(&srv, MAX, 20) {
        c().violation("capacity-lost", json!({"after": "idle periods", "got": d}));
    }
    srv.stop();
}

pub fn run() {
    c().rule("one evaluation = one connection opened while exactly 100 are in service, one stampede or one idle period; distinct by (round, kind of extra connection, number of idle connections, TLS)");
    c().assume("After connections have ended their places may take up to 15 s to be free again.");
    std::thread::scope(|s| {
        s.spawn(expiry);
        s.spawn(|| rounds(false, c().n(8, 80), "rounds"));
        s.spawn(|| rounds(true, c().n(3, 20), "rounds"));
        s.spawn(|| {
            for i in 0..c().n(2, 12) {
                stampede(false, *[160, 120, 300, 101].get(i % 4).unwrap(), 3.0, &format!("st{i}"));
            }
            stampede(true, 130, if c().quick() { 3.0 } else { 20.0 }, "st-tls");
        });
    });
    require("times_full", 8);
    require("refused_at_full_capacity", 60);
    require("stampede_served", 500);
    require("stampede_503", 20);
    require("idle_periods", 2);
    require("stalled_while_refused", 3);
}
