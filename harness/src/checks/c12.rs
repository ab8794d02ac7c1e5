//! C12: connections stay open or close as the version and the Connection header say.
use crate::srv::*;
use crate::traffic::*;
use crate::util::*;
use crate::wire::*;
use serde_json::json;
use std::collections::HashSet;
use std::time::Duration;

/// The Connection header lines of a request and whether they hold the options.
pub fn connection(rng: &mut Rng) -> (Vec<(String, String)>, bool, bool) {
    let mut lines = vec![];
    let (mut close, mut keep) = (false, false);
    let n = *rng.pick(&[0, 1, 1, 1, 1, 2, 3]);
    for _ in 0..n {
        let mut items = vec![];
        for _ in 0..*rng.pick(&[1, 1, 1, 2, 3, 4]) {
            let it = match rng.below(9) {
                0 | 1 => "close",
                2 | 3 => "keep-alive",
                4 => *rng.pick(&["closed", "close-x", "not-close", "enclose", "clos", "x-close", "close=1"]),
                5 => *rng.pick(&["keep-alive-x", "keepalive", "keep", "alive", "xkeep-alive"]),
                6 => "Upgrade",
                7 => "te",
                _ => "",
            };
            close |= it == "close";
            keep |= it == "keep-alive";
            let it: String = it.chars().map(|ch| if rng.chance(1, 4) { ch.to_ascii_uppercase() } else { ch }).collect();
            let it = if rng.chance(1, 6) { it.to_uppercase() } else { it };
            items.push(format!("{}{}{}", rng.pick(&["", " ", "\t", "  "]), it, rng.pick(&["", "", " ", "\t"])));
        }
        let name = rng.pick(&["Connection", "connection", "CONNECTION", "ConneCtion"]).to_string();
        lines.push((name, items.join(",")));
    }
    (lines, close, keep)
}

pub fn run() {
    c().rule("one evaluation = one exchange with one version and one set of Connection headers, observed on the wire until it is clear that the connection was kept (the next request is served) or closed (the stream ends, what was pipelined behind is not run); distinct by (version, options present, number of lines, position in the connection, kind of response, TLS)");
    c().assume("HTTP/2 as version in a request line over HTTP/1 framing is left open.");
    for tls in [false, true] {
        let (srv, log) = universal(tls, timeouts(20_000, 20_000));
        let never = std::sync::Mutex::new(HashSet::new());
        par(24, c().n(if tls { 400 } else { 3000 }, if tls { 4000 } else { 40_000 }), &format!("c12-{tls}"), |_, rng| {
            let Ok(mut conn) = srv.conn() else {
                c().violation("cannot-connect", json!({"tls": tls}));
                return;
            };
            // Some exchanges that keep the connection, then one of any kind.
            let before = rng.below(4);
            for k in 0..=before {
                let mut s = Spec::random(rng, "ka", 5_000, 30_000);
                let (mut lines, mut close, mut keep) = connection(rng);
                s.version = *rng.pick(&["HTTP/1.1", "HTTP/1.1", "HTTP/1.0", "HTTP/1.0", "HTTP/1.2", "HTTP/0.9", "HTTP/3.7"]);
                let persistent = |v: &str, close: bool, keep: bool| !close && (v == "HTTP/1.1" || v == "HTTP/1.0" && keep);
                if k < before && !persistent(s.version, close, keep) {
                    (lines, close, keep) = (vec![("connection".into(), "x, Keep-Alive".into())], false, true);
                    s.version = *rng.pick(&["HTTP/1.1", "HTTP/1.0"]);
                }
                let mut open = persistent(s.version, close, keep);
                // The handler can ask for the end, too.
                let asked = if rng.chance(1, 2) && k == before {
                    let v = *rng.pick(&["close", "Close", "x, CLOSE", "keep-alive", "closed", "keep-alive , close", "",
                        "keep-alive;close", "x;;Close", "close;keep-alive", "te, x;upgrade", "a;b;c;keep-alive,close;d", "x;closed;close-x"]);
                    lines.push(("X-Vclose".into(), v.into()));
                    open &= !v.to_lowercase().split([',', ';']).any(|o| o.trim() == "close");
                    v
                } else {
                    "-"
                };
                if rng.chance(1, 12) {
                    s.resp_len = 2_000_000;
                    s.resp = "content";
                    if s.read == "echo" {
                        s.read = "none".into();
                    }
                }
                // Spread among the other headers.
                for l in &lines {
                    let at = rng.below(s.extra.len() + 1);
                    s.extra.insert(at, l.clone());
                }
                let mut bytes = s.bytes();
                let behind = Spec::simple("behind");
                let pipelined = !open && rng.chance(1, 2) || open && rng.chance(1, 5);
                if pipelined {
                    bytes.extend(behind.bytes());
                }
                let d = |why: &str, got: String| json!({"why": why, "version": s.version, "connection": s.extra, "must_stay_open": open, "pipelined_request_behind": pipelined, "request": s.brief(), "tls": tls, "exchanges_before": k, "got": got});
                let seg = *rng.pick(&[Seg::Whole, Seg::Whole, Seg::Cuts]);
                let _ = send_cut(&mut conn, &bytes, seg, rng);
                if s.resp_len == 2_000_000 {
                    std::thread::sleep(Duration::from_millis(rng.below(30) as u64));
                }
                match conn.response(20.0, s.method == "HEAD") {
                    Ok(r) => {
                        if let Err((sig, x)) = s.check(&r) {
                            c().violation(&sig, d("the response", x.to_string()));
                            return;
                        }
                    }
                    Err(e) => {
                        c().violation("response-not-delivered", d("no complete response", format!("{e:?} reset {}", conn.reset)));
                        return;
                    }
                }
                c().eval(Some((s.version, close, keep, lines.len(), k, s.resp, tls, pipelined, asked)));
                c().sample(d("as expected", String::new()));
                if open {
                    c().count("kept_open", 1);
                    if !pipelined {
                        // It stays open for a while, too.
                        if rng.chance(1, 10) {
                            std::thread::sleep(Duration::from_millis(60));
                        }
                        conn.try_send(&behind.bytes());
                    }
                    match conn.response(20.0, false) {
                        Ok(r) if behind.check(&r).is_ok() => (),
                        o => {
                            c().violation("closed-too-early", d("the next request was not served", clip(&format!("{o:?}"), 300)));
                            return;
                        }
                    }
                } else {
                    c().count("closed", 1);
                    if persistent(s.version, close, keep) {
                        c().count("closed_for_the_handler", 1);
                    }
                    lock(&never).insert(behind.id.clone());
                    if let Err((sig, x)) = expect_end(&mut conn, 10.0) {
                        c().violation(&format!("not-closed:{sig}"), d("the connection must end after the response", x.to_string()));
                    }
                    return;
                }
            }
        });
        // Unreadable requests: whatever was before and whatever comes behind.
        par(16, c().n(if tls { 60 } else { 400 }, 4000), &format!("c12-bad-{tls}"), |_, rng| {
            let Ok(mut conn) = srv.conn() else { return };
            for _ in 0..rng.below(3) {
                let s = Spec::simple("pre");
                let _ = conn.send(&s.bytes());
                if !matches!(conn.response(20.0, false), Ok(r) if s.check(&r).is_ok()) {
                    c().violation("no-response", json!({"what": "before the unreadable request"}));
                    return;
                }
            }
            let fixed = *rng.pick(&["BAD / HTTP/1.1\r\nConnection: keep-alive\r\n\r\n", "GET / HTTP/1.1\r\nConnection: keep-alive\r\nbad header\r\n\r\n", "GET  / HTTP/1.1\r\n\r\n", "GET / HTTX/1.1\r\n\r\n", "GET / HTTP/1.1\r\nx: \x01\r\n\r\n", "\r\n \r\n", "get / HTTP/1.1\r\n\r\n"]);
            let behind = Spec::simple("bad-behind");
            lock(&never).insert(behind.id.clone());
            // Any other kind, too, with or without anything between the fault and what is behind.
            let (kind, bad) = loop {
                if rng.chance(1, 3) {
                    break ("fixed", fixed.as_bytes().to_vec());
                }
                let (kind, b, needs_end) = super::c04::malformed(rng);
                if needs_end {
                    continue;
                }
                break (kind, super::c04::without_tail(&b, rng).filter(|_| rng.chance(1, 2)).unwrap_or(b));
            };
            let mut b = bad.clone();
            let bad = show(&bad);
            if !b.ends_with(b"\r\n\r\n") || rng.chance(2, 3) {
                b.extend(behind.bytes());
            }
            conn.try_send(&b);
            let r = conn.response(20.0, false);
            match &r {
                Ok(r) if r.status == 400 => (),
                Err(WErr::Eof(0)) => (),
                o => {
                    c().violation("unreadable-request", json!({"request": bad, "kind": kind, "got": clip(&format!("{o:?}"), 300)}));
                    return;
                }
            }
            if let Err((sig, x)) = expect_end(&mut conn, 10.0) {
                c().violation(&format!("error-response-not-closed:{sig}"), json!({"request": bad, "kind": kind, "got": x}));
            }
            c().count("unreadable", 1);
            c().eval(Some(("bad", kind, tls)));
        });
        // A connection is good for many requests.
        par(4, 3, &format!("c12-long-{tls}"), |_, rng| {
            let Ok(mut conn) = srv.conn() else { return };
            let n = c().n(3000, 40_000);
            let specs: Vec<Spec> = (0..n).map(|_| Spec::random(rng, "long", 300, 300)).collect();
            if let Err((sig, d)) = drive(&mut conn, &specs, 1, Seg::Whole, rng, 20.0) {
                c().violation(&format!("long-connection:{sig}"), d);
            }
            c().count("long_connection_requests", n as u64);
        });
        srv.stop();
        let seen = lock(&log.seen);
        for id in lock(&never).iter() {
            if seen.contains_key(id) {
                c().violation("ran-after-close", json!({"what": "a request behind one that ends the connection was run", "id": id, "tls": tls}));
                break;
            }
        }
    }
    require("kept_open", 3000);
    require("closed", 1500);
    require("closed_for_the_handler", 100);
    require("requests_changed_by_their_handler", 3000);
    require("unreadable", 300);
}
