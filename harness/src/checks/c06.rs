//! C06: every response on the wire is self-delimiting or the connection ends.
use crate::srv::*;
use crate::traffic::*;
use crate::util::*;
use crate::wire::*;
use serde_json::json;
use std::io::{self, Cursor, Read};
use std::str::FromStr;
use std::time::{Duration, Instant};
use wruster::http::headers::Header;
use wruster::http::{Body, HttpMethod, Request, Response, StatusCode};

/// A body source that delivers `give` bytes of the payload in pieces, then ends or fails.
pub struct Source {
    data: Vec<u8>,
    at: usize,
    piece: usize,
    fail: Option<io::ErrorKind>,
    interrupt_every: usize,
    calls: usize,
    pause_us: u64,
}
impl Read for Source {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        self.calls += 1;
        if self.interrupt_every > 0 && self.calls % self.interrupt_every == 0 {
            return Err(io::Error::from(io::ErrorKind::Interrupted));
        }
        if self.pause_us > 0 {
            std::thread::sleep(Duration::from_micros(self.pause_us));
        }
        if self.at == self.data.len() {
            return match self.fail {
                Some(k) => Err(io::Error::from(k)),
                None => Ok(0),
            };
        }
        let n = b.len().min(self.piece).min(self.data.len() - self.at);
        b[..n].copy_from_slice(&self.data[self.at..self.at + n]);
        self.at += n;
        Ok(n)
    }
}

const STATUSES: [u16; 14] = [200, 201, 202, 206, 301, 302, 400, 401, 404, 418, 429, 500, 503, 599];

/// What the handler is told to build.
#[derive(Clone, Debug)]
struct Plan {
    id: String,
    kind: &'static str,
    announced: usize,
    /// bytes the source really has
    has: usize,
    fail: Option<&'static str>,
    headers: Vec<(String, String)>,
    status: u16,
    piece: usize,
    interrupt: usize,
    method: &'static str,
}
impl Plan {
    fn delivered_in_full(&self) -> bool {
        self.has >= self.announced && (self.fail.is_none() || self.has >= self.announced)
    }
    fn wire_len(&self) -> usize {
        match self.kind {
            "status" | "none" => 0,
            _ => self.announced,
        }
    }
}

fn build(p: &Plan) -> Response {
    let data = payload(&p.id, p.has);
    let src = Source { data: data.clone(), at: 0, piece: p.piece, fail: p.fail.map(|f| match f {
        "reset" => io::ErrorKind::ConnectionReset,
        "timeout" => io::ErrorKind::TimedOut,
        "wouldblock" => io::ErrorKind::WouldBlock,
        "eof" => io::ErrorKind::UnexpectedEof,
        _ => io::ErrorKind::Other,
    }), interrupt_every: p.interrupt, calls: 0, pause_us: 0 };
    let status = StatusCode::from(p.status as usize);
    let mut r = match p.kind {
        "str" => Response::from_str(std::str::from_utf8(&data).unwrap()).unwrap(),
        "status" => Response::from_status(StatusCode::OK),
        "none" => Response { status: StatusCode::OK, headers: Default::default(), body: None },
        "content" => Response::from_content(src, p.announced as u64, mime::TEXT_PLAIN),
        "cursor" => Response::from_content(Cursor::new(data), p.announced as u64, mime::TEXT_PLAIN),
        "from" => Response { status: StatusCode::OK, headers: Default::default(), body: Some(Body::from(String::from_utf8(data).unwrap(), mime::TEXT_HTML)) },
        _ => Response { status: StatusCode::OK, headers: Default::default(), body: Some(Body::new(Some(mime::TEXT_PLAIN), p.announced as u64, Box::new(src))) },
    };
    r.status = status;
    for (n, v) in &p.headers {
        r.headers.add(Header { name: n.clone(), value: v.clone() });
    }
    r.headers.add(Header { name: "X-Vid".into(), value: p.id.clone() });
    r
}

static PLANS: std::sync::Mutex<Option<std::collections::HashMap<String, Plan>>> = std::sync::Mutex::new(None);

fn plan(rng: &mut Rng, big: bool) -> Plan {
    let kind = *rng.pick(&["str", "status", "none", "content", "cursor", "from", "body", "body", "content", "body"]);
    let n = if big {
        *rng.pick(&[(1 << 20) - 1, 1 << 20, (2 << 20) - 1, 2 << 20, (2 << 20) + 1, 3 << 20, 5_000_000])
    } else {
        size(rng, 200_000)
    };
    let mut p = Plan { id: new_id("r"), kind, announced: n, has: n, fail: None, headers: vec![], status: *rng.pick(&STATUSES), piece: *rng.pick(&[1000, 8192, 100_000, 1 << 20]), interrupt: 0, method: "GET" };
    if p.announced < 3000 && rng.chance(1, 3) {
        p.piece = rng.range(1, 10);
    }
    if matches!(kind, "content" | "body") && rng.chance(1, 4) {
        p.interrupt = rng.range(2, 5);
    }
    if rng.chance(1, 3) {
        // explicit framing headers set by the handler, right or wrong, in any letter case, maybe repeated
        for _ in 0..rng.range(1, 2) {
            let name = *rng.pick(&["Content-Length", "content-length", "CONTENT-LENGTH"]);
            let v = *rng.pick(&[n, 0, n + 1, n.saturating_sub(1), 10]);
            p.headers.push((name.into(), v.to_string()));
        }
    }
    if rng.chance(1, 3) {
        p.headers.push(("Cache-Control".into(), "no-store".into()));
        p.headers.push(("Set-Cookie".into(), "a=1".into()));
        p.headers.push(("Set-Cookie".into(), "b=2".into()));
    }
    if rng.chance(1, 8) {
        // many fields, or long ones
        for _ in 0..if rng.chance(1, 4) { rng.range(50, 1000) } else { rng.range(1, 6) } {
            let n = if rng.chance(1, 3) { rng.pick(&["Set-Cookie", "set-cookie", "Via"]).to_string() } else { format!("Xf-{}", rng.token(3)) };
            let max = if rng.chance(1, 60) { 80_000 } else { 40 };
            let len = rng.below(max);
            let v = if rng.chance(1, 10) { "größer = ß; ü".into() } else { rng.token(len) };
            p.headers.push((n, v));
        }
        c().count("heads_with_other_fields", 1);
    }
    if rng.chance(1, 8) {
        p.method = "HEAD";
    }
    p
}

pub fn run() {
    let c = c();
    c.rule("a case is one response built by a handler (way of building it, announced length, what its source really delivers and how, explicit headers, status, method), followed by more requests on the connection; non-trivial when it has a body, explicit framing headers or a misbehaving source; distinct by those parameters");
    c.assume("statuses 1xx, 204 and 304, for which HTTP gives Content-Length another meaning, are not generated");
    let handler = |q: &mut Request| -> Response {
        let id = hdr(q, "X-Vid").unwrap_or_default();
        let p = lock(&PLANS).get_or_insert_with(Default::default).get(&id).cloned();
        match p {
            Some(p) => {
                // Changes that the handler makes to the request are its own business.
                match p.announced % 4 {
                    0 => q.method = HttpMethod::GET,
                    1 => q.method = HttpMethod::HEAD,
                    _ => (),
                }
                build(&p)
            }
            None => Response::from_status(StatusCode::NotFound),
        }
    };
    let srv = start_all(false, timeouts(60_000, 60_000), handler);
    let tsrv = start_all(true, timeouts(60_000, 60_000), handler);
    let large = crate::big::beside(crate::big::responses);
    par(32, c.n(6000, 100_000), "c06", |i, rng| {
        let tls = i % 6 == 2;
        let srv = if tls { &tsrv } else { &srv };
        let Ok(mut conn) = srv.conn() else { return c.violation("cannot-connect", json!({})) };
        let n = rng.range(1, 6);
        for k in 0..n {
            let mut p = plan(rng, i % 25 == 3);
            if i % 400 == 78 && k == 0 {
                p.announced = *rng.pick(&[(8 << 20) + 3, (16 << 20) + 1, 35_000_000]);
                p.has = p.announced;
                p.interrupt = 0;
                c.count("responses_over_8_mib", 1);
            }
            let faulty = k + 1 == n && rng.chance(1, 2) && matches!(p.kind, "content" | "cursor" | "body");
            if faulty {
                match rng.below(3) {
                    0 => p.has = rng.below(p.announced + 1),
                    1 if p.kind != "cursor" => {
                        p.has = rng.below(p.announced + 1);
                        p.fail = Some(*rng.pick(&["reset", "timeout", "wouldblock", "eof", "other"]));
                    }
                    _ => p.has = p.announced + rng.range(1, 100_000),
                }
            }
            let key = (p.kind, p.announced, p.has, p.fail, p.headers.clone(), p.status, p.method, p.interrupt);
            c.eval((p.announced > 0 || !p.headers.is_empty() || faulty).then_some(key));
            let ctxt = json!({"case": i, "tls": tls, "plan": format!("{p:?}")});
            lock(&PLANS).get_or_insert_with(Default::default).insert(p.id.clone(), p.clone());
            conn.try_send(format!("{} / HTTP/1.1\r\nX-Vid: {}\r\n\r\n", p.method, p.id).as_bytes());
            let head_only = p.method == "HEAD";
            let bad = |sig: &str, d: serde_json::Value| c.violation(sig, json!({"case": ctxt, "detail": d}));
            if p.delivered_in_full() || head_only || p.wire_len() == 0 {
                match conn.response(if c.quick() { 45.0 } else { 90.0 }, head_only) {
                    Err(e) => return bad("response-not-complete", json!({"got": format!("{e:?}"), "pending": show(&conn.buf[..conn.buf.len().min(300)])})),
                    Ok(r) => {
                        let want = p.wire_len();
                        if r.h("X-Vid") != Some(&p.id) {
                            return bad("not-the-response-expected", json!({"headers": r.headers, "pending": show(&conn.buf[..conn.buf.len().min(200)])}));
                        }
                        if r.h("Content-Length") != Some(want.to_string().as_str()) {
                            return bad("content-length-is-not-the-length-of-the-body", json!({"wanted": want, "headers": r.headers}));
                        }
                        for (n, _) in p.headers.iter().filter(|(n, _)| !n.eq_ignore_ascii_case("content-length")) {
                            let want: Vec<&str> = p.headers.iter().filter(|(a, _)| a.eq_ignore_ascii_case(n)).map(|(_, v)| v.as_str()).collect();
                            if r.all(n) != want {
                                return bad("fields-differ", json!({"name": n, "wanted": clip(&format!("{want:?}"), 300), "got": clip(&format!("{:?}", r.all(n)), 300)}));
                            }
                        }
                        if r.status != p.status {
                            return bad("status-differs", json!({"wanted": p.status, "got": r.status}));
                        }
                        if !head_only && r.body != payload(&p.id, p.has)[..want] {
                            return bad("body-differs", json!({"wanted_len": want, "got_len": r.body.len()}));
                        }
                        c.count("complete_responses_checked", 1);
                        c.count("body_bytes_checked", r.body.len() as u64);
                    }
                }
                if !conn.buf.is_empty() {
                    return bad("bytes-after-the-response", json!({"bytes": show(&conn.buf[..conn.buf.len().min(200)])}));
                }
            } else {
                // The body cannot be complete: a prefix at most, and then the end of the connection.
                conn.try_send(format!("GET / HTTP/1.1\r\nX-Vid: {}\r\n\r\n", p.id).as_bytes());
                if conn.until_eof(45.0).is_err() {
                    return bad("incomplete-body-but-connection-open", json!({"received": conn.buf.len()}));
                }
                if !conn.buf.is_empty() {
                    match parse_head_only(&conn.buf) {
                        Some((r, at)) => {
                            if r.h("Content-Length") != Some(p.announced.to_string().as_str()) {
                                return bad("content-length-is-not-the-announced-one", json!({"headers": r.headers}));
                            }
                            let got = &conn.buf[at..];
                            if got.len() >= p.announced || !payload(&p.id, p.has).starts_with(got) {
                                return bad("incomplete-body-padded-or-followed", json!({"announced": p.announced, "source_had": p.has, "received": got.len(), "end": show(&got[got.len().saturating_sub(100)..])}));
                            }
                        }
                        None if conn.reset => {}
                        None => return bad("malformed-head", json!({"bytes": show(&conn.buf[..conn.buf.len().min(300)])})),
                    }
                }
                c.count("incomplete_bodies_ended_the_connection", 1);
                break;
            }
            if i < 6 {
                c.sample(ctxt);
            }
        }
    });
    // The error responses of the server itself are delimited too: 404 (not 400, C04 looks at it).
    let (s2, _log) = (start(false, timeouts(5000, 5000), |_| {}), ());
    for _ in 0..20 {
        let t = Instant::now();
        if let Ok(mut conn) = s2.conn() {
            conn.try_send(b"GET /nothing HTTP/1.1\r\n\r\nPOST /x HTTP/1.1\r\nContent-Length: 3\r\n\r\nabcGET /../.. HTTP/1.1\r\n\r\n");
            for _ in 0..3 {
                match conn.response(10.0, false) {
                    Ok(r) if r.status >= 400 => c.count("error_responses_checked", 1),
                    Ok(r) => c.violation("unexpected-success", json!({"status": r.status})),
                    Err(e) => c.violation("error-response-not-delimited", json!({"got": format!("{e:?}"), "after_s": t.elapsed().as_secs_f64()})),
                }
            }
        }
        if c.violated() {
            break;
        }
    }
    s2.stop_later();
    srv.stop_later();
    tsrv.stop_later();
    crate::big::end(large);
    require("response_bodies_over_32_bits", 1);
    require("complete_responses_checked", 1000);
    require("heads_with_other_fields", 300);
    require("responses_over_8_mib", 5);
    require("incomplete_bodies_ended_the_connection", 100);
}

fn parse_head_only(b: &[u8]) -> Option<(Resp, usize)> {
    parse_response(b, true).ok().flatten()
}
