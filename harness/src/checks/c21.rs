//! C21: the client against servers that behave, watched from both ends of every connection.
use crate::rawsrv::*;
use crate::srv::*;
use crate::traffic::*;
use crate::util::*;
use serde_json::{json, Value};
use std::collections::HashMap;
use std::io::{Cursor, Read};
use std::net::TcpStream;
use std::sync::atomic::{AtomicBool, Ordering::SeqCst};
use std::sync::{Arc, Mutex, OnceLock};
use std::time::{Duration, Instant};
use wruster::http::client::{Client, ClientResponse};
use wruster::http::headers::{Header, Headers};
use wruster::http::{Body, HttpMethod, Request, StatusCode};

/// What one call sends and what the server does with it.
#[derive(Debug, Default)]
struct Plan {
    id: String,
    method: &'static str,
    version: &'static str,
    headers: Vec<(String, String)>,
    query: String,
    body: Vec<u8>,
    // the response
    rheaders: Vec<(String, String)>,
    reason: String,
    status: u16,
    rversion: &'static str,
    rconnection: Option<&'static str>,
    rlen: usize,
    length: bool,
    pieces: usize,
    pause_us: u64,
    before_ms: u64,
    /// send a part, watch for bytes of the client, send the rest
    hold_ms: u64,
    /// close without having said so
    close_silently: bool,
    /// the connection must not be used for another request
    ends: bool,
    closed: AtomicBool,
    runs: std::sync::atomic::AtomicU64,
}
impl Plan {
    fn brief(&self) -> Value {
        json!({"id": self.id, "request": format!("{} {} {:?} and a query of {} bytes", self.method, self.version, &self.headers[..self.headers.len().min(6)], self.query.len()), "body": self.body.len(), "response": format!("{} {} Connection: {:?} length {}", self.rversion, self.status, self.rconnection, if self.length { self.rlen as i64 } else { -1 }), "reason": clip(&self.reason, 60), "fields": self.rheaders.len(), "hold_ms": self.hold_ms, "close_silently": self.close_silently})
    }
    fn rbody(&self) -> Vec<u8> {
        payload(&self.id, self.rlen)
    }
    fn bodyless(&self) -> bool {
        self.method == "HEAD" || matches!(self.status, 204 | 304)
    }
}
type Plans = Arc<Mutex<HashMap<String, Arc<Plan>>>>;

fn serve(plans: &Plans, sock: TcpStream) {
    let _ = sock.set_read_timeout(Some(Duration::from_secs(120)));
    let _ = sock.set_nodelay(true);
    let mut rng = c().rng("raw", sock.peer_addr().map_or(0, |a| a.port() as u64));
    let mut r = ReqReader::new(sock);
    r.max = *rng.pick(&[1, 100, 4096, 1 << 16]);
    let mut served: Vec<String> = vec![];
    loop {
        let q = match r.request() {
            Ok(Some(q)) => q,
            Ok(None) => break,
            Err(e) => {
                c().violation("client-request-not-well-formed", json!({"found": e, "after_on_this_connection": served}));
                return;
            }
        };
        let id = q.target.split('?').next().unwrap_or("").rsplit('/').next().unwrap_or("").to_string();
        let Some(p) = lock(plans).get(&id).cloned() else {
            c().violation("unknown-request", json!({"target": q.target}));
            return;
        };
        let before = served.clone();
        let d = |m: String| json!({"why": m, "call": p.brief(), "before_on_this_connection": before});
        if p.runs.fetch_add(1, SeqCst) > 0 {
            c().violation("request-sent-twice", d("the server got this request twice".into()));
        }
        let wrong = if q.method != p.method || q.version != p.version || q.target != format!("/call/{}{}", p.id, p.query) {
            Some(format!("{} {} {}", q.method, clip(&q.target, 200), q.version))
        } else if q.body != p.body {
            Some(format!("a body of {} bytes, not {}", q.body.len(), p.body.len()))
        } else {
            let values = |hs: &[(String, String)], n: &str| hs.iter().filter(|(a, _)| a.eq_ignore_ascii_case(n)).map(|(_, v)| v.clone()).collect::<Vec<_>>();
            p.headers.iter().find(|(n, _)| values(&q.headers, n) != values(&p.headers, n)).map(|h| format!("{:?} as the values of {}, not {:?}", values(&q.headers, &h.0), h.0, values(&p.headers, &h.0)))
        };
        if let Some(m) = wrong {
            c().violation("wrong-request-on-the-wire", d(format!("the server received {m}")));
        }
        if p.before_ms > 0 {
            std::thread::sleep(Duration::from_millis(p.before_ms));
        }
        if r.has_data() {
            c().violation("used-before-the-response", d("bytes behind the request before its response was sent".into()));
        }
        if !served.is_empty() {
            c().count("requests_on_a_reused_connection", 1);
        }
        let mut out = format!("{} {} {}\r\nX-Id: {}\r\nX-M: 1 {}\r\nx-m: 2\r\n", p.rversion, p.status, p.reason, p.id, p.id);
        for (n, v) in &p.rheaders {
            let (lead, trail) = (*rng.pick(&["", " ", " ", "\t "]), *rng.pick(&["", "", " "]));
            out += &format!("{n}:{lead}{v}{trail}\r\n");
        }
        if let Some(v) = p.rconnection {
            out += &format!("Connection: {v}\r\n");
        }
        if p.length {
            out += &format!("{}: {}\r\nContent-Type: text/plain\r\n", rng.pick(&["Content-Length", "Content-Length", "content-length", "CONTENT-LENGTH"]), p.rlen);
        }
        out += "\r\n";
        let mut b = out.into_bytes();
        let head = b.len();
        if p.length && !p.bodyless() {
            b.extend_from_slice(&p.rbody());
        }
        let ok = if p.hold_ms > 0 && b.len() > head + 1 {
            let at = rng.range(head, b.len() - 1);
            write_in_pieces(&mut r.sock, &b[..at], p.pieces, p.pause_us, &mut rng)
                .and_then(|_| {
                    let end = Instant::now() + Duration::from_millis(p.hold_ms);
                    while Instant::now() < end {
                        std::thread::sleep(Duration::from_millis(1));
                        if r.has_data() {
                            c().violation("used-before-the-response-was-complete", d("the client sent bytes although the response was not complete".into()));
                        }
                    }
                    c().count("incomplete_responses_watched", 1);
                    write_in_pieces(&mut r.sock, &b[at..], p.pieces, p.pause_us, &mut rng)
                })
                .is_ok()
        } else {
            write_in_pieces(&mut r.sock, &b, p.pieces, p.pause_us, &mut rng).is_ok()
        };
        served.push(p.id.clone());
        if p.close_silently {
            let _ = r.sock.shutdown(std::net::Shutdown::Both);
            p.closed.store(true, SeqCst);
            return;
        }
        if p.ends {
            if p.rconnection.is_some() && rng.chance(2, 3) {
                let _ = r.sock.shutdown(std::net::Shutdown::Write);
            }
            match r.rest(100.0) {
                Some(b) if b.is_empty() => c().count("ended_connections_watched", 1),
                Some(b) => c().violation("used-after-close", d(format!("bytes on a connection that was to be closed: {}", show(&b)))),
                None => c().violation("not-closed", d("the client kept a connection that it cannot use again".into())),
            }
            return;
        }
        if !ok {
            // the client gave up the rest of the response, which it may; it is checked there
            return;
        }
    }
}

fn method(m: &str) -> HttpMethod {
    METHODS.iter().find(|(n, _)| *n == m).unwrap().1
}
fn request(p: &Plan) -> Request {
    let mut headers = Headers::new();
    for (n, v) in &p.headers {
        headers.add(Header { name: n.clone(), value: v.clone() });
    }
    let uri = format!("/call/{}{}", p.id, p.query);
    let version = p.version.to_string();
    if p.body.is_empty() {
        return Request { method: method(p.method), uri, version, headers, body: None };
    }
    if p.body.len() % 2 == 0 {
        let mut r = Request::from_body(Body::new(Some(mime::TEXT_PLAIN), p.body.len() as u64, Box::new(Cursor::new(p.body.clone()))), method(p.method), &uri);
        for (n, v) in &p.headers {
            r.headers.add(Header { name: n.clone(), value: v.clone() });
        }
        r.version = version;
        r
    } else {
        headers.add(Header { name: "Content-Length".into(), value: p.body.len().to_string() });
        Request { method: method(p.method), uri, version, headers, body: Some(Body::new(None, p.body.len() as u64, Box::new(Cursor::new(p.body.clone())))) }
    }
}

fn plan(rng: &mut Rng) -> Plan {
    let mut p = Plan { id: new_id("k"), ..Default::default() };
    p.method = METHODS[rng.below(METHODS.len())].0;
    p.version = if rng.chance(1, 6) { "HTTP/1.0" } else { "HTTP/1.1" };
    p.headers = vec![("X-Req".into(), p.id.clone())];
    let fields = |rng: &mut Rng, v: &mut Vec<(String, String)>| {
        let many = rng.chance(1, 4);
        let mut size = 0;
        for _ in 0..if many { rng.range(10, 800) } else { rng.range(1, 5) } {
            let n = if rng.chance(1, 3) { rng.pick(&["Set-Cookie", "set-cookie", "Accept", "X-F", "Via"]).to_string() } else { format!("X-{}", rng.token(4)) };
            let len = if rng.chance(1, 100) { 100_000 } else { 40 };
            let len = rng.below(len);
            let value = if rng.chance(1, 10) { "größer = ß; ü".into() } else if len == 0 { String::new() } else { rng.token(len) };
            size += n.len() + value.len() + 10;
            if size > 700_000 {
                break;
            }
            v.push((n, value));
        }
    };
    if rng.chance(1, 3) {
        fields(rng, &mut p.headers);
    }
    if rng.chance(1, 3) {
        fields(rng, &mut p.rheaders);
    }
    c().max("most_fields_of_a_response", p.rheaders.len() as u64);
    p.query = match rng.below(6) {
        0 => format!("?{}", rng.token(20)),
        1 if rng.chance(1, 4) => {
            let n = rng.range(1000, 200_000);
            format!("?{}", rng.token(n))
        }
        _ => String::new(),
    };
    p.reason = match rng.below(8) {
        0 => String::new(),
        1 => "A rather  long reason, with (signs) & numbers 123 / 4.5".into(),
        2 if rng.chance(1, 4) => rng.token(50_000),
        _ => "Some Reason".into(),
    };
    let mut persistent = p.version == "HTTP/1.1";
    if p.version == "HTTP/1.0" && rng.chance(2, 3) {
        p.headers.push(("Connection".into(), rng.pick(&["keep-alive", "Keep-Alive", "x-y, keep-alive"]).to_string()));
        persistent = true;
    } else if rng.chance(1, 10) {
        p.headers.push(("Connection".into(), rng.pick(&["close", "Close", "x-y , close", "close, x-y"]).to_string()));
        persistent = false;
    }
    if rng.chance(2, 5) {
        let max = if rng.chance(1, 60) { 4_000_000 } else { 40_000 };
        p.body = body_bytes(rng, max);
    }
    p.status = if rng.chance(1, 3) { rng.range(200, 599) as u16 } else { *rng.pick(&[200, 200, 200, 200, 201, 404, 500, 418, 299, 204, 304, 599]) };
    p.rversion = if rng.chance(1, 6) { "HTTP/1.0" } else { "HTTP/1.1" };
    let mut rpersistent = p.rversion == "HTTP/1.1";
    if p.rversion == "HTTP/1.0" && rng.chance(2, 3) {
        p.rconnection = Some(*rng.pick(&["keep-alive", "Keep-Alive", "a, keep-alive"]));
        rpersistent = true;
    } else if rng.chance(1, 10) {
        p.rconnection = Some(*rng.pick(&["close", "CLOSE", "a,close", "close ,b"]));
        rpersistent = false;
    }
    p.length = !matches!(p.status, 204 | 304);
    let max = if rng.chance(1, 60) { 12_000_000 } else { 60_000 };
    p.rlen = size(rng, max);
    p.pieces = if rng.chance(1, 2) { 1 } else { rng.range(2, 12) };
    p.pause_us = *rng.pick(&[0, 0, 200, 2000]);
    p.before_ms = if rng.chance(1, 10) { rng.range(1, 30) as u64 } else { 0 };
    p.hold_ms = if rng.chance(1, 6) { rng.range(2, 40) as u64 } else { 0 };
    p.ends = !persistent || !rpersistent || !p.length;
    p.close_silently = !p.ends && rng.chance(1, 12);
    p
}

fn close_seen(p: &Plan) {
    if p.close_silently {
        let end = Instant::now() + Duration::from_secs(20);
        while !p.closed.load(SeqCst) && Instant::now() < end {
            std::thread::sleep(Duration::from_micros(300));
        }
        std::thread::sleep(Duration::from_millis(1));
    }
}

const USES: [&str; 9] = ["all", "content", "part", "drop", "take", "take-part", "small", "part-content", "replace"];

/// Reads the response in the given way and checks it against the plan.
fn consume(p: &Plan, mut r: ClientResponse, how: &str, rng: &mut Rng) -> Result<(), (String, String)> {
    let e = |s: &str, m: String| Err((s.to_string(), m));
    if r.status != StatusCode::from(p.status as usize) {
        return e("wrong-status", format!("status {}", r.status));
    }
    if r.headers.get("X-Id").map(|v| v.to_vec()) != Some(vec![p.id.clone()]) {
        return e("response-of-another-request", format!("X-Id {:?}", r.headers.get("X-Id")));
    }
    if r.headers.get("x-m").map(|v| v.to_vec()) != Some(vec![format!("1 {}", p.id), "2".into()]) {
        return e("wrong-headers", format!("X-M {:?}", r.headers.get("X-M")));
    }
    for (n, _) in &p.rheaders {
        let want: Vec<&String> = p.rheaders.iter().filter(|(a, _)| a.eq_ignore_ascii_case(n)).map(|(_, v)| v).collect();
        let got: Option<Vec<&String>> = r.headers.get(n).map(|v| v.iter().collect());
        if got.as_ref() != Some(&want) {
            return e("wrong-headers", clip(&format!("{n}: {got:?}, sent were {want:?}"), 500));
        }
    }
    let want = if p.bodyless() || !p.length { vec![] } else { p.rbody() };
    if r.body.is_none() != want.is_empty() || r.body.as_ref().map_or(0, |b| b.content_length) != want.len() as u64 {
        return e("wrong-body-length", format!("body {:?}, expected {} bytes", r.body, want.len()));
    }
    let part = rng.below(want.len() + 1);
    let mut got = vec![];
    let mut upto = want.len();
    // (`part` reads less and then lets the response go)
    let io = match (how, r.body.as_mut()) {
        (_, None) => Ok(0),
        ("all", Some(b)) => b.read_to_end(&mut got),
        ("content", Some(b)) => b.content.read_to_end(&mut got),
        ("small", Some(b)) => (|| loop {
            let mut t = [0; 700];
            let n = rng.range(1, 700);
            let n = b.read(&mut t[..n])?;
            if n == 0 {
                return Ok(0);
            }
            got.extend_from_slice(&t[..n]);
        })(),
        ("part", Some(b)) | ("part-content", Some(b)) => {
            upto = part;
            got = vec![0; part];
            (if how == "part" { b.read_exact(&mut got) } else { b.content.read_exact(&mut got) }).map(|_| 0)
        }
        ("take", _) | ("take-part", _) => {
            let mut b = r.body.take().unwrap();
            close_seen(p);
            drop(r);
            if rng.chance(1, 2) {
                std::thread::sleep(Duration::from_millis(rng.below(8) as u64));
            }
            if how == "take-part" {
                upto = part;
            }
            got = vec![0; upto];
            let io = b.read_exact(&mut got).map(|_| 0);
            return match io {
                Err(x) => e("body-error", format!("reading a body taken from the response: {x}")),
                Ok(_) if got != want[..upto] => e("wrong-body", "the body taken from the response".into()),
                Ok(_) => Ok(()),
            };
        }
        ("replace", _) => {
            upto = 0;
            r.body = if rng.chance(1, 2) { None } else { Some(Body::from("another", mime::TEXT_PLAIN)) };
            Ok(0)
        }
        _ => {
            upto = 0;
            Ok(0)
        }
    };
    if let Err(x) = io {
        return e("body-error", format!("{x} after {} of {} bytes", got.len(), want.len()));
    }
    if got != want[..upto] {
        return e("wrong-body", format!("{} bytes: {}", got.len(), show(&got[..got.len().min(80)])));
    }
    close_seen(p);
    Ok(())
}

fn caller(client: &Arc<Client>, servers: &[(RawServer, Plans)], i: u64, rng: &mut Rng) {
    let mut held: Vec<(Arc<Plan>, Plans, ClientResponse, &'static str)> = vec![];
    let n = 30;
    for k in 0..=n {
        let keep = if k == n { 0 } else { rng.below(3) };
        while held.len() > keep {
            let (p, plans, r, how) = held.remove(rng.below(held.len()));
            let res = consume(&p, r, how, rng);
            if let Err((sig, m)) = res {
                c().violation(&sig, json!({"case": i, "why": m, "read": how, "call": p.brief()}));
                return;
            }
            lock(&plans).remove(&p.id);
            c().count(&format!("read:{how}"), 1);
            if i == 0 {
                c().sample(json!({"read": how, "call": p.brief()}));
            }
            c().eval(Some((p.method, p.version, p.headers.len(), p.body.is_empty(), p.status, p.rversion, p.rconnection, p.pieces > 1, p.hold_ms > 0, p.close_silently, how, p.rlen.leading_zeros())));
        }
        if k == n || c().stopped() {
            break;
        }
        let (srv, plans) = rng.pick(servers);
        let p = Arc::new(plan(rng));
        lock(plans).insert(p.id.clone(), p.clone());
        let addr = if srv.addr.ip().to_string() == "127.0.0.1" { format!("localhost:{}", srv.addr.port()) } else { srv.addr.to_string() };
        let before = Instant::now();
        match client.run(&addr, request(&p)) {
            Ok(r) => held.push((p, plans.clone(), r, *rng.pick(&USES))),
            Err(e) => {
                c().violation("call-failed", json!({"case": i, "error": format!("{e:?}"), "call": p.brief(), "after_s": before.elapsed().as_secs_f64()}));
                return;
            }
        }
        c().count("calls", 1);
    }
}

/// The same with the repository's own server, which also closes idle connections and restarts.
fn own_server(i: u64, rng: &mut Rng) {
    const IDLE_MS: u64 = 300;
    static SRV: OnceLock<(Running, VLog)> = OnceLock::new();
    let (srv, _) = SRV.get_or_init(|| universal(false, timeouts(IDLE_MS, 20_000)));
    let client = Client::default();
    for k in 0..8 {
        let max = if rng.chance(1, 20) { 3_000_000 } else { 30_000 };
        let mut s = Spec::random(rng, "own", 0, max);
        if s.resp != "echo" {
            s.body = vec![];
            if rng.chance(1, 2) {
                s.body = body_bytes(rng, 30_000);
            }
            s.set_read(rng);
        }
        let mut headers = Headers::new();
        for (n, v) in [("X-Vid", s.id.clone()), ("X-Vread", s.read.clone()), ("X-Vresp", format!("{}:{}", s.resp, s.resp_len))] {
            headers.add(Header { name: n.into(), value: v });
        }
        let body = if s.body.is_empty() {
            None
        } else {
            headers.add(Header { name: "Content-Length".into(), value: s.body.len().to_string() });
            Some(Body::new(None, s.body.len() as u64, Box::new(Cursor::new(s.body.clone()))))
        };
        let t = Instant::now();
        let r = client.run(&srv.addr.to_string(), Request { method: method(s.method), uri: s.target.clone(), version: "HTTP/1.1".into(), headers, body });
        let d = |m: String| json!({"case": i, "call": k, "why": m, "request": s.brief()});
        let mut r = match r {
            Ok(r) => r,
            Err(e) if c().stalled_since(t).as_millis() > 50 => {
                c().count("calls_given_up_after_a_stall", 1);
                let _ = e;
                return;
            }
            Err(e) => {
                c().violation("call-failed:own-server", d(format!("{e:?}")));
                return;
            }
        };
        if r.status != StatusCode::OK || r.headers.get("X-Vid").map(|v| v.to_vec()) != Some(vec![s.id.clone()]) {
            c().violation("response-of-another-request", d(format!("{} {:?}", r.status, r.headers.get("X-Vid"))));
            return;
        }
        let mut got = vec![];
        if rng.chance(4, 5) {
            if let Some(b) = r.body.as_mut() {
                if let Err(e) = b.read_to_end(&mut got) {
                    c().violation("body-error", d(e.to_string()));
                    return;
                }
            }
            if got != s.expected_body() {
                c().violation("wrong-body", d(format!("{} bytes", got.len())));
                return;
            }
        }
        drop(r);
        c().count("calls_to_the_repository_server", 1);
        // well within the idle time of the server, or well beyond it
        let idle = if rng.chance(1, 4) { IDLE_MS * 2 + 50 } else { rng.below(40) as u64 };
        if idle > IDLE_MS {
            c().count("idle_times_beyond_the_server_timeout", 1);
        }
        let t = Instant::now();
        std::thread::sleep(Duration::from_millis(idle));
        if idle < IDLE_MS && t.elapsed() > Duration::from_millis(120) {
            // a stall: the connection may be about to be closed
            std::thread::sleep(Duration::from_millis(IDLE_MS * 2));
        }
    }
    c().eval(Some(("own", i)));
}

fn restarts(rounds: usize) {
    let client = Client::new();
    let addr = fresh_addr();
    for k in 0..rounds {
        let mut s = wruster::Server::new();
        let r = wruster::router::Router::new();
        r.add("/", HttpMethod::GET, Box::new(move |_| wruster::http::Response::from_str_ok(k)));
        if s.run(&addr.to_string(), r).is_err() {
            return;
        }
        for j in 0..3 {
            let q = Request { method: HttpMethod::GET, uri: "/".into(), version: "HTTP/1.1".into(), headers: Headers::new(), body: None };
            let mut b = vec![];
            let res = client.run(&addr.to_string(), q).map_err(|e| format!("{e:?}")).and_then(|mut r| r.body.as_mut().ok_or("no body".to_string())?.read_to_end(&mut b).map_err(|e| e.to_string()));
            if res.is_err() || b != format!("server {k}").into_bytes() {
                c().violation("call-failed:after-restart", json!({"round": k, "call": j, "found": format!("{res:?} {}", show(&b))}));
                return;
            }
        }
        c().count("restarts_of_the_server", 1);
        let t = Instant::now();
        match shutdown_in(s, 30) {
            Some(Ok(())) => (),
            r => {
                c().violation("shutdown", json!({"found": format!("{r:?}"), "after_s": t.elapsed().as_secs_f64()}));
                return;
            }
        }
    }
}
trait Ok1 {
    fn from_str_ok(k: usize) -> wruster::http::Response;
}
impl Ok1 for wruster::http::Response {
    fn from_str_ok(k: usize) -> wruster::http::Response {
        use std::str::FromStr;
        wruster::http::Response::from_str(&format!("server {k}")).unwrap()
    }
}

pub fn run() {
    c().rule("a call is distinct by method, version, Connection options of both sides, presence of a body, status, how the response is cut, held back, closed and read, and the magnitude of its length");
    c().assume("a server that closes an idle connection without having said so is only used again after its FIN has arrived; the race between a FIN and the next request cannot be decided by any client");
    c().assume("requests carry a Content-Length when they carry a body (the known finding of C08 is about those that do not)");
    let large = crate::big::beside(crate::big::client);
    let groups = c().n(6, 160);
    for g in 0..groups {
        // Some groups share addresses, some share ports.
        let mut servers: Vec<(RawServer, Plans)> = vec![];
        for k in 0..if g % 2 == 0 { 2 } else { 6 } {
            let plans: Plans = Default::default();
            let p2 = plans.clone();
            let ip = [127, 0, 0, 1 + if g % 3 == 1 { k / 3 } else { k } as u8].into();
            let port = if g % 3 == 2 && k > 0 || g % 3 == 0 && k == 1 { servers[0].0.addr.port() } else { 0 };
            let f = move |_, s| serve(&p2, s);
            let s = match RawServer::try_start(ip, port, f.clone()) {
                Ok(s) => s,
                Err(_) => RawServer::start(ip, f),
            };
            if port != 0 && s.addr.port() == port {
                c().count("servers_that_share_a_port", 1);
            }
            if servers.iter().any(|o| o.0.addr.ip() == s.addr.ip()) {
                c().count("servers_that_share_an_address", 1);
            }
            servers.push((s, plans));
        }
        let client = Arc::new(Client::new());
        par(12, 24, &format!("group{g}"), |i, rng| caller(&client, &servers, i, rng));
        if c().stopped() {
            return;
        }
        drop(client);
        std::thread::sleep(Duration::from_millis(20));
    }
    par(8, c().n(60, 1500), "own", own_server);
    restarts(c().n(15, 200));
    crate::big::end(large);
    require("calls", 3000);
    require("servers_that_share_a_port", 2);
    require("servers_that_share_an_address", 2);
    require("requests_on_a_reused_connection", 200);
    require("incomplete_responses_watched", 100);
    require("ended_connections_watched", 200);
    require("calls_to_the_repository_server", 300);
    require("idle_times_beyond_the_server_timeout", 50);
    require("restarts_of_the_server", 10);
    for u in USES {
        require(&format!("read:{u}"), 100);
    }
}
