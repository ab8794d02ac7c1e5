//! C22: the client against servers that break off, reset, stall, send nonsense or unsupported responses.
use crate::rawsrv::*;
use crate::srv::*;
use crate::traffic::*;
use crate::util::*;
use crate::wire::set_linger0;
use serde_json::{json, Value};
use std::collections::HashMap;
use std::io::{Cursor, Read, Write};
use std::net::TcpStream;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};
use wruster::http::client::Client;
use wruster::http::headers::{Header, Headers};
use wruster::http::{Body, HttpMethod, Request, StatusCode};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum End {
    Close,
    Reset,
    KeepOpen,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Before {
    /// the whole request is read
    Read,
    /// nothing of the request is read
    Unread,
    Half,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Want {
    /// the call or the reading of its body fails
    Error,
    /// the call itself fails
    CallError,
    /// an error, or exactly as many bytes as announced
    NoLie,
    Good,
}
struct Bad {
    what: String,
    before: Before,
    send: Vec<u8>,
    pieces: usize,
    pause_us: u64,
    /// after `send`: again and again, until the client goes away
    forever: Option<(Vec<u8>, Duration)>,
    end: End,
    want: Want,
    /// of a response that is good
    body: Vec<u8>,
    sent: AtomicU64,
    done: AtomicBool,
    /// after a good response: what the server does with the idle connection
    idle: u8,
}
impl Bad {
    fn new(what: &str, send: &[u8], end: End, want: Want) -> Bad {
        Bad { what: what.into(), before: Before::Read, send: send.to_vec(), pieces: 1, pause_us: 0, forever: None, end, want, body: vec![], sent: AtomicU64::new(0), done: AtomicBool::new(false), idle: 0 }
    }
    fn good(rng: &mut Rng) -> Bad {
        let body = body_bytes(rng, 20_000);
        let mut v = format!("HTTP/1.1 200 OK\r\nX-Good: 1\r\nContent-Length: {}\r\n\r\n", body.len()).into_bytes();
        v.extend_from_slice(&body);
        let mut b = Bad::new("good", &v, End::KeepOpen, Want::Good);
        b.body = body;
        b
    }
}
type Bads = Arc<Mutex<HashMap<String, Arc<Bad>>>>;

fn serve(bads: &Bads, mut sock: TcpStream) {
    let _ = sock.set_nodelay(true);
    let _ = sock.set_write_timeout(Some(Duration::from_secs(100)));
    let mut rng = c().rng("bad", sock.peer_addr().map_or(0, |a| a.port() as u64));
    let mut seen = vec![];
    loop {
        // enough of the request to know which one it is
        let _ = sock.set_read_timeout(Some(Duration::from_secs(200)));
        let b = loop {
            let text = String::from_utf8_lossy(&seen).to_string();
            if let Some(i) = text.find("/bad/") {
                if let Some(j) = text[i..].find(' ') {
                    let id = text[i + 5..i + j].to_string();
                    match lock(bads).get(&id) {
                        Some(b) => break b.clone(),
                        None => return,
                    }
                }
            }
            let mut t = [0; 64];
            match sock.read(&mut t) {
                Ok(0) | Err(_) => return,
                Ok(n) => seen.extend_from_slice(&t[..n]),
            }
        };
        let mut r = ReqReader::new(sock.try_clone().unwrap());
        r.buf = std::mem::take(&mut seen);
        match b.before {
            Before::Read => match r.request() {
                Ok(Some(_)) => (),
                x => {
                    c().violation("request-not-well-formed", json!({"found": format!("{x:?}"), "server": b.what}));
                    return;
                }
            },
            Before::Unread => (),
            Before::Half => {
                let mut t = vec![0; 200_000];
                let _ = sock.set_read_timeout(Some(Duration::from_millis(50)));
                let _ = sock.read(&mut t);
            }
        }
        seen = r.buf;
        let ok = write_in_pieces(&mut sock, &b.send, b.pieces, b.pause_us, &mut rng).is_ok();
        b.sent.fetch_add(b.send.len() as u64, SeqCst);
        if let Some((chunk, pause)) = &b.forever {
            while sock.write_all(chunk).is_ok() {
                b.sent.fetch_add(chunk.len() as u64, SeqCst);
                std::thread::sleep(*pause);
            }
        }
        if b.idle > 0 && ok {
            // wait until the response is with the client, then spoil the idle connection
            while !b.done.load(SeqCst) {
                std::thread::sleep(Duration::from_micros(300));
            }
            match b.idle {
                1 => {
                    let _ = sock.shutdown(std::net::Shutdown::Both);
                }
                2 => {
                    set_linger0(&sock);
                }
                3 => {
                    let _ = sock.write_all(b"HTTP/1.1 200 OK\r\nContent-Length: 0\r\n\r\n");
                }
                _ => {
                    let _ = sock.write_all(b"x");
                    let _ = sock.shutdown(std::net::Shutdown::Both);
                }
            }
            drop(r.sock);
            if b.idle == 2 {
                drop(sock);
                b.done.store(false, SeqCst);
                return;
            }
            b.done.store(false, SeqCst);
            let mut t = [0; 16];
            let _ = sock.read(&mut t);
            return;
        }
        match b.end {
            End::Close => {
                let _ = sock.shutdown(std::net::Shutdown::Write);
                b.done.store(true, SeqCst);
                let _ = sock.set_read_timeout(Some(Duration::from_secs(100)));
                let mut t = [0; 4096];
                while matches!(sock.read(&mut t), Ok(n) if n > 0) {}
                return;
            }
            End::Reset => {
                set_linger0(&sock);
                drop((r.sock, sock));
                b.done.store(true, SeqCst);
                return;
            }
            End::KeepOpen => (),
        }
    }
}

const HEADS: [&str; 46] = [
    "garbage\r\n\r\n", "\r\n\r\n", " HTTP/1.1 200 OK\r\nContent-Length: 0\r\n\r\n", "HTTP/1.1\r\n\r\n", "HTTP/1.1 OK\r\n\r\n", "HTTP/1.1 abc OK\r\nContent-Length: 0\r\n\r\n",
    "HTTP/1.1 20 OK\r\nContent-Length: 0\r\n\r\n", "HTTP/1.1 2000 OK\r\nContent-Length: 0\r\n\r\n", "HTTP/1.1 -20 OK\r\nContent-Length: 0\r\n\r\n", "HTTP/1.1 +20 OK\r\nContent-Length: 0\r\n\r\n",
    "HTTP/1.1 2x0 OK\r\nContent-Length: 0\r\n\r\n", "HTTP/ 200 OK\r\nContent-Length: 0\r\n\r\n", "HTTP/1 200 OK\r\nContent-Length: 0\r\n\r\n", "HTTP/a.b 200 OK\r\nContent-Length: 0\r\n\r\n", "HTTP/1.x 200 OK\r\nContent-Length: 0\r\n\r\n",
    "HTP/1.1 200 OK\r\nContent-Length: 0\r\n\r\n", "ICY 200 OK\r\nContent-Length: 0\r\n\r\n", "GET / HTTP/1.1\r\n\r\n", "200 OK HTTP/1.1\r\nContent-Length: 0\r\n\r\n", "HTTP/1.1 200 OK\r\nno colon\r\nContent-Length: 0\r\n\r\n",
    "HTTP/1.1 200 OK\r\n: no name\r\nContent-Length: 0\r\n\r\n", "HTTP/1.1 200 OK\r\nX Y: z\r\nContent-Length: 0\r\n\r\n", "HTTP/1.1 200 OK\r\nX\0Y: z\r\nContent-Length: 0\r\n\r\n", "HTTP/1.1 200 OK\r\nX@Y: z\r\nContent-Length: 0\r\n\r\n",
    "HTTP/1.1 200 OK\r\nContent-Length : 3\r\n\r\nabc", "HTTP/1.1 200 OK\r\nContent-Length: 5x\r\n\r\nabcde", "HTTP/1.1 200 OK\r\nContent-Length: -5\r\n\r\nabcde", "HTTP/1.1 200 OK\r\nContent-Length: +5\r\n\r\nabcde",
    "HTTP/1.1 200 OK\r\nContent-Length: 99999999999999999999999999\r\n\r\nabcde", "HTTP/1.1 200 OK\r\nContent-Length: 5, 6\r\n\r\nabcdef", "HTTP/1.1 200 OK\r\nContent-Length: 0x5\r\n\r\nabcde", "HTTP/1.1 200 OK\r\nContent-Length: 5\r\nContent-Length: 6\r\n\r\nabcdef",
    "HTTP/1.1 200 OK\r\nContent-Length: 6\r\ncontent-length: 5\r\n\r\nabcdef", "HTTP/1.1 200 OK\r\nContent-Length: 5 5\r\n\r\nabcde", "HTTP/1.1 200 OK\r\nContent-Length: five\r\n\r\nabcde", "HTTP/1.1 200 OK\r\nX: \x01\x02\r\nContent-Length: 0\r\n\r\n",
    "HTTPS/1.1 200 OK\r\nContent-Length: 0\r\n\r\n", "HTTPX/1.0 200 OK\r\nContent-Length: 0\r\n\r\n", "XHTTP/1.1 200 OK\r\nContent-Length: 0\r\n\r\n", "SHTTP/1.4 200 OK\r\nContent-Length: 2\r\n\r\nok", "HTT/1.1 200 OK\r\nContent-Length: 0\r\n\r\n",
    "RTSP/1.0 200 OK\r\nContent-Length: 0\r\n\r\n", "HTTP 200 OK\r\nContent-Length: 0\r\n\r\n", "HTTP1.1 200 OK\r\nContent-Length: 0\r\n\r\n", "/1.1 200 OK\r\nContent-Length: 0\r\n\r\n", "HTTP//1.1 200 OK\r\nContent-Length: 0\r\n\r\n",
];
const ENCODINGS: [&str; 9] = [
    "Transfer-Encoding: chunked\r\n", "transfer-encoding: Chunked\r\n", "Transfer-Encoding: gzip, chunked\r\n", "Transfer-Encoding: identity, chunked\r\n", "Transfer-Encoding: chunked\r\nContent-Length: 5\r\n", "Content-Length: 5\r\nTRANSFER-ENCODING: chunked\r\n",
    "Transfer-Encoding: identity\r\nTransfer-Encoding: chunked\r\n", "Transfer-Encoding: gzip\r\nContent-Length: 5\r\n", "Transfer-Encoding:\tchunked\r\n",
];

/// `alone`: nobody else uses the client.
fn bad(rng: &mut Rng, alone: bool) -> Bad {
    let end = *rng.pick(&[End::Close, End::Reset]);
    let any = *rng.pick(&[End::Close, End::Reset, End::KeepOpen]);
    let mut b = match *rng.pick(if alone { &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14][..] } else { &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 14] }) {
        0 => Bad::new("no response", b"", end, Want::CallError),
        1 => {
            let mut b = Bad::new("gone before the request is read", b"", end, Want::CallError);
            b.before = *rng.pick(&[Before::Unread, Before::Half]);
            b
        }
        2 | 3 => {
            let g = Bad::good(rng);
            let head = g.send.len() - g.body.len();
            let at = rng.below(head);
            Bad::new("head cut", &g.send[..at], end, Want::CallError)
        }
        4 | 5 => {
            let g = loop {
                let g = Bad::good(rng);
                if !g.body.is_empty() {
                    break g;
                }
            };
            let head = g.send.len() - g.body.len();
            let mut at = rng.range(head, g.send.len() - 1);
            if rng.chance(1, 3) {
                at = g.send.len() - 1;
            }
            Bad::new("body cut", &g.send[..at], end, Want::Error)
        }
        6 | 7 => {
            let k = rng.below(HEADS.len());
            let h = HEADS[k];
            // the first ones may be the beginning of something longer
            let any = if k < 5 { end } else { any };
            Bad::new(&format!("malformed: {}", show(&h.as_bytes()[..h.len().min(60)])), h.as_bytes(), any, Want::CallError)
        }
        14 => {
            let h = match rng.below(4) {
                0 => {
                    let v = bad_version(rng);
                    [&v[..], b" 200 OK\r\nContent-Length: 2\r\n\r\nok"].concat()
                }
                1 => {
                    let n = bad_name(rng);
                    [b"HTTP/1.1 200 OK\r\n", &n[..], b": v\r\nContent-Length: 2\r\n\r\nok"].concat()
                }
                2 => {
                    let v = bad_value(rng);
                    [b"HTTP/1.1 200 OK\r\nX-V: ", &v[..], b"\r\nContent-Length: 2\r\n\r\nok"].concat()
                }
                _ => {
                    // not three digits
                    let mut s = b"200".to_vec();
                    match rng.below(3) {
                        0 => s[rng.below(3)] = *rng.pick(b"+-xOl.:/\0\x7f\xb2o"),
                        1 => s.insert(rng.below(4), *rng.pick(b"0123456789+-.")),
                        _ => {
                            s.remove(rng.below(3));
                        }
                    }
                    [b"HTTP/1.1 ", &s[..], b" OK\r\nContent-Length: 2\r\n\r\nok"].concat()
                }
            };
            Bad::new(&format!("malformed: {}", show(&h[..h.len().min(60)])), &h, any, Want::CallError)
        }
        8 => {
            let e = rng.pick(&ENCODINGS);
            Bad::new(&format!("encoding: {e:?}"), format!("HTTP/1.1 200 OK\r\n{e}\r\n5\r\nabcde\r\n0\r\n\r\n").as_bytes(), any, Want::CallError)
        }
        9 => {
            let n = rng.range(1, 5000);
            Bad::new("garbage", &rng.bytes(n), end, Want::CallError)
        }
        10 => {
            // a good response with some bytes changed
            let mut g = Bad::good(rng);
            for _ in 0..rng.range(1, 4) {
                let i = rng.below(g.send.len().min(80));
                match rng.below(4) {
                    0 => g.send[i] = rng.next() as u8,
                    1 => {
                        g.send.remove(i);
                    }
                    2 => g.send.insert(i, *rng.pick(b"\r\n :0a\x00\xff,")),
                    _ => {
                        let n = rng.below(g.send.len() + 1);
                        g.send.truncate(n.max(1))
                    }
                }
                if g.send.is_empty() {
                    break;
                }
            }
            let mut b = Bad::new("good response with bytes changed", &g.send, end, Want::NoLie);
            b.body = vec![];
            b
        }
        11 => {
            let mut b = Bad::new("endless header section", b"HTTP/1.1 200 OK\r\n", End::Close, Want::CallError);
            let line: &[u8] = if rng.chance(1, 2) { b"X-A: bbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbb\r\n" } else { b"aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa" };
            b.forever = Some((line.repeat(500), Duration::ZERO));
            b
        }
        12 => {
            let mut b = Bad::new("endless status line", if rng.chance(1, 2) { b"HTTP/1.1 200 " } else { b"" }, End::Close, Want::CallError);
            b.forever = Some((vec![b'a'; 30_000], Duration::ZERO));
            b
        }
        _ => {
            let mut b = Bad::good(rng);
            b.what = "good, then the idle connection is spoilt".into();
            b.idle = rng.range(1, 4) as u8;
            b
        }
    };
    b.pieces = if rng.chance(1, 2) { 1 } else { rng.range(2, 10) };
    b.pause_us = *rng.pick(&[0, 300, 1500]);
    b
}

fn request(id: &str, body: &[u8]) -> Request {
    let uri = format!("/bad/{id}");
    let mut headers = Headers::new();
    let version = "HTTP/1.1".to_string();
    if body.is_empty() {
        return Request { method: HttpMethod::GET, uri, version, headers, body: None };
    }
    headers.add(Header { name: "Content-Length".into(), value: body.len().to_string() });
    Request { method: HttpMethod::POST, uri, version, headers, body: Some(Body::new(None, body.len() as u64, Box::new(Cursor::new(body.to_vec())))) }
}

#[derive(Debug)]
enum Got {
    CallErr(String),
    BodyErr(String, usize),
    Whole(u64, Vec<u8>, bool),
    /// the response was dropped unread
    Dropped,
}

/// `before_drop` is called before the response is let go (and its connection can be reused).
fn call(client: &Client, addr: &str, id: &str, body: &[u8], use_: &str, before_drop: impl Fn()) -> Result<Got, String> {
    catch_unwind(AssertUnwindSafe(|| match client.run(addr, request(id, body)) {
        Err(e) => Got::CallErr(format!("{e:?}")),
        Ok(mut r) => {
            let ok = r.status == StatusCode::OK;
            let Some(b) = r.body.as_mut() else {
                before_drop();
                return Got::Whole(0, vec![], ok);
            };
            let len = b.content_length;
            let mut v = vec![];
            let res = match use_ {
                "drop" => {
                    before_drop();
                    return Got::Dropped;
                }
                "content" => b.content.read_to_end(&mut v),
                _ => b.read_to_end(&mut v),
            };
            before_drop();
            match res {
                Err(e) => Got::BodyErr(e.to_string(), v.len()),
                Ok(_) => Got::Whole(len, v, ok),
            }
        }
    }))
    .map_err(|p| p.downcast_ref::<String>().cloned().or(p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default())
}

fn judge(b: &Bad, got: &Result<Got, String>) -> Result<(), String> {
    match (b.want, got) {
        (_, Err(p)) => Err(format!("panic: {p}")),
        (Want::Good, Ok(Got::Whole(_, v, true))) if *v == b.body => Ok(()),
        (Want::Good, Ok(Got::Dropped)) => Ok(()),
        (Want::Good, g) => Err(format!("a good response, but {}", brief(g))),
        (_, Ok(Got::CallErr(_))) => Ok(()),
        (Want::CallError, g) => Err(format!("the call was a success: {}", brief(g))),
        (_, Ok(Got::BodyErr(..) | Got::Dropped)) => Ok(()),
        (Want::Error, g) => Err(format!("a body cut short was presented as complete: {}", brief(g))),
        (Want::NoLie, Ok(Got::Whole(n, v, _))) if *n == v.len() as u64 => Ok(()),
        (Want::NoLie, g) => Err(format!("not as many bytes as announced: {}", brief(g))),
    }
}
fn brief(g: &Result<Got, String>) -> String {
    match g {
        Ok(Got::Whole(n, v, ok)) => format!("{n} bytes announced, {} read, status ok: {ok}: {}", v.len(), show(&v[..v.len().min(60)])),
        g => clip(&format!("{g:?}"), 300),
    }
}

struct World {
    client: Client,
    servers: Vec<(RawServer, Bads)>,
    nobody: std::net::SocketAddr,
}
impl World {
    fn new(k: usize) -> World {
        let servers = (0..k)
            .map(|k| {
                let bads: Bads = Default::default();
                let b2 = bads.clone();
                (RawServer::start([127, 0, 1, 1 + k as u8].into(), move |_, s| serve(&b2, s)), bads)
            })
            .collect();
        World { client: Client::default(), servers, nobody: fresh_addr() }
    }
    fn one(&self, srv: usize, b: Bad, body: &[u8], use_: &str) -> (Arc<Bad>, Result<Got, String>, f64) {
        let (s, bads) = &self.servers[srv];
        let id = new_id("b");
        let b = Arc::new(b);
        lock(bads).insert(id.clone(), b.clone());
        let t = Instant::now();
        let got = call(&self.client, &s.addr.to_string(), &id, body, use_, || {
            // the server ends the connection without having said so: the end has to have arrived
            let t = Instant::now();
            while b.want == Want::NoLie && !b.done.load(SeqCst) && t.elapsed().as_secs() < 10 {
                std::thread::sleep(Duration::from_micros(300));
            }
        });
        lock(bads).remove(&id);
        (b, got, t.elapsed().as_secs_f64())
    }
    fn good(&self, srv: usize, rng: &mut Rng) -> Result<(), String> {
        let n = rng.below(3000);
        let (b, got, _) = self.one(srv, Bad::good(rng), &vec![b'z'; n], "all");
        judge(&b, &got)
    }
}

fn case(w: &World, alone: bool, i: u64, rng: &mut Rng) {
    for _ in 0..6 {
        let srv = rng.below(w.servers.len());
        let b = bad(rng, alone);
        let what = b.what.clone();
        let (kind, end, pieces) = (what.split(':').next().unwrap_or("").to_string(), b.end, b.pieces > 1);
        let use_ = *rng.pick(&["all", "all", "content", "drop"]);
        let max = if rng.chance(1, 20) || b.before == Before::Half { 3_000_000 } else { 5000 };
        let body = if rng.chance(1, 2) || b.before == Before::Half { body_bytes(rng, max) } else { vec![] };
        let shared_addr = b.idle > 0;
        let (b, got, s) = c().guard(&format!("client call: {what}"), 150, || w.one(srv, b, &body, use_));
        let d = |m: &str| -> Value { json!({"case": i, "server": what, "why": m, "sent": show(&b.send[..b.send.len().min(200)]), "sent_bytes": b.send.len(), "end": format!("{:?}", b.end), "read": use_, "request_body": body.len(), "found": brief(&got), "after_s": s}) };
        if let Err(m) = judge(&b, &got) {
            c().violation(&format!("bad-server:{kind}"), d(&m));
            return;
        }
        if s > 20.0 {
            c().violation(&format!("bad-server-slow:{kind}"), d("took more than 20 s although nothing more was to come"));
            return;
        }
        if b.sent.load(SeqCst) > 40_000_000 {
            c().violation(&format!("bad-server-endless:{kind}"), d(&format!("the client took {} bytes of it", b.sent.load(SeqCst))));
            return;
        }
        if shared_addr {
            // let the server spoil the connection, now idle in the pool
            b.done.store(true, SeqCst);
            let t = Instant::now();
            while b.done.load(SeqCst) && t.elapsed().as_secs() < 20 {
                std::thread::sleep(Duration::from_micros(300));
            }
            std::thread::sleep(Duration::from_millis(1));
            c().count("idle_connections_spoilt", 1);
        }
        c().count(&format!("outcome:{}", match &got { Ok(Got::CallErr(_)) => "call error", Ok(Got::BodyErr(..)) => "body error", Ok(Got::Dropped) => "dropped", _ => "whole" }), 1);
        c().count(&format!("server:{kind}"), 1);
        c().eval(Some((kind, end, pieces, use_, body.is_empty(), b.send.len().leading_zeros(), what.clone())));
        if i < 1 {
            c().sample(d("as expected"));
        }
        // the same address, and another one
        for (k, name) in [(srv, "same"), (rng.below(w.servers.len()), "another")] {
            if let Err(m) = w.good(k, rng) {
                c().violation("client-not-usable-afterwards", json!({"case": i, "after": what, "end": format!("{:?}", b.end), "read": use_, "address": name, "why": m}));
                return;
            }
            c().count("good_calls_afterwards", 1);
        }
        if rng.chance(1, 8) {
            let a = match rng.below(3) {
                0 => w.nobody.to_string(),
                1 => "no address".to_string(),
                _ => "127.0.0.1:99999".to_string(),
            };
            match call(&w.client, &a, "x", b"", "all", || ()) {
                Ok(Got::CallErr(_)) => c().count("unreachable_addresses", 1),
                g => c().violation("unreachable", json!({"address": a, "found": brief(&g)})),
            }
        }
    }
}

/// Servers that stop in the middle; the client's own limit is 60 s.
fn stalls() -> Vec<std::thread::JoinHandle<()>> {
    let head = b"HTTP/1.1 200 OK\r\nContent-Length: 100000\r\n\r\n".to_vec();
    let mut half = head.clone();
    half.extend_from_slice(&payload("stall", 5000));
    let slow = Duration::from_millis(400);
    let kinds: Vec<(&str, Vec<u8>, Option<(Vec<u8>, Duration)>, Before, &str, usize)> = vec![
        ("silent", vec![], None, Before::Read, "all", 0),
        ("half a head", head[..20].to_vec(), None, Before::Read, "all", 10),
        ("half a body", half.clone(), None, Before::Read, "all", 0),
        ("half a body", half.clone(), None, Before::Read, "content", 0),
        ("half a body", half.clone(), None, Before::Read, "drop", 0),
        ("head in drips", b"HTTP/1.1 200 ".to_vec(), Some((b"O".to_vec(), slow)), Before::Read, "all", 0),
        ("headers in drips", b"HTTP/1.1 200 OK\r\n".to_vec(), Some((b"A: b\r\n".to_vec(), slow)), Before::Read, "all", 0),
        ("body in drips", half.clone(), Some((b"y".to_vec(), slow)), Before::Read, "all", 0),
        ("body in drips", half, Some((b"y".to_vec(), slow)), Before::Read, "drop", 0),
        ("request not read", vec![], None, Before::Unread, "all", 40_000_000),
    ];
    kinds
        .into_iter()
        .map(|(what, send, forever, before, use_, n)| {
            std::thread::spawn(move || {
                let w = World::new(1);
                let mut b = Bad::new(what, &send, End::KeepOpen, Want::Error);
                b.forever = forever;
                b.before = before;
                if before == Before::Unread {
                    // the connection stays open, unread
                    b.forever = Some((vec![], Duration::from_millis(500)));
                }
                let body = vec![b'q'; n];
                let t = Instant::now();
                let (b, got, s) = w.one(0, b, &body, use_);
                let d = |m: &str| json!({"server": format!("stalls: {what}"), "read": use_, "why": m, "found": brief(&got), "after_s": s});
                if let Err(m) = judge(&b, &got) {
                    c().violation("stalled-server", d(&m));
                } else if s > 75.0 + c().stalled_since(t).as_secs_f64() {
                    c().violation("stalled-server", d("the call went on for more than 75 s (the limit is 60 s)"));
                } else {
                    c().count("stalled_servers_left", 1);
                    c().max("longest_stalled_call_ms", (s * 1000.0) as u64);
                    c().eval(Some(("stall", what, use_)));
                }
                let mut rng = c().rng("stall", 0);
                if let Err(m) = w.good(0, &mut rng) {
                    c().violation("client-not-usable-afterwards", json!({"after": format!("stall: {what}"), "why": m}));
                }
            })
        })
        .collect()
}

pub fn run() {
    c().rule("a call is distinct by what the server does (the exact malformed head or encoding, the kind of cut and its magnitude), how the connection ends, whether it comes in pieces, how the response is used and whether the request has a body");
    c().assume("the client's limits are its constants, 60 s for the request and 60 s for the response; calls to servers that stall are judged against 75 s");
    c().assume("a response without Content-Length has no body for this client (documented restriction); that it may be cut unnoticed is outside the property");
    let st = stalls();
    for g in 0..c().n(5, 60) {
        let w = World::new(4);
        par(12, 72, &format!("world{g}"), |i, rng| case(&w, false, i, rng));
        if c().violated() {
            break;
        }
        // each thread with a client of its own: nothing is shared
        par(8, 48, &format!("alone{g}"), |i, rng| case(&World::new(1), true, i, rng));
        if c().violated() {
            break;
        }
    }
    if !c().violated() {
        for h in st {
            let _ = h.join();
        }
    }
    require("good_calls_afterwards", 2500);
    require("outcome:call error", 500);
    require("outcome:body error", 100);
    require("idle_connections_spoilt", 40);
    require("unreachable_addresses", 100);
    require("stalled_servers_left", 10);
    for k in ["no response", "gone before the request is read", "head cut", "body cut", "malformed", "encoding", "garbage", "good response with bytes changed", "endless header section", "endless status line"] {
        require(&format!("server:{k}"), 60);
    }
}
