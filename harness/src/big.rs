//! Bodies whose length does not fit into 32 bits, as streams nobody holds in memory.
use crate::rawsrv::RawServer;
use crate::srv::*;
use crate::util::*;
use crate::wire::parse_response;
use serde_json::{json, Value};
use std::io::{self, Read, Write};
use std::net::TcpStream;
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::sync::{Arc, Mutex, OnceLock};
use std::time::{Duration, Instant};
use wruster::http::headers::{Header, Headers};
use wruster::http::client::Client;
use wruster::http::{Body, HttpMethod, Request, Response, StatusCode};

/// The bytes repeat with a period that no power of two, and no buffer size, is a multiple of.
const PERIOD: usize = 65_521;
const MAX: usize = 1 << 18;
fn block() -> &'static [u8] {
    static B: OnceLock<Vec<u8>> = OnceLock::new();
    B.get_or_init(|| {
        let one = Rng::new(7, "big", 0).bytes(PERIOD);
        one.iter().cycle().take(PERIOD + MAX).copied().collect()
    })
}
fn at(pos: u64, n: usize) -> &'static [u8] {
    let i = (pos % PERIOD as u64) as usize;
    &block()[i..i + n.min(MAX)]
}

/// The first `n` bytes of the pattern.
pub struct Source(pub u64, pub u64);
impl Source {
    pub fn new(n: u64) -> Source {
        Source(0, n)
    }
}
impl Read for Source {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        let n = (b.len() as u64).min(self.1 - self.0).min(MAX as u64) as usize;
        b[..n].copy_from_slice(at(self.0, n));
        self.0 += n as u64;
        Ok(n)
    }
}

/// Compares what is written with the pattern.
pub struct Sink {
    pub n: u64,
    pub wrong_at: Option<u64>,
}
impl Sink {
    pub fn new() -> Sink {
        Sink { n: 0, wrong_at: None }
    }
}
impl Write for Sink {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        for piece in b.chunks(MAX) {
            if self.wrong_at.is_none() && at(self.n, piece.len()) != piece {
                self.wrong_at = Some(self.n);
            }
            self.n += piece.len() as u64;
        }
        Ok(b.len())
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
/// Reads everything there is.
pub fn drain(r: &mut dyn Read) -> (Sink, Option<String>) {
    let mut s = Sink::new();
    let mut b = vec![0; MAX];
    loop {
        match r.read(&mut b) {
            Ok(0) => return (s, None),
            Ok(n) => drop(s.write(&b[..n])),
            Err(e) => return (s, Some(e.to_string())),
        }
    }
}

/// Runs one of these beside the rest of a check; the result is to be passed to `end`.
pub fn beside(f: impl FnOnce() + Send + 'static) -> Option<std::thread::JoinHandle<()>> {
    (c().case.is_none() && scale().is_none()).then(|| std::thread::spawn(f))
}
/// Waits for it, unless the verdict is clear.
pub fn end(h: Option<std::thread::JoinHandle<()>>) {
    let Some(h) = h else { return };
    while !h.is_finished() && !c().violated() {
        std::thread::sleep(Duration::from_millis(5));
    }
    if h.is_finished() && h.join().is_err() {
        println!("ERROR: the harness panicked: {:?}", lock(&c().unplanned_panics).last());
        std::process::exit(4);
    }
}

pub fn sizes() -> Vec<u64> {
    let l = 1u64 << 32;
    if c().quick() { vec![l] } else { vec![l, l - 1, l + 1, l + 70_000, 1 << 31, (1 << 31) + 5] }
}

const STILL: u64 = 40;
fn open(srv: &Running) -> io::Result<TcpStream> {
    let s = TcpStream::connect(srv.addr)?;
    s.set_nodelay(true)?;
    s.set_read_timeout(Some(Duration::from_secs(STILL)))?;
    s.set_write_timeout(Some(Duration::from_secs(STILL)))?;
    Ok(s)
}
fn answer(s: &mut TcpStream, buf: &mut Vec<u8>) -> Result<(u16, String), String> {
    loop {
        match parse_response(buf, false) {
            Err(e) => return Err(format!("{e:?}: {}", show(&buf[..buf.len().min(200)]))),
            Ok(Some((r, n))) => {
                buf.drain(..n);
                return Ok((r.status, String::from_utf8_lossy(&r.body).to_string()));
            }
            Ok(None) => (),
        }
        let mut t = [0; 4096];
        match s.read(&mut t) {
            Ok(0) => return Err(format!("end of stream after {}", show(buf))),
            Ok(n) => buf.extend_from_slice(&t[..n]),
            Err(e) => return Err(format!("{e}: {}", show(buf))),
        }
    }
}

/// Requests with a large body, of which the handler reads a part (None: everything), each followed by another request.
pub fn requests(read: &[Option<u64>]) {
    for size in sizes() {
        for &read in read {
            if c().violated() {
                return;
            }
            if let Err(d) = request(size, read) {
                c().violation("large-request-body", json!({"body_len": size, "handler_reads": read, "found": d}));
                return;
            }
            c().eval(Some(("large", size, read)));
            c().count("request_bodies_over_32_bits", 1);
        }
    }
}
/// A server with large send buffers: with small ones this takes too long.
fn server(f: impl Fn(&mut Request) -> Response + Send + Sync + Clone + 'static) -> Running {
    let mut s = start_all(false, timeouts(400_000, 400_000), f);
    s.small = !small_send_buffers(s.addr, 4 << 20) && s.small;
    s
}
fn request(size: u64, read: Option<u64>) -> Result<(), Value> {
    let seen: Arc<Mutex<Vec<Value>>> = Default::default();
    let (s2, calls) = (seen.clone(), Arc::new(AtomicU64::new(0)));
    let c2 = calls.clone();
    let srv = server(move |q| {
        c2.fetch_add(1, SeqCst);
        let Some(b) = q.body.as_mut() else { return text("no body") };
        let len = b.content_length;
        let (sink, err) = match read {
            Some(0) => (Sink::new(), None),
            Some(n) => drain(&mut (&mut *b).take(n)),
            None => drain(b),
        };
        lock(&s2).push(json!({"content_length": len, "read": sink.n, "wrong_at": sink.wrong_at, "error": err}));
        text(&format!("{}", sink.n))
    });
    let want = read.unwrap_or(size);
    let r = (|| -> Result<(), Value> {
        let mut s = open(&srv).map_err(|e| json!({"cannot connect": e.to_string()}))?;
        let mut tail = s.try_clone().unwrap();
        // The body and the next request are sent while the response is awaited.
        let send = std::thread::spawn(move || -> io::Result<()> {
            write!(tail, "POST /large HTTP/1.1\r\nContent-Length: {size}\r\n\r\n")?;
            let mut src = Source::new(size);
            while src.0 < src.1 {
                let n = (src.1 - src.0).min(MAX as u64) as usize;
                tail.write_all(at(src.0, n))?;
                src.0 += n as u64;
            }
            tail.write_all(b"GET /next HTTP/1.1\r\n\r\n")
        });
        let mut buf = vec![];
        s.set_read_timeout(Some(Duration::from_secs(200))).unwrap();
        let first = answer(&mut s, &mut buf);
        let second = if first.is_ok() { answer(&mut s, &mut buf) } else { Err("-".into()) };
        let _ = s.shutdown(std::net::Shutdown::Both);
        let sent = send.join().unwrap();
        let d = || json!({"handler": *lock(&seen), "calls": calls.load(SeqCst), "answer": format!("{first:?}"), "next": format!("{second:?}"), "sending": format!("{sent:?}")});
        let ok = first == Ok((200, want.to_string())) && second == Ok((200, "no body".into())) && buf.is_empty();
        let saw = lock(&seen).first().map_or(false, |v| v["content_length"] == json!(size) && v["wrong_at"].is_null() && v["error"].is_null());
        if ok && saw && calls.load(SeqCst) == 2 {
            Ok(())
        } else {
            Err(d())
        }
    })();
    srv.stop_later();
    r
}
fn text(s: &str) -> Response {
    s.parse().unwrap()
}

/// Responses with a large body, each followed by another one.
pub fn responses() {
    for size in sizes() {
        if c().violated() {
            return;
        }
        if let Err(d) = response(size) {
            c().violation("large-response-body", json!({"body_len": size, "found": d}));
            return;
        }
        c().eval(Some(("large", size)));
        c().count("response_bodies_over_32_bits", 1);
    }
}
fn response(size: u64) -> Result<(), Value> {
    let srv = server(move |q| {
        if q.uri == "/next" {
            return text("next");
        }
        Response { status: StatusCode::OK, headers: Headers::new(), body: Some(Body::new(None, size, Box::new(Source::new(size)))) }
    });
    let r = (|| -> Result<(), Value> {
        let mut s = open(&srv).map_err(|e| json!({"cannot connect": e.to_string()}))?;
        s.write_all(b"GET /large HTTP/1.1\r\n\r\nGET /next HTTP/1.1\r\n\r\n").map_err(|e| json!({"cannot send": e.to_string()}))?;
        let mut buf = vec![];
        // The head, at the end of which the buffer is cut.
        let mut t = [0; 1];
        while !buf.ends_with(b"\r\n\r\n") {
            match s.read(&mut t) {
                Ok(1) if buf.len() < 4000 => buf.push(t[0]),
                x => return Err(json!({"head": show(&buf), "then": format!("{x:?}")})),
            }
        }
        match parse_response(&buf, true) {
            Ok(Some((r, _))) if r.status == 200 && r.h("Content-Length") == Some(size.to_string().as_str()) => (),
            x => return Err(json!({"head": show(&buf), "understood": format!("{x:?}")})),
        }
        let (sink, err) = drain(&mut (&mut s).take(size));
        let next = answer(&mut s, &mut vec![]);
        if sink.n != size || sink.wrong_at.is_some() || err.is_some() || next != Ok((200, "next".into())) {
            return Err(json!({"received": sink.n, "wrong_at": sink.wrong_at, "error": err, "next": format!("{next:?}")}));
        }
        Ok(())
    })();
    srv.stop_later();
    r
}

/// Writes messages with large bodies and counts what comes out.
pub fn written() {
    for size in sizes() {
        let body = |extra: u64| Some(Body::new(None, size, Box::new(Source::new(size - 1 + extra))));
        for what in ["response", "request", "short"] {
            if c().violated() {
                return;
            }
            let mut w = Split { head: vec![], sink: Sink::new() };
            let mut headers = Headers::new();
            headers.add(Header { name: "X-A".into(), value: "b".into() });
            let b = body(if what == "short" { 0 } else { 1 });
            if what == "request" {
                headers.add(Header { name: "Content-Length".into(), value: size.to_string() });
            }
            let r = if what == "request" {
                let mut q = Request { method: HttpMethod::POST, uri: "/".into(), version: "HTTP/1.1".into(), headers, body: b };
                q.write(&mut w)
            } else {
                let mut r = Response { status: StatusCode::OK, headers, body: b };
                r.write(&mut w)
            };
            let n = size - (what == "short") as u64;
            let said = String::from_utf8_lossy(&w.head).contains(&format!("Content-Length: {size}\r\n"));
            if r.is_ok() == (what == "short") || w.sink.n != n || w.sink.wrong_at.is_some() || !said {
                c().violation("large-body-written", json!({"message": what, "length": size, "head": show(&w.head), "written": w.sink.n, "wrong_at": w.sink.wrong_at, "result": format!("{r:?}")}));
                return;
            }
            c().eval(Some(("large", what, size)));
            c().count("bodies_over_32_bits_written", 1);
        }
    }
}
struct Split {
    head: Vec<u8>,
    sink: Sink,
}
impl Write for Split {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        if self.head.ends_with(b"\r\n\r\n") {
            return self.sink.write(b);
        }
        // one byte at a time, so that the end of the head is not missed
        if !b.is_empty() {
            self.head.push(b[0]);
        }
        Ok(b.len().min(1))
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

/// The client sends a large body and reads a large one, on one connection.
pub fn client() {
    for size in sizes() {
        if c().violated() {
            return;
        }
        let t = Instant::now();
        let r = exchange(size);
        match r {
            // The client's own limit, 60 s for each direction, is none of this.
            Err(_) if t.elapsed().as_secs() > 45 => c().count("large_exchanges_too_slow", 1),
            Err(d) => {
                c().violation("large-bodies-of-the-client", json!({"body_len": size, "found": d}));
                return;
            }
            Ok(()) => {
                c().eval(Some(("large", size)));
                c().count("client_bodies_over_32_bits", 2);
            }
        }
    }
}
fn exchange(size: u64) -> Result<(), Value> {
    let got: Arc<Mutex<Vec<Value>>> = Default::default();
    let g2 = got.clone();
    let srv = RawServer::start([127, 0, 0, 1].into(), move |n, mut s| {
        let _ = s.set_read_timeout(Some(Duration::from_secs(STILL)));
        let mut first = true;
        let mut head = vec![];
        let mut t = [0; 1];
        while matches!(s.read(&mut t), Ok(1)) {
            head.push(t[0]);
            if !head.ends_with(b"\r\n\r\n") {
                continue;
            }
            let text = String::from_utf8_lossy(&head).to_string();
            let announced = text.contains(&format!("\r\nContent-Length: {size}\r\n"));
            let (sink, err) = if first { drain(&mut (&mut s).take(size)) } else { (Sink::new(), None) };
            lock(&g2).push(json!({"connection": n, "head": text, "announced": announced, "received": sink.n, "wrong_at": sink.wrong_at, "error": err}));
            let len = if first { size } else { 0 };
            let _ = write!(s, "HTTP/1.1 200 OK\r\nContent-Length: {len}\r\n\r\n");
            let mut pos = 0;
            while pos < len {
                let n = (len - pos).min(MAX as u64) as usize;
                if s.write_all(at(pos, n)).is_err() {
                    return;
                }
                pos += n as u64;
            }
            first = false;
            head.clear();
        }
    });
    let client = Client::new();
    let a = srv.addr.to_string();
    let q = Request::from_body(Body::new(None, size, Box::new(Source::new(size))), HttpMethod::POST, "/large");
    let r = match client.run(&a, q) {
        Err(e) => json!({"error": format!("{e:?}")}),
        Ok(mut r) => match r.body.as_mut() {
            None => json!({"error": "no body"}),
            Some(b) => {
                let len = b.content_length;
                let (sink, err) = drain(&mut b.content);
                json!({"length": len, "read": sink.n, "wrong_at": sink.wrong_at, "error": err})
            }
        },
    };
    let q = Request { method: HttpMethod::GET, uri: "/next".into(), version: "HTTP/1.1".into(), headers: Headers::new(), body: None };
    let next = client.run(&a, q).map(|r| r.status == StatusCode::OK).map_err(|e| format!("{e:?}"));
    let got = lock(&got);
    let sent = got.first().map_or(false, |g| g["announced"] == json!(true) && g["received"] == json!(size) && g["wrong_at"].is_null());
    let second = got.len() == 2 && got[1]["head"].as_str().map_or(false, |h| h.starts_with("GET /next "));
    if r != json!({"length": size, "read": size, "wrong_at": null, "error": null}) || !sent || !second || next != Ok(true) {
        return Err(json!({"client": r, "server": *got, "next": format!("{next:?}")}));
    }
    Ok(())
}
