//! Requests that tell the universal handler what to do, and the expected outcome of each.
use crate::srv::*;
use crate::util::*;
use crate::wire::*;
use serde_json::{json, Value};
use std::io::{Cursor, Read};
use std::str::FromStr;
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::sync::Arc;
use std::time::{Duration, Instant};
use wruster::http::headers::Header;
use wruster::http::{Body, Request, Response, StatusCode};

pub fn payload(id: &str, len: usize) -> Vec<u8> {
    // Printable, and different at each position so that shifts, losses and repetitions show.
    let mut h = 0u64;
    for b in id.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    let mut r = Rng::new(h, "payload", 0);
    let mut v = Vec::with_capacity(len + 16);
    while v.len() < len {
        let mut x = (r.next() & 0xffff_ffff) as u32;
        let digits = ((32 - x.leading_zeros() + 3) / 4).max(1);
        x = x.rotate_right(4 * digits);
        for _ in 0..digits {
            x = x.rotate_left(4);
            v.push(b"0123456789abcdef"[(x & 15) as usize]);
        }
        v.push(b'.');
    }
    v.truncate(len);
    v
}

#[derive(Clone, Debug)]
pub struct Spec {
    pub id: String,
    pub method: &'static str,
    pub target: String,
    pub version: &'static str,
    /// none | body:N | content:N | mix:N | all | allcontent | string | take | echo
    pub read: String,
    pub delay_ms: u64,
    /// str | content | body | status | echo
    pub resp: &'static str,
    pub resp_len: usize,
    pub body: Vec<u8>,
    pub extra: Vec<(String, String)>,
    pub connection: Option<&'static str>,
}

pub const READS: [&str; 8] = ["none", "body", "content", "mix", "all", "allcontent", "take", "string"];
static NEXT_ID: AtomicU64 = AtomicU64::new(1);
pub fn new_id(prefix: &str) -> String {
    format!("{prefix}{}", NEXT_ID.fetch_add(1, SeqCst))
}

impl Spec {
    pub fn simple(prefix: &str) -> Spec {
        Spec { id: new_id(prefix), method: "GET", target: "/v".into(), version: "HTTP/1.1", read: "none".into(), delay_ms: 0,
            resp: "str", resp_len: 20, body: vec![], extra: vec![], connection: None }
    }
    pub fn random(rng: &mut Rng, prefix: &str, max_body: usize, max_resp: usize) -> Spec {
        let mut s = Spec::simple(prefix);
        s.method = METHODS[rng.below(METHODS.len())].0;
        s.target = rng.pick(&["/v", "/", "/v/w?x=1", "/a/b/c.d?q=/../x&y=%20", "/~u/;p=1"]).to_string();
        if rng.chance(3, 5) {
            s.body = body_bytes(rng, max_body);
        }
        s.set_read(rng);
        s.resp = *rng.pick(&["str", "content", "body", "status", "str"]);
        s.resp_len = size(rng, max_resp);
        if !s.body.is_empty() && s.method != "HEAD" && rng.chance(1, 10) {
            s.resp = "echo";
            s.read = "echo".into();
        }
        s
    }
    pub fn set_read(&mut self, rng: &mut Rng) {
        let r = *rng.pick(&READS);
        let n = rng.below(self.body.len() + 2);
        self.read = match r {
            "body" | "content" | "mix" => format!("{r}:{n}"),
            r => r.into(),
        };
    }
    pub fn head(&self) -> Vec<u8> {
        let mut s = format!("{} {} {}\r\nX-Vid: {}\r\nX-Vread: {}\r\nX-Vresp: {}:{}\r\n", self.method, self.target, self.version, self.id, self.read, self.resp, self.resp_len);
        if self.delay_ms > 0 {
            s += &format!("X-Vdelay: {}\r\n", self.delay_ms);
        }
        for (n, v) in &self.extra {
            s += &format!("{n}: {v}\r\n");
        }
        if let Some(cn) = self.connection {
            s += &format!("Connection: {cn}\r\n");
        }
        if !self.body.is_empty() {
            s += &format!("Content-Length: {}\r\n", self.body.len());
        }
        s += "\r\n";
        s.into_bytes()
    }
    pub fn bytes(&self) -> Vec<u8> {
        let mut b = self.head();
        b.extend_from_slice(&self.body);
        b
    }
    pub fn brief(&self) -> Value {
        json!({"id": self.id, "method": self.method, "target": clip(&self.target, 80), "read": self.read, "resp": format!("{}:{}", self.resp, self.resp_len), "body_len": self.body.len(), "delay_ms": self.delay_ms, "connection": self.connection, "version": self.version})
    }
    pub fn expected_body(&self) -> Vec<u8> {
        match self.resp {
            "status" => vec![],
            "echo" => self.body.clone(),
            _ if self.method == "HEAD" => vec![],
            _ => payload(&self.id, self.resp_len),
        }
    }
    /// Compares a response with what this request must get.
    pub fn check(&self, r: &Resp) -> Result<(), (String, Value)> {
        let d = |m: &str| json!({"why": m, "request": self.brief(), "status": r.status, "headers": r.headers.iter().take(12).collect::<Vec<_>>(), "body_len": r.body.len(), "body": show(&r.body[..r.body.len().min(80)])});
        if r.h("X-Vid") != Some(self.id.as_str()) {
            return Err(("response-of-another-request".into(), d("the response does not carry the id of the request")));
        }
        if r.status != 200 {
            return Err(("wrong-status".into(), d("status is not the one of the handler")));
        }
        let want = self.expected_body();
        if r.body != want {
            return Err(("wrong-body".into(), d(&format!("expected {} bytes: {}", want.len(), show(&want[..want.len().min(80)])))));
        }
        let len = match self.resp {
            "status" => 0,
            "echo" => self.body.len(),
            _ => self.resp_len,
        };
        if r.h("Content-Length") != Some(len.to_string().as_str()) {
            return Err(("wrong-content-length".into(), d(&format!("expected Content-Length {len}"))));
        }
        Ok(())
    }
}

pub fn size(rng: &mut Rng, max: usize) -> usize {
    let v = match rng.below(8) {
        0 => 0,
        1 => rng.below(3),
        2 => rng.below(100),
        3 => *rng.pick(&[511, 512, 513, 1023, 1024, 4095, 4096, 4097, 8191, 8192, 8193, 16383, 16384, 16385, 65535, 65536, 65537]),
        4 => rng.below(10_000),
        5 => rng.below(max + 1),
        6 => rng.below(70_000),
        _ => rng.below(1000),
    };
    v.min(max)
}

/// Body bytes, often such that they spell requests and heads.
pub fn body_bytes(rng: &mut Rng, max: usize) -> Vec<u8> {
    let n = size(rng, max).max(1).min(max.max(1));
    match rng.below(4) {
        0 => rng.bytes(n),
        1 => {
            let mut v = vec![];
            while v.len() < n {
                v.extend_from_slice(format!("GET /v HTTP/1.1\r\nX-Vid: ghost{}\r\nX-Vread: none\r\nX-Vresp: str:5\r\n\r\n", rng.below(1000)).as_bytes());
            }
            v.truncate(n);
            v
        }
        2 => {
            let mut v = vec![];
            while v.len() < n {
                v.extend_from_slice(*rng.pick(&[&b"\r\n\r\n"[..], b"\r\n", b"Content-Length: 7\r\n", b"\0\0\0", b"\n\n", b"HTTP/1.1 200 OK\r\n"]));
            }
            v.truncate(n);
            v
        }
        _ => payload(&rng.token(6), n),
    }
}

/// `b` with one to three letters changed in case, replaced, put in, doubled or left out; never a line break.
pub fn mutated(rng: &mut Rng, b: &[u8]) -> Vec<u8> {
    let mut b = b.to_vec();
    for _ in 0..rng.range(1, 3) {
        let i = rng.below(b.len());
        let any = loop {
            let x = if rng.chance(1, 2) { *rng.pick(b"abyzAHTPSX0129/.,:;-+_*\\ \t'") } else { rng.next() as u8 };
            if x != b'\r' && x != b'\n' {
                break x;
            }
        };
        match rng.below(6) {
            0 => b[i] ^= if b[i].is_ascii_alphabetic() { 0x20 } else { 0 },
            1 => b[i] = any,
            2 => b.insert(i, any),
            3 => b.push(any),
            4 => b.insert(i, b[i]),
            _ if b.len() > 1 => {
                b.remove(i);
            }
            _ => (),
        }
    }
    b
}
/// Something that is not the version of any HTTP message.
pub fn bad_version(rng: &mut Rng) -> Vec<u8> {
    loop {
        let v = mutated(rng, b"HTTP/1.1");
        let ok = v.strip_prefix(b"HTTP/").map_or(false, |d| {
            let mut p = d.split(|b| *b == b'.');
            d.iter().filter(|b| **b == b'.').count() == 1 && p.all(|p| !p.is_empty() && p.iter().all(u8::is_ascii_digit))
        });
        if !ok && !v.starts_with(b" ") {
            return v;
        }
    }
}
/// A header field name that is not a token.
pub fn bad_name(rng: &mut Rng) -> Vec<u8> {
    let token = |b: &u8| b.is_ascii_alphanumeric() || b"!#$%&'*+-.^_`|~".contains(b);
    loop {
        let mut n = rng.token(6).into_bytes();
        let b = rng.next() as u8;
        n.insert(rng.below(n.len() + 1), b);
        if !token(&b) && !b"\r\n:".contains(&b) {
            return n;
        }
    }
}
/// A header field value with a control character inside.
pub fn bad_value(rng: &mut Rng) -> Vec<u8> {
    let mut v = rng.token(6).into_bytes();
    let b = loop {
        let b = *rng.pick(&[rng.clone().below(32) as u8, 127]);
        if !b"\r\n\t".contains(&b) {
            break b;
        }
    };
    v.insert(rng.below(v.len() + 1), b);
    v
}

#[derive(Clone, Debug)]
pub struct Obs {
    pub method: String,
    pub uri: String,
    pub version: String,
    pub headers: Vec<(String, Vec<String>)>,
    /// bytes the handler read, and what its reading ended with
    pub read: Vec<u8>,
    pub err: Option<String>,
    pub has_body: bool,
    pub body_len: u64,
}

/// A gate that holds handlers until it is opened.
#[derive(Default)]
pub struct Gate(std::sync::Mutex<bool>, std::sync::Condvar, pub AtomicU64);
impl Gate {
    pub fn wait(&self, max: Duration) {
        self.2.fetch_add(1, SeqCst);
        let _ = self.1.wait_timeout_while(lock(&self.0), max, |open| !*open);
        self.2.fetch_sub(1, SeqCst);
    }
    pub fn open(&self) {
        *lock(&self.0) = true;
        self.1.notify_all();
    }
    pub fn inside(&self) -> u64 {
        self.2.load(SeqCst)
    }
}
static GATES: std::sync::Mutex<Option<std::collections::HashMap<String, Arc<Gate>>>> = std::sync::Mutex::new(None);
pub fn gate(name: &str) -> Arc<Gate> {
    let mut g = lock(&GATES);
    Arc::clone(g.get_or_insert_with(Default::default).entry(name.to_string()).or_default())
}

/// Checks that the server can run `n` handlers at once, retrying while earlier connections are still being released.
pub fn capacity_probe(srv: &Running, n: usize, secs: u64) -> Result<(), Value> {
    let start = Instant::now();
    let mut attempts = 0;
    let mut best = 0;
    let mut why = String::new();
    while start.elapsed() < Duration::from_secs(secs) {
        attempts += 1;
        let name = new_id("gate");
        let g = gate(&name);
        let mut conns = vec![];
        for _ in 0..n {
            let mut s = Spec::simple("cap");
            s.extra.push(("X-Vgate".into(), name.clone()));
            s.connection = Some("close");
            match srv.conn() {
                Ok(mut cn) => {
                    cn.try_send(&s.bytes());
                    conns.push((cn, s));
                }
                Err(e) => why = format!("connect: {e}"),
            }
        }
        let t = Instant::now();
        while t.elapsed() < Duration::from_secs(5) && (g.inside() as usize) < n {
            std::thread::sleep(Duration::from_millis(5));
            // a refused connection: no point in waiting longer
            if t.elapsed() > Duration::from_millis(300) && conns.iter_mut().any(|(cn, _)| cn.fill_max(Instant::now() + Duration::from_millis(1), 4096).is_ok()) {
                break;
            }
        }
        let inside = g.inside() as usize;
        best = best.max(inside);
        g.open();
        let mut ok = 0;
        for (cn, s) in conns.iter_mut() {
            match cn.response(10.0, false) {
                Ok(r) if r.status == 503 => why = "503".into(),
                Ok(r) => match s.check(&r) {
                    Ok(()) => ok += 1,
                    Err((sig, _)) => why = sig,
                },
                Err(e) => why = format!("{e:?}"),
            }
        }
        drop(conns);
        if inside == n && ok == n {
            return Ok(());
        }
        std::thread::sleep(Duration::from_millis(150));
    }
    Err(json!({"wanted_at_once": n, "reached_at_once": best, "attempts": attempts, "last_problem": why}))
}

/// True when the process keeps burning CPU although nothing is going on.
pub fn burning_cpu() -> Option<Value> {
    let mut last = 0.0;
    for _ in 0..6 {
        let (a, t) = (cpu_time(), Instant::now());
        std::thread::sleep(Duration::from_millis(500));
        last = (cpu_time() - a) / t.elapsed().as_secs_f64();
        if last < 0.35 {
            return None;
        }
    }
    Some(json!({"cores_busy_while_idle": last}))
}

/// A good client working beside something else: every request must be answered.
pub struct Beside {
    stop: Arc<std::sync::atomic::AtomicBool>,
    handles: Vec<std::thread::JoinHandle<u64>>,
}
pub fn good_clients(addr: std::net::SocketAddr, tls: bool, n: usize, secs: f64) -> Beside {
    let stop = Arc::new(std::sync::atomic::AtomicBool::new(false));
    let handles = (0..n)
        .map(|k| {
            let stop = Arc::clone(&stop);
            std::thread::spawn(move || {
                let mut rng = c().rng("beside", k as u64);
                let mut done = 0;
                while !stop.load(SeqCst) && !c().violated() {
                    let Ok(mut conn) = Conn::open(addr, tls) else {
                        c().violation("good-client-cannot-connect", json!({"addr": addr.to_string()}));
                        break;
                    };
                    let specs: Vec<Spec> = (0..rng.range(1, 10)).map(|_| Spec::random(&mut rng, "good", 20_000, 20_000)).collect();
                    let t = Instant::now();
                    if let Err((sig, d)) = drive(&mut conn, &specs, 1, Seg::Whole, &mut rng, secs) {
                        let stalled = c().stalled_since(t).as_secs_f64();
                        if !(sig == "no-response-in-time" && stalled > secs / 4.0) {
                            c().violation(&format!("good-client-beside:{sig}"), d);
                        }
                        break;
                    }
                    done += specs.len() as u64;
                    std::thread::sleep(Duration::from_millis(3));
                }
                done
            })
        })
        .collect();
    Beside { stop, handles }
}
impl Beside {
    pub fn end(self) -> u64 {
        self.stop.store(true, SeqCst);
        self.handles.into_iter().map(|h| h.join().unwrap_or(0)).sum()
    }
}

pub type VLog = Arc<Log<Obs>>;

fn read_some(r: &mut dyn Read, n: usize, chunk: usize) -> (Vec<u8>, Option<String>) {
    let mut v = vec![];
    let mut tmp = vec![0; chunk.max(1)];
    while v.len() < n {
        let want = (n - v.len()).min(tmp.len());
        match r.read(&mut tmp[..want]) {
            Ok(0) => break,
            Ok(k) => v.extend_from_slice(&tmp[..k]),
            Err(e) if e.kind() == std::io::ErrorKind::Interrupted => continue,
            Err(e) => return (v, Some(format!("{:?}", e.kind()))),
        }
    }
    (v, None)
}

thread_local! {
    /// The body of an earlier request handled by this thread, kept by its handler.
    static KEPT: std::cell::RefCell<Option<Body>> = const { std::cell::RefCell::new(None) };
}

/// The universal handler.
pub fn handle(log: &VLog, q: &mut Request) -> Response {
    let _in = log.enter();
    let id = hdr(q, "X-Vid").unwrap_or_else(|| "<no id>".into());
    let read = hdr(q, "X-Vread").unwrap_or_default();
    let resp = hdr(q, "X-Vresp").unwrap_or_default();
    if let Some(d) = hdr(q, "X-Vdelay").and_then(|d| d.parse().ok()) {
        std::thread::sleep(Duration::from_millis(d));
    }
    if let Some(g) = hdr(q, "X-Vgate") {
        gate(&g).wait(Duration::from_secs(60));
    }
    let mut headers: Vec<(String, Vec<String>)> = q.headers.iter().map(|(n, v)| (n.to_ascii_lowercase(), v.clone())).collect();
    headers.sort();
    let mut obs = Obs { method: q.method.to_string(), uri: q.uri.clone(), version: q.version.clone(), headers, read: vec![], err: None,
        has_body: q.body.is_some(), body_len: q.body.as_ref().map_or(0, |b| b.content_length) };
    let mut echo = None;
    // Reading from a body after its request must not take anything from the requests that follow.
    KEPT.with(|k| {
        if let Some(b) = k.borrow_mut().as_mut() {
            c().count("kept_bodies_read_during_later_requests", 1);
            let n = read_some(b, 64, 64).0.len();
            c().max("bytes_got_from_kept_bodies", n as u64);
        }
    });
    if let Some(body) = q.body.as_mut() {
        let (what, n) = read.split_once(':').unwrap_or((&read, "0"));
        let n: usize = n.parse().unwrap_or(0);
        // for whole bodies: from small reads to large ones
        let whole = [5000usize, 100_000, 17_000, 8192, 1_000_000, 40_000][body.content_length as usize % 6];
        let chunk = [1usize, 7, 1000, 8192, 100_000][n % 5].max(n / 2000 + 1);
        let (v, e) = match what {
            "body" => read_some(body, n, chunk),
            "content" => read_some(&mut body.content, n, chunk),
            "mix" => {
                let (mut v, e) = read_some(body, n / 2, chunk);
                if e.is_none() {
                    let (w, e2) = read_some(&mut body.content, n - n / 2, chunk);
                    v.extend(w);
                    (v, e2)
                } else {
                    (v, e)
                }
            }
            "all" => read_some(body, usize::MAX, whole),
            "allcontent" => read_some(&mut body.content, usize::MAX, whole),
            "string" => {
                let mut v = vec![];
                let r = body.content.read_to_end(&mut v);
                (v, r.err().map(|e| format!("{:?}", e.kind())))
            }
            "take" => {
                drop(q.body.take());
                (vec![], None)
            }
            "keep" => {
                let b = q.body.take();
                KEPT.with(|k| *k.borrow_mut() = b);
                (vec![], None)
            }
            "echo" => {
                echo = q.body.take();
                (vec![], None)
            }
            _ => (vec![], None),
        };
        obs.read = v;
        obs.err = e;
    }
    log.add(id.clone(), obs);
    // What a handler does to the request it was lent has no influence on the exchange.
    let h = id.bytes().fold(7u32, |h, b| h.wrapping_mul(31).wrapping_add(b as u32));
    let close = hdr(q, "X-Vclose");
    if h % 3 == 0 {
        let m = h / 3;
        if m & 1 != 0 {
            q.headers = Default::default();
        }
        if m & 2 != 0 {
            let headers = [("Connection", "close"), ("Connection", "keep-alive"), ("Content-Length", "12"), ("Transfer-Encoding", "chunked")];
            let (n, v) = headers[(m >> 6) as usize % 4];
            q.headers.add(Header { name: n.into(), value: v.into() });
        }
        if m & 4 != 0 {
            let methods = ["HEAD", "GET", "POST", "DELETE"];
            if let Ok(m) = methods[(m >> 8) as usize % 4].parse() {
                q.method = m;
            }
        }
        if m & 8 != 0 {
            q.version = ["HTTP/1.0", "HTTP/1.1", ""][(m >> 10) as usize % 3].into();
        }
        if m & 16 != 0 {
            q.uri = ["", "/../..", "*"][(m >> 12) as usize % 3].into();
        }
        if let (Some(b), true) = (q.body.as_mut(), m & 32 != 0) {
            b.content_length = [0, 1, b.content_length / 2, b.content_length + 7, u64::MAX][(m >> 14) as usize % 5];
            b.content_type = None;
            c().count("lengths_changed_by_the_handler", 1);
        }
        c().count("requests_changed_by_their_handler", 1);
    }
    let (kind, len) = resp.split_once(':').unwrap_or(("status", "0"));
    let len: usize = len.parse().unwrap_or(0);
    let mut r = match kind {
        "str" => Response::from_str(std::str::from_utf8(&payload(&id, len)).unwrap()).unwrap(),
        "content" => Response::from_content(Cursor::new(payload(&id, len)), len as u64, mime::APPLICATION_OCTET_STREAM),
        "body" => {
            let p = payload(&id, len);
            Response { status: StatusCode::OK, headers: Default::default(), body: Some(Body::new(None, len as u64, Box::new(Cursor::new(p)))) }
        }
        "echo" => match echo {
            Some(b) => Response { status: StatusCode::OK, headers: Default::default(), body: Some(b) },
            None => Response::from_status(StatusCode::OK),
        },
        _ => Response::from_status(StatusCode::OK),
    };
    r.headers.add(Header { name: "X-Vid".into(), value: id });
    if let Some(v) = close {
        for (i, v) in v.split(';').enumerate() {
            r.headers.add(Header { name: ["Connection", "connection", "CONNECTION"][(i + v.len()) % 3].into(), value: v.into() });
        }
    }
    r
}

pub fn universal(tls: bool, t: wruster::Timeouts) -> (Running, VLog) {
    let log: VLog = Arc::new(Log { seen: Default::default(), calls: Default::default(), running: Default::default(), peak: Default::default() });
    let l = Arc::clone(&log);
    let s = start_all(tls, t, move |q| handle(&l, q));
    (s, log)
}

/// How the bytes of a batch are cut into writes.
#[derive(Clone, Copy, Debug, PartialEq, Hash)]
pub enum Seg {
    Whole,
    Single,
    Cuts,
    Lines,
    Slow,
}
pub const SEGS: [Seg; 5] = [Seg::Whole, Seg::Single, Seg::Cuts, Seg::Lines, Seg::Slow];

pub fn send_cut(conn: &mut Conn, b: &[u8], seg: Seg, rng: &mut Rng) -> std::io::Result<usize> {
    let mut cuts: Vec<usize> = match seg {
        Seg::Whole => vec![],
        Seg::Single if b.len() <= 3000 => (1..b.len()).collect(),
        Seg::Single | Seg::Cuts => (0..rng.range(1, 12)).map(|_| rng.below(b.len())).collect(),
        Seg::Lines => {
            // around line ends, before, inside and after CRLF
            let mut v: Vec<usize> = b.iter().enumerate().filter(|(_, c)| **c == b'\r').map(|(i, _)| i).take(60).collect();
            let k = rng.below(3);
            v.iter_mut().for_each(|x| *x += k);
            v
        }
        Seg::Slow => (0..rng.range(1, 5)).map(|_| rng.below(b.len())).collect(),
    };
    cuts.retain(|x| *x > 0 && *x < b.len());
    cuts.sort();
    cuts.dedup();
    cuts.push(b.len());
    let mut from = 0;
    let n = cuts.len();
    for to in cuts {
        conn.send(&b[from..to])?;
        from = to;
        if seg == Seg::Slow {
            std::thread::sleep(Duration::from_millis(rng.range(1, 25) as u64));
        } else if seg != Seg::Whole && rng.chance(1, 6) {
            std::thread::sleep(Duration::from_micros(rng.range(1, 800) as u64));
        }
    }
    Ok(n)
}

pub fn batch_bytes(specs: &[Spec]) -> Vec<u8> {
    specs.iter().flat_map(|s| s.bytes()).collect()
}

/// Sends the requests in pipelined batches and checks that each gets its own response in order.
/// Err((signature, detail)) tells what was wrong.
pub fn drive(conn: &mut Conn, specs: &[Spec], depth: usize, seg: Seg, rng: &mut Rng, secs: f64) -> Result<(), (String, Value)> {
    let mut i = 0;
    let mut transcript = vec![];
    while i < specs.len() {
        let n = if depth <= 1 { 1 } else { rng.range(1, depth) }.min(specs.len() - i);
        let batch = &specs[i..i + n];
        let bytes = batch_bytes(batch);
        let started = Instant::now();
        let mut sent = Ok(1);
        // Large batches are sent by another thread so that nobody waits for the other to read.
        if bytes.len() > 200_000 && !conn.is_tls() {
            let mut sock = conn.sock.try_clone().unwrap();
            let r = std::thread::scope(|s| {
                let b = &bytes;
                let _ = sock.set_write_timeout(Some(Duration::from_secs(30)));
                s.spawn(move || {
                    use std::io::Write;
                    let _ = sock.write_all(b);
                });
                read_batch(conn, batch, secs, &mut transcript)
            });
            r?;
        } else {
            sent = send_cut(conn, &bytes, seg, rng);
            read_batch(conn, batch, secs, &mut transcript)?;
        }
        let _ = (started, sent);
        i += n;
    }
    Ok(())
}

fn read_batch(conn: &mut Conn, batch: &[Spec], secs: f64, transcript: &mut Vec<Value>) -> Result<(), (String, Value)> {
    for s in batch {
        let t = Instant::now();
        match conn.response(secs, s.method == "HEAD") {
            Ok(r) => s.check(&r).map_err(|(g, mut d)| {
                d["before"] = json!(transcript.iter().rev().take(5).collect::<Vec<_>>());
                (g, d)
            })?,
            Err(e) => {
                let sig = match &e {
                    WErr::Eof(_) => "no-response-connection-closed",
                    WErr::Timeout(_) => "no-response-in-time",
                    WErr::Malformed(_) => "malformed-response",
                };
                return Err((sig.into(), json!({"request": s.brief(), "got": format!("{e:?}"), "reset": conn.reset, "waited_s": t.elapsed().as_secs_f64(),
                    "pending": show(&conn.buf), "before": transcript.iter().rev().take(5).collect::<Vec<_>>(), "pipelined_with": batch.len()})));
            }
        }
        transcript.push(s.brief());
        if transcript.len() > 8 {
            transcript.remove(0);
        }
    }
    Ok(())
}

/// After a close request the server must send nothing else and end the stream.
pub fn expect_end(conn: &mut Conn, secs: f64) -> Result<(), (String, Value)> {
    let r = conn.until_eof(secs);
    if !conn.buf.is_empty() {
        return Err(("bytes-nobody-asked-for".into(), json!({"bytes": show(&conn.buf)})));
    }
    match r {
        Ok(()) => Ok(()),
        Err(e) => Err(("connection-not-closed".into(), json!({"got": format!("{e:?}")}))),
    }
}

/// Checks the handler log: each id seen exactly once, and nothing else was run.
pub fn check_log(log: &VLog, expected: &std::collections::HashSet<String>, maybe: &std::collections::HashSet<String>) -> Vec<(String, Value)> {
    let seen = lock(&log.seen);
    let mut out = vec![];
    for (id, v) in seen.iter() {
        if !expected.contains(id) && !maybe.contains(id) {
            out.push(("handler-ran-for-a-request-never-sent".to_string(), json!({"id": id, "times": v.len(), "method": v[0].method, "uri": clip(&v[0].uri, 200)})));
        } else if v.len() != 1 {
            out.push(("handler-ran-more-than-once".to_string(), json!({"id": id, "times": v.len()})));
        }
    }
    for id in expected {
        if !seen.contains_key(id) {
            out.push(("handler-never-ran".to_string(), json!({"id": id})));
        }
    }
    out.truncate(5);
    out
}
