//! C07: the parsers, driven directly with an instrumented source of bytes.
use crate::util::*;
use serde_json::json;
use std::io::{self, BufRead, Read};
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::sync::Arc;
use std::time::Instant;
use wruster::http::headers::{Header, Headers};
use wruster::http::{Body, Request, Response};

#[derive(Default)]
struct Meter {
    reads: AtomicU64,
    after_end: AtomicU64,
    served: AtomicU64,
}

const RUNAWAY: &str = "the parser keeps reading a source that has ended";

/// A source that records how it is read.
struct Src {
    data: Arc<Vec<u8>>,
    pos: usize,
    /// bytes per read: 0 = as many as asked for
    grain: usize,
    /// an error instead of the byte at this position, `repeat`ed forever or once
    fail: Option<(usize, io::ErrorKind, bool)>,
    /// Interrupted before each read with probability 1/n
    interrupts: usize,
    /// after data, repeat these bytes forever
    endless: Option<Vec<u8>>,
    rng: Rng,
    m: Arc<Meter>,
}
impl Read for Src {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        self.m.reads.fetch_add(1, SeqCst);
        if buf.is_empty() {
            return Ok(0);
        }
        if self.interrupts > 0 && self.rng.chance(1, self.interrupts) {
            return Err(io::ErrorKind::Interrupted.into());
        }
        let mut max = if self.grain == 0 { buf.len() } else { self.rng.range(1, self.grain).min(buf.len()) };
        if let Some((at, kind, repeat)) = self.fail {
            if self.pos >= at {
                if !repeat {
                    self.fail = None;
                }
                if self.m.after_end.fetch_add(1, SeqCst) > 20_000 {
                    panic!("{RUNAWAY}");
                }
                return Err(kind.into());
            }
            max = max.min(at - self.pos);
        }
        if self.pos >= self.data.len() {
            if let Some(e) = &self.endless {
                for (i, b) in buf[..max].iter_mut().enumerate() {
                    *b = e[(self.pos - self.data.len() + i) % e.len()];
                }
                self.pos += max;
                let n = self.m.served.fetch_add(max as u64, SeqCst);
                if n > 64 << 20 {
                    panic!("{RUNAWAY}");
                }
                return Ok(max);
            }
            if self.m.after_end.fetch_add(1, SeqCst) > 20_000 {
                panic!("{RUNAWAY}");
            }
            return Ok(0);
        }
        let n = max.min(self.data.len() - self.pos);
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        self.m.served.fetch_add(n as u64, SeqCst);
        Ok(n)
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum What {
    Request,
    Response,
    Headers,
    Header,
}
const WHATS: [What; 4] = [What::Request, What::Response, What::Headers, What::Header];

/// What the parser made of the input, comparable.
#[derive(Debug, PartialEq, Clone)]
enum Out {
    Value { line: String, headers: Vec<(String, Vec<String>)>, body: Option<Vec<u8>>, body_ok: bool },
    Error(String),
}

fn hs(h: &Headers) -> Vec<(String, Vec<String>)> {
    let mut v: Vec<_> = h.iter().map(|(n, v)| (n.to_ascii_lowercase(), v.clone())).collect();
    v.sort();
    v
}

fn read_body(b: Option<Body>, direct: bool) -> (Option<Vec<u8>>, bool) {
    match b {
        None => (None, true),
        Some(mut b) => {
            let len = b.content_length;
            let mut v = vec![];
            let r = if direct { b.content.read_to_end(&mut v) } else { b.read_to_end(&mut v) };
            (Some(v.clone()), r.is_ok() && v.len() as u64 == len || r.is_ok() && (v.len() as u64) > len)
        }
    }
}

fn parse(what: What, src: Src, direct: bool) -> Out {
    let e = |e: wruster::http::errors::HttpError| Out::Error(format!("{e:?}").split('(').next().unwrap_or("").to_string());
    match what {
        What::Request => match Request::read_from(src) {
            Ok(q) => {
                let (line, headers) = (format!("{} {} {}", q.method, q.uri, q.version), hs(&q.headers));
                let (body, body_ok) = read_body(q.body, direct);
                Out::Value { line, headers, body, body_ok }
            }
            Err(x) => e(x),
        },
        What::Response => match Response::read_from(src) {
            Ok(r) => {
                let (line, headers) = (usize::from(&r.status).to_string(), hs(&r.headers));
                let (body, body_ok) = read_body(r.body, direct);
                Out::Value { line, headers, body, body_ok }
            }
            Err(x) => e(x),
        },
        What::Headers => match Headers::read_from(&mut io::BufReader::with_capacity(64, src)) {
            Ok(h) => Out::Value { line: String::new(), headers: hs(&h), body: None, body_ok: true },
            Err(x) => e(x),
        },
        What::Header => {
            let mut r = io::BufReader::with_capacity(7, src);
            let mut headers = vec![];
            // one after another until the end of the section
            for _ in 0..100_000 {
                match Header::read_from(&mut r) {
                    Ok(Some(h)) => headers.push((h.name, vec![h.value])),
                    Ok(None) => return Out::Value { line: String::new(), headers, body: None, body_ok: true },
                    Err(x) => return e(x),
                }
            }
            let _ = r.fill_buf();
            Out::Error("more than 100000 headers".into())
        }
    }
}

struct How {
    grain: usize,
    fail: Option<(usize, io::ErrorKind, bool)>,
    interrupts: usize,
    endless: Option<Vec<u8>>,
    direct: bool,
}
const PLAIN: How = How { grain: 0, fail: None, interrupts: 0, endless: None, direct: false };

/// None: a violation was reported.
fn run_one(what: What, data: &Arc<Vec<u8>>, how: How, case: u64) -> Option<Out> {
    let m = Arc::new(Meter::default());
    let src = Src { data: Arc::clone(data), pos: 0, grain: how.grain, fail: how.fail, interrupts: how.interrupts, endless: how.endless.clone(),
        rng: c().rng("src", case), m: Arc::clone(&m) };
    let d = |s: &str| json!({"what": s, "parser": format!("{what:?}"), "input": show(data), "input_len": data.len(), "bytes_per_read": how.grain,
        "fails": format!("{:?}", how.fail), "endless": how.endless.as_ref().map(|e| show(e)), "reads": m.reads.load(SeqCst)});
    let direct = how.direct;
    let r = c().guard(&format!("{what:?}-parser"), 30, || std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| parse(what, src, direct))));
    c().count("parses", 1);
    match r {
        Err(p) => {
            let msg = p.downcast_ref::<String>().cloned().or(p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
            let sig = if msg.contains(RUNAWAY) { "endless" } else { "panic" };
            c().violation(&format!("{sig}:{what:?}"), d(&msg));
            None
        }
        Ok(o) => {
            c().max("max_reads_after_the_end", m.after_end.load(SeqCst));
            // Bounded work: a few reads per byte, whatever the grain.
            if m.after_end.load(SeqCst) > 1000 && how.fail.is_none() {
                c().violation(&format!("endless:{what:?}"), d("many reads after the end of the source"));
                return None;
            }
            c().count(if matches!(o, Out::Value { .. }) { "accepted" } else { "rejected" }, 1);
            Some(o)
        }
    }
}

fn token(rng: &mut Rng) -> String {
    let n = rng.range(1, 12);
    (0..n).map(|_| *rng.pick(b"abcXYZ019-_!#$%&'*+.^`|~") as char).collect()
}
fn value(rng: &mut Rng) -> Vec<u8> {
    match rng.below(7) {
        0 => vec![],
        1 => "añ→x".as_bytes().to_vec(),
        2 => vec![b'a', 0xff, 0x80, b'b'],
        3 => vec![b'v'; rng.below(9000)],
        _ => (0..rng.range(1, 30)).map(|_| *rng.pick(b"abc,;=/ \t\"()<>@:?[]{}\\") as u8).collect(),
    }
}

/// A well-formed message, and the length of its head.
fn message(what: What, rng: &mut Rng) -> (Vec<u8>, usize) {
    let mut b = vec![];
    match what {
        What::Request => {
            let m = rng.pick(&crate::srv::METHODS).0;
            let v = *rng.pick(&["HTTP/1.1", "HTTP/1.0", "HTTP/2", "HTTP/1.1"]);
            let t = *rng.pick(&["/", "/a/b?x=y", "/%20", "http://h/x", "*", "/\u{e9}"]);
            b.extend_from_slice(format!("{m} {t} {v}\r\n").as_bytes());
        }
        What::Response => {
            let code = rng.range(100, 999);
            let reason = *rng.pick(&["OK", "", "Not Found", "a: b", "\u{e9}"]);
            b.extend_from_slice(format!("HTTP/1.{} {code} {reason}\r\n", rng.below(2)).as_bytes());
        }
        _ => {}
    }
    for _ in 0..rng.below(6) {
        b.extend_from_slice(format!("x-{}:", token(rng)).as_bytes());
        b.extend_from_slice(*rng.pick(&[&b" "[..], b"", b"\t ", b"   "]));
        b.extend_from_slice(&value(rng));
        b.extend_from_slice(*rng.pick(&[&b"\r\n"[..], b"\r\n", b" \r\n", b"\t\r\n"]));
    }
    let body = if matches!(what, What::Request | What::Response) && rng.chance(1, 2) {
        let n = *rng.pick(&[1usize, 2, 10, 100, 5000, 8192, 20000]);
        b.extend_from_slice(format!("Content-Length: {n}\r\n").as_bytes());
        if rng.chance(1, 3) {
            b.extend_from_slice(b"Content-Type: text/plain; charset=utf-8\r\n");
        }
        rng.bytes(n)
    } else {
        vec![]
    };
    b.extend_from_slice(b"\r\n");
    let head = b.len();
    b.extend(body);
    (b, head)
}

fn mutate(b: &mut Vec<u8>, rng: &mut Rng) {
    for _ in 0..rng.range(1, 4) {
        if b.is_empty() {
            b.push(rng.next() as u8);
        }
        let i = rng.below(b.len());
        let frag: &[u8] = *rng.pick(&[&b"\r\n"[..], b"\n", b"\r", b" ", b":", b"\0", b"\r\n\r\n", b"Content-Length: 5\r\n", b"Content-Length: 99999999999999999999\r\n", b"Transfer-Encoding: chunked\r\n",
            b"HTTP/1.1", b"HTTP/", b"HTTP/1.", b"HTTP/1.1.1", b"HTTP/256.1", b"HTTP/-1.1", b"\xff\xfe", b"\xe2\x82", b"\x80", b"GET ", b" 200 ", b"  ", b"\t", b"\x7f", b"Content-Type: \r\n", b"Content-Type: a/b;\r\n", b": x\r\n"]);
        match rng.below(7) {
            0 => b[i] = rng.next() as u8,
            1 => b[i] = *rng.pick(b"\r\n :\0\t/.\x7f\x80\xff0"),
            2 => {
                b.remove(i);
            }
            3 => {
                let j = rng.range(i, b.len() - 1);
                b.drain(i..=j.min(i + 20));
            }
            4 => {
                b.splice(i..i, frag.iter().copied());
            }
            5 => {
                let j = rng.range(i, (i + 30).min(b.len() - 1));
                let copy = b[i..=j].to_vec();
                b.splice(i..i, copy);
            }
            _ => b.truncate(i),
        }
    }
}

fn garbage(rng: &mut Rng) -> Vec<u8> {
    let n = rng.below(60);
    match rng.below(3) {
        0 => rng.bytes(n),
        1 => (0..n).map(|_| *rng.pick(b"\r\n :GETHP/1.0\t\0")).collect(),
        _ => {
            let parts: [&[u8]; 22] = [b"GET", b" ", b"/", b"HTTP/1.1", b"\r\n", b"\n", b"\r", b"a", b":", b"b", b"200", b"OK", b"Content-Length", b"5", b"-1", b"+5", b"Transfer-Encoding", b"identity", b"chunked", b"HTTP", b"\xc3", b"Content-Type"];
            (0..rng.below(20)).flat_map(|_| rng.pick(&parts).to_vec()).collect()
        }
    }
}

const KINDS: [io::ErrorKind; 7] = [io::ErrorKind::ConnectionReset, io::ErrorKind::TimedOut, io::ErrorKind::WouldBlock, io::ErrorKind::BrokenPipe, io::ErrorKind::UnexpectedEof, io::ErrorKind::Other, io::ErrorKind::NotConnected];

pub fn run() {
    c().rule("one evaluation = one input (well-formed, truncated, failing, mutated, random or endless) given to one parser and read to the end of its body; distinct by parser, kind of input and outcome shape, trivial when empty");
    c().assume("Work is bounded when the parser reads a source that has ended fewer than 1000 times, takes less than 64 MiB from an endless one and ends within 30 s.");
    // Well-formed messages: every grain gives the same value; every truncation and every failure is reported.
    par(8, c().n(800, 12000), "wf", |i, rng| {
        let what = WHATS[i as usize % 4];
        let (b, head) = message(what, rng);
        let data = Arc::new(b);
        let d = |why: &str, extra: serde_json::Value| json!({"why": why, "parser": format!("{what:?}"), "message": show(&data), "head_len": head, "len": data.len(), "more": extra});
        let Some(base) = run_one(what, &data, PLAIN, i) else { return };
        match &base {
            Out::Value { body_ok: true, body, .. } if body.as_deref().unwrap_or(b"") == &data[head..] || !matches!(what, What::Request | What::Response) => (),
            o => {
                c().violation(&format!("well-formed-refused:{what:?}"), d("a well-formed message was not read as such", json!(clip(&format!("{o:?}"), 400))));
                return;
            }
        }
        for grain in [1, 2, 3, 17, 4096] {
            for interrupts in [0, 3] {
                let how = How { grain, interrupts, direct: grain % 2 == 0, ..PLAIN };
                let Some(o) = run_one(what, &data, how, i) else { return };
                if o != base {
                    c().violation(&format!("depends-on-granularity:{what:?}"), d("another value when read in small pieces or with interruptions", json!({"grain": grain, "interrupts": interrupts, "whole": clip(&format!("{base:?}"), 300), "pieces": clip(&format!("{o:?}"), 300)})));
                    return;
                }
            }
        }
        c().eval(Some(("wf", what as u8, head.min(400), data.len() - head)));
        c().sample(json!({"parser": format!("{what:?}"), "message": show(&data[..data.len().min(200)]), "read_as": clip(&format!("{base:?}"), 300)}));
        // All truncations of short heads, some of long ones.
        let cuts: Vec<usize> = if head <= 300 { (0..head).collect() } else { (0..60).map(|_| rng.below(head)).chain([0, 1, head - 1, head - 2, head - 3]).collect() };
        for k in cuts {
            if c().stopped() {
                return;
            }
            let cut = Arc::new(data[..k].to_vec());
            let how = How { grain: *rng.pick(&[0, 1, 5]), ..PLAIN };
            let Some(o) = run_one(what, &cut, how, i) else { return };
            c().count("truncated_heads", 1);
            if matches!(o, Out::Value { .. }) {
                c().violation(&format!("truncated-head-accepted:{what:?}"), d("a message cut within its head was accepted", json!({"cut_at": k, "value": clip(&format!("{o:?}"), 300)})));
                return;
            }
            let kind = *rng.pick(&KINDS);
            let how = How { grain: *rng.pick(&[0, 1, 5]), fail: Some((k, kind, rng.chance(1, 2))), ..PLAIN };
            let Some(o) = run_one(what, &data, how, i) else { return };
            c().count("failing_heads", 1);
            if matches!(o, Out::Value { .. }) {
                c().violation(&format!("source-error-swallowed:{what:?}"), d("a failure of the source within the head was not reported", json!({"fails_at": k, "kind": format!("{kind:?}"), "value": clip(&format!("{o:?}"), 300)})));
                return;
            }
            c().eval(Some(("cut", what as u8, k)));
        }
        if data.len() > head {
            for _ in 0..12 {
                let any = rng.range(head, data.len() - 1);
                let k = (*rng.pick(&[head, head + 1, data.len() - 1, any])).min(data.len() - 1);
                let fail = if rng.chance(1, 2) { Some((k, *rng.pick(&KINDS), true)) } else { None };
                let cut = Arc::new(if fail.is_some() { data.to_vec() } else { data[..k].to_vec() });
                let how = How { grain: *rng.pick(&[0, 1, 700]), fail, direct: rng.chance(1, 2), ..PLAIN };
                let Some(o) = run_one(what, &cut, how, i) else { return };
                c().count("cut_bodies", 1);
                c().eval(Some(("body", what as u8, k - head, fail.is_some())));
                if let Out::Value { body_ok: true, .. } = o {
                    c().violation(&format!("short-body-accepted:{what:?}"), d("a body cut short was read without an error", json!({"cut_at": k, "failing": format!("{fail:?}")})));
                    return;
                }
            }
        }
    });
    // Hostile inputs: no panic, no endless loop, and the same outcome however they are cut.
    par(8, c().n(120_000, 3_000_000), "fuzz", |i, rng| {
        let what = *rng.pick(&WHATS);
        let b = match rng.below(4) {
            0 => garbage(rng),
            1 => {
                let mut a = message(what, rng).0;
                if rng.chance(1, 2) {
                    a.extend(garbage(rng));
                } else {
                    let mut g = garbage(rng);
                    g.extend(a);
                    a = g;
                }
                a
            }
            _ => {
                let mut a = message(what, rng).0;
                mutate(&mut a, rng);
                a
            }
        };
        let data = Arc::new(b);
        let Some(a) = run_one(what, &data, PLAIN, i) else { return };
        let how = How { grain: rng.range(1, 9), interrupts: rng.below(2) * 4, direct: rng.chance(1, 2), ..PLAIN };
        let Some(o) = run_one(what, &data, how, i) else { return };
        let same = match (&a, &o) {
            (Out::Error(_), Out::Error(_)) => true,
            (Out::Value { body_ok: false, .. }, Out::Value { body_ok: false, .. }) => true,
            _ => a == o,
        };
        if !same {
            c().violation(&format!("depends-on-granularity:{what:?}"), json!({"input": show(&data), "whole": clip(&format!("{a:?}"), 300), "pieces": clip(&format!("{o:?}"), 300)}));
        }
        let key = match &a {
            Out::Value { line, headers, body, body_ok } => (format!("{} {} {:?} {}", line, headers.len(), body.as_ref().map(|b| b.len().min(50)), body_ok), data.len().min(40)),
            Out::Error(e) => (e.clone(), data.len().min(300)),
        };
        c().eval(if data.is_empty() { None } else { Some((what as u8, key)) });
    });
    // Sources that never end, and heads as long as can be: the work stays bounded.
    let starts: [&[u8]; 9] = [b"", b"GET ", b"GET /", b"GET / HTTP/1.1", b"GET / HTTP/1.1\r\n", b"GET / HTTP/1.1\r\na: ", b"HTTP/1.1 200 OK\r\n", b"HTTP/1.1 200 ", b"HTTP/1.1 "];
    let tails: [&[u8]; 12] = [b"A", b" ", b"\r", b"\n", b"\r\r\n\n", b"a:\r\n", b"a: bcdefghijklmnop\r\n", b"\0", b":", b"\xff", b"1", b"x\n"];
    let t = Instant::now();
    par(8, c().n(108, 108 * 4), "endless", |i, rng| {
        let (s, e) = (starts[i as usize % 9], tails[(i as usize / 9) % 12]);
        for what in WHATS {
            let how = How { grain: if i < 108 { 0 } else { rng.range(100, 10_000) }, endless: Some(e.to_vec()), ..PLAIN };
            // Headers::read_from and Header::read_from are given a reader whose size is up to the caller.
            if matches!(what, What::Headers | What::Header) {
                continue;
            }
            let Some(o) = run_one(what, &Arc::new(s.to_vec()), how, i) else { return };
            c().count("endless_sources", 1);
            c().eval(Some(("endless", what as u8, i % 108)));
            if matches!(o, Out::Value { .. }) {
                c().violation("endless-head-accepted", json!({"start": show(s), "repeat": show(e), "value": clip(&format!("{o:?}"), 300)}));
            }
        }
    });
    // Long but finite header sections, many distinct names, long lines made of line feeds.
    for (i, make) in [
        Box::new(|n: usize| (0..n / 12).flat_map(|k| format!("x{k}: y\r\n").into_bytes()).collect::<Vec<u8>>()) as Box<dyn Fn(usize) -> Vec<u8>>,
        Box::new(|n| (0..n / 6).flat_map(|_| b"x: y\r\n".to_vec()).collect()),
        Box::new(|n| [b"x: ".to_vec(), vec![b'v'; n], b"\r\n".to_vec()].concat()),
        Box::new(|n| [b"x: ".to_vec(), vec![b'\n'; n], b"\r\n".to_vec()].concat()),
        Box::new(|n| [vec![b'n'; n], b": v\r\n".to_vec()].concat()),
        Box::new(|n| [b"x: ".to_vec(), vec![b' '; n], b"\r\n".to_vec()].concat()),
    ].iter().enumerate() {
        for what in WHATS {
            let mut b = match what {
                What::Request => b"GET / HTTP/1.1\r\n".to_vec(),
                What::Response => b"HTTP/1.1 200 OK\r\n".to_vec(),
                _ => vec![],
            };
            b.extend(make(900_000));
            b.extend_from_slice(b"\r\n");
            let t = Instant::now();
            if run_one(what, &Arc::new(b), PLAIN, i as u64).is_none() {
                break;
            }
            let secs = (t.elapsed().saturating_sub(c().stalled_since(t))).as_secs_f64();
            c().max("slowest_large_head_ms", (secs * 1000.0) as u64);
            c().eval(Some(("large", what as u8, i)));
            if secs > 15.0 {
                c().violation("work-not-bounded", json!({"shape": i, "parser": format!("{what:?}"), "seconds": secs, "bytes": 900_000}));
            }
        }
    }
    // Announced lengths far beyond what comes.
    for len in ["18446744073709551615", "9223372036854775807", "4294967296", "99999999999999"] {
        for what in [What::Request, What::Response] {
            let s = if what == What::Request { "POST / HTTP/1.1" } else { "HTTP/1.1 200 OK" };
            let data = Arc::new(format!("{s}\r\nContent-Length: {len}\r\n\r\nabc").into_bytes());
            if let Some(Out::Value { body_ok: true, .. }) = run_one(what, &data, PLAIN, 0) {
                c().violation("short-body-accepted", json!({"content_length": len}));
            }
            c().eval(Some(("len", len)));
        }
    }
    c().count("endless_and_large_ms", t.elapsed().as_millis() as u64);
    require("truncated_heads", 3000);
    require("failing_heads", 3000);
    require("cut_bodies", 300);
    require("accepted", 5000);
    require("rejected", 10_000);
    require("endless_sources", 100);
}
