//! C08: messages are written through an instrumented destination and read back.
use crate::util::*;
use crate::wire::parse_response;
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::io::{self, Cursor, Read, Write};
use std::str::FromStr;
use wruster::http::headers::{Header, Headers};
use wruster::http::{Body, Request, Response, StatusCode};

/// A destination that accepts few bytes per write, is interrupted, and fails at a given byte.
struct Dest {
    out: Vec<u8>,
    grain: usize,
    interrupts: usize,
    fail: Option<(usize, Option<io::ErrorKind>)>,
    rng: Rng,
    failed: bool,
    /// after failing this often it works again
    recovers: usize,
    writes: u64,
}
impl Write for Dest {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        self.writes += 1;
        if b.is_empty() {
            return Ok(0);
        }
        if self.interrupts > 0 && self.rng.chance(1, self.interrupts) {
            return Err(io::ErrorKind::Interrupted.into());
        }
        let mut n = if self.grain == 0 { b.len() } else { self.rng.range(1, self.grain).min(b.len()) };
        if let Some((at, kind)) = self.fail {
            if self.out.len() >= at {
                self.failed = true;
                if self.recovers == 1 {
                    self.fail = None;
                }
                self.recovers = self.recovers.saturating_sub(1);
                return match kind {
                    Some(k) => Err(k.into()),
                    None => Ok(0),
                };
            }
            n = n.min(at - self.out.len());
        }
        self.out.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
impl Dest {
    fn new(rng: &mut Rng, grain: usize, interrupts: usize, fail: Option<(usize, Option<io::ErrorKind>)>) -> Dest {
        Dest { out: vec![], grain, interrupts, fail, rng: Rng::new(rng.next(), "dest", 0), failed: false, recovers: 0, writes: 0 }
    }
}

/// A body source of `data` in pieces.
struct Src(Cursor<Vec<u8>>, usize, usize, usize);
impl Read for Src {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        self.3 += 1;
        if self.2 > 0 && self.3 % self.2 == 0 {
            return Err(io::ErrorKind::Interrupted.into());
        }
        let n = b.len().min(self.1);
        self.0.read(&mut b[..n])
    }
}

#[derive(Clone, Debug)]
struct Plan {
    request: bool,
    kind: &'static str,
    status: u16,
    method: usize,
    target: String,
    version: &'static str,
    headers: Vec<(String, String)>,
    body: Vec<u8>,
    piece: usize,
    interrupt: usize,
}

fn hvalue(rng: &mut Rng) -> String {
    match rng.below(6) {
        0 => String::new(),
        1 => "añ→x €".into(),
        2 => "v".repeat(rng.below(5000) + 1),
        3 => format!("{} {}", rng.token(3), rng.token(2)),
        4 => format!("\"{};q=0.{}\", a/b\t: c", rng.token(2), rng.below(9)),
        _ => rng.token(8),
    }
}

fn plan(i: u64, rng: &mut Rng) -> Plan {
    let request = i % 2 == 0;
    let len = match rng.below(8) {
        0 => 0,
        1 => 1,
        2 => *rng.pick(&[8191, 8192, 8193, 65536]),
        3 => rng.below(100_000),
        4 if rng.chance(1, 12) => (2 << 20) + rng.below(3) - 1 + rng.below(2) * rng.below(1 << 20),
        _ => rng.below(3000),
    };
    let len = if i % 433 == 200 { *rng.pick(&[4 << 20, 8 << 20, 16 << 20, 24 << 20]) + rng.below(5) } else { len };
    let mut headers = vec![];
    for _ in 0..if rng.chance(1, 40) { rng.range(30, 300) } else { rng.below(5) } {
        let n = format!("X-{}", rng.pick(&["a", "B", "long-name", "t_o.k!e#n"]));
        headers.push((n, hvalue(rng)));
    }
    let target = match rng.below(5) {
        0 => "/".into(),
        1 => format!("/{}?{}=%20&x", rng.token(5), rng.token(3)),
        2 => format!("/{}", "p".repeat(rng.below(9000))),
        3 => "/ñ/→".into(),
        _ => format!("/{}/./../{}", rng.token(3), rng.token(3)),
    };
    Plan {
        request,
        kind: *rng.pick(if request { &["from_body", "literal", "none", "reread"] } else { &["status", "str", "content", "literal", "reread"] }),
        status: if i / 2 < 900 { 100 + (i / 2) as u16 } else { rng.range(100, 999) as u16 },
        method: rng.below(9),
        target,
        version: rng.pick(&["HTTP/1.1", "HTTP/1.0", "HTTP/1.1", "HTTP/2"]),
        headers,
        body: rng.bytes(len),
        piece: *rng.pick(&[1 << 30, 1 << 30, 1000, 13]),
        interrupt: *rng.pick(&[0, 0, 3]),
    }
}

fn hdrs(p: &Plan) -> Headers {
    let mut h = Headers::new();
    for (n, v) in &p.headers {
        h.add(Header { name: n.clone(), value: v.clone() });
    }
    h
}
fn src(p: &Plan) -> Box<dyn Read> {
    Box::new(Src(Cursor::new(p.body.clone()), p.piece, p.interrupt, 0))
}

type HMap = BTreeMap<String, Vec<String>>;
fn hmap(h: &Headers) -> HMap {
    h.iter().map(|(n, v)| (n.to_ascii_lowercase(), v.clone())).collect()
}
fn expected_headers(p: &Plan) -> HMap {
    let mut m = HMap::new();
    for (n, v) in &p.headers {
        m.entry(n.to_ascii_lowercase()).or_default().push(v.clone());
    }
    m
}

/// Builds the message and writes it. The result says whether the write reported an error.
fn write(p: &Plan, d: &mut Dest) -> Result<(), String> {
    let e = |e: wruster::http::errors::HttpError| format!("{e:?}");
    if p.request {
        let m = crate::srv::METHODS[p.method].1;
        let mut q = match p.kind {
            "from_body" => {
                let mut q = Request::from_body(Body::new(Some(mime::TEXT_PLAIN), p.body.len() as u64, src(p)), m, &p.target);
                for (n, v) in &p.headers {
                    q.headers.add(Header { name: n.clone(), value: v.clone() });
                }
                q
            }
            "none" => Request { method: m, uri: p.target.clone(), version: String::new(), headers: hdrs(p), body: None },
            _ => {
                let mut h = hdrs(p);
                h.add(Header { name: "content-LENGTH".into(), value: p.body.len().to_string() });
                Request { method: m, uri: p.target.clone(), version: String::new(), headers: h, body: Some(Body::new(None, p.body.len() as u64, src(p))) }
            }
        };
        q.version = p.version.into();
        if p.kind == "reread" {
            let mut first = vec![];
            q.write(&mut first).map_err(|x| format!("first write: {x:?}"))?;
            q = Request::read_from(Cursor::new(first)).map_err(|x| format!("reread: {x:?}"))?;
        }
        q.write(d).map_err(e)
    } else {
        let st = StatusCode::from(p.status as usize);
        let mut r = match p.kind {
            "status" => Response::from_status(st),
            "str" => Response::from_str(&String::from_utf8_lossy(&p.body)).unwrap(),
            "content" => Response::from_content(Src(Cursor::new(p.body.clone()), p.piece, p.interrupt, 0), p.body.len() as u64, mime::TEXT_HTML),
            _ => Response { status: st, headers: Headers::new(), body: Some(Body::new(None, p.body.len() as u64, src(p))) },
        };
        r.status = StatusCode::from(p.status as usize);
        for (n, v) in &p.headers {
            r.headers.add(Header { name: n.clone(), value: v.clone() });
        }
        if p.kind == "reread" {
            let mut first = vec![];
            r.write(&mut first).map_err(|x| format!("first write: {x:?}"))?;
            r = Response::read_from(Cursor::new(first)).map_err(|x| format!("reread: {x:?}"))?;
        }
        r.write(d).map_err(e)
    }
}

fn body_of(p: &Plan) -> Vec<u8> {
    match p.kind {
        "none" | "status" => vec![],
        "str" => String::from_utf8_lossy(&p.body).into_owned().into_bytes(),
        _ => p.body.clone(),
    }
}

fn drain(b: Option<Body>) -> Result<Vec<u8>, String> {
    let mut v = vec![];
    if let Some(mut b) = b {
        b.read_to_end(&mut v).map_err(|e| format!("body: {e}"))?;
    }
    Ok(v)
}

/// Reads the written bytes back with the code under test and compares.
fn check_back(p: &Plan, out: &[u8]) -> Result<(), (String, Value)> {
    let err = |s: &str, v: Value| Err((s.to_string(), v));
    let body = body_of(p);
    let mut want = expected_headers(p);
    let (mut got, got_body) = if p.request {
        let q = match Request::read_from(Cursor::new(out.to_vec())) {
            Ok(q) => q,
            Err(e) => return err("not-readable", json!({"error": format!("{e:?}")})),
        };
        let line = (q.method.to_string(), q.uri.clone(), q.version.clone());
        if line != (crate::srv::METHODS[p.method].0.to_string(), p.target.clone(), p.version.to_string()) {
            return err("another-request-line", json!({"read": line}));
        }
        (hmap(&q.headers), drain(q.body))
    } else {
        let r = match Response::read_from(Cursor::new(out.to_vec())) {
            Ok(r) => r,
            Err(e) => return err("not-readable", json!({"error": format!("{e:?}")})),
        };
        if usize::from(&r.status) != p.status as usize {
            return err("another-status", json!({"read": usize::from(&r.status)}));
        }
        (hmap(&r.headers), drain(r.body))
    };
    let cl = got.remove("content-length");
    // A request without body may leave the length out.
    let ok = match &cl {
        Some(v) => v == &[body.len().to_string()],
        None => p.request && body.is_empty(),
    };
    if !ok {
        return err("another-length", json!({"read": cl, "body_len": body.len()}));
    }
    if p.kind == "from_body" || p.kind == "content" {
        want.insert("content-type".into(), vec![if p.request { "text/plain" } else { "text/html" }.into()]);
    }
    if got != want {
        return err("other-headers", json!({"read": clip(&format!("{got:?}"), 600), "written": clip(&format!("{want:?}"), 600)}));
    }
    match got_body {
        Ok(b) if b == body => Ok(()),
        Ok(b) => err("another-body", json!({"read_len": b.len(), "written_len": body.len()})),
        Err(e) => err("another-body", json!({"error": e})),
    }
}

/// The same, with a reader that shares no code with the one under test.
fn check_independent(p: &Plan, out: &[u8]) -> Result<(), (String, Value)> {
    let err = |s: &str, v: Value| Err((s.to_string(), v));
    let body = body_of(p);
    let head_end = out.windows(4).position(|w| w == b"\r\n\r\n").map(|x| x + 4).unwrap_or(0);
    if &out[head_end..] != &body[..] {
        return err("body-on-the-wire", json!({"expected_len": body.len(), "len": out.len() - head_end}));
    }
    let line = out.split(|b| *b == b'\r').next().unwrap_or(b"");
    if p.request {
        let want = format!("{} {} {}", crate::srv::METHODS[p.method].0, p.target, p.version);
        if line != want.as_bytes() {
            return err("request-line-on-the-wire", json!({"line": show(line)}));
        }
        return Ok(());
    }
    match parse_response(out, false) {
        Ok(Some((r, n))) if r.status == p.status && n == out.len() && r.body == body => Ok(()),
        o => err("malformed-on-the-wire", json!({"parsed": clip(&format!("{o:?}"), 400)})),
    }
}

const KINDS: [Option<io::ErrorKind>; 6] = [Some(io::ErrorKind::BrokenPipe), Some(io::ErrorKind::TimedOut), Some(io::ErrorKind::WouldBlock), Some(io::ErrorKind::Other), Some(io::ErrorKind::ConnectionReset), None];

pub fn run() {
    c().rule("one evaluation = one message written through a destination of a given granularity and read back, or one write that must report the failure of its destination; distinct by kind, status, sizes and failing offset");
    let large = crate::big::beside(crate::big::written);
    par(8, c().n(2600, 60_000), "rt", |i, rng| {
        let p = plan(i, rng);
        let d = |why: Value, out: &[u8]| json!({"why": why, "plan": {"request": p.request, "kind": p.kind, "status": p.status, "target": clip(&p.target, 100), "version": p.version, "method": crate::srv::METHODS[p.method].0,
            "headers": clip(&format!("{:?}", p.headers), 400), "body_len": p.body.len(), "piece": p.piece}, "written": show(&out[..out.len().min(400)])});
        let what = if p.request { "request" } else { "response" };
        let mut total = 0;
        let mut first: Option<Vec<u8>> = None;
        let exact = p.headers.is_empty() && p.kind != "content" && p.kind != "from_body";
        for (grain, interrupts) in [(0, 0), (1, 0), (7, 4), (5000, 0)] {
            if grain == 1 && p.body.len() > 300_000 {
                continue;
            }
            let mut dest = Dest::new(rng, grain, interrupts, None);
            let r = c().guard("write", 60, || write(&p, &mut dest));
            c().count("messages_written", 1);
            let r = match r {
                Err(e) => Err(("write-failed".to_string(), json!(e))),
                Ok(()) => check_independent(&p, &dest.out).and_then(|_| check_back(&p, &dest.out)),
            };
            if let Err((sig, v)) = r {
                c().violation(&format!("{what}:{sig}"), d(json!({"what": v, "grain": grain, "interrupts": interrupts}), &dest.out));
                return;
            }
            if exact {
                match &first {
                    Some(f) if *f != dest.out => {
                        c().violation(&format!("{what}:depends-on-granularity"), d(json!({"grain": grain}), &dest.out));
                        return;
                    }
                    _ => first = Some(dest.out.clone()),
                }
            }
            total = dest.out.len();
        }
        c().eval(Some((what, p.kind, p.status, p.body.len().min(4000), p.headers.len())));
        c().sample(d(json!("read back the same"), b""));
        // Every error of the destination is reported.
        let mut offs: Vec<usize> = (0..14).map(|k| rng.below(if k < 8 { total } else { total.min(400) })).chain([0, 1, total - 1]).collect();
        if total > 2 << 20 {
            offs.extend([total - 1000, total - (1 << 20), total - 2, 1 << 20]);
        } else if total < 120 {
            offs = (0..total).collect();
        }
        for at in offs {
            let kind = *rng.pick(&KINDS);
            let grain = *rng.pick(&[0usize, 0, 11, 4096]);
            let mut dest = Dest::new(rng, grain, 0, Some((at, kind)));
            dest.recovers = *rng.pick(&[0, 1, 1, 2]);
            let r = c().guard("write", 60, || write(&p, &mut dest));
            c().count("failing_writes", 1);
            c().eval(Some((what, "fail", p.kind, at)));
            // The order of the headers may vary, the total size does not.
            if r.is_ok() {
                c().violation(&format!("{what}:error-swallowed"), d(json!({"fails_at": at, "of": total, "kind": format!("{kind:?}"), "reached": dest.failed, "works_again_afterwards": dest.fail.is_none()}), &dest.out));
                return;
            }
        }
        // Exactly at the end nothing fails.
        let mut dest = Dest::new(rng, 0, 0, Some((total, Some(io::ErrorKind::BrokenPipe))));
        if write(&p, &mut dest).is_err() {
            c().violation(&format!("{what}:writes-too-much"), d(json!({"accepted": total}), &dest.out));
        }
    });
    // Header sections and bodies on their own.
    par(8, c().n(400, 8000), "parts", |i, rng| {
        let p = plan(i, rng);
        let h = hdrs(&p);
        let mut dest = Dest::new(rng, *rng.clone().pick(&[0, 1, 9]), 3, None);
        let r = h.write(&mut dest);
        let back = Headers::read_from(&mut Cursor::new(dest.out.clone()));
        match (&r, &back) {
            (Ok(()), Ok(b)) if hmap(b) == expected_headers(&p) => (),
            _ => c().violation("headers:not-read-back", json!({"written": show(&dest.out), "back": clip(&format!("{back:?}"), 400)})),
        }
        let total = dest.out.len();
        for _ in 0..4 {
            let at = rng.below(total);
            let mut dest = Dest::new(rng, 0, 0, Some((at, Some(io::ErrorKind::BrokenPipe))));
            dest.recovers = rng.below(2);
            if h.write(&mut dest).is_ok() {
                c().violation("headers:error-swallowed", json!({"fails_at": at, "of": total}));
            }
        }
        // A source longer than announced is cut, one shorter is an error.
        let extra = rng.below(4);
        let len = p.body.len();
        let announced = (len + 2).saturating_sub(extra) as u64;
        let mut b = Body::new(None, announced, src(&p));
        let mut dest = Dest::new(rng, 0, 0, None);
        let r = b.write(&mut dest);
        let want = &p.body[..len.min(announced as usize)];
        if dest.out != want || r.is_ok() != (announced <= len as u64) {
            c().violation("body:length", json!({"announced": announced, "source": len, "written": dest.out.len(), "result": format!("{r:?}")}));
        }
        c().count("parts", 1);
        c().eval(Some(("part", p.headers.len(), len.min(4000), extra)));
    });
    // A request converted from content alone.
    for content in ["", "x", "hello"] {
        let q = Request::from(content, mime::TEXT_PLAIN, wruster::http::HttpMethod::POST, "/from".into());
        let mut out = vec![];
        let back = q.write(&mut out).ok().and_then(|_| Request::read_from(Cursor::new(out.clone())).ok());
        let body = back.map(|q| (q.uri.clone(), drain(q.body)));
        c().eval(Some(("converted", content)));
        if body != Some(("/from".to_string(), Ok(content.as_bytes().to_vec()))) {
            c().violation("request-from-content-without-length", json!({"content": content, "written": show(&out)}));
        }
    }
    crate::big::end(large);
    require("bodies_over_32_bits_written", 3);
    require("messages_written", 8000);
    require("failing_writes", 20_000);
    require("parts", 300);
}
