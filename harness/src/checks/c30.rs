//! C30: what messages are made of (headers, methods, statuses, versions, bodies, errors) follows simple models.
use crate::traffic::{body_bytes, mutated};
use crate::util::*;
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::io::{self, Read};
use std::str::FromStr;
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::sync::Arc;
use wruster::http::errors::HttpError;
use wruster::http::headers::{Header, Headers};
use wruster::http::{Body, HttpMethod, Request, Response, StatusCode, Version};

type Found = Result<(), (&'static str, Value)>;
macro_rules! must {
    ($cond:expr, $sig:expr, $($d:tt)*) => {
        if !$cond {
            return Err(($sig, json!($($d)*)));
        }
    };
}

// ---- headers ----

const NAMES: [&str; 16] = ["a", "Content-Type", "content-length", "X-A", "x-a-b", "Accept", "Host", "Connection", "!#$%&'*+-.^_`|~09", "Set-Cookie", "I", "K", "X--A", "-", "0", "Transfer-Encoding"];

fn cased(rng: &mut Rng, s: &str) -> String {
    match rng.below(4) {
        0 => s.to_ascii_uppercase(),
        1 => s.to_ascii_lowercase(),
        2 => s.to_string(),
        _ => s.chars().map(|ch| if rng.chance(1, 2) { ch.to_ascii_uppercase() } else { ch.to_ascii_lowercase() }).collect(),
    }
}

/// name in lower case -> (spelling of the first addition, values)
type Model = BTreeMap<String, (String, Vec<String>)>;

fn same(h: &Headers, m: &Model, history: &[String], spelled: bool) -> Found {
    let mut names = HashSet::new();
    for (n, v) in h.iter() {
        must!(names.insert(n.to_ascii_lowercase()), "headers:name-twice", {"name": n, "history": history});
        match m.get(&n.to_ascii_lowercase()) {
            Some((first, want)) => {
                must!(v == want, "headers:iterated-values", {"name": n, "got": v, "expected": want, "history": history});
                must!(!spelled || n == first, "headers:spelling", {"got": n, "first": first, "history": history});
            }
            None => return Err(("headers:not-added", json!({"name": n, "history": history}))),
        }
    }
    must!(names.len() == m.len(), "headers:lost-in-iteration", {"got": names.len(), "expected": m.len(), "history": history});
    Ok(())
}

fn headers(rng: &mut Rng) -> Found {
    let mut h = if rng.chance(1, 2) { Headers::new() } else { Headers::default() };
    let mut m = Model::new();
    let mut history = vec![];
    let plain = rng.chance(1, 2);
    let few = rng.range(1, NAMES.len());
    let ops = *rng.pick(&[3, 10, 40, 300]);
    for _ in 0..rng.range(1, ops) {
        let name = if !plain && rng.chance(1, 6) { rng.pick(&["", "é", "É", "ſ", "K", " a", "a ", "ß"]).to_string() } else { rng.pick(&NAMES[..few]).to_string() };
        let name = cased(rng, &name);
        match rng.below(5) {
            0 | 1 => {
                let value = match rng.below(5) {
                    0 => String::new(),
                    1 => "same".into(),
                    2 => "with, commas ; and = more".into(),
                    3 => "ünïcode".into(),
                    _ => {
                        let n = rng.range(1, 12);
                        rng.token(n)
                    }
                };
                if ops < 100 {
                    history.push(format!("add {name}: {value}"));
                }
                m.entry(name.to_ascii_lowercase()).or_insert_with(|| (name.clone(), vec![])).1.push(value.clone());
                h.add(Header { name, value });
                c().count("header_fields_added", 1);
            }
            2 | 3 => {
                let got = h.get(&name);
                let want = m.get(&name.to_ascii_lowercase()).map(|x| &x.1);
                must!(got == want, "headers:get", {"name": name, "got": got, "expected": want, "history": history});
                c().count(if want.is_some() { "header_lookups_of_present" } else { "header_lookups_of_absent" }, 1);
            }
            _ => same(&h, &m, &history, true)?,
        }
    }
    same(&h, &m, &history, true)?;
    // What is written is each field once, those of a name in their order, and reads back.
    let mut w = vec![];
    must!(h.write(&mut w).is_ok(), "headers:write", {"history": history});
    let text = String::from_utf8_lossy(&w).to_string();
    must!(text.ends_with("\r\n") && (text == "\r\n" || text.ends_with("\r\n\r\n")), "headers:no-end", {"text": text});
    let mut seen = Model::new();
    for l in text.trim_end_matches("\r\n").split("\r\n").filter(|l| !l.is_empty()) {
        let Some((n, v)) = l.split_once(": ") else { return Err(("headers:line", json!({"line": l}))) };
        seen.entry(n.to_ascii_lowercase()).or_insert_with(|| (n.to_string(), vec![])).1.push(v.to_string());
    }
    must!(seen == m, "headers:written", {"text": text, "expected": format!("{m:?}"), "history": history});
    if plain {
        match Headers::read_from(&mut io::Cursor::new(&w)) {
            Ok(back) => {
                same(&back, &m, &history, false)?;
                for (n, (_, v)) in &m {
                    must!(back.get(&cased(rng, n)) == Some(v), "headers:get-after-reading-back", {"name": n, "history": history});
                }
            }
            Err(e) => return Err(("headers:read-back", json!({"text": text, "error": format!("{e:?}")}))),
        }
        c().count("header_collections_read_back", 1);
    }
    c().eval(Some(("headers", m.keys().cloned().collect::<Vec<_>>(), m.values().map(|v| v.1.len()).collect::<Vec<_>>())));
    Ok(())
}

// ---- codes and names ----

fn statuses() -> Vec<(StatusCode, usize)> {
    use StatusCode::*;
    vec![(Continue, 100), (SwitchingProtocols, 101), (OK, 200), (Created, 201), (Accepted, 202), (NonAuthoritativeInformation, 203), (NoContent, 204), (ResetContent, 205), (PartialContent, 206),
        (MultipleChoices, 300), (MovedPermanently, 301), (Found, 302), (SeeOther, 303), (NotModified, 304), (UseProxy, 305), (TemporaryRedirect, 307),
        (BadRequest, 400), (Unauthorized, 401), (PaymentRequired, 402), (Forbidden, 403), (NotFound, 404), (MethodNotAllowed, 405), (NotAcceptable, 406), (ProxyAuthenticationRequired, 407),
        (RequestTimeOut, 408), (Conflict, 409), (Gone, 410), (LengthRequired, 411), (PreconditionFailed, 412), (RequestEntityTooLarge, 413), (RequestURITooLarge, 414), (UnsupportedMediaType, 415),
        (RequestedRangeNotSatisfiable, 416), (ExpectationFailed, 417), (InternalServerError, 500), (NotImplemented, 501), (BadGateway, 502), (ServiceUnavailable, 503), (GatewayTimeOut, 504),
        (HTTPVersionNotSupported, 505), (ExtensionCode(299), 299), (ExtensionCode(599), 599), (ExtensionCode(999), 999), (ExtensionCode(418), 418)]
}

fn codes() -> Found {
    let mut reasons = HashSet::new();
    for (s, n) in statuses() {
        let k: usize = (&s).into();
        must!(k == n, "status:number", {"status": format!("{s:?}"), "got": k, "expected": n});
        must!(StatusCode::from(n) == s, "status:from-number", {"number": n, "got": format!("{:?}", StatusCode::from(n))});
        must!(s.clone() == s, "status:clone", {"status": format!("{s:?}"), "clone": format!("{:?}", s.clone())});
        let text = s.to_string();
        must!(text == format!("{n} {}", s.reason()) && text == String::from(s.clone()), "status:text", {"status": format!("{s:?}"), "text": text});
        must!(!s.reason().is_empty() && s.reason().bytes().all(|b| b == b' ' || b.is_ascii_graphic()), "status:reason", {"status": format!("{s:?}"), "reason": s.reason()});
        must!(reasons.insert(s.reason()) || matches!(s, StatusCode::ExtensionCode(_)), "status:reason-of-two", {"reason": s.reason()});
        // on the wire and back
        let mut w = vec![];
        let _ = Response::from_status(s.clone()).write(&mut w);
        must!(w.starts_with(format!("HTTP/1.1 {n} ").as_bytes()), "status:written", {"status": format!("{s:?}"), "got": show(&w)});
        match Response::read_from(io::Cursor::new(w)) {
            Ok(r) => must!(r.status == s, "status:read-back", {"status": format!("{s:?}"), "got": format!("{:?}", r.status)}),
            Err(e) => return Err(("status:read-back", json!({"status": format!("{s:?}"), "got": format!("{e:?}")}))),
        }
        c().eval(Some(("status", n)));
    }
    for n in 0..70_000usize {
        let s = StatusCode::from(n);
        let k: usize = (&s).into();
        let k2: usize = (&s.clone()).into();
        must!(k == n && k2 == n && s == StatusCode::from(n), "status:round-trip", {"number": n, "got": k, "cloned": k2});
        let known = statuses().iter().any(|x| x.1 == n && !matches!(x.0, StatusCode::ExtensionCode(_)));
        must!(known != matches!(s, StatusCode::ExtensionCode(_)), "status:known", {"number": n, "got": format!("{s:?}")});
        c().count("status_numbers", 1);
    }
    let all = statuses();
    for (i, a) in all.iter().enumerate() {
        for (j, b) in all.iter().enumerate() {
            must!((a.0 == b.0) == (i == j), "status:equality", {"a": a.1, "b": b.1});
        }
    }
    let methods = [HttpMethod::GET, HttpMethod::HEAD, HttpMethod::POST, HttpMethod::PUT, HttpMethod::DELETE, HttpMethod::CONNECT, HttpMethod::OPTIONS, HttpMethod::TRACE, HttpMethod::PATCH];
    let names = ["GET", "HEAD", "POST", "PUT", "DELETE", "CONNECT", "OPTIONS", "TRACE", "PATCH"];
    for (i, (a, n)) in methods.iter().zip(names).enumerate() {
        must!(a.to_string() == n && HttpMethod::from_str(n).map_or(false, |m| m as u16 == *a as u16), "method:name", {"method": n, "got": a.to_string()});
        must!(*a as u16 <= HttpMethod::get_last() as u16, "method:last", {"method": n});
        for (j, b) in methods.iter().enumerate() {
            must!((a == b) == (i == j) && ((*a as u16) == (*b as u16)) == (i == j), "method:equality", {"a": n, "b": names[j]});
        }
        c().eval(Some(("method", n)));
    }
    let versions = [(Version::HTTP1_0, "HTTP/1.0"), (Version::HTTP1_1, "HTTP/1.1"), (Version::HTTP2, "HTTP/2")];
    for (i, (a, n)) in versions.iter().enumerate() {
        must!(a.to_string() == *n && Version::from_str(n).map_or(false, |v| v == *a), "version:name", {"version": n, "got": a.to_string()});
        for (j, (b, _)) in versions.iter().enumerate() {
            must!((a == b) == (i == j), "version:equality", {"a": n, "b": j});
        }
        c().eval(Some(("version", *n)));
    }
    let mut rng = c().rng("c30-names", 0);
    for _ in 0..c().n(20_000, 500_000) {
        let (k, k2) = (rng.below(9), rng.below(3));
        let m = mutated(&mut rng, names[k].as_bytes());
        if let Ok(s) = std::str::from_utf8(&m) {
            must!(HttpMethod::from_str(s).is_ok() == names.contains(&s), "method:parsed", {"name": s});
        }
        let v = mutated(&mut rng, versions[k2].1.as_bytes());
        if let Ok(s) = std::str::from_utf8(&v) {
            let known = versions.iter().any(|x| x.1 == s);
            match Version::from_str(s) {
                Ok(v) => must!(known && v.to_string() == s, "version:parsed", {"name": s, "got": v.to_string()}),
                Err(e) => must!(!known && e.source() == s && e.to_string().contains(s), "version:error", {"name": s, "got": e.to_string()}),
            }
        }
        c().count("changed_names_parsed", 1);
    }
    use io::ErrorKind::*;
    for k in [NotFound, PermissionDenied, ConnectionRefused, ConnectionReset, ConnectionAborted, NotConnected, AddrInUse, BrokenPipe, AlreadyExists, WouldBlock, InvalidInput, InvalidData, TimedOut, WriteZero, Interrupted, Other, UnexpectedEof] {
        let e = HttpError::from(io::Error::new(k, "the message"));
        let ok = match (&e, k) {
            (HttpError::ConnectionClosed, NotConnected) | (HttpError::Timeout, TimedOut) => true,
            (HttpError::Unknown(m), k) => m.contains("the message") && k != NotConnected && k != TimedOut,
            _ => false,
        };
        must!(ok && !e.to_string().is_empty(), "error:kind", {"kind": format!("{k:?}"), "got": format!("{e:?}")});
        c().eval(Some(("error", format!("{k:?}"))));
    }
    Ok(())
}

// ---- bodies ----

/// Counts what is taken from it.
struct Source {
    data: Vec<u8>,
    at: usize,
    taken: Arc<AtomicU64>,
    grain: usize,
    interrupts: usize,
    rng: Rng,
}
impl Read for Source {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        if self.interrupts > 0 && self.rng.chance(1, self.interrupts) {
            return Err(io::ErrorKind::Interrupted.into());
        }
        let n = b.len().min(self.data.len() - self.at).min(if self.grain == 0 { usize::MAX } else { self.rng.range(1, self.grain) });
        b[..n].copy_from_slice(&self.data[self.at..self.at + n]);
        self.at += n;
        self.taken.fetch_add(n as u64, SeqCst);
        Ok(n)
    }
}

fn read_n(r: &mut dyn Read, n: usize, chunk: usize) -> io::Result<Vec<u8>> {
    let mut v = vec![];
    let mut t = vec![0; chunk.max(1)];
    while v.len() < n {
        let want = t.len().min(n - v.len());
        match r.read(&mut t[..want]) {
            Ok(0) => break,
            Ok(k) => v.extend_from_slice(&t[..k]),
            Err(e) if e.kind() == io::ErrorKind::Interrupted => (),
            Err(e) => return Err(e),
        }
    }
    Ok(v)
}

fn bodies(rng: &mut Rng) -> Found {
    let len = *rng.pick(&[0usize, 1, 2, 5, 100, 8191, 8192, 8193, 20_000, 70_000]);
    let data = rng.bytes(len);
    let behind = if rng.chance(1, 2) { rng.range(1, 20_000) } else { 0 };
    let mut all = data.clone();
    all.extend(rng.bytes(behind));
    let taken: Arc<AtomicU64> = Default::default();
    let source = |data: Vec<u8>, rng: &mut Rng| Source { data, at: 0, taken: Arc::clone(&taken), grain: *rng.pick(&[0, 1, 7, 5000]), interrupts: *rng.pick(&[0, 0, 3]), rng: Rng::new(rng.next(), "src", 0) };
    let how = rng.below(4);
    let mut exact = true;
    let mut body = match how {
        // made by hand: its source can go on behind the body
        0 | 1 => {
            exact = false;
            Body::new(None, len as u64, Box::new(source(all.clone(), rng)))
        }
        2 => {
            let head = format!("POST / HTTP/1.1\r\nContent-Length: {len}\r\n\r\n").into_bytes();
            match Request::read_from(source([&head[..], &all].concat(), rng)).map(|r| r.body) {
                Ok(Some(b)) => b,
                Ok(None) if len == 0 => return Ok(()),
                o => return Err(("body:not-read", json!({"got": format!("{o:?}")}))),
            }
        }
        _ => {
            let mut h = Headers::new();
            h.add(Header { name: "content-length".into(), value: len.to_string() });
            match Body::read_from(source(all.clone(), rng), &h) {
                Ok(Some(b)) => b,
                Ok(None) if len == 0 => return Ok(()),
                o => return Err(("body:not-read", json!({"got": format!("{o:?}")}))),
            }
        }
    };
    must!(body.content_length == len as u64, "body:length", {"got": body.content_length, "expected": len});
    // Some of it is read, in any way; the rest is skipped; or everything is read.
    let mut pos = 0usize;
    let mut history = vec![];
    let end = if exact { len } else { all.len() };
    for _ in 0..rng.below(6) {
        let n = rng.below(len * 2 / 3 + 2);
        let chunk = *rng.pick(&[1usize, 3, 1000, 8192, 100_000]);
        // what is read from the content directly is not known to a body made by hand
        let direct = exact && rng.chance(1, 2);
        let r = if direct { read_n(&mut body.content, n, chunk) } else { read_n(&mut body, n, chunk) };
        history.push(format!("read {n} in pieces of {chunk}{}", if direct { ", directly" } else { "" }));
        let want = &all[pos..end.min(pos + n)];
        match r {
            Ok(v) => must!(v == want, "body:read", {"history": history, "length": len, "position": pos, "got": v.len(), "expected": want.len(), "how": how}),
            Err(e) => return Err(("body:read", json!({"history": history, "length": len, "error": e.to_string(), "how": how}))),
        }
        pos += want.len();
        if rng.chance(1, 6) {
            let r = if direct { body.content.read(&mut []) } else { body.read(&mut []) };
            must!(matches!(&r, Ok(0)) || matches!(&r, Err(e) if e.kind() == io::ErrorKind::Interrupted), "body:empty-read", {"history": history, "got": format!("{r:?}")});
            history.push("read 0".into());
        }
        if rng.chance(1, 6) {
            let before = taken.load(SeqCst);
            let text = format!("{body:?}");
            must!(taken.load(SeqCst) == before, "body:debug-reads", {"text": clip(&text, 100)});
        }
    }
    // The announced length can be changed by whoever has the body.
    let lowered = rng.chance(1, 12);
    if lowered {
        body.content_length = rng.below(len + 1) as u64;
        history.push(format!("length set to {}", body.content_length));
    }
    for _ in 0..rng.range(1, 3) {
        history.push("ensure_read".into());
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| body.ensure_read()));
        match r {
            Ok(Ok(())) => (),
            Ok(Err(e)) => return Err(("body:ensure-read-failed", json!({"history": history, "length": len, "how": how, "error": format!("{e:?}")}))),
            Err(_) => return Err(("body:ensure-read-panicked", json!({"history": history, "length": len, "how": how, "panic": format!("{:?}", lock(&c().unplanned_panics).last())}))),
        }
        if !lowered {
            pos = pos.max(len);
            if !exact {
                let t = taken.load(SeqCst);
                must!(t == pos as u64, "body:ensure-read-amount", {"history": history, "length": len, "how": how, "taken_from_the_source": t, "expected": pos});
            }
        }
    }
    if exact && !lowered {
        let rest = read_n(&mut body.content, 10, 10).map_err(|e| ("body:after-the-end", json!({"error": e.to_string()})))?;
        must!(rest.is_empty(), "body:after-the-end", {"history": history, "got": rest.len()});
        if how == 3 {
            let t = taken.load(SeqCst);
            must!(t == len as u64, "body:took-what-is-behind", {"taken": t, "length": len});
        }
    }
    c().count("bodies_followed", 1);
    c().eval(Some(("body", how, len, behind.min(1), history.len(), lowered)));
    Ok(())
}

fn constructors(rng: &mut Rng) -> Found {
    let data = body_bytes(rng, 20_000);
    let text = String::from_utf8_lossy(&data).to_string();
    let read = |b: &mut Body| {
        let mut v = vec![];
        b.read_to_end(&mut v).map(|_| v).unwrap_or_default()
    };
    let mimes = [mime::TEXT_PLAIN, mime::TEXT_PLAIN_UTF_8, mime::APPLICATION_JSON, "a/b; c=\"d e\"".parse().unwrap()];
    let m = rng.pick(&mimes).clone();
    let check = |what: &str, b: &mut Body, m: Option<mime::Mime>, data: &[u8]| -> Found {
        must!(b.content_length == data.len() as u64, "constructor:length", {"what": what, "got": b.content_length, "expected": data.len()});
        must!(b.content_type == m, "constructor:type", {"what": what, "got": format!("{:?}", b.content_type), "expected": format!("{m:?}")});
        let got = read(b);
        must!(got == data, "constructor:content", {"what": what, "got": clip(&show(&got), 100), "expected": clip(&show(data), 100)});
        Ok(())
    };
    check("Body::from(String, type)", &mut Body::from(text.clone(), m.clone()), Some(m.clone()), text.as_bytes())?;
    check("Body::from(&str, type)", &mut Body::from(text.as_str(), m.clone()), Some(m.clone()), text.as_bytes())?;
    check("Body: From<&str>", &mut <Body as From<&str>>::from(&text), Some(mime::TEXT_PLAIN), text.as_bytes())?;
    check("Body::new", &mut Body::new(None, data.len() as u64, Box::new(io::Cursor::new(data.clone()))), None, &data)?;
    let mut r = Response::from_str(&text).unwrap();
    must!(r.status == StatusCode::OK, "constructor:status", {"what": "Response::from_str"});
    check("Response::from_str", r.body.as_mut().unwrap(), Some(mime::TEXT_PLAIN), text.as_bytes())?;
    let extra = rng.below(30);
    let long = [&data[..], &rng.bytes(extra)].concat();
    let mut r = Response::from_content(io::Cursor::new(long), data.len() as u64, m.clone());
    let (l, t) = (r.headers.get("content-length").cloned(), r.headers.get("CONTENT-TYPE").cloned());
    must!(r.status == StatusCode::OK && l == Some(vec![data.len().to_string()]) && t == Some(vec![m.to_string()]), "constructor:headers", {"what": "Response::from_content", "length": l, "type": t});
    check("Response::from_content", r.body.as_mut().unwrap(), Some(m.clone()), &data)?;
    let all = statuses();
    let s = &all[rng.below(all.len())].0;
    let r = Response::from_status(s.clone());
    must!(r.status == *s && r.body.is_none(), "constructor:status", {"what": "Response::from_status", "got": format!("{:?}", r.status)});
    let method = *rng.pick(&[HttpMethod::POST, HttpMethod::PUT, HttpMethod::PATCH, HttpMethod::GET]);
    let mut q = Request::from_body(Body::from(text.clone(), m.clone()), method, "/p?q");
    let (l, t) = (q.headers.get("Content-Length").cloned(), q.headers.get("Content-Type").cloned());
    must!(q.method == method && q.uri == "/p?q" && q.version == "HTTP/1.1", "constructor:line", {"got": format!("{q:?}")});
    must!(l == Some(vec![text.len().to_string()]) || text.is_empty() && l.is_none() || text.is_empty() && l == Some(vec!["0".into()]), "constructor:headers", {"what": "Request::from_body", "length": l});
    must!(t == Some(vec![m.to_string()]), "constructor:headers", {"what": "Request::from_body", "type": t});
    check("Request::from_body", q.body.as_mut().unwrap(), Some(m.clone()), text.as_bytes())?;
    let mut q = Request::from(text.clone(), m.clone(), method, "/x".into());
    must!(q.method == method && q.uri == "/x" && q.version == "HTTP/1.1", "constructor:line", {"got": format!("{q:?}")});
    check("Request::from", q.body.as_mut().unwrap(), Some(m), text.as_bytes())?;
    // Text that was read, and what is shown of parts and errors.
    let (name, value) = (rng.pick(&NAMES).to_string(), rng.token(8));
    let raw = format!("{method} /s?t HTTP/1.1\r\n{name}: {value}\r\n{}\r\n{text}", if NAMES[2].eq_ignore_ascii_case(&name) || name == "Transfer-Encoding" { String::new() } else { format!("Content-Length: {}\r\n", text.len()) });
    if !["Content-Type", "content-length", "Transfer-Encoding"].contains(&name.as_str()) {
        match Request::read_from_str(&raw) {
            Ok(mut q) => {
                must!(q.method == method && q.uri == "/s?t" && q.version == "HTTP/1.1" && q.headers.get(&name) == Some(&vec![value.clone()]), "constructor:line", {"what": "Request::read_from_str", "got": format!("{q:?}"), "text": clip(&raw, 200)});
                match q.body.as_mut() {
                    Some(b) => check("Request::read_from_str", b, None, text.as_bytes())?,
                    None => must!(text.is_empty(), "constructor:content", {"what": "Request::read_from_str"}),
                }
            }
            Err(e) => return Err(("constructor:read", json!({"what": "Request::read_from_str", "error": format!("{e:?}"), "text": clip(&raw, 200)}))),
        }
    }
    let shown = Header { name: name.clone(), value: value.clone() }.to_string();
    must!(shown.contains(&name) && shown.contains(&value), "shown:header", {"name": name, "value": value, "shown": shown});
    for e in [HttpError::InvalidRequest(value.clone()), HttpError::Unknown(value.clone())] {
        must!(e.to_string().contains(&value), "shown:error", {"error": format!("{e:?}"), "shown": e.to_string()});
    }
    // Whether a connection is to be kept, of a message made by hand.
    let (lines, close, keep) = super::c12::connection(rng);
    let version = *rng.pick(&["HTTP/1.1", "HTTP/1.0", "HTTP/0.9", "HTTP/1.2", "http/1.1", ""]);
    let mut q = Request { method, uri: "/".into(), version: version.into(), headers: Headers::new(), body: None };
    for (name, value) in &lines {
        q.headers.add(Header { name: name.clone(), value: value.clone() });
    }
    let want = !close && (version == "HTTP/1.1" || version == "HTTP/1.0" && keep);
    must!(q.is_connection_persistent() == want, "persistent", {"version": version, "lines": lines, "expected": want});
    c().count("constructed", 1);
    c().eval(Some(("constructed", text.len().min(50), close, keep, version)));
    Ok(())
}

pub fn run() {
    c().rule("one evaluation = one history of a header collection or of a body, one set of constructed values, or one code, name or kind of error, compared with its model after each step");
    let fail = |i: u64, r: Found| {
        if let Err((sig, d)) = r {
            c().violation(sig, json!({"case": i, "detail": d}));
        }
    };
    let r = std::panic::catch_unwind(codes);
    match r {
        Ok(r) => fail(0, r),
        Err(_) => c().violation("panic", json!({"where": "codes", "panic": format!("{:?}", lock(&c().unplanned_panics).last())})),
    }
    let many = |n: usize, salt: &str, f: &(dyn Fn(&mut Rng) -> Found + Sync)| {
        par(8, n, salt, |i, rng| match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(rng))) {
            Ok(r) => fail(i, r),
            Err(_) => c().violation("panic", json!({"where": salt, "case": i, "panic": format!("{:?}", lock(&c().unplanned_panics).last())})),
        });
    };
    many(c().n(20_000, 600_000), "c30-headers", &headers);
    many(c().n(20_000, 600_000), "c30-bodies", &bodies);
    many(c().n(5_000, 150_000), "c30-constructors", &constructors);
    require("header_fields_added", 50_000);
    require("header_lookups_of_present", 20_000);
    require("header_lookups_of_absent", 5_000);
    require("header_collections_read_back", 5_000);
    require("status_numbers", 70_000);
    require("changed_names_parsed", 20_000);
    require("bodies_followed", 10_000);
    require("constructed", 5_000);
}
