//! C28: what a peer sends, or does not take, costs memory up to a constant and work in proportion to what it sends.
use crate::big::{drain, Source};
use crate::rawsrv::RawServer;
use crate::srv::*;
use crate::util::*;
use crate::wire::Conn;
use serde_json::json;
use std::io::{Read, Write};
use std::net::{SocketAddr, TcpStream};
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::sync::Arc;
use std::time::{Duration, Instant};
use wruster::http::client::Client;
use wruster::http::headers::Headers;
use wruster::http::{Body, HttpMethod, Request, Response, StatusCode};
use wruster_handlers::{log_middleware, serve_static};

// ---- work ----

/// A request (or a response, for the client) whose head or body is about `n` bytes, in the shape `kind`.
fn shape(kind: &str, n: usize) -> Vec<u8> {
    let get = |target: &str, headers: &str| format!("GET {target} HTTP/1.1\r\n{headers}\r\n").into_bytes();
    let times = |s: &str| s.repeat(n / s.len());
    let numbered = |f: &dyn Fn(usize) -> String| {
        let mut v = String::new();
        let mut k = 0;
        while v.len() + 40 < n {
            v += &f(k);
            k += 1;
        }
        v
    };
    match kind {
        "path:down and up" => get(&format!("{}{}", "/a".repeat(n / 5), "/..".repeat(n / 5)), ""),
        "path:long names, then up" => get(&format!("/{}{}", "a".repeat(n / 2), "/b/..".repeat(n / 10)), ""),
        "path:deep" => get(&times("/a"), ""),
        "path:deep in the served directory" => get(&format!("/dir{}", times("/a")), ""),
        "path:links down and up in the served directory" => get(&format!("/dir/{}", times("sub/../")), ""),
        "path:separators" => get(&times("/"), ""),
        "path:dots" => get(&times("/."), ""),
        "path:one name" => get(&format!("/{}", times("a")), ""),
        "path:beside a route" => get(&format!("/route{}", times("/route")), ""),
        "query" => get(&format!("/?{}", times("a=/../&b")), ""),
        "query:marks" => get(&format!("/?{}", times("?")), ""),
        "headers:many" => get("/", &numbered(&|k| format!("h{k}: v\r\n"))),
        "headers:tiny" => get("/", &numbered(&|k| format!("{k:x}:\r\n"))),
        "headers:the same" => get("/", &numbered(&|_| "a: b\r\n".into())),
        "headers:the same in cases" => get("/", &numbered(&|k| format!("{}: b\r\n", (0..16).map(|i| if k >> i & 1 == 1 { 'A' } else { 'a' }).collect::<String>()))),
        "headers:long name" => get("/", &format!("{}: b\r\n", times("a"))),
        "headers:long value" => get("/", &format!("a: {}\r\n", times("b"))),
        "headers:blanks" => get("/", &format!("a: {}b{}\r\n", times(" ")[..n / 2].to_string(), times("\t")[..n / 2].to_string())),
        "headers:blanks between" => get("/", &format!("a: b{}b\r\n", times(" "))),
        "connection:options" => get("/", &format!("Connection: {}\r\n", times("a,"))),
        "connection:blank options" => get("/", &format!("Connection: {}\r\n", times(" ,"))),
        "connection:lines" => get("/", &numbered(&|_| "Connection: keep-alive\r\n".into())),
        "content-type:parameters" => format!("POST / HTTP/1.1\r\nContent-Length: 1\r\nContent-Type: text/plain{}\r\n\r\nx", times(";a=b")).into_bytes(),
        "content-type:lines" => format!("POST / HTTP/1.1\r\nContent-Length: 1\r\n{}\r\nx", numbered(&|_| "Content-Type: text/plain\r\n".into())).into_bytes(),
        "length:zeros" => format!("POST / HTTP/1.1\r\nContent-Length: {}1\r\n\r\nx", times("0")).into_bytes(),
        "length:lines" => format!("POST / HTTP/1.1\r\n{}\r\nx", numbered(&|_| "Content-Length: 1\r\n".into())).into_bytes(),
        "encoding:lines" => get("/", &numbered(&|_| "Transfer-Encoding: identity\r\n".into())),
        "version" => format!("GET / HTTP/1.{}\r\n\r\n", times("1")).into_bytes(),
        "method" => format!("{} / HTTP/1.1\r\n\r\n", times("A")).into_bytes(),
        "line:cr" => format!("GET / HTTP/1.1\r\na: {}\r\n\r\n", times("\r")).into_bytes(),
        "body" => format!("POST /read HTTP/1.1\r\nContent-Length: {n}\r\n\r\n{}", "x".repeat(n)).into_bytes(),
        "body:unread" => format!("POST / HTTP/1.1\r\nContent-Length: {n}\r\n\r\n{}", "x".repeat(n)).into_bytes(),
        "body:byte by byte" => format!("POST /bytes HTTP/1.1\r\nContent-Length: {n}\r\n\r\n{}", "x".repeat(n)).into_bytes(),
        "pipelined" => "GET / HTTP/1.1\r\n\r\n".repeat(n / 18).into_bytes(),
        "pipelined bodies" => "POST /read HTTP/1.1\r\nContent-Length: 1\r\n\r\nx".repeat(n / 41).into_bytes(),
        _ => unreachable!("{kind}"),
    }
}
const KINDS: [&str; 34] = [
    "path:down and up", "path:long names, then up", "path:deep", "path:deep in the served directory", "path:links down and up in the served directory", "path:separators", "path:dots", "path:one name", "path:beside a route",
    "query", "query:marks", "headers:many", "headers:tiny", "headers:the same", "headers:the same in cases", "headers:long name", "headers:long value", "headers:blanks", "headers:blanks between",
    "connection:options", "connection:blank options", "connection:lines", "content-type:parameters", "content-type:lines", "length:zeros", "length:lines", "encoding:lines", "version", "method", "line:cr",
    "body", "body:unread", "body:byte by byte", "pipelined",
];

fn answers(q: &mut Request) -> Response {
    if let Some(b) = q.body.as_mut() {
        match q.uri.as_str() {
            "/read" => drop(drain(b)),
            "/bytes" => while matches!(b.read(&mut [0]), Ok(1)) {},
            _ => (),
        }
    }
    Response::from_status(StatusCode::OK)
}

/// Sends `b` in pieces of `seg` bytes, then the end; reads until the server closes. The CPU time that took the process.
fn work(addr: SocketAddr, tls: bool, b: &[u8], seg: usize) -> Result<f64, String> {
    let t = cpu_time();
    let mut conn = Conn::open(addr, tls).map_err(|e| e.to_string())?;
    for piece in b.chunks(seg) {
        if !conn.try_send(piece) {
            break;
        }
        // the responses of pipelined requests have to be taken while the requests are sent
        if seg > 10_000 {
            let _ = conn.fill(Instant::now() + Duration::from_millis(1));
            conn.buf.clear();
        }
    }
    if tls {
        conn.close_notify();
    }
    conn.half_close();
    while !conn.eof {
        conn.fill(Instant::now() + Duration::from_secs(100)).map_err(|e| format!("{e:?}"))?;
        conn.buf.clear();
    }
    Ok(cpu_time() - t)
}
/// The same for a client that gets `b`.
fn client_work(b: &[u8], seg: usize) -> Result<f64, String> {
    let b = Arc::new(b.to_vec());
    let b2 = b.clone();
    let s = RawServer::start([127, 0, 0, 1].into(), move |_, mut sock| {
        let mut t = [0; 4096];
        let _ = sock.read(&mut t);
        for piece in b2.chunks(seg) {
            if sock.write_all(piece).is_err() {
                break;
            }
        }
        let _ = sock.shutdown(std::net::Shutdown::Write);
        while matches!(sock.read(&mut t), Ok(n) if n > 0) {}
    });
    let client = Client::new();
    let t = cpu_time();
    let q = Request { method: HttpMethod::GET, uri: "/".into(), version: "HTTP/1.1".into(), headers: Headers::new(), body: None };
    if let Ok(mut r) = client.run(&s.addr.to_string(), q) {
        if let Some(b) = r.body.as_mut() {
            drain(&mut b.content);
        }
    }
    Ok(cpu_time() - t)
}

const TIMES: usize = 32;
/// Something of size `n` and of 32 times that size: the CPU time may be 32 times as long, and not much more.
fn proportional(what: &str, n: usize, worst: f64, f: impl Fn(usize) -> Result<f64, String>) {
    let mut seen = vec![];
    for _ in 0..3 {
        let small = (0..3).map(|_| f(n)).try_fold(f64::MAX, |m, r| r.map(|x| m.min(x)));
        let large = f(n * TIMES);
        let (small, large) = match (small, large) {
            (Ok(s), Ok(l)) => (s, l),
            (s, l) => {
                // The end of the connection is what the other checks look at; here an answer in 100 s.
                c().violation("no-end", json!({"what": what, "small": format!("{s:?}"), "large": format!("{l:?}")}));
                return;
            }
        };
        seen.push(json!({"bytes": n, "cpu_s": small, "times_the_bytes": TIMES, "then_cpu_s": large}));
        let over = large > worst || large > 0.4 && large > (TIMES * 7) as f64 * small.max(0.0005);
        c().max(&format!("cpu_ms:{what}"), (large * 1000.0) as u64);
        if over && large > 5.0 * worst {
            // no need to wait for more of it
            break;
        }
        if !over {
            c().eval(Some(("work", what.to_string(), n)));
            c().count("shapes_in_proportion", 1);
            return;
        }
    }
    c().violation("work-out-of-proportion", json!({"shape": what, "measured": seen}));
}

fn works() {
    let dir = Scratch::new();
    let d = dir.0.clone();
    let routes = |r: &wruster::router::Router| {
        for (_, m) in METHODS {
            r.add("/", m, log_middleware(Box::new(answers)));
            r.add("/route/route/route/route/", m, Box::new(answers));
            let d = d.clone();
            r.add("/dir/", m, Box::new(move |q| serve_static(&d, q)));
        }
    };
    let (srv, tsrv) = (start(false, timeouts(90_000, 90_000), &routes), start(true, timeouts(90_000, 90_000), &routes));
    for k in KINDS {
        if c().stopped() {
            return;
        }
        let worst = if k.starts_with("pipelined") { 60.0 } else { 3.0 };
        proportional(k, 30_000, worst, |n| work(srv.addr, false, &shape(k, n), 1 << 16));
    }
    // Byte by byte, which is a read of the server each.
    for k in ["path:one name", "query", "headers:many", "headers:long value", "headers:long name", "headers:blanks", "body", "body:unread"] {
        if c().stopped() {
            return;
        }
        proportional(&format!("{k} (in pieces of a byte)"), 1500, 30.0, |n| work(srv.addr, false, &shape(k, n), 1));
    }
    for k in ["headers:many", "body", "body:unread", "path:long names, then up"] {
        if c().stopped() {
            return;
        }
        proportional(&format!("{k} (TLS)"), 30_000, 6.0, |n| work(tsrv.addr, true, &shape(k, n), 1 << 14));
        proportional(&format!("{k} (TLS, small pieces)"), 3_000, 30.0, |n| work(tsrv.addr, true, &shape(k, n), 50));
    }
    // What a client gets.
    for k in KINDS.iter().filter(|k| k.starts_with("headers") || k.starts_with("connection") || k.starts_with("content") || k.starts_with("body") || k.starts_with("encoding")) {
        if c().stopped() {
            return;
        }
        let response = |n| {
            let b = shape(k, n);
            let line = b.windows(2).position(|w| w == b"\r\n").unwrap();
            [b"HTTP/1.1 200 OK", &b[line..]].concat()
        };
        proportional(&format!("{k} (of a response)"), 30_000, 3.0, |n| client_work(&response(n), 1 << 16));
        if k.starts_with("headers:long") || *k == "body" {
            proportional(&format!("{k} (of a response, in pieces of a byte)"), 1500, 30.0, |n| client_work(&response(n), 1));
        }
    }
    srv.stop();
    tsrv.stop();
}

// ---- memory ----

/// A directory of this process, removed at the end.
struct Scratch(String);
impl Scratch {
    fn new() -> Scratch {
        static N: AtomicU64 = AtomicU64::new(0);
        let p = std::env::temp_dir().join(format!("vh-c28-{}-{}", std::process::id(), N.fetch_add(1, SeqCst)));
        std::fs::create_dir_all(p.join("sub")).expect("scratch");
        let f = std::fs::File::create(p.join("large")).expect("scratch");
        f.set_len(4 << 30).expect("sparse file");
        Scratch(p.to_string_lossy().to_string())
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

const MIB: i64 = 1 << 20;
/// The most the heap of the process grows while `f` runs. `f` returns how many bytes moved, and wants at least `least`.
fn held(what: &str, limit: i64, least: u64, f: impl FnOnce() -> Result<u64, String>) {
    if c().violated() {
        return;
    }
    let t = Instant::now();
    let before = live_bytes();
    peak_bytes();
    let r = f();
    let peak = peak_bytes() - before;
    c().max(&format!("heap_kib:{what}"), (peak.max(0) / 1024) as u64);
    let d = json!({"what": what, "heap_grew_by": peak, "limit": limit, "bytes_moved": format!("{r:?}"), "s": t.elapsed().as_secs_f64()});
    if peak > limit {
        c().violation("memory-grows", d);
        return;
    }
    match r {
        Ok(n) if n >= least => {
            c().count("bytes_moved", n);
            c().count("memory_cases", 1);
            c().eval(Some(("memory", what.to_string())));
            c().sample(d);
        }
        _ => c().violation("not-carried-out", d),
    }
}

fn sock(addr: SocketAddr) -> Result<TcpStream, String> {
    let s = TcpStream::connect(addr).map_err(|e| e.to_string())?;
    let _ = s.set_nodelay(true);
    let _ = s.set_read_timeout(Some(Duration::from_secs(60)));
    let _ = s.set_write_timeout(Some(Duration::from_secs(60)));
    Ok(s)
}
/// Sends again and again until `most` bytes are sent, or the other side does not want more.
fn flood(s: &mut TcpStream, chunk: &[u8], most: u64) -> u64 {
    let mut n = 0;
    while n < most {
        match s.write(chunk) {
            Ok(0) | Err(_) => break,
            Ok(k) => n += k as u64,
        }
    }
    n
}
fn rest(s: &mut TcpStream) -> u64 {
    drain(s).0.n
}

fn text_response(n: usize) -> Response {
    "r".repeat(n).parse().unwrap()
}
fn streams(q: &mut Request) -> Response {
    let n = |q: &Request| q.uri.rsplit('/').next().and_then(|s| s.parse().ok()).unwrap_or(0u64);
    match q.uri.split('/').nth(1) {
        Some("send") => {
            let n = n(q);
            Response { status: StatusCode::OK, headers: Headers::new(), body: Some(Body::new(None, n, Box::new(Source::new(n)))) }
        }
        Some("read") => {
            let k = q.body.as_mut().map_or(0, |b| drain(b).0.n);
            text_response((k % 10) as usize)
        }
        Some("part") => {
            let k = n(q);
            if let Some(b) = q.body.as_mut() {
                drain(&mut b.take(k));
            }
            text_response(10)
        }
        Some("take") => {
            let b = q.body.take();
            let k = n(q);
            if let Some(mut b) = b {
                drain(&mut (&mut b.content).take(k));
            }
            text_response(10)
        }
        _ => text_response(1000),
    }
}

fn memory() {
    let c = c();
    let dir = Scratch::new();
    let d = dir.0.clone();
    let routes = |r: &wruster::router::Router| {
        for (_, m) in METHODS {
            r.add("/", m, Box::new(streams));
            r.add("/log/", m, log_middleware(Box::new(|q| {
                q.uri = q.uri["/log".len()..].to_string();
                streams(q)
            })));
            let d = d.clone();
            r.add("/dir/", m, Box::new(move |q| {
                q.uri = q.uri["/dir".len()..].to_string();
                serve_static(&d, q)
            }));
        }
    };
    for tls in [false, true] {
        let (size, t) = (if tls { 100_000_000u64 } else { c.n(400_000_000, 5_000_000_000) as u64 }, if tls { " (TLS)" } else { "" });
        let mut srv = start(tls, timeouts(100_000, 100_000), &routes);
        srv.small = !small_send_buffers(srv.addr, 1 << 20) && srv.small;
        let addr = srv.addr;
        for target in ["/read", "/part/0", "/part/100000", "/take/0", "/take/100000", "/log/read", "/log/part/7"] {
            held(&format!("request body {target}{t}"), 6 * MIB, size, || {
                let mut conn = Conn::open(addr, tls).map_err(|e| e.to_string())?;
                conn.send(format!("PUT {target} HTTP/1.1\r\nContent-Length: {size}\r\n\r\n").as_bytes()).map_err(|e| e.to_string())?;
                let chunk = vec![b'x'; 1 << 17];
                let mut left = size;
                while left > 0 {
                    let k = left.min(1 << 17) as usize;
                    conn.send(&chunk[..k]).map_err(|e| format!("{e} with {left} bytes left"))?;
                    left -= k as u64;
                }
                conn.response(100.0, false).map_err(|e| format!("{e:?}"))?;
                Ok(size)
            });
        }
        for target in [format!("/send/{size}"), format!("/log/send/{size}"), "/dir/large".to_string()] {
            let n = if target.contains("dir") { 4u64 << 30 } else { size };
            // (a client of a TLS server would take too long for the whole file)
            let n = n.min(size);
            held(&format!("response {}{t}", target.split("/4").next().unwrap()), 6 * MIB, n, || {
                let mut conn = Conn::open(addr, tls).map_err(|e| e.to_string())?;
                conn.send(format!("GET {target} HTTP/1.1\r\nConnection: close\r\n\r\n").as_bytes()).map_err(|e| e.to_string())?;
                let mut got = 0;
                while !conn.eof && got < n {
                    got += conn.fill(Instant::now() + Duration::from_secs(60)).map_err(|e| format!("{e:?} after {got}"))? as u64;
                    conn.buf.clear();
                }
                Ok(got)
            });
        }
        // Responses nobody takes.
        let many = 30u64;
        held(&format!("{many} large responses nobody takes{t}"), 8 * MIB + many as i64 * MIB, many, || {
            let mut conns = vec![];
            for _ in 0..many {
                let mut conn = Conn::open(addr, tls).map_err(|e| e.to_string())?;
                conn.send(b"GET /send/3000000000 HTTP/1.1\r\n\r\n").map_err(|e| e.to_string())?;
                conns.push(conn);
            }
            std::thread::sleep(Duration::from_millis(1500));
            Ok(conns.len() as u64)
        });
        srv.stop_later();
    }

    // Heads that do not end.
    let srv = start(false, timeouts(20_000, 3_000), &routes);
    let addr = srv.addr;
    let most = 64 << 20;
    let lines = |n: usize| (0..n).map(|k| format!("h{k}: v\r\n")).collect::<String>().into_bytes();
    let heads: [(&str, &[u8], Vec<u8>); 9] = [
        ("method", b"", vec![b'A'; 1 << 16]),
        ("target", b"GET /", vec![b'a'; 1 << 16]),
        ("target of names", b"GET /", b"a/".repeat(1 << 15)),
        ("version", b"GET / HTTP/1.", vec![b'1'; 1 << 16]),
        ("header name", b"GET / HTTP/1.1\r\n", vec![b'a'; 1 << 16]),
        ("header value", b"GET / HTTP/1.1\r\na: ", vec![b'a'; 1 << 16]),
        ("blanks", b"GET / HTTP/1.1\r\na: ", vec![b' '; 1 << 16]),
        ("headers", b"GET / HTTP/1.1\r\n", lines(200_000)),
        ("the same header", b"GET / HTTP/1.1\r\n", b"a:\r\n".repeat(1 << 14)),
    ];
    for (what, first, chunk) in &heads {
        for conns in [1, 20] {
            // 1 MiB of lines of four bytes is 40 times as much in a table
            held(&format!("{conns} endless: {what}"), (if what.contains("header") { 100 } else { 12 }) * MIB * conns as i64 + 8 * MIB, 100_000 * conns as u64, || {
                let hs: Vec<_> = (0..conns)
                    .map(|_| {
                        let mut s = sock(addr)?;
                        let (first, chunk) = (first.to_vec(), chunk.clone());
                        Ok(std::thread::spawn(move || {
                            let n = flood(&mut s, &first, first.len() as u64) + flood(&mut s, &chunk, most);
                            rest(&mut s);
                            n
                        }))
                    })
                    .collect::<Result<_, String>>()?;
                Ok(hs.into_iter().map(|h| h.join().unwrap_or(0)).sum())
            });
        }
    }
    // Requests without end whose responses nobody takes: the server has to stop taking them.
    let taken = AtomicU64::new(0);
    held("endless requests, no response taken", 12 * MIB, 10_000, || {
        let mut s = sock(addr)?;
        let n = flood(&mut s, &b"GET /x HTTP/1.1\r\n\r\n".repeat(1000), 1 << 30);
        taken.store(n, SeqCst);
        Ok(n)
    });
    if taken.load(SeqCst) > 200 << 20 {
        c.violation("takes-requests-without-end", json!({"bytes_taken": taken.load(SeqCst), "responses_taken": 0}));
    }
    // Bytes behind a request the server refused.
    held("endless bytes behind a bad request", 6 * MIB, 1 << 20, || {
        let mut s = sock(addr)?;
        let _ = s.write_all(b"BAD\r\n\r\n");
        Ok(flood(&mut s, &vec![b'z'; 1 << 16], c.n(1 << 30, 8 << 30) as u64))
    });
    srv.stop_later();

    // A client of servers that send without end.
    let volume = Arc::new(AtomicU64::new(0));
    let v2 = volume.clone();
    let bad = RawServer::start([127, 0, 0, 1].into(), move |_, mut s| {
        let mut t = [0; 4096];
        let Ok(n) = s.read(&mut t) else { return };
        let q = String::from_utf8_lossy(&t[..n]).to_string();
        let k: usize = q.split(['/', ' ']).nth(2).and_then(|x| x.parse().ok()).unwrap_or(0);
        let (first, chunk): (&[u8], Vec<u8>) = match k {
            0 => (b"", vec![b'H'; 1 << 16]),
            1 => (b"HTTP/1.1 200 ", vec![b'o'; 1 << 16]),
            2 => (b"HTTP/1.1 200 OK\r\na: ", vec![b'o'; 1 << 16]),
            3 => (b"HTTP/1.1 200 OK\r\n", vec![b'o'; 1 << 16]),
            4 => (b"HTTP/1.1 200 OK\r\n", (0..100_000).map(|k| format!("h{k}: v\r\n")).collect::<String>().into_bytes()),
            5 => (b"HTTP/1.1 200 OK\r\nContent-Length: 3\r\n\r\nabc", vec![b'o'; 1 << 16]),
            _ => (b"HTTP/1.1 200 OK\r\nContent-Length: 9000000000\r\n\r\n", vec![b'o'; 1 << 16]),
        };
        v2.fetch_add(flood(&mut s, first, first.len() as u64) + flood(&mut s, &chunk, 1 << 30), SeqCst);
    });
    for (k, what) in ["status line", "reason", "header value", "header name", "headers", "bytes behind a response", "body not read", "body read"].iter().enumerate() {
        held(&format!("client: endless {what}"), if k == 3 || k == 4 { 110 * MIB } else { 12 * MIB }, 1, || {
            let client = Client::new();
            let q = Request { method: HttpMethod::GET, uri: format!("/{k}"), version: "HTTP/1.1".into(), headers: Headers::new(), body: None };
            let r = client.run(&bad.addr.to_string(), q);
            let mut n = 1;
            if let (Ok(mut r), true) = (r, k >= 5) {
                let b = r.body.as_mut().ok_or("no body")?;
                match k {
                    5 => n = drain(&mut b.content).0.n,
                    6 => std::thread::sleep(Duration::from_millis(500)),
                    _ => n = drain(&mut (&mut b.content).take(500_000_000)).0.n,
                }
                if n != [3, 1, 500_000_000][k - 5] {
                    return Err(format!("{n} bytes read"));
                }
            }
            Ok(n)
        });
    }
    let srv = start(false, timeouts(100_000, 100_000), &routes);
    held("client: request body", 6 * MIB, 400_000_000, || {
        let n = 400_000_000;
        let q = Request::from_body(Body::new(None, n, Box::new(Source::new(n))), HttpMethod::PUT, "/read");
        let client = Client::new();
        let r = client.run(&srv.addr.to_string(), q).map_err(|e| format!("{e:?}"))?;
        Ok(if r.status == StatusCode::OK { n } else { 0 })
    });
    srv.stop_later();
}

/// Many more connections than can be served: neither threads nor memory for each.
fn crowd() {
    let srv = start(false, timeouts(3_000, 3_000), |r| {
        r.add("/", HttpMethod::GET, Box::new(answers));
    });
    let threads = || std::fs::read_dir("/proc/self/task").map_or(0, |d| d.count());
    let before = threads();
    let n = c().n(1500, 5000);
    let mut most = 0;
    held("a crowd of connections", 40 * MIB, n as u64, || {
        let mut v = vec![];
        for _ in 0..n {
            let mut s = sock(srv.addr)?;
            let _ = s.write_all(b"GET / HTTP/1.1\r\nX: ");
            let _ = s.write_all(&[b'x'; 20_000]);
            v.push(s);
            most = most.max(threads());
        }
        Ok(v.len() as u64)
    });
    let cpus = std::thread::available_parallelism().map_or(1, |n| n.get());
    c().max("threads_for_a_crowd", (most - before) as u64);
    if most > before + 100 + cpus + 8 {
        c().violation("a-thread-for-each-connection", json!({"connections": n, "threads": most, "before": before}));
    }
    srv.stop();
}

pub fn run() {
    c().rule("a case is distinct by the shape of what is sent (for the work) or by what is sent without end or not taken (for the memory), TLS, and the number of connections");
    c().assume("heap and CPU time are those of the process, which also holds the peers; heads over 1 MiB may be refused, and their parsed form may be 100 times as large");
    crowd();
    memory();
    works();
    require("memory_cases", 50);
    require("shapes_in_proportion", 55);
}
