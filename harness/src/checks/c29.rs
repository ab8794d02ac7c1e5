//! C29: a peer, a handler or a call that stalls holds up nothing but its own exchange.
use crate::rawsrv::{RawServer, ReqReader};
use crate::srv::*;
use crate::traffic::*;
use crate::util::*;
use crate::wire::*;
use serde_json::{json, Value};
use std::io::{Read, Write};
use std::net::{IpAddr, Ipv4Addr, SocketAddr, TcpListener, TcpStream};
use std::path::PathBuf;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};
use wruster::http::client::Client;
use wruster::http::headers::{Header, Headers};
use wruster::http::{Body, HttpMethod, Request, Response, StatusCode};
use wruster_handlers::{log_middleware, serve_static};

/// How long an exchange nobody has a reason to hold up can take.
const SLOW: Duration = Duration::from_secs(2);
/// Each probe gives up then.
const GIVE_UP: f64 = 5.0;

/// What is slow, if anything: (what, how long, detail).
type Slow = Mutex<Vec<Value>>;

fn timed<T>(slow: &Slow, what: &str, worst: &str, f: impl FnOnce() -> T) -> T {
    let t = Instant::now();
    let r = f();
    let took = t.elapsed();
    c().max(worst, took.as_millis() as u64);
    c().eval::<u8>(None);
    if took > SLOW + 2 * c().stalled_since(t) {
        lock(slow).push(json!({"what": what, "took_ms": took.as_millis() as u64}));
    }
    r
}

// ---- servers ----

const KINDS: [&str; 15] = ["silent", "part-of-hello", "part-of-line", "part-of-head", "trickling-head", "body-not-sent", "body-not-sent-unread", "takes-nothing", "takes-no-file", "lingering", "idle",
    "in-handler", "in-response-source", "handlers-panic", "storm"];

struct Blocked(Arc<Gate>, usize);
impl Read for Blocked {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        if self.1 == 0 {
            self.0.wait(Duration::from_secs(60));
            return Ok(0);
        }
        let n = b.len().min(self.1);
        b[..n].fill(b's');
        self.1 -= n;
        Ok(n)
    }
}

struct Files(PathBuf);
impl Files {
    fn new(n: u64) -> Files {
        let d = std::env::temp_dir().join(format!("vh-c29-{}-{n}", std::process::id()));
        let _ = std::fs::create_dir_all(&d);
        let _ = std::fs::write(d.join("small"), [b'f'; 100]);
        if let Ok(f) = std::fs::File::create(d.join("large")) {
            let _ = f.set_len(20 << 20);
        }
        Files(d)
    }
}
impl Drop for Files {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

fn server(tls: bool, files: &Files) -> (Running, VLog) {
    let log: VLog = Arc::new(Log { seen: Default::default(), calls: Default::default(), running: Default::default(), peak: Default::default() });
    let dir = files.0.to_string_lossy().to_string();
    let l = Arc::clone(&log);
    let handler = move |q: &mut Request| {
        match hdr(q, "X-Vstall").as_deref() {
            Some("panic") => panic!("{PLANNED}"),
            Some("source") => {
                let g = gate(&hdr(q, "X-Vgate").unwrap_or_default());
                return Response { status: StatusCode::OK, headers: Default::default(), body: Some(Body::new(None, 100_000, Box::new(Blocked(g, 3000)))) };
            }
            _ => (),
        }
        if q.uri.starts_with("/files/") {
            q.uri = q.uri.replacen("/files", "", 1);
            return serve_static(&dir, q);
        }
        handle(&l, q)
    };
    let s = start(tls, timeouts(60_000, 60_000), |r| {
        for (_, m) in METHODS {
            let h = handler.clone();
            r.add("/", m, log_middleware(Box::new(move |q: &mut Request| h(q))));
        }
    });
    (s, log)
}

struct Staller {
    cn: Option<Conn>,
    raw: Option<TcpStream>,
    trickle: bool,
}

fn stall(srv: &Running, kind: &str, gname: &str, rng: &mut Rng) -> Result<Staller, String> {
    let e = |e: std::io::Error| e.to_string();
    let mut st = Staller { cn: None, raw: None, trickle: false };
    let gated = |resp_len: usize| {
        let mut s = Spec::simple("stalled");
        s.extra.push(("X-Vgate".into(), gname.to_string()));
        s.resp_len = resp_len;
        s
    };
    if kind == "silent" && (!srv.tls || rng.chance(1, 2)) {
        st.raw = Some(TcpStream::connect(srv.addr).map_err(e)?);
        return Ok(st);
    }
    if kind == "part-of-hello" {
        let mut s = TcpStream::connect(srv.addr).map_err(e)?;
        let hello = b"\x16\x03\x01\x00\xf0\x01\x00\x00\xec\x03\x03abcdefghijklmnopqrstuvwxyzabcdef";
        s.write_all(&hello[..rng.range(1, hello.len() - 1)]).map_err(e)?;
        st.raw = Some(s);
        return Ok(st);
    }
    let narrow = kind.starts_with("takes-no");
    let mut cn = if narrow { Conn::open_narrow(srv.addr, srv.tls) } else { srv.conn() }.map_err(e)?;
    match kind {
        "silent" => {
            cn.try_send(b"");
        }
        "part-of-line" => {
            cn.try_send(&b"GET /v HTTP/1."[..rng.range(1, 13)]);
        }
        "part-of-head" | "trickling-head" => {
            let h = Spec::simple("part").head();
            cn.try_send(&h[..rng.range(17, h.len() - 3)]);
            if kind == "trickling-head" {
                cn.try_send(b"\r\nX-Trickle: ");
                st.trickle = true;
            }
        }
        "body-not-sent" | "body-not-sent-unread" => {
            let mut s = Spec::simple("body");
            s.method = "POST";
            s.read = if kind == "body-not-sent" { rng.pick(&["all", "allcontent", "string"]).to_string() } else { rng.pick(&["none", "take"]).to_string() };
            s.body = vec![b'b'; rng.range(10, 50_000)];
            let (h, b) = (s.head().len(), s.bytes());
            cn.try_send(&b[..rng.range(h, b.len() - 1)]);
        }
        "takes-nothing" => {
            let mut s = Spec::simple("untaken");
            s.resp = *rng.pick(&["str", "content", "body"]);
            s.resp_len = if srv.small { 1_000_000 } else { 6_000_000 };
            cn.try_send(&s.bytes());
        }
        "takes-no-file" => {
            cn.try_send(b"GET /files/large HTTP/1.1\r\n\r\n");
        }
        "lingering" | "idle" => {
            let mut s = Spec::simple("before");
            if kind == "lingering" {
                s.connection = Some("close");
            }
            cn.try_send(&s.bytes());
            match cn.response(20.0, false) {
                Ok(r) if s.check(&r).is_ok() => (),
                o => return Err(clip(&format!("{o:?}"), 200)),
            }
        }
        "in-handler" => {
            cn.try_send(&gated(rng.range(0, 3000)).bytes());
        }
        "in-response-source" => {
            let mut s = gated(0);
            s.extra.push(("X-Vstall".into(), "source".into()));
            cn.try_send(&s.bytes());
        }
        _ => unreachable!("{kind}"),
    }
    st.cn = Some(cn);
    Ok(st)
}

/// Connections that come and go while the others are watched.
fn storm(srv: &Running, kind: &str, stop: &AtomicBool, rng: &mut Rng) {
    while !stop.load(SeqCst) {
        if kind == "handlers-panic" {
            if let Ok(mut cn) = srv.conn() {
                cn.try_send(b"GET /v HTTP/1.1\r\nX-Vstall: panic\r\n\r\n");
                let _ = cn.until_eof(2.0);
            }
        } else if let Ok(mut s) = TcpStream::connect(srv.addr) {
            match rng.below(4) {
                0 => set_linger0(&s),
                1 => {
                    let _ = s.write_all(b"\x16\x03\x01\xff\xff garbage \x00\x00 of any kind\r\n\r\n");
                    let _ = s.shutdown(std::net::Shutdown::Write);
                    let _ = s.set_read_timeout(Some(Duration::from_millis(500)));
                    let _ = s.read_to_end(&mut vec![]);
                }
                2 => {
                    let _ = s.write_all(b"GET /v HTTP/1.1\r\nX-Vid: storm\r\n\r\n");
                    set_linger0(&s);
                }
                _ => {
                    let _ = s.write_all(&[0x15, 3, 1, 0, 2, 2, 40]);
                    let _ = s.shutdown(std::net::Shutdown::Write);
                }
            }
        }
        c().count("connections_of_storms", 1);
        std::thread::sleep(Duration::from_millis(4));
    }
}

/// One exchange that nobody has a reason to hold up.
fn probe(cn: &mut Conn, rng: &mut Rng, close: bool, large: bool, slow: &Slow, what: &str) -> bool {
    let mut s = Spec::random(rng, "probe", 20_000, 20_000);
    // whatever is there for large bodies only is not to be shared either
    if large && rng.chance(1, 12) {
        s.method = "POST";
        s.resp = *rng.pick(&["str", "content", "body"]);
        s.resp_len = rng.range(2_100_000, 3_000_000);
        if rng.chance(1, 3) {
            s.body = vec![b'l'; 2_500_000];
            s.read = rng.pick(&["all", "allcontent", "string", "none", "take"]).to_string();
        } else if s.read == "echo" {
            s.read = "none".into();
        }
        c().count("large_exchanges", 1);
    }
    s.connection = close.then_some("close");
    s.version = "HTTP/1.1";
    let file = s.resp_len < 100_000 && rng.chance(1, 4);
    if file {
        cn.try_send(format!("GET /files/small HTTP/1.1\r\n{}\r\n", if close { "Connection: close\r\n" } else { "" }).as_bytes());
    } else {
        cn.try_send(&s.bytes());
    }
    let r = match cn.response(GIVE_UP, s.method == "HEAD" && !file) {
        Ok(r) if file => (r.status == 200 && r.body == [b'f'; 100]).then_some(()).ok_or("wrong file".to_string()),
        Ok(r) if r.status == 503 => Err("503".into()),
        Ok(r) => s.check(&r).map_err(|(sig, _)| sig),
        Err(e) => Err(format!("{e:?}")),
    };
    let r = match r {
        Ok(()) if close => cn.until_eof(GIVE_UP).map_err(|e| format!("not closed afterwards: {e:?}")),
        r => r,
    };
    if let Err(e) = r {
        lock(slow).push(json!({"what": what, "problem": e, "file": file, "close": close}));
        return false;
    }
    true
}

fn server_case(i: u64, rng: &mut Rng) -> Vec<Value> {
    let tls = rng.chance(1, 2);
    let files = Files::new(i << 4 | rng.below(16) as u64);
    let (srv, _log) = server(tls, &files);
    let gname = new_id("c29");
    let g = gate(&gname);
    let kinds: Vec<&str> = if rng.chance(1, 3) { KINDS.iter().copied().filter(|_| rng.chance(1, 2)).collect() } else { vec![KINDS[i as usize % KINDS.len()]] };
    let kinds: Vec<&str> = kinds.into_iter().map(|k| if k == "part-of-hello" && !tls { "silent" } else { k }).collect();
    let n = *rng.pick(&[1usize, 7, 8, 9, 20, 60, 85]);
    // Those of a storm are closed by their clients before they are by the server.
    let n = if kinds.contains(&"storm") || kinds.contains(&"handlers-panic") { n.min(40) } else { n };
    let slow: Slow = Default::default();
    // Some are there before.
    let mut old: Vec<Conn> = (0..3).filter_map(|_| srv.conn().ok()).collect();
    for cn in old.iter_mut() {
        probe(cn, rng, false, false, &slow, "a connection before anything stalls");
    }
    let mut stallers = vec![];
    let standing: Vec<&str> = kinds.iter().copied().filter(|k| *k != "storm" && *k != "handlers-panic").collect();
    if !standing.is_empty() {
        for k in 0..n {
            match timed(&slow, "opening one that is going to stall", "slowest_to_open_ms", || stall(&srv, standing[k % standing.len()], &gname, rng)) {
                Ok(s) => stallers.push(s),
                Err(e) => lock(&slow).push(json!({"what": "opening one that is going to stall", "kind": standing[k % standing.len()], "problem": e})),
            }
        }
    }
    c().count("stalled_connections", stallers.len() as u64);
    let stop = AtomicBool::new(false);
    let seeds: Vec<u64> = (0..16).map(|_| rng.next()).collect();
    let (srv, slow_, stop_) = (&srv, &slow, &stop);
    std::thread::scope(|sc| {
        for (k, kind) in kinds.iter().filter(|k| **k == "storm" || **k == "handlers-panic").enumerate() {
            for j in 0..2 {
                let seed = seeds[2 * k + j];
                sc.spawn(move || storm(srv, kind, stop_, &mut Rng::new(seed, "storm", 0)));
            }
        }
        if stallers.iter().any(|s| s.trickle) {
            let stallers = &mut stallers;
            sc.spawn(move || {
                while !stop_.load(SeqCst) {
                    for s in stallers.iter_mut().filter(|s| s.trickle) {
                        if let Some(cn) = s.cn.as_mut() {
                            cn.try_send(b"t");
                        }
                    }
                    std::thread::sleep(Duration::from_millis(40));
                }
            });
        }
        let mut probers = vec![];
        for (k, cn) in old.iter_mut().enumerate() {
            let seed = seeds[4 + k];
            probers.push(sc.spawn(move || {
                let (mut rng, t) = (Rng::new(seed, "old", 0), Instant::now());
                while t.elapsed() < Duration::from_millis(900) {
                    if !timed(slow_, "an exchange on a connection that was there before", "slowest_on_old_connections_ms", || probe(cn, &mut rng, false, !srv.small, slow_, "an exchange on a connection that was there before")) {
                        break;
                    }
                    c().count("exchanges_on_old_connections", 1);
                }
            }));
        }
        for k in 0..3 {
            let seed = seeds[8 + k];
            probers.push(sc.spawn(move || {
                let (mut rng, t) = (Rng::new(seed, "new", 0), Instant::now());
                while t.elapsed() < Duration::from_millis(900) {
                    let ok = timed(slow_, "a new connection and exchange", "slowest_on_new_connections_ms", || match Conn::open(srv.addr, srv.tls) {
                        Ok(mut cn) => probe(&mut cn, &mut rng, true, !srv.small, slow_, "a new connection and exchange"),
                        Err(e) => {
                            lock(slow_).push(json!({"what": "a new connection", "problem": e.to_string()}));
                            false
                        }
                    });
                    if !ok {
                        break;
                    }
                    c().count("exchanges_on_new_connections", 1);
                }
            }));
        }
        let seed = seeds[12];
        probers.push(sc.spawn(move || {
            // another server of the same process, from its start to its end
            let mut rng = Rng::new(seed, "other", 0);
            let t = Instant::now();
            while t.elapsed() < Duration::from_millis(900) {
                let ok = timed(slow_, "another server, from its start to its end", "slowest_life_of_another_server_ms", || {
                    let mut other = universal(!srv.tls, timeouts(60_000, 60_000)).0;
                    let ok = match other.conn() {
                        Ok(mut cn) => probe_other(&mut cn, &mut rng, slow_),
                        Err(e) => {
                            lock(slow_).push(json!({"what": "another server", "problem": e.to_string()}));
                            false
                        }
                    };
                    match other.shutdown_in(5) {
                        Some(Ok(())) => ok,
                        o => {
                            lock(slow_).push(json!({"what": "the shutdown of another server", "problem": format!("{o:?}")}));
                            false
                        }
                    }
                });
                if !ok {
                    break;
                }
                c().count("lives_of_other_servers", 1);
            }
        }));
        for p in probers {
            let _ = p.join();
        }
        stop.store(true, SeqCst);
    });
    // They did stall: nothing came, or not all of it.
    let mut ended = 0;
    for s in stallers.iter_mut() {
        if let Some(s) = &s.raw {
            let _ = s.set_nonblocking(true);
            ended += !matches!(s.peek(&mut [0]), Err(e) if e.kind() == std::io::ErrorKind::WouldBlock) as u64;
        }
    }
    if ended > 0 {
        lock(&slow).push(json!({"what": "ended although its time was not over", "connections": ended}));
    }
    g.open();
    drop(stallers);
    drop(old);
    let v = lock(&slow).clone();
    c().eval(Some(("server", tls, &kinds, n)));
    for k in &kinds {
        c().count(&format!("server:{k}"), 1);
    }
    if i < 3 {
        c().sample(json!({"server": if tls { "tls" } else { "plain" }, "stalled": n, "kinds": kinds, "slow": v}));
    }
    let v = v.into_iter().map(|x| json!({"found": x, "tls": tls, "kinds": kinds, "stalled": n})).collect();
    v
}

fn probe_other(cn: &mut Conn, rng: &mut Rng, slow: &Slow) -> bool {
    let mut s = Spec::random(rng, "other", 3000, 3000);
    s.connection = None;
    s.version = "HTTP/1.1";
    cn.try_send(&s.bytes());
    match cn.response(GIVE_UP, s.method == "HEAD") {
        Ok(r) if s.check(&r).is_ok() => true,
        o => {
            lock(slow).push(json!({"what": "an exchange with another server", "problem": clip(&format!("{o:?}"), 200)}));
            false
        }
    }
}

// ---- the client ----

const CALLS: [&str; 10] = ["connecting", "no-head", "part-of-head", "part-of-body", "dropping-part-of-body", "dropping-kept-body", "request-not-taken", "request-source", "request-source-short", "kept-response"];

fn request(path: &str, method: HttpMethod, body: Option<(u64, Box<dyn Read>)>) -> Request {
    let mut headers = Headers::default();
    headers.add(Header { name: "Host".into(), value: "h".into() });
    let body = body.map(|(n, r)| {
        headers.add(Header { name: "Content-Length".into(), value: n.to_string() });
        Body::new(None, n, r)
    });
    Request { method, uri: path.into(), version: "HTTP/1.1".into(), headers, body }
}

/// Answers at once or stalls, as the target of the request says, until `end`.
fn stalling_server(end: &Arc<Gate>) -> RawServer {
    let end = Arc::clone(end);
    RawServer::start(IpAddr::V4(Ipv4Addr::new(127, 0, 0, 1)), move |_, sock| {
        let Ok(mut out) = sock.try_clone() else { return };
        let mut rd = ReqReader::new(sock);
        loop {
            // only the head of those whose body is not to be taken
            let mut tmp = [0; 4096];
            while !rd.buf.windows(2).any(|w| w == b"\r\n") {
                match rd.sock.read(&mut tmp) {
                    Ok(n) if n > 0 => rd.buf.extend_from_slice(&tmp[..n]),
                    _ => return,
                }
            }
            if rd.buf.windows(9).any(|w| w == b"/untaken ") {
                return end.wait(Duration::from_secs(100));
            }
            let Ok(Some(r)) = rd.request() else { return };
            let body = format!("answer to {}", r.target);
            let whole = format!("HTTP/1.1 200 OK\r\nContent-Length: {}\r\n\r\n{body}", body.len());
            let cut = match r.target.split('?').next().unwrap_or("") {
                "/no-head" => 0,
                "/part-of-head" => 20,
                "/part-of-body" => whole.len() - 5,
                _ => whole.len(),
            };
            let _ = out.write_all(&whole.as_bytes()[..cut]);
            if cut < whole.len() {
                return end.wait(Duration::from_secs(100));
            }
        }
    })
}

/// An address where connecting waits: nobody accepts, and there is no room to wait for it.
fn full_listener() -> Option<(TcpListener, SocketAddr, Vec<TcpStream>)> {
    use std::os::fd::AsRawFd;
    let l = TcpListener::bind("127.0.0.1:0").ok()?;
    if unsafe { libc::listen(l.as_raw_fd(), 0) } != 0 {
        return None;
    }
    let a = l.local_addr().ok()?;
    let mut v = vec![];
    for _ in 0..6 {
        match TcpStream::connect_timeout(&a, Duration::from_millis(150)) {
            Ok(s) => v.push(s),
            Err(_) => return Some((l, a, v)),
        }
    }
    None
}

fn client_case(i: u64, rng: &mut Rng) -> Vec<Value> {
    let end: Arc<Gate> = Default::default();
    let slow: Arc<Slow> = Default::default();
    let srv = Arc::new(stalling_server(&end));
    let healthy = stalling_server(&end);
    let client = Arc::new(Client::new());
    let full = full_listener();
    let kinds: Vec<&'static str> = if rng.chance(1, 3) { CALLS.iter().copied().filter(|_| rng.chance(1, 2)).collect() } else { vec![CALLS[i as usize % CALLS.len()]] };
    let n = *rng.pick(&[1usize, 2, 5, 20]);
    let stalled = Arc::new(AtomicU64::new(0));
    let kept = Arc::new(AtomicU64::new(0));
    let back = Arc::new(Mutex::new(vec![]));
    let warm = rng.chance(1, 2);
    if warm {
        // so that one of them stalls on a connection that was used before
        for a in [srv.addr, healthy.addr] {
            if let Err(e) = answered(&client, a, "/warm") {
                lock(&slow).push(json!({"what": "a call before anything stalls", "problem": e}));
            }
        }
    }
    let mut started = 0;
    for k in 0..if kinds.is_empty() { 0 } else { n } {
        let kind = kinds[k % kinds.len()];
        let addr = match (kind, &full) {
            ("connecting", Some((_, a, _))) => *a,
            ("connecting", None) => continue,
            _ => srv.addr,
        }
        .to_string();
        started += 1;
        let (client, end, stalled, kept, back, pick) = (Arc::clone(&client), Arc::clone(&end), Arc::clone(&stalled), Arc::clone(&kept), Arc::clone(&back), rng.below(3));
        std::thread::spawn(move || {
            stalled.fetch_add(1, SeqCst);
            let client = client;
            let q = match kind {
                "connecting" | "no-head" => request("/no-head", HttpMethod::GET, None),
                "part-of-head" => request("/part-of-head", HttpMethod::GET, None),
                "part-of-body" | "dropping-part-of-body" => request("/part-of-body", HttpMethod::GET, None),
                "request-not-taken" => request("/untaken", HttpMethod::POST, Some((64 << 20, Box::new(std::io::repeat(b'u').take(64 << 20))))),
                "request-source" | "request-source-short" => request("/x", HttpMethod::POST, Some((if pick == 0 { 3_000_000 } else { 100_000 }, Box::new(Blocked(Arc::clone(&end), if kind == "request-source" { 50_000 } else { 0 }))))),
                _ => request("/kept", HttpMethod::GET, None),
            };
            let mut r = client.run(&addr, q);
            if let Ok(r) = r.as_mut() {
                match kind {
                    "part-of-body" => {
                        if let Some(b) = r.body.as_mut() {
                            let _ = if pick == 0 { b.ensure_read().map_err(|e| e.to_string()) } else { b.content.read_to_end(&mut vec![]).map(|_| ()).map_err(|e| e.to_string()) };
                        }
                    }
                    "kept-response" | "dropping-kept-body" => {
                        kept.fetch_add(1, SeqCst);
                        end.wait(Duration::from_secs(100));
                    }
                    _ => (),
                }
            }
            drop(r);
            stalled.fetch_sub(1, SeqCst);
            lock(&back).push(kind);
        });
    }
    let t = Instant::now();
    while t.elapsed() < Duration::from_millis(150) || (stalled.load(SeqCst) < started && t.elapsed() < Duration::from_secs(5)) {
        std::thread::sleep(Duration::from_millis(5));
    }
    std::thread::scope(|sc| {
        let mut probers = vec![];
        for k in 0..4 {
            let (client, slow) = (&client, &slow);
            let addr = if k % 2 == 0 { healthy.addr } else { srv.addr };
            probers.push(sc.spawn(move || {
                let t = Instant::now();
                while t.elapsed() < Duration::from_millis(700) {
                    let what = if k % 2 == 0 { "a call to another server" } else { "a call to the server where others stall" };
                    let r = timed(slow, what, "slowest_call_ms", || {
                        let (tx, rx) = std::sync::mpsc::channel();
                        let cl = Arc::clone(client);
                        std::thread::spawn(move || {
                            let r = answered(&cl, addr, "/ok");
                            drop(cl);
                            let _ = tx.send(r);
                        });
                        rx.recv_timeout(Duration::from_secs_f64(GIVE_UP)).unwrap_or(Err("no result in time".into()))
                    });
                    if let Err(e) = r {
                        lock(slow).push(json!({"what": what, "problem": e}));
                        break;
                    }
                    c().count("calls_beside_stalled_ones", 1);
                }
            }));
        }
        let slow = &slow;
        let addr = healthy.addr;
        probers.push(sc.spawn(move || {
            let t = Instant::now();
            while t.elapsed() < Duration::from_millis(700) {
                let r = timed(slow, "the life of another client", "slowest_life_of_another_client_ms", || {
                    let cl = Client::new();
                    let r = answered(&cl, addr, "/ok2");
                    drop(cl);
                    r
                });
                if let Err(e) = r {
                    lock(slow).push(json!({"what": "a call of another client", "problem": e}));
                    break;
                }
                c().count("lives_of_other_clients", 1);
            }
        }));
        for p in probers {
            let _ = p.join();
        }
    });
    let (now, b) = (stalled.load(SeqCst), lock(&back).clone());
    if now < started {
        c().count("calls_that_did_not_stall", started - now);
    }
    c().count("calls_stalled", now);
    c().count("responses_kept", kept.load(SeqCst));
    end.open();
    if let Some((l, _, v)) = full {
        drop(v);
        drop(l);
    }
    c().eval(Some(("client", &kinds, n, warm)));
    for k in &kinds {
        c().count(&format!("client:{k}"), 1);
    }
    let v = lock(&slow).clone();
    if i < 3 {
        c().sample(json!({"client": true, "stalled": n, "kinds": kinds, "slow": v, "back_early": b}));
    }
    v.into_iter().map(|x| json!({"found": x, "kinds": kinds, "stalled": n, "back_early": b})).collect()
}

fn answered(client: &Client, addr: SocketAddr, path: &str) -> Result<(), String> {
    static CALLS: AtomicU64 = AtomicU64::new(0);
    let k = CALLS.fetch_add(1, SeqCst);
    let body = (k % 10 == 0).then(|| (2_500_000, Box::new(std::io::repeat(b'q').take(2_500_000)) as Box<dyn Read>));
    let mut r = client.run(&addr.to_string(), request(path, HttpMethod::POST, body)).map_err(|e| format!("{e:?}"))?;
    let mut v = vec![];
    if let Some(b) = r.body.as_mut() {
        b.content.read_to_end(&mut v).map_err(|e| format!("{e:?}"))?;
    }
    match v == format!("answer to {path}").as_bytes() {
        true => Ok(()),
        false => Err(format!("not its answer: {}", show(&v))),
    }
}

pub fn run() {
    c().rule("an evaluation is one exchange, call or life of a server or client next to connections or calls that are stalled; distinct cases by kind of server, kinds of stall and number");
    c().assume("fewer connections than the server serves at once are stalled; an exchange that is slow counts when the same case is slow three times");
    let alone = std::sync::RwLock::new(());
    // Cases that stall something run beside each other; the one that is repeated runs alone.
    let confirmed = |sig: &str, i: u64, rng: &mut Rng, f: &(dyn Fn(u64, &mut Rng) -> Vec<Value> + Sync)| {
        let again = rng.clone();
        let first = {
            let _g = alone.read().unwrap_or_else(|e| e.into_inner());
            f(i, rng)
        };
        if first.is_empty() || c().stopped() {
            return;
        }
        let _g = alone.write().unwrap_or_else(|e| e.into_inner());
        c().count("cases_repeated", 1);
        let mut left = 2;
        for _ in 0..6 {
            let (t, mut rng) = (Instant::now(), again.clone());
            if f(i, &mut rng).is_empty() {
                return;
            }
            // What a machine that is busy with something else makes slow does not count.
            if c().stalled_since(t) < Duration::from_millis(500) {
                left -= 1;
            }
            if left == 0 {
                break;
            }
        }
        if left > 0 {
            c().count("cases_not_judged", 1);
            return;
        }
        let first: Vec<&Value> = first.iter().take(4).collect();
        c().violation(sig, json!({"case": i, "found": first}));
    };
    par(4, c().n(45, 700), "c29-server", |i, rng| confirmed("held-up-by-others", i, rng, &server_case));
    if !c().violated() {
        par(4, c().n(40, 600), "c29-client", |i, rng| confirmed("call-held-up-by-others", i, rng, &client_case));
    }
    require("stalled_connections", 300);
    require("exchanges_on_old_connections", 1000);
    require("exchanges_on_new_connections", 300);
    require("lives_of_other_servers", 50);
    require("large_exchanges", 300);
    require("calls_stalled", 60);
    require("calls_beside_stalled_ones", 1000);
    require("lives_of_other_clients", 100);
}
