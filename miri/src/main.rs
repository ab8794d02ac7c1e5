//! Workloads for Miri. The verdict is Miri's (undefined behaviour, data races, leaks); what is asserted here only shows that the
//! workload did what it was meant to do. usage: mirun <what> <seed>; prints one line "DONE <counts>".
use std::collections::BTreeMap;
use std::io::{self, Cursor, ErrorKind, Read, Write};
use std::net::{Shutdown, SocketAddr, TcpListener, TcpStream};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::str::FromStr;
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::time::Duration;
use wruster::http::client::Client;
use wruster::http::headers::{Header, Headers};
use wruster::http::{Body, HttpMethod, Request, Response, StatusCode};
use wruster::router::Router;
use wruster::verif_hooks::{ConnectionPool, Dynamic, Pool, PoolResource, Static};
use wruster::{Server, Timeouts};

struct Rng(u64);
impl Rng {
    fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        let x = self.0 ^ (self.0 >> 31);
        x.wrapping_mul(0x9E3779B97F4A7C15) ^ (x >> 17)
    }
    fn below(&mut self, n: usize) -> usize {
        (self.next() % n.max(1) as u64) as usize
    }
    fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
}

static COUNTS: Mutex<BTreeMap<String, u64>> = Mutex::new(BTreeMap::new());
fn count(k: &str, n: u64) {
    *COUNTS.lock().unwrap().entry(k.into()).or_insert(0) += n;
}

// ---------------------------------------------------------------- parsing

/// Gives the bytes in pieces, then ends, or fails.
struct Source {
    data: Vec<u8>,
    at: usize,
    piece: usize,
    fail: bool,
}
impl Read for Source {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        let n = b.len().min(self.piece).min(self.data.len() - self.at);
        if n == 0 && self.fail {
            return Err(ErrorKind::ConnectionReset.into());
        }
        b[..n].copy_from_slice(&self.data[self.at..self.at + n]);
        self.at += n;
        Ok(n)
    }
}

const MESSAGES: [&str; 14] = [
    "GET / HTTP/1.1\r\n\r\n",
    "POST /a/b?c=d HTTP/1.1\r\nContent-Length: 5\r\nContent-Type: text/plain\r\n\r\nhello",
    "PUT /%41/../b HTTP/1.0\r\nConnection: keep-alive, close\r\nX: \r\nX: y\r\n\r\n",
    "POST / HTTP/1.1\r\nContent-Length: 5\r\nContent-Length: 6\r\n\r\nhello",
    "POST / HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\n5\r\nhello\r\n0\r\n\r\n",
    "HTTP/1.1 200 OK\r\nContent-Length: 3\r\n\r\nabc",
    "HTTP/1.1 404\r\n\r\n",
    "HTTP/1.1 99999 \r\nA\r\n\r\n",
    "GET  HTTP/1.1\r\n\r\n",
    "GET / HTTP/1.1\nHost: x\n\n",
    "\r\n\r\nGET / HTTP/1.1\r\n: x\r\n\r\n",
    "G\u{e9}T /\u{e9} HTTP/1.1\r\n\u{e9}: \u{e9}\r\n\r\n",
    "OPTIONS * HTTP/1.1\r\nA: b\r\n c\r\n\r\n",
    "POST / HTTP/1.1\r\nContent-Length: 99999999999999999999\r\n\r\n",
];

fn parse(rng: &mut Rng) {
    for _ in 0..60 {
        let mut data = rng.pick(&MESSAGES).as_bytes().to_vec();
        match rng.below(3) {
            0 => data.truncate(rng.below(data.len())),
            1 => {
                let (i, b) = (rng.below(data.len()), rng.next() as u8);
                data[i] = b;
            }
            _ => (),
        }
        let mk = |rng: &mut Rng| Source { data: data.clone(), at: 0, piece: *rng.pick(&[1, 2, 7, 1000]), fail: rng.below(2) == 0 };
        let _ = catch_unwind(AssertUnwindSafe(|| {
            if let Ok(mut q) = Request::read_from(mk(rng)) {
                let mut v = vec![];
                match rng.below(3) {
                    0 => drop(q.body.take()),
                    1 => {
                        if let Some(b) = q.body.as_mut() {
                            let _ = b.content.read_to_end(&mut v);
                        }
                    }
                    _ => (),
                }
                let _ = format!("{q:?}");
                let _ = q.write(&mut v);
                count("requests_parsed", 1);
            }
            if let Ok(mut r) = Response::read_from(mk(rng)) {
                let mut v = vec![];
                let _ = r.write(&mut v);
                count("responses_parsed", 1);
            }
        }));
        count("messages_tried", 1);
    }
    let dir = std::env::temp_dir().join(format!("mirun-{}-{}", std::process::id(), rng.next()));
    std::fs::create_dir_all(&dir).unwrap();
    std::fs::write(dir.join("f.txt"), "content").unwrap();
    for t in ["/f.txt", "/", "/../x", "/none", "/f.txt?x", ""] {
        let q = Request { method: HttpMethod::GET, uri: t.into(), version: "HTTP/1.1".into(), headers: Headers::new(), body: None };
        let mut r = wruster_handlers::serve_static(dir.to_str().unwrap(), &q);
        let mut v = vec![];
        r.write(&mut v).unwrap();
        count("files_asked", 1);
    }
    std::fs::remove_dir_all(&dir).unwrap();
}

// ---------------------------------------------------------------- pools

fn pools(rng: &mut Rng) {
    for round in 0..3 {
        let done = Arc::new(AtomicU64::new(0));
        let shared = Arc::new(Mutex::new(vec![]));
        let n = 6 + rng.below(8);
        let mut accepted = 0;
        let kind = (round + rng.below(3)) % 3;
        let act = |i: usize, rng: &mut Rng| -> Box<dyn FnOnce() + Send> {
            let (d, s) = (done.clone(), shared.clone());
            let how = rng.below(6);
            let data = vec![i as u8; 1 + rng.below(50)];
            Box::new(move || {
                d.fetch_add(1, SeqCst);
                match how {
                    0 => std::thread::yield_now(),
                    1 => std::thread::sleep(Duration::from_millis(1)),
                    2 => {
                        d.fetch_add(1000, SeqCst);
                        std::panic::panic_any("planned")
                    }
                    _ => s.lock().unwrap().push(data),
                }
            })
        };
        macro_rules! go {
            ($p:expr) => {{
                let mut p = $p;
                for i in 0..n {
                    match p.run(act(i, rng)) {
                        Ok(()) => accepted += 1,
                        Err(e) => {
                            count("actions_handed_back", 1);
                            drop(e.action)
                        }
                    }
                    match rng.below(4) {
                        0 => std::thread::sleep(Duration::from_millis(rng.below(4) as u64)),
                        1 => std::thread::yield_now(),
                        _ => (),
                    }
                }
                drop(p);
            }};
        }
        let max = 1 + rng.below(3);
        match kind {
            0 => go!(Static::new(max)),
            1 => go!(Dynamic::new(max, Duration::from_millis(rng.below(3) as u64))),
            _ => go!(Pool::new(rng.below(max + 1), max)),
        }
        let ran = done.load(SeqCst) % 1000;
        assert!(ran <= accepted, "{ran} actions of {accepted} accepted");
        count("actions_run", ran);
    }
    // the client's pool
    for limit in [None, Some(Duration::from_millis(2))] {
        let pool: ConnectionPool<Box<u64>> = ConnectionPool::new(limit);
        std::thread::scope(|s| {
            for t in 0..3u64 {
                let pool = &pool;
                let mut rng = Rng(rng.next() ^ t);
                s.spawn(move || {
                    for i in 0..12 {
                        let key = format!("k{}", rng.below(3));
                        match rng.below(5) {
                            0 => std::thread::yield_now(),
                            1 | 2 => {
                                if let Some(r) = pool.get(&key) {
                                    count("resources_reused", 1);
                                    if rng.below(2) == 0 {
                                        pool.insert(&key, r);
                                    }
                                }
                            }
                            _ => {
                                pool.insert(&key, PoolResource::new(Box::new(i)));
                                count("resources_pooled", 1);
                            }
                        }
                    }
                });
            }
        });
    }
}

// ---------------------------------------------------------------- server and client

fn router() -> Router {
    let r = Router::new();
    r.add("/", HttpMethod::GET, Box::new(|_| Response::from_str("hello").unwrap()));
    r.add("/echo", HttpMethod::POST, Box::new(|q: &mut Request| Response { status: StatusCode::OK, headers: Headers::new(), body: q.body.take() }));
    r.add("/read", HttpMethod::POST, wruster_handlers::log_middleware(Box::new(|q: &mut Request| {
        let mut v = vec![];
        if let Some(b) = q.body.as_mut() {
            let _ = b.content.read_to_end(&mut v);
        }
        Response::from_content(Cursor::new(v.clone()), v.len() as u64, mime::TEXT_PLAIN)
    })));
    r.add("/panic", HttpMethod::GET, Box::new(|_| std::panic::panic_any("planned")));
    r.add("/slow", HttpMethod::GET, Box::new(|_| {
        std::thread::sleep(Duration::from_millis(5));
        Response::from_status(StatusCode::Accepted)
    }));
    r
}

fn start() -> (Server, SocketAddr) {
    loop {
        let port = TcpListener::bind("127.0.0.1:0").unwrap().local_addr().unwrap().port();
        let a = SocketAddr::from(([127, 0, 0, 1], port));
        let mut s = Server::from_timeouts(Timeouts { read_request_timeout: Duration::from_secs(60), write_response_timeout: Duration::from_secs(60) });
        if s.run(&a.to_string(), router()).is_ok() {
            return (s, a);
        }
    }
}

fn talk(a: SocketAddr, rng: &mut Rng) -> io::Result<()> {
    let mut s = TcpStream::connect(a)?;
    let mut out = vec![];
    let mut last = false;
    for _ in 0..1 + rng.below(3) {
        let body = vec![b'b'; rng.below(300)];
        match rng.below(8) {
            0 => out.extend(b"GET / HTTP/1.1\r\n\r\n"),
            1 => out.extend(b"GET /slow HTTP/1.1\r\n\r\n"),
            2 => {
                out.extend(b"GET /panic HTTP/1.1\r\n\r\n");
                last = true;
            }
            3 => {
                out.extend(b"BAD\r\n\r\n");
                last = true;
            }
            4 => {
                // never completed
                out.extend(format!("POST /read HTTP/1.1\r\nContent-Length: {}\r\n\r\nx", body.len() + 2).bytes());
                last = true;
            }
            k => {
                out.extend(format!("POST {} HTTP/1.1\r\nContent-Length: {}\r\n\r\n", if k == 5 { "/echo" } else { "/read" }, body.len()).bytes());
                out.extend(&body);
            }
        }
        if last {
            break;
        }
    }
    let cut = rng.below(out.len());
    s.write_all(&out[..cut])?;
    if rng.below(3) == 0 {
        std::thread::yield_now();
    }
    if rng.below(10) == 0 {
        count("connections_abandoned", 1);
        return Ok(());
    }
    s.write_all(&out[cut..])?;
    s.shutdown(Shutdown::Write)?;
    let mut v = vec![];
    s.read_to_end(&mut v)?;
    count("response_bytes", v.len() as u64);
    count("conversations", 1);
    Ok(())
}

fn server(rng: &mut Rng, early: bool) {
    let (s, a) = start();
    let mut seeds = vec![];
    for _ in 0..3 {
        seeds.push(rng.next());
    }
    let pause = 500 + rng.below(6000) as u64;
    let mut s = Some(s);
    std::thread::scope(|sc| {
        for seed in seeds {
            sc.spawn(move || {
                let mut rng = Rng(seed);
                for _ in 0..2 {
                    if talk(a, &mut rng).is_err() {
                        count("broken_conversations", 1);
                    }
                }
            });
        }
        if early {
            std::thread::sleep(Duration::from_millis(pause));
            s.take().unwrap().shutdown().unwrap();
            count("shutdowns_under_load", 1);
        }
    });
    if let Some(s) = s {
        s.shutdown().unwrap();
        count("shutdowns", 1);
    }
}

fn client(rng: &mut Rng) {
    let (s, a) = start();
    {
        let c = Client::new();
        std::thread::scope(|sc| {
            for _ in 0..3 {
                let (c, mut rng) = (&c, Rng(rng.next()));
                sc.spawn(move || {
                    for _ in 0..2 {
                        let body = vec![b'c'; rng.below(400)];
                        let mut headers = Headers::new();
                        headers.add(Header { name: "Content-Length".into(), value: body.len().to_string() });
                        let get = rng.below(3) == 0;
                        let q = match get {
                            true => Request { method: HttpMethod::GET, uri: rng.pick(&["/", "/slow", "/panic", "/none"]).to_string(), version: "HTTP/1.1".into(), headers: Headers::new(), body: None },
                            false => Request { method: HttpMethod::POST, uri: rng.pick(&["/echo", "/read"]).to_string(), version: "HTTP/1.1".into(), headers, body: Some(Body::new(None, body.len() as u64, Box::new(Cursor::new(body.clone())))) },
                        };
                        match c.run(&a.to_string(), q) {
                            Ok(mut r) => {
                                let mut v = vec![];
                                match rng.below(4) {
                                    0 => drop(r),
                                    _ => {
                                        if let Some(b) = r.body.as_mut() {
                                            b.content.read_to_end(&mut v).unwrap();
                                        }
                                        assert!(get || v == body);
                                    }
                                }
                                count("client_calls", 1);
                            }
                            Err(_) => count("client_errors", 1),
                        }
                    }
                });
            }
        });
    }
    s.shutdown().unwrap();
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let seed: u64 = a[2].parse().unwrap();
    let mut rng = Rng(seed.wrapping_mul(7919) + 1);
    std::panic::set_hook(Box::new(|_| ()));
    match a[1].as_str() {
        "parse" => parse(&mut rng),
        "pools" => pools(&mut rng),
        "server" => server(&mut rng, false),
        "shutdown" => server(&mut rng, true),
        "client" => client(&mut rng),
        "none" => (),
        // known errors, to see that Miri sees them
        "selftest-race" => {
            static mut X: u64 = 0;
            let hs: Vec<_> = (0..2).map(|_| std::thread::spawn(|| unsafe { X += 1 })).collect();
            hs.into_iter().for_each(|h| h.join().unwrap());
        }
        "selftest-memory" => {
            let v = vec![1u8; 10];
            let p = v.as_ptr();
            drop(v);
            count("x", unsafe { *p.add(3) } as u64);
        }
        "selftest-leak" => std::mem::forget(vec![1u8; 10]),
        x => panic!("unknown workload {x}"),
    }
    let _ = std::panic::take_hook();
    let c = std::mem::take(&mut *COUNTS.lock().unwrap());
    println!("DONE {}", c.iter().map(|(k, v)| format!("{k}={v}")).collect::<Vec<_>>().join(" "));
}
