//! Starting and stopping the real server, and the log of what handlers saw.
use crate::util::*;
use crate::wire::Conn;
use serde_json::json;
use std::collections::HashMap;
use std::net::SocketAddr;
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::sync::{mpsc, Mutex};
use std::time::Duration;
use wruster::http::{HttpMethod, Request, Response};
use wruster::router::{HttpHandler, Router};
use wruster::{Certificate, PrivateKey, Server, Timeouts};

pub const METHODS: [(&str, HttpMethod); 9] = [
    ("GET", HttpMethod::GET), ("HEAD", HttpMethod::HEAD), ("POST", HttpMethod::POST), ("PUT", HttpMethod::PUT),
    ("DELETE", HttpMethod::DELETE), ("CONNECT", HttpMethod::CONNECT), ("OPTIONS", HttpMethod::OPTIONS),
    ("TRACE", HttpMethod::TRACE), ("PATCH", HttpMethod::PATCH),
];

pub const CERT_DIR: &str = concat!(env!("CARGO_MANIFEST_DIR"), "/certs");
pub fn tls_pair() -> (PrivateKey, Certificate) {
    let dir = cert_dir();
    (PrivateKey::read_from(&format!("{dir}/key.pem")).expect("key"), Certificate::read_from(&format!("{dir}/cert.pem")).expect("cert"))
}
pub fn cert_dir() -> String {
    std::env::var("VH_CERTS").unwrap_or_else(|_| CERT_DIR.to_string())
}

static NEXT_ADDR: AtomicU64 = AtomicU64::new(0);
/// An address of the loopback network that is most likely free, outside the range of ephemeral ports.
pub fn fresh_addr() -> SocketAddr {
    let n = NEXT_ADDR.fetch_add(1, SeqCst);
    let p = std::process::id() as u64;
    let port = 10000 + ((n * 7 + p * 131 + c().seed * 17) % 20000) as u16;
    let ip = [127, 0, (1 + (p % 250)) as u8, (1 + (n / 997) % 250) as u8];
    SocketAddr::from((ip, port))
}

pub struct Running {
    pub addr: SocketAddr,
    pub tls: bool,
    /// its connections have small send buffers
    pub small: bool,
    server: Option<Server>,
}

pub fn timeouts(read_ms: u64, write_ms: u64) -> Timeouts {
    Timeouts { read_request_timeout: Duration::from_millis(read_ms), write_response_timeout: Duration::from_millis(write_ms) }
}

pub fn start(tls: bool, t: Timeouts, routes: impl Fn(&Router)) -> Running {
    let mut last = String::new();
    for _ in 0..200 {
        let addr = fresh_addr();
        let mut server = Server::from_timeouts(t.clone());
        let router = if addr.port() % 2 == 0 { Router::new() } else { Router::default() };
        routes(&router);
        let r = if tls {
            let (k, ce) = tls_pair();
            server.run_tls(&addr.to_string(), router, k, ce)
        } else {
            server.run(&addr.to_string(), router)
        };
        match r {
            Ok(()) => {
                let n = STARTED.fetch_add(1, SeqCst);
                let mut small = false;
                // Some with little room for what is sent, as on a busy machine: writes end early and have to wait.
                if let Some(size) = [None, Some(40_000), None, Some(5_000)][((n + c().seed) % 4) as usize] {
                    small = small_send_buffers(addr, size);
                    if small {
                        c().count("servers_with_small_send_buffers", 1);
                    }
                }
                return Running { addr, tls, small, server: Some(server) };
            }
            Err(e) => last = e.to_string(),
        }
    }
    // This is not about the property, unless every address fails, in which case nothing works.
    c().violation("server:cannot-start", json!({"error": last}));
    finish();
}

static STARTED: AtomicU64 = AtomicU64::new(0);

/// The connections accepted from now on at an address this process listens on get small send buffers.
pub fn small_send_buffers(addr: SocketAddr, size: i32) -> bool {
    use std::os::fd::{AsRawFd, FromRawFd};
    // No descriptor is duplicated here: that could keep a socket of another server open after it was closed.
    let fds = std::fs::read_dir("/proc/self/fd").into_iter().flatten().flatten();
    for fd in fds.filter_map(|f| f.file_name().to_string_lossy().parse::<i32>().ok()) {
        let (mut listening, mut len) = (0i32, 4u32);
        let sock = std::mem::ManuallyDrop::new(unsafe { std::net::TcpListener::from_raw_fd(fd) });
        let r = unsafe { libc::getsockopt(sock.as_raw_fd(), libc::SOL_SOCKET, libc::SO_ACCEPTCONN, &mut listening as *mut _ as *mut libc::c_void, &mut len) };
        let ours = r == 0 && listening == 1 && sock.local_addr().map_or(false, |a| a == addr);
        if ours {
            return unsafe { libc::setsockopt(sock.as_raw_fd(), libc::SOL_SOCKET, libc::SO_SNDBUF, &size as *const _ as *const libc::c_void, 4) } == 0;
        }
    }
    false
}

/// The same handler for every path and method.
pub fn start_all(tls: bool, t: Timeouts, f: impl Fn(&mut Request) -> Response + Send + Sync + Clone + 'static) -> Running {
    start(tls, t, |r| {
        for (_, m) in METHODS {
            let f = f.clone();
            r.add("/", m, Box::new(move |q: &mut Request| f(q)) as HttpHandler);
        }
    })
}

impl Running {
    pub fn adopt(addr: SocketAddr, tls: bool, server: Server) -> Running {
        Running { addr, tls, small: false, server: Some(server) }
    }
    pub fn conn(&self) -> std::io::Result<Conn> {
        // Half of the clients of a server with small send buffers also take little at a time.
        if self.small && STARTED.fetch_add(4, SeqCst) / 4 % 2 == 0 {
            return Conn::open_narrow(self.addr, self.tls);
        }
        Conn::open(self.addr, self.tls)
    }
    pub fn take(&mut self) -> Server {
        self.server.take().unwrap()
    }
    /// Shuts the server down; None when it did not return in time.
    pub fn shutdown_in(&mut self, secs: u64) -> Option<Result<(), String>> {
        let s = self.server.take()?;
        shutdown_in(s, secs)
    }
    /// Shutdown at the end of a case, where being slow is not what the check is about.
    pub fn stop(mut self) {
        if let Some(s) = self.server.take() {
            if shutdown_in(s, 60).is_none() {
                c().count("shutdowns_not_finished_in_60s", 1);
            }
        }
    }
    /// Leaves the shutdown to a thread nobody waits for.
    pub fn stop_later(mut self) {
        if let Some(s) = self.server.take() {
            std::thread::spawn(move || {
                let _ = s.shutdown();
            });
        }
    }
}

pub fn shutdown_in(s: Server, secs: u64) -> Option<Result<(), String>> {
    let (tx, rx) = mpsc::channel();
    std::thread::spawn(move || {
        let r = s.shutdown().map_err(|e| e.to_string());
        let _ = tx.send(r);
    });
    match rx.recv_timeout(Duration::from_secs(secs)) {
        Ok(r) => Some(r),
        Err(mpsc::RecvTimeoutError::Disconnected) => Some(Err("shutdown panicked".into())),
        Err(_) => None,
    }
}

/// What handlers saw, by request id.
#[derive(Default)]
pub struct Log<T> {
    pub seen: Mutex<HashMap<String, Vec<T>>>,
    pub calls: AtomicU64,
    pub running: AtomicU64,
    pub peak: AtomicU64,
}
impl<T> Log<T> {
    pub fn add(&self, id: String, t: T) {
        self.calls.fetch_add(1, SeqCst);
        lock(&self.seen).entry(id).or_default().push(t);
    }
    pub fn enter(&self) -> Inside<'_> {
        let n = self.running.fetch_add(1, SeqCst) + 1;
        self.peak.fetch_max(n, SeqCst);
        Inside(&self.running)
    }
}
pub struct Inside<'a>(&'a AtomicU64);
impl Drop for Inside<'_> {
    fn drop(&mut self) {
        self.0.fetch_sub(1, SeqCst);
    }
}

pub fn hdr(q: &Request, name: &str) -> Option<String> {
    q.headers.get(name).and_then(|v| v.first().cloned())
}
