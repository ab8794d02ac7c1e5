//! Servers made of plain sockets: what they send is up to each check.
use crate::util::*;
use std::io::{Read, Write};
use std::net::{IpAddr, SocketAddr, TcpListener, TcpStream};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::sync::Arc;
use std::time::Duration;

pub struct RawServer {
    pub addr: SocketAddr,
    stop: Arc<AtomicBool>,
    pub accepted: Arc<AtomicU64>,
}
impl RawServer {
    /// `f` gets the number of the connection and its socket, in a thread of its own.
    pub fn start(ip: IpAddr, f: impl Fn(u64, TcpStream) + Send + Sync + 'static) -> RawServer {
        RawServer::try_start(ip, 0, f).expect("bind")
    }
    pub fn try_start(ip: IpAddr, port: u16, f: impl Fn(u64, TcpStream) + Send + Sync + 'static) -> std::io::Result<RawServer> {
        let l = TcpListener::bind((ip, port))?;
        let addr = l.local_addr().unwrap();
        let (stop, accepted) = (Arc::new(AtomicBool::new(false)), Arc::new(AtomicU64::new(0)));
        let (s2, a2) = (stop.clone(), accepted.clone());
        let f = Arc::new(f);
        std::thread::spawn(move || {
            for s in l.incoming() {
                if s2.load(SeqCst) {
                    break;
                }
                let Ok(s) = s else { continue };
                let n = a2.fetch_add(1, SeqCst);
                let f = f.clone();
                let _ = std::thread::Builder::new().stack_size(256 << 10).spawn(move || f(n, s));
            }
        });
        Ok(RawServer { addr, stop, accepted })
    }
    pub fn accepted(&self) -> u64 {
        self.accepted.load(SeqCst)
    }
}
impl Drop for RawServer {
    fn drop(&mut self) {
        self.stop.store(true, SeqCst);
        let _ = TcpStream::connect_timeout(&self.addr, Duration::from_secs(2));
    }
}

#[derive(Clone, Debug, Default)]
pub struct RawReq {
    pub method: String,
    pub target: String,
    pub version: String,
    pub headers: Vec<(String, String)>,
    pub body: Vec<u8>,
}
impl RawReq {
    pub fn h(&self, n: &str) -> Option<&str> {
        self.headers.iter().find(|(k, _)| k.eq_ignore_ascii_case(n)).map(|(_, v)| v.as_str())
    }
}

/// A strict reader of requests; bytes beyond a request stay in `buf`.
pub struct ReqReader {
    pub sock: TcpStream,
    pub buf: Vec<u8>,
    pub max: usize,
}
impl ReqReader {
    pub fn new(sock: TcpStream) -> ReqReader {
        ReqReader { sock, buf: vec![], max: 1 << 16 }
    }
    fn fill(&mut self) -> Result<bool, String> {
        let mut tmp = vec![0; self.max];
        loop {
            match self.sock.read(&mut tmp) {
                Ok(0) => return Ok(false),
                Ok(n) => {
                    self.buf.extend_from_slice(&tmp[..n]);
                    return Ok(true);
                }
                Err(e) if e.kind() == std::io::ErrorKind::Interrupted => (),
                Err(e) => return Err(format!("{:?}", e.kind())),
            }
        }
    }
    /// None: the connection ended between requests.
    pub fn request(&mut self) -> Result<Option<RawReq>, String> {
        let mut from = 0;
        let end = loop {
            if let Some(i) = self.buf[from..].windows(4).position(|w| w == b"\r\n\r\n") {
                break from + i + 4;
            }
            from = self.buf.len().saturating_sub(3);
            match self.fill() {
                Ok(true) => (),
                _ if self.buf.is_empty() => return Ok(None),
                r => return Err(format!("{r:?} after {} bytes of a request: {}", self.buf.len(), show(&self.buf))),
            }
        };
        let head = String::from_utf8_lossy(&self.buf[..end - 4]).to_string();
        let mut lines = head.split("\r\n");
        let first: Vec<&str> = lines.next().unwrap().split(' ').collect();
        if first.len() != 3 {
            return Err(format!("request line: {first:?}"));
        }
        let mut r = RawReq { method: first[0].into(), target: first[1].into(), version: first[2].into(), ..Default::default() };
        for l in lines {
            let Some((n, v)) = l.split_once(':') else { return Err(format!("header line: {l:?}")) };
            r.headers.push((n.into(), v.trim().into()));
        }
        let lens: Vec<&(String, String)> = r.headers.iter().filter(|(n, _)| n.eq_ignore_ascii_case("content-length")).collect();
        if lens.len() > 1 {
            return Err(format!("{} Content-Length headers", lens.len()));
        }
        let len: usize = match lens.first() {
            None => 0,
            Some((_, v)) => v.parse().map_err(|_| format!("Content-Length {v:?}"))?,
        };
        while self.buf.len() < end + len {
            if !self.fill()? {
                return Err(format!("the body ended after {} of {len} bytes", self.buf.len() - end));
            }
        }
        r.body = self.buf[end..end + len].to_vec();
        self.buf.drain(..end + len);
        Ok(Some(r))
    }
    /// Whether there are bytes of the peer to be read.
    pub fn has_data(&mut self) -> bool {
        if !self.buf.is_empty() {
            return true;
        }
        let _ = self.sock.set_nonblocking(true);
        let r = self.sock.peek(&mut [0; 1]);
        let _ = self.sock.set_nonblocking(false);
        matches!(r, Ok(n) if n > 0)
    }
    /// Bytes read until the end of the connection, within `secs`; None: no end.
    pub fn rest(&mut self, secs: f64) -> Option<Vec<u8>> {
        let end = std::time::Instant::now() + Duration::from_secs_f64(secs);
        loop {
            let left = end.saturating_duration_since(std::time::Instant::now());
            if left.is_zero() {
                return None;
            }
            let _ = self.sock.set_read_timeout(Some(left));
            match self.fill() {
                Ok(true) => (),
                Ok(false) => return Some(std::mem::take(&mut self.buf)),
                Err(e) if e == "WouldBlock" || e == "TimedOut" => return None,
                Err(_) => return Some(std::mem::take(&mut self.buf)),
            }
        }
    }
}

pub fn write_in_pieces(s: &mut TcpStream, b: &[u8], pieces: usize, pause_us: u64, rng: &mut Rng) -> std::io::Result<()> {
    if pieces <= 1 || b.len() < 2 {
        return s.write_all(b);
    }
    let mut cuts: Vec<usize> = (0..pieces - 1).map(|_| rng.range(1, b.len() - 1)).collect();
    cuts.push(b.len());
    cuts.sort();
    let mut at = 0;
    for k in cuts {
        s.write_all(&b[at..k])?;
        at = k;
        if pause_us > 0 {
            std::thread::sleep(Duration::from_micros(rng.below(pause_us as usize) as u64));
        }
    }
    Ok(())
}
