//! An independent, strict HTTP/1.1 peer: client sockets (plain and TLS) and a response parser that shares no code with wruster.
use std::io::{self, Read, Write};
use std::net::{Shutdown, SocketAddr, TcpStream};
use std::sync::{Arc, OnceLock};
use std::time::{Duration, Instant};

#[derive(Debug, Clone, PartialEq)]
pub enum WErr {
    /// End of the stream, or reset, with this many bytes of an incomplete message pending.
    Eof(usize),
    Timeout(usize),
    Malformed(String),
}

#[derive(Debug, Clone)]
pub struct Resp {
    pub status: u16,
    pub headers: Vec<(String, String)>,
    pub body: Vec<u8>,
    pub head_len: usize,
}
impl Resp {
    pub fn h(&self, name: &str) -> Option<&str> {
        self.headers.iter().find(|(n, _)| n.eq_ignore_ascii_case(name)).map(|(_, v)| v.as_str())
    }
    pub fn all(&self, name: &str) -> Vec<&str> {
        self.headers.iter().filter(|(n, _)| n.eq_ignore_ascii_case(name)).map(|(_, v)| v.as_str()).collect()
    }
}

enum Io {
    Plain(TcpStream),
    Tls(Box<rustls::StreamOwned<rustls::ClientConnection, TcpStream>>),
}

pub struct Conn {
    io: Io,
    pub sock: TcpStream,
    pub buf: Vec<u8>,
    pub eof: bool,
    pub reset: bool,
    /// all bytes received so far
    pub received: usize,
}

pub fn client_config() -> Arc<rustls::ClientConfig> {
    static CFG: OnceLock<Arc<rustls::ClientConfig>> = OnceLock::new();
    Arc::clone(CFG.get_or_init(|| {
        struct Any;
        impl rustls::client::ServerCertVerifier for Any {
            fn verify_server_cert(&self, _: &rustls::Certificate, _: &[rustls::Certificate], _: &rustls::ServerName, _: &mut dyn Iterator<Item = &[u8]>, _: &[u8], _: std::time::SystemTime) -> Result<rustls::client::ServerCertVerified, rustls::Error> {
                Ok(rustls::client::ServerCertVerified::assertion())
            }
        }
        let cfg = rustls::ClientConfig::builder().with_safe_defaults().with_custom_certificate_verifier(Arc::new(Any)).with_no_client_auth();
        Arc::new(cfg)
    }))
}

impl Conn {
    pub fn connect(addr: SocketAddr) -> io::Result<Conn> {
        Self::plain_on(TcpStream::connect_timeout(&addr, Duration::from_secs(10))?)
    }
    fn plain_on(s: TcpStream) -> io::Result<Conn> {
        s.set_nodelay(true)?;
        Ok(Conn { sock: s.try_clone()?, io: Io::Plain(s), buf: vec![], eof: false, reset: false, received: 0 })
    }
    pub fn connect_tls(addr: SocketAddr) -> io::Result<Conn> {
        Self::connect_tls_with(addr, None)
    }
    pub fn connect_tls_with(addr: SocketAddr, fragment: Option<usize>) -> io::Result<Conn> {
        Self::tls_on(TcpStream::connect_timeout(&addr, Duration::from_secs(10))?, fragment)
    }
    fn tls_on(s: TcpStream, fragment: Option<usize>) -> io::Result<Conn> {
        s.set_nodelay(true)?;
        let mut cfg = client_config();
        if fragment.is_some() {
            let mut c2 = (*cfg).clone();
            c2.max_fragment_size = fragment;
            cfg = Arc::new(c2);
        }
        let conn = rustls::ClientConnection::new(cfg, "localhost".try_into().unwrap()).map_err(|e| io::Error::new(io::ErrorKind::Other, e))?;
        Ok(Conn { sock: s.try_clone()?, io: Io::Tls(Box::new(rustls::StreamOwned::new(conn, s))), buf: vec![], eof: false, reset: false, received: 0 })
    }
    pub fn open(addr: SocketAddr, tls: bool) -> io::Result<Conn> {
        if tls { Self::connect_tls(addr) } else { Self::connect(addr) }
    }
    /// A connection that takes only a few kilobytes ahead of what is read from it.
    pub fn open_narrow(addr: SocketAddr, tls: bool) -> io::Result<Conn> {
        crate::util::c().count("narrow_connections", 1);
        let s = narrow_socket(addr, 4_000)?;
        if tls { Self::tls_on(s, None) } else { Self::plain_on(s) }
    }
    pub fn send(&mut self, b: &[u8]) -> io::Result<()> {
        self.sock.set_write_timeout(Some(Duration::from_secs(30)))?;
        match &mut self.io {
            Io::Plain(s) => s.write_all(b),
            Io::Tls(s) => {
                s.sock.set_read_timeout(Some(Duration::from_secs(30)))?;
                s.write_all(b)?;
                s.flush()
            }
        }
    }
    /// Like send, but an error is not important (the peer may have closed already).
    pub fn try_send(&mut self, b: &[u8]) -> bool {
        self.send(b).is_ok()
    }
    pub fn is_tls(&self) -> bool {
        matches!(self.io, Io::Tls(_))
    }
    pub fn half_close(&self) {
        let _ = self.sock.shutdown(Shutdown::Write);
    }
    pub fn close_notify(&mut self) {
        if let Io::Tls(s) = &mut self.io {
            s.conn.send_close_notify();
            let _ = s.flush();
        }
    }
    /// Closes with a RST.
    pub fn abort(self) {
        set_linger0(&self.sock);
    }
    /// Reads whatever comes next into the buffer. Ok(0): end of stream or reset (see self.eof, self.reset).
    pub fn fill(&mut self, deadline: Instant) -> Result<usize, WErr> {
        self.fill_max(deadline, 65536)
    }
    pub fn fill_max(&mut self, deadline: Instant, max: usize) -> Result<usize, WErr> {
        if self.eof {
            return Ok(0);
        }
        let mut tmp = vec![0; max];
        loop {
            let left = deadline.saturating_duration_since(Instant::now());
            if left.is_zero() {
                return Err(WErr::Timeout(self.buf.len()));
            }
            let _ = self.sock.set_read_timeout(Some(left.max(Duration::from_millis(1))));
            // The server sends its heads in small pieces, do not make it wait for delayed acknowledgements.
            quick_ack(&self.sock);
            let r = match &mut self.io {
                Io::Plain(s) => s.read(&mut tmp),
                Io::Tls(s) => s.read(&mut tmp),
            };
            match r {
                Ok(0) => {
                    self.eof = true;
                    return Ok(0);
                }
                Ok(n) => {
                    self.buf.extend_from_slice(&tmp[..n]);
                    self.received += n;
                    return Ok(n);
                }
                Err(e) => match e.kind() {
                    io::ErrorKind::WouldBlock | io::ErrorKind::TimedOut | io::ErrorKind::Interrupted => continue,
                    io::ErrorKind::UnexpectedEof => {
                        self.eof = true; // TLS closed without close_notify
                        return Ok(0);
                    }
                    _ => {
                        self.eof = true;
                        self.reset = true;
                        return Ok(0);
                    }
                },
            }
        }
    }
    /// Reads one response; `head` when it answers a HEAD request.
    pub fn response(&mut self, secs: f64, head: bool) -> Result<Resp, WErr> {
        let deadline = Instant::now() + Duration::from_secs_f64(secs);
        loop {
            if let Some((r, n)) = parse_response(&self.buf, head)? {
                self.buf.drain(..n);
                return Ok(r);
            }
            let before = self.buf.len();
            if self.fill(deadline)? == 0 {
                return Err(WErr::Eof(self.buf.len()));
            }
            // A narrow receive buffer has done its work by now, and megabytes would take minutes through it.
            if before <= 100_000 && self.buf.len() > 100_000 {
                widen(&self.sock);
            }
        }
    }
    /// Waits for the end of the stream, everything received stays in buf.
    pub fn until_eof(&mut self, secs: f64) -> Result<(), WErr> {
        let deadline = Instant::now() + Duration::from_secs_f64(secs);
        while !self.eof {
            self.fill(deadline)?;
        }
        Ok(())
    }
    /// Nothing arrives and the connection stays open for `ms`.
    pub fn quiet_for(&mut self, ms: u64) -> bool {
        let n = self.received;
        let deadline = Instant::now() + Duration::from_millis(ms);
        matches!(self.fill(deadline), Err(WErr::Timeout(_))) && self.received == n
    }
}

/// Connects a socket whose receive window is small from the start.
pub fn narrow_socket(addr: SocketAddr, bytes: i32) -> io::Result<TcpStream> {
    use std::os::fd::FromRawFd;
    let SocketAddr::V4(a) = addr else { return TcpStream::connect(addr) };
    unsafe {
        let fd = libc::socket(libc::AF_INET, libc::SOCK_STREAM | libc::SOCK_CLOEXEC, 0);
        if fd < 0 {
            return Err(io::Error::last_os_error());
        }
        let s = TcpStream::from_raw_fd(fd);
        set_buf(&s, true, bytes);
        let sa = libc::sockaddr_in { sin_family: libc::AF_INET as u16, sin_port: a.port().to_be(), sin_addr: libc::in_addr { s_addr: u32::from_ne_bytes(a.ip().octets()) }, sin_zero: [0; 8] };
        while libc::connect(fd, &sa as *const _ as *const libc::sockaddr, std::mem::size_of_val(&sa) as u32) != 0 {
            let e = io::Error::last_os_error();
            if e.raw_os_error() == Some(libc::EISCONN) {
                break;
            }
            if e.kind() != io::ErrorKind::Interrupted && e.raw_os_error() != Some(libc::EALREADY) {
                return Err(e);
            }
        }
        Ok(s)
    }
}

pub fn set_linger0(s: &TcpStream) {
    use std::os::fd::AsRawFd;
    let l = libc::linger { l_onoff: 1, l_linger: 0 };
    unsafe {
        libc::setsockopt(s.as_raw_fd(), libc::SOL_SOCKET, libc::SO_LINGER, &l as *const _ as *const libc::c_void, std::mem::size_of::<libc::linger>() as u32);
    }
}

pub fn set_buf(s: &TcpStream, recv: bool, bytes: i32) {
    use std::os::fd::AsRawFd;
    unsafe {
        libc::setsockopt(s.as_raw_fd(), libc::SOL_SOCKET, if recv { libc::SO_RCVBUF } else { libc::SO_SNDBUF }, &bytes as *const _ as *const libc::c_void, 4);
    }
}

/// Undoes a small receive buffer of an open connection.
fn widen(s: &TcpStream) {
    use std::os::fd::AsRawFd;
    set_buf(s, true, 1 << 20);
    let clamp: libc::c_int = 1 << 20;
    unsafe { libc::setsockopt(s.as_raw_fd(), libc::IPPROTO_TCP, libc::TCP_WINDOW_CLAMP, &clamp as *const _ as *const libc::c_void, 4) };
}

fn find(h: &[u8], n: &[u8]) -> Option<usize> {
    h.windows(n.len()).position(|w| w == n)
}

/// Parses one response at the start of `b`: None when it is incomplete, an error when it is not a strict HTTP/1.1 response
/// delimited by exactly one Content-Length.
pub fn parse_response(b: &[u8], head: bool) -> Result<Option<(Resp, usize)>, WErr> {
    let bad = |m: &str| WErr::Malformed(format!("{m}: {}", crate::util::show(&b[..b.len().min(400)])));
    // Fail early on something that does not start like a response.
    let start = b"HTTP/1.1 ";
    if !b.iter().zip(start.iter()).all(|(x, y)| x == y) {
        return Err(bad("not a status line"));
    }
    let end = match find(b, b"\r\n\r\n") {
        None => return if b.len() > 2_000_000 { Err(bad("endless head")) } else { Ok(None) },
        Some(e) => e,
    };
    let text = std::str::from_utf8(&b[..end]).map_err(|_| bad("head is not UTF-8"))?;
    let mut lines = text.split("\r\n");
    let line = lines.next().unwrap();
    let rest = &line[start.len()..];
    let (code, _reason) = rest.split_once(' ').ok_or_else(|| bad("no space after the status code"))?;
    if code.len() != 3 || !code.bytes().all(|c| c.is_ascii_digit()) {
        return Err(bad("bad status code"));
    }
    if line.bytes().any(|c| c < 32 || c == 127) {
        return Err(bad("control character in the status line"));
    }
    let mut headers = vec![];
    for l in lines {
        let (n, v) = l.split_once(':').ok_or_else(|| bad("header line without a colon"))?;
        if n.is_empty() || !n.bytes().all(|c| c.is_ascii_alphanumeric() || b"!#$%&'*+-.^_`|~".contains(&c)) {
            return Err(bad("bad header name"));
        }
        if v.bytes().any(|c| (c < 32 && c != 9) || c == 127) {
            return Err(bad("control character in a header"));
        }
        headers.push((n.to_string(), v.trim_matches(|c| c == ' ' || c == '\t').to_string()));
    }
    let cl: Vec<&String> = headers.iter().filter(|(n, _)| n.eq_ignore_ascii_case("content-length")).map(|(_, v)| v).collect();
    if cl.len() != 1 {
        return Err(bad(&format!("{} Content-Length headers", cl.len())));
    }
    if headers.iter().any(|(n, _)| n.eq_ignore_ascii_case("transfer-encoding")) {
        return Err(bad("Transfer-Encoding in a response"));
    }
    if cl[0].is_empty() || !cl[0].bytes().all(|c| c.is_ascii_digit()) {
        return Err(bad("Content-Length is not a number"));
    }
    let len: usize = cl[0].parse().map_err(|_| bad("Content-Length overflows"))?;
    let from = end + 4;
    let n = if head { 0 } else { len };
    if b.len() < from + n {
        return Ok(None);
    }
    let body = b[from..from + n].to_vec();
    Ok(Some((Resp { status: code.parse().unwrap(), headers, body, head_len: from }, from + n)))
}

fn quick_ack(s: &TcpStream) {
    use std::os::unix::io::AsRawFd;
    let one: libc::c_int = 1;
    unsafe { libc::setsockopt(s.as_raw_fd(), libc::IPPROTO_TCP, libc::TCP_QUICKACK, &one as *const _ as *const libc::c_void, 4) };
}
