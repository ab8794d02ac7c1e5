//! C20: the same conversation over plain TCP and over TLS, with full control over records and segments.
use crate::srv::*;
use crate::traffic::*;
use crate::util::*;
use crate::wire::*;
use serde_json::{json, Value};
use std::io::{Read, Write};
use std::net::{SocketAddr, TcpStream};
use std::sync::{Arc, OnceLock};
use std::time::{Duration, Instant};

struct Accept;
impl rustls::client::ServerCertVerifier for Accept {
    fn verify_server_cert(&self, _: &rustls::Certificate, _: &[rustls::Certificate], _: &rustls::ServerName, _: &mut dyn Iterator<Item = &[u8]>, _: &[u8], _: std::time::SystemTime) -> Result<rustls::client::ServerCertVerified, rustls::Error> {
        Ok(rustls::client::ServerCertVerified::assertion())
    }
}
struct Reject;
impl rustls::client::ServerCertVerifier for Reject {
    fn verify_server_cert(&self, _: &rustls::Certificate, _: &[rustls::Certificate], _: &rustls::ServerName, _: &mut dyn Iterator<Item = &[u8]>, _: &[u8], _: std::time::SystemTime) -> Result<rustls::client::ServerCertVerified, rustls::Error> {
        Err(rustls::Error::InvalidCertificateEncoding)
    }
}
fn config(v12: bool, reject: bool, fragment: Option<usize>) -> Arc<rustls::ClientConfig> {
    static BASE: OnceLock<[rustls::ClientConfig; 4]> = OnceLock::new();
    let all = BASE.get_or_init(|| {
        [(false, false), (true, false), (false, true), (true, true)].map(|(v12, reject)| {
            let v: &[&rustls::SupportedProtocolVersion] = if v12 { &[&rustls::version::TLS12] } else { &[&rustls::version::TLS13] };
            let b = rustls::ClientConfig::builder().with_safe_default_cipher_suites().with_safe_default_kx_groups().with_protocol_versions(v).unwrap();
            if reject {
                b.with_custom_certificate_verifier(Arc::new(Reject)).with_no_client_auth()
            } else {
                b.with_custom_certificate_verifier(Arc::new(Accept)).with_no_client_auth()
            }
        })
    });
    let mut cfg = all[v12 as usize + 2 * reject as usize].clone();
    cfg.max_fragment_size = fragment;
    Arc::new(cfg)
}

/// A TLS client that decides how its records are cut into segments.
struct RawTls {
    sock: TcpStream,
    tls: rustls::ClientConnection,
    buf: Vec<u8>,
    eof: bool,
    /// one write per this many bytes
    cut: Cut,
    rng: Rng,
    read_max: usize,
    /// what is to be sent stays in `tls`
    hold: bool,
    sending: Option<std::thread::JoinHandle<()>>,
}
#[derive(Clone, Copy, Debug, PartialEq, Hash)]
enum Cut {
    Whole,
    Bytes,
    Random,
    HeaderApart,
    Slow,
}
const CUTS: [Cut; 5] = [Cut::Whole, Cut::Bytes, Cut::Random, Cut::HeaderApart, Cut::Slow];

impl RawTls {
    fn new(addr: SocketAddr, v12: bool, fragment: Option<usize>, cut: Cut, rng: Rng) -> std::io::Result<RawTls> {
        Self::on(TcpStream::connect_timeout(&addr, Duration::from_secs(10))?, v12, fragment, cut, rng)
    }
    /// That takes only little ahead of what is read.
    fn narrow(addr: SocketAddr, v12: bool, fragment: Option<usize>, cut: Cut, rng: Rng) -> std::io::Result<RawTls> {
        c().count("narrow_tls_connections", 1);
        Self::on(narrow_socket(addr, 4_000)?, v12, fragment, cut, rng)
    }
    fn on(sock: TcpStream, v12: bool, fragment: Option<usize>, cut: Cut, rng: Rng) -> std::io::Result<RawTls> {
        sock.set_nodelay(true)?;
        sock.set_write_timeout(Some(Duration::from_secs(30)))?;
        let tls = rustls::ClientConnection::new(config(v12, false, fragment), "localhost".try_into().unwrap()).unwrap();
        Ok(RawTls { sock, tls, buf: vec![], eof: false, cut, rng, read_max: 16384, hold: false, sending: None })
    }
    fn push(&mut self, b: &[u8]) -> std::io::Result<()> {
        let cuts: Vec<usize> = match self.cut {
            Cut::Whole => vec![],
            Cut::Bytes if b.len() <= 2500 => (1..b.len()).collect(),
            Cut::HeaderApart => {
                // between and inside the records' headers
                let mut v = vec![];
                let mut i = 0;
                while i + 5 <= b.len() {
                    v.extend([i, i + 1 + self.rng.below(5)]);
                    i += 5 + u16::from_be_bytes([b[i + 3], b[i + 4]]) as usize;
                }
                v
            }
            _ => (0..self.rng.range(1, 8)).map(|_| self.rng.below(b.len().max(1))).collect(),
        };
        let mut cuts: Vec<usize> = cuts.into_iter().filter(|x| *x > 0 && *x < b.len()).collect();
        cuts.sort();
        cuts.dedup();
        cuts.push(b.len());
        let mut from = 0;
        for to in cuts {
            self.sock.write_all(&b[from..to])?;
            from = to;
            match self.cut {
                Cut::Slow => std::thread::sleep(Duration::from_millis(self.rng.range(1, 12) as u64)),
                Cut::Whole => (),
                _ if self.rng.chance(1, 8) => std::thread::sleep(Duration::from_micros(self.rng.below(500) as u64)),
                _ => (),
            }
        }
        Ok(())
    }
    fn flush_tls(&mut self) -> std::io::Result<()> {
        if self.hold {
            return Ok(());
        }
        if !self.tls.wants_write() {
            return Ok(());
        }
        if let Some(h) = self.sending.take() {
            let _ = h.join();
        }
        let mut out = vec![];
        while self.tls.wants_write() {
            self.tls.write_tls(&mut out)?;
        }
        if out.is_empty() { Ok(()) } else { self.push(&out) }
    }
    /// One read of the socket; false when nothing came before the deadline.
    fn step(&mut self, deadline: Instant) -> Result<bool, String> {
        let left = deadline.saturating_duration_since(Instant::now());
        if left.is_zero() {
            return Ok(false);
        }
        let _ = self.sock.set_read_timeout(Some(left.max(Duration::from_millis(1))));
        let mut lim = (&self.sock).take(self.read_max as u64);
        match self.tls.read_tls(&mut lim) {
            Ok(0) => self.eof = true,
            Ok(_) => {
                let st = self.tls.process_new_packets().map_err(|e| format!("tls: {e}"))?;
                let n = st.plaintext_bytes_to_read();
                if n > 0 {
                    let at = self.buf.len();
                    self.buf.resize(at + n, 0);
                    self.tls.reader().read_exact(&mut self.buf[at..]).map_err(|e| e.to_string())?;
                }
                if st.peer_has_closed() {
                    self.eof = true;
                }
            }
            Err(e) if matches!(e.kind(), std::io::ErrorKind::WouldBlock | std::io::ErrorKind::TimedOut) => return Ok(false),
            Err(_) => self.eof = true,
        }
        self.flush_tls().map_err(|e| format!("write: {e}"))?;
        Ok(true)
    }
    /// `hold_last`: the client's last flight is not sent yet.
    fn handshake(&mut self, secs: u64, hold_last: bool) -> Result<(), String> {
        let d = Instant::now() + Duration::from_secs(secs);
        self.flush_tls().map_err(|e| e.to_string())?;
        self.hold = hold_last;
        while self.tls.is_handshaking() {
            if self.eof || !self.step(d)? {
                return Err("the handshake was not completed".into());
            }
        }
        self.hold = false;
        if hold_last { Ok(()) } else { self.flush_tls().map_err(|e| e.to_string()) }
    }
    fn response(&mut self, secs: u64, head: bool) -> Result<Resp, String> {
        let d = Instant::now() + Duration::from_secs(secs);
        loop {
            match parse_response(&self.buf, head) {
                Ok(Some((r, n))) => {
                    self.buf.drain(..n);
                    return Ok(r);
                }
                Ok(None) => (),
                Err(e) => return Err(format!("{e:?}")),
            }
            if self.eof {
                return Err(format!("the connection ended with {} bytes of the response", self.buf.len()));
            }
            if !self.step(d)? {
                return Err(format!("no complete response in {secs} s, {} bytes so far", self.buf.len()));
            }
        }
    }
}

fn same(a: &Resp, b: &Resp) -> bool {
    let n = |r: &Resp| {
        let mut h: Vec<(String, String)> = r.headers.iter().map(|(n, v)| (n.to_ascii_lowercase(), v.clone())).collect();
        h.sort();
        h
    };
    a.status == b.status && n(a) == n(b) && a.body == b.body
}

struct Pair {
    plain: Running,
    plog: VLog,
    tls: Running,
    tlog: VLog,
}

/// The same requests over both; the plain ones in the simplest way, the TLS ones in a difficult one.
fn conversation(p: &Pair, i: u64, rng: &mut Rng) {
    let big = rng.chance(1, 12);
    let n = if big { 2 } else { rng.range(1, 6) };
    let mut specs: Vec<Spec> = (0..n).map(|_| Spec::random(rng, "both", if big { 6_000_000 } else { 60_000 }, if big { 20_000_000 } else { 80_000 })).collect();
    if big {
        specs[0].resp_len = rng.range(1_000_000, 20_000_000);
        specs[1].method = "POST";
        specs[1].body = payload("big", rng.range(500_000, 6_000_000));
        specs[1].read = "all".into();
    }
    // an upload whose records come one by one
    let paced = !big && rng.chance(1, 10);
    if paced {
        specs[0].method = "POST";
        specs[0].body = payload("paced", rng.range(40_000, 400_000));
        specs[0].read = rng.pick(&["all", "allcontent", "echo", "string"]).to_string();
        specs[0].resp = if specs[0].read == "echo" { "echo" } else { "str" };
    }
    let record = *rng.pick(&[16384, 16384, 32768, 16383, 5000]);
    let close = rng.chance(1, 3);
    if close {
        specs.last_mut().unwrap().connection = Some("close");
    }
    let d = |w: &str, m: Value| json!({"case": i, "why": w, "requests": specs.iter().map(|s| s.brief()).collect::<Vec<_>>(), "found": m});
    // plain
    let mut want = vec![];
    let Ok(mut cn) = p.plain.conn() else { return };
    for s in &specs {
        // (who answers before the whole request was read needs a client that reads while it sends)
        let (b, mut sock) = (s.bytes(), cn.sock.try_clone().unwrap());
        let got = std::thread::scope(|sc| {
            let _ = sock.set_write_timeout(Some(Duration::from_secs(60)));
            let t = sc.spawn(move || sock.write_all(&b));
            let r = cn.response(60.0, s.method == "HEAD");
            if r.is_err() {
                let _ = cn.sock.shutdown(std::net::Shutdown::Both);
            }
            let _ = t.join();
            r
        });
        match got {
            Ok(r) => want.push(r),
            Err(e) => {
                c().violation("plain-conversation", d("the plain conversation failed", json!(format!("{e:?}"))));
                return;
            }
        }
    }
    drop(cn);
    // TLS
    let v12 = rng.chance(1, 3);
    let fragment = if paced && rng.chance(2, 3) { None } else { *rng.pick(&[None, None, Some(64), Some(512), Some(4096), Some(16384)]) };
    let cut = *rng.pick(&CUTS);
    let depth = if paced { 1 } else { rng.range(1, 4) };
    // the request comes together with the end of the handshake (in 1.2 the server speaks last)
    let early = !v12 && rng.chance(1, 2);
    let notify = close && rng.chance(1, 2);
    let read_max = *rng.pick(&[7, 100, 4096, 16384, 16384]);
    let narrow = p.tls.small && !big && rng.chance(1, 2);
    let how = json!({"tls12": v12, "narrow": narrow, "fragment": fragment, "cut": format!("{cut:?}"), "pipelined": depth, "request_right_behind_the_handshake": early, "close_notify_behind_the_requests": notify, "reads_of_at_most": read_max});
    let r = (|| -> Result<(), String> {
        let r = Rng::new(rng.next(), "cut", i);
        let mut t = if narrow { RawTls::narrow(p.tls.addr, v12, fragment, cut, r) } else { RawTls::new(p.tls.addr, v12, fragment, cut, r) }.map_err(|e| e.to_string())?;
        t.read_max = if big { 16384 } else { read_max };
        t.tls.set_buffer_limit(None);
        let mut k = 0;
        let mut done = 0;
        t.handshake(30, early)?;
        let mut first = early;
        while done < specs.len() {
            let upto = (k + depth).min(specs.len());
            let mut b = vec![];
            for s in &specs[k..upto] {
                b.extend(s.bytes());
            }
            k = upto;
            let pieces = if first { 1 } else { rng.range(1, 3) };
            first = false;
            let mut big_out = vec![];
            let last = notify && k == specs.len();
            let paced = paced && done == 0;
            // (an echo comes back while its request is still being sent)
            let one_by_one = if paced && k == 1 { record } else { b.len().div_ceil(pieces) };
            let mut head = vec![];
            let at = if paced { b.len() - specs[0].body.len().min(b.len()) } else { 0 };
            if paced && k == 1 {
                head.push(&b[..at]);
            }
            let rest = if paced && k == 1 { &b[at..] } else { &b[..] };
            for piece in head.into_iter().chain(rest.chunks(one_by_one)) {
                t.tls.writer().write_all(piece).map_err(|e| e.to_string())?;
                if (b.len() <= 100_000 || one_by_one == record) && !last {
                    t.flush_tls().map_err(|e| format!("write: {e}"))?;
                }
                if one_by_one == record {
                    std::thread::sleep(Duration::from_millis(rng.range(1, 12) as u64));
                    c().count("records_sent_one_by_one", 1);
                }
            }
            if last {
                t.tls.send_close_notify();
            }
            if b.len() > 100_000 {
                // another thread sends while this one reads
                if let Some(h) = t.sending.take() {
                    let _ = h.join();
                }
                while t.tls.wants_write() {
                    t.tls.write_tls(&mut big_out).map_err(|e| e.to_string())?;
                }
                let mut s2 = t.sock.try_clone().unwrap();
                t.sending = Some(std::thread::spawn(move || {
                    let _ = s2.write_all(&big_out);
                }));
            }
            t.flush_tls().map_err(|e| format!("write: {e}"))?;
            for s in &specs[done..k] {
                if big && rng.chance(1, 2) {
                    std::thread::sleep(Duration::from_millis(rng.range(5, 60) as u64));
                }
                let r = t.response(60, s.method == "HEAD").map_err(|e| format!("response {done}: {e}"))?;
                if !same(&r, &want[done]) {
                    return Err(format!("response {done} differs: {} {:?} {} bytes, plain: {} {:?} {} bytes", r.status, r.headers.len(), r.body.len(), want[done].status, want[done].headers.len(), want[done].body.len()));
                }
                done += 1;
                c().count("responses_compared", 1);
            }
        }
        if close {
            let d = Instant::now() + Duration::from_secs(20);
            while !t.eof {
                if !t.step(d)? {
                    return Err("the connection was not closed after the close option".into());
                }
            }
            if !t.buf.is_empty() {
                return Err(format!("bytes nobody asked for: {}", show(&t.buf)));
            }
        }
        Ok(())
    })();
    if let Err(m) = r {
        c().violation(&format!("tls-conversation:{}", if v12 { "1.2" } else { "1.3" }), d(&m, how.clone()));
        return;
    }
    // What the handlers saw.
    for s in &specs {
        let (a, b) = (lock(&p.plog.seen).remove(&s.id), lock(&p.tlog.seen).remove(&s.id));
        let (Some(a), Some(b)) = (a, b) else {
            c().violation("handler-log", d("a handler did not run on one of the servers", json!(s.id)));
            return;
        };
        let eq = a.len() == 1 && b.len() == 1 && a[0].method == b[0].method && a[0].uri == b[0].uri && a[0].version == b[0].version && a[0].headers == b[0].headers && a[0].read == b[0].read && a[0].err == b[0].err && a[0].has_body == b[0].has_body && a[0].body_len == b[0].body_len;
        if !eq {
            c().violation("handler-saw-something-else", d("the handlers of the two servers saw different requests", json!({"id": s.id, "calls": [a.len(), b.len()], "read": [a[0].read.len(), b[0].read.len()], "err": [a[0].err.clone(), b[0].err.clone()], "how": how})));
            return;
        }
        c().count("observations_compared", 1);
    }
    c().count(if v12 { "conversations_tls12" } else { "conversations_tls13" }, 1);
    if big {
        c().count("big_conversations", 1);
    }
    c().eval(Some((v12, fragment, cut, depth, early, notify, read_max, n, big)));
    if i < 2 {
        c().sample(json!({"how": how, "requests": specs.iter().map(|s| s.brief()).collect::<Vec<_>>()}));
    }
}

const BROKEN: [&str; 12] = ["plain-http", "garbage", "zeros", "hello-cut", "hello-then-garbage", "bad-record-later", "client-rejects-certificate", "connect-only", "huge-record", "alert-first", "app-data-first", "reset-in-handshake"];

/// Clients that do not get through the handshake; `limit`: the read timeout.
fn broken(addr: SocketAddr, how: &str, limit: f64, rng: &mut Rng) -> Result<(), Value> {
    let err = |m: String| json!({"client": how, "why": m, "read_timeout_s": limit});
    let mut s = TcpStream::connect_timeout(&addr, Duration::from_secs(10)).map_err(|e| err(e.to_string()))?;
    let _ = s.set_nodelay(true);
    let t0 = Instant::now();
    let hello = || {
        let mut cc = rustls::ClientConnection::new(config(false, false, None), "localhost".try_into().unwrap()).unwrap();
        let mut v = vec![];
        cc.write_tls(&mut v).unwrap();
        v
    };
    let mut w = |s: &mut TcpStream, b: &[u8]| {
        let _ = s.write_all(b);
    };
    match how {
        "plain-http" => w(&mut s, b"GET / HTTP/1.1\r\nHost: x\r\n\r\n"),
        "garbage" => w(&mut s, &rng.bytes(rng.clone().range(1, 3000))),
        "zeros" => w(&mut s, &vec![0; 5000]),
        "hello-cut" => {
            let h = hello();
            w(&mut s, &h[..rng.range(1, h.len() - 1)]);
        }
        "hello-then-garbage" => {
            w(&mut s, &hello());
            w(&mut s, &rng.bytes(300));
        }
        "huge-record" => {
            w(&mut s, &[22, 3, 1, 0xff, 0xff]);
            w(&mut s, &vec![1; 70_000]);
        }
        "alert-first" => w(&mut s, &[21, 3, 3, 0, 2, 2, 40]),
        "app-data-first" => w(&mut s, &[23, 3, 3, 0, 5, 1, 2, 3, 4, 5]),
        "reset-in-handshake" => {
            w(&mut s, &hello());
            std::thread::sleep(Duration::from_millis(rng.below(5) as u64));
            set_linger0(&s);
            return Ok(());
        }
        "bad-record-later" => {
            let mut t = RawTls::new(addr, rng.chance(1, 2), None, Cut::Whole, rng.clone()).map_err(|e| err(e.to_string()))?;
            t.handshake(30, false).map_err(err)?;
            let sp = Spec::simple("before");
            t.tls.writer().write_all(&sp.bytes()).unwrap();
            t.flush_tls().map_err(|e| err(e.to_string()))?;
            t.response(30, false).map_err(err)?;
            // a record whose authentication fails
            w(&mut t.sock, &[23, 3, 3, 0, 40]);
            w(&mut t.sock, &rng.bytes(40));
            s = t.sock;
        }
        "client-rejects-certificate" => {
            let mut cc = rustls::ClientConnection::new(config(rng.chance(1, 2), true, None), "localhost".try_into().unwrap()).unwrap();
            let _ = s.set_read_timeout(Some(Duration::from_secs(10)));
            let _ = cc.complete_io(&mut s);
            let mut v = vec![];
            while cc.wants_write() {
                let _ = cc.write_tls(&mut v);
            }
            w(&mut s, &v);
        }
        "connect-only" => (),
        _ => unreachable!(),
    }
    let end = Instant::now() + Duration::from_secs_f64(limit + 10.0);
    let mut got = vec![];
    let mut tmp = [0; 4096];
    loop {
        let left = end.saturating_duration_since(Instant::now());
        if left.is_zero() {
            return Err(err(format!("the connection was still open {:.1} s later", t0.elapsed().as_secs_f64())));
        }
        let _ = s.set_read_timeout(Some(left));
        match s.read(&mut tmp) {
            Ok(0) => break,
            Ok(n) => got.extend_from_slice(&tmp[..n]),
            Err(e) if matches!(e.kind(), std::io::ErrorKind::WouldBlock | std::io::ErrorKind::TimedOut | std::io::ErrorKind::Interrupted) => continue,
            Err(_) => break,
        }
    }
    let took = t0.elapsed().as_secs_f64();
    if took > limit + 1.5 + 2.0 * c().stalled_since(t0).as_secs_f64() {
        return Err(err(format!("closed only after {took:.1} s")));
    }
    if got.windows(5).any(|w| w == b"HTTP/") {
        return Err(err(format!("an HTTP response in plain text: {}", show(&got))));
    }
    c().count(&format!("broken:{how}"), 1);
    c().eval(Some(("broken", how)));
    Ok(())
}

const KEYS: [(&str, &str); 8] = [("ec_params", "ec_cert"), ("ec_sec1", "ec_cert"), ("ec_p8", "ec_cert"), ("rsa_p1", "rsa_cert"), ("rsa_p8", "rsa_cert"), ("ed_p8", "ed_cert"), ("p384_sec1", "p384_cert"), ("../key", "../cert")];

/// The first certificate of a PEM file, decoded.
fn der(pem: &str) -> Vec<u8> {
    let body = pem.split("-----BEGIN CERTIFICATE-----").nth(1).and_then(|s| s.split("-----END").next()).unwrap_or("");
    let mut v = vec![];
    let (mut acc, mut bits) = (0u32, 0);
    for b in body.bytes() {
        let d = match b {
            b'A'..=b'Z' => b - b'A',
            b'a'..=b'z' => b - b'a' + 26,
            b'0'..=b'9' => b - b'0' + 52,
            b'+' => 62,
            b'/' => 63,
            _ => continue,
        };
        acc = acc << 6 | d as u32;
        bits += 6;
        if bits >= 8 {
            bits -= 8;
            v.push((acc >> bits) as u8);
            acc &= (1 << bits) - 1;
        }
    }
    v
}

/// Files without what is read from them are errors.
fn unusable_files() {
    let dir = std::env::temp_dir().join(format!("vh-c20u-{}", std::process::id()));
    std::fs::create_dir_all(&dir).unwrap();
    let file = |n: &str| std::fs::read_to_string(format!("{}/kinds/{n}.pem", cert_dir())).unwrap();
    let (key, cert) = (file("rsa_p8"), file("rsa_cert"));
    let cut = |s: &str| s[..s.len() / 2].to_string();
    let bad = |s: &str| {
        let at = s.find("\n").unwrap() + 20;
        format!("{}\u{1}*{}", &s[..at], &s[at + 2..])
    };
    let cases: Vec<(&str, Option<String>)> = vec![("missing", None), ("empty", Some(String::new())), ("text", Some("hello\n".into())), ("key cut", Some(cut(&key))), ("certificate cut", Some(cut(&cert))),
        ("the other one", None), ("request", Some(cert.replace("CERTIFICATE", "CERTIFICATE REQUEST"))), ("not base64, key", Some(bad(&key))), ("not base64, certificate", Some(bad(&cert))), ("directory", None)];
    for (what, content) in cases {
        let (kp, cp) = match what {
            "directory" => (dir.clone(), dir.clone()),
            "the other one" => {
                let (k, ce) = (dir.join("is-cert"), dir.join("is-key"));
                std::fs::write(&k, &cert).unwrap();
                std::fs::write(&ce, &key).unwrap();
                (k, ce)
            }
            _ => {
                let p = dir.join(what);
                if let Some(s) = content {
                    std::fs::write(&p, s).unwrap();
                }
                (p.clone(), p)
            }
        };
        let r = std::panic::catch_unwind(|| (wruster::PrivateKey::read_from(kp.to_str().unwrap()).is_ok(), wruster::Certificate::read_from(cp.to_str().unwrap()).is_ok()));
        if !matches!(r, Ok((false, false))) {
            c().violation(&format!("unusable-file:{what}"), json!({"file": what, "key and certificate read": format!("{:?}", r.ok())}));
        }
        c().count("unusable_files", 1);
        c().eval(Some(("unusable", what)));
    }
    let _ = std::fs::remove_dir_all(&dir);
}

/// Servers with every kind of key, read from files that hold other things too.
fn key_kinds(n: usize) {
    let dir = std::env::temp_dir().join(format!("vh-c20-{}", std::process::id()));
    std::fs::create_dir_all(&dir).unwrap();
    par(4, n, "keys", |i, rng| {
        let (k, ct) = KEYS[i as usize % KEYS.len()];
        let file = |n: &str| std::fs::read_to_string(format!("{}/kinds/{n}.pem", cert_dir())).unwrap();
        let (key, cert) = (file(k), file(ct));
        let shape = i as usize / KEYS.len() % 7;
        let name = ["alone", "certificate before the key", "key before the certificate", "text around", "CRLF line ends", "no line end at the end", "the certificate of its authority behind it"][shape];
        let other = file(if ct == "rsa_cert" { "ec_cert" } else { "rsa_cert" });
        let (kf, cf) = match shape {
            1 => (format!("{cert}{key}"), format!("{cert}{key}")),
            2 => (format!("{key}{cert}"), format!("{key}{cert}")),
            3 => (format!("Some text\n# more\n{key}end\n"), format!("Certificate:\n    Data: x\n\n{cert}end\n")),
            4 => (key.replace('\n', "\r\n"), cert.replace('\n', "\r\n")),
            6 => (key, format!("{cert}{other}")),
            5 => (key.trim_end().to_string(), cert.trim_end().to_string()),
            _ => (key, cert),
        };
        let path = |w: &str, s: String| {
            let p = dir.join(format!("{i}.{w}.pem"));
            std::fs::write(&p, s).unwrap();
            p.to_str().unwrap().to_string()
        };
        let want = der(&cf);
        let (kp, cp) = (path("key", kf), path("cert", cf));
        let d = |m: String| json!({"case": i, "key": k, "certificate": ct, "file": name, "why": m});
        let (key, cert) = match (wruster::PrivateKey::read_from(&kp), wruster::Certificate::read_from(&cp)) {
            (Ok(a), Ok(b)) => (a, b),
            (a, b) => return c().violation(&format!("key-file-refused:{k}:{shape}"), d(format!("key: {:?}, certificate: {:?}", a.err(), b.err()))),
        };
        if Vec::from(&cert) != want || Vec::from(&cert.clone()) != want {
            return c().violation("certificate-bytes", d("not those of the file".into()));
        }
        let mut last = String::new();
        let mut srv = None;
        for _ in 0..20 {
            let addr = fresh_addr();
            let mut s = wruster::Server::from_timeouts(timeouts(20_000, 20_000));
            let r = wruster::router::Router::new();
            r.add("/", wruster::http::HttpMethod::POST, Box::new(|q| {
                let mut v = vec![];
                let _ = q.body.as_mut().map(|b| b.read_to_end(&mut v));
                wruster::http::Response::from_content(std::io::Cursor::new(v.clone()), v.len() as u64, mime::TEXT_PLAIN)
            }));
            match s.run_tls(&addr.to_string(), r, key.clone(), cert.clone()) {
                Ok(()) => {
                    srv = Some(Running::adopt(addr, true, s));
                    break;
                }
                Err(e) => last = e.to_string(),
            }
        }
        let Some(srv) = srv else { return c().violation(&format!("key-refused:{k}"), d(last)) };
        for v12 in [false, true] {
            let body = payload("key", rng.range(1, 100_000));
            let got = RawTls::new(srv.addr, v12, None, Cut::Whole, rng.clone()).map_err(|e| e.to_string()).and_then(|mut t| {
                t.tls.set_buffer_limit(None);
                t.handshake(20, false)?;
                t.tls.writer().write_all(&[format!("POST / HTTP/1.1\r\nContent-Length: {}\r\n\r\n", body.len()).as_bytes(), &body].concat()).unwrap();
                t.flush_tls().map_err(|e| e.to_string())?;
                if t.tls.peer_certificates().and_then(|v| v.first()).map(|v| &v.0) != Some(&want) {
                    return Err("not the certificate of the file".into());
                }
                t.response(20, false)
            });
            match got {
                Ok(r) if r.status == 200 && r.body == body => c().count("exchanges_with_kinds_of_keys", 1),
                Ok(r) => c().violation(&format!("key-kind:{k}"), d(format!("status {}, {} bytes", r.status, r.body.len()))),
                Err(e) => c().violation(&format!("key-kind:{k}"), d(format!("TLS 1.{}: {e}", if v12 { 2 } else { 3 }))),
            }
            c().eval(Some(("key", k, name, v12)));
        }
        srv.stop();
        let _ = std::fs::remove_file(&kp);
        let _ = std::fs::remove_file(&cp);
    });
    let _ = std::fs::remove_dir_all(&dir);
}

fn hostile(limit: f64, rounds: usize) {
    let (srv, log) = universal(true, timeouts((limit * 1000.0) as u64, 20_000));
    let beside = good_clients(srv.addr, true, 2, 30.0);
    let calls = log.calls.load(std::sync::atomic::Ordering::SeqCst);
    let _ = calls;
    for r in 0..rounds {
        std::thread::scope(|s| {
            for k in 0..60 {
                let how = BROKEN[k % BROKEN.len()];
                let srv = &srv;
                s.spawn(move || {
                    let mut rng = c().rng("broken", (r * 100 + k) as u64);
                    let mut last = Ok(());
                    for _ in 0..3 {
                        last = broken(srv.addr, how, limit, &mut rng);
                        if last.is_ok() {
                            break;
                        }
                    }
                    if let Err(d) = last {
                        c().violation(&format!("broken-handshake:{how}"), d);
                    }
                });
            }
        });
        if c().stopped() {
            return;
        }
    }
    c().count("good_requests_beside", beside.end());
    if let Err(d) = capacity_probe(&srv, 100, 30) {
        c().violation("capacity-lost", json!({"when": "after broken handshakes", "found": d}));
    } else {
        c().count("capacity_checks", 1);
    }
    if let Some(d) = burning_cpu() {
        c().violation("burning-cpu", json!({"when": "after broken handshakes", "found": d}));
    }
    // stalled handshakes do not cost CPU while they are stalled
    let mut held = vec![];
    for k in 0..40 {
        if let Ok(mut s) = TcpStream::connect(srv.addr) {
            if k % 2 == 0 {
                let _ = s.write_all(&[22, 3, 1, 2]);
            }
            held.push(s);
        }
    }
    let (long, _) = universal(true, timeouts(60_000, 60_000));
    for k in 0..40 {
        if let Ok(mut s) = TcpStream::connect(long.addr) {
            if k % 2 == 0 {
                let _ = s.write_all(&[22, 3, 1, 2]);
            }
            held.push(s);
        }
    }
    std::thread::sleep(Duration::from_millis(100));
    if let Some(d) = burning_cpu() {
        c().violation("burning-cpu", json!({"when": "while handshakes are stalled", "found": d}));
    }
    c().count("stalled_handshakes_watched", held.len() as u64);
    drop(held);
    long.stop_later();
    srv.stop_later();
}

pub fn run() {
    c().rule("a case is distinct by TLS version, record size, cutting into segments, pipelining, data right behind the handshake, close_notify behind the requests and read sizes; broken clients by their kind; keys by their kind, the shape of their file and TLS version");
    c().assume("the TLS client is rustls, driven record by record; TLS versions 1.2 and 1.3");
    c().assume("no claim is made about close_notify at the end of a connection: the property speaks of exchanges");
    // two pairs: one TLS server with small send buffers, one without
    let pairs: Vec<Pair> = (0..2)
        .map(|k| {
            let mut one = || universal(false, timeouts(60_000, 60_000));
            let mut plain = (k == 0).then(&mut one);
            let (tls, tlog) = universal(true, timeouts(60_000, 60_000));
            let (plain, plog) = plain.take().unwrap_or_else(one);
            Pair { plain, plog, tls, tlog }
        })
        .collect();
    par(8, c().n(500, 9000), "conversation", |i, rng| conversation(&pairs[i as usize % 2], i, rng));
    if !c().stopped() {
        unusable_files();
        key_kinds(c().n(56, 560));
    }
    if !c().stopped() {
        hostile(1.5, c().n(2, 25));
    }
    for p in pairs {
        p.plain.stop_later();
        p.tls.stop_later();
    }
    require("responses_compared", 1000);
    require("observations_compared", 1000);
    require("conversations_tls12", 80);
    require("narrow_tls_connections", 30);
    require("conversations_tls13", 200);
    require("big_conversations", 15);
    require("records_sent_one_by_one", 100);
    require("capacity_checks", 1);
    require("exchanges_with_kinds_of_keys", 90);
    require("good_requests_beside", 30);
    for b in BROKEN {
        if b != "reset-in-handshake" {
            require(&format!("broken:{b}"), 5);
        }
    }
}
