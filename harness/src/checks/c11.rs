//! C11: a directory tree with canaries around it, served through the server and called directly.
use super::c09::{normalise, split_query};
use crate::srv::*;
use crate::traffic::*;
use crate::util::*;
use crate::wire::*;
use serde_json::json;
use std::collections::BTreeMap;
use std::fs;
use std::io::Read;
use std::os::unix::fs::symlink;
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::time::{Duration, Instant};
use wruster::http::{HttpMethod, Request};
use wruster::router::HttpHandler;
use wruster_handlers::serve_static;

const CANARY: &str = "CANARY-outside-of-the-served-directory";

pub struct Scratch(pub PathBuf);
impl Scratch {
    pub fn new(name: &str) -> Scratch {
        let base = std::env::temp_dir().join(format!("vh-{name}-{}-{}", std::process::id(), c().seed));
        let _ = fs::remove_dir_all(&base);
        fs::create_dir_all(&base).expect("scratch directory");
        Scratch(base.canonicalize().unwrap())
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = fs::remove_dir_all(&self.0);
    }
}

pub fn fifo(p: &Path) {
    let s = std::ffi::CString::new(p.to_str().unwrap()).unwrap();
    assert_eq!(unsafe { libc::mkfifo(s.as_ptr(), 0o644) }, 0);
}

#[derive(Clone, PartialEq, Debug)]
enum Kind {
    File(Vec<u8>),
    Other,
}

/// Builds the tree; relative path -> what it is.
fn build(top: &Path, rng: &mut Rng) -> (PathBuf, BTreeMap<String, Kind>) {
    let root = top.join("served");
    let mut m = BTreeMap::new();
    fs::create_dir_all(&root).unwrap();
    for (d, f) in [("", "secret"), ("served2", "secret"), ("served-x/sub", "secret"), ("outside", "index.html")] {
        fs::create_dir_all(top.join(d)).unwrap();
        fs::write(top.join(d).join(f), CANARY).unwrap();
    }
    // The names outside also exist inside, with other content.
    let dirs = ["", "sub", "sub/deep", "sub/deep/er", "d.d", "..d", "é", "served", "a%20b"];
    for d in dirs {
        fs::create_dir_all(root.join(d)).unwrap();
        if !d.is_empty() {
            m.insert(d.to_string(), Kind::Other);
        }
        for f in ["index.html", "secret", "a", "b.txt", "...", "..f", ".hidden", "é→.json", "n%2e%2e", "x;y=1", "~", "big.bin", "empty"] {
            if rng.chance(1, 4) && f != "secret" {
                continue;
            }
            let rel = if d.is_empty() { f.to_string() } else { format!("{d}/{f}") };
            let n = match f {
                "empty" => 0,
                "big.bin" if d.len() < 2 => 3_000_000,
                _ => size(rng, 70_000).max(1),
            };
            let content = if rng.chance(1, 2) { payload(&rel, n) } else { rng.bytes(n) };
            fs::write(root.join(&rel), &content).unwrap();
            m.insert(rel, Kind::File(content));
        }
    }
    // Links.
    let inner = match &m["sub/secret"] {
        Kind::File(c) => c.clone(),
        _ => unreachable!(),
    };
    symlink("sub/secret", root.join("link-in")).unwrap();
    m.insert("link-in".into(), Kind::File(inner.clone()));
    symlink("../secret", root.join("sub/link-up")).unwrap();
    if let Kind::File(c) = m["secret"].clone() {
        m.insert("sub/link-up".into(), Kind::File(c));
    }
    symlink("sub", root.join("dirlink-in")).unwrap();
    m.insert("dirlink-in".into(), Kind::Other);
    m.insert("dirlink-in/secret".into(), Kind::File(inner));
    for (name, to) in [("link-out", "../secret"), ("link-abs", top.join("secret").to_str().unwrap()), ("link-prefix", "../served2/secret"), ("link-dirout", "../outside"), ("link-dangling", "nowhere"), ("link-loop", "link-loop"),
        ("link-dev", "/dev/zero"), ("link-top", ".."), ("sub/link-out", "../../secret"), ("link-chain", "sub/link-out")] {
        symlink(to, root.join(name)).unwrap();
        m.insert(name.into(), Kind::Other);
    }
    for n in ["link-dirout/index.html", "link-top/secret", "link-top/served2/secret"] {
        m.insert(n.into(), Kind::Other);
    }
    for f in ["fifo", "sub/fifo.html"] {
        fifo(&root.join(f));
        m.insert(f.into(), Kind::Other);
    }
    std::mem::forget(std::os::unix::net::UnixListener::bind(root.join("sock")).unwrap());
    m.insert("sock".into(), Kind::Other);
    (root, m)
}

fn target(m: &BTreeMap<String, Kind>, keys: &[String], top: &Path, rng: &mut Rng) -> String {
    let key = rng.pick(keys).clone();
    let out = |n: usize| "../".repeat(n);
    let mut t = match rng.below(14) {
        0..=5 => format!("/{key}"),
        6 => format!("/{key}{}", *rng.pick(&["x", ".", "/x", "/.", "/..", "/../secret"])),
        7 => {
            // detours that stay inside
            let mut s = String::new();
            for p in key.split('/') {
                s.push_str(*rng.pick(&["/", "/./", "//", "/sub/../", "/none/../", "///./"]));
                s.push_str(p);
            }
            s
        }
        8 => format!("/{}{}", out(rng.range(1, 8)), *rng.pick(&["secret", "served2/secret", "outside/index.html", "served/secret", "etc/hostname", ""])),
        9 => format!("/sub/{}{}", out(rng.range(1, 6)), *rng.pick(&["secret", "served2/secret", "served-x/sub/secret"])),
        10 => format!("/{}{}", *rng.pick(&["", "/", "//", "./"]), top.join(*rng.pick(&["secret", "served2/secret", "served/secret"])).display()),
        11 => format!("/{}", rng.pick(&["%2e%2e/secret", "..%2fsecret", "..\\secret", "sub/%2e%2e/%2e%2e/secret", "..;/secret", ".../secret", "....//secret", "a/b/c/d/e"])),
        12 => format!("/{}", rng.token(3)),
        _ => (*rng.pick(&["/", "//", "/.", "/sub", "/sub/", "/served", "/..", "/./..", "/fifo", "/link-dev", "/sock"])).to_string(),
    };
    if let Some(Kind::File(_)) = m.get(&key) {
        if rng.chance(1, 6) {
            t.push_str(*rng.pick(&["?", "?x=/../..", "?a=b", "?/../secret"]));
        }
    }
    t
}

fn leak(b: &[u8]) -> bool {
    b.windows(6).any(|w| w == b"CANARY")
}

fn lookup<'a>(m: &'a BTreeMap<String, Kind>, t: &str) -> Option<&'a Kind> {
    let segs = normalise(split_query(t).0)?;
    m.get(&segs.join("/"))
}

pub fn run() {
    c().rule("one evaluation = one path asked from one served tree (through the server over TCP or TLS, or by a direct call) compared with a model of the tree, or one answer for a file that changes meanwhile; distinct by path and way of asking");
    c().assume("names are not percent-decoded.");
    let scratch = Scratch::new("c11");
    for round in 0..c().n(6, 40) {
        let mut rng = c().rng("tree", round as u64);
        let top = scratch.0.join(format!("t{round}"));
        fs::create_dir_all(&top).unwrap();
        let (root, m) = build(&top, &mut rng);
        let keys: Vec<String> = m.keys().cloned().collect();
        let alias = top.join("alias");
        symlink(&root, &alias).unwrap();
        let dir = match round % 3 {
            0 => root.to_str().unwrap().to_string(),
            1 => format!("{}/sub/../", root.display()),
            _ => alias.to_str().unwrap().to_string(),
        };
        let serve = |tls: bool| {
            let dir = dir.clone();
            start_all(tls, timeouts(20_000, 20_000), move |q: &mut Request| serve_static(&dir, q))
        };
        for tls in [false, true] {
            let srv = serve(tls);
            par(if tls { 4 } else { 16 }, c().n(if tls { 12 } else { 150 }, 300), &format!("get-{round}-{tls}"), |_, rng| {
                let Ok(mut conn) = srv.conn() else {
                    c().violation("cannot-connect", json!({"tls": tls}));
                    return;
                };
                for _ in 0..40 {
                    let t = target(&m, &keys, &top, rng);
                    let head = rng.chance(1, 12);
                    let method = if head { "HEAD" } else { "GET" };
                    let d = |why: &str, got: String| json!({"why": why, "target": t, "method": method, "tls": tls, "served": dir, "got": got});
                    let started = Instant::now();
                    conn.try_send(format!("{method} {t} HTTP/1.1\r\nHost: h\r\n\r\n").as_bytes());
                    let r = match conn.response(15.0, head) {
                        Ok(r) => r,
                        Err(e) => {
                            if leak(&conn.buf) {
                                c().violation("leak", d("content of a file outside", show(&conn.buf)));
                            }
                            let blocked = matches!(e, WErr::Timeout(_));
                            if !blocked || c().stalled_since(started) < Duration::from_secs(3) {
                                c().violation(if blocked { "blocked" } else { "no-response" }, d("no response", format!("{e:?}")));
                            }
                            return;
                        }
                    };
                    c().count("answers", 1);
                    c().eval(Some((t.clone(), tls, round)));
                    let got = format!("status {} length {:?} body of {} bytes {}", r.status, r.h("Content-Length"), r.body.len(), show(&r.body[..r.body.len().min(60)]));
                    if leak(&r.body) {
                        c().violation("leak", d("content of a file outside of the directory", got));
                        return;
                    }
                    let full = |content: &Vec<u8>| r.status == 200 && r.h("Content-Length") == Some(&content.len().to_string()) && (head || r.body == *content);
                    match lookup(&m, &t) {
                        Some(Kind::File(content)) => {
                            c().count("files_compared", 1);
                            c().count("bytes_compared", r.body.len() as u64);
                            if !full(content) {
                                c().violation("wrong-content", d(&format!("expected 200 with the {} bytes of the file", content.len()), got));
                            }
                        }
                        _ => {
                            c().count("refused", 1);
                            if r.status < 400 {
                                c().violation("served-what-is-not-there", d("expected an error status", got));
                            }
                        }
                    }
                    if r.h("Connection").map_or(false, |v| v.contains("close")) {
                        break;
                    }
                }
            });
            if let Err(e) = capacity_probe_static(&srv, &m) {
                c().violation("capacity-lost", e);
            }
            srv.stop();
        }
        // Direct calls, also with targets a server would never pass on.
        par(8, c().n(3000, 12000), &format!("direct-{round}"), |i, rng| {
            let t = match rng.below(5) {
                0 => {
                    let t = target(&m, &keys, &top, rng);
                    t.trim_start_matches('/').to_string()
                }
                1 => format!("/{}", target(&m, &keys, &top, rng)),
                2 => (*rng.pick(&["", "/", "..", "../secret", "/../secret", "./../secret", "?", "/?x", "/..?", "sub/../../secret", "/sub/../../served2/secret", "//../secret", "/served/../../secret", "../served2/secret", "sub/../..//secret", "\0", "/a\0b", "/../served/secret"])).to_string(),
                _ => target(&m, &keys, &top, rng),
            };
            let q = Request { method: HttpMethod::GET, uri: t.clone(), version: "HTTP/1.1".into(), headers: Default::default(), body: None };
            let d = |why: &str, got: String| json!({"why": why, "direct_call_with": t, "served": dir, "got": got});
            let r = c().guard("serve_static", 20, || std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                let r = serve_static(&dir, &q);
                let (len, mut b) = (r.body.as_ref().map(|b| b.content_length), vec![]);
                if let Some(mut body) = r.body {
                    // bounded, in case it is a device
                    let e = body.content.by_ref().take(20_000_000).read_to_end(&mut b).err();
                    if let Some(e) = e {
                        b.extend_from_slice(format!("ERROR {e}").as_bytes());
                    }
                }
                (usize::from(&r.status), len, b)
            })));
            c().count("direct_calls", 1);
            c().eval(Some((t.clone(), "direct", i % 3)));
            let Ok((status, len, b)) = r else {
                c().violation("panic", d("serve_static panicked", format!("{:?}", lock(&c().unplanned_panics).last())));
                return;
            };
            let got = format!("status {status} length {len:?} body of {} bytes {}", b.len(), show(&b[..b.len().min(60)]));
            if leak(&b) {
                c().violation("leak", d("content of a file outside of the directory", got));
                return;
            }
            // Content is only ever the one of a file inside.
            if status == 200 && !m.values().any(|k| matches!(k, Kind::File(x) if *x == b)) {
                c().violation("wrong-content", d("content that is not the one of any file inside", got.clone()));
            }
            if t.starts_with('/') && !t.starts_with("//") && !t.contains('\0') {
                match lookup(&m, &t) {
                    Some(Kind::File(x)) if !(status == 200 && b == *x && len == Some(x.len() as u64)) => c().violation("wrong-content", d("not the file", got)),
                    None | Some(Kind::Other) if status < 400 => c().violation("served-what-is-not-there", d("expected an error status", got)),
                    _ => (),
                }
            }
        });
        // Directories that cannot be served.
        for (bad, t) in [(top.join("none").display().to_string(), "/a"), (top.join("none").display().to_string(), "/secret"), (root.join("secret").display().to_string(), "/"), (root.join("secret").display().to_string(), "/x"), (top.join("none").display().to_string(), "/../secret"), (String::new(), "/secret")] {
            let q = Request { method: HttpMethod::GET, uri: t.into(), version: "HTTP/1.1".into(), headers: Default::default(), body: None };
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| usize::from(&serve_static(&bad, &q).status)));
            c().eval(Some(("bad-dir", bad.len(), t)));
            if !matches!(r, Ok(s) if s >= 400) {
                c().violation("bad-directory", json!({"served": bad, "target": t, "got": format!("{r:?}")}));
            }
        }
        changing(&root, &dir, round as u64);
        if round % 3 == 0 {
            flipping(&root, &dir, round as u64);
        }
        if round == 0 {
            large_and_deep(&root, &dir);
        }
        let _ = fs::remove_dir_all(&top);
    }
    require("files_compared", 1500);
    require("refused", 1000);
    require("direct_calls", 1000);
    require("versions_seen", 20);
    require("links_seen_inside", 20);
    require("links_seen_elsewhere", 20);
}

/// After all those requests nothing is blocked.
fn capacity_probe_static(srv: &Running, m: &BTreeMap<String, Kind>) -> Result<(), serde_json::Value> {
    let Kind::File(want) = &m["secret"] else { return Ok(()) };
    let start = Instant::now();
    loop {
        let mut conns = vec![];
        for _ in 0..100 {
            if let Ok(mut cn) = srv.conn() {
                cn.try_send(b"GET /secret HTTP/1.1\r\n\r\n");
                conns.push(cn);
            }
        }
        let good = conns.iter_mut().map(|cn| cn.response(10.0, false)).filter(|r| matches!(r, Ok(r) if r.body == *want)).count();
        if good == 100 {
            c().count("capacity_probes", 1);
            return Ok(());
        }
        drop(conns);
        if start.elapsed() > Duration::from_secs(20) {
            return Err(json!({"of_100_connections_at_once_answered": good}));
        }
        std::thread::sleep(Duration::from_millis(100));
    }
}

/// Links that change, from something inside to something outside and back, while they are followed.
fn flipping(root: &Path, dir: &str, round: u64) {
    let inside = fs::read(root.join("secret")).unwrap();
    let inside_sub = fs::read(root.join("sub/secret")).unwrap();
    let stop = AtomicBool::new(false);
    std::thread::scope(|s| {
        for (name, targets) in [("flip", ["secret", "../secret", "nowhere", "sub/secret"]), ("flip-dir", ["sub", "../outside", "..", "sub/deep"])] {
            let stop = &stop;
            s.spawn(move || {
                let mut k = 0;
                while !stop.load(SeqCst) {
                    let tmp = root.join(format!("{name}.tmp"));
                    let _ = fs::remove_file(&tmp);
                    symlink(targets[k % 4], &tmp).unwrap();
                    fs::rename(&tmp, root.join(name)).unwrap();
                    k += 1;
                }
                c().count("links_flipped", k as u64);
            });
        }
        let end = Instant::now() + Duration::from_millis(c().n(700, 4000) as u64);
        let readers: Vec<_> = (0..4u64)
            .map(|t| {
                let (inside, inside_sub) = (&inside, &inside_sub);
                s.spawn(move || {
                    while Instant::now() < end && !c().stopped() {
                        let uri = if t % 2 == 0 { "/flip" } else { "/flip-dir/secret" };
                        let q = Request { method: HttpMethod::GET, uri: uri.into(), version: "HTTP/1.1".into(), headers: Default::default(), body: None };
                        let r = serve_static(dir, &q);
                        let status = usize::from(&r.status);
                        let mut b = vec![];
                        if let Some(mut body) = r.body {
                            let _ = body.content.by_ref().take(1_000_000).read_to_end(&mut b);
                        }
                        if leak(&b) {
                            c().violation("leak", json!({"why": "content of a file outside of the directory, by a link that was changed meanwhile", "target": uri, "served": dir}));
                        } else if status == 200 && b != *inside && b != *inside_sub && !root.join("sub/deep/secret").exists() {
                            c().violation("wrong-content", json!({"why": "not what any of the targets of the link holds", "target": uri, "bytes": b.len()}));
                        }
                        c().count(if status == 200 { "links_seen_inside" } else { "links_seen_elsewhere" }, 1);
                        c().eval(Some(("flip", uri, status, round)));
                    }
                })
            })
            .collect();
        for r in readers {
            let _ = r.join();
        }
        stop.store(true, SeqCst);
    });
}

/// A file whose length takes more than 32 bits, and one far below the root.
fn large_and_deep(root: &Path, dir: &str) {
    let len: u64 = (5 << 30) + 12_345;
    let big = root.join("huge.bin");
    let made = fs::File::create(&big).and_then(|f| f.set_len(len));
    let mut deep = String::new();
    for i in 0..120 {
        deep.push_str(&format!("/level-{i:0>9}"));
    }
    fs::create_dir_all(root.join(&deep[1..])).unwrap();
    fs::write(root.join(format!("{}/file.txt", &deep[1..])), b"deep").unwrap();
    let srv = {
        let dir = dir.to_string();
        start_all(false, timeouts(10_000, 10_000), move |q: &mut Request| serve_static(&dir, q))
    };
    if made.is_ok() {
        let mut conn = srv.conn().unwrap();
        conn.try_send(b"HEAD /huge.bin HTTP/1.1\r\n\r\n");
        let r = conn.response(10.0, true);
        let ok = matches!(&r, Ok(r) if r.status == 200 && r.h("Content-Length") == Some(&len.to_string()));
        c().eval(Some(("huge", len)));
        if !ok {
            c().violation("wrong-content", json!({"why": "the length of a file of more than 4 GiB", "expected": len, "got": clip(&format!("{r:?}"), 300)}));
        }
        c().count("huge_files", 1);
    }
    let mut conn = srv.conn().unwrap();
    conn.try_send(format!("GET {deep}/file.txt HTTP/1.1\r\n\r\n").as_bytes());
    let r = conn.response(10.0, false);
    c().eval(Some(("deep", deep.len())));
    if !matches!(&r, Ok(r) if r.status == 200 && r.body == b"deep") {
        c().violation("wrong-content", json!({"why": "a file far below the served directory", "depth": 121, "got": clip(&format!("{r:?}"), 300)}));
    }
    srv.stop();
    let _ = fs::remove_file(&big);
}

/// Files that are replaced, appended to and truncated while they are served.
fn changing(root: &Path, dir: &str, round: u64) {
    let srv = {
        let dir = dir.to_string();
        start_all(false, timeouts(10_000, 10_000), move |q: &mut Request| serve_static(&dir, q))
    };
    let version = |k: u64| payload(&format!("v{round}-{k}-"), 1 + ((k * 7919) % 150_000) as usize);
    let mark = |k: u64| {
        let mut v = format!("[{k}]").into_bytes();
        v.extend(version(k));
        v
    };
    // Current content: what was written before the request is what comes.
    let mut conn = srv.conn().unwrap();
    // Also when neither the length nor the times tell the versions apart.
    let same = |k: u64| format!("{k:0>w$}", w = [4, 300, 5000][round as usize % 3]).into_bytes();
    for k in 0..c().n(12, 60) as u64 {
        let (p, tmp) = (root.join("same.txt"), root.join("same.tmp"));
        let put = |p: &Path| -> std::io::Result<()> {
            fs::write(p, same(k))?;
            let t = std::time::UNIX_EPOCH + Duration::from_secs(1_600_000_000);
            fs::File::options().write(true).open(p)?.set_times(fs::FileTimes::new().set_modified(t).set_accessed(t))
        };
        if k % 2 == 0 {
            put(&tmp).unwrap();
            fs::rename(&tmp, &p).unwrap();
        } else {
            put(&p).unwrap();
        }
        conn.try_send(b"GET /same.txt HTTP/1.1\r\n\r\n");
        match conn.response(10.0, false) {
            Ok(r) if r.status == 200 && r.body == same(k) => c().count("current_versions_of_the_same_length_and_time", 1),
            o => {
                c().violation("not-current", json!({"version": k, "what": "a version of the same length and modification time", "got": clip(&format!("{:?}", o.map(|r| (r.status, r.body.len(), show(&r.body[..r.body.len().min(40)])))), 300)}));
                break;
            }
        }
    }
    let _ = fs::remove_file(root.join("same.txt"));
    for k in 0..c().n(40, 300) as u64 {
        let p = root.join("current.txt");
        if k % 2 == 0 {
            let tmp = root.join("current.tmp");
            fs::write(&tmp, mark(k)).unwrap();
            fs::rename(&tmp, &p).unwrap();
        } else {
            fs::write(&p, mark(k)).unwrap();
        }
        conn.try_send(b"GET /current.txt HTTP/1.1\r\n\r\n");
        match conn.response(10.0, false) {
            Ok(r) if r.status == 200 && r.body == mark(k) => c().count("current_versions", 1),
            o => {
                c().violation("not-current", json!({"version": k, "expected_len": mark(k).len(), "got": clip(&format!("{:?}", o.map(|r| (r.status, r.body.len(), show(&r.body[..r.body.len().min(40)])))), 300)}));
                break;
            }
        }
    }
    let p = root.join("current.txt");
    fs::remove_file(&p).unwrap();
    conn.try_send(b"GET /current.txt HTTP/1.1\r\n\r\n");
    if !matches!(conn.response(10.0, false), Ok(r) if r.status >= 400) {
        c().violation("not-current", json!({"what": "a removed file"}));
    }
    // Replaced by renaming while it is served: always one whole version. Changed in place: consistent framing.
    fs::write(root.join("swap"), mark(0)).unwrap();
    let text = payload("grow", 400_000);
    fs::write(root.join("grow"), &text[..1000]).unwrap();
    let stop = AtomicBool::new(false);
    let newest = AtomicU64::new(0);
    std::thread::scope(|s| {
        s.spawn(|| {
            let mut k = 1;
            while !stop.load(SeqCst) {
                let tmp = root.join("swap.tmp");
                fs::write(&tmp, mark(k)).unwrap();
                fs::rename(&tmp, root.join("swap")).unwrap();
                newest.store(k, SeqCst);
                k += 1;
                use std::io::Write;
                let mut f = fs::OpenOptions::new().append(true).open(root.join("grow")).unwrap();
                let len = f.metadata().unwrap().len() as usize;
                if len > 390_000 || k % 17 == 0 {
                    let _ = f.set_len(500);
                } else {
                    let _ = f.write_all(&text[len..len + 1000]);
                }
            }
        });
        let readers: Vec<_> = (0..6)
            .map(|t| {
                let (srv, newest) = (&srv, &newest);
                let text = &text;
                s.spawn(move || {
                    let mut seen = std::collections::HashSet::new();
                    let mut conn = srv.conn().unwrap();
                    for i in 0..c().n(150, 1500) {
                        if c().stopped() {
                            break;
                        }
                        let swap = (i + t) % 3 != 0;
                        let oldest = newest.load(SeqCst);
                        conn.try_send(if swap { b"GET /swap HTTP/1.1\r\n\r\n" } else { b"GET /grow HTTP/1.1\r\n\r\n" });
                        let r = conn.response(15.0, false);
                        match r {
                            Ok(r) if swap => {
                                let k: Option<u64> = std::str::from_utf8(&r.body[1..r.body.iter().position(|b| *b == b']').unwrap_or(1)]).ok().and_then(|s| s.parse().ok());
                                let ok = r.status == 200 && k.map_or(false, |k| r.body == mark(k) && k >= oldest);
                                if let Some(k) = k {
                                    seen.insert(k);
                                }
                                if !ok {
                                    c().violation("mixed-versions", json!({"status": r.status, "len": r.body.len(), "start": show(&r.body[..r.body.len().min(40)]), "at_least_version": oldest}));
                                }
                            }
                            Ok(r) => {
                                if r.status != 200 || r.body != text[..r.body.len().min(text.len())] {
                                    c().violation("wrong-content", json!({"what": "a file that grows", "status": r.status, "len": r.body.len()}));
                                }
                            }
                            Err(WErr::Eof(_)) if !swap => conn = srv.conn().unwrap(),
                            Err(e) => {
                                c().violation("no-response", json!({"file": if swap { "replaced by renaming" } else { "changed in place" }, "got": format!("{e:?}")}));
                                break;
                            }
                        }
                        c().eval(Some(("changing", swap, i, t)));
                    }
                    seen
                })
            })
            .collect();
        let mut all = std::collections::HashSet::new();
        for r in readers {
            all.extend(r.join().unwrap_or_default());
        }
        stop.store(true, SeqCst);
        c().count("versions_seen", all.len() as u64);
    });
    srv.stop();
    let _: Option<HttpHandler> = None;
}
