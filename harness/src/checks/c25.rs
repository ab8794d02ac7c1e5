//! C25: a server in a process of its own, under signals, stop and continue, missing file descriptors and aborted connections.
use crate::rawsrv::*;
use crate::srv::*;
use crate::traffic::*;
use crate::util::*;
use crate::wire::*;
use serde_json::{json, Value};
use std::collections::HashSet;
use std::io::{BufRead, BufReader, Cursor, Read, Write};
use std::net::{SocketAddr, TcpStream};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};
use wruster::http::client::Client;
use wruster::http::headers::{Header, Headers};
use wruster::http::{Body, HttpMethod, Request};
use wruster::router::Router;
use wruster::Server;

// ---------------------------------------------------------------- the child

extern "C" fn nothing(_: libc::c_int) {}

static SIGNALS: AtomicU64 = AtomicU64::new(0);

fn open_fds() -> u64 {
    // the listing itself uses one
    std::fs::read_dir("/proc/self/fd").map_or(0, |d| d.count() as u64 - 1)
}
fn set_limit(n: u64) {
    unsafe {
        let mut l = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::getrlimit(libc::RLIMIT_NOFILE, &mut l);
        l.rlim_cur = n.min(l.rlim_max);
        libc::setrlimit(libc::RLIMIT_NOFILE, &l);
    }
}
/// Sends a signal that only interrupts to the threads of this process, one after another.
fn storm(stop: Arc<AtomicBool>, pause_us: u64) {
    let me = unsafe { libc::syscall(libc::SYS_gettid) };
    let pid = std::process::id() as libc::c_long;
    let mut rng = c().rng("storm", 0);
    let mut tids: Vec<libc::c_long> = vec![];
    let mut k = 0;
    while !stop.load(SeqCst) {
        if k % 64 == 0 || tids.is_empty() {
            if let Ok(d) = std::fs::read_dir("/proc/self/task") {
                tids = d.flatten().filter_map(|e| e.file_name().to_str().and_then(|s| s.parse().ok())).filter(|t| *t != me).collect();
            }
        }
        k += 1;
        if !tids.is_empty() {
            let t = *rng.pick(&tids);
            unsafe { libc::syscall(libc::SYS_tgkill, pid, t, libc::SIGUSR1) };
            SIGNALS.fetch_add(1, SeqCst);
        }
        if pause_us > 0 {
            std::thread::sleep(Duration::from_micros(pause_us));
        }
    }
}

fn client_calls(addr: &str, n: usize, seed: u64) -> Value {
    let client = Client::new();
    let mut rng = Rng::new(seed, "client", 0);
    let mut errors = vec![];
    for k in 0..n {
        let max = if rng.chance(1, 6) { 3_000_000 } else { 40_000 };
        let body = body_bytes(&mut rng, max);
        let mut headers = Headers::new();
        headers.add(Header { name: "Content-Length".into(), value: body.len().to_string() });
        let q = Request { method: HttpMethod::POST, uri: format!("/e{k}"), version: "HTTP/1.1".into(), headers, body: Some(Body::new(None, body.len() as u64, Box::new(Cursor::new(body.clone())))) };
        let r = catch_unwind(AssertUnwindSafe(|| -> Result<(), String> {
            let mut r = client.run(addr, q).map_err(|e| format!("{e:?}"))?;
            let mut got = vec![];
            if let Some(b) = r.body.as_mut() {
                b.read_to_end(&mut got).map_err(|e| format!("body: {e}"))?;
            }
            if got != body { Err(format!("{} bytes instead of {}", got.len(), body.len())) } else { Ok(()) }
        }));
        match r {
            Ok(Ok(())) => (),
            Ok(Err(e)) => errors.push(e),
            Err(_) => errors.push("panic".into()),
        }
    }
    json!({"calls": n, "errors": errors})
}

/// Obeys commands, one JSON array per line.
pub fn child() -> ! {
    unsafe {
        let mut sa: libc::sigaction = std::mem::zeroed();
        sa.sa_sigaction = nothing as *const () as usize;
        sa.sa_flags = 0;
        libc::sigaction(libc::SIGUSR1, &sa, std::ptr::null_mut());
        // when the parent goes, so does this process
        libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
    }
    let normal = {
        let mut l = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        unsafe { libc::getrlimit(libc::RLIMIT_NOFILE, &mut l) };
        l.rlim_cur
    };
    let mut servers: Vec<Option<(Running, VLog)>> = vec![];
    let mut stop: Option<(Arc<AtomicBool>, std::thread::JoinHandle<()>)> = None;
    let stdin = std::io::stdin();
    let mut lines = stdin.lock().lines();
    loop {
        let line = match lines.next() {
            Some(Ok(l)) => l,
            Some(Err(e)) if e.kind() == std::io::ErrorKind::Interrupted => continue,
            _ => std::process::exit(0),
        };
        let v: Value = serde_json::from_str(&line).unwrap();
        let n = |k: usize| v[k].as_u64().unwrap_or(0);
        let reply = match v[0].as_str().unwrap() {
            "start" => {
                let (s, log) = universal(n(1) == 1, timeouts(n(2), n(3)));
                let a = s.addr.to_string();
                servers.push(Some((s, log)));
                json!(a)
            }
            "storm" => {
                let f = Arc::new(AtomicBool::new(false));
                let (f2, us) = (f.clone(), n(1));
                stop = Some((f, std::thread::spawn(move || storm(f2, us))));
                json!("ok")
            }
            "calm" => {
                if let Some((f, h)) = stop.take() {
                    f.store(true, SeqCst);
                    let _ = h.join();
                }
                json!(SIGNALS.load(SeqCst))
            }
            "fds" => json!(open_fds()),
            // `extra` more descriptors than now
            "limit" => {
                // (the lowest number that is free is what counts)
                let max = std::fs::read_dir("/proc/self/fd").unwrap().flatten().filter_map(|e| e.file_name().to_str().and_then(|s| s.parse::<u64>().ok())).collect::<Vec<u64>>();
                // (the directory just read is closed again)
                let max: HashSet<u64> = max.into_iter().filter(|fd| unsafe { libc::fcntl(*fd as i32, libc::F_GETFD) } >= 0).collect();
                let mut lim = 0;
                let mut free = 0;
                while free < n(1) + 1 {
                    if !max.contains(&lim) {
                        free += 1;
                    }
                    lim += 1;
                }
                set_limit(lim - 1);
                json!(lim - 1)
            }
            "unlimit" => {
                set_limit(normal);
                json!("ok")
            }
            "log" => {
                let mut ids = vec![];
                for (_, log) in servers.iter().flatten() {
                    for (id, v) in lock(&log.seen).iter() {
                        ids.push(json!([id, v.len()]));
                    }
                }
                let panics = c().unplanned();
                json!({"ids": ids, "panics": panics})
            }
            "client" => client_calls(v[1].as_str().unwrap(), n(2) as usize, n(3)),
            "tryrun" => {
                let addr = fresh_addr();
                let mut s = Server::new();
                let r = catch_unwind(AssertUnwindSafe(|| s.run(&addr.to_string(), Router::new()).map_err(|e| e.to_string())));
                match r {
                    Err(_) => json!("panic"),
                    Ok(Ok(())) => {
                        let r = shutdown_in(s, 30);
                        json!(["running", format!("{r:?}")])
                    }
                    Ok(Err(e)) => {
                        // it must be possible to start it later
                        set_limit(normal);
                        let r = catch_unwind(AssertUnwindSafe(|| s.run(&addr.to_string(), Router::new()).map_err(|e| e.to_string())));
                        let later = matches!(r, Ok(Ok(())));
                        if later {
                            let _ = shutdown_in(s, 30);
                        }
                        json!(["error", e, later])
                    }
                }
            }
            "cpu" => {
                let mut u: libc::rusage = unsafe { std::mem::zeroed() };
                unsafe { libc::getrusage(libc::RUSAGE_SELF, &mut u) };
                json!((u.ru_utime.tv_sec + u.ru_stime.tv_sec) as f64 + (u.ru_utime.tv_usec + u.ru_stime.tv_usec) as f64 / 1e6)
            }
            "shutdown" => match servers[n(1) as usize].take() {
                Some((mut r, log)) => {
                    let res = r.shutdown_in(n(2));
                    servers[n(1) as usize] = None;
                    drop(log);
                    json!(format!("{res:?}"))
                }
                None => json!("no server"),
            },
            x => json!(format!("unknown command {x}")),
        };
        let mut out = std::io::stdout().lock();
        let _ = writeln!(out, "{reply}");
        let _ = out.flush();
    }
}

// ---------------------------------------------------------------- the parent

struct Proc {
    child: Child,
    io: Mutex<(ChildStdin, BufReader<ChildStdout>)>,
}
impl Proc {
    fn new() -> Proc {
        let mut child = Command::new(std::env::current_exe().unwrap()).args(["C25", "child"]).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().expect("child");
        let io = Mutex::new((child.stdin.take().unwrap(), BufReader::new(child.stdout.take().unwrap())));
        Proc { child, io }
    }
    fn cmd(&self, v: Value) -> Value {
        let mut io = lock(&self.io);
        let what = format!("command {v} to the server process");
        let mut line = String::new();
        let r = c().guard(&what, 120, || writeln!(io.0, "{v}").and_then(|_| io.1.read_line(&mut line)));
        match (r, serde_json::from_str(&line)) {
            (Ok(_), Ok(v)) => v,
            (r, _) => {
                c().violation("process-ended", json!({"why": "the server process ended", "during": what, "found": format!("{r:?} {line:?}")}));
                finish();
            }
        }
    }
    fn kill(&self, sig: i32) {
        unsafe { libc::kill(self.child.id() as i32, sig) };
    }
    fn start(&self, tls: bool, read_ms: u64, write_ms: u64) -> SocketAddr {
        self.cmd(json!(["start", tls as u64, read_ms, write_ms])).as_str().and_then(|s| s.parse().ok()).expect("address")
    }
    fn alive(&mut self, when: &str) -> bool {
        match self.child.try_wait() {
            Ok(None) => true,
            r => {
                c().violation("process-ended", json!({"why": "the server process ended", "when": when, "found": format!("{r:?}")}));
                false
            }
        }
    }
    /// Every request exactly once, nothing else, no panic.
    fn check_log(&self, sent: &HashSet<String>, maybe: &HashSet<String>, when: &str) {
        let l = self.cmd(json!(["log"]));
        let mut seen = HashSet::new();
        for x in l["ids"].as_array().unwrap() {
            let (id, n) = (x[0].as_str().unwrap().to_string(), x[1].as_u64().unwrap());
            if n != 1 || !(sent.contains(&id) || maybe.contains(&id)) {
                c().violation("handler-log", json!({"when": when, "id": id, "times": n, "sent": sent.contains(&id)}));
                return;
            }
            seen.insert(id);
        }
        if let Some(id) = sent.iter().find(|id| !seen.contains(*id)) {
            c().violation("handler-log", json!({"when": when, "id": id, "times": 0}));
        }
        if l["panics"].as_array().map_or(0, |v| v.len()) > 0 {
            c().violation("panic-in-the-server", json!({"when": when, "panics": l["panics"]}));
        }
        c().count("handler_calls_accounted_for", seen.len() as u64);
    }
}
impl Drop for Proc {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

/// Conversations that must all be complete and exact.
fn traffic(addrs: &[(SocketAddr, bool)], n: usize, salt: &str, when: &str) -> HashSet<String> {
    let sent: Mutex<HashSet<String>> = Default::default();
    par(8, n, salt, |i, rng| {
        let (a, tls) = addrs[rng.below(addrs.len())];
        let big = rng.chance(1, 8);
        let mut specs: Vec<Spec> = (0..rng.range(1, 6)).map(|_| Spec::random(rng, "f", if big { 3_000_000 } else { 60_000 }, if big { 8_000_000 } else { 60_000 })).collect();
        for s in specs.iter_mut() {
            if !s.body.is_empty() && s.method != "HEAD" && rng.chance(1, 3) {
                s.resp = "echo";
                s.read = "echo".into();
            }
            if rng.chance(1, 6) {
                s.delay_ms = rng.below(30) as u64;
            }
        }
        if big {
            specs.truncate(2);
        }
        let d = |sig: &str, m: Value| c().violation(&format!("{when}:{sig}"), json!({"case": i, "tls": tls, "found": m, "requests": specs.iter().map(|s| s.brief()).collect::<Vec<_>>()}));
        let mut cn = match Conn::open(a, tls) {
            Ok(cn) => cn,
            Err(e) => return d("no-connection", json!(e.to_string())),
        };
        if big && rng.chance(1, 2) {
            set_buf(&cn.sock, true, 150_000);
        }
        let seg = *rng.pick(&SEGS);
        let depth = rng.range(1, 4);
        {
            let mut s = lock(&sent);
            s.extend(specs.iter().map(|s| s.id.clone()));
        }
        if let Err((sig, m)) = drive(&mut cn, &specs, depth, seg, rng, 60.0) {
            return d(&sig, m);
        }
        c().count(&format!("conversations:{when}"), 1);
        if i < 2 {
            c().sample(json!({"fault": when, "tls": tls, "requests": specs.iter().map(|s| s.brief()).collect::<Vec<_>>()}));
        }
        c().count(&format!("exchanges:{when}"), specs.len() as u64);
        c().eval(Some((when.to_string(), tls, specs.len(), depth, format!("{seg:?}"), big, i)));
    });
    sent.into_inner().unwrap()
}

/// 100 requests at the same time.
fn capacity(a: SocketAddr, tls: bool, when: &str, maybe: &mut HashSet<String>) {
    let end = Instant::now() + Duration::from_secs(30);
    let mut last = Value::Null;
    while Instant::now() < end {
        let mut conns = vec![];
        for _ in 0..100 {
            let mut s = Spec::simple("cap");
            s.delay_ms = 600;
            s.connection = Some("close");
            maybe.insert(s.id.clone());
            let Ok(mut cn) = Conn::open(a, tls) else { continue };
            cn.try_send(&s.bytes());
            conns.push((cn, s));
        }
        let mut ok = 0;
        for (cn, s) in conns.iter_mut() {
            match cn.response(20.0, false) {
                Ok(r) if s.check(&r).is_ok() => ok += 1,
                r => last = json!(format!("{:?}", r.map(|r| r.status))),
            }
        }
        if ok == 100 {
            c().count("capacity_checks", 1);
            return;
        }
        last = json!({"answered": ok, "last_problem": last});
        std::thread::sleep(Duration::from_millis(200));
    }
    c().violation(&format!("{when}:capacity-lost"), json!({"when": when, "found": format!("{last:?}")}));
}

fn echo_server() -> RawServer {
    RawServer::start([127, 0, 0, 1].into(), |_, s| {
        let mut rng = c().rng("echo", s.peer_addr().map_or(0, |a| a.port() as u64));
        let _ = s.set_nodelay(true);
        let mut r = ReqReader::new(s);
        r.max = 20_000;
        while let Ok(Some(q)) = r.request() {
            let mut b = format!("HTTP/1.1 200 OK\r\nContent-Length: {}\r\n\r\n", q.body.len()).into_bytes();
            b.extend_from_slice(&q.body);
            let pieces = rng.range(1, 12);
            if write_in_pieces(&mut r.sock, &b, pieces, 2000, &mut rng).is_err() {
                break;
            }
        }
    })
}

fn client_in(p: &Proc, when: &str, calls: usize) {
    let e = echo_server();
    let v = p.cmd(json!(["client", e.addr.to_string(), calls, c().seed]));
    if v["errors"].as_array().map_or(true, |e| !e.is_empty()) {
        c().violation(&format!("{when}:client-call"), json!({"when": when, "found": v}));
    } else {
        c().count(&format!("client_calls:{when}"), calls as u64);
    }
}

/// Timeouts hold although system calls are interrupted again and again.
fn timeouts_hold(a: SocketAddr, limit: f64, when: &str) {
    let mut last = Ok(());
    for _ in 0..3 {
        let t = Instant::now();
        last = (|| -> Result<(), String> {
            let silent = Conn::connect(a).map_err(|e| e.to_string())?;
            let mut part = Conn::connect(a).map_err(|e| e.to_string())?;
            part.try_send(b"GET /v HTT");
            for (what, mut cn) in [("silent", silent), ("half a request", part)] {
                cn.until_eof(limit + 15.0).map_err(|e| format!("{what}: {e:?}"))?;
                let s = t.elapsed().as_secs_f64();
                if s > limit + 1.5 + 2.0 * c().stalled_since(t).as_secs_f64() {
                    return Err(format!("{what}: closed after {s:.2} s, the limit is {limit} s"));
                }
                if s < limit * 0.9 {
                    return Err(format!("{what}: closed after only {s:.2} s, the limit is {limit} s"));
                }
                if what == "silent" && !cn.buf.is_empty() {
                    return Err(format!("{what}: {}", show(&cn.buf)));
                }
            }
            Ok(())
        })();
        if last.is_ok() {
            c().count("timeouts_held", 1);
            return;
        }
    }
    c().violation(&format!("{when}:timeout"), json!({"when": when, "found": format!("{last:?}")}));
}

fn signals(round: usize) {
    let mut p = Proc::new();
    let addrs = [(p.start(false, 60_000, 60_000), false), (p.start(true, 60_000, 60_000), true)];
    let short = p.start(false, 1200, 1200);
    let us = [0, 20, 100, 400][round % 4];
    p.cmd(json!(["storm", us]));
    let sent = std::thread::scope(|s| {
        s.spawn(|| timeouts_hold(short, 1.2, "signals"));
        traffic(&addrs, c().n(60, 150), &format!("signals{round}"), "signals")
    });
    client_in(&p, "signals", c().n(25, 60));
    // shutdown of one while interrupted
    let t = Instant::now();
    let r = p.cmd(json!(["shutdown", 2, 30]));
    if r != json!("Some(Ok(()))") {
        c().violation("signals:shutdown", json!({"found": r, "after_s": t.elapsed().as_secs_f64()}));
    }
    let mut maybe = HashSet::new();
    capacity(addrs[0].0, false, "signals", &mut maybe);
    let n = p.cmd(json!(["calm"]));
    c().count("signals_sent", n.as_u64().unwrap_or(0));
    if p.alive("signals") && !c().violated() {
        p.check_log(&sent, &maybe, "signals");
    }
}

fn stop_and_continue(round: usize) {
    let mut p = Proc::new();
    let addrs = [(p.start(false, 60_000, 60_000), false), (p.start(true, 60_000, 60_000), true)];
    let done = AtomicBool::new(false);
    let (mut sent, stops) = (HashSet::new(), AtomicU64::new(0));
    std::thread::scope(|s| {
        s.spawn(|| {
            let mut rng = c().rng("stop", round as u64);
            while !done.load(SeqCst) {
                p.kill(libc::SIGSTOP);
                std::thread::sleep(Duration::from_micros(rng.range(0, 12_000) as u64));
                p.kill(libc::SIGCONT);
                stops.fetch_add(1, SeqCst);
                std::thread::sleep(Duration::from_micros(rng.range(500, 8_000) as u64));
            }
        });
        sent = traffic(&addrs, c().n(50, 150), &format!("stop{round}"), "stop");
        client_in(&p, "stop", c().n(20, 60));
        done.store(true, SeqCst);
    });
    c().count("stops_and_continues", stops.load(SeqCst));
    let mut maybe = HashSet::new();
    capacity(addrs[0].0, false, "stop", &mut maybe);
    if p.alive("stop") && !c().violated() {
        p.check_log(&sent, &maybe, "stop");
    }
}

/// A conversation that goes on, exchange by exchange.
struct Talk {
    cn: Conn,
    n: usize,
}
impl Talk {
    fn step(&mut self, rng: &mut Rng, ids: &mut HashSet<String>) -> Result<(), (String, Value)> {
        let mut specs: Vec<Spec> = (0..rng.range(1, 3)).map(|_| Spec::random(rng, "t", 30_000, 60_000)).collect();
        for s in specs.iter_mut() {
            s.delay_ms = rng.below(3) as u64;
        }
        ids.extend(specs.iter().map(|s| s.id.clone()));
        self.n += specs.len();
        drive(&mut self.cn, &specs, 2, Seg::Whole, rng, 30.0)
    }
}

fn descriptors(round: usize, rng: &mut Rng) {
    let mut p = Proc::new();
    let addrs = [(p.start(false, 60_000, 60_000), false), (p.start(true, 60_000, 60_000), true)];
    let (mut sent, mut maybe) = (HashSet::new(), HashSet::new());
    for sub in 0..c().n(6, 16) {
        let extra = (round * 6 + sub) % 12;
        let when = format!("descriptors+{extra}");
        let mut talks = vec![];
        for k in 0..6 {
            let (a, tls) = addrs[k % 2];
            match Conn::open(a, tls) {
                Ok(cn) => talks.push(Talk { cn, n: 0 }),
                Err(e) => return c().violation("descriptors:no-connection", json!({"when": "no fault", "found": e.to_string()})),
            }
        }
        for t in talks.iter_mut() {
            if let Err((sig, d)) = t.step(rng, &mut sent) {
                return c().violation(&format!("descriptors:{sig}"), json!({"when": "before the fault", "round": sub, "found": d}));
            }
        }
        let cpu0 = p.cmd(json!(["cpu"])).as_f64().unwrap_or(0.0);
        p.cmd(json!(["limit", extra]));
        let t0 = Instant::now();
        // new ones that may or may not be served
        let mut new = vec![];
        for k in 0..24 {
            let a = addrs[k % 2].0;
            if let Ok(mut s) = TcpStream::connect_timeout(&a, Duration::from_secs(5)) {
                let mut sp = Spec::simple("n");
                sp.connection = Some("close");
                maybe.insert(sp.id.clone());
                if k % 2 == 0 {
                    let _ = s.write_all(&sp.bytes());
                }
                if k % 8 == 7 {
                    set_linger0(&s);
                } else {
                    new.push((s, sp, k % 2 == 1));
                }
            }
        }
        for _ in 0..4 {
            for t in talks.iter_mut() {
                if let Err((sig, d)) = t.step(rng, &mut sent) {
                    return c().violation(&format!("descriptors:{sig}"), json!({"when": "while there are no descriptors left, on a connection opened before", "spare_descriptors": extra, "found": d}));
                }
            }
        }
        // sometimes for longer than any patience
        let long = sub == 0 && (!c().quick() || round == 0);
        std::thread::sleep(Duration::from_millis(if !long { 150 } else if c().quick() { 5_000 } else { 12_000 }));
        c().count("long_exhaustions", long as u64);
        // (this lifts the limit)
        let r = if sub % 3 == 0 { p.cmd(json!(["tryrun"])) } else { Value::Null };
        let wall = t0.elapsed().as_secs_f64();
        let cpu = p.cmd(json!(["cpu"])).as_f64().unwrap_or(0.0) - cpu0;
        p.cmd(json!(["unlimit"]));
        if !r.is_null() {
            let ok = match r[0].as_str() {
                Some("running") => r[1] == json!("Some(Ok(()))"),
                Some("error") => r[2] == json!(true),
                _ => false,
            };
            if !ok {
                return c().violation("descriptors:run", json!({"why": "run without descriptors must either work or return an error and be possible later", "spare_descriptors": extra, "found": r}));
            }
            c().count(if r[0] == json!("error") { "runs_refused_without_descriptors" } else { "runs_with_few_descriptors" }, 1);
        }
        c().max("cpu_while_exhausted_percent", (cpu / wall * 100.0) as u64);
        // every one of the new connections comes to an end
        let end = Instant::now() + Duration::from_secs(20);
        let (mut served, mut refused) = (0, 0);
        for (mut s, sp, is_tls) in new {
            let mut got = vec![];
            let mut tmp = [0; 4096];
            if is_tls {
                // no handshake is made: nothing but the end is expected
                let _ = s.shutdown(std::net::Shutdown::Write);
            }
            loop {
                let left = end.saturating_duration_since(Instant::now());
                if left.is_zero() {
                    return c().violation("descriptors:connection-left-hanging", json!({"spare_descriptors": extra, "tls": is_tls, "received": show(&got)}));
                }
                let _ = s.set_read_timeout(Some(left));
                match s.read(&mut tmp) {
                    Ok(0) => break,
                    Ok(n) => got.extend_from_slice(&tmp[..n]),
                    Err(e) if matches!(e.kind(), std::io::ErrorKind::WouldBlock | std::io::ErrorKind::TimedOut) => (),
                    Err(_) => break,
                }
            }
            if is_tls {
                continue;
            }
            if got.is_empty() {
                refused += 1;
                continue;
            }
            match parse_response(&got, false) {
                Ok(Some((r, n))) if n == got.len() && (r.status == 503 || sp.check(&r).is_ok()) => served += 1,
                r => return c().violation("descriptors:wrong-response", json!({"spare_descriptors": extra, "received": show(&got), "parsed": format!("{:?}", r.map(|r| r.map(|r| r.0.status)))})),
            }
        }
        c().count("connections_served_in_spite_of_the_fault", served);
        c().count("connections_refused_because_of_the_fault", refused);
        // and new ones are served as before, at once
        for (a, tls) in addrs {
            let t = Instant::now();
            let mut s = Spec::random(rng, "a", 2000, 2000);
            s.connection = Some("close");
            sent.insert(s.id.clone());
            let r = Conn::open(a, tls).map_err(|e| ("no-connection".to_string(), json!(e.to_string()))).and_then(|mut cn| drive(&mut cn, &[s], 1, Seg::Whole, rng, 20.0));
            if let Err((sig, d)) = r {
                return c().violation(&format!("descriptors:{sig}"), json!({"when": "after the fault", "tls": tls, "found": d}));
            }
            c().max("slowest_answer_after_the_fault_ms", t.elapsed().as_millis() as u64);
        }
        for t in talks.iter_mut() {
            if let Err((sig, d)) = t.step(rng, &mut sent) {
                return c().violation(&format!("descriptors:{sig}"), json!({"when": "after the fault, on a connection opened before", "found": d}));
            }
            c().count("exchanges:descriptors", t.n as u64);
        }
        c().count("exhaustions", 1);
        c().eval(Some((when, round, sub)));
        if !p.alive("descriptors") {
            return;
        }
    }
    capacity(addrs[0].0, false, "descriptors", &mut maybe);
    // a shutdown without descriptors
    p.cmd(json!(["limit", 0]));
    let t = Instant::now();
    let r = p.cmd(json!(["shutdown", 1, 30]));
    if r != json!("Some(Ok(()))") {
        c().violation("descriptors:shutdown", json!({"found": r, "after_s": t.elapsed().as_secs_f64()}));
    } else {
        c().count("shutdowns_without_descriptors", 1);
    }
    p.cmd(json!(["unlimit"]));
    if p.alive("descriptors") && !c().violated() {
        // (the log of the server that was shut down is gone)
        let l = p.cmd(json!(["log"]));
        for x in l["ids"].as_array().unwrap() {
            let (id, n) = (x[0].as_str().unwrap().to_string(), x[1].as_u64().unwrap());
            if n != 1 || !(sent.contains(&id) || maybe.contains(&id)) {
                return c().violation("handler-log", json!({"when": "descriptors", "id": id, "times": n}));
            }
        }
        if l["panics"].as_array().map_or(0, |v| v.len()) > 0 {
            c().violation("panic-in-the-server", json!({"when": "descriptors", "panics": l["panics"]}));
        }
    }
}

/// Connections that are reset before, while or right after they are accepted.
fn aborted(round: usize, rng: &mut Rng) {
    let mut p = Proc::new();
    let addrs = [(p.start(false, 60_000, 60_000), false), (p.start(true, 60_000, 60_000), true)];
    let (mut sent, mut maybe) = (HashSet::new(), HashSet::new());
    for k in 0..c().n(8, 40) {
        let stop = k % 2 == 0;
        if stop {
            p.kill(libc::SIGSTOP);
        }
        for j in 0..50 {
            let Ok(mut s) = TcpStream::connect_timeout(&addrs[j % 2].0, Duration::from_secs(5)) else { continue };
            if rng.chance(1, 3) {
                let sp = Spec::simple("x");
                maybe.insert(sp.id.clone());
                let b = sp.bytes();
                let n = if rng.chance(1, 2) { b.len() } else { rng.below(b.len()) };
                let _ = s.write_all(&b[..n]);
            }
            if rng.chance(5, 6) {
                set_linger0(&s);
            }
            c().count("connections_aborted", 1);
        }
        if stop {
            p.kill(libc::SIGCONT);
        }
        for (a, tls) in addrs {
            let s = Spec::random(rng, "y", 3000, 3000);
            sent.insert(s.id.clone());
            let r = Conn::open(a, tls).map_err(|e| ("no-connection".to_string(), json!(e.to_string()))).and_then(|mut cn| drive(&mut cn, &[s], 1, Seg::Whole, rng, 20.0));
            if let Err((sig, d)) = r {
                return c().violation(&format!("aborted:{sig}"), json!({"round": round, "tls": tls, "found": d}));
            }
            c().count("good_connections_after_aborted_ones", 1);
        }
        c().eval(Some(("aborted", round, k)));
    }
    capacity(addrs[0].0, false, "aborted", &mut maybe);
    capacity(addrs[1].0, true, "aborted", &mut maybe);
    if p.alive("aborted") && !c().violated() {
        p.check_log(&sent, &maybe, "aborted");
    }
}

pub fn run() {
    c().rule("conversations are distinct by fault, TLS, length, pipelining, cutting and case; exhaustions by the number of descriptors left, round and step");
    c().assume("faults are real: signals with a handler that does nothing (no SA_RESTART) to random threads, SIGSTOP/SIGCONT, RLIMIT_NOFILE lowered to what is in use plus 0 to 11, TCP resets before accept");
    c().assume("a connection made while there are no descriptors may be closed without an answer; it must not be left hanging once the fault is over");
    for r in 0..c().n(2, 14) {
        signals(r + if c().quick() { (c().seed % 4) as usize } else { 0 });
        if c().stopped() {
            return;
        }
        stop_and_continue(r);
        if c().stopped() {
            return;
        }
        let mut rng = c().rng("descriptors", r as u64);
        descriptors(r, &mut rng);
        aborted(r, &mut rng);
        if c().stopped() {
            return;
        }
    }
    require("conversations:signals", 100);
    require("conversations:stop", 80);
    require("signals_sent", 10_000);
    require("stops_and_continues", 50);
    require("client_calls:signals", 40);
    require("client_calls:stop", 30);
    require("timeouts_held", 2);
    require("exhaustions", 10);
    require("long_exhaustions", 1);
    require("runs_refused_without_descriptors", 2);
    require("shutdowns_without_descriptors", 2);
    require("connections_refused_because_of_the_fault", 1);
    require("connections_aborted", 500);
    require("good_connections_after_aborted_ones", 20);
    require("capacity_checks", 8);
    require("handler_calls_accounted_for", 300);
}
