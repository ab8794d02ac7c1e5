//! C09 and C10: routing against a reference router, and normalisation against a reference normaliser.
use crate::srv::*;
use crate::util::*;
use crate::wire::*;
use serde_json::json;
use std::collections::BTreeMap;
use std::str::FromStr;
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::sync::Arc;
use wruster::http::headers::Header;
use wruster::http::{HttpMethod, Request, Response};
use wruster::router::HttpHandler;

/// The reference: None when the path climbs above the root or is not absolute.
pub fn normalise(path: &str) -> Option<Vec<&str>> {
    let rest = path.strip_prefix('/')?;
    let mut out = vec![];
    for s in rest.split('/') {
        match s {
            "" | "." => (),
            ".." => {
                out.pop()?;
            }
            s => out.push(s),
        }
    }
    Some(out)
}

pub fn split_query(target: &str) -> (&str, &str) {
    match target.find('?') {
        Some(i) => target.split_at(i),
        None => (target, ""),
    }
}

/// Routes by their segments and method, the last registration wins.
#[derive(Default)]
struct Model(BTreeMap<(Vec<String>, usize), u64>);
impl Model {
    fn find(&self, segs: &[&str], method: usize) -> Option<u64> {
        (0..=segs.len().min(self.0.keys().map(|k| k.0.len()).max().unwrap_or(0))).rev().find_map(|n| self.0.get(&(segs[..n].iter().map(|s| s.to_string()).collect(), method)).copied())
    }
}

pub struct Hits {
    ran: AtomicU64,
}

pub fn handler(id: u64, hits: &Arc<Hits>) -> HttpHandler {
    let hits = Arc::clone(hits);
    Box::new(move |q: &mut Request| {
        hits.ran.fetch_add(1, SeqCst);
        let mut r = Response::from_str("").unwrap();
        r.headers.add(Header { name: "X-Route".into(), value: id.to_string() });
        r.headers.add(Header { name: "X-Uri".into(), value: format!("[{}]", q.uri) });
        r.headers.add(Header { name: "X-Method".into(), value: q.method.to_string() });
        r
    })
}

/// Sends one request; checks the outcome against the expectation (route id and uri, or an error status without handler).
/// With `hits` the number of handlers run is compared too (only when nobody else is using the server).
fn ask(srv: &Running, conn: &mut Option<Conn>, method: usize, target: &str, want: Result<(u64, &str), bool>, hits: Option<&Hits>, more: &dyn Fn() -> serde_json::Value) {
    let d = |why: &str, got: String| json!({"why": why, "method": METHODS[method].0, "target": clip(target, 300), "expected": match want { Ok((r, u)) => format!("route {r} uri {}", clip(u, 200)), Err(true) => "404".into(), Err(false) => "an error status".to_string() }, "got": got, "more": more()});
    for attempt in 0..2 {
        let reused = conn.is_some();
        let mut cn = match conn.take() {
            Some(c) => c,
            None => match srv.conn() {
                Ok(c) => c,
                Err(e) => {
                    c().violation("cannot-connect", d("connect", e.to_string()));
                    return;
                }
            },
        };
        let before = hits.map(|h| h.ran.load(SeqCst));
        let sent = cn.try_send(format!("{} {} HTTP/1.1\r\nHost: h\r\n\r\n", METHODS[method].0, target).as_bytes());
        let r = cn.response(20.0, METHODS[method].0 == "HEAD");
        let ran = hits.map(|h| h.ran.load(SeqCst) - before.unwrap());
        let r = match r {
            Ok(r) => r,
            // After an error response the server is free to close.
            Err(WErr::Eof(0)) if reused && attempt == 0 && ran.unwrap_or(0) == 0 => continue,
            Err(e) => {
                c().violation("no-response", d("no response", format!("{e:?} sent {sent}")));
                return;
            }
        };
        let route = r.h("X-Route").and_then(|x| x.parse::<u64>().ok());
        let uri = r.h("X-Uri").map(|u| u.trim_start_matches('[').trim_end_matches(']').to_string());
        let got = format!("status {} route {:?} uri {:?} handlers run {:?}", r.status, route, uri, ran);
        match want {
            Ok((id, u)) => {
                if r.status != 200 || route != Some(id) {
                    c().violation("wrong-route", d("another handler, or none, answered", got));
                } else if uri.as_deref() != Some(u) {
                    c().violation("wrong-uri", d("the handler saw another path", got));
                } else if r.h("X-Method") != Some(METHODS[method].0) {
                    c().violation("wrong-method", d("the handler saw another method", got));
                } else if ran.map_or(false, |n| n != 1) {
                    c().violation("handlers-run", d("not exactly one handler ran", got));
                }
                c().count("routed", 1);
            }
            Err(not_found) => {
                if route.is_some() || ran.map_or(false, |n| n != 0) {
                    c().violation("handler-ran", d("a handler ran", got));
                } else if not_found && r.status != 404 || r.status < 400 {
                    c().violation("wrong-status", d("not the expected error status", got));
                }
                c().count(if not_found { "not_found" } else { "refused" }, 1);
            }
        }
        if r.status < 400 {
            *conn = Some(cn);
        } else if !r.all("Connection").iter().any(|v| v.contains("close")) {
            *conn = Some(cn);
        }
        return;
    }
}

fn query(rng: &mut Rng) -> String {
    match rng.below(6) {
        0 => "?".into(),
        1 => "?x=/../y".into(),
        2 => "?a=b&c=d/e".into(),
        3 => "??/a/b".into(),
        4 => format!("?{}=/./{}#f", rng.token(2), rng.token(2)),
        _ => String::new(),
    }
}

const SEGS: [&str; 24] = ["a#b", "#", "a;b", "*", ":id", "{x}", "a\\b", "~", "a+b", "<b>", "a", "b", "ab", "aa", "aab", "abc", "é", "e", "A", "a.b", "..a", "...", "%2e%2e", "a%2Fb"];

pub fn run09() {
    c().rule("one evaluation = one request against one random set of routes, compared with a reference router; distinct by (depth of the path, depth of the matching route, method, set of routes)");
    let total = c().n(600, 6000);
    par(8, total, "routes", |i, rng| {
        let hits = Arc::new(Hits { ran: AtomicU64::new(0) });
        let alphabet: Vec<&str> = (0..rng.range(1, 5)).map(|_| *rng.pick(&SEGS)).collect();
        let depth = *rng.pick(&[2, 3, 4, 6]);
        let methods: Vec<usize> = if rng.chance(1, 2) { vec![0, 2] } else { (0..9).collect() };
        let n = match rng.below(10) {
            0 => 1,
            1 => 300,
            _ => rng.range(1, 25),
        };
        let mut model = Model::default();
        let mut order: Vec<(String, usize, u64)> = vec![];
        let mut slash: BTreeMap<Vec<String>, bool> = BTreeMap::new();
        let path = |rng: &mut Rng, d: usize| -> Vec<String> {
            let mut v: Vec<String> = (0..rng.below(d + 1)).map(|_| rng.pick(&alphabet).to_string()).collect();
            if rng.chance(1, 20) {
                v.push("long".repeat(200));
            }
            if rng.chance(1, 40) {
                v.extend((0..60).map(|k| format!("d{k}")));
            }
            v
        };
        for id in 0..n {
            let segs = path(rng, depth);
            let m = *rng.pick(&methods);
            // A path is registered always with or always without the ending separator.
            let end = *slash.entry(segs.clone()).or_insert_with(|| rng.chance(1, 5));
            let text = if segs.is_empty() { "/".to_string() } else { format!("/{}{}", segs.join("/"), if end { "/" } else { "" }) };
            model.0.insert((segs, m), id as u64);
            order.push((text, m, id as u64));
        }
        let tls = i % 16 == 5;
        let srv = start(tls, timeouts(20_000, 20_000), |r| {
            for (t, m, id) in &order {
                r.add(t, METHODS[*m].1, handler(*id, &hits));
            }
        });
        let more = || json!({"routes": order.iter().take(40).map(|(t, m, id)| format!("{} {} -> {}", METHODS[*m].0, clip(t, 60), id)).collect::<Vec<_>>()});
        let mut conn = None;
        for k in 0..c().n(150, 300) {
            if c().stopped() {
                break;
            }
            // A registered path, one below it, one that only shares its beginning, or any.
            let mut segs: Vec<String> = if rng.chance(2, 3) {
                let keys: Vec<_> = model.0.keys().collect();
                rng.pick(&keys).0.clone()
            } else {
                path(rng, depth)
            };
            match rng.below(6) {
                0 => segs.push(rng.pick(&alphabet).to_string()),
                1 => segs.push(rng.token(2)),
                2 => {
                    if let Some(l) = segs.last_mut() {
                        l.push_str(*rng.pick(&["a", "b", "x", "."]));
                    }
                }
                3 => {
                    if let Some(l) = segs.last_mut() {
                        l.pop();
                    }
                    segs.retain(|s| !s.is_empty() && s != "." && s != "..");
                }
                4 => {
                    segs.pop();
                }
                _ => (),
            }
            segs.retain(|s| s != "." && s != "..");
            let q = query(rng);
            let p = format!("/{}", segs.join("/"));
            let slash = if !segs.is_empty() && rng.chance(1, 6) { "/" } else { "" };
            let m = if rng.chance(4, 5) { *rng.pick(&methods) } else { rng.below(9) };
            let target = format!("{p}{slash}{q}");
            let refs: Vec<&str> = segs.iter().map(|s| s.as_str()).collect();
            let found = model.find(&refs, m);
            let uri = format!("{p}{q}");
            ask(&srv, &mut conn, m, &target, found.map(|f| (f, uri.as_str())).ok_or(true), Some(&hits), &more);
            c().eval(Some((i, segs.len(), m, found)));
            if k == 0 {
                c().sample(json!({"target": clip(&target, 100), "method": METHODS[m].0, "expected_route": found, "of": n}));
            }
        }
        // The same routes from many connections at once.
        if i % 10 == 0 {
            let keys: Vec<_> = model.0.iter().collect();
            std::thread::scope(|s| {
                for t in 0..6 {
                    let (srv, keys, more) = (&srv, &keys, &more);
                    let mut rng = Rng::new(rng.next(), "conc", t);
                    s.spawn(move || {
                        let mut conn = None;
                        for _ in 0..40 {
                            let ((segs, m), id) = rng.pick(keys);
                            let p = format!("/{}", segs.join("/"));
                            ask(srv, &mut conn, *m, &p, Ok((**id, &p)), None, &|| json!({"concurrent": true, "n": keys.len()}));
                            c().count("concurrent_requests", 1);
                        }
                        let _ = more;
                    });
                }
            });
        }
        drop(conn);
        srv.stop();
    });
    require("routed", 6000);
    require("not_found", 1500);
    require("concurrent_requests", 1000);
}

pub fn run10() {
    c().rule("one evaluation = one request target compared with a reference normaliser (exhaustively for short sequences of segments, randomly for others); distinct by target");
    c().assume("Targets are valid UTF-8 without control characters.");
    let hits = Arc::new(Hits { ran: AtomicU64::new(0) });
    let mut model = Model::default();
    let mut routes = vec![];
    for (id, r) in ["/", "/a", "/a/b", "/b", "/a/b/a", "/..a"].iter().enumerate() {
        for m in 0..9 {
            model.0.insert((normalise(r).unwrap().iter().map(|s| s.to_string()).collect(), m), id as u64);
            routes.push((*r, m, id as u64));
        }
    }
    let go = |tls: bool| start(tls, timeouts(20_000, 20_000), |r| routes.iter().for_each(|(p, m, id)| r.add(p, METHODS[*m].1, handler(*id, &hits))));
    let (srv, tls) = (go(false), go(true));
    let test = |srv: &Running, conn: &mut Option<Conn>, m: usize, target: &str, hits: Option<&Hits>| {
        let (p, q) = split_query(target);
        match normalise(p) {
            Some(segs) => {
                let uri = format!("/{}{}", segs.join("/"), q);
                let id = model.find(&segs, m).unwrap();
                ask(srv, conn, m, target, Ok((id, &uri)), hits, &|| json!(null));
            }
            None => ask(srv, conn, m, target, Err(false), hits, &|| json!(null)),
        }
        c().eval(Some((target.to_string(), srv.tls)));
    };
    // Every sequence of up to n segments, with several connections at once; the number of handlers run is compared at the end.
    let pieces = ["a", "..", ".", "", "b"];
    let depth = c().n(7, 9) as u32;
    let mut all: Vec<Vec<u8>> = vec![vec![]];
    let mut from = 0;
    for _ in 0..depth {
        let to = all.len();
        for k in from..to {
            for p in 0..pieces.len() as u8 {
                let mut v = all[k].clone();
                v.push(p);
                all.push(v);
            }
        }
        from = to;
    }
    c().count("exhaustive_targets", all.len() as u64);
    let chunk = 200;
    let want_runs = AtomicU64::new(0);
    let before = hits.ran.load(SeqCst);
    par(8, all.len().div_ceil(chunk), "all", |i, _| {
        let mut conn = None;
        for v in all.iter().skip(i as usize * chunk).take(chunk) {
            let t = format!("/{}", v.iter().map(|p| pieces[*p as usize]).collect::<Vec<_>>().join("/"));
            if normalise(&t).is_some() {
                want_runs.fetch_add(1, SeqCst);
            }
            test(&srv, &mut conn, 0, &t, None);
            if c().stopped() {
                break;
            }
        }
    });
    let ran = hits.ran.load(SeqCst) - before;
    if !c().violated() && c().case.is_none() && ran != want_runs.load(SeqCst) {
        c().violation("handlers-run", json!({"handlers_run": ran, "expected": want_runs.load(SeqCst)}));
    }
    // Deep ones, around the sizes at which something that counts the names could go wrong.
    let mut deep: Vec<usize> = vec![15, 16, 17, 63, 64, 65, 127, 128, 129, 254, 255, 256, 257, 511, 512, 1023, 1024, 1025, 4096, 8191, 8192, 32_768, 65_535, 65_536, 65_537, 170_000];
    deep.truncate(c().n(25, 26));
    par(4, deep.len(), "deep", |i, rng| {
        let k = deep[i as usize];
        let mut conn = None;
        for up in [k - 1, k, k + 1, 0, rng.range(1, k)] {
            for (name, back, end) in [("/a", "/..", ""), ("/a", "/..", "/a/b"), ("/./b", "//..", "/"), ("/..a", "/../.", "/a/../b?x")] {
                let t = format!("{}{}{}", name.repeat(k), back.repeat(up), end);
                if t.len() < 1_000_000 && !c().stopped() {
                    test(&srv, &mut conn, 0, if t.is_empty() { "/" } else { &t }, None);
                    c().count("deep_targets", 1);
                }
            }
        }
    });
    // Random ones, with odd segments, queries and methods; one connection at a time so that a refused target can be seen to run nothing.
    let odd = ["a", "b", "..", "..", ".", "", "...", "..a", "a..", ".a", "a.", "%2e%2e", "%2E", "%2f", "a;p=1", "é→", "~", "*", ":", "c:", "\\", "..\\..", "a b", "a#b", "#", "#a", "a&b=c", "{x}", ":id", "**"];
    let mut rng = c().rng("rand", 0);
    for (srv, n) in [(&srv, c().n(20_000, 300_000)), (&tls, c().n(5000, 60_000))] {
        let mut conn = None;
        for _ in 0..n {
            if c().stopped() {
                break;
            }
            let k = rng.range(1, 10);
            let mut t = String::new();
            for _ in 0..k {
                t.push('/');
                let s = *rng.pick(&odd);
                t.push_str(if s.contains(' ') { "a" } else { s });
            }
            if rng.chance(1, 4) {
                t.push('/');
            }
            if rng.chance(1, 25) {
                t = t.repeat(40);
            }
            t.push_str(&query(&mut rng));
            let m = rng.below(9);
            test(srv, &mut conn, m, &t, Some(&hits));
        }
        // Targets that are not absolute paths.
        for t in ["*", "a", "a/b", "..", ".", "../a", "host:80", "http://h/a", "http://h/../..", "?x", "?/a", "a/../../b", "./a", "\\a", "%2Fa", "#/a", "é"] {
            for m in [0, 3, 6, 5] {
                test(srv, &mut conn, m, t, Some(&hits));
                c().count("not_absolute", 1);
            }
        }
    }
    srv.stop();
    tls.stop();
    require("routed", 10_000);
    require("refused", 3000);
    require("deep_targets", 400);
    let _ = HttpMethod::GET;
}
