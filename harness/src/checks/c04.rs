//! C04: malformed requests run no handler and hurt nobody else.
use crate::srv::*;
use crate::traffic::*;
use crate::util::*;
use crate::wire::*;
use serde_json::json;
use std::collections::HashSet;
use std::sync::Mutex;
use std::time::{Duration, Instant};

/// What ends most of the malformed requests.
pub const TAIL: &[u8] = b"Host: x\r\nX-Vid: ghostm\r\nX-Vresp: str:3\r\n\r\n";

/// The same fault with nothing between its line and what comes behind it.
pub fn without_tail(bytes: &[u8], rng: &mut Rng) -> Option<Vec<u8>> {
    let head = bytes.strip_suffix(TAIL).filter(|h| *h != b"\r\n")?;
    Some([head, *rng.pick(&[&b""[..], b"\r\n"])].concat())
}

/// (kind, bytes, whether the end of the bytes is part of what is wrong)
pub fn malformed(rng: &mut Rng) -> (&'static str, Vec<u8>, bool) {
    let tail = TAIL;
    let cat = |a: &[u8]| [a, &tail[..]].concat();
    match rng.below(20) {
        16 => {
            // any method with something changed
            let all = ["GET", "HEAD", "POST", "PUT", "PATCH", "DELETE", "CONNECT", "OPTIONS", "TRACE"];
            let m = loop {
                let m = mutated(rng, rng.clone().pick(&all).as_bytes());
                if !all.iter().any(|a| a.as_bytes() == m) {
                    break m;
                }
            };
            ("changed-method", cat(&[&m[..], b" / HTTP/1.1\r\n"].concat()), false)
        }
        17 => {
            let v = bad_version(rng);
            ("changed-version", cat(&[b"GET / ", &v[..], b"\r\n"].concat()), false)
        }
        18 => {
            let n = bad_name(rng);
            ("changed-header-name", cat(&[b"GET / HTTP/1.1\r\n", &n[..], b": v\r\n"].concat()), false)
        }
        19 => {
            let v = bad_value(rng);
            ("changed-header-value", cat(&[b"GET / HTTP/1.1\r\nX-V: ", &v[..], b"\r\n"].concat()), false)
        }
        0 => {
            let m = *rng.pick(&["get", "GETT", "Get", "G ET", "GE\tT", "BREW", "\0GET", "GET\0", "(GET)", "\x01", "GET/", "PO\nST", "é", "\u{ff}GET"]);
            ("method", cat(format!("{m} / HTTP/1.1\r\n").as_bytes()), false)
        }
        1 => {
            let l = *rng.pick(&["GET /", "GET", "GET  / HTTP/1.1", " GET / HTTP/1.1", "GET / HTTP/1.1 ", "GET / HTTP/1.1 x", "GET /a b HTTP/1.1", "GET /\tHTTP/1.1", "GET\t/ HTTP/1.1", "/ GET HTTP/1.1", "GET / ", " / ", "GET /  HTTP/1.1", ""]);
            ("request-line", cat(format!("{l}\r\n").as_bytes()), false)
        }
        2 => {
            let v = *rng.pick(&["HTTX/1.1", "HTTP/1", "HTTP/1.", "HTTP/.1", "HTTP/a.b", "HTTP/1.1.1", "http/1.1", "HTTP1.1", "HTTP/1,1", "HTTP/-1.1", "HTTP/+1.1", "HTTP/1.+1", "HTTP/1 .1", "HTTP/ 1.1", "HTTP//1.1", "HTTP/1.1\0", "\rHTTP/1.1", "HTTP/1.1\r"]);
            ("version", cat(format!("GET / {v}\r\n").as_bytes()), false)
        }
        3 => {
            let ctl = *rng.pick(&[0u8, 1, 7, 8, 9, 10, 11, 12, 13, 14, 27, 31, 127]);
            let mut t = b"GET /a".to_vec();
            t.insert(rng.range(5, 6), ctl);
            ("control-character-in-target", cat(&[&t[..], b" HTTP/1.1\r\n"].concat()), false)
        }
        4 => ("line-break-in-target", cat(b"GET /a\r\nX-Vid: ghostb HTTP/1.1\r\n"), false),
        5 => {
            let h = *rng.pick(&["NoColon", "Name Value", ": no name", "Na me: v", "Name : v", " Lead: v", "\tFold: x", "Na\0me: v", "Na(me): v", "Né: v", "\"q\": v", "a@b: v", "Name\t: v", "x", "{}: 1", "[a]: 2", "a/b: c", "a=b", "a,b: c", "Na\rme: v", " ", "\t", "  \t ", ":", " :"]);
            ("header-name", cat(format!("GET / HTTP/1.1\r\n{h}\r\n").as_bytes()), false)
        }
        6 => {
            let ctl = *rng.pick(&[0u8, 1, 8, 10, 11, 12, 13, 27, 31, 127]);
            let v = match rng.below(3) {
                0 => vec![b'a', ctl, b'b'],
                1 => vec![ctl, b'b'],
                _ => vec![b'a', b' ', ctl, b' ', b'c'],
            };
            ("control-character-in-header-value", cat(&[&b"GET / HTTP/1.1\r\nA: "[..], &v, b"\r\n"].concat()), false)
        }
        7 => ("folded-header", cat(b"GET / HTTP/1.1\r\nA: b\r\n c\r\n"), false),
        8 => ("bare-line-feeds", b"GET / HTTP/1.1\nX-Vid: ghostl\nX-Vresp: str:3\n\n\r\n\r\n".to_vec(), false),
        9 | 10 => {
            let s = { let mut s = Spec::random(rng, "ghostcut", 1, 10); s.body.clear(); s };
            let h = s.head();
            ("head-cut-short", h[..rng.below(h.len() - 1) + 1].to_vec(), true)
        }
        11 => {
            let n = rng.range(1, 3000);
            let mut b = rng.bytes(n);
            b[0] |= 0x80;
            b.extend_from_slice(b"\r\n\r\n");
            ("random-bytes", b, true)
        }
        12 => ("tls-or-other-protocol", rng.pick(&[&b"\x16\x03\x01\x02\x00\x01\x00\x01\xfc\x03\x03aaaaaaaaaaaaaaaa"[..], b"PRI * HTTP/2.0\r\n\r\nSM\r\n\r\n", b"SSH-2.0-OpenSSH\r\n", b"EHLO x\r\n", b"\r\n\r\n", b"\0\0\0\0\0\0"]).to_vec(), true),
        13 => {
            // one byte of a good head replaced by a control character, outside of line ends
            let mut s = Spec::simple("ghostflip");
            s.body.clear();
            let mut h = s.head();
            let at = loop {
                let i = rng.below(h.len() - 4);
                if h[i] != b'\r' && h[i] != b'\n' {
                    break i;
                }
            };
            h[at] = *rng.pick(&[0u8, 1, 12, 27, 31, 127]);
            ("flipped-byte", h, false)
        }
        14 => ("missing-cr", cat(b"GET / HTTP/1.1\nHost: y\r\n"), false),
        _ => {
            let name = "X".repeat(rng.range(1, 5000));
            ("long-header-without-colon", cat(format!("GET / HTTP/1.1\r\n{name}\r\n").as_bytes()), false)
        }
    }
}

pub fn run() {
    let c = c();
    c.rule("a case is one malformed byte sequence (kind, position after k good requests, segmentation, what follows it, how the client ends) sent to a server that also serves good clients; all are non-trivial; distinct by the bytes, k and segmentation");
    c.assume("a closed connection is a permitted answer to any malformed input, so a 400 lost to a reset is not demanded");
    let (srv, log) = universal(false, timeouts(3_000, 10_000));
    let (tsrv, tlog) = universal(true, timeouts(3_000, 10_000));
    let expected = Mutex::new(HashSet::new());
    let texpected = Mutex::new(HashSet::new());
    let beside = good_clients(srv.addr, false, 3, 15.0);
    par(40, c.n(20_000, 300_000), "c04", |i, rng| {
        let tls = i % 8 == 3;
        let (srv, expected) = if tls { (&tsrv, &texpected) } else { (&srv, &expected) };
        let (kind, mut bytes, needs_end) = malformed(rng);
        let mut bare = false;
        if rng.chance(1, 3) {
            if let Some(b) = without_tail(&bytes, rng) {
                (bytes, bare) = (b, true);
                c.count("followed_at_once_by_a_good_request", 1);
            }
        }
        let k = if rng.chance(1, 3) { rng.range(1, 3) } else { 0 };
        let seg = *rng.pick(&SEGS);
        c.eval(Some((&bytes, k, seg)));
        c.count(&format!("kind:{kind}"), 1);
        let Ok(mut conn) = srv.conn() else { return c.violation("cannot-connect", json!({})) };
        let pre: Vec<Spec> = (0..k).map(|_| Spec::random(rng, "m", 2000, 2000)).collect();
        lock(expected).extend(pre.iter().map(|s| s.id.clone()));
        let ctxt = json!({"case": i, "tls": tls, "kind": kind, "bytes": show(&bytes), "after_good_requests": k, "seg": format!("{seg:?}")});
        if let Err((sig, d)) = drive(&mut conn, &pre, 2, Seg::Whole, rng, 20.0) {
            return c.violation(&format!("good-request-before:{sig}"), json!({"case": ctxt, "detail": d}));
        }
        let mut b = bytes.clone();
        // Something that looks like a good request right behind must not run either.
        let ghost = bare || !needs_end && rng.chance(1, 2);
        if ghost {
            b.extend(Spec::simple("ghostafter").bytes());
        }
        let _ = send_cut(&mut conn, &b, seg, rng);
        if needs_end {
            conn.close_notify();
            conn.half_close();
        }
        if !needs_end && !ghost && rng.chance(1, 10) {
            // leave without waiting
            if rng.chance(1, 2) {
                conn.abort();
            }
            return;
        }
        match conn.until_eof(12.0) {
            Err(_) => return c.violation("malformed:connection-left-open", json!({"case": ctxt, "received": show(&conn.buf)})),
            Ok(()) => {}
        }
        c.count("malformed_refused", 1);
        let got = conn.buf.clone();
        if !got.is_empty() {
            match parse_response(&got, false) {
                Ok(Some((r, n))) if r.status == 400 && n == got.len() => c.count("answered_400", 1),
                Ok(None) if conn.reset => c.count("reset_during_400", 1),
                other => return c.violation("malformed:unexpected-answer", json!({"case": ctxt, "received": show(&got), "parsed": format!("{other:?}").chars().take(200).collect::<String>()})),
            }
        } else {
            c.count("closed_without_answer", 1);
        }
        if i < 6 {
            c.sample(ctxt);
        }
    });
    if !c.stopped() {
        endless_heads(&srv);
    }
    let served = beside.end();
    c.count("requests_of_good_clients_beside", served);
    for (log, exp, tls) in [(&log, &expected, false), (&tlog, &texpected, true)] {
        if c.violated() {
            break;
        }
        let mut ok = lock(exp).clone();
        ok.extend(lock(&log.seen).keys().filter(|k| k.starts_with("good")).cloned());
        for (sig, d) in check_log(log, &ok, &HashSet::new()) {
            c.violation(&format!("malformed:{sig}"), json!({"tls": tls, "detail": d}));
        }
    }
    if !c.violated() {
        if let Some(d) = burning_cpu() {
            c.violation("malformed:cpu-burnt-afterwards", d);
        }
        for (s, name) in [(&srv, "plain"), (&tsrv, "tls")] {
            if let Err(d) = capacity_probe(s, 100, 25) {
                c.violation("malformed:capacity-lost", json!({"server": name, "detail": d}));
            }
        }
    }
    srv.stop_later();
    tsrv.stop_later();
    require("malformed_refused", 1500);
    require("requests_of_good_clients_beside", 20);
}

pub fn rss_kb() -> u64 {
    let s = std::fs::read_to_string("/proc/self/status").unwrap_or_default();
    s.lines().find_map(|l| l.strip_prefix("VmRSS:")).and_then(|l| l.trim().trim_end_matches(" kB").trim().parse().ok()).unwrap_or(0)
}

/// Heads that never end: the server has to give up before they fill its memory.
fn endless_heads(srv: &Running) {
    let c = c();
    let starts: [(&str, &[u8], &[u8]); 5] = [
        ("endless target", b"GET /", b"aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa"),
        ("endless header value", b"GET / HTTP/1.1\r\nA: ", b"bbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbb"),
        ("endless headers", b"GET / HTTP/1.1\r\n", b"Name: value\r\nName: value\r\nOther-Name: value\r\n"),
        ("endless method", b"", b"GGGGGGGGGGGGGGGGGGGGGGGGGGGGGGGGGGGGGGGGGGGGGG"),
        ("endless bare line feeds", b"GET / HTTP/1.1\r\n", b"a\nb\nc\nd\ne\nf\ng\nh\n"),
    ];
    for (name, start, unit) in starts {
        let Ok(mut conn) = srv.conn() else { return c.violation("cannot-connect", json!({})) };
        let before = rss_kb();
        let chunk: Vec<u8> = unit.iter().cycle().take(unit.len() * (65536 / unit.len())).copied().collect();
        let t = Instant::now();
        let mut sent = 0usize;
        let mut peak = before;
        let _ = conn.sock.set_write_timeout(Some(Duration::from_secs(5)));
        let mut closed = !conn.try_send(start);
        while !closed && sent < 256 << 20 && t.elapsed() < Duration::from_secs(6) {
            closed = !conn.try_send(&chunk);
            sent += chunk.len();
            peak = peak.max(rss_kb());
        }
        c.count("endless_head_bytes_sent", sent as u64);
        c.eval(Some(name));
        let grown = peak.saturating_sub(before);
        c.max("endless_head_peak_rss_growth_kb", grown);
        if grown > 64 << 10 {
            c.violation("malformed:memory-grows-with-the-head", json!({"kind": name, "sent": sent, "rss_growth_kb": grown}));
        } else if !closed && conn.until_eof(8.0).is_err() {
            c.violation("malformed:endless-head-accepted", json!({"kind": name, "sent": sent}));
        }
    }
}
