//! C05: ambiguous message lengths are refused.
use crate::srv::*;
use crate::traffic::*;
use crate::util::*;
use crate::wire::*;
use serde_json::json;
use std::collections::HashSet;
use std::sync::Mutex;

fn case_mix(rng: &mut Rng, s: &str) -> String {
    match rng.below(5) {
        0 => s.to_ascii_lowercase(),
        1 => s.to_ascii_uppercase(),
        2 => s.chars().map(|ch| if rng.chance(1, 2) { ch.to_ascii_uppercase() } else { ch.to_ascii_lowercase() }).collect(),
        _ => s.into(),
    }
}

/// The fields that make the length ambiguous.
fn ambiguous(rng: &mut Rng, len: usize) -> (&'static str, Vec<(String, String)>) {
    let cl = |v: String| ("Content-Length".to_string(), v);
    let te = |v: &str| ("Transfer-Encoding".to_string(), v.to_string());
    let l = len.to_string();
    match rng.below(12) {
        0 => ("repeated equal", vec![cl(l.clone()), cl(l)]),
        1 => ("repeated different", vec![cl(l), cl(rng.pick(&["0", "1", "10", "99999"]).to_string())]),
        2 => ("repeated, 0 first", vec![cl("0".into()), cl(l)]),
        3 => {
            let v = *rng.pick(&["+", "-"]);
            ("signed", vec![cl(format!("{v}{l}"))])
        }
        4 => {
            let v = rng.pick(&["", "abc", "0x10", "1e2", "5a", "a5", "5 5", "5,5", "5, 5", "5;5", "1.0", "5_0", "٥", "５", "\"5\"", "nan", "5\t5", "1,", ",1", "0x0", "--5", "5-", "5+"]).to_string();
            ("not a number", vec![cl(v)])
        }
        5 => {
            let v = rng.pick(&["18446744073709551616", "18446744073709551621", "99999999999999999999999999", "340282366920938463463374607431768211461", "100000000000000000000000000000000000000000000000005"]).to_string();
            ("overflow", vec![cl(v)])
        }
        6 | 7 => {
            let v = *rng.pick(&["chunked", "Chunked", "CHUNKED", "gzip", "gzip, chunked", "identity, chunked", "chunked, identity", "identity,identity", "", "xchunked", "chunked;q=1", "deflate", "identity;x", "\"chunked\"", "x", ",chunked", "chunked,"]);
            ("transfer encoding", vec![te(v)])
        }
        8 => ("transfer encoding and length", vec![te("chunked"), cl(l)]),
        9 => ("length and transfer encoding", vec![cl(l), te(*rng.pick(&["chunked", "gzip, chunked", "identity, chunked"]))]),
        10 => ("repeated transfer encoding", vec![te(*rng.pick(&["identity", "chunked"])), te(*rng.pick(&["chunked", "identity"]))]),
        _ => ("three lengths", vec![cl(l.clone()), cl(l.clone()), cl(l)]),
    }
}

pub fn run() {
    let c = c();
    c.rule("a case is one request with ambiguous length fields (values, letter case, blanks, order among other fields) followed by bytes that spell requests, after 0 to 2 good requests; all are non-trivial; distinct by the bytes of the head and the kind of what follows");
    let (srv, log) = universal(false, timeouts(2_500, 10_000));
    let (tsrv, tlog) = universal(true, timeouts(2_500, 10_000));
    let expected = Mutex::new(HashSet::new());
    let texpected = Mutex::new(HashSet::new());
    par(40, c.n(20_000, 300_000), "c05", |i, rng| {
        let tls = i % 10 == 3;
        let (srv, expected) = if tls { (&tsrv, &texpected) } else { (&srv, &expected) };
        let len = rng.range(1, 300);
        let (kind, fields) = ambiguous(rng, len);
        let mut fields: Vec<String> = fields.iter().map(|(n, v)| format!("{}:{}{v}{}\r\n", case_mix(rng, n), rng.pick(&["", " ", "  ", "\t"]), rng.pick(&["", "", " ", "\t"]))).collect();
        let version = *rng.pick(&["HTTP/1.1", "HTTP/1.1", "HTTP/1.0"]);
        let m = *rng.pick(&["POST", "GET", "PUT", "DELETE", "OPTIONS", "PATCH", "HEAD"]);
        let ghost = |rng: &mut Rng| format!("GET /ghost HTTP/1.1\r\nX-Vid: ghost{}\r\nX-Vresp: str:9\r\n\r\n", rng.below(100000));
        // Other fields in between, in the given order of the ambiguous ones.
        for f in [format!("X-Vid: ghostown{i}\r\n"), "X-Vread: all\r\n".into(), "X-Vresp: str:5\r\n".into(), "Connection: keep-alive\r\n".into()] {
            let at = rng.below(fields.len() + 1);
            fields.insert(at, f);
        }
        let mut b = format!("{m} /v {version}\r\n{}\r\n", fields.concat()).into_bytes();
        let head = b.clone();
        let follow = rng.below(4);
        match follow {
            0 => b.extend_from_slice(ghost(rng).as_bytes()),
            1 => b.extend_from_slice(format!("5\r\nhello\r\n0\r\n\r\n{}", ghost(rng)).as_bytes()),
            2 => {
                b.extend(vec![b'z'; len]);
                b.extend_from_slice(ghost(rng).as_bytes());
                b.extend_from_slice(ghost(rng).as_bytes());
            }
            _ => b.extend_from_slice(format!("0\r\n\r\n{}", ghost(rng)).as_bytes()),
        }
        c.eval(Some((&head, follow)));
        c.count(&format!("kind:{kind}"), 1);
        let ctxt = json!({"case": i, "tls": tls, "kind": kind, "head": show(&head), "followed_by": follow});
        let Ok(mut conn) = srv.conn() else { return c.violation("cannot-connect", json!({})) };
        let pre: Vec<Spec> = (0..if rng.chance(1, 3) { rng.range(1, 2) } else { 0 }).map(|_| Spec::random(rng, "p", 2000, 2000)).collect();
        lock(expected).extend(pre.iter().map(|s| s.id.clone()));
        if let Err((sig, d)) = drive(&mut conn, &pre, 2, Seg::Whole, rng, 20.0) {
            return c.violation(&format!("good-request-before:{sig}"), json!({"case": ctxt, "detail": d}));
        }
        let seg = *rng.pick(&SEGS);
        let _ = send_cut(&mut conn, &b, seg, rng);
        if rng.chance(1, 4) && !conn.eof {
            // a later request on the same connection must not be served either
            conn.try_send(Spec::simple("ghostlater").bytes().as_slice());
        }
        if conn.until_eof(12.0).is_err() {
            return c.violation("ambiguous:connection-left-open", json!({"case": ctxt, "received": show(&conn.buf)}));
        }
        let got = conn.buf.clone();
        if !got.is_empty() {
            match parse_response(&got, false) {
                Ok(Some((r, n))) if r.status >= 400 && n == got.len() => c.count("answered_with_error", 1),
                Ok(None) if conn.reset => c.count("reset", 1),
                _ => return c.violation("ambiguous:answered-as-a-request", json!({"case": ctxt, "received": show(&got)})),
            }
        }
        c.count("ambiguous_requests_refused", 1);
        c.count("bytes_behind_the_head_ignored", (b.len() - head.len()) as u64);
        if i < 6 {
            c.sample(ctxt);
        }
    });
    srv.stop_later();
    tsrv.stop_later();
    if !c.violated() {
        for (log, exp, tls) in [(&log, &expected, false), (&tlog, &texpected, true)] {
            for (sig, d) in check_log(log, &lock(exp), &HashSet::new()) {
                c.violation(&format!("ambiguous:{sig}"), json!({"tls": tls, "detail": d}));
            }
        }
    }
    require("ambiguous_requests_refused", 1000);
}
