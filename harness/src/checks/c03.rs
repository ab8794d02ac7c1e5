//! C03: body bytes a handler leaves unread are never taken for a request.
use crate::srv::*;
use crate::traffic::*;
use crate::util::*;
use serde_json::json;
use std::collections::HashSet;
use std::sync::Mutex;
use std::time::Duration;

/// A body that spells requests at every place where reading could wrongly resume.
fn hostile_body(rng: &mut Rng, len: usize, stop: usize) -> Vec<u8> {
    let ghost = |rng: &mut Rng| format!("GET /ghost HTTP/1.1\r\nX-Vid: ghost{}\r\nX-Vread: none\r\nX-Vresp: str:9\r\n\r\n", rng.below(100000)).into_bytes();
    let mut v = vec![b'x'; stop.min(len)];
    if rng.chance(1, 3) {
        // ghosts end exactly at the end of the body
        let mut tail = vec![];
        while tail.len() < len - v.len() {
            let g = ghost(rng);
            if tail.len() + g.len() > len - v.len() {
                break;
            }
            tail.extend(g);
        }
        v.resize(len - tail.len(), b'y');
        v.extend(tail);
        return v;
    }
    while v.len() < len {
        let g = ghost(rng);
        v.extend(g);
    }
    v.truncate(len);
    v
}

fn log_of<'a>(tls: bool, a: &'a VLog, b: &'a VLog) -> &'a VLog {
    if tls { b } else { a }
}

pub fn run() {
    let c = c();
    c.rule("a case is one request whose handler reads a given part of the body through a given interface, followed by another request; non-trivial when some of the body stays unread; distinct by read mode, amount read, body length, way of sending and what follows");
    let (srv, log) = universal(false, timeouts(30_000, 30_000));
    let (tsrv, tlog) = universal(true, timeouts(30_000, 30_000));
    let expected = Mutex::new(HashSet::new());
    let texpected = Mutex::new(HashSet::new());
    let large = [Some(0), Some(1_000_000)].map(|read| crate::big::beside(move || crate::big::requests(&[read])));
    par(40, c.n(6000, 100_000), "c03", |i, rng| {
        let tls = i % 6 == 5;
        let (srv, expected) = if tls { (&tsrv, &texpected) } else { (&srv, &expected) };
        let mut conn = match srv.conn() {
            Ok(x) => x,
            Err(e) => return c.violation("cannot-connect", json!({"error": e.to_string()})),
        };
        for _ in 0..rng.range(1, 5) {
            let len = match rng.below(6) {
                0 => rng.range(1, 200),
                1 => *rng.pick(&[8191usize, 8192, 8193, 16384, 65536, 100, 4096]),
                2 => rng.range(1, 9000),
                3 => rng.range(1, 60_000),
                4 if i % 30 == 1 => rng.range(100_000, 2_500_000),
                _ => rng.range(1, 3000),
            };
            let large = i % 400 == 13;
            let len = if large { *rng.pick(&[(4 << 20) + 1, (8 << 20) + 100, 16 << 20, 40_000_000]) + rng.below(500) } else { len };
            if large {
                c.count("bodies_over_4_mib", 1);
            }
            let mut s = Spec::simple("u");
            s.method = *rng.pick(&["POST", "PUT", "GET", "DELETE", "PATCH", "HEAD"]);
            let stop = *rng.pick(&[0, 0, 1, len / 2, len.saturating_sub(1), len, 8192, 100]);
            s.body = hostile_body(rng, len, stop.min(len));
            s.read = match rng.below(8) {
                0 => "none".into(),
                1 => "take".into(),
                2 => format!("content:{stop}"),
                3 => format!("mix:{stop}"),
                4 => "allcontent".into(),
                5 => "all".into(),
                6 => "keep".into(),
                _ => format!("body:{stop}"),
            };
            s.resp = *rng.pick(&["str", "content", "status"]);
            s.resp_len = rng.below(3000);
            // (an echo of a large body would block a client that does not read while it sends)
            if rng.chance(1, 4) && s.method != "HEAD" && !large {
                s.resp = "echo";
                s.read = "echo".into();
            }
            let mut follow: Vec<Spec> = (0..rng.range(1, 3)).map(|_| Spec::random(rng, "u", 3000, 3000)).collect();
            lock(expected).insert(s.id.clone());
            lock(expected).extend(follow.iter().map(|f| f.id.clone()));
            let how = rng.below(4);
            let read_kind = s.read.split(':').next().unwrap().to_string();
            c.eval((!matches!(read_kind.as_str(), "all" | "allcontent" | "echo")).then_some((s.read.clone(), len, how, tls, follow.len())));
            let ctxt = json!({"case": i, "tls": tls, "request": s.brief(), "how": how, "following": follow.iter().map(|f| f.brief()).collect::<Vec<_>>()});
            let mut all = vec![s.clone()];
            let r = match how {
                // the following requests arrive together with the body
                0 if len < 60_000 => {
                    all.append(&mut follow);
                    let seg = *rng.pick(&SEGS);
                    drive(&mut conn, &all, all.len(), seg, rng, 20.0)
                }
                // the body arrives late, maybe after the handler returned
                1 if s.resp != "echo" => {
                    let b = s.bytes();
                    let h = s.head().len();
                    let cut = h + rng.below(len + 1);
                    let mut ok = conn.send(&b[..cut]).is_ok();
                    std::thread::sleep(Duration::from_millis(rng.range(5, 40) as u64));
                    ok &= conn.send(&b[cut..]).is_ok();
                    let _ = ok;
                    match conn.response(20.0, s.method == "HEAD") {
                        Ok(r) => s.check(&r),
                        Err(e) => Err(("no-response".into(), json!({"got": format!("{e:?}"), "pending": show(&conn.buf)}))),
                    }
                    .and_then(|_| drive(&mut conn, &follow, 3, Seg::Whole, rng, 20.0))
                }
                // the following requests are sent only after the response
                _ => drive(&mut conn, &all, 1, Seg::Cuts, rng, 20.0).and_then(|_| drive(&mut conn, &follow, 1, Seg::Whole, rng, 20.0)),
            };
            if let Err((sig, d)) = r {
                return c.violation(&sig, json!({"case": ctxt, "detail": d}));
            }
            // what the handler did read must be the beginning of what was sent
            if let Some(o) = lock(&log_of(tls, &log, &tlog).seen).get(&s.id).and_then(|v| v.first()) {
                if !s.body.starts_with(&o.read) || o.err.is_some() {
                    return c.violation("handler-read-other-bytes", json!({"case": ctxt, "read_len": o.read.len(), "error": o.err, "read": show(&o.read[..o.read.len().min(100)])}));
                }
            }
            c.count("unread_then_next_request_ok", 1);
            c.count("body_bytes_sent", len as u64);
            c.sample(ctxt);
        }
        if !conn.quiet_for(2) && !conn.buf.is_empty() {
            c.violation("bytes-nobody-asked-for", json!({"case": i, "bytes": show(&conn.buf)}));
        }
    });
    large.into_iter().for_each(crate::big::end);
    srv.stop();
    tsrv.stop();
    if !c.violated() {
        for (log, exp, tls) in [(&log, &expected, false), (&tlog, &texpected, true)] {
            for (sig, d) in check_log(log, &lock(exp), &HashSet::new()) {
                c.violation(&sig, json!({"tls": tls, "detail": d}));
            }
        }
    }
    require("request_bodies_over_32_bits", 2);
    require("bodies_over_4_mib", 5);
    require("unread_then_next_request_ok", 500);
}
