//! C02: handlers see exactly the request that was sent, however it is cut up.
use crate::srv::*;
use crate::traffic::*;
use crate::util::*;
use serde_json::json;
use std::collections::BTreeMap;

const PATHS: [&str; 12] = ["/", "/a", "/a/b/c", "/index.html", "/%20x%2fy", "/~user/:p;v=1", "/a!$&'()*+,;=:@", "/%C3%A9", "/a.b/c..d", "/A/a", "/...", "/p|q^r`{}\"<>\\"];
const QUERIES: [&str; 8] = ["", "?", "?a=1", "?a=/../b&c=//", "?x=%20&y=[]", "?#frag", "?a?b?c", "?=.."];

fn target(rng: &mut Rng) -> String {
    let mut t = rng.pick(&PATHS).to_string();
    if rng.chance(1, 12) {
        t = format!("/{}", payload(&rng.token(4), rng.clone().range(500, 60_000)).iter().map(|b| *b as char).collect::<String>());
    }
    if rng.chance(1, 15) {
        t.push_str("/été/日本");
        t = t.replace("//", "/");
    }
    t + *rng.pick(&QUERIES)
}

fn case_mix(rng: &mut Rng, s: &str) -> String {
    match rng.below(4) {
        0 => s.to_ascii_lowercase(),
        1 => s.to_ascii_uppercase(),
        2 => s.into(),
        _ => s.chars().map(|ch| if rng.chance(1, 2) { ch.to_ascii_uppercase() } else { ch.to_ascii_lowercase() }).collect(),
    }
}

fn value(rng: &mut Rng) -> String {
    match rng.below(9) {
        0 => String::new(),
        1 => "a, b;q=0.5, \"c\\\"d\"".into(),
        2 => "with  inner\t blanks".into(),
        3 => "http://x:8080/?a=b:c".into(),
        4 => "été 日本 €".into(),
        // every byte that can be part of a character outside ASCII
        8 if rng.chance(1, 2) => (0..rng.range(1, 30)).filter_map(|_| {
            let (from, n) = *rng.pick(&[(0x80, 0x80), (0x80, 0x780), (0x800, 0xC000), (0x10000, 0x100000)]);
            char::from_u32(from + rng.below(n) as u32)
        }).filter(|ch| !ch.is_whitespace() && !ch.is_control()).collect(),
        5 => (33u8..127).map(|b| b as char).collect(),
        6 => {
            let max = if rng.chance(1, 25) { 600_000 } else { 20_000 };
            String::from_utf8(payload(&rng.token(5), rng.clone().range(1, max))).unwrap()
        }
        7 => rng.next().to_string(),
        // what is blank in Unicode is not in HTTP
        _ if rng.chance(1, 3) => {
            let blank = ['\u{a0}', '\u{85}', '\u{3000}', '\u{2003}', '\u{2028}', '\u{1680}', '\u{feff}'];
            format!("{}{}{}", rng.pick(&blank), rng.token(2), rng.pick(&blank))
        }
        _ => rng.token(8),
    }
}

/// A value that is no UTF-8: each octet is one character.
fn octets(rng: &mut Rng) -> String {
    loop {
        let s: String = (0..rng.range(1, 12)).map(|_| if rng.chance(1, 3) { *rng.pick(&['\u{a0}', '\u{85}', '\u{ff}', '\u{c3}']) } else { char::from(rng.range(0x80, 0xff) as u8) }).collect();
        if std::str::from_utf8(&latin(&s)).is_err() {
            return s;
        }
    }
}
fn latin(s: &str) -> Vec<u8> {
    s.chars().map(|ch| ch as u8).collect()
}

struct Sent {
    spec: Spec,
    bytes: Vec<u8>,
    uri: String,
    headers: BTreeMap<String, Vec<String>>,
}

fn make(rng: &mut Rng, max_body: usize) -> Sent {
    let body = if rng.chance(2, 3) { body_bytes(rng, max_body) } else { vec![] };
    make_with(rng, body)
}

fn make_with(rng: &mut Rng, body: Vec<u8>) -> Sent {
    let mut s = Spec::simple("f");
    s.method = METHODS[rng.below(METHODS.len())].0;
    s.target = target(rng);
    s.read = rng.pick(&["all", "allcontent", "string"]).to_string();
    s.resp = *rng.pick(&["str", "content", "status"]);
    s.resp_len = rng.below(300);
    let mut headers: Vec<(String, String)> = vec![];
    let v10 = rng.chance(1, 4);
    if v10 {
        s.version = "HTTP/1.0";
        headers.push(("Connection".into(), "keep-alive".into()));
    }
    headers.push(("X-Vid".into(), s.id.clone()));
    headers.push(("X-Vread".into(), s.read.clone()));
    headers.push(("X-Vresp".into(), format!("{}:{}", s.resp, s.resp_len)));
    let names = ["Host", "User-Agent", "Accept", "Cookie", "X-A", "x-b", "X_Odd.Name!", "ETag", "If-None-Match", "X-1-2-3", "Z"];
    let many = rng.chance(1, 12);
    let max = if rng.chance(1, 10) { 4000 } else { 400 };
    let mut size = 0;
    for _ in 0..if many { rng.range(50, max) } else { rng.below(9) } {
        let n = if many && rng.chance(1, 2) { format!("X-{}", rng.token(5)) } else { rng.pick(&names).to_string() };
        let v = if many && !rng.chance(1, 20) { rng.token(9) } else { value(rng) };
        if size + n.len() + v.len() + 20 > 700_000 {
            break;
        }
        size += n.len() + v.len() + 20;
        headers.push((n, v));
    }
    c().max("most_header_fields", headers.len() as u64);
    if rng.chance(1, 3) {
        for _ in 0..rng.range(2, 4) {
            let v = value(rng);
            if size + v.len() < 800_000 {
                size += v.len() + 20;
                headers.push(("X-Rep".into(), v));
            }
        }
    }
    if !body.is_empty() {
        s.body = body;
        headers.push(("Content-Length".into(), s.body.len().to_string()));
        if rng.chance(1, 3) {
            headers.push(("Content-Type".into(), rng.pick(&["text/plain", "application/json; charset=utf-8", "multipart/form-data; boundary=x"]).to_string()));
        }
        if rng.chance(1, 12) {
            headers.push(("Transfer-Encoding".into(), "identity".into()));
        }
    } else if rng.chance(1, 4) {
        headers.push(("Content-Length".into(), "0".into()));
    }
    let mut raw = vec![];
    if rng.chance(1, 6) {
        raw.push(octets(rng));
        headers.push((rng.pick(&["X-Octets", "Cookie"]).to_string(), raw[0].clone()));
        c().count("values_that_are_no_utf8", 1);
    }
    rng.shuffle(&mut headers);
    let mut model: BTreeMap<String, Vec<String>> = BTreeMap::new();
    let mut b = format!("{} {} {}\r\n", s.method, s.target, s.version).into_bytes();
    for (n, v) in &headers {
        model.entry(n.to_ascii_lowercase()).or_default().push(v.clone());
        let lead = *rng.pick(&["", " ", "  ", "\t", " \t "]);
        let trail = *rng.pick(&["", "", " ", "\t ", "   "]);
        b.extend_from_slice(format!("{}:{lead}", case_mix(rng, n)).as_bytes());
        b.extend_from_slice(&if raw.contains(v) { latin(v) } else { v.clone().into_bytes() });
        b.extend_from_slice(format!("{trail}\r\n").as_bytes());
    }
    b.extend_from_slice(b"\r\n");
    assert!(b.len() < 1 << 20, "a head of {} bytes", b.len());
    c().max("longest_head", b.len() as u64);
    b.extend_from_slice(&s.body);
    let uri = s.target.clone();
    Sent { spec: s, bytes: b, uri, headers: model }
}

fn compare(t: &Sent, o: &Obs) -> Option<(&'static str, serde_json::Value)> {
    if o.method != t.spec.method {
        return Some(("method-differs", json!({"sent": t.spec.method, "seen": o.method})));
    }
    if o.uri != t.uri {
        return Some(("target-differs", json!({"sent": clip(&t.uri, 300), "seen": clip(&o.uri, 300)})));
    }
    if o.version != t.spec.version {
        return Some(("version-differs", json!({"sent": t.spec.version, "seen": o.version})));
    }
    let seen: BTreeMap<String, Vec<String>> = o.headers.iter().cloned().collect();
    if seen != t.headers {
        let diff: Vec<_> = t.headers.iter().filter(|(k, v)| seen.get(*k) != Some(v)).map(|(k, v)| json!({"name": k, "sent": clip(&format!("{v:?}"), 200), "seen": clip(&format!("{:?}", seen.get(k)), 200)})).take(4).collect();
        let extra: Vec<_> = seen.keys().filter(|k| !t.headers.contains_key(*k)).collect();
        return Some(("headers-differ", json!({"differences": diff, "never_sent": extra})));
    }
    if o.read != t.spec.body || o.err.is_some() {
        let at = o.read.iter().zip(&t.spec.body).position(|(a, b)| a != b);
        return Some(("body-differs", json!({"sent_len": t.spec.body.len(), "seen_len": o.read.len(), "first_difference": at, "error": o.err})));
    }
    if o.body_len != t.spec.body.len() as u64 {
        return Some(("body-length-differs", json!({"sent": t.spec.body.len(), "seen": o.body_len})));
    }
    None
}

pub fn run() {
    let c = c();
    c.rule("a case is one request (method, target, version, header set with letter cases and blanks, body) sent with one segmentation on a kept-alive connection; non-trivial when it has headers beyond the minimum, a body or more than one segment; distinct by method, version, header name set, body length and segmentation");
    c.assume("heads stay below 1 MiB, header values are ASCII or UTF-8 text, or octets read as one character each, targets are in normal form (C10 covers the others)");
    let (srv, log) = universal(false, timeouts(30_000, 30_000));
    let conns = c.n(3000, 60_000);
    let large = crate::big::beside(|| crate::big::requests(&[None]));
    par(32, conns, "c02", |i, rng| {
        let mut conn = match srv.conn() {
            Ok(x) => x,
            Err(e) => return c.violation("cannot-connect", json!({"error": e.to_string()})),
        };
        let big = i % 40 == 7;
        for k in 0..rng.range(1, 6) {
            let depth = if rng.chance(1, 4) && !big { rng.range(2, 4) } else { 1 };
            let mut sent: Vec<Sent> = (0..depth).map(|_| make(rng, if big { 3_000_000 } else if depth > 1 { 5000 } else { 70_000 })).collect();
            if i % 300 == 11 && k == 0 {
                // beyond any size a buffer may have
                let n = *rng.pick(&[(4 << 20) + 1, 8 << 20, (16 << 20) + 7, 35_000_000]);
                sent = vec![make_with(rng, payload("large", n))];
                c.count("bodies_over_4_mib", 1);
            }
            let seg = *rng.pick(&SEGS);
            let bytes: Vec<u8> = sent.iter().flat_map(|t| t.bytes.clone()).collect();
            let n = send_cut(&mut conn, &bytes, seg, rng).unwrap_or(0);
            c.count("segments_written", n as u64);
            for t in &sent {
                let key = (t.spec.method, t.spec.version, t.headers.keys().cloned().collect::<Vec<_>>(), t.spec.body.len(), seg);
                c.eval(Some(key));
                let ctxt = json!({"case": i, "position_on_connection": k, "seg": format!("{seg:?}"), "pipelined": depth, "head": show(&t.bytes[..t.bytes.len().min(500)]), "body_len": t.spec.body.len()});
                match conn.response(25.0, t.spec.method == "HEAD") {
                    Err(e) => return c.violation("well-formed-request-not-answered", json!({"request": ctxt, "got": format!("{e:?}"), "pending": show(&conn.buf)})),
                    Ok(r) => {
                        if let Err((sig, d)) = t.spec.check(&r) {
                            return c.violation(&sig, json!({"request": ctxt, "detail": d}));
                        }
                    }
                }
                let obs = lock(&log.seen).remove(&t.spec.id).unwrap_or_default();
                if obs.len() != 1 {
                    return c.violation("handler-did-not-see-the-request-once", json!({"request": ctxt, "times": obs.len()}));
                }
                if let Some((sig, d)) = compare(t, &obs[0]) {
                    return c.violation(sig, json!({"request": ctxt, "detail": d}));
                }
                c.count("requests_compared", 1);
                c.count("header_values_compared", t.headers.values().map(|v| v.len() as u64).sum());
                c.count("body_bytes_compared", t.spec.body.len() as u64);
                if i < 3 {
                    c.sample(ctxt);
                }
            }
        }
    });
    crate::big::end(large);
    srv.stop();
    require("request_bodies_over_32_bits", 1);
    require("requests_compared", 500);
    require("values_that_are_no_utf8", 100);
}
