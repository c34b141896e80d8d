//! HTTP harnesses: requests, responses, bodies.
use crate::host::{ReadMode, WriteMode};
use crate::sys;
use crate::ws::{mode_of, text, Src};
use puck::body::Body;
use puck::request::Method;
use puck::{Request, Response};
use std::io::{Read, Write};

pub fn upper(b: u8) -> bool { sys::and(b >= b'A', b <= b'Z') }
pub fn lower(b: u8) -> bool { sys::and(b >= b'a', b <= b'z') }
pub fn digit(b: u8) -> bool { sys::and(b >= b'0', b <= b'9') }
/// a source whose delivery is cut at two arbitrary places (mode 2), or with another mode
pub fn src(d: Vec<u8>, mode: usize) -> Src {
    let n = d.len() as u32;
    let s = Src::new(d, mode_of(mode));
    if mode == 2 { let a = sys::choose(0, n); let b = sys::choose(a as u32, n); s.0.borrow_mut().cuts = vec![a, b]; }
    s
}
/// n bytes of a class
pub fn class(n: usize, f: fn(u8) -> bool) -> Vec<u8> {
    let b = sys::bytes(n);
    for i in 0..n { sys::assume(f(b[i])); }
    b
}
pub fn string(b: Vec<u8>) -> String { unsafe { String::from_utf8_unchecked(b) } }
/// characters of a path segment that need no escaping (no dots, so no dot segments)
fn seg_char(b: u8) -> bool { sys::or(sys::or(upper(b), lower(b)), sys::or(digit(b), sys::or(b == b'-', sys::or(b == b'_', b == b'~')))) }
fn query_char(b: u8) -> bool { sys::or(seg_char(b), sys::or(b == b'=', sys::or(b == b'&', sys::or(b == b'/', b == b'?')))) }
fn name_char(b: u8) -> bool { sys::or(sys::or(upper(b), lower(b)), sys::or(digit(b), sys::or(b == b'-', b == b'_'))) }
/// visible ASCII or a space
fn value_char(b: u8) -> bool { sys::and(b >= 0x20, b < 0x7f) }
fn token_char(b: u8) -> bool { sys::or(name_char(b), sys::or(b == b'.', b == b'!')) }

/// a header value of exactly n bytes, neither starting nor ending with a space
pub fn value(n: usize) -> Vec<u8> {
    let v = class(n, value_char);
    if n > 0 { sys::assume(sys::and(v[0] != b' ', v[n - 1] != b' ')); }
    v
}
/// a header name of n bytes, other than the ones with a meaning
pub fn name(n: usize) -> Vec<u8> { class(n, name_char) }

/// "/" and up to `segs` segments of up to `max` characters
pub fn path(segs: usize, max: usize) -> Vec<u8> {
    let mut p = vec![b'/'];
    let k = sys::choose(0, segs as u32);
    for i in 0..k {
        if i > 0 { p.push(b'/'); }
        let n = sys::choose(0, max as u32);
        p.extend(class(n, seg_char));
    }
    p
}
pub fn same_method(m: &Method, want: &[u8]) -> bool {
    match m {
        Method::Get => want.eq_ignore_ascii_case(b"GET"),
        Method::Post => want.eq_ignore_ascii_case(b"POST"),
        Method::Head => want.eq_ignore_ascii_case(b"HEAD"),
        Method::OtherMethod(s) => sys::eq(s.as_bytes(), want),
    }
}
/// does the map contain exactly these headers
pub fn same_headers(m: &std::collections::HashMap<String, String>, want: &[(Vec<u8>, Vec<u8>)]) -> bool {
    let mut ok = m.len() == want.len();
    for (n, v) in want {
        let mut found = false;
        for (k, x) in m.iter() {
            if k.len() == n.len() && x.len() == v.len() { found = sys::or(found, sys::and(sys::eq(k.as_bytes(), n), sys::eq(x.as_bytes(), v))); }
        }
        ok = sys::and(ok, found);
    }
    ok
}
/// everything a body has to offer, read with buffers of `step` bytes
pub fn drain(b: &mut Body, step: usize) -> Option<Vec<u8>> {
    let mut out = vec![];
    let mut buf = vec![0u8; step];
    loop {
        match b.read(&mut buf) {
            Ok(0) => return Some(out),
            Ok(n) => out.extend_from_slice(&buf[..n]),
            Err(_) => return None,
        }
    }
}
fn method_bytes(kind: usize) -> Vec<u8> {
    match kind {
        0 => b"GET".to_vec(),
        1 => b"POST".to_vec(),
        2 => b"HEAD".to_vec(),
        3 => b"DELETE".to_vec(),
        _ => { let n = sys::choose(1, 3); let m = class(n, token_char); m }
    }
}
/// n characters of a class, where all but the first, the middle and the last two are fixed if there are many
fn long(n: usize, f: fn(u8) -> bool) -> Vec<u8> {
    if n <= 8 { return class(n, f); }
    let mut v = class(2, f);
    v.resize(n / 2, b'x');
    v.extend(class(2, f));
    v.resize(n - 2, b'y');
    v.extend(class(2, f));
    v
}
/// long parts (what 4: a header value, 5: the path, 6: the query, 7: a header name, 8: the number of headers) of
/// param(5)..=param(1) characters
fn long_parts(what: usize) -> (Option<Vec<u8>>, Option<Vec<u8>>, Vec<(Vec<u8>, Vec<u8>)>) {
    if what < 4 { return (None, None, vec![]); }
    let n = sys::choose(sys::param(5) as u32, sys::param(1) as u32);
    match what {
        4 => {
            let v = long(n, value_char);
            if n > 0 { sys::assume(sys::and(v[0] != b' ', v[n - 1] != b' ')); }
            (None, None, vec![(b"X-Long".to_vec(), v)])
        }
        5 => { let mut p = vec![b'/']; p.extend(long(n, seg_char)); (Some(p), None, vec![]) }
        6 => (None, Some(long(n, query_char)), vec![]),
        7 => { let v = value(1); (None, None, vec![(long(n, name_char), v)]) }
        _ => { let v = value(1); (None, None, (0..n).map(|i| (format!("x{}", i).into_bytes(), v.clone())).collect()) }
    }
}
/// distinct up to case
fn distinct(a: &[u8], b: &[u8]) { if a.len() == b.len() { sys::assume(!crate::ws::eq_nocase(a, b)); } }

/// a well-formed request built from arbitrary parts.  params: what varies (0 method and query, 1 path,
/// 2 headers, 3 body), a size, delivery mode
#[no_mangle]
pub extern "C" fn h_req() {
    let (what, size, mode) = (sys::param(0), sys::param(1), sys::param(2));
    let m = if what == 0 { method_bytes(sys::choose(0, 4)) } else { b"POST".to_vec() };
    let p = if what == 1 { path(size, 2) } else { b"/p".to_vec() };
    let q = if what == 0 && sys::boolean() { let n = sys::choose(0, size as u32); Some(class(n, query_char)) } else { None };
    let (lp, lq, lh) = long_parts(what);
    let (p, q) = (lp.unwrap_or(p), lq.or(q));
    let mut d = vec![];
    d.extend_from_slice(&m);
    d.push(b' ');
    d.extend_from_slice(&p);
    if let Some(q) = &q { d.push(b'?'); d.extend_from_slice(q); }
    d.extend_from_slice(b" HTTP/1.1\r\n");
    let mut hs: Vec<(Vec<u8>, Vec<u8>)> = vec![];
    let k = if what == 2 { sys::choose(0, size as u32) } else { 0 };
    for _ in 0..k {
        let nl = sys::choose(1, 2);
        let n = name(nl);
        for (o, _) in &hs { distinct(o, &n); }
        let vl = sys::choose(0, 2);
        let v = value(vl);
        d.extend_from_slice(&n);
        d.push(b':');
        match sys::choose(0, 2) { 0 => {} 1 => d.push(b' '), _ => d.extend_from_slice(b" \t ") }
        d.extend_from_slice(&v);
        d.extend_from_slice(b"\r\n");
        hs.push((n, v));
    }
    for (n, v) in lh {
        distinct(&n, b"Host"); distinct(&n, b"Content-Length");
        d.extend_from_slice(&n); d.extend_from_slice(b": "); d.extend_from_slice(&v); d.extend_from_slice(b"\r\n");
        hs.push((n, v));
    }
    let host = if what == 2 { crate::ws::any_case("Host").into_bytes() } else { b"Host".to_vec() };
    d.extend_from_slice(&host);
    d.extend_from_slice(b": h\r\n");
    hs.push((host, b"h".to_vec()));
    let body = if what == 3 {
        let n = sys::choose(sys::param(5) as u32, size as u32);
        let cl = if sys::param(5) > 0 { b"Content-Length".to_vec() } else { crate::ws::any_case("Content-Length").into_bytes() };
        let v = n.to_string().into_bytes();
        d.extend_from_slice(&cl);
        d.extend_from_slice(b": ");
        d.extend_from_slice(&v);
        d.extend_from_slice(b"\r\n");
        hs.push((cl, v));
        if n > 70000 { long(n, |_| true) } else { sys::bytes(n) }
    } else { vec![] };
    d.extend_from_slice(b"\r\n");
    d.extend_from_slice(&body);
    if what == 3 { let n = sys::choose(0, 2); d.extend(sys::bytes(n)); }
    match Request::parse(src(d, mode)) {
        Ok(Some(mut r)) => {
            sys::cover("parsed");
            sys::check(same_method(r.method(), &m), "req: the method is the one sent");
            sys::check(r.url().path().len() == p.len() && sys::eq(r.url().path().as_bytes(), &p), "req: the path is the one sent");
            sys::check(match (r.url().query(), &q) { (None, None) => true, (Some(a), Some(b)) => a.len() == b.len() && sys::eq(a.as_bytes(), b), _ => false }, "req: the query is the one sent");
            sys::check(r.url().host_str() == Some("h"), "req: the host is the one of the Host header");
            sys::check(same_headers(r.headers(), &hs), "req: the headers are the ones sent");
            if what == 3 {
                let step = if body.len() > 1000 { 4096 } else { sys::choose(1, 4) };
                match drain(&mut r.take_body(), step) {
                    Some(b) => { sys::check(b.len() == body.len() && sys::eq(&b, &body), "req: the body is exactly the Content-Length bytes after the head"); sys::log(&b); }
                    None => sys::check(false, "req: the body can be read"),
                }
            }
        }
        Ok(None) => sys::check(false, "req: a complete request is not reported as an empty one"),
        Err(_) => sys::check(false, "req: a well-formed request is accepted"),
    }
}
/// starts of a Host header, and whether it is a good one by itself (or with a letter behind it)
const HOSTS: [(&str, bool); 16] = [("http:", false), ("https:", false), ("http", true), ("https.example", true), ("user:pw", false), ("a%2f", false), ("[::1]", false), ("[::1]:80", true), ("127.0.0.1", false), ("example.com", true), ("localhost:8080", true), ("a.b-c.example", true), ("//", false), ("xn--bcher-kva.example", true), ("h:", false), ("file:", false)];
/// the Host header does not decide where a request goes.  params: most characters, between other text or not
#[no_mangle]
pub extern "C" fn h_req_host() {
    let n = sys::choose(0, sys::param(0) as u32);
    let mut v = class(n, |b| sys::and(b < 0x80, sys::or(b >= 0x20, b == 9)));
    let (mut path, mut query, mut named) = ("/p", "q", n > 0);
    if sys::param(1) == 1 {
        let h = HOSTS[sys::choose(0, HOSTS.len() as u32 - 1) as usize];
        let t = ["", "a", ":80", "%2f"][sys::choose(0, 3) as usize];
        named = n == 0 && (h.1 && (t == "" || t == "a" && !h.0.contains(':')));
        v = [h.0.as_bytes(), &v, t.as_bytes()].concat();
        (path, query) = [("/p", "q"), ("//p/q", "http://x/?"), ("/", ":@/")][sys::choose(0, 2) as usize];
    }
    let mut d = format!("GET {}?{} HTTP/1.1\r\nHost: ", path, query).into_bytes();
    d.extend_from_slice(&v);
    d.extend_from_slice(b"\r\n\r\n");
    match Request::parse(Src::new(d, ReadMode::Full)) {
        Ok(Some(r)) => {
            sys::cover("parsed");
            sys::check(r.url().path() == path, "hosthdr: the path is the one of the request line, whatever the Host header");
            sys::check(r.url().query() == Some(query), "hosthdr: the query is the one of the request line, whatever the Host header");
            sys::check(r.url().scheme() == "http" && r.url().fragment().is_none(), "hosthdr: the Host header adds nothing but a host to the URL");
            sys::check(r.url().username().is_empty() && r.url().password().is_none(), "hosthdr: the Host header adds nothing but a host to the URL");
            sys::log(r.url().as_str().as_bytes());
        }
        Ok(None) => sys::check(false, "hosthdr: a complete request is not reported as an empty one"),
        Err(_) => {
            sys::cover("refused");
            let mut plain = named;
            if sys::param(1) == 0 { for c in &v { plain = sys::and(plain, sys::or(lower(*c), upper(*c))); } }
            sys::check(!plain, "hosthdr: an ordinary host name is accepted");
        }
    }
}
/// how many headers a request has.  params: most
#[no_mangle]
pub extern "C" fn h_req_headers() {
    let n = sys::choose(0, sys::param(0) as u32);
    let mut d = b"GET / HTTP/1.1\r\n".to_vec();
    let at = if n == 0 { 0 } else { sys::choose(0, n as u32 - 1) };
    let mut hs = vec![];
    let v = value(1);
    for i in 0..n {
        let (k, v) = if i == at { (b"host".to_vec(), b"h".to_vec()) } else { (format!("x{}", i).into_bytes(), v.clone()) };
        d.extend_from_slice(&k); d.extend_from_slice(b": "); d.extend_from_slice(&v); d.extend_from_slice(b"\r\n");
        hs.push((k, v));
    }
    d.extend_from_slice(b"\r\n");
    let r = Request::parse(Src::new(d, ReadMode::Full));
    if n == 0 { sys::check(r.is_err(), "req: a request without a Host header is refused"); return; }
    match r {
        Ok(Some(r)) => { sys::cover("parsed"); sys::check(same_headers(r.headers(), &hs), "req: every header of a request is kept"); }
        Ok(None) => sys::check(false, "req: a complete request is not reported as an empty one"),
        Err(_) => { sys::cover("too many"); sys::check(n > 20, "req: up to 20 headers are accepted"); }
    }
}
/// templates a window of arbitrary bytes is put into
pub const REQS: [&[u8]; 4] = [
    b"GET /a?b HTTP/1.1\r\nHost: h\r\n\r\nxyz",
    b"POST /a HTTP/1.1\r\nHost: h\r\nContent-Length: 3\r\n\r\nabcd",
    b"GET http://h/ HTTP/1.0\r\nA:\r\nhost:g:80\r\n\r\n",
    b"CONNECT h:1 HTTP/1.1\nHost: h\n\nq\r\n\r\nz",
];
pub fn head_end(d: &[u8]) -> Option<usize> { (3..d.len()).find(|&i| d[i - 3] == b'\r' && d[i - 2] == b'\n' && d[i - 1] == b'\r' && d[i] == b'\n').map(|i| i + 1) }
/// the head as lines, when every line ends in CRLF and there is no other CR or LF
fn strict_lines(h: &[u8]) -> Option<Vec<&[u8]>> {
    let mut v = vec![];
    let mut s = 0;
    let mut i = 0;
    while i < h.len() {
        if h[i] == b'\r' { if i + 1 < h.len() && h[i + 1] == b'\n' { v.push(&h[s..i]); i += 2; s = i; continue; } return None; }
        if h[i] == b'\n' { return None; }
        i += 1;
    }
    Some(v)
}
/// a template with arbitrary bytes put into it.  params: template, bytes replaced, most bytes inserted, delivery
/// mode, cut (1: the stream may end anywhere), first and last (0: the end) position, ASCII only (1)
pub fn window(ts: &[&[u8]]) -> Vec<u8> {
    let t = ts[sys::param(0)];
    let w = sys::param(1);
    let hi = if sys::param(6) == 0 { t.len() } else { sys::param(6) };
    let at = sys::choose(sys::param(5) as u32, (hi - w) as u32);
    let ins = sys::choose(0, sys::param(2) as u32);
    let mut d = t[..at].to_vec();
    let b = sys::bytes(w + ins);
    if sys::param(7) == 1 { for x in &b { sys::assume(*x < 0x80); } }
    d.extend(b);
    d.extend_from_slice(&t[at + w..]);
    d
}
/// is there an empty line (however its ends are written) before the one at the end
fn early_blank(h: &[u8]) -> bool {
    let mut started = false;
    for i in 0..h.len() {
        if h[i] == b'\n' {
            if started && i + 2 < h.len() && (h[i + 1] == b'\n' || (h[i + 1] == b'\r' && h[i + 2] == b'\n' && i + 3 < h.len())) { return true; }
        } else if h[i] != b'\r' { started = true; }
    }
    false
}
/// arbitrary bytes inside a request
#[no_mangle]
pub extern "C" fn h_req_any() {
    let mut d = window(&REQS);
    if sys::param(4) == 1 { let n = sys::choose(0, d.len() as u32); d.truncate(n); }
    let s = src(d.clone(), sys::param(3));
    s.0.borrow_mut().err_at_end = sys::param(4) == 1 && sys::boolean();
    let failing = s.0.borrow().err_at_end;
    match Request::parse(s) {
        Ok(None) => { sys::cover("ended early"); sys::check(head_end(&d).is_none(), "any: only a stream which ends before the head is complete counts as empty"); sys::check(!failing, "any: a read error is not taken for an empty stream"); }
        Err(puck::request::RequestParseError::IoError(_)) => sys::check(failing && head_end(&d).is_none(), "any: a read error is reported only when reading failed"),
        Err(_) => { sys::cover("refused"); sys::check(head_end(&d).is_some(), "any: a request is refused only once its head is complete"); }
        Ok(Some(mut r)) => {
            sys::cover("accepted");
            match head_end(&d) {
                None => sys::check(false, "any: a request is accepted only once its head is complete"),
                Some(e) => {
                    sys::check(!early_blank(&d[..e]), "any: no part of the body is taken for a part of the head");
                    // the body is what follows the head, up to the Content-Length
                    let strict = strict_lines(&d[..e]);
                    let mut len = d.len() - e;
                    if let Some(ls) = &strict {
                        sys::check(ls.len() >= 3, "any: an accepted request has a request line and a Host header");
                        let mut hosts = 0;
                        for l in &ls[1..] {
                            if l.len() >= 5 && crate::ws::eq_nocase(&l[..5], b"host:") { hosts += 1; }
                            if l.len() >= 15 && crate::ws::eq_nocase(&l[..15], b"content-length:") {
                                if let Some(n) = cl_value(&l[15..]) { len = len.min(n); }
                            }
                        }
                        sys::check(hosts >= 1 || ls[0].is_empty(), "any: an accepted request has a Host header");
                        sys::check(r.headers().len() <= ls.len(), "any: no header is made up");
                        sys::check(from_lines(r.headers(), &ls[1..]), "any: every header is, name and value, one of those sent");
                    }
                    match drain(&mut r.take_body(), 8) {
                        Some(b) if strict.is_some() => sys::check(b.len() == len && sys::eq(&b, &d[e..e + len]), "any: the body is what follows the head, up to the Content-Length"),
                        Some(b) => sys::check(b.len() <= len && sys::eq(&b, &d[e..e + b.len()]), "any: the body is part of what follows the head"),
                        None => sys::check(failing, "any: the body can be read"),
                    }
                }
            }
        }
    }
}
fn blank(b: u8) -> bool { b == b' ' || b == b'\t' }
fn trimmed(v: &[u8]) -> &[u8] {
    let mut t = v;
    while !t.is_empty() && blank(t[0]) { t = &t[1..] }
    while !t.is_empty() && blank(t[t.len() - 1]) { t = &t[..t.len() - 1] }
    t
}
/// is every header one of the lines
fn from_lines(m: &std::collections::HashMap<String, String>, ls: &[&[u8]]) -> bool {
    let mut ok = true;
    for (k, v) in m.iter() {
        let n = k.len();
        let mut found = false;
        for l in ls {
            if l.len() <= n || n == 0 { continue; }
            let x = trimmed(&l[n + 1..]);
            if x.len() == v.len() { found = sys::or(found, sys::and(l[n] == b':', sys::and(sys::eq(k.as_bytes(), &l[..n]), sys::eq(x, v.as_bytes())))); }
        }
        ok = sys::and(ok, found);
    }
    ok
}
/// digits, surrounded by optional spaces
fn cl_value(v: &[u8]) -> Option<usize> {
    let mut t = v;
    while !t.is_empty() && (t[0] == b' ' || t[0] == b'\t') { t = &t[1..] }
    while !t.is_empty() && (t[t.len() - 1] == b' ' || t[t.len() - 1] == b'\t') { t = &t[..t.len() - 1] }
    if t.is_empty() { return None; }
    let mut n = 0u64;
    for &c in t { if !digit(c) { return None; } n = (n * 10 + (c - b'0') as u64).min(1 << 40); }
    if n > u32::MAX as u64 { return None; }
    let n = n as usize;
    Some(n)
}
/// what the Content-Length header says.  params: most characters, body bytes that follow, headers (1 or 2), 1: behind digits near
/// the limits of number types
#[no_mangle]
pub extern "C" fn h_req_length() {
    let mut d = b"POST / HTTP/1.1\r\nHost: h\r\n".to_vec();
    let mut vals = vec![];
    for i in 0..sys::param(2) {
        let n = sys::choose(0, sys::param(0) as u32);
        let mut v = value(n);
        // near the limits of the number types
        if sys::param(3) == 1 {
            let mut p = ["429496729", "1844674407370955161", "922337203685477580", "34028236692093846346337460743176821145", "0000000000000000000"][sys::choose(0, 4) as usize].as_bytes().to_vec();
            p.extend(v);
            v = p;
        }
        let _ = i;
        d.extend_from_slice(crate::ws::any_case("Content-Length: ").as_bytes());
        d.extend_from_slice(&v);
        d.extend_from_slice(b"\r\n");
        vals.push(v);
    }
    d.extend_from_slice(b"\r\n");
    let b = sys::bytes(sys::param(1));
    d.extend_from_slice(&b);
    let lens: Vec<Option<usize>> = vals.iter().map(|v| cl_value(v)).collect();
    let r = Request::parse(Src::new(d, ReadMode::Full));
    let good = lens[0].is_some() && lens.iter().all(|l| *l == lens[0]);
    match r {
        Ok(Some(mut r)) => {
            sys::check(good, "len: a request whose Content-Length is invalid or contradictory is refused");
            if good {
                let n = lens[0].unwrap();
                sys::cover("length");
                match drain(&mut r.take_body(), 16) {
                    Some(x) => sys::check(if n < b.len() { sys::eq(&x, &b[..sys::split(n as u32) as usize]) } else { sys::eq(&x, &b) }, "len: the body is exactly Content-Length bytes, or all there are"),
                    None => sys::check(false, "len: the body can be read"),
                }
            }
        }
        Ok(None) => sys::check(false, "len: a complete request is not reported as an empty one"),
        Err(_) => { sys::cover("refused"); sys::check(!good || vals.iter().any(|v| v.len() > 9), "len: a request with a valid Content-Length is accepted"); }
    }
}

/// a writer with a write mode
pub struct Out { pub data: Vec<u8>, pub mode: WriteMode }
impl Write for Out {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        let m = b.len();
        let k = match self.mode {
            WriteMode::Full => m,
            WriteMode::Any => if m <= 1 { m } else { sys::choose(1, m as u32) },
            WriteMode::Max(x) => m.min(x),
            WriteMode::Cut(x) => if self.data.len() < x { m.min(x - self.data.len()) } else { m },
            WriteMode::FailAfter(x) | WriteMode::FailOnce(x) => {
                if self.data.len() >= x && m > 0 { return Err(std::io::ErrorKind::BrokenPipe.into()); }
                m.min(x - self.data.len())
            }
        };
        self.data.extend_from_slice(&b[..k]);
        Ok(k)
    }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}
fn wmode() -> WriteMode { match sys::param(3) { 0 => WriteMode::Full, 1 => WriteMode::Any, 2 => WriteMode::Max(3), 4 => WriteMode::Cut(sys::choose(0, sys::param(4) as u32)), _ => WriteMode::FailAfter(sys::choose(0, sys::param(4) as u32)) } }
/// the parts of a message as written: first line, headers, the rest
pub fn parts(out: &[u8]) -> Option<(Vec<u8>, Vec<(Vec<u8>, Vec<u8>)>, Vec<u8>)> {
    let line = |from: usize| -> Option<usize> { (from..out.len().checked_sub(1)?).find(|&i| out[i] == b'\r' && out[i + 1] == b'\n') };
    let e = line(0)?;
    let first = out[..e].to_vec();
    let mut hs = vec![];
    let mut p = e + 2;
    loop {
        let e = line(p)?;
        if e == p { p += 2; break; }
        let l = &out[p..e];
        let c = l.iter().position(|c| *c == b':')?;
        let mut v = &l[c + 1..];
        while !v.is_empty() && v[0] == b' ' { v = &v[1..] }
        hs.push((l[..c].to_vec(), v.to_vec()));
        p = e + 2;
    }
    Some((first, hs, out[p..].to_vec()))
}
fn same_list(got: &[(Vec<u8>, Vec<u8>)], want: &[(Vec<u8>, Vec<u8>)]) -> bool {
    let mut ok = got.len() == want.len();
    for (n, v) in want {
        let mut found = false;
        for (k, x) in got { if k.len() == n.len() && x.len() == v.len() { found = sys::or(found, sys::and(sys::eq(k, n), sys::eq(x, v))); } }
        ok = sys::and(ok, found);
    }
    ok
}
/// request written and read back.  params: what varies (0 method, path, query; 1 headers; 2 body), size, read mode, write mode, failure limit
#[no_mangle]
pub extern "C" fn h_req_write() {
    let (what, size) = (sys::param(0), sys::param(1));
    let (m, method) = if what == 0 {
        match sys::choose(0, 4) {
            0 => (b"GET".to_vec(), Method::Get), 1 => (b"POST".to_vec(), Method::Post), 2 => (b"HEAD".to_vec(), Method::Head),
            3 => (b"DELETE".to_vec(), Method::OtherMethod("DELETE".into())),
            _ => { let n = sys::choose(1, 2); let t = class(n, token_char); (t.clone(), Method::OtherMethod(string(t))) }
        }
    } else { (b"GET".to_vec(), Method::Get) };
    let p = if what == 0 { path(size, 1) } else { b"/".to_vec() };
    let q = if what == 0 && sys::boolean() { let n = sys::choose(0, size as u32); Some(class(n, query_char)) } else { None };
    let (lp, lq, lh) = long_parts(what);
    let (p, q) = (lp.unwrap_or(p), lq.or(q));
    let mut u = b"http://h".to_vec();
    u.extend_from_slice(&p);
    if let Some(q) = &q { u.push(b'?'); u.extend_from_slice(q); }
    if what == 0 && sys::boolean() { u.extend_from_slice(b"#f"); }
    let mut b = Request::build(string(u)).method(method).header("Host", "h");
    let mut hs = vec![(b"Host".to_vec(), b"h".to_vec())];
    let k = if what == 1 { sys::choose(0, size as u32) } else { 0 };
    for _ in 0..k {
        let nl = sys::choose(1, 2);
        let n = name(nl);
        for (o, _) in &hs { distinct(o, &n); }
        let vl = sys::choose(0, 2);
        let v = value(vl);
        b = b.header(string(n.clone()), string(v.clone()));
        hs.push((n, v));
    }
    for (n, v) in lh {
        distinct(&n, b"Host"); distinct(&n, b"Content-Length");
        b = b.header(string(n.clone()), string(v.clone()));
        hs.push((n, v));
    }
    let body = if what == 2 { let n = sys::choose(sys::param(5) as u32, size as u32); if n > 70000 { long(n, |_| true) } else { sys::bytes(n) } } else { vec![] };
    let declared = what == 2 && sys::boolean();
    if declared { b = b.header("Content-Length", body.len().to_string()); hs.push((b"Content-Length".to_vec(), body.len().to_string().into_bytes())); }
    if what == 2 {
        let l = if sys::boolean() { Some(body.len()) } else { None };
        b = if sys::param(5) == 0 && sys::boolean() { b.body(Body::from_reader(std::io::BufReader::with_capacity(4, Src::new(body.clone(), ReadMode::Octet)), l)) }
            else { b.body(Body::from_reader(std::io::Cursor::new(body.clone()), l)) };
    }
    let mut r = b.build();
    let mut o = Out { data: vec![], mode: wmode() };
    let res = r.write(&mut o);
    if let WriteMode::FailAfter(k) = o.mode {
        sys::cover("failing write");
        if o.data.len() >= k && res.is_err() { return; }
    }
    sys::check(res.is_ok(), "wr: writing a request succeeds");
    match parts(&o.data) {
        None => sys::check(false, "wr: the request written has the form of a request"),
        Some((first, h, rest)) => {
            let mut want = m.clone();
            want.push(b' ');
            want.extend_from_slice(&p);
            if let Some(q) = &q { want.push(b'?'); want.extend_from_slice(q); }
            want.extend_from_slice(b" HTTP/1.1");
            sys::check(sys::eq(&first, &want), "wr: the request line has the method, the path, the query and the version");
            sys::check(same_list(&h, &hs), "wr: every header is written exactly once");
            sys::check(sys::eq(&rest, &body), "wr: the body is written after the head");
        }
    }
    match Request::parse(src(o.data, sys::param(2))) {
        Ok(Some(mut r)) => {
            sys::cover("read back");
            sys::check(same_method(r.method(), &m), "wr: a request read back has the same method");
            sys::check(sys::eq(r.url().path().as_bytes(), &p), "wr: a request read back has the same path");
            sys::check(match (r.url().query(), &q) { (None, None) => true, (Some(a), Some(b)) => sys::eq(a.as_bytes(), b), _ => false }, "wr: a request read back has the same query");
            sys::check(same_headers(r.headers(), &hs), "wr: a request read back has the same headers");
            let x = drain(&mut r.take_body(), if body.len() > 1000 { 4096 } else { 5 });
            sys::check(x.map(|x| sys::eq(&x, &body)) == Some(true), "wr: a request read back has the same body");
        }
        _ => sys::check(false, "wr: a request written can be read back"),
    }
}

// ------------------------------------------------------------------ responses
fn dec3(n: u32) -> Vec<u8> { vec![b'0' + (n / 100) as u8, b'0' + (n / 10 % 10) as u8, b'0' + (n % 10) as u8] }
fn reason_char(b: u8) -> bool { sys::and(b >= 0x20, b < 0x7f) }
/// a response built, written and read back.  params: what varies (0 status and reason, 1 headers, 2 body), size, read mode, write mode, failure limit
#[no_mangle]
pub extern "C" fn h_res() {
    let (what, size) = (sys::param(0), sys::param(1));
    let mut b = Response::build();
    let (mut status, mut reason) = (200u32, vec![]);
    if what == 0 {
        if sys::boolean() {
            status = sys::range(100, 999);
            let n = sys::choose(0, size as u32);
            reason = class(n, reason_char);
            b = b.status(status as u16, string(reason.clone()));
        } else { sys::cover("default status") }
    }
    let mut hs: Vec<(Vec<u8>, Vec<u8>)> = vec![];
    let k = if what == 1 { sys::choose(0, size as u32) } else { 0 };
    for _ in 0..k {
        let nl = sys::choose(1, 2);
        let n = name(nl);
        for (o, _) in &hs { distinct(o, &n); }
        let vl = sys::choose(0, 2);
        let v = value(vl);
        b = b.header(string(n.clone()), string(v.clone()));
        hs.push((n, v));
    }
    for (n, v) in long_parts(what).2 {
        distinct(&n, b"Content-Length"); distinct(&n, b"Content-Type");
        b = b.header(string(n.clone()), string(v.clone()));
        hs.push((n, v));
    }
    let mut body = vec![];
    let mut declared = false;
    if what == 0 && sys::boolean() {
        sys::assume(sys::and(status >= 200, sys::and(status != 204, status != 304)));
        body = b"text".to_vec();
        b = b.body(Body::from_reader(std::io::Cursor::new(body.clone()), None));
    }
    if what == 2 {
        let n = sys::choose(sys::param(5) as u32, size as u32);
        body = if n > 70000 { long(n, |_| true) } else { sys::bytes(n) };
        declared = sys::boolean();
        if declared {
            let cl = if sys::param(5) == 0 { crate::ws::any_case("Content-Length") } else { "content-length".to_string() };
            b = b.header(cl.clone(), body.len().to_string());
            hs.push((cl.into_bytes(), body.len().to_string().into_bytes()));
        }
        if sys::boolean() { b = b.header("Content-Type", "text/html"); hs.push((b"Content-Type".to_vec(), b"text/html".to_vec())); }
        b = match sys::choose(0, if sys::param(5) > 0 { 1 } else { 3 }) {
            0 => b.body(Body::from_reader(std::io::Cursor::new(body.clone()), Some(n))),
            1 => b.body(Body::from_reader(std::io::Cursor::new(body.clone()), None)),
            2 => b.body(Body::from_reader(std::io::BufReader::with_capacity(4, Src::new(body.clone(), ReadMode::Octet)), if sys::boolean() { Some(n) } else { None })),
            _ => match String::from_utf8(body.clone()) { Ok(s) => b.body(s), Err(_) => return },
        };
    }
    let r = b.build();
    sys::check(*r.status() as u32 == status, "res: the status is the one given");
    sys::check(sys::eq(r.reason().as_bytes(), &reason), "res: the reason is the one given");
    sys::check(same_headers(r.headers(), &hs), "res: the headers are the ones given");
    let mut o = Out { data: vec![], mode: wmode() };
    let res = puck::response::encoder::Encoder::new(r).write_tcp_stream(&mut o);
    if let WriteMode::FailAfter(k) = o.mode {
        sys::cover("failing write");
        if o.data.len() >= k && res.is_err() { return; }
    }
    sys::check(res.is_ok(), "res: writing a response succeeds");
    match parts(&o.data) {
        None => sys::check(false, "res: the response written has the form of a response"),
        Some((first, h, rest)) => {
            let mut want = b"HTTP/1.1 ".to_vec();
            want.extend(dec3(status));
            want.push(b' ');
            want.extend_from_slice(&reason);
            sys::check(sys::eq(&first, &want), "res: the status line has the version, the status and the reason");
            sys::check(same_list(&h, &hs), "res: every header is written exactly once");
            sys::check(sys::eq(&rest, &body), "res: exactly the body is written after the head");
        }
    }
    let extra = if declared { let n = sys::choose(0, 2); sys::bytes(n) } else { vec![] };
    o.data.extend_from_slice(&extra);
    match Response::parse(src(o.data, sys::param(2))) {
        Ok(Some(mut r)) => {
            sys::cover("read back");
            sys::check(*r.status() as u32 == status, "back: a response read back has the same status");
            sys::check(sys::eq(r.reason().as_bytes(), &reason), "back: a response read back has the same reason");
            sys::check(same_headers(r.headers(), &hs), "back: a response read back has the same headers");
            let x = drain(&mut r.take_body(), if body.len() > 1000 { 4096 } else { 5 });
            sys::check(x.map(|x| sys::eq(&x, &body)) == Some(true), "back: a response read back has exactly the body its Content-Length declares");
        }
        _ => sys::check(false, "back: a response written can be read back"),
    }
}
const RESS: [&[u8]; 2] = [b"HTTP/1.1 200 OK\r\nA: b\r\n\r\nxyz", b"HTTP/1.0 404\r\nContent-Length: 2\r\nContent-Type: 1\r\n\r\nabcd"];
/// arbitrary bytes inside a response
#[no_mangle]
pub extern "C" fn h_res_any() {
    let mut d = window(&RESS);
    if sys::param(4) == 1 { let n = sys::choose(0, d.len() as u32); d.truncate(n); }
    let s = src(d.clone(), sys::param(3));
    s.0.borrow_mut().err_at_end = sys::param(4) == 1 && sys::boolean();
    let failing = s.0.borrow().err_at_end;
    match Response::parse(s) {
        Ok(None) => { sys::cover("ended early"); sys::check(head_end(&d).is_none(), "rany: only a stream which ends before the head is complete counts as empty"); sys::check(!failing, "rany: a read error is not taken for an empty stream"); }
        Err(_) => { sys::cover("refused"); sys::check(head_end(&d).is_some() || failing, "rany: a response is refused only once its head is complete"); }
        Ok(Some(mut r)) => {
            sys::cover("accepted");
            match head_end(&d) {
                None => sys::check(false, "rany: a response is accepted only once its head is complete"),
                Some(e) => {
                    sys::check(!early_blank(&d[..e]), "rany: no part of the body is taken for a part of the head");
                    let strict = strict_lines(&d[..e]);
                    let mut len = d.len() - e;
                    if let Some(ls) = &strict {
                        let mut n = 0;
                        let mut bad = false;
                        let mut cls = 0;
                        let mut odd = ls[0].is_empty();
                        for l in &ls[1..] {
                            if l.is_empty() { continue; }
                            n += 1;
                            match l.iter().position(|c| *c == b':') { None | Some(0) => bad = true, _ => {} }
                            if l.len() >= 15 && crate::ws::eq_nocase(&l[..15], b"content-length:") {
                                cls += 1;
                                match cl_value(&l[15..]) { Some(n) => len = len.min(n), None => odd = true }
                            }
                        }
                        if odd || cls > 1 { return; }
                        sys::check(!bad, "rany: a response with a malformed header line is refused");
                        sys::check(r.headers().len() <= n, "rany: no header is made up");
                        sys::check(from_lines(r.headers(), &ls[1..]), "rany: every header is, name and value, one of those sent");
                    }
                    match drain(&mut r.take_body(), 8) {
                        Some(b) if strict.is_some() => sys::check(b.len() == len && sys::eq(&b, &d[e..e + len]), "rany: the body is what follows the head, up to the Content-Length"),
                        Some(b) => sys::check(b.len() <= len && sys::eq(&b, &d[e..e + b.len()]), "rany: the body is part of what follows the head"),
                        None => sys::check(failing, "rany: the body can be read"),
                    }
                }
            }
        }
    }
}

/// a line break in the head.  params: most characters, behind a longer text or not
#[no_mangle]
pub extern "C" fn h_split() {
    let n = sys::choose(1, sys::param(0) as u32);
    let t = string(class(n, |b| sys::and(b < 0x80, b != 0)));
    let t = if sys::param(1) == 1 {
        // characters which end a line for others, or whose last byte would, are no line breaks here
        let l = [0, 20, 74, 110, 300, 1030, 5000][sys::choose(0, 6) as usize];
        let mut s: String = "id=abcdefgh; Path=/a/b, (x \"y\"); \u{85}\u{10a}\u{10d}\u{2028}\u{ff0a} Max-Age=0;\tk: v ".chars().cycle().take(l).collect();
        s.push_str(&t);
        s.push_str(["", "z; z, z"][sys::choose(0, 1) as usize]);
        s
    } else { t };
    let mut breaks = false;
    for c in t.bytes() { breaks = sys::or(breaks, sys::or(c == b'\r', c == b'\n')); }
    let mut o = Out { data: vec![], mode: WriteMode::Full };
    let ok = match sys::choose(0, 5) {
        k @ 0..=2 => {
            let b = Response::build().header("Another-Header", "b");
            let b = match k { 0 => b.header("X", t).status(200, "OK"), 1 => b.header(t, "x").status(200, "OK"), _ => b.header("X", "x").status(200, t) };
            puck::response::encoder::Encoder::new(b.build()).write_tcp_stream(&mut o).is_ok()
        }
        k => {
            let b = Request::build("http://h/").method(Method::Get).header("Another-Header", "b");
            let mut r = (match k { 3 => b.header("X", t), 4 => b.header(t, "x"), _ => b.header("X", "x").method(Method::OtherMethod(t)) }).build();
            r.write(&mut o).is_ok()
        }
    };
    let (mut lf, mut cr) = (0, 0);
    for c in &o.data { lf += sys::ite(*c == b'\n', 1, 0); cr += sys::ite(*c == b'\r', 1, 0); }
    if ok {
        sys::cover("written");
        sys::check(sys::and(lf == 4, cr == 4), "split: the head written has one line per header given, whatever the header contains");
    } else {
        sys::cover("refused");
        sys::check(breaks, "split: a head without line breaks is written");
        sys::check(sys::and(lf <= 4, cr <= 4), "split: nothing of a split head is written");
    }
}

// ------------------------------------------------------------------ bodies
/// reading a body.  params: most bytes of the source, reads, read mode of the source, least bytes
#[no_mangle]
pub extern "C" fn h_body() {
    let n = sys::choose(sys::param(3) as u32, sys::param(0) as u32);
    let data = if n > 8 { long(n, lower) } else { sys::bytes(n) };
    let (mut b, limit) = match sys::choose(0, 3) {
        0 => (Body::empty(), Some(0)),
        1 => { let s = match String::from_utf8(data.clone()) { Ok(s) => s, Err(_) => return }; if !s.is_ascii() { sys::cover("multi-byte"); } (if sys::boolean() { Body::from(s) } else { Body::from_string(s) }, None) }
        2 => (Body::from_reader(std::io::BufReader::new(Src::new(data.clone(), mode_of(sys::param(2)))), None), None),
        _ => {
            // any declared length at all, also far beyond what there is
            let l = if n > 100_000 { n + 1 - sys::choose(0, 2) } else if sys::boolean() { sys::choose((n as u32).saturating_sub(8), n as u32 + 1) } else { if sys::boolean() { n + sys::choose(2, 40) } else { sys::range(0x10000 + n as u32, u32::MAX) as usize } };
            (Body::from_reader(std::io::BufReader::new(Src::new(data.clone(), mode_of(sys::param(2)))), Some(l)), Some(l))
        }
    };
    let step = if n > 1000 { 4096 } else { 4 };
    let want = match limit { Some(l) if l < data.len() => &data[..sys::split(l as u32) as usize], _ => &data[..] };
    let mut got: Vec<u8> = vec![];
    for _ in 0..sys::param(1) {
        let k = sys::choose(0, 3);
        let mut buf = vec![0xEEu8; k];
        match b.read(&mut buf) {
            Ok(r) => {
                sys::check(r <= k, "body: a read returns at most what was asked for");
                if r > k { return; }
                if r == 0 && k > 0 { sys::check(got.len() == want.len(), "body: a read returns nothing only at the end of the body"); }
                got.extend_from_slice(&buf[..r]);
                for x in &buf[r..] { sys::check(*x == 0xEE, "body: bytes beyond the count returned are left alone"); }
            }
            Err(_) => sys::check(false, "body: reading succeeds"),
        }
    }
    sys::check(got.len() <= want.len() && sys::eq(&got, &want[..got.len().min(want.len())]), "body: what was read is the beginning of the body");
    let rest = match sys::choose(0, 2) {
        0 => drain(&mut b, step),
        1 => b.into_bytes().ok(),
        _ => {
            let valid = got.len() <= want.len() && std::str::from_utf8(&want[got.len()..]).is_ok();
            match b.into_string() {
                Ok(s) => { sys::check(valid, "body: only UTF-8 becomes a string"); Some(s.into_bytes()) }
                Err(_) => { sys::cover("not UTF-8"); sys::check(!valid, "body: a UTF-8 body becomes a string"); return; }
            }
        }
    };
    match rest {
        Some(r) => { got.extend_from_slice(&r); sys::check(sys::eq(&got, want), "body: the whole body is read, up to its length, and nothing else"); sys::cover("read"); }
        None => sys::check(false, "body: reading succeeds"),
    }
}
fn header_nocase<'a>(m: &'a std::collections::HashMap<String, String>, n: &str) -> Vec<&'a str> { m.iter().filter(|(k, _)| k.eq_ignore_ascii_case(n)).map(|(_, v)| v.as_str()).collect() }
/// exchanging the body of a request or response.  params: most bytes, exchanges
#[no_mangle]
pub extern "C" fn h_swap() {
    let n = sys::choose(0, sys::param(0) as u32);
    let mut cur = class(n, value_char);
    let is_req = sys::boolean();
    let (mut rq, mut rs) = (Request::build("http://h/x").method(Method::Get).header("A", "b").body(string(cur.clone())), Response::build().header("A", "b").status(201, "r").body(string(cur.clone())));
    match sys::choose(0, 2) {
        0 => {}
        k => { let n = if k == 1 { "Content-Type" } else { "content-type" }; if is_req { rq = rq.header(n, "text/html"); } else { rs = rs.header(n, "text/html"); } }
    }
    let (mut rq, mut rs) = (rq.build(), rs.build());
    for _ in 0..sys::param(1) {
        let old = if sys::boolean() {
            let o = if is_req { rq.take_body() } else { rs.take_body() };
            (o, vec![])
        } else {
            let m = sys::choose(0, sys::param(0) as u32);
            let new = class(m, value_char);
            let o = if is_req { rq.replace_body(string(new.clone())) } else { rs.replace_body(string(new.clone())) };
            (o, new)
        };
        let (mut o, new) = old;
        sys::check(drain(&mut o, 3).map(|x| sys::eq(&x, &cur)) == Some(true), "swap: the body returned is the one there was");
        cur = new;
        let h = if is_req { rq.headers() } else { rs.headers() };
        sys::check(header_nocase(h, "content-type") == ["application/octet-stream"], "swap: the Content-Type is the one of the new body");
        sys::check(header_nocase(h, "a") == ["b"] && h.len() == 2, "swap: the other headers are kept");
    }
    let mut last = if is_req { rq.take_body() } else { rs.take_body() };
    sys::check(drain(&mut last, 3).map(|x| sys::eq(&x, &cur)) == Some(true), "swap: the body is the last one given");
    sys::check(rq.url().path() == "/x" && *rq.method() == Method::Get && *rs.status() == 201 && rs.reason() == "r", "swap: nothing else changes");
    sys::cover("swapped");
}
/// What is given to the builders is what the request or response has.  params: steps
#[no_mangle]
pub extern "C" fn h_build() {
    let is_req = sys::boolean();
    let mut want: Vec<(Vec<u8>, Vec<u8>)> = vec![];
    let mut set = |k: &Vec<u8>, v: &Vec<u8>| {
        want.retain(|(x, _)| x != k);
        want.push((k.clone(), v.clone()));
    };
    let pair = || (vec![[b'a', b'b'][sys::choose(0, 1) as usize]], class(1, value_char));
    let (mut method, mut status, mut body): (Option<Method>, Option<(u16, Vec<u8>)>, Vec<u8>) = (None, None, vec![]);
    let bad = is_req && sys::boolean();
    let url = if bad { ["", "h", "/x", "http://", "http://[", "http://h:x/"][sys::choose(0, 5) as usize] } else { "http://h/p?q" };
    let mut rq = match Request::try_build(url) {
        Ok(r) => { sys::check(!bad, "build: an invalid URL is an error"); r }
        Err(_) => { sys::check(bad, "build: a valid URL is not an error"); sys::cover("bad URL"); return; }
    };
    let mut rs = Response::build();
    for _ in 0..sys::choose(0, sys::param(0) as u32) {
        match sys::choose(0, 3) {
            0 => {
                let (k, v) = pair();
                set(&k, &v);
                if is_req { rq = rq.header(string(k), string(v)); } else { rs = rs.header(string(k), string(v)); }
            }
            1 => {
                let l: Vec<_> = (0..sys::choose(0, 2)).map(|_| pair()).collect();
                for (k, v) in &l { set(k, v); }
                let l = l.into_iter().map(|(k, v)| (string(k), string(v)));
                if is_req { rq = rq.headers(l); } else { rs = rs.headers(l); }
            }
            2 => {
                body = class(sys::choose(0, 2), value_char);
                if is_req { rq = rq.body(string(body.clone())); } else { rs = rs.body(string(body.clone())); }
            }
            _ if is_req => {
                let m = match sys::choose(0, 3) { 0 => Method::Get, 1 => Method::Post, 2 => Method::Head, _ => Method::OtherMethod(string(class(1, value_char))) };
                method = Some(m.clone());
                rq = rq.method(m);
            }
            _ => {
                let (c, r) = (sys::range(100, 999) as u16, class(sys::choose(0, 1), value_char));
                status = Some((c, r.clone()));
                rs = rs.status(c, string(r));
            }
        }
    }
    let has = |h: &std::collections::HashMap<String, String>| {
        sys::check(h.len() == want.len(), "build: the headers given and no others");
        for (k, v) in &want { sys::check(h.get(std::str::from_utf8(k).unwrap()).map_or(false, |x| x.len() == v.len() && sys::eq(x.as_bytes(), v)), "build: a header has the value given last"); }
    };
    let mut b = if is_req {
        let mut r = match rq.try_build() {
            Ok(r) => { sys::check(method.is_some(), "build: a request without a method is an error"); r }
            Err(_) => { sys::check(method.is_none(), "build: a request with a method is not an error"); sys::cover("no method"); return; }
        };
        has(r.headers());
        sys::check(match (r.method(), method.as_ref().unwrap()) { (Method::OtherMethod(a), Method::OtherMethod(b)) => sys::eq(a.as_bytes(), b.as_bytes()), (a, b) => a == b }, "build: the method is the one given last");
        sys::check(r.url().as_str() == "http://h/p?q", "build: the URL is the one given");
        sys::cover("request");
        r.replace_body("")
    } else {
        let mut r = rs.build();
        has(r.headers());
        let (c, why) = status.unwrap_or((200, vec![]));
        sys::check(*r.status() == c, "build: the status is the one given last, or 200");
        sys::check(r.reason().len() == why.len() && sys::eq(r.reason().as_bytes(), &why), "build: the reason is the one given last, or none");
        sys::cover("response");
        r.replace_body("")
    };
    sys::check(drain(&mut b, 3).map(|x| x.len() == body.len() && sys::eq(&x, &body)) == Some(true), "build: the body is the one given last, or empty");
}
#[allow(dead_code)]
fn keep() { let _ = text; }
