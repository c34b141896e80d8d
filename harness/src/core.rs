//! The server: Core::for_each, Core::serve_router, Router::run, Stream, Match.
#![allow(static_mut_refs)]
use crate::host::{self, ReadMode, Sock, WriteMode};
use crate::http::{drain, same_headers, same_method};
use crate::sys;
use crate::ws::{check_400, parse_head};
use puck::core::router::{match_url, Route, Router};
use puck::core::{Core, Stream, UsedStream};
use puck::{Request, Response};

/// what a client sends, and what has to come of it
struct Client { sock: usize, kind: Kind, path: Vec<u8>, body: Vec<u8>, stay: bool }
#[derive(PartialEq, Clone, Copy)]
enum Kind { Good, Bad, Empty }
struct Call { handler: usize, path: Vec<u8>, method_ok: bool, headers_ok: bool, body: Option<Vec<u8>>, state: State }
type State = (u8, String);
static mut CLIENTS: Vec<Client> = vec![];
static mut CALLS: Vec<Call> = vec![];
static mut ASKED: Vec<(usize, Vec<u8>)> = vec![];
static mut FLAGS: [bool; 4] = [false; 4];
static mut ROUTES: usize = 0;
/// matcher and handler of each route
static mut TABLE: Vec<(usize, usize)> = vec![];
static mut READS_BODY: bool = false;
static mut ANSWER: Vec<u8> = vec![];
static mut STATE: Option<State> = None;
static mut FAILING: bool = false;

fn stuck() { sys::check(false, "core: the server does not wait for what a client has no reason to send"); }
fn stuck_body() { sys::check(false, "core: reading the body of a request without Content-Length ends before the client hangs up"); }

fn head(c: &Client, extra: &[u8]) -> Vec<u8> {
    let mut d = b"POST ".to_vec();
    d.extend_from_slice(&c.path);
    d.extend_from_slice(b" HTTP/1.1\r\nHost: h\r\n");
    d.extend_from_slice(extra);
    d
}
/// an arbitrary client.  size: most body bytes, mode: delivery, wmode: how answers are accepted
fn client(i: usize, kinds: u32, size: usize, mode: usize, wmode: WriteMode, declared: bool) {
    // one of many clients does as its number says
    let fixed = sys::param(10) > 0;
    let kind = [Kind::Good, Kind::Bad, Kind::Empty][if fixed { [0, 1, 0, 2, 0][(i + sys::param(10)) % 5] } else { sys::choose(0, kinds) as usize }];
    let mut c = Client { sock: 0, kind, path: vec![b'/', b'a' + (i % 26) as u8], body: vec![], stay: if fixed { i % 3 == 0 } else { sys::boolean() } };
    let mut d = vec![];
    match kind {
        Kind::Good => {
            let n = sys::choose(0, size as u32);
            c.body = sys::bytes(n);
            c.path.push({ let b = sys::byte(); sys::assume(sys::and(b >= b'a', b <= b'z')); b });
            d = if declared { head(&c, format!("Content-Length: {}\r\n\r\n", n).as_bytes()) } else { head(&c, b"\r\n") };
            d.extend_from_slice(&c.body);
        }
        Kind::Bad => {
            d = match if fixed { i as u32 % 5 } else { sys::choose(0, 4) as u32 } {
                0 => b"GET /\r\n\r\n".to_vec(),
                1 => b"GET / HTTP/1.1\r\nAccept: *\r\n\r\n".to_vec(),
                2 => { let mut d = head(&c, b"X: "); d.push({ let b = sys::byte(); sys::assume(sys::or(sys::and(b < 0x20, sys::and(b != 9, sys::and(b != 10, b != 13))), b >= 0x80)); b }); d.extend_from_slice(b"\r\n\r\n"); d }
                3 => head(&c, b"Content-Length: -1\r\n\r\n"),
                _ => { let b = sys::byte(); sys::assume(sys::and(b != 10, b != 13)); vec![b, b'\r', b'\n', b'\r', b'\n'] }
            };
        }
        Kind::Empty => { let n = if fixed { i % 20 } else { sys::choose(0, 20) as usize }; d = head(&c, b"\r\n"); d.truncate(n); }
    }
    let mut s = Sock::new(d);
    s.mode = crate::ws::mode_of(mode);
    if mode == 2 { let n = s.input.len() as u32; let a = sys::choose(0, n); s.cuts = vec![a]; }
    s.wmode = wmode;
    if c.stay && kind != Kind::Empty { s.block_at_end = Some(if declared { stuck } else { stuck_body }); } else { s.err_at_end = (if fixed { i % 2 == 0 } else { sys::boolean() }) && (declared || kind != Kind::Good); }
    c.sock = host::add_sock(s);
    host::h().backlog.push_back(c.sock);
    unsafe { CLIENTS.push(c) }
}
fn handle(handler: usize, mut req: Request, stream: Stream, state: State) -> UsedStream {
    unsafe {
        let path = req.url().path().as_bytes().to_vec();
        let which = CLIENTS.iter().find(|c| c.kind == Kind::Good && c.path.len() == path.len() && c.path[1] == path[1]);
        let (mut hs, n) = (vec![(b"Host".to_vec(), b"h".to_vec())], which.map(|c| c.body.len()).unwrap_or(0));
        if req.headers().len() > 1 { hs.push((b"Content-Length".to_vec(), n.to_string().into_bytes())); }
        let headers_ok = same_headers(req.headers(), &hs);
        let body = if READS_BODY { drain(&mut req.take_body(), 16) } else { None };
        CALLS.push(Call { handler, path, method_ok: same_method(req.method(), b"POST"), headers_ok, body, state });
        let r = stream.respond(Response::build().status(200 + handler as u16, "Fine").header("A", "b").body(String::from_utf8_unchecked(ANSWER.clone())).build());
        if FAILING { return r.unwrap_or_else(|_| UsedStream::empty()); }
        sys::check(r.is_ok(), "core: answering a connected client succeeds");
        r.unwrap_or_else(|_| UsedStream::empty())
    }
}
fn asked(i: usize, r: &Request) -> bool { unsafe { ASKED.push((i, r.url().path().as_bytes().to_vec())); FLAGS[i] } }
fn m0(r: &Request) -> bool { asked(0, r) }
fn m1(r: &Request) -> bool { asked(1, r) }
fn m2(r: &Request) -> bool { asked(2, r) }
fn m3(r: &Request) -> bool { asked(3, r) }
fn h0(r: Request, s: Stream, t: State) -> UsedStream { handle(0, r, s, t) }
fn h1(r: Request, s: Stream, t: State) -> UsedStream { handle(1, r, s, t) }
fn h2(r: Request, s: Stream, t: State) -> UsedStream { handle(2, r, s, t) }
fn h3(r: Request, s: Stream, t: State) -> UsedStream { handle(3, r, s, t) }

fn expected(handler: usize) -> Vec<u8> {
    let mut o = format!("HTTP/1.1 {} Fine\r\nA: b\r\n\r\n", 200 + handler).into_bytes();
    unsafe { o.extend_from_slice(&ANSWER) }
    o
}
/// every client has been served
fn verdict() {
    unsafe {
        let first = if ROUTES == usize::MAX { Some(0) } else { (0..ROUTES).find(|&i| FLAGS[TABLE[i].0]) };
        let mut at = 0;
        for c in &CLIENTS {
            let s = host::sock(c.sock);
            match (c.kind, first) {
                (Kind::Good, Some(r)) => {
                    let h = if ROUTES == usize::MAX { 0 } else { TABLE[r].1 };
                    sys::cover("handled");
                    if at >= CALLS.len() {
                        sys::check(ROUTES == usize::MAX, "route: a request that a route matches is handled by it");
                        sys::check(false, "core: every request is handled");
                        continue;
                    }
                    let k = &CALLS[at];
                    at += 1;
                    sys::check(k.handler == h, "route: the first route that matches handles the request");
                    sys::check(sys::and(k.path.len() == c.path.len(), sys::eq(&k.path, &c.path)), "core: a handler gets the request sent");
                    sys::check(sys::and(k.method_ok, k.headers_ok), "core: a handler gets the method and headers sent");
                    if READS_BODY { sys::check(k.body.as_ref().map(|b| sys::eq(b, &c.body)) == Some(true), "core: a handler gets the body sent"); }
                    let st = STATE.as_ref().unwrap();
                    sys::check(sys::and(k.state.0 == st.0, sys::eq(k.state.1.as_bytes(), st.1.as_bytes())), "core: a handler gets the state of the server");
                    let want = expected(h);
                    match s.wmode {
                        WriteMode::FailAfter(n) if n < want.len() => sys::check(s.output.len() == n && sys::eq(&s.output, &want[..n]), "core: a client that hangs up has got the beginning of the answer"),
                        _ => sys::check(s.output.len() == want.len() && sys::eq(&s.output, &want), "core: a client gets exactly the answer of the handler"),
                    }
                }
                (Kind::Good, None) => { sys::cover("no route"); }
                (_, _) => {
                    sys::cover("malformed");
                    match s.wmode {
                        WriteMode::FailAfter(n) => sys::check(s.output.len() <= n, "core: nothing is sent after the failure"),
                        _ => match parse_head(&s.output) {
                            None => sys::check(false, "bad: a malformed request is answered by a well-formed response"),
                            Some(h) => {
                                sys::check(h.status == 400, "bad: a malformed request is answered by a 400");
                                sys::check(!crate::ws::another(&h.body), "bad: a malformed request is answered once");
                            }
                        },
                    }
                }
            }
            sys::check(s.handles == 0, "core: every connection is closed in the end");
            crate::ws::log_response(&s.output);
        }
        sys::check(at == CALLS.len(), "route: no request is handled twice, and none that no route matches");
        for (i, p) in &ASKED {
            if let Some(f) = first { sys::check(TABLE[..=f].iter().any(|t| t.0 == *i), "route: routes behind the one that matches are not asked"); }
            sys::check(CLIENTS.iter().any(|c| c.kind == Kind::Good && c.path.len() == p.len() && c.path[1] == p[1]), "route: routes are asked about requests that were sent");
        }
        sys::check(host::h().spawned as usize == CLIENTS.len(), "core: every connection has a process of its own");
    }
}
/// clients of a server.  params: server (0 for_each, 1 serve_router, 2 Router::run), clients, most body bytes,
/// delivery mode, write mode (0 full, 1 one byte less, 3 failing), kinds of client (0 good, 1 and malformed,
/// 2 and incomplete), Content-Length (1: absent), routes at most (4: accept may fail), 1: any matchers, at least
/// so many routes of which one matches, or none, n > 0: the clients do as their numbers say
#[no_mangle]
pub extern "C" fn h_core() {
    let (server, n) = (sys::param(0), sys::param(1));
    let declared = sys::param(6) == 0;
    unsafe {
        READS_BODY = declared || sys::param(6) == 2;
        ANSWER = { let k = sys::choose(0, sys::param(2) as u32); let b = sys::bytes(k); for x in &b { sys::assume(*x < 0x80); } b };
        let k = sys::bytes(2);
        for x in &k { sys::assume(*x < 0x80); }
        STATE = Some((sys::byte(), String::from_utf8_unchecked(k)));
    }
    for i in 0..n {
        let w = match sys::param(4) { 0 => WriteMode::Full, 1 => WriteMode::Max(5), _ => { unsafe { FAILING = true } WriteMode::FailAfter(sys::choose(0, 60)) } };
        if sys::param(7) == 4 && sys::boolean() { host::h().backlog.push_back(usize::MAX); }
        client(i, sys::param(5) as u32, sys::param(2), sys::param(3), w, declared);
    }
    host::h().after_accept = Some(verdict);
    let st = unsafe { STATE.clone().unwrap() };
    if server == 0 {
        unsafe { ROUTES = usize::MAX }
        Core::bind(host::addr(), st).unwrap().for_each(h0);
        sys::check(false, "core: a server keeps on serving");
        return;
    }
    let k = sys::choose(sys::param(9) as u32, sys::param(7) as u32);
    let mut r: Router<State> = Router::new();
    let all: [(fn(&Request) -> bool, fn(Request, Stream, State) -> UsedStream); 4] = [(m0, h0), (m1, h1), (m2, h2), (m3, h3)];
    let shuffled = sys::param(8) == 1;
    let back = shuffled && sys::boolean();
    let many = sys::param(9) > 0;
    if many {
        let hit = sys::choose(0, k as u32);
        unsafe { FLAGS[0] = true }
        for i in 0..k {
            let t = ((i != hit) as usize, i % 4);
            r = r.route(Route::new(all[t.0].0, all[t.1].1));
            unsafe { TABLE.push(t) }
        }
    }
    for i in 0..if many { 0 } else { k } {
        // any matcher, also several times; handlers in either order
        let t = (if shuffled { sys::choose(0, k as u32 - 1) } else { i }, if back { k - 1 - i } else { i });
        r = r.route(Route::new(all[t.0].0, all[t.1].1));
        unsafe { TABLE.push(t); FLAGS[i] = sys::boolean() }
    }
    unsafe { ROUTES = k }
    if server == 1 { Core::bind(host::addr(), st).unwrap().serve_router(r) }
    else { r.run(lunatic::net::TcpListener::bind(host::addr()).unwrap(), st) }
    sys::check(false, "core: a server keeps on serving");
}

// ------------------------------------------------------------------ any bytes sent to a server
static mut PARSED: Option<Request> = None;
static mut PARSED_BODY: Option<Vec<u8>> = None;
fn handle_any(mut r: Request, stream: Stream, _s: State) -> UsedStream {
    unsafe {
        let ok = match &PARSED {
            None => false,
            Some(p) => {
                let hs: Vec<(Vec<u8>, Vec<u8>)> = p.headers().iter().map(|(k, v)| (k.as_bytes().to_vec(), v.as_bytes().to_vec())).collect();
                let m = match p.method() { puck::request::Method::Get => b"GET".to_vec(), puck::request::Method::Post => b"POST".to_vec(), puck::request::Method::Head => b"HEAD".to_vec(), puck::request::Method::OtherMethod(m) => m.as_bytes().to_vec() };
                sys::check(same_method(r.method(), &m), "core: a handler gets the method sent");
                sys::check(same_headers(r.headers(), &hs), "core: a handler gets the headers sent");
                sys::check(sys::eq(r.url().as_str().as_bytes(), p.url().as_str().as_bytes()), "core: a handler gets the URL sent");
                true
            }
        };
        CALLS.push(Call { handler: 0, path: vec![], method_ok: ok, headers_ok: ok, body: drain(&mut r.take_body(), 16), state: (0, String::new()) });
        let answer = if sys::param(10) == 1 { puck::err_404() } else { Response::build().status(200, "Fine").header("A", "b").build() };
        stream.respond(answer).unwrap_or_else(|_| UsedStream::empty())
    }
}
fn any_true(_: &Request) -> bool { true }
fn verdict_any() {
    unsafe {
        let s = host::sock(0);
        if PARSED.is_some() {
            sys::cover("handled");
            sys::check(CALLS.len() == 1, "core: every request is handled");
            for k in &CALLS {
                sys::check(k.method_ok, "core: handlers run only for requests that are well-formed");
                sys::check(match (&k.body, &PARSED_BODY) { (Some(a), Some(b)) => a.len() == b.len() && sys::eq(a, b), (None, None) => true, _ => false }, "core: a handler gets the body sent");
            }
            if sys::param(10) == 1 {
                let h = parse_head(&s.output);
                sys::check(h.map(|h| h.status == 404 && !crate::ws::another(&h.body)) == Some(true), "core: a client whose handler answers with err_404 gets one well-formed 404");
            } else {
                sys::check(s.output.len() == expected(0).len() && sys::eq(&s.output, &expected(0)), "core: a client gets exactly the answer of the handler");
            }
        } else {
            sys::cover("malformed");
            sys::check(CALLS.is_empty(), "bad: no handler runs for a malformed request");
            match parse_head(&s.output) {
                None => sys::check(false, "bad: a malformed request is answered by a well-formed response"),
                Some(h) => {
                    sys::check(h.status == 400, "bad: a malformed request is answered by a 400");
                    sys::check(!crate::ws::another(&h.body), "bad: a malformed request is answered once");
                }
            }
        }
        sys::check(s.handles == 0, "core: every connection is closed in the end");
        sys::check(host::h().spawned == 1, "core: every connection has a process of its own");
        crate::ws::log_response(&s.output);
    }
}
/// a client that sends arbitrary bytes inside a request; what the parser makes of these bytes by itself is what
/// the server has to make of them.  params: as h_req_any, then (9) the server, (10) 1: the handler
/// answers with err_404
#[no_mangle]
pub extern "C" fn h_core_any() {
    let mut d = crate::http::window(&crate::http::REQS);
    if sys::param(4) == 1 { let n = sys::choose(0, d.len() as u32); d.truncate(n); }
    unsafe {
        if let Ok(Some(mut r)) = Request::parse(crate::http::src(d.clone(), 0)) {
            // taking the body sets the Content-Type, so what is compared is another parse
            PARSED_BODY = drain(&mut r.take_body(), 16);
            PARSED = Request::parse(crate::http::src(d.clone(), 0)).unwrap_or(None);
        }
    }
    let n = d.len() as u32;
    let mut s = Sock::new(d);
    s.mode = crate::ws::mode_of(sys::param(3));
    if sys::param(3) == 2 { let a = sys::choose(0, n); s.cuts = vec![a]; }
    host::add_sock(s);
    host::h().backlog.push_back(0);
    host::h().after_accept = Some(verdict_any);
    let st = (0, String::new());
    match sys::param(9) {
        0 => Core::bind(host::addr(), st).unwrap().for_each(handle_any),
        1 => Core::bind(host::addr(), st).unwrap().serve_router(Router::new().route(Route::new(any_true, handle_any))),
        _ => Router::new().route(Route::new(any_true, handle_any)).run(lunatic::net::TcpListener::bind(host::addr()).unwrap(), st),
    }
    sys::check(false, "core: a server keeps on serving");
}

// ------------------------------------------------------------------ upgrade of a served connection
fn chat(req: Request, stream: Stream, _s: State) -> UsedStream {
    match stream.upgrade(&req) {
        Ok(mut ws) => {
            sys::cover("upgraded");
            unsafe { OPENED = true }
            loop {
                match ws.next() {
                    Some(Ok(m)) => { let _ = ws.send(m); }
                    _ => break,
                }
            }
            let _ = ws.close();
            UsedStream::empty()
        }
        Err(s) => s,
    }
}
static mut WANT: Vec<u8> = vec![];
static mut UPGRADE: bool = false;
static mut HAS_KEY: bool = true;
static mut OPENED: bool = false;
static mut KEY: Vec<u8> = vec![];
fn chat_verdict() {
    let s = host::sock(0);
    unsafe {
        if let WriteMode::FailAfter(k) = s.wmode {
            sys::cover("client hung up");
            if UPGRADE && HAS_KEY && s.output.len() == k {
                let whole = parse_head(&s.output).is_some();
                sys::check(whole || !OPENED, "chat: a handshake that could not be answered yields no WebSocket");
                sys::check(s.handles == 0, "chat: the connection is closed in the end");
                crate::ws::log_response(&s.output);
                return;
            }
        }
        if UPGRADE && HAS_KEY {
            match parse_head(&s.output) {
                None => sys::check(false, "chat: the handshake is answered by a well-formed response"),
                Some(h) => {
                    sys::check(h.status == 101, "chat: a WebSocket request is answered by a 101");
                    sys::check(crate::ws::header_of(&h, "sec-websocket-accept").map(|v| sys::eq(v, &crate::ws::accept_of(&KEY))) == Some(true), "chat: the handshake answers the key sent");
                    sys::check(h.body.len() == WANT.len() && sys::eq(&h.body, &WANT), "chat: every message sent comes back, in order, then a close frame");
                }
            }
        } else {
            sys::cover("refused");
            sys::check(!OPENED, "chat: a refused handshake yields no WebSocket");
            if let WriteMode::FailAfter(k) = s.wmode { if s.output.len() == k { return; } }
            check_400(&s.output);
        }
        sys::check(s.handles == 0, "chat: the connection is closed in the end");
    }
    crate::ws::log_response(&s.output);
}
/// an echo server behind Core::for_each: the client sends the handshake, waits for the answer, then sends
/// frames.  params: messages, most payload bytes, delivery mode of the frames, most bytes accepted before the
/// client is gone (0: it stays), fewest payload bytes, 1: messages of any kind, server,
/// 1: the client waits for the answer to each message
#[no_mangle]
pub extern "C" fn h_chat() {
    let upgrade = sys::boolean();
    let key = sys::bytes(4);
    for x in &key { sys::assume(sys::and(*x > 0x20, *x < 0x7f)); }
    let mut d = b"GET /chat HTTP/1.1\r\nHost: h\r\nConnection: Upgrade\r\n".to_vec();
    if upgrade { d.extend_from_slice(b"Upgrade: websocket\r\n"); }
    d.extend_from_slice(b"Sec-WebSocket-Version: 13\r\n");
    let has_key = !upgrade || sys::boolean();
    if has_key { d.extend_from_slice(b"Sec-WebSocket-Key: "); d.extend_from_slice(&key); d.extend_from_slice(b"\r\n"); }
    d.extend_from_slice(b"\r\n");
    let gate = d.len();
    let mut want = vec![];
    let mut turns = vec![];
    let n = sys::choose(0, sys::param(0) as u32);
    for _ in 0..n {
        if sys::param(7) > 0 { turns.push((d.len(), want.len())); }
        let len = sys::choose(sys::param(4) as u32, sys::param(1) as u32);
        let mask = sys::bytes(4);
        let p = sys::bytes(len);
        // a frame of the client, or of the server
        let coded = |first: u8, bit: u8, len: usize| if len < 126 { vec![first, bit | len as u8] } else if len < 65536 { vec![first, bit | 126, (len >> 8) as u8, len as u8] } else { vec![first, bit | 127, 0, 0, 0, 0, 0, (len >> 16) as u8, (len >> 8) as u8, len as u8] };
        let kind = if sys::param(5) > 0 { sys::choose(0, 3) } else { 0 };
        let first = [0x82, 0x81, 0x82, 0x89][kind];
        if kind == 1 { for x in &p { sys::assume(*x < 0x80); } }
        let cut = if kind == 2 { sys::choose(0, len as u32) } else { len };
        for (first, part) in [(if kind == 2 { 0x02 } else { first }, &p[..cut]), (0x80, &p[cut..])] {
            if first == 0x80 && kind != 2 { continue; }
            d.extend(coded(first, 0x80, part.len()));
            d.extend_from_slice(&mask);
            for i in 0..part.len() { d.push(part[i] ^ mask[i & 3]); }
        }
        // a ping is answered, and then sent back like every other message
        if kind == 3 { want.extend(coded(0x8a, 0, len)); want.extend_from_slice(&p); }
        want.extend(coded(first, 0, len));
        want.extend_from_slice(&p);
    }
    if sys::param(7) > 0 { turns.push((d.len(), want.len())); }
    let leave = sys::choose(0, 2); // close frame, end of stream, reset
    if leave == 0 { d.extend_from_slice(&[0x88, 0x80, 1, 2, 3, 4]); }
    want.extend_from_slice(&[0x88, 0]);
    let mut s = Sock::new(d);
    s.gate = Some(gate);
    s.turns = turns;
    s.mode = crate::ws::mode_of(sys::param(2));
    if s.mode == ReadMode::Cuts { let n = s.input.len() as u32; s.cuts = vec![sys::choose(gate as u32, n)]; }
    s.err_at_end = leave == 2;
    if sys::param(3) > 0 { s.wmode = WriteMode::FailAfter(sys::choose(0, sys::param(3) as u32)); }
    let id = host::add_sock(s);
    host::h().backlog.push_back(id);
    host::h().after_accept = Some(chat_verdict);
    unsafe { WANT = want; UPGRADE = upgrade; HAS_KEY = has_key; KEY = key; }
    let st = (0u8, String::new());
    match sys::param(6) {
        0 => Core::bind(host::addr(), st).unwrap().for_each(chat),
        1 => Core::bind(host::addr(), st).unwrap().serve_router(Router::new().route(Route::new(any_true, chat))),
        _ => Router::new().route(Route::new(any_true, chat)).run(lunatic::net::TcpListener::bind(host::addr()).unwrap(), st),
    }
    sys::check(false, "core: a server keeps on serving");
}

// ------------------------------------------------------------------ matching URLs
/// reference: the segments of a path
fn segments(p: &[u8]) -> Vec<&[u8]> { p[1..].split(|c| *c == b'/').collect() }
/// an optional sign and digits, within 32 bits
fn is_int(s: &[u8]) -> bool {
    let (neg, d) = match s { [b'-', r @ ..] => (true, r), [b'+', r @ ..] => (false, r), _ => (false, s) };
    if d.is_empty() || d.len() > 18 { return d.len() > 18 && d[..d.len() - 10].iter().all(|c| *c == b'0') && is_int_tail(neg, &d[d.len() - 10..]); }
    is_int_tail(neg, d)
}
fn is_int_tail(neg: bool, d: &[u8]) -> bool {
    let mut v: i64 = 0;
    for &c in d {
        if !c.is_ascii_digit() { return false; }
        v = v * 10 + (c - b'0') as i64;
    }
    if neg { v <= 1 << 31 } else { v < 1 << 31 }
}
fn path_byte(b: u8) -> bool {
    let al = |b: u8| sys::or(sys::and(b >= b'a', b <= b'z'), sys::and(b >= b'A', b <= b'Z'));
    sys::or(al(b), sys::or(sys::and(b >= b'0', b <= b'9'), sys::or(b == b'-', sys::or(b == b'+', b == b'_'))))
}
/// the other characters a URL keeps as they are
fn path_sign(b: u8) -> bool {
    let mut r = path_byte(b);
    for c in b"~!$&'()*,;=:@%" { r = sys::or(r, b == *c); }
    r
}
/// every matcher on every path.  params: segments of the matcher, segments of the path, characters per segment,
/// 1: also other characters than letters, digits, +, - and _
#[no_mangle]
pub extern "C" fn h_match() {
    let k = sys::choose(0, sys::param(0) as u32);
    let mut m = match_url::Match::new();
    let mut pat = vec![];
    for i in 0..k {
        let w = [0usize, 1, 2, 3, 4][sys::choose(0, 4)];
        m = m.at(match w { 0 => match_url::path("a"), 1 => match_url::path("b1"), 2 => match_url::anything(), 3 => match_url::any_integer(), _ => match_url::path("") });
        pat.push(w);
        let _ = i;
    }
    let n = sys::choose(1, sys::param(1) as u32);
    let mut p = vec![];
    for _ in 0..n {
        p.push(b'/');
        let l = sys::choose(0, sys::param(2) as u32);
        let s = sys::bytes(l);
        for c in &s { sys::assume(if sys::param(3) == 1 { path_sign(*c) } else { path_byte(*c) }); }
        // a coded dot may be a dot segment
        for w in s.windows(3) { sys::assume(!sys::and(w[0] == b'%', sys::and(w[1] == b'2', sys::or(w[2] == b'e', w[2] == b'E')))); }
        p.extend_from_slice(&s);
    }
    let mut u = b"http://h".to_vec();
    u.extend_from_slice(&p);
    if sys::boolean() { u.extend_from_slice(b"?a/b"); }
    if sys::boolean() { u.extend_from_slice(b"#a"); }
    let r = Request::build(unsafe { String::from_utf8_unchecked(u) }).method(puck::request::Method::Get).build();
    let got = m.does_match(r.url());
    let segs = segments(&p);
    let mut want = segs.len() == pat.len();
    if want {
        for (w, s) in pat.iter().zip(&segs) {
            want &= match w { 0 => sys::eq(s, b"a"), 1 => sys::eq(s, b"b1"), 2 => true, 3 => is_int(s), _ => s.is_empty() };
        }
    }
    if want { sys::cover("match") } else { sys::cover("no match") }
    sys::check(got == want, "match: a URL matches exactly when it has the segments asked for, in order");
}
/// integers at the limits of 32 and 64 bits: a fixed beginning, then arbitrary digits.  params: most digits
#[no_mangle]
pub extern "C" fn h_match_int() {
    let m = match_url::Match::new().at(match_url::any_integer());
    let mut s: Vec<u8> = match sys::choose(0, 2) { 0 => vec![], 1 => vec![b'-'], _ => vec![b'+'] };
    s.extend_from_slice([&b""[..], b"2147483", b"429496", b"000000000", b"922337203685477", b"99999999"][sys::choose(0, 5)]);
    let n = sys::choose(0, sys::param(0) as u32);
    let d = sys::bytes(n);
    for c in &d { sys::assume(sys::and(*c >= b'0', *c <= b'9')); }
    s.extend_from_slice(&d);
    let mut u = b"http://h/".to_vec();
    u.extend_from_slice(&s);
    let r = Request::build(unsafe { String::from_utf8_unchecked(u) }).method(puck::request::Method::Get).build();
    let got = m.does_match(r.url());
    let want = is_int(&s);
    if want { sys::cover("integer") } else { sys::cover("too large") }
    sys::check(got == want, "match: an integer segment matches exactly the integers of 32 bits");
}
/// a URL without a path hierarchy
#[no_mangle]
pub extern "C" fn h_match_opaque() {
    let b = sys::bytes(2);
    for c in &b { sys::assume(path_byte(*c)); }
    let mut u = b"data:".to_vec();
    u.extend_from_slice(&b);
    let r = Request::build(unsafe { String::from_utf8_unchecked(u) }).method(puck::request::Method::Get).build();
    let mut m = match_url::Match::new();
    for _ in 0..sys::choose(0, 2) { m = m.at(match_url::anything()); }
    sys::check(!m.does_match(r.url()), "match: a URL without segments matches nothing");
    sys::cover("no match");
}
