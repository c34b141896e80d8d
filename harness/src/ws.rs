//! WebSocket harnesses and the RFC 6455 reference.
use crate::host::{self, ReadMode, Sock, WriteMode};
use crate::sys;
use puck::ws::frame::{Frame, OpCode};
use puck::ws::message::Message;
use puck::ws::websocket::{NextMessageError, WebSocket};
use std::io::Read;

/// a plain byte source with a delivery mode
#[derive(Clone)]
pub struct Src(pub std::rc::Rc<std::cell::RefCell<SrcI>>);
pub struct SrcI { pub data: Vec<u8>, pub pos: usize, pub mode: ReadMode, pub cuts: Vec<usize>, pub err_at_end: bool }
impl Src {
    pub fn new(data: Vec<u8>, mode: ReadMode) -> Src {
        Src(std::rc::Rc::new(std::cell::RefCell::new(SrcI { data, pos: 0, mode, cuts: vec![], err_at_end: false })))
    }
    pub fn pos(&self) -> usize { self.0.borrow().pos }
}
impl Read for Src {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        let mut s = self.0.borrow_mut();
        let left = s.data.len() - s.pos;
        if left == 0 && !buf.is_empty() && s.err_at_end { return Err(std::io::ErrorKind::ConnectionReset.into()); }
        let n = host::read_amount(s.mode, s.pos, left, buf.len(), &s.cuts);
        let p = s.pos;
        buf[..n].copy_from_slice(&s.data[p..p + n]);
        s.pos += n;
        Ok(n)
    }
}
pub fn mode_of(p: usize) -> ReadMode {
    match p { 0 => ReadMode::Full, 1 => ReadMode::Octet, 2 => ReadMode::Cuts, 4 => ReadMode::Max(1000), _ => ReadMode::Any }
}

/// reference frame header/payload
pub struct RFrame { pub fin: bool, pub rsv: u8, pub op: u8, pub masked: bool, pub minimal: bool, pub payload: Vec<u8>, pub end: usize }
pub enum RParse { Frame(RFrame), Incomplete, Unmasked }

/// RFC 6455 section 5.2 read of one client frame starting at `at`
pub fn ref_frame(d: &[u8], at: usize) -> RParse {
    let left = d.len() - at;
    if left < 2 { return RParse::Incomplete; }
    let (a, b) = (d[at], d[at + 1]);
    let l7 = b & 127;
    let mut p = at + 2;
    let mut minimal = true;
    let len: u64;
    if l7 == 126 {
        if left < 4 { return RParse::Incomplete; }
        len = ((d[p] as u64) << 8) | d[p + 1] as u64;
        minimal = len >= 126;
        p += 2;
    } else if l7 == 127 {
        if left < 10 { return RParse::Incomplete; }
        let mut x = 0u64;
        for i in 0..8 { x = (x << 8) | d[p + i] as u64; }
        len = x;
        minimal = len >= 65536;
        p += 8;
    } else { len = l7 as u64; }
    let masked = b & 0x80 != 0;
    if !masked && len > 0 { return RParse::Unmasked; }
    let mut payload = vec![];
    if masked {
        if d.len() - p < 4 { return RParse::Incomplete; }
        let key = [d[p], d[p + 1], d[p + 2], d[p + 3]];
        p += 4;
        if len > (d.len() - p) as u64 { return RParse::Incomplete; }
        // one path per payload length
        let len = sys::split(len as u32) as usize;
        for i in 0..len { payload.push(d[p + i] ^ key[i & 3]); }
        p += len;
    }
    RParse::Frame(RFrame { fin: a & 0x80 != 0, rsv: (a >> 4) & 7, op: a & 15, masked, minimal, payload, end: p })
}
fn op_num(o: &OpCode) -> u8 {
    match o { OpCode::Continue => 0, OpCode::Text => 1, OpCode::Binary => 2, OpCode::Reserved => 99, OpCode::Terminate => 8, OpCode::Ping => 9, OpCode::Pong => 10 }
}
fn same_op(o: &OpCode, raw: u8) -> bool {
    let r = sys::or((raw >= 3) & (raw <= 7), raw >= 11);
    let n = op_num(o);
    if n == 99 { r } else { n == raw }
}
/// one frame out of an arbitrary byte string.  params: max bytes, delivery mode, min bytes
#[no_mangle]
pub extern "C" fn h_ws_frame() {
    let n = sys::choose(sys::param(2) as u32, sys::param(0) as u32);
    let d = sys::bytes(n);
    let src = Src::new(d.clone(), mode_of(sys::param(1)));
    let got = Frame::parse(src.clone());
    match (ref_frame(&d, 0), got) {
        (RParse::Frame(r), Ok(f)) => {
            sys::cover("complete frame decoded");
            sys::check(*f.fin() == r.fin, "frame: FIN bit is the one on the wire");
            sys::check(same_op(f.op_code(), r.op), "frame: opcode is the one on the wire");
            sys::check(f.decoded().len() == r.payload.len(), "frame: payload length");
            sys::check(sys::eq(f.decoded(), &r.payload), "frame: payload is the unmasked payload on the wire");
            sys::check(src.pos() == r.end, "frame: exactly the frame's bytes are consumed");
            if r.payload.len() >= 126 { sys::cover("extended length"); }
            sys::log(f.decoded());
        }
        (RParse::Frame(r), Err(_)) => {
            sys::cover("complete frame refused");
            sys::check(!r.minimal, "frame: a complete client frame is decoded");
        }
        (RParse::Unmasked, g) => { sys::cover("unmasked"); sys::check(g.is_err(), "frame: an unmasked non-empty client frame is refused") }
        (RParse::Incomplete, g) => { sys::cover("incomplete"); sys::check(g.is_err(), "frame: an incomplete frame is an error") }
    }
}


// ------------------------------------------------------------------ sessions
enum Exp {
    Msg(u8, Vec<u8>),
    /// the peer broke the protocol (or the stream ended inside a frame)
    Bad,
    Closed(Vec<u8>),
    /// protocol error in a close frame: failing and closing are both right
    BadClose,
    /// a well-formed ping or pong between the fragments of a message
    Interleaved,
}
/// the next message of the stream by RFC 6455 sections 5.4 - 5.6; `lenient` is set when a length was
/// not minimally encoded (an endpoint may refuse it)
fn ref_next(d: &[u8], pos: &mut usize, lenient: &mut bool) -> Exp {
    let f = match ref_frame(d, *pos) { RParse::Frame(f) => f, _ => return Exp::Bad };
    *pos = f.end;
    if !f.minimal { *lenient = true; }
    if f.rsv != 0 { return if f.op == 8 { Exp::BadClose } else { Exp::Bad }; }
    match f.op {
        8 => if !f.fin || f.payload.len() > 125 { Exp::BadClose } else { Exp::Closed(f.payload) },
        9 | 10 => if !f.fin || f.payload.len() > 125 { Exp::Bad } else { Exp::Msg(f.op, f.payload) },
        1 | 2 => {
            let mut acc = f.payload;
            let mut fin = f.fin;
            if !fin { sys::cover("fragmented"); }
            while !fin {
                let g = match ref_frame(d, *pos) { RParse::Frame(f) => f, _ => return Exp::Bad };
                *pos = g.end;
                if !g.minimal { *lenient = true; }
                if g.rsv != 0 { return if g.op == 8 { Exp::BadClose } else { Exp::Bad }; }
                match g.op {
                    0 => {}
                    8 => return if !g.fin || g.payload.len() > 125 { Exp::BadClose } else { Exp::Closed(g.payload) },
                    9 | 10 if g.fin && g.payload.len() <= 125 => return Exp::Interleaved,
                    _ => return Exp::Bad,
                }
                acc.extend_from_slice(&g.payload);
                fin = g.fin;
            }
            if f.op == 1 && std::str::from_utf8(&acc).is_err() { sys::cover("text that is not UTF-8"); return Exp::Bad; }
            Exp::Msg(f.op, acc)
        }
        _ => Exp::Bad,
    }
}
fn msg_parts(m: &Message) -> (u8, &[u8]) {
    match m {
        Message::Text(s) => (1, s.as_bytes()),
        Message::Binary(b) => (2, b),
        Message::Ping(p) => (9, p.as_deref().unwrap_or(&[])),
        Message::Pong(p) => (10, p.as_deref().unwrap_or(&[])),
    }
}
/// is `out` one unmasked control frame with this opcode and payload
fn is_control(out: &[u8], op: u8, payload: &[u8]) -> bool {
    out.len() == 2 + payload.len() && sys::and(sys::and(out[0] == 0x80 | op, out[1] as usize == payload.len()), sys::eq(&out[2..], payload))
}
fn is_close(out: &[u8], payload: &[u8]) -> bool {
    // an empty close frame, or one that echoes the status code or the whole body
    is_control(out, 8, &[]) || (payload.len() >= 2 && is_control(out, 8, &payload[..2])) || is_control(out, 8, payload)
}

/// drive a WebSocket over the byte stream `d` for at most `k` messages and compare with the reference
fn session(d: Vec<u8>, mode: ReadMode, k: usize) {
    let mut s = Sock::new(d.clone());
    s.mode = mode;
    s.err_at_end = sys::boolean();
    let id = host::add_sock(s);
    let mut ws = WebSocket::new(host::tcp(id));
    let mut pos = 0;
    let mut lenient = false;
    let mut closed = false;
    for _ in 0..k {
        let before = host::sock(id).output.len();
        let got = ws.next();
        let out = host::sock(id).output[before..].to_vec();
        let exp = ref_next(&d, &mut pos, &mut lenient);
        if lenient {
            sys::cover("length not minimally encoded");
            if let Some(Err(NextMessageError::ClientError)) = got { break; }
        }
        match exp {
            Exp::Msg(op, payload) => {
                match &got {
                    Some(Ok(m)) => {
                        let (o, p) = msg_parts(m);
                        sys::check(o == op, "msg: message type is the one sent");
                        sys::check(p.len() == payload.len(), "msg: message has the length sent");
                        sys::check(sys::eq(p, &payload), "msg: message content is the content sent");
                        sys::log(p);
                    }
                    Some(Err(NextMessageError::ConnectionClosed)) | None => sys::check(false, "msg: a complete message is delivered, not reported as a closed connection"),
                    _ => sys::check(false, "msg: a complete message is delivered"),
                }
                match op {
                    9 => { sys::cover("ping"); sys::check(is_control(&out, 10, &payload), "ctl: a ping is answered by exactly one pong with the same payload") }
                    10 => { sys::cover("pong"); sys::check(out.is_empty(), "ctl: a pong is not answered") }
                    1 => { sys::cover("text"); sys::check(out.is_empty(), "ctl: nothing is sent for a data message") }
                    _ => { sys::cover("binary"); sys::check(out.is_empty(), "ctl: nothing is sent for a data message") }
                }
            }
            Exp::Bad => {
                sys::cover("protocol violation");
                sys::check(!matches!(got, Some(Ok(_))), "msg: what is not a message is not delivered as one");
                sys::check(matches!(got, Some(Err(NextMessageError::ClientError))), "err: a protocol violation is reported as a client error");
                sys::check(out.is_empty() || is_control_frame(&out), "err: after a protocol violation nothing but a close frame is sent");
                break;
            }
            Exp::BadClose => {
                sys::check(matches!(got, Some(Err(_))), "err: a malformed close frame is never a message");
                sys::check(out.is_empty() || is_control_frame(&out), "err: a malformed close frame is answered by nothing but a close frame");
                closed = !matches!(got, Some(Err(NextMessageError::ClientError)));
                break;
            }
            Exp::Closed(p) => {
                sys::cover("closed by the peer");
                sys::check(matches!(got, Some(Err(NextMessageError::ConnectionClosed)) | None), "close: a close frame closes the connection");
                sys::check(is_close(&out, &p), "close: a close frame is answered by exactly one close frame");
                closed = true;
                break;
            }
            Exp::Interleaved => {
                sys::cover("control frame between fragments");
                match got {
                    Some(Ok(Message::Ping(_))) | Some(Ok(Message::Pong(_))) | Some(Ok(Message::Text(_))) | Some(Ok(Message::Binary(_))) => {}
                    Some(Err(NextMessageError::ClientError)) => sys::check(false, "msg: a control frame between the fragments of a message is handled"),
                    _ => sys::check(false, "msg: a control frame between fragments does not close the connection"),
                }
                break;
            }
        }
    }
    let (reads, before) = (host::sock(id).reads, host::sock(id).output.len());
    if closed {
        let mut copy = ws.make_copy();
        for i in 0..3 {
            let again = if i == 1 { copy.next() } else { ws.next() };
            sys::check(matches!(again, Some(Err(NextMessageError::ConnectionClosed)) | None), "close: a closed connection stays closed");
        }
        sys::check(copy.close().is_ok(), "close: closing a closed connection succeeds");
        sys::check(host::sock(id).reads == reads, "close: nothing is read from a closed connection");
        sys::check(ws.close().is_ok(), "close: closing a closed connection succeeds");
        sys::check(host::sock(id).output.len() == before, "close: nothing is sent on a closed connection");
    } else {
        // a copy of an open connection is as good as the connection
        let ws = if d.len() & 1 == 0 { let c = ws.make_copy(); drop(ws); c } else { ws };
        let r = ws.close();
        sys::check(r.is_ok(), "close: closing succeeds");
        drop(r);
        let s = &host::sock(id).output[before..];
        sys::check(is_control(s, 8, &[]), "close: closing an open connection sends exactly one close frame");
    }
    sys::check(host::sock(id).handles == 0, "close: every handle of the stream is released");
    sys::log(&host::sock(id).output);
}
fn is_control_frame(out: &[u8]) -> bool { out.len() >= 2 && out.len() == 2 + out[1] as usize && out[0] == 0x88 }

/// every byte string.  params: max bytes, delivery mode, messages
#[no_mangle]
pub extern "C" fn h_ws_stream() {
    let n = sys::choose(sys::param(3) as u32, sys::param(0) as u32);
    session(sys::bytes(n), mode_of(sys::param(1)), sys::param(2));
}
/// a sequence of complete masked frames: any header bits, payload length up to a bound, any payload,
/// any key.  params: frames, max payload, delivery mode, messages, kind of data payload (0 any, 1 ASCII)
#[no_mangle]
pub extern "C" fn h_ws_frames() {
    let nf = sys::param(0);
    let mut d = vec![];
    let keyed = sys::param(4) == 1;
    for _ in 0..nf {
        let b = sys::byte();
        let len = sys::choose(0, sys::param(1) as u32);
        d.push(b);
        d.push(0x80 | len as u8);
        let key = if keyed { sys::bytes(4) } else { vec![0; 4] };
        d.extend_from_slice(&key);
        let p = sys::bytes(len);
        for i in 0..len { d.push(p[i] ^ key[i & 3]); }
    }
    session(d, mode_of(sys::param(2)), sys::param(3));
}

/// what only size or number brings out: messages of many frames, many messages, long payloads.
/// params: kind (0 one message in n fragments, 1 n messages and pings in turn, 2 one message of n bytes,
/// 3 one ping of n bytes), min n, max n, bytes per frame, delivery mode
#[no_mangle]
pub extern "C" fn h_ws_long() {
    let n = sys::choose(sys::param(1) as u32, sys::param(2) as u32);
    let len = sys::param(3);
    let key = sys::bytes(4);
    let mut d = vec![];
    let mut frame = |first: u8, p: Vec<u8>| {
        d.push(first);
        let l = p.len();
        if l < 126 { d.push(0x80 | l as u8) }
        else if l < 65536 { d.push(0x80 | 126); d.push((l >> 8) as u8); d.push(l as u8) }
        else { d.push(0x80 | 127); for i in (0..8).rev() { d.push(((l as u64) >> (8 * i)) as u8) } }
        d.extend_from_slice(&key);
        for i in 0..l { d.push(p[i] ^ key[i & 3]); }
    };
    let mut k = 3;
    match sys::param(0) {
        0 => {
            let op = if sys::boolean() { 1 } else { 2 };
            for i in 0..n {
                let mut p = sys::bytes(len);
                if op == 1 { for b in p.iter_mut() { *b &= 0x7f } }
                frame((if i == 0 { op } else { 0 }) | (if i + 1 == n { 0x80 } else { 0 }), p);
            }
        }
        1 => {
            for i in 0..n { let p = sys::bytes(len); frame(if i & 1 == 0 { 0x82 } else { 0x89 }, p); }
            k = n + 2;
        }
        2 => { let p = sys::bytes(n); frame(0x82, p); }
        3 => { let p = sys::bytes(n); frame(0x89, p); }
        _ => {
            // a close frame with a reason
            let mut p = sys::bytes(n);
            for (i, b) in p.iter_mut().enumerate() { if i > 1 { *b &= 0x7f; } else { *b = [3, 232][i]; } }
            frame(0x88, p);
        }
    }
    frame(0x82, vec![7]);
    frame(0x88, vec![3, 232]);
    session(d, mode_of(sys::param(4)), k);
}

// ------------------------------------------------------------------ sending
fn ref_encode(op: u8, payload: &[u8]) -> Vec<u8> {
    let mut o = vec![0x80 | op];
    let n = payload.len();
    if n < 126 { o.push(n as u8) }
    else if n < 65536 { o.push(126); o.push((n >> 8) as u8); o.push(n as u8) }
    else { o.push(127); for i in (0..8).rev() { o.push(((n as u64) >> (8 * i)) as u8) } }
    o.extend_from_slice(payload);
    o
}
/// one message of every kind.  params: min length, max length, write mode (0 full, 1 arbitrary partial
/// writes, 2 at most 7 bytes per write, 3 failing after any number of bytes up to param 3),
/// kinds (0 all, 1 binary only)
#[no_mangle]
pub extern "C" fn h_ws_send() {
    let op = if sys::param(4) == 1 { 2 } else { [1u8, 2, 9, 10][sys::choose(0, 3)] };
    let n = sys::choose(sys::param(0) as u32, sys::param(1) as u32);
    if op >= 8 && n > 125 { return; }
    let b = sys::bytes(n);
    let msg = match op {
        1 => {
            // ASCII, or behind a character of two or four bytes
            let k = if n >= 2 { [0, 2, 4][sys::choose(0, if n >= 4 { 2 } else { 1 }) as usize] } else { 0 };
            if k == 2 { sys::assume(sys::and(sys::and(b[0] >= 0xc2, b[0] <= 0xdf), sys::and(b[1] >= 0x80, b[1] <= 0xbf))); }
            if k == 4 { sys::assume(sys::and(sys::and(b[0] == 0xf0, b[1] == 0x9f), sys::and(sys::and(b[2] >= 0x80, b[2] <= 0xbf), sys::and(b[3] >= 0x80, b[3] <= 0xbf)))); }
            for i in k..n { sys::assume(b[i] < 0x80); }
            Message::Text(unsafe { String::from_utf8_unchecked(b.clone()) })
        }
        2 => Message::Binary(b.clone()),
        9 => Message::Ping(if n == 0 && sys::boolean() { None } else { Some(b.clone()) }),
        _ => Message::Pong(if n == 0 && sys::boolean() { None } else { Some(b.clone()) }),
    };
    let mut s = Sock::new(vec![]);
    let limit = sys::param(3);
    s.wmode = match sys::param(2) {
        0 => WriteMode::Full,
        1 => WriteMode::Any,
        2 => WriteMode::Max(7),
        3 => WriteMode::FailAfter(sys::choose(0, limit as u32)),
        4 => WriteMode::Max(limit),
        _ => WriteMode::FailAfter((n + 12).saturating_sub(sys::choose(0, 16) * limit)),
    };
    let wm = s.wmode;
    let id = host::add_sock(s);
    let want = ref_encode(op, &b);
    let r = if sys::boolean() {
        let ws = WebSocket::new(host::tcp(id));
        let r = ws.send(msg);
        std::mem::forget(ws);
        r
    } else {
        WebSocket::send_to_stream(host::tcp(id), msg)
    };
    let out = &host::sock(id).output;
    if let WriteMode::FailAfter(k) = wm {
        sys::cover("failing write");
        if want.len() > k { sys::check(r.is_err(), "send: a failed write is reported as an error"); }
        sys::check(out.len() <= want.len() && sys::eq(out, &want[..out.len()]), "send: what was sent before a failure is a prefix of the frame");
        if want.len() > k { return; }
    }
    sys::check(r.is_ok(), "send: sending succeeds");
    sys::check(out.len() == want.len(), "send: the frame has the right length with a minimal length field");
    if out.len() == want.len() { sys::check(sys::eq(out, &want), "send: exactly one unmasked final frame with the payload"); }
    sys::cover("sent");
    sys::log(out);
}

/// the peer stops accepting data while control frames are answered.  params: max failure point, max payload
#[no_mangle]
pub extern "C" fn h_ws_fault() {
    let op = if sys::boolean() { 9u8 } else { 8 };
    let n = sys::choose(0, sys::param(1) as u32);
    let p = sys::bytes(n);
    let mut d = vec![0x80 | op, 0x80 | n as u8, 0, 0, 0, 0];
    d.extend_from_slice(&p);
    // more to answer behind it
    d.extend_from_slice(&[0x89, 0x80, 0, 0, 0, 0, 0x88, 0x80, 0, 0, 0, 0]);
    let k = sys::choose(0, sys::param(0) as u32);
    let mut s = Sock::new(d);
    // gone for good, or one write fails and the next would be accepted
    let once = sys::param(2) == 1;
    s.wmode = if once { WriteMode::FailOnce(k) } else { WriteMode::FailAfter(k) };
    let id = host::add_sock(s);
    let mut ws = WebSocket::new(host::tcp(id));
    let r = ws.next();
    let full = if op == 9 { 2 + n } else { 2 };
    let broken = k < full;
    if op == 8 {
        sys::check(matches!(r, None | Some(Err(NextMessageError::ConnectionClosed))), "fault: a close frame closes the connection even if the reply cannot be sent");
    } else if broken {
        // the reply could not be sent: the ping may be delivered or the failure reported
        match r { Some(Ok(Message::Ping(_))) | Some(Err(_)) | None => {}, _ => sys::check(false, "fault: no other message is made up") }
    } else {
        sys::check(matches!(r, Some(Ok(Message::Ping(_)))), "fault: a ping is delivered");
    }
    if broken { sys::cover("reply could not be sent") } else { sys::cover("reply sent") }
    if broken { let _ = ws.next(); let _ = ws.next(); }
    let _ = ws.close();
    if broken || !once { sys::check(host::sock(id).output.len() <= k, "fault: nothing is sent after the failure"); }
    sys::check(host::sock(id).handles == 0, "fault: every handle of the stream is released");
    sys::log(&host::sock(id).output);
}

// ------------------------------------------------------------------ upgrade
use puck::Request;
/// `s` with an arbitrary letter case
pub fn any_case(s: &str) -> String {
    let b: Vec<u8> = s.bytes().map(|c| if c.is_ascii_alphabetic() { c ^ ((sys::byte() & 1) << 5) } else { c }).collect();
    unsafe { String::from_utf8_unchecked(b) }
}
/// an arbitrary ASCII string of exactly n bytes, without controls
pub fn text(n: usize) -> String {
    let b = sys::bytes(n);
    for i in 0..n { sys::assume(sys::and(b[i] >= 0x20, b[i] < 0x7f)); }
    unsafe { String::from_utf8_unchecked(b) }
}
fn low(b: u8) -> u8 { sys::ite(sys::and(b >= b'A', b <= b'Z'), b as u32 | 0x20, b as u32) as u8 }
/// equality up to ASCII case, without a path split per byte
pub fn eq_nocase(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() { return false; }
    let mut d = 0u32;
    for i in 0..a.len() { d |= (low(a[i]) ^ low(b[i])) as u32; }
    d == 0
}
/// does `a` contain `w` up to case
fn contains_nocase(a: &[u8], w: &[u8]) -> bool {
    let mut r = false;
    let mut i = 0;
    while i + w.len() <= a.len() { r = sys::or(r, eq_nocase(&a[i..i + w.len()], w)); i += 1; }
    r
}
/// does `a` contain `w` up to case as a word of its own (perhaps in a list, or followed by a version)
fn may_name(a: &[u8], w: &[u8]) -> bool {
    let mut r = false;
    let mut i = 0;
    while i + w.len() <= a.len() {
        let before = i == 0 || sys::or(sys::or(a[i - 1] == b',', a[i - 1] == b' '), a[i - 1] == b'\t');
        let j = i + w.len();
        let after = j == a.len() || sys::or(sys::or(sys::or(a[j] == b',', a[j] == b' '), a[j] == b'\t'), sys::or(a[j] == b'/', a[j] == b';'));
        r = sys::or(r, sys::and(sys::and(before, after), eq_nocase(&a[i..j], w)));
        i += 1;
    }
    r
}
/// is `w` one of the comma-separated tokens of `a` (case-insensitive); a is split at concrete commas
fn has_token(a: &[u8], w: &[u8]) -> bool {
    let mut r = false;
    for t in a.split(|c| *c == b',') {
        let mut t = t;
        while !t.is_empty() && (t[0] == b' ' || t[0] == b'\t') { t = &t[1..] }
        while !t.is_empty() && (t[t.len() - 1] == b' ' || t[t.len() - 1] == b'\t') { t = &t[..t.len() - 1] }
        r = sys::or(r, eq_nocase(t, w));
    }
    r
}
pub const GUID: &str = "258EAFA5-E914-47DA-95CA-C5AB0DC85B11";
pub fn accept_of(key: &[u8]) -> Vec<u8> {
    use sha1::Digest;
    let mut h = sha1::Sha1::new();
    h.update(key);
    h.update(GUID.as_bytes());
    let d: [u8; 20] = h.finalize().into();
    base64::encode(d).into_bytes()
}
/// a response head as sent: status, headers (name, value), rest
pub struct Head { pub status: u16, pub reason: Vec<u8>, pub headers: Vec<(Vec<u8>, Vec<u8>)>, pub body: Vec<u8> }
pub fn parse_head(out: &[u8]) -> Option<Head> {
    let line = |from: usize| -> Option<usize> { (from..out.len().checked_sub(1)?).find(|&i| out[i] == b'\r' && out[i + 1] == b'\n') };
    let e = line(0)?;
    let l = &out[..e];
    if l.len() < 13 || &l[..9] != b"HTTP/1.1 " || l[12] != b' ' { return None; }
    let mut status = 0;
    for &c in &l[9..12] { if !c.is_ascii_digit() { return None; } status = status * 10 + (c - b'0') as u16; }
    let reason = l[13..].to_vec();
    let mut headers = vec![];
    let mut p = e + 2;
    loop {
        let e = line(p)?;
        if e == p { p += 2; break; }
        let l = &out[p..e];
        let c = l.iter().position(|c| *c == b':')?;
        let mut v = &l[c + 1..];
        while !v.is_empty() && v[0] == b' ' { v = &v[1..] }
        headers.push((l[..c].to_vec(), v.to_vec()));
        p = e + 2;
    }
    Some(Head { status, reason, headers, body: out[p..].to_vec() })
}
/// log a response, whatever the order of its headers (which is the one of a hash map)
pub fn log_response(out: &[u8]) {
    match parse_head(out) {
        None => sys::log(&(out.len() as u32).to_le_bytes()),
        Some(h) => {
            let mut sum = 0u32;
            for (n, v) in &h.headers {
                let mut x = 7u32;
                for (i, c) in n.iter().chain(v).enumerate() { x = x.wrapping_add((i as u32 * 2 + 3).wrapping_mul(*c as u32)); }
                sum = sum.wrapping_add(x);
            }
            sys::log(&sum.to_le_bytes());
            sys::log(&h.status.to_le_bytes());
            sys::log(&h.reason);
            sys::log(&h.body);
        }
    }
}
pub fn header_of<'a>(h: &'a Head, name: &str) -> Option<&'a [u8]> {
    let mut it = h.headers.iter().filter(|(n, _)| n.eq_ignore_ascii_case(name.as_bytes()));
    let r = it.next()?;
    if it.next().is_some() { return None; }
    Some(&r.1)
}
/// is `out` a complete opening handshake answer for `key`
pub fn check_handshake(out: &[u8], key: &[u8]) {
    match parse_head(out) {
        None => sys::check(false, "up: the handshake answer is a well-formed response"),
        Some(h) => {
            sys::check(h.status == 101, "up: the handshake answer has status 101");
            sys::check(h.body.is_empty(), "up: nothing follows the handshake answer");
            sys::check(header_of(&h, "upgrade").map(|v| v.eq_ignore_ascii_case(b"websocket")) == Some(true), "up: the handshake answer has Upgrade: websocket");
            sys::check(header_of(&h, "connection").map(|v| v.eq_ignore_ascii_case(b"upgrade")) == Some(true), "up: the handshake answer has Connection: Upgrade");
            match header_of(&h, "sec-websocket-accept") {
                None => sys::check(false, "up: the handshake answer has one Sec-WebSocket-Accept header"),
                Some(v) => sys::check(sys::eq(v, &accept_of(key)), "up: Sec-WebSocket-Accept is base64(sha1(key + GUID))"),
            }
        }
    }
}
pub fn check_400(out: &[u8]) {
    match parse_head(out) {
        None => sys::check(false, "up: the refusal is a well-formed response"),
        Some(h) => {
            sys::check(h.status == 400, "up: the refusal has status 400");
            sys::check(!another(&h.body), "up: the refusal is one response");
        }
    }
}
/// is there a response in what follows a head
pub fn another(body: &[u8]) -> bool { (0..body.len()).any(|i| body[i..].starts_with(b"HTTP/1.1 ") && parse_head(&body[i..]).is_some()) }
/// who asks for a WebSocket: arbitrary Upgrade and Connection headers.  params: max length of an arbitrary value
#[no_mangle]
pub extern "C" fn h_ws_decide() {
    let mut b = Request::build("http://h/").method(puck::request::Method::Get);
    let m = sys::param(0) as u32;
    // absent, the expected word in any case, the word with something around it, an arbitrary text
    let value = |word: &str, list: bool, how: usize| -> Option<String> {
        match how {
            0 => None,
            1 => Some(any_case(word)),
            2 if list => {
                let (k, l) = (sys::choose(0, 2), sys::choose(0, 2));
                let mut s = text(k); if k > 0 { s.push_str(", "); } s.push_str(&any_case(word)); if l > 0 { s.push_str(", "); s.push_str(&text(l)); }
                Some(s)
            }
            2 => { let mut s = any_case(word); s.push(text(1).as_bytes()[0] as char); Some(s) }
            _ => { let n = sys::choose(0, m); Some(text(n)) }
        }
    };
    let (up, conn) = if sys::boolean() { (value("websocket", false, sys::choose(0, 3)), value("upgrade", true, sys::choose(0, 1))) }
        else { (value("websocket", false, sys::choose(0, 1)), value("upgrade", true, sys::choose(2, 3))) };
    let (nu, nc) = (any_case("Upgrade"), any_case("Connection"));
    if let Some(v) = &up { b = b.header(nu, v.clone()); }
    if let Some(v) = &conn { b = b.header(nc, v.clone()); }
    if sys::boolean() { b = b.header("x-upgrade", "websocket"); }
    let req = b.build();
    let yes = puck::ws::should_upgrade(&req);
    let must_not = match (&up, &conn) {
        (Some(u), Some(c)) => !sys::and(may_name(u.as_bytes(), b"websocket"), contains_nocase(c.as_bytes(), b"upgrade")),
        _ => true,
    };
    if must_not { sys::cover("no upgrade"); sys::check(!yes, "dec: a request that does not ask for a WebSocket is not upgraded"); }
    else {
        let must = sys::and(eq_nocase(up.as_ref().unwrap().as_bytes(), b"websocket"), has_token(conn.as_ref().unwrap().as_bytes(), b"upgrade"));
        if must { sys::cover("upgrade"); sys::check(yes, "dec: a request that asks for a WebSocket is upgraded, whatever the letter case"); }
    }
    sys::log(&[yes as u8]);
}
/// the opening handshake for an arbitrary key.  params: min and max key length, write mode (0 full, 2 seven
/// bytes at a time, 3 failing after at most param 3 bytes)
#[no_mangle]
pub extern "C" fn h_ws_handshake() {
    let mut b = Request::build("http://h/").method(puck::request::Method::Get).header("Upgrade", "websocket").header("Connection", "Upgrade");
    let name = any_case("Sec-WebSocket-Key");
    let key = if sys::boolean() { let n = sys::choose(sys::param(0) as u32, sys::param(1) as u32); Some(text(n)) } else { None };
    if let Some(k) = &key { let k = k.as_bytes(); if !k.is_empty() { sys::assume(sys::and(k[0] != b' ', k[k.len() - 1] != b' ')); } }
    if let Some(k) = &key { b = b.header(name, k.clone()); }
    let req = b.build();
    let mut s = Sock::new(vec![]);
    let limit = sys::param(3);
    s.wmode = match sys::param(2) { 0 => WriteMode::Full, 2 => WriteMode::Max(7), _ => WriteMode::FailAfter(sys::choose(0, limit as u32)) };
    let wm = s.wmode;
    let id = host::add_sock(s);
    let ok = puck::ws::perform_upgrade(&req, host::tcp(id));
    let out = &host::sock(id).output;
    if let WriteMode::FailAfter(k) = wm {
        sys::cover("client hung up");
        if out.len() == k {
            match &key {
                Some(key) if ok => check_handshake(&out, key.as_bytes()),
                Some(_) => {}
                None => sys::check(!ok, "up: the handshake fails without a key"),
            }
            sys::check(host::sock(id).handles == 0, "up: every handle of the stream is released");
            log_response(out);
            return;
        }
    }
    match key {
        Some(k) => { sys::cover("handshake"); sys::check(ok, "up: the handshake succeeds when a key is present"); check_handshake(&out, k.as_bytes()); }
        None => { sys::cover("no key"); sys::check(!ok, "up: the handshake fails without a key"); check_400(&out); }
    }
    sys::check(host::sock(id).handles == 0, "up: every handle of the stream is released");
    log_response(&out);
}
