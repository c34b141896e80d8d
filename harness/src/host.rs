//! Model of the lunatic host: streams, listener, processes, messages.  The wasm imports
//! `lunatic::*` are redirected to the exports below by the engine and by the concrete replayer.
#![allow(static_mut_refs, dead_code)]
use crate::sys;
use std::collections::VecDeque;

#[derive(Clone, Copy, PartialEq)]
pub enum ReadMode {
    /// as much as fits
    Full,
    /// one byte per call
    Octet,
    /// at most up to the next boundary in `cuts`
    Cuts,
    /// every call returns an arbitrary non-zero amount (one path per choice)
    Any,
    /// at most so many bytes per call
    Max(usize),
}
#[derive(Clone, Copy, PartialEq)]
pub enum WriteMode {
    Full,
    /// every call accepts an arbitrary non-zero amount (one path per choice)
    Any,
    /// at most n bytes per call
    Max(usize),
    /// one write stops after n bytes in all
    Cut(usize),
    /// fails once n bytes have been accepted
    FailAfter(usize),
    /// fails once when n bytes have been accepted, and accepts everything after that
    FailOnce(usize),
}
pub struct Sock {
    pub input: Vec<u8>,
    pub pos: usize,
    pub mode: ReadMode,
    pub cuts: Vec<usize>,
    /// reading past the end: end of stream, or an error
    pub err_at_end: bool,
    /// reading past the end blocks for ever (the path ends; `on_block` is run first)
    pub block_at_end: Option<fn()>,
    /// what lies behind this position is sent only once something has been received
    pub gate: Option<usize>,
    /// (position, bytes): what is behind the position is sent when so many bytes have come behind the first answer
    pub turns: Vec<(usize, usize)>,
    pub first_answer: usize,
    pub output: Vec<u8>,
    pub wmode: WriteMode,
    pub handles: i32,
    pub reads: u32,
    pub over_released: bool,
}
impl Sock {
    pub fn new(input: Vec<u8>) -> Sock {
        Sock { input, pos: 0, mode: ReadMode::Full, cuts: vec![], err_at_end: false, block_at_end: None, gate: None, turns: vec![], first_answer: 0, output: vec![], wmode: WriteMode::Full, handles: 0, reads: 0, over_released: false }
    }
}
struct Proc { func: i32, arg: i32, mailbox: VecDeque<Msg>, started: bool }
#[derive(Default)]
struct Msg { data: Vec<u8>, rpos: usize, streams: Vec<Option<usize>>, procs: Vec<u64> }
#[derive(Default)]
pub struct Host {
    pub socks: Vec<Sock>,
    handles: Vec<Option<usize>>,
    /// sockets waiting to be accepted
    pub backlog: VecDeque<usize>,
    pub after_accept: Option<fn()>,
    procs: Vec<Proc>,
    cur: usize,
    out_msg: Option<Msg>,
    in_msg: Option<Msg>,
    pub spawned: u32,
    /// spawned processes wait until somebody waits for a message; the latest is run first
    pub lazy: bool,
    /// called when every process waits for a message
    pub stuck: Option<fn()>,
}
/// messages waiting, by process
pub fn mails() -> Vec<usize> { h().procs.iter().map(|p| p.mailbox.len()).collect() }
static mut HOST: Option<Host> = None;
pub fn h() -> &'static mut Host {
    unsafe {
        if HOST.is_none() {
            HOST = Some(Host::default());
            HOST.as_mut().unwrap().procs.push(Proc { func: 0, arg: 0, mailbox: VecDeque::new(), started: true });
        }
        HOST.as_mut().unwrap()
    }
}
pub fn add_sock(s: Sock) -> usize { h().socks.push(s); h().socks.len() - 1 }
pub fn sock(i: usize) -> &'static mut Sock { &mut h().socks[i] }
fn new_handle(s: usize) -> u64 { let h = h(); h.socks[s].handles += 1; h.handles.push(Some(s)); h.handles.len() as u64 + 100 }
fn of(id: u64) -> usize {
    match h().handles.get((id - 101) as usize) { Some(Some(s)) => *s, _ => { sys::check(false, "host: use of a stream handle that is not open"); sys::finish() } }
}
fn drop_handle(id: u64) {
    let i = (id - 101) as usize;
    match h().handles.get_mut(i) {
        Some(x @ Some(_)) => { let s = x.take().unwrap(); h().socks[s].handles -= 1; }
        _ => sys::check(false, "host: stream handle released twice"),
    }
}
/// a TcpStream of the real lunatic crate connected to the given socket
pub fn tcp(s: usize) -> lunatic::net::TcpStream {
    // TcpStream has no public constructor from an id: connect to the model
    h().backlog.push_front(s);
    let a = std::net::SocketAddr::from(([127, 0, 0, 1], 1));
    lunatic::net::TcpStream::connect(One(a)).unwrap()
}
pub struct One(pub std::net::SocketAddr);
impl lunatic::net::ToSocketAddrs for One {
    type Iter = std::option::IntoIter<std::net::SocketAddr>;
    fn to_socket_addrs(&self) -> std::io::Result<Self::Iter> { Ok(Some(self.0).into_iter()) }
}
pub fn addr() -> One { One(std::net::SocketAddr::from(([127, 0, 0, 1], 1))) }

unsafe fn put(p: *mut u64, v: u64) { *p = v }

#[export_name = "lunatic::networking::tcp_connect"]
unsafe extern "C" fn tcp_connect(_t: u32, _a: *const u8, _p: u32, _f: u32, _s: u32, _to: u32, id: *mut u64) -> u32 {
    let s = h().backlog.pop_front().unwrap();
    put(id, new_handle(s));
    0
}
#[export_name = "lunatic::networking::tcp_bind"]
unsafe extern "C" fn tcp_bind(_t: u32, _a: *const u8, _p: u32, _f: u32, _s: u32, id: *mut u64) -> u32 { put(id, 7); 0 }
#[export_name = "lunatic::networking::drop_tcp_listener"]
unsafe extern "C" fn drop_tcp_listener(_i: u64) {}
#[export_name = "lunatic::networking::tcp_accept"]
unsafe extern "C" fn tcp_accept(_l: u64, id: *mut u64, it: *mut u64) -> u32 {
    match h().backlog.pop_front() {
        Some(usize::MAX) => { put(id, 99); 1 } // a failing accept
        Some(s) => { put(id, new_handle(s)); put(it, 5); 0 }
        None => {
            // nobody else ever connects: the server would wait here for ever
            if let Some(f) = h().after_accept { f() }
            sys::finish()
        }
    }
}
#[export_name = "lunatic::networking::resolve_next"]
unsafe extern "C" fn resolve_next(_i: u64, ty: *mut u32, a: *mut u8, port: *mut u16, _f: *mut u32, _s: *mut u32) -> u32 {
    *ty = 4;
    for i in 0..4 { *a.add(i) = 127; }
    *port = 4242;
    0
}
#[export_name = "lunatic::networking::drop_dns_iterator"]
unsafe extern "C" fn drop_dns(_i: u64) {}
#[export_name = "lunatic::networking::drop_tcp_stream"]
unsafe extern "C" fn drop_tcp(i: u64) { drop_handle(i) }
#[export_name = "lunatic::networking::clone_tcp_stream"]
unsafe extern "C" fn clone_tcp(i: u64) -> u64 { let s = of(i); new_handle(s) }
#[export_name = "lunatic::networking::tcp_flush"]
unsafe extern "C" fn tcp_flush(_i: u64, _e: *mut u64) -> u32 { 0 }

/// how many bytes a read of up to `want` bytes delivers
pub fn read_amount(mode: ReadMode, pos: usize, left: usize, want: usize, cuts: &[usize]) -> usize {
    let m = left.min(want);
    if m == 0 { return 0; }
    match mode {
        ReadMode::Full => m,
        ReadMode::Octet => 1,
        ReadMode::Max(x) => m.min(x),
        ReadMode::Cuts => {
            let mut k = m;
            for &c in cuts { if c > pos { k = k.min(c - pos); } }
            k
        }
        ReadMode::Any => if m == 1 { 1 } else { sys::choose(1, m as u32) },
    }
}
#[export_name = "lunatic::networking::tcp_read"]
unsafe extern "C" fn tcp_read(id: u64, buf: *mut u8, len: usize, _t: u32, out: *mut u64) -> u32 {
    let s = sock(of(id));
    s.reads += 1;
    let mut left = s.input.len() - s.pos;
    if let Some(g) = s.gate {
        let end = if s.output.is_empty() { g } else {
            if s.pos >= g && s.first_answer == 0 { s.first_answer = s.output.len(); }
            let n = s.output.len() - s.first_answer;
            if s.first_answer == 0 { g } else { s.turns.iter().find(|t| t.1 > n).map(|t| t.0).unwrap_or(s.input.len()) }
        };
        left = end - s.pos.min(end);
        if left == 0 && len > 0 && end < s.input.len() { sys::check(false, "chat: the server answers before it waits for more than the client has a reason to send"); sys::finish() }
    }
    if left == 0 && len > 0 {
        if let Some(f) = s.block_at_end { f(); sys::finish() }
        if s.err_at_end { put(out, 99); return 1; }
    }
    let n = read_amount(s.mode, s.pos, left, len, &s.cuts);
    std::ptr::copy_nonoverlapping(s.input.as_ptr().add(s.pos), buf, n);
    s.pos += n;
    put(out, n as u64);
    0
}
#[export_name = "lunatic::networking::tcp_write_vectored"]
unsafe extern "C" fn tcp_write(id: u64, v: *const u32, n: usize, _t: u32, out: *mut u64) -> u32 {
    let s = sock(of(id));
    let mut data: Vec<u8> = vec![];
    for i in 0..n {
        let p = *v.add(2 * i) as *const u8;
        let l = *v.add(2 * i + 1) as usize;
        data.extend_from_slice(std::slice::from_raw_parts(p, l));
    }
    let m = data.len();
    let k = match s.wmode {
        WriteMode::Full => m,
        WriteMode::Any => if m <= 1 { m } else { sys::choose(1, m as u32) },
        WriteMode::Max(x) => m.min(x),
        WriteMode::Cut(x) => if s.output.len() < x { m.min(x - s.output.len()) } else { m },
        WriteMode::FailAfter(x) => {
            if s.output.len() >= x && m > 0 { put(out, 99); return 1; }
            m.min(x - s.output.len())
        }
        WriteMode::FailOnce(x) => {
            if s.output.len() >= x && m > 0 { s.wmode = WriteMode::Full; put(out, 99); return 1; }
            m.min(x - s.output.len())
        }
    };
    s.output.extend_from_slice(&data[..k]);
    put(out, k as u64);
    0
}

// ---- errors ----
#[export_name = "lunatic::error::string_size"]
unsafe extern "C" fn e_size(_i: u64) -> u32 { 1 }
#[export_name = "lunatic::error::to_string"]
unsafe extern "C" fn e_str(_i: u64, p: *mut u8) { *p = b'e' }
#[export_name = "lunatic::error::drop"]
unsafe extern "C" fn e_drop(_i: u64) {}

// ---- processes and messages ----
#[export_name = "lunatic::process::spawn"]
unsafe extern "C" fn spawn(_l: i64, _c: i64, _m: i64, _f: *const u8, _fl: usize, p: *const u8, pl: usize, id: *mut u64) -> u32 {
    let par = std::slice::from_raw_parts(p, pl);
    let rd = |o: usize| i32::from_le_bytes([par[o], par[o + 1], par[o + 2], par[o + 3]]);
    // each parameter: one type byte, then a 16-byte little-endian value
    let (a, b) = (rd(1), rd(18));
    h().spawned += 1;
    h().procs.push(Proc { func: a, arg: b, mailbox: VecDeque::new(), started: false });
    put(id, (h().procs.len() - 1) as u64);
    0
}
#[export_name = "lunatic::process::drop_process"]
unsafe extern "C" fn drop_process(_i: u64) {}
#[export_name = "lunatic::process::clone_process"]
unsafe extern "C" fn clone_process(i: u64) -> u64 { i }
#[export_name = "lunatic::process::this"]
unsafe extern "C" fn this() -> u64 { h().cur as u64 }
#[export_name = "lunatic::process::sleep_ms"]
unsafe extern "C" fn sleep(_m: u64) {}
#[export_name = "lunatic::process::die_when_link_dies"]
unsafe extern "C" fn dwld(_m: u32) {}
#[export_name = "lunatic::process::id"]
unsafe extern "C" fn pid(i: u64, u: *mut u8) { for k in 0..16 { *u.add(k) = 0; } *u = i as u8; }

#[export_name = "lunatic::message::create_data"]
unsafe extern "C" fn create_data(_t: i64, _c: u64) { h().out_msg = Some(Msg::default()); }
#[export_name = "lunatic::message::write_data"]
unsafe extern "C" fn write_data(p: *const u8, n: usize) -> usize {
    h().out_msg.as_mut().unwrap().data.extend_from_slice(std::slice::from_raw_parts(p, n));
    n
}
#[export_name = "lunatic::message::read_data"]
unsafe extern "C" fn read_data(p: *mut u8, n: usize) -> usize {
    let m = h().in_msg.as_mut().unwrap();
    let k = n.min(m.data.len() - m.rpos);
    std::ptr::copy_nonoverlapping(m.data.as_ptr().add(m.rpos), p, k);
    m.rpos += k;
    k
}
#[export_name = "lunatic::message::get_tag"]
unsafe extern "C" fn get_tag() -> i64 { 1 }
#[export_name = "lunatic::message::push_tcp_stream"]
unsafe extern "C" fn push_tcp(i: u64) -> u64 {
    // the sender's handle moves into the message
    let s = of(i);
    h().handles[(i - 101) as usize] = None;
    let m = h().out_msg.as_mut().unwrap();
    m.streams.push(Some(s));
    m.streams.len() as u64 - 1
}
#[export_name = "lunatic::message::take_tcp_stream"]
unsafe extern "C" fn take_tcp(i: u64) -> u64 {
    let s = h().in_msg.as_mut().unwrap().streams[i as usize].take().unwrap();
    h().socks[s].handles -= 1;
    new_handle(s)
}
#[export_name = "lunatic::message::push_process"]
unsafe extern "C" fn push_process(i: u64) -> u64 { let m = h().out_msg.as_mut().unwrap(); m.procs.push(i); m.procs.len() as u64 - 1 }
#[export_name = "lunatic::message::take_process"]
unsafe extern "C" fn take_process(i: u64) -> u64 { h().in_msg.as_mut().unwrap().procs[i as usize] }
#[export_name = "lunatic::message::send"]
unsafe extern "C" fn send(p: u64) {
    let m = h().out_msg.take().unwrap();
    let pr = &mut h().procs[p as usize];
    pr.mailbox.push_back(m);
    if pr.mailbox.len() > 500 { sys::check(false, "host: messages without end"); sys::finish() }
    if !pr.started && !h().lazy {
        // schedule: a spawned process runs to completion as soon as its start message arrives
        run(p as usize);
    }
}
fn run(p: usize) {
    let pr = &mut h().procs[p];
    pr.started = true;
    let (f, a) = (pr.func, pr.arg);
    let saved = h().cur;
    let saved_in = h().in_msg.take();
    h().cur = p;
    let func: fn(i32) = unsafe { std::mem::transmute(f) };
    func(a);
    h().cur = saved;
    h().in_msg = saved_in;
}
/// run what has been spawned until nothing is left to do
pub fn run_all() { while let Some(p) = (0..h().procs.len()).rev().find(|&p| !h().procs[p].started) { run(p) } }
#[export_name = "lunatic::message::receive"]
unsafe extern "C" fn receive(_t: *const i64, _n: usize, _to: u32) -> u32 {
    let c = h().cur;
    loop {
        if let Some(m) = h().procs[c].mailbox.pop_front() { h().in_msg = Some(m); return 0; }
        match (0..h().procs.len()).rev().find(|&p| !h().procs[p].started) {
            Some(p) if h().lazy => run(p),
            _ => { if let Some(f) = h().stuck { f() } sys::finish() }
        }
    }
}
