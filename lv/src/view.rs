//! Sessions of a component.
use crate::browser::{self, Page};
use crate::host::{self, Sock};
use crate::sys;
use puck::ws::websocket::WebSocket;
use puck_liveview::component::{manage, Component, Context};
use puck_liveview::dom::element::Element;
use puck_liveview::dom::listener::{Listener, ListenerRef};
use lunatic::Process;
use std::collections::HashMap;

static mut TREES: Vec<Element> = vec![];
static mut STEP: usize = 0;
static mut RENDERS: usize = 0;
static mut SOCK: usize = 0;
static mut SEEN: usize = 0;
static mut PAGE: Option<Page> = None;
static mut INPUTS: Vec<String> = vec![];
static mut DROPPED: usize = 0;
static mut NEWS: usize = 0;
static mut DATA_OK: bool = false;
static mut GONE: bool = false;
static mut SELF: Option<Process<String>> = None;
static mut OUTER: Option<Process<String>> = None;
/// the process a message arrives at
fn reached(p: &Process<String>) -> Option<usize> {
    let before = host::mails();
    p.send("x".into());
    (0..before.len()).find(|&i| host::mails()[i] > before[i])
}

struct Comp;
impl Component<(u8, String), String> for Comp {
    fn new(d: (u8, String), c: &Context<String>) -> Comp { unsafe { SELF = Some(c.process()); NEWS += 1; DATA_OK = d.0 == 7 && d.1 == "data"; } Comp }
    fn update(&mut self, input: String, _: &Context<String>) { unsafe { INPUTS.push(input); STEP += 1; } }
    fn render(&self) -> (Element, HashMap<String, Listener<String>>) {
        unsafe {
            settle();
            let t = TREES[STEP.min(TREES.len() - 1)].clone();
            let mut l = HashMap::new();
            listeners(&t, &mut l);
            RENDERS += 1;
            (t, l)
        }
    }
}
impl Drop for Comp { fn drop(&mut self) { unsafe { DROPPED += 1 } } }
fn listeners(e: &Element, l: &mut HashMap<String, Listener<String>>) {
    for r in &e.listeners {
        let (n, s) = (r.listener_name().to_string(), unsafe { STEP });
        let k = match r.js_event() {
            "click" => Listener::Click { call: Box::new({ let n = n.clone(); move |_| format!("c{}{}", s, n) }) },
            "submit" => Listener::Submit { call: Box::new({ let n = n.clone(); move |_| format!("s{}{}", s, n) }) },
            _ => Listener::Input { call: Box::new({ let n = n.clone(); move |e| format!("i{}{}={}", s, n, e.value) }) },
        };
        l.insert(n, k);
    }
    for c in &e.children { listeners(c, l); }
}

/// the browser takes in what has been sent so far: it now shows the last tree rendered
fn settle() {
    unsafe {
        if RENDERS == 0 || GONE { return; }
        let out = &host::sock(SOCK).output;
        let mut got = false;
        while SEEN < out.len() {
            let f = &out[SEEN..];
            sys::check(f.len() >= 2, "view: whole frames are sent");
            let (n, h) = match f[1] { 126 => ((f[2] as usize) << 8 | f[3] as usize, 4), 127 => (f[2..10].iter().fold(0, |a, &b| a << 8 | b as usize), 10), n => (n as usize, 2) };
            let p = &f[h..h + n];
            SEEN += h + n;
            if f[0] != 0x81 { continue; }
            got = true;
            sys::log(&[b"M", p].concat());
            for o in browser::parse(p) { PAGE.as_mut().unwrap().apply(&o); }
        }
        if got { sys::cover("instructions sent"); }
        let t = &TREES[STEP_SHOWN.min(TREES.len() - 1)];
        let mut o = vec![b'T'];
        browser::show(t, &mut o);
        sys::log(&o);
        PAGE.as_ref().unwrap().check(t);
        STEP_SHOWN += 1;
    }
}
static mut STEP_SHOWN: usize = 0;

// ---------------------------------------------------------------- trees
pub struct Gen { what: usize, ids: usize, next: usize, used: Vec<usize>, keys: u8 }
fn pick(a: u8, b: u8) -> String { String::from_utf8(vec![sys::ite(sys::boolean(), a as u32, b as u32) as u8]).unwrap() }
/// what means something in JSON, in HTML, in the messages or to string functions
const AWKWARD: [&str; 12] = ["", "+", "a+b+", "<b>", "<b>a</b>", "&lt;", " c ", "C", "a\\nb", "a\nb", "\"}]'", "\u{1F600}"];
static mut CLASSES: u32 = 0;
/// separates the paths on which such a character occurs
fn classes(b: &[u8]) {
    for &c in b { for &s in b"+<>&\"'\\/ =;:`-_.$0AZ\0\n\r\t" { if c == s { unsafe { CLASSES += 1 }; break; } } }
}
fn text(what: usize) -> String {
    if what & 8192 != 0 { return AWKWARD[sys::choose(0, AWKWARD.len() as u32 - 1) as usize].into(); }
    if what & 32768 != 0 { return "long ".repeat([20, 3000, 14000][sys::choose(0, 2) as usize]) + &pick(b'c', b'd'); }
    if what & 64 == 0 { return pick(b'c', b'd'); }
    // any ASCII character, or one of two bytes
    let b = if sys::choose(0, 1) == 0 { let b = sys::byte(); sys::assume(b < 0x80); vec![b] } else {
        let (a, b) = (sys::byte(), sys::byte());
        sys::assume(sys::and(sys::and(a >= 0xc2, a <= 0xdf), sys::and(b >= 0x80, b <= 0xbf)));
        vec![a, b]
    };
    classes(&b);
    unsafe { String::from_utf8_unchecked(b) }
}
impl Gen {
    fn element(&mut self, budget: &mut usize, depth: usize) -> Element {
        let w = self.what;
        let id = if self.ids == 0 { self.next += 1; self.next - 1 } else {
            let d = sys::range(0, 9) as usize;
            for &u in &self.used { sys::assume(u != d); }
            self.used.push(d);
            d
        };
        let mut e = Element { id, name: if w & 1 != 0 { pick(b'a', b'b').into() } else { "p".into() }, ..Default::default() };
        if w & 128 != 0 { e.attributes.insert("v".into(), pick(b'c', b'd').into()); }
        if w & 2 != 0 && sys::choose(0, 1) == 1 { e.attributes.insert(pick(b'x', b'y').into(), text(w).into()); }
        if w & 32 != 0 && sys::choose(0, 1) == 1 { e.attributes.insert("z".into(), text(w).into()); }
        if w & 4 != 0 && sys::choose(0, 1) == 1 { e.text = Some(text(w).into()); }
        if w & 8 != 0 {
            for _ in 0..sys::choose(0, 1 + (w >> 9 & 1) as u32) { e.listeners.push(ListenerRef::new(text(w), ["click", "input", "submit"][sys::choose(0, 1 + (w >> 14 & 1) as u32) as usize])); }
        }
        while *budget > 0 && depth > 0 && sys::choose(0, 1) == 1 {
            *budget -= 1;
            let mut c = self.element(budget, depth - 1);
            if w & 16 != 0 && (w & 2048 == 0 || sys::choose(0, 1) == 1) {
                c.key = Some(if w & 1024 == 0 { pick(b'k', b'l') } else { unsafe { String::from_utf8_unchecked(vec![sys::range(b'k' as u32, b'n' as u32) as u8]) } });
            }
            e.children.push(c);
        }
        if w & 16 != 0 && w & 4096 == 0 {
            // keys identify the children of an element
            for i in 0..e.children.len() { for j in 0..i { if e.children[i].key.is_some() { sys::assume(e.children[i].key != e.children[j].key); } } }
        }
        e
    }
    pub fn tree(what: usize, ids: usize, nodes: usize, depth: usize) -> Element {
        let mut g = Gen { what, ids, next: 0, used: vec![], keys: 0 };
        let (before, after) = (sys::param(5), sys::param(6));
        if before + after == 0 { return g.element(&mut (nodes - 1), depth); }
        // a long list, some of which varies
        let mut root = Element { id: 0, name: "div".into(), ..Default::default() };
        g.next = 1;
        let plain = |g: &mut Gen, k: String| {
            g.next += 1;
            Element { id: g.next - 1, name: "i".into(), text: Some(k.clone().into()), key: if what & 16 != 0 { Some(k.clone()) } else { None }, listeners: vec![ListenerRef::new(k, "click")], ..Default::default() }
        };
        for i in 0..before { let e = plain(&mut g, format!("f{}", i)); root.children.push(e); }
        let mut budget = nodes;
        while budget > 0 && sys::choose(0, 1) == 1 {
            budget -= 1;
            let mut c = g.element(&mut budget, depth);
            if what & 16 != 0 { c.key = Some(unsafe { String::from_utf8_unchecked(vec![sys::range(b'k' as u32, b'n' as u32) as u8]) }); }
            root.children.push(c);
        }
        for i in before..root.children.len() { for j in before..i { if root.children[i].key.is_some() { sys::assume(root.children[i].key != root.children[j].key); } } }
        for i in 0..after { let e = plain(&mut g, format!("g{}", i)); root.children.push(e); }
        root
    }
}

/// params: what varies (see Gen::element), nodes per tree, number of updates, ids (0 numbered, 1 any), depth
#[no_mangle]
pub extern "C" fn l_view() {
    unsafe {
        let (what, nodes, updates, ids, depth) = (sys::param(0), sys::param(1), sys::param(2), sys::param(3), sys::param(4));
        for _ in 0..=updates { TREES.push(Gen::tree(what, ids, nodes, depth)); }
        PAGE = Some(Page::new());
        host::h().lazy = true;
        SOCK = host::add_sock(Sock::new(vec![0x88, 0x80, 1, 2, 3, 4]));
        let p = manage::<Comp, (u8, String), String>((7, "data".into()), WebSocket::new(host::tcp(SOCK)));
        for i in 0..updates { p.send(format!("u{}", i)); WANT.push(format!("u{}", i)); }
        session();
    }
}
static mut WANT: Vec<String> = vec![];
fn session() {
    host::h().stuck = Some(verdict);
    host::run_all();
    verdict();
}
fn verdict() {
    unsafe {
        settle();
        sys::check(NEWS == 1 && DATA_OK, "life: one component is made, of the data given");
        sys::check(DROPPED == 1 && host::sock(SOCK).handles == 0, "life: the session ends with its connection");
        sys::check(INPUTS.len() == RENDERS - 1, "life: the component is rendered once at first and once for every input");
        sys::check(INPUTS.len() == WANT.len() || GONE && INPUTS.len() < WANT.len(), "event: every input arrives once and nothing else does");
        for (i, w) in INPUTS.iter().zip(&WANT) {
            sys::check(i.len() == w.len() && sys::eq(i.as_bytes(), w.as_bytes()), "event: the inputs are what the listeners make of what happened, in order");
        }
        if let (Some(a), Some(b)) = (&SELF, &OUTER) { sys::check(reached(a).is_some() && reached(a) == reached(b), "event: the process of its context is the one whose messages a component gets"); }
        sys::cover("session over");
        sys::finish();
    }
}

// ---------------------------------------------------------------- events
fn frame(o: &mut Vec<u8>, first: u8, p: &[u8]) {
    o.push(first);
    if p.len() < 126 { o.push(0x80 | p.len() as u8); } else { o.extend([0x80 | 126, (p.len() >> 8) as u8, p.len() as u8]); }
    o.extend([0, 0, 0, 0]);
    o.extend_from_slice(p);
}
/// JSON.stringify of a string
fn json(o: &mut Vec<u8>, s: &[u8]) {
    o.push(b'"');
    for &c in s {
        match c {
            b'"' | b'\\' => o.extend([b'\\', c]),
            8 => o.extend(b"\\b"), 9 => o.extend(b"\\t"), 10 => o.extend(b"\\n"), 12 => o.extend(b"\\f"), 13 => o.extend(b"\\r"),
            0..=31 => { o.extend(b"\\u00"); o.extend([b'0' + (c >> 4), sys::ite(c & 15 < 10, (b'0' + (c & 15)) as u32, (b'a' - 10 + (c & 15)) as u32) as u8]); }
            _ => o.push(c),
        }
    }
    o.push(b'"');
}
/// what the last tree rendered makes of an event
fn event(name: &[u8], value: Option<&str>) {
    unsafe {
        let step = WANT.len();
        let t = &TREES[step.min(TREES.len() - 1)];
        let mut all = vec![];
        fn walk<'a>(e: &'a Element, l: &mut Vec<&'a ListenerRef>) { for r in &e.listeners { l.push(r) } for c in &e.children { walk(c, l) } }
        walk(t, &mut all);
        if let Some(r) = all.iter().rev().find(|r| r.listener_name().len() == name.len() && sys::eq(r.listener_name().as_bytes(), name)) {
            sys::cover("event");
            match (r.js_event(), value) {
                ("click", _) => WANT.push(format!("c{}{}", step, r.listener_name())),
                ("submit", _) => WANT.push(format!("s{}{}", step, r.listener_name())),
                (_, Some(v)) => WANT.push(format!("i{}{}={}", step, r.listener_name(), v)),
                _ => sys::cover("input without a value"),
            }
        } else { sys::cover("no such listener") }
    }
}
const KINDS: [&str; 3] = ["click", "submit", "input"];
/// params: messages, value characters (9: an awkward text), names (0 one of two, 1 any character, 3 awkward texts), kinds of messages (bits: 1 event, 2 in
/// fragments, 4 not text, 8 other JSON, 16 not JSON), 1: ends of the connection, inputs sent by others,
/// listeners per tree, characters of what is not JSON, the peer is gone after 0..=this many bytes
#[no_mangle]
pub extern "C" fn l_events() {
    unsafe {
        let ls = sys::param(6);
        let (n, vals, any, kinds, ends, others) = (sys::param(0), sys::param(1), sys::param(2), sys::param(3), sys::param(4), sys::param(5));
        let name = || match any { 0 => pick(b'p', b'q'), 1 => text(64), 3 => text(8192), _ => "p".into() };
        for i in 0..=n + others {
            let mut e = Element { name: "p".into(), ..Default::default() };
            for _ in 0..if i == n + others { 0 } else { ls } { e.listeners.push(ListenerRef::new(name(), KINDS[sys::choose(0, 2) as usize])); }
            TREES.push(e);
        }
        for i in 0..others { WANT.push(format!("u{}", i)); }
        let mut o = vec![];
        let of: Vec<usize> = (0..5).filter(|k| kinds >> k & 1 == 1).collect();
        for _ in 0..n {
            let k = of[sys::choose(0, of.len() as u32 - 1) as usize];
            let nm = name();
            let value: Option<String> = if sys::boolean() { Some(if vals == 9 { text(8192) } else { (0..sys::choose(0, vals as u32)).map(|_| text(64)).collect() }) } else { None };
            let mut p = b"{\"listener\":".to_vec();
            json(&mut p, nm.as_bytes());
            if let Some(v) = &value { p.extend(b",\"payload\":{\"value\":"); json(&mut p, v.as_bytes()); p.push(b'}'); }
            p.push(b'}');
            match k {
                0 => { frame(&mut o, 0x81, &p); event(nm.as_bytes(), value.as_deref()); }
                1 => {
                    let at = sys::choose(0, p.len() as u32) as usize;
                    frame(&mut o, 0x01, &p[..at]);
                    frame(&mut o, 0x80, &p[at..]);
                    event(nm.as_bytes(), value.as_deref());
                }
                2 => frame(&mut o, [0x82, 0x89, 0x8a][sys::choose(0, 2) as usize], &p),
                3 => {
                    // JSON, but not what the client sends
                    let q = match sys::choose(0, 8) {
                        0 => b"null".to_vec(), 1 => b"[]".to_vec(), 2 => b"{}".to_vec(), 3 => b"{\"payload\":{\"value\":\"a\"}}".to_vec(),
                        4 => b"{\"listener\":1}".to_vec(), 5 => b"\"p\"".to_vec(), 6 => p[..p.len() - 1].to_vec(), 7 => [&p[..], b"}"].concat(), _ => b"{\"listener\":null}".to_vec(),
                    };
                    frame(&mut o, 0x81, &q);
                }
                _ => {
                    let mut q = vec![];
                    for _ in 0..sys::choose(0, sys::param(7) as u32) { let c = sys::byte(); sys::assume(c < 0x80); q.push(c); }
                    frame(&mut o, 0x81, &q);
                }
            }
        }
        match if ends == 1 { sys::choose(0, 5) } else { 0 } {
            0 => frame(&mut o, 0x88, &[]),
            1 => frame(&mut o, 0x88, &[0x03, 0xe8]),
            2 => {}                                  // end of stream
            3 => o.extend([0x81, 0x01, b'a']),       // not masked
            4 => frame(&mut o, 0x83, &[]),           // reserved
            _ => o.extend([0x81]),                   // ends inside a frame
        }
        PAGE = Some(Page::new());
        host::h().lazy = true;
        SOCK = host::add_sock(Sock { err_at_end: ends == 1 && sys::boolean(), ..Sock::new(o) });
        if sys::param(8) > 0 {
            GONE = true;
            let n = sys::choose(0, sys::param(8) as u32) as usize;
            host::sock(SOCK).wmode = if sys::boolean() { host::WriteMode::FailAfter(n) } else { host::WriteMode::FailOnce(n) };
        }
        let p = manage::<Comp, (u8, String), String>((7, "data".into()), WebSocket::new(host::tcp(SOCK)));
        for i in 0..others { p.send(format!("u{}", i)); }
        OUTER = Some(p);
        session();
    }
}
