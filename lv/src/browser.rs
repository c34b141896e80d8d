//! What client/index.js does with the instructions it receives.  Every path is also run with the
//! real client/index.js (client.mjs), which has the last word.
use crate::sys;
use puck_liveview::dom::element::Element;

/// index.js knows instructions that this model does not: the real client decides
fn unknown() -> ! { sys::cover("unknown instruction"); sys::finish() }

pub struct Node { id: Vec<u8>, name: Vec<u8>, attrs: Vec<(Vec<u8>, Vec<u8>)>, text: Vec<u8>, listeners: Vec<(Vec<u8>, Vec<u8>)>, children: Vec<usize>, parent: usize }
/// node 0 is the body of the page
pub struct Page { nodes: Vec<Node> }

struct Json<'a> { d: &'a [u8], p: usize }
impl<'a> Json<'a> {
    fn eat(&mut self, c: u8) -> bool { let y = self.p < self.d.len() && self.d[self.p] == c; if y { self.p += 1 } y }
    fn need(&mut self, c: u8) { if !self.eat(c) { sys::check(false, "view: the instructions are well-formed JSON"); sys::finish() } }
    fn string(&mut self) -> Vec<u8> {
        self.need(b'"');
        let mut v = vec![];
        loop {
            if self.p >= self.d.len() { self.need(b'"') }
            let c = self.d[self.p];
            self.p += 1;
            if c == b'"' { return v; }
            sys::check(c >= 0x20, "view: the instructions are well-formed JSON");
            if c != b'\\' { v.push(c); continue; }
            let e = self.d[self.p];
            self.p += 1;
            match e {
                b'n' => v.push(10), b'r' => v.push(13), b't' => v.push(9), b'b' => v.push(8), b'f' => v.push(12),
                b'"' | b'\\' | b'/' => v.push(e),
                b'u' => {
                    let mut x = 0u32;
                    for i in 0..4 { let c = self.d[self.p + i]; x = x * 16 + if c <= b'9' { c - b'0' } else { (c | 32) - b'a' + 10 } as u32; }
                    self.p += 4;
                    if x >= 0x80 { unknown() }
                    v.push(x as u8);
                }
                _ => self.need(b'"'),
            }
        }
    }
}

pub struct Op { el: Vec<u8>, ty: Vec<u8>, payload: Option<Vec<u8>> }
pub fn parse(d: &[u8]) -> Vec<Op> {
    let mut j = Json { d, p: 0 };
    let mut ops = vec![];
    j.need(b'[');
    if j.eat(b']') { return ops; }
    loop {
        j.need(b'{');
        let mut o = Op { el: vec![], ty: vec![], payload: None };
        loop {
            let k = j.string();
            j.need(b':');
            let v = j.string();
            match &k[..] { b"el" => o.el = v, b"ty" => o.ty = v, b"payload" => o.payload = Some(v), _ => unknown() }
            if !j.eat(b',') { break; }
        }
        j.need(b'}');
        ops.push(o);
        if !j.eat(b',') { break; }
    }
    j.need(b']');
    sys::check(j.p == d.len(), "view: the instructions are well-formed JSON");
    ops
}

impl Page {
    pub fn new() -> Page { Page { nodes: vec![Page::node(&[], b"body", 0)] } }
    fn node(id: &[u8], name: &[u8], parent: usize) -> Node {
        Node { id: id.to_vec(), name: name.to_vec(), attrs: vec![], text: vec![], listeners: vec![], children: vec![], parent }
    }
    /// getElementById: the first in document order
    fn find(&self, at: usize, id: &[u8]) -> Option<usize> {
        if at != 0 && sys::eq(&self.nodes[at].id, id) { return Some(at); }
        self.nodes[at].children.iter().find_map(|&c| self.find(c, id))
    }
    fn get(&self, id: &[u8]) -> usize {
        match self.find(0, id) {
            Some(n) => n,
            None => { sys::check(false, "view: every instruction refers to an element of the page"); sys::finish() }
        }
    }
    pub fn apply(&mut self, o: &Op) {
        let none = vec![];
        let p = o.payload.as_ref().unwrap_or(&none);
        let first = |p: &[u8]| { let i = p.iter().position(|&c| c == b'+').unwrap_or_else(|| unknown()); (p[..i].to_vec(), p[i + 1..].to_vec()) };
        let last = |p: &[u8]| { let i = p.iter().rposition(|&c| c == b'+').unwrap_or_else(|| unknown()); (p[..i].to_vec(), p[i + 1..].to_vec()) };
        if o.ty != b"createTag" && self.find(0, &o.el).is_none() { self.get(&o.el); }
        match &o.ty[..] {
            b"createTag" => {
                let (name, parent) = first(p);
                let at = if parent.is_empty() { 0 } else { self.get(&parent) };
                self.nodes.push(Page::node(&o.el, &name, at));
                let n = self.nodes.len() - 1;
                self.nodes[at].children.push(n);
            }
            b"setAttr" => {
                let (k, v) = first(p);
                let n = self.get(&o.el);
                let a = &mut self.nodes[n].attrs;
                match a.iter().position(|x| sys::eq(&x.0, &k)) { Some(i) => a[i].1 = v, None => a.push((k, v)) }
            }
            b"removeAttr" => {
                let n = self.get(&o.el);
                let a = &mut self.nodes[n].attrs;
                if let Some(i) = a.iter().position(|x| sys::eq(&x.0, p)) { a.remove(i); }
            }
            // another element takes its place; the listeners are not taken over
            b"setTagName" => { let n = self.get(&o.el); self.nodes[n].name = p.clone(); self.nodes[n].listeners.clear(); }
            b"setText" => { let n = self.get(&o.el); self.nodes[n].text = p.clone(); }
            b"removeText" => { let n = self.get(&o.el); self.nodes[n].text.clear(); }
            b"attachListener" => { let n = self.get(&o.el); self.nodes[n].listeners.push(last(p)); }
            b"removeListeners" => { let n = self.get(&o.el); self.nodes[n].listeners.clear(); }
            b"deleteEl" => {
                let n = self.get(&o.el);
                let at = self.nodes[n].parent;
                self.nodes[at].children.retain(|&c| c != n);
            }
            b"setId" => { let n = self.get(&o.el); self.nodes[n].id = p.clone(); }
            _ => unknown(),
        }
    }
    pub fn check(&self, e: &Element) {
        sys::check(self.nodes[0].children.len() == 1, "view: the page shows the rendered tree and nothing else");
        self.same(self.nodes[0].children[0], e);
    }
    fn same(&self, n: usize, e: &Element) {
        let n = &self.nodes[n];
        let name = e.name.as_bytes();
        sys::check(n.name.len() == name.len() && sys::eq(&n.name, name), "view: an element has the name rendered");
        let id = e.id.to_string();
        sys::check(n.id.len() == id.len() && sys::eq(&n.id, id.as_bytes()), "view: an element has the id rendered");
        sys::check(n.attrs.len() == e.attributes.len(), "view: an element has the attributes rendered and no others");
        for (k, v) in &n.attrs {
            let mut ok = false;
            for (k2, v2) in &e.attributes {
                ok = sys::or(ok, k.len() == k2.len() && v.len() == v2.len() && sys::and(sys::eq(k, k2.as_bytes()), sys::eq(v, v2.as_bytes())));
            }
            sys::check(ok, "view: an attribute has the value rendered");
        }
        let t = e.text.as_ref().map(|t| t.as_bytes()).unwrap_or(b"");
        sys::check(n.text.len() == t.len() && sys::eq(&n.text, t), "view: an element has the text rendered");
        sys::check(n.listeners.len() == e.listeners.len(), "view: an element has the listeners rendered and no others");
        for (l, r) in n.listeners.iter().zip(&e.listeners) {
            let (a, b) = (r.listener_name().as_bytes(), r.js_event().as_bytes());
            sys::check(l.0.len() == a.len() && l.1.len() == b.len() && sys::and(sys::eq(&l.0, a), sys::eq(&l.1, b)), "view: a listener is the one rendered");
        }
        sys::check(n.children.len() == e.children.len(), "view: an element has the children rendered and no others");
        for (c, f) in n.children.iter().zip(&e.children) { self.same(*c, f); }
    }
}

/// the tree as text, for client.mjs (strings in hexadecimal)
pub fn show(e: &Element, o: &mut Vec<u8>) {
    fn hex(o: &mut Vec<u8>, b: &[u8]) { o.push(b'"'); for x in b { for n in [x >> 4, x & 15] { o.push(n + if n < 10 { b'0' } else { b'a' - 10 }) } } o.push(b'"'); }
    o.extend_from_slice(b"{\"n\":");
    hex(o, e.name.as_bytes());
    o.extend_from_slice(b",\"i\":\"");
    o.extend_from_slice(e.id.to_string().as_bytes());
    o.extend_from_slice(b"\",\"t\":");
    hex(o, e.text.as_ref().map(|t| t.as_bytes()).unwrap_or(b""));
    o.extend_from_slice(b",\"a\":[");
    for (i, (k, v)) in e.attributes.iter().enumerate() {
        if i > 0 { o.push(b',') }
        o.push(b'['); hex(o, k.as_bytes()); o.push(b','); hex(o, v.as_bytes()); o.push(b']');
    }
    o.extend_from_slice(b"],\"l\":[");
    for (i, l) in e.listeners.iter().enumerate() {
        if i > 0 { o.push(b',') }
        o.push(b'['); hex(o, l.listener_name().as_bytes()); o.push(b','); hex(o, l.js_event().as_bytes()); o.push(b']');
    }
    o.extend_from_slice(b"],\"c\":[");
    for (i, c) in e.children.iter().enumerate() { if i > 0 { o.push(b',') } show(c, o); }
    o.extend_from_slice(b"]}");
}
