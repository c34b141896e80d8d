//! Trees of malvolio tags turned into elements.
use crate::sys;
use puck_liveview::dom::element::Element;
use puck_liveview::dom::listener::ListenerRef;
use puck_liveview::html::id::IdGen;
use puck_liveview::prelude::*;
use std::borrow::Cow;

struct Want { name: &'static str, text: Option<String>, attrs: Vec<(&'static str, String)>, listeners: Vec<(String, String)>, children: Vec<Want> }
fn word() -> String { unsafe { String::from_utf8_unchecked(vec![sys::range(b'0' as u32, b'z' as u32) as u8]) } }

fn node(budget: &mut usize, depth: usize, kinds: &[usize]) -> (WrappedBodyNode, Want) {
    let kind = kinds[sys::choose(0, kinds.len() as u32 - 1) as usize];
    let mut w = Want { name: "", text: None, attrs: vec![], listeners: vec![], children: vec![] };
    let t = word();
    let class = if sys::choose(0, 1) == 1 { Some(word()) } else { None };
    macro_rules! tag { ($n:expr, $e:expr) => {{
        w.name = $n;
        let mut e = $e;
        if let Some(c) = &class { e = e.attribute(Class::from(Cow::<'static, str>::from(c.clone()))); w.attrs.push(("class", c.clone())); }
        e.wrap()
    }} }
    macro_rules! heading { ($n:expr, $h:ident) => {{ w.text = Some(t.clone()); tag!($n, $h::new_unchecked(t.clone())) }} }
    let (mut inner, mut listens) = (false, true);
    let mut n = match kind {
        0 => { inner = true; tag!("div", Div::new()) }
        1 => { inner = true; w.text = Some(t.clone()); tag!("p", P::new_unchecked(t.clone())) }
        2 => { inner = true; w.name = "form"; w.attrs.push(("action", t.clone())); Form::new().attribute(Action::new(t.clone())).wrap() }
        3 => { inner = true; w.attrs.push(("value", t.clone())); tag!("input", Input::new().attribute(Value::new(t.clone()))) }
        4 => { inner = true; w.attrs.push(("class", t.clone())); w.name = "select"; Select::default().raw_attribute("class", t.clone()).wrap() }
        5 => heading!("h1", H1), 6 => heading!("h2", H2), 7 => heading!("h3", H3), 8 => heading!("h4", H4), 9 => heading!("h5", H5), 10 => heading!("h6", H6),
        11 => { w.text = Some(t.clone()); w.attrs.push(("href", t.clone())); w.name = "a"; A::default().text_unsanitized(t.clone()).attribute(Href::new(t.clone())).wrap() }
        12 => { w.attrs.push(("src", t.clone())); w.name = "img"; BodyNode::Img(Img::default().attribute(Src::new(t.clone()))).wrap() }
        13 => { listens = false; w.name = "br"; Br.wrap() }
        _ => { w.text = Some(t.clone()); w.name = "label"; Label::new_unchecked(t.clone()).wrap() }
    };
    if listens {
        for _ in 0..sys::choose(0, 1) {
            let (a, b) = (word(), word());
            n = n.listener(ListenerRef::new(a.clone(), b.clone()));
            w.listeners.push((a, b));
        }
    }
    if inner {
        let many = sys::boolean();
        let mut l = vec![];
        while *budget > 0 && depth > 0 && sys::choose(0, 1) == 1 {
            *budget -= 1;
            let (c, x) = node(budget, depth - 1, kinds);
            w.children.push(x);
            if many { l.push(c); } else { n = n.child(c); }
        }
        n = n.children(l);
    }
    (n, w)
}
fn same(e: &Element, w: &Want, id: &mut usize) {
    let eq = |a: &str, b: &str| a.len() == b.len() && sys::eq(a.as_bytes(), b.as_bytes());
    sys::check(eq(&e.name, w.name), "wrap: an element has the name of its tag");
    sys::check(e.id == *id, "wrap: elements are numbered in document order");
    *id += 1;
    sys::check(match (&e.text, &w.text) { (None, None) => true, (Some(a), Some(b)) => eq(a, b), _ => false }, "wrap: an element has the text of its tag");
    sys::check(e.attributes.len() == w.attrs.len(), "wrap: an element has the attributes of its tag");
    for (k, v) in &w.attrs { sys::check(e.attributes.get(*k).map_or(false, |x| eq(x, v)), "wrap: an element has the attributes of its tag"); }
    sys::check(e.listeners.len() == w.listeners.len(), "wrap: an element has the listeners given to it");
    for (l, (a, b)) in e.listeners.iter().zip(&w.listeners) { sys::check(eq(l.listener_name(), a) && eq(l.js_event(), b), "wrap: an element has the listeners given to it"); }
    sys::check(e.children.len() == w.children.len(), "wrap: an element has the children given to it, in order");
    for (c, x) in e.children.iter().zip(&w.children) { same(c, x, id); }
}
/// params: nodes, depth, first id, 1: every kind of tag (otherwise five of them)
#[no_mangle]
pub extern "C" fn l_wrap() {
    let first = sys::param(2);
    let kinds: Vec<usize> = if sys::param(3) == 1 { (0..15).collect() } else { vec![0, 1, 5, 11, 13] };
    let (n, w) = node(&mut (sys::param(0) - 1), sys::param(1), &kinds);
    let mut g = IdGen::new();
    // numbers go on where another tree has stopped
    for _ in 0..first { let _ = Br.wrap().into_element(&mut g); }
    let e = n.into_element(&mut g);
    let mut id = first;
    same(&e, &w, &mut id);
    let after = Br.wrap().into_element(&mut g);
    sys::check(after.id == id, "wrap: no number is used twice or left out");
    sys::cover(if w.children.is_empty() { "no children" } else { "children" });
    sys::finish();
}
