//! Changesets used without a browser.
use crate::sys;
use crate::view::Gen;
use puck_liveview::dom::element::Element;

fn eq(a: &str, b: &str) -> u32 { if a.len() != b.len() { 0 } else { sys::eq(a.as_bytes(), b.as_bytes()) as u32 } }
fn holds(c: bool, l: &str) { sys::check(c, l) }
/// keys are no part of a changeset
fn same(a: &Element, b: &Element) {
    holds(a.id == b.id, "apply: an element has its id");
    holds(eq(&a.name, &b.name) != 0, "apply: an element has its name");
    holds(a.text.is_some() == b.text.is_some(), "apply: an element has its text");
    if let (Some(x), Some(y)) = (&a.text, &b.text) { holds(eq(x, y) != 0, "apply: an element has its text"); }
    holds(a.attributes.len() == b.attributes.len(), "apply: an element has its attributes and no others");
    for (k, v) in &b.attributes {
        match a.attributes.get(k) { Some(x) => holds(eq(x, v) != 0, "apply: an attribute has its value"), None => holds(false, "apply: an element has its attributes and no others") }
    }
    holds(a.listeners.len() == b.listeners.len(), "apply: an element has its listeners, in order");
    for (x, y) in a.listeners.iter().zip(&b.listeners) {
        holds(x.js_event() == y.js_event() && eq(x.listener_name(), y.listener_name()) != 0, "apply: an element has its listeners, in order");
    }
    holds(a.children.len() == b.children.len(), "apply: an element has its children, in order");
    for (x, y) in a.children.iter().zip(&b.children) { same(x, y); }
}

/// params: as l_view (updates: changesets applied one after the other)
#[no_mangle]
pub extern "C" fn l_apply() {
    let (what, nodes, updates, ids, depth) = (sys::param(0), sys::param(1), sys::param(2), sys::param(3), sys::param(4));
    let trees: Vec<Element> = (0..=updates).map(|_| Gen::tree(what, ids, nodes, depth)).collect();
    let mut shown = trees[0].clone();
    for i in 1..=updates {
        trees[i - 1].diff(Some(&trees[i])).apply(&mut shown);
        same(&shown, &trees[i]);
        sys::cover("applied");
    }
    sys::finish();
}
