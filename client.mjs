// Runs the real client/index.js on a document made of plain objects: `show` feeds it the messages of
// the server and compares the page with the tree the component rendered.
import vm from 'node:vm';
import fs from 'node:fs';

class Text { constructor(d) { this.data = d; this.parentNode = null; } get nodeType() { return 3; } get nodeValue() { return this.data; } set nodeValue(v) { this.data = String(v); }
  get textContent() { return this.data; } set textContent(v) { this.data = String(v); } cloneNode() { return new Text(this.data); } remove() { if (this.parentNode) this.parentNode.removeChild(this); } }
const NAME = /^[A-Za-z_:][-A-Za-z0-9_:.]*$/;
let kept = [];
const none = (n) => { throw new Error(n + ' is not supported here'); };
// what a browser has and this file has not
const REST = new Set(('closest matches querySelectorAll getElementsByTagName getElementsByClassName getElementsByName insertAdjacentElement insertAdjacentHTML insertAdjacentText setAttributeNS ' +
  'getAttributeNS removeAttributeNS toggleAttribute getAttributeNode setAttributeNode removeAttributeNode createElementNS createComment importNode adoptNode normalize isEqualNode isSameNode ' +
  'compareDocumentPosition getRootNode dispatchEvent getNamedItem setNamedItem removeNamedItem createRange createTreeWalker scrollIntoView focus blur click appendData replaceData insertData ' +
  'deleteData splitText moveBefore write writeln requestAnimationFrame queueMicrotask setInterval clearInterval MutationObserver URL URLSearchParams TextDecoder TextEncoder DOMParser Event ' +
  'CustomEvent HTMLElement Element Text HTMLInputElement fetch localStorage sessionStorage history navigator alert performance structuredClone AbortController Blob FormData').split(' '));
export function unsupported(e) {
  const m = /([A-Za-z]+) is not (?:a function|defined|a constructor)/.exec(e);
  return / (?:is|are) not supported here/.test(e) || !!(m && REST.has(m[1]));
}
const VOID = /^(area|base|br|col|embed|hr|img|input|link|meta|source|track|wbr)$/;
const esc = (t) => t.replace(/&/g, '&amp;').replace(/\u00a0/g, '&nbsp;').replace(/</g, '&lt;').replace(/>/g, '&gt;');
const serialize = (e) => e.ch_.map((c) => c.nodeType === 3 ? esc(c.data)
  : '<' + c.localName + [...c.map].map(([k, v]) => ' ' + k + '="' + v.replace(/&/g, '&amp;').replace(/\u00a0/g, '&nbsp;').replace(/"/g, '&quot;') + '"').join('') + '>' + (VOID.test(c.localName) ? '' : serialize(c) + '</' + c.localName + '>')).join('');
const ENT = { amp: '&', lt: '<', gt: '>', quot: '"', apos: "'", nbsp: '\u00a0' };
// plain markup only: anything the real parser would rearrange is not supported
function parse(into, v) {
  let at = into, i = 0, t = '';
  const put = () => { if (t !== '') at.appendChild(new Text(t)); t = ''; };
  const text = (x) => x.replace(/&(?:#(\d+)|(\w+));?/g, (m, n, w) => n ? String.fromCodePoint(+n) : ENT[w] && m.endsWith(';') ? ENT[w] : none('the entity ' + m));
  while (i < v.length) {
    const r = v.slice(i);
    let m;
    if ((m = /^<([A-Za-z][\w:.-]*)((?:\s+[^\s=<>"'\/]+(?:="[^"]*")?)*)\s*>/.exec(r))) {
      put();
      const e = new El(m[1]);
      for (let a = at; a && a.nodeType === 1 && a !== into.parentNode; a = a.parentNode) if (/^(a|p|table|t[rdh]|tbody|li|option|select|form|button|h\d)$/.test(e.localName + '') && (a.localName === e.localName || a.localName === 'p') || /^(table|tbody|tr|select|script|style|textarea|title)$/.test(a.localName)) none('markup that is rearranged');
      for (const x of m[2].matchAll(/\s+([^\s=]+)(?:="([^"]*)")?/g)) e.map.set(x[1].toLowerCase(), text(x[2] ?? ''));
      at.appendChild(e);
      if (!VOID.test(e.localName)) at = e;
    } else if ((m = /^<\/([A-Za-z][\w:.-]*)\s*>/.exec(r))) {
      put();
      if (at === into) { i += m[0].length; if (/^(br|p)$/i.test(m[1])) none('markup that is rearranged'); continue; }
      if (at.localName !== m[1].toLowerCase()) none('markup that is rearranged');
      at = at.parentNode;
    } else if ((m = /^<(?![A-Za-z\/!?])/.exec(r))) t += '<';
    else if (r[0] === '<') none('such markup');
    else { m = /^[^<]+/.exec(r); t += text(m[0]); }
    i += m[0].length;
  }
  put();
}
// the lists of a document: always up to date, and without the methods of arrays
const live = (f, more) => new Proxy({}, { get(_, p) {
  const l = f();
  if (p === 'length') return l.length;
  if (p === 'item') return (i) => f()[i] ?? null;
  if (p === Symbol.iterator) return function* () { for (let i = 0; i < f().length; i++) yield f()[i]; };
  if (more && p === 'forEach') return (g, t) => { for (let i = 0; i < f().length; i++) g.call(t, f()[i], i); };
  if (more && (p === 'keys' || p === 'values' || p === 'entries')) return () => l[p]();
  if (typeof p === 'string' && /^\d+$/.test(p)) return l[p];
  return typeof p === 'symbol' || p in [] ? undefined : none('the list member ' + p);
}, has: (_, p) => p === 'length' || p in f() });
class El {
  constructor(name) {
    if (!NAME.test(name)) throw new Error('InvalidCharacterError: element ' + name);
    this.localName = String(name).toLowerCase(); this.map = new Map(); this.ch_ = []; this.parentNode = null; this.handlers = [];
  }
  get classList() { none('classList'); } get dataset() { none('dataset'); } get style() { none('style'); } get shadowRoot() { none('shadowRoot'); } get relList() { none('relList'); }
  get nodeType() { return 1; } get nodeName() { return this.localName.toUpperCase(); } get tagName() { return this.nodeName; }
  get id() { return this.map.get('id') ?? ''; } set id(v) { this.map.set('id', String(v)); }
  get className() { return this.map.get('class') ?? ''; } set className(v) { this.map.set('class', String(v)); }
  setAttribute(k, v) { k = String(k).toLowerCase(); if (!NAME.test(k)) throw new Error('InvalidCharacterError: attribute ' + k); this.map.set(k, String(v)); }
  getAttribute(k) { return this.map.get(String(k).toLowerCase()) ?? null; } hasAttribute(k) { return this.map.has(String(k).toLowerCase()); }
  removeAttribute(k) { this.map.delete(String(k).toLowerCase()); } getAttributeNames() { return [...this.map.keys()]; }
  get attributes() {
    return live(() => [...this.map].map(([k, v]) => ({ nodeName: k, name: k, localName: k, nodeValue: v, value: v, textContent: v })));
  }
  get els_() { return this.ch_.filter((c) => c.nodeType === 1); } get children() { return live(() => this.els_); } get childNodes() { return live(() => this.ch_, true); }
  get firstChild() { return this.ch_[0] ?? null; } get lastChild() { return this.ch_[this.ch_.length - 1] ?? null; }
  get firstElementChild() { return this.els_[0] ?? null; } get lastElementChild() { const l = this.els_; return l[l.length - 1] ?? null; } get childElementCount() { return this.els_.length; } hasChildNodes() { return this.ch_.length > 0; }
  get parentElement() { return this.parentNode; } get ownerDocument() { return doc; }
  get isConnected() { let e = this; while (e.parentNode) e = e.parentNode; return e === doc.documentElement; }
  contains(n) { for (let e = n; e; e = e.parentNode) if (e === this) return true; return false; }
  insertBefore(n, ref) {
    if (n.contains && n.contains(this)) throw new Error('HierarchyRequestError');
    if (ref != null && ref.parentNode !== this) throw new Error('NotFoundError');
    if (n === ref) return n;
    if (n.parentNode) n.parentNode.removeChild(n);
    const i = ref == null ? this.ch_.length : this.ch_.indexOf(ref);
    this.ch_.splice(i, 0, n);
    n.parentNode = this;
    return n;
  }
  appendChild(n) { return this.insertBefore(n, null); }
  node(x) { return typeof x === 'object' && x ? x : new Text(String(x)); }
  append(...l) { for (const x of l) this.appendChild(this.node(x)); }
  prepend(...l) { const f = this.firstChild; for (const x of l) this.insertBefore(this.node(x), f); }
  before(...l) { for (const x of l) this.parentNode.insertBefore(this.node(x), this); }
  after(...l) { const n = this.parentNode.ch_[this.parentNode.ch_.indexOf(this) + 1] ?? null; for (const x of l) this.parentNode.insertBefore(this.node(x), n); }
  removeChild(n) { const i = this.ch_.indexOf(n); if (i < 0) throw new Error('NotFoundError'); this.ch_.splice(i, 1); n.parentNode = null; return n; }
  replaceChild(n, old) { if (old.parentNode !== this) throw new Error('NotFoundError'); this.insertBefore(n, old); this.removeChild(old); return old; }
  replaceChildren(...l) { while (this.firstChild) this.removeChild(this.firstChild); this.append(...l); }
  replaceWith(...l) { this.before(...l); this.remove(); }
  remove() { if (this.parentNode) this.parentNode.removeChild(this); }
  get nextSibling() { return this.parentNode?.ch_[this.parentNode.ch_.indexOf(this) + 1] ?? null; }
  get previousSibling() { return this.parentNode?.ch_[this.parentNode.ch_.indexOf(this) - 1] ?? null; }
  cloneNode(deep) {
    const e = new El(this.localName);
    e.map = new Map(this.map);
    if (deep) for (const c of this.ch_) e.appendChild(c.cloneNode(true));
    return e;
  }
  get textContent() { return this.ch_.map((c) => c.textContent).join(''); }
  set textContent(v) { this.replaceChildren(); if (v != null && String(v) !== '') this.appendChild(new Text(String(v))); }
  get innerText() { return this.textContent; } set innerText(v) { this.textContent = v; }
  // what is read from one element and given to another as it is need not be parsed
  get innerHTML() { kept.push([serialize(this), this.ch_.map((c) => c.cloneNode(true))]); return kept[kept.length - 1][0]; }
  set innerHTML(v) {
    v = v === null ? '' : String(v);
    const k = kept.find((x) => x[0] === v);
    this.replaceChildren();
    if (k) for (const c of k[1]) this.appendChild(c.cloneNode(true));
    else parse(this, v);
  }
  addEventListener(t, f) { this.handlers.push([String(t), f]); }
  removeEventListener(t, f) { this.handlers = this.handlers.filter((h) => h[0] !== t || h[1] !== f); }
  fire(t, e) { for (const h of [...this.handlers]) if (h[0] === t) typeof h[1] === 'function' ? h[1].call(this, e) : h[1].handleEvent(e); }
  *walk() { yield this; for (const c of this.ch_) if (c.walk) yield* c.walk(); }
  querySelector(s) { const m = /^(?:#([\w-]+)|\[id=["']?([^"'\]]+)["']?\])$/.exec(s); if (!m) throw new Error(s + ' is not supported here'); for (const e of this.walk()) if (e !== this && e.id === (m[1] ?? m[2])) return e; return null; }
}
let doc;
const un = (h) => Buffer.from(h, 'hex').toString('utf8');

export class Client {
  constructor(path) {
    kept = [];
    this.sent = [];
    const self = this;
    const html = new El('html'), head = new El('head'), body = new El('body');
    html.append(head, body);
    doc = {
      documentElement: html, body, head, createElement: (n) => new El(n), createTextNode: (t) => new Text(String(t)), addEventListener: (t, f) => hook(t, f), readyState: 'complete',
      getElementById(id) { for (const e of html.walk()) if (e.id === String(id) && e.map.has('id')) return e; return null; },
      querySelector: (s) => html.querySelector(s), createDocumentFragment() { throw new Error('fragments are not supported here'); },
    };
    this.doc = doc;
    this.sockets = [];
    class WebSocket {
      static CONNECTING = 0; static OPEN = 1; static CLOSING = 2; static CLOSED = 3;
      get CONNECTING() { return 0; } get OPEN() { return 1; } get CLOSING() { return 2; } get CLOSED() { return 3; }
      constructor(u) { this.url = u; this.readyState = 1; self.sockets.push(this); this.l = {}; }
      send(m) { self.sent.push(String(m)); } close() {} addEventListener(t, f) { (this.l[t] ||= []).push(f); }
    }
    const quiet = { log() {}, error() {}, warn() {}, info() {}, debug() {} };
    const location = { host: 'h:1', hostname: 'h', pathname: '/app/', protocol: 'http:', href: 'http://h:1/app/', origin: 'http://h:1', port: '1', search: '', hash: '', toString() { return this.href; }, reload() {} };
    const later = [], hook = (t, f) => { if (t === 'load' || t === 'DOMContentLoaded') later.push(f); };
    const window = { location, addEventListener: hook, document: doc, WebSocket };
    this.ctx = vm.createContext({ WebSocket, document: doc, window, location, console: quiet, setTimeout() {}, clearTimeout() {}, Node: { TEXT_NODE: 3, ELEMENT_NODE: 1 } });
    vm.runInContext(fs.readFileSync(path, 'utf8'), this.ctx);
    this.errors = [];
    // the page is loaded, then the connection is open
    for (const f of [...later, window.onload]) if (f) f({});
    for (const ws of this.sockets) for (const f of [ws.onopen, ...(ws.l.open || [])]) if (f) f({ target: ws });
  }
  message(text) {
    doc = this.doc;
    const ws = this.sockets[0], ev = { data: text };
    try { if (ws.onmessage) ws.onmessage(ev); for (const f of ws.l.message || []) f(ev); } catch (e) { this.errors.push(String(e && e.message)); }
  }
  // what differs between the page and the tree, or null
  show(tree) {
    if (this.sockets.length !== 1) return this.sockets.length + ' connections';
    let at = String(this.sockets[0].url);
    try { at = new URL(at, 'ws://h:1/app/').href; } catch {}
    if (at !== 'ws://h:1/app/ws') return 'the connection goes to ' + at;
    const l = this.doc.body.ch_;
    if (l.length !== 1) return 'the page has ' + l.length + ' elements';
    return this.same(l[0], tree, '');
  }
  same(e, t, at) {
    const name = un(t.n);
    at += '/' + name + '#' + t.i;
    if (e.nodeType !== 1 || e.localName !== name) return at + ': ' + (e.localName ?? 'text') + ' in its place';
    const attrs = new Map([...e.map]);
    const id = attrs.get('id');
    attrs.delete('id');
    if (id !== t.i) return at + ': has the id ' + id;
    for (const [k, v] of t.a) { if (attrs.get(un(k)) !== un(v)) return `${at}: the attribute ${un(k)} is ${JSON.stringify(attrs.get(un(k)))} instead of ${JSON.stringify(un(v))}`; attrs.delete(un(k)); }
    if (attrs.size) return `${at}: has the attributes ${[...attrs.keys()]}`;
    const texts = e.ch_.filter((c) => c.nodeType === 3 && c.data !== ''), kids = e.ch_.filter((c) => c.nodeType === 1);
    if (texts.map((x) => x.data).join('') !== un(t.t)) return `${at}: the text is ${JSON.stringify(texts.map((x) => x.data).join(''))} instead of ${JSON.stringify(un(t.t))}`;
    if (texts.length && e.ch_.indexOf(texts[texts.length - 1]) > e.ch_.indexOf(kids[0] ?? e.lastChild)) return at + ': text behind a child';
    // the listeners: every event sends what was rendered, and nothing else is sent
    for (const ty of ['click', 'input', 'submit']) {
      this.sent = [];
      const value = 'v"\\é+1';
      try { e.value = value; e.fire(ty, { type: ty, target: e, currentTarget: e, preventDefault() {}, stopPropagation() {} }); } catch (x) { return `${at}: a ${ty} fails: ${x.message}`; }
      const want = t.l.filter((x) => un(x[1]) === ty).map((x) => un(x[0])).sort();
      let got;
      try { got = this.sent.map((m) => JSON.parse(m)); } catch { return `${at}: a ${ty} sends ${this.sent}`; }
      if (JSON.stringify(got.map((m) => m.listener).sort()) !== JSON.stringify(want)) return `${at}: a ${ty} calls ${JSON.stringify(got.map((m) => m.listener))} instead of ${JSON.stringify(want)}`;
      if (ty === 'input' && got.some((m) => m.payload?.value !== value)) return `${at}: the value of an input is not sent`;
    }
    if (kids.length !== t.c.length) return `${at}: has ${kids.length} children instead of ${t.c.length}`;
    for (let i = 0; i < kids.length; i++) { const d = this.same(kids[i], t.c[i], at); if (d) return d; }
    return null;
  }
}

// logs of a run: messages of the server (M...) and rendered trees (T...), as Buffers
export function replayLogs(path, logs) {
  let c = null, at = 0;
  for (const l of logs) {
    const k = l[0], s = l.subarray(1).toString('utf8');
    c ||= new Client(path);
    if (k === 77) c.message(s);
    else if (k === 84) {
      const d = c.show(JSON.parse(s));
      if (d || c.errors.length) return `after rendering ${at}: ` + (d || 'shown') + (c.errors.length ? '; the client fails: ' + c.errors[0] : '');
      at++;
    }
  }
  return null;
}
