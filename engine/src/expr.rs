//! Hash-consed bit-vector expression DAG with local simplification.
//! Width 1 means Bool.  Expression id 0 is "no expression" (value is concrete).
use std::collections::HashMap;

pub type E = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum B {
    Add, Sub, Mul, UDiv, SDiv, URem, SRem, And, Or, Xor, Shl, LShr, AShr,
}
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum C {
    Eq, Ult, Ule, Slt, Sle,
}
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum N {
    None,
    Const(u64),
    Var(u32),
    Not(E),
    Bin(B, E, E),
    Cmp(C, E, E),
    Extract(u8, E),
    Concat(E, E),
    ZExt(E),
    SExt(E),
    Ite(E, E, E),
}

#[derive(Clone, Copy, Debug)]
pub struct Node {
    pub n: N,
    pub w: u8,
    pub umin: u64,
    pub umax: u64,
    pub ones: u64,
    pub h: u64,
}

#[inline]
pub fn mask(w: u8) -> u64 {
    if w >= 64 { u64::MAX } else { (1u64 << w) - 1 }
}
#[inline]
pub fn sext(v: u64, w: u8) -> i64 {
    if w >= 64 { v as i64 } else { ((v << (64 - w)) as i64) >> (64 - w) }
}
fn up_ones(umax: u64) -> u64 {
    if umax == 0 { 0 } else { u64::MAX >> umax.leading_zeros() }
}

pub struct Arena {
    pub nodes: Vec<Node>,
    map: HashMap<(N, u8), E, BuildFx>,
    ext: HashMap<(u8, u8, E), E, BuildFx>,
    // evaluation memo
    ev_stamp: Vec<u32>,
    ev_val: Vec<u64>,
    stamp: u32,
}

#[derive(Clone, Copy, Default)]
pub struct BuildFx;
pub struct Fx(u64);
impl std::hash::BuildHasher for BuildFx {
    type Hasher = Fx;
    fn build_hasher(&self) -> Fx { Fx(0) }
}
impl std::hash::Hasher for Fx {
    fn finish(&self) -> u64 { self.0 }
    fn write(&mut self, b: &[u8]) { for x in b { self.write_u64(*x as u64) } }
    fn write_u8(&mut self, x: u8) { self.write_u64(x as u64) }
    fn write_u32(&mut self, x: u32) { self.write_u64(x as u64) }
    fn write_usize(&mut self, x: usize) { self.write_u64(x as u64) }
    fn write_isize(&mut self, x: isize) { self.write_u64(x as u64) }
    fn write_u64(&mut self, x: u64) {
        self.0 = (self.0.rotate_left(23) ^ x).wrapping_mul(0x9E3779B97F4A7C15);
        self.0 ^= self.0 >> 29;
    }
}

pub const TRUE: E = 1;
pub const FALSE: E = 2;

impl Arena {
    pub fn new() -> Self {
        let mut a = Arena {
            nodes: vec![Node { n: N::None, w: 0, umin: 0, umax: 0, ones: 0, h: 0 }],
            map: HashMap::with_hasher(BuildFx),
            ext: HashMap::with_hasher(BuildFx),
            ev_stamp: vec![], ev_val: vec![], stamp: 0,
        };
        assert_eq!(a.c(1, 1), TRUE);
        assert_eq!(a.c(0, 1), FALSE);
        a
    }
    #[inline]
    pub fn n(&self, e: E) -> N { self.nodes[e as usize].n }
    #[inline]
    pub fn w(&self, e: E) -> u8 { self.nodes[e as usize].w }
    #[inline]
    pub fn cv(&self, e: E) -> Option<u64> {
        if let N::Const(v) = self.nodes[e as usize].n { Some(v) } else { None }
    }
    fn range(&self, n: N, w: u8) -> (u64, u64, u64) {
        let m = mask(w);
        let g = |e: E| { let x = &self.nodes[e as usize]; (x.umin, x.umax, x.ones) };
        let (mut lo, mut hi, mut on) = match n {
            N::Const(v) => (v, v, v),
            N::ZExt(a) => g(a),
            N::Extract(lo, a) => {
                let (_, h, o) = g(a);
                let o2 = (o >> lo) & m;
                if lo == 0 && h <= m { g(a) } else { (0, m.min(h >> lo), o2) }
            }
            N::Concat(h, l) => {
                let (a, b, o) = g(h);
                let (c, d, p) = g(l);
                let k = self.w(l);
                ((a << k) | c, (b << k) | d, (o << k) | p)
            }
            N::Ite(_, a, b) => {
                let (x0, x1, xo) = g(a);
                let (y0, y1, yo) = g(b);
                (x0.min(y0), x1.max(y1), xo | yo)
            }
            N::Bin(op, a, b) => {
                let (x0, x1, xo) = g(a);
                let (y0, y1, yo) = g(b);
                match op {
                    B::Add => match x1.checked_add(y1) {
                        Some(s) if s <= m => (x0 + y0, s, m),
                        _ => (0, m, m),
                    },
                    B::Sub => if x0 >= y1 { (x0 - y1, x1 - y0, m) } else { (0, m, m) },
                    B::Mul => match x1.checked_mul(y1) {
                        Some(s) if s <= m => (x0.wrapping_mul(y0), s, m),
                        _ => (0, m, m),
                    },
                    B::And => (0, x1.min(y1).min(xo & yo), xo & yo),
                    B::Or => (x0.max(y0), (xo | yo), xo | yo),
                    B::Xor => (0, (xo | yo), xo | yo),
                    B::UDiv => if y0 > 0 { (x0 / y1, x1 / y0, m) } else { (0, m, m) },
                    B::URem => if y0 > 0 { (0, x1.min(y1 - 1), m) } else { (0, m, m) },
                    B::LShr => if let Some(k) = self.cv(b) {
                        if k >= w as u64 { (0, 0, 0) } else { (x0 >> k, x1 >> k, xo >> k) }
                    } else { (0, x1, m) },
                    B::Shl => if let Some(k) = self.cv(b) {
                        if k >= w as u64 { (0, 0, 0) }
                        else if k == 0 || x1.leading_zeros() as u64 >= k + 64 - w as u64 { (x0 << k, x1 << k, (xo << k) & m) }
                        else { (0, (xo << k) & m, (xo << k) & m) }
                    } else { (0, m, m) },
                    _ => (0, m, m),
                }
            }
            _ => (0, m, m),
        };
        hi = hi.min(m);
        on &= m & up_ones(hi);
        hi = hi.min(on);
        if lo > hi { lo = 0; }
        (lo, hi, on)
    }
    /// arena-independent order of operands, so that all workers simplify identically
    #[inline]
    fn before(&self, a: E, b: E) -> bool { self.nodes[a as usize].h <= self.nodes[b as usize].h }
    fn shash(&self, n: N, w: u8) -> u64 {
        use std::hash::{Hash, Hasher};
        let g = |e: E| self.nodes[e as usize].h;
        let mut f = Fx(w as u64 + 0x1234567);
        match n {
            N::None => {}
            N::Const(v) => { f.write_u64(1); f.write_u64(v) }
            N::Var(i) => { f.write_u64(2); f.write_u64(i as u64) }
            N::Not(a) => { f.write_u64(3); f.write_u64(g(a)) }
            N::Bin(o, a, b) => { f.write_u64(4); o.hash(&mut f); f.write_u64(g(a)); f.write_u64(g(b)) }
            N::Cmp(o, a, b) => { f.write_u64(5); o.hash(&mut f); f.write_u64(g(a)); f.write_u64(g(b)) }
            N::Extract(l, a) => { f.write_u64(6); f.write_u64(l as u64); f.write_u64(g(a)) }
            N::Concat(a, b) => { f.write_u64(7); f.write_u64(g(a)); f.write_u64(g(b)) }
            N::ZExt(a) => { f.write_u64(8); f.write_u64(g(a)) }
            N::SExt(a) => { f.write_u64(9); f.write_u64(g(a)) }
            N::Ite(a, b, c) => { f.write_u64(10); f.write_u64(g(a)); f.write_u64(g(b)); f.write_u64(g(c)) }
        }
        f.finish()
    }
    fn mk(&mut self, n: N, w: u8) -> E {
        if let Some(&e) = self.map.get(&(n, w)) { return e; }
        let (umin, umax, ones) = self.range(n, w);
        if umin == umax {
            if let N::Const(_) = n {} else { return self.c(umin, w); }
        }
        let e = self.nodes.len() as E;
        let h = self.shash(n, w);
        self.nodes.push(Node { n, w, umin, umax, ones, h });
        self.map.insert((n, w), e);
        e
    }
    pub fn c(&mut self, v: u64, w: u8) -> E {
        let v = v & mask(w);
        if let Some(&e) = self.map.get(&(N::Const(v), w)) { return e; }
        let e = self.nodes.len() as E;
        let h = self.shash(N::Const(v), w);
        self.nodes.push(Node { n: N::Const(v), w, umin: v, umax: v, ones: v, h });
        self.map.insert((N::Const(v), w), e);
        e
    }
    pub fn var(&mut self, i: u32) -> E { self.mk(N::Var(i), 8) }

    pub fn not(&mut self, a: E) -> E {
        match self.n(a) {
            N::Const(v) => self.c(v ^ 1, 1),
            N::Not(x) => x,
            N::Cmp(C::Ult, x, y) => self.mk(N::Cmp(C::Ule, y, x), 1),
            N::Cmp(C::Ule, x, y) => self.mk(N::Cmp(C::Ult, y, x), 1),
            N::Cmp(C::Slt, x, y) => self.mk(N::Cmp(C::Sle, y, x), 1),
            N::Cmp(C::Sle, x, y) => self.mk(N::Cmp(C::Slt, y, x), 1),
            _ => self.mk(N::Not(a), 1),
        }
    }
    pub fn and1(&mut self, a: E, b: E) -> E {
        if a == b { return a; }
        if a == FALSE || b == FALSE { return FALSE; }
        if a == TRUE { return b; }
        if b == TRUE { return a; }
        if self.n(a) == N::Not(b) || self.n(b) == N::Not(a) { return FALSE; }
        let (a, b) = if self.before(a, b) { (a, b) } else { (b, a) };
        self.mk(N::Bin(B::And, a, b), 1)
    }
    pub fn or1(&mut self, a: E, b: E) -> E {
        if a == b { return a; }
        if a == TRUE || b == TRUE { return TRUE; }
        if a == FALSE { return b; }
        if b == FALSE { return a; }
        if self.n(a) == N::Not(b) || self.n(b) == N::Not(a) { return TRUE; }
        let (a, b) = if self.before(a, b) { (a, b) } else { (b, a) };
        self.mk(N::Bin(B::Or, a, b), 1)
    }
    pub fn conc_bin(op: B, x: u64, y: u64, w: u8) -> u64 {
        let m = mask(w);
        let r = match op {
            B::Add => x.wrapping_add(y),
            B::Sub => x.wrapping_sub(y),
            B::Mul => x.wrapping_mul(y),
            B::UDiv => if y == 0 { m } else { x / y },
            B::URem => if y == 0 { x } else { x % y },
            B::SDiv => {
                let (a, b) = (sext(x, w), sext(y, w));
                if b == 0 { if a < 0 { 1 } else { m } } else { a.wrapping_div(b) as u64 }
            }
            B::SRem => {
                let (a, b) = (sext(x, w), sext(y, w));
                if b == 0 { x } else { a.wrapping_rem(b) as u64 }
            }
            B::And => x & y,
            B::Or => x | y,
            B::Xor => x ^ y,
            B::Shl => if y >= w as u64 { 0 } else { x << y },
            B::LShr => if y >= w as u64 { 0 } else { x >> y },
            B::AShr => {
                let a = sext(x, w);
                (if y >= w as u64 { a >> 63 } else { a >> y }) as u64
            }
        };
        r & m
    }
    pub fn conc_cmp(op: C, x: u64, y: u64, w: u8) -> bool {
        match op {
            C::Eq => x == y,
            C::Ult => x < y,
            C::Ule => x <= y,
            C::Slt => sext(x, w) < sext(y, w),
            C::Sle => sext(x, w) <= sext(y, w),
        }
    }
    pub fn zext(&mut self, a: E, w: u8) -> E {
        let aw = self.w(a);
        if aw == w { return a; }
        match self.n(a) {
            N::Const(v) => self.c(v, w),
            N::ZExt(x) => self.zext(x, w),
            _ => self.mk(N::ZExt(a), w),
        }
    }
    pub fn sext(&mut self, a: E, w: u8) -> E {
        let aw = self.w(a);
        if aw == w { return a; }
        if aw > 1 && (self.nodes[a as usize].ones >> (aw - 1)) & 1 == 0 { return self.zext(a, w); }
        match self.n(a) {
            N::Const(v) => self.c(sext(v, aw) as u64, w),
            N::SExt(x) => self.sext(x, w),
            _ => self.mk(N::SExt(a), w),
        }
    }
    pub fn extract(&mut self, lo: u8, w: u8, a: E) -> E {
        let aw = self.w(a);
        debug_assert!(lo + w <= aw);
        if lo == 0 && w == aw { return a; }
        if (self.nodes[a as usize].ones >> lo) & mask(w) == 0 { return self.c(0, w); }
        if matches!(self.n(a), N::Bin(..) | N::Ite(..) | N::Concat(..)) {
            if let Some(&r) = self.ext.get(&(lo, w, a)) { return r; }
            let r = self.extract_raw(lo, w, a, aw);
            self.ext.insert((lo, w, a), r);
            return r;
        }
        self.extract_raw(lo, w, a, aw)
    }
    fn extract_raw(&mut self, lo: u8, w: u8, a: E, aw: u8) -> E {
        match self.n(a) {
            N::Const(v) => self.c(v >> lo, w),
            N::Extract(l2, x) => self.extract(l2 + lo, w, x),
            N::ZExt(x) => {
                let xw = self.w(x);
                if xw == 1 {
                    if lo > 0 { return self.c(0, w); }
                    return self.zext(x, w);
                }
                if lo >= xw { self.c(0, w) }
                else if lo + w <= xw { self.extract(lo, w, x) }
                else {
                    let k = xw - lo;
                    if k == 1 || w == 1 { return self.mk(N::Extract(lo, a), w); }
                    let y = self.extract(lo, k, x);
                    self.zext(y, w)
                }
            }
            N::SExt(x) => {
                let xw = self.w(x);
                if xw > 1 && lo + w <= xw { self.extract(lo, w, x) }
                else if xw > 1 && lo == 0 && w > 1 { self.sext(x, w) }
                else { self.mk(N::Extract(lo, a), w) }
            }
            N::Concat(h, l) => {
                let lw = self.w(l);
                if lo + w <= lw { self.extract(lo, w, l) }
                else if lo >= lw { self.extract(lo - lw, w, h) }
                else {
                    if lw - lo == 1 || w - (lw - lo) == 1 { return self.mk(N::Extract(lo, a), w); }
                    let x = self.extract(0, w - (lw - lo), h);
                    let y = self.extract(lo, lw - lo, l);
                    self.concat(x, y)
                }
            }
            N::Bin(op @ (B::And | B::Or | B::Xor), x, y) if w > 1 => {
                let p = self.extract(lo, w, x);
                let q = self.extract(lo, w, y);
                self.bin(op, p, q)
            }
            N::Bin(op @ (B::Add | B::Sub | B::Mul), x, y) if lo == 0 && w > 1 => {
                let p = self.extract(0, w, x);
                let q = self.extract(0, w, y);
                self.bin(op, p, q)
            }
            N::Bin(B::LShr, x, y) if w > 1 => {
                if let Some(k) = self.cv(y) {
                    let k = k.min(255) as u32;
                    if k + lo as u32 + w as u32 <= aw as u32 {
                        return self.extract(lo + k as u8, w, x);
                    }
                }
                self.mk(N::Extract(lo, a), w)
            }
            N::Bin(B::Shl, x, y) if w > 1 => {
                if let Some(k) = self.cv(y) {
                    if k >= aw as u64 { return self.c(0, w); }
                    let k = k as u8;
                    if lo >= k { return self.extract(lo - k, w, x); }
                    if lo + w <= k { return self.c(0, w); }
                }
                self.mk(N::Extract(lo, a), w)
            }
            N::Ite(c, x, y) if w > 1 => {
                // only push through when it is cheap
                if self.cv(x).is_some() || self.cv(y).is_some() {
                    let p = self.extract(lo, w, x);
                    let q = self.extract(lo, w, y);
                    self.ite(c, p, q)
                } else { self.mk(N::Extract(lo, a), w) }
            }
            _ => self.mk(N::Extract(lo, a), w),
        }
    }
    pub fn concat(&mut self, h: E, l: E) -> E {
        let (hw, lw) = (self.w(h), self.w(l));
        let w = hw + lw;
        debug_assert!(hw > 1 && lw > 1);
        if let (Some(a), Some(b)) = (self.cv(h), self.cv(l)) {
            return self.c((a << lw) | b, w);
        }
        if self.cv(h) == Some(0) { return self.zext(l, w); }
        if let (N::Extract(p, x), N::Extract(q, y)) = (self.n(h), self.n(l)) {
            if x == y && p == q + lw { return self.extract(q, w, x); }
        }
        if let N::Extract(p, x) = self.n(h) {
            if x == l && p == lw { return self.extract(0, w, x); }
            if let N::Concat(lh, ll) = self.n(l) {
                if let N::Extract(q, y) = self.n(lh) {
                    if x == y && p == q + self.w(lh) {
                        let k = self.w(lh);
                        let m = self.extract(q, hw + k, x);
                        return self.concat(m, ll);
                    }
                }
            }
        }
        // zext(high part) : extracts of the same value joined with zero high bits
        if let N::ZExt(hx) = self.n(h) {
            if self.w(hx) > 1 {
                let j = self.concat(hx, l);
                return self.zext(j, w);
            }
        }
        self.mk(N::Concat(h, l), w)
    }
    pub fn ite(&mut self, c: E, a: E, b: E) -> E {
        if c == TRUE || a == b { return a; }
        if c == FALSE { return b; }
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        if w == 1 {
            if a == TRUE { return self.or1(c, b); }
            if b == FALSE { return self.and1(c, a); }
            if a == FALSE { let n = self.not(c); return self.and1(n, b); }
            if b == TRUE { let n = self.not(c); return self.or1(n, a); }
            if a == c { return self.or1(c, b); }
            if b == c { return self.and1(c, a); }
        }
        if let N::Not(x) = self.n(c) { return self.ite(x, b, a); }
        if w > 1 {
            match (self.cv(a), self.cv(b)) {
                (Some(1), Some(0)) => return self.zext(c, w),
                (Some(0), Some(1)) => { let n = self.not(c); return self.zext(n, w); }
                _ => {}
            }
        }
        if let N::Ite(c2, x, y) = self.n(b) {
            if x == a { let d = self.or1(c, c2); return self.ite(d, a, y); }
            if c2 == c { return self.ite(c, a, y); }
        }
        if let N::Ite(c2, x, y) = self.n(a) {
            if c2 == c { return self.ite(c, x, b); }
            if y == b { let d = self.and1(c, c2); return self.ite(d, x, b); }
        }
        self.mk(N::Ite(c, a, b), w)
    }
    fn is_bool_zext(&self, a: E) -> Option<E> {
        if let N::ZExt(x) = self.n(a) { if self.w(x) == 1 { return Some(x); } }
        None
    }
    pub fn bin(&mut self, op: B, a: E, b: E) -> E {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b), "{:?}", op);
        if w == 1 {
            return match op {
                B::And => self.and1(a, b),
                B::Or => self.or1(a, b),
                B::Xor => {
                    if a == b { return FALSE; }
                    if a == TRUE { return self.not(b); }
                    if b == TRUE { return self.not(a); }
                    if a == FALSE { return b; }
                    if b == FALSE { return a; }
                    let e = self.cmp(C::Eq, a, b);
                    self.not(e)
                }
                _ => panic!("bool op {:?}", op),
            };
        }
        if let (Some(x), Some(y)) = (self.cv(a), self.cv(b)) {
            return self.c(Self::conc_bin(op, x, y, w), w);
        }
        let m = mask(w);
        // constant to the right for commutative operators
        let (a, b) = match op {
            B::Add | B::Mul | B::And | B::Or | B::Xor => {
                if self.cv(a).is_some() || (self.cv(b).is_none() && self.before(b, a)) { (b, a) } else { (a, b) }
            }
            _ => (a, b),
        };
        let bc = self.cv(b);
        match op {
            B::Add => {
                if bc == Some(0) { return a; }
                if let Some(k) = bc {
                    if let N::Bin(B::Add, x, y) = self.n(a) {
                        if let Some(j) = self.cv(y) {
                            let s = self.c(k.wrapping_add(j), w);
                            return self.bin(B::Add, x, s);
                        }
                    }
                    if let N::Bin(B::Sub, x, y) = self.n(a) {
                        if let Some(j) = self.cv(x) {
                            let s = self.c(k.wrapping_add(j), w);
                            return self.bin(B::Sub, s, y);
                        }
                    }
                } else {
                    // (x + c) + y -> (x + y) + c
                    if let N::Bin(B::Add, x, y) = self.n(a) {
                        if self.cv(y).is_some() { let t = self.bin(B::Add, x, b); return self.bin(B::Add, t, y); }
                    }
                    if let N::Bin(B::Add, x, y) = self.n(b) {
                        if self.cv(y).is_some() { let t = self.bin(B::Add, a, x); return self.bin(B::Add, t, y); }
                    }
                    if let N::Bin(B::Sub, x, y) = self.n(a) { if y == b { return x; } }
                    if let N::Bin(B::Sub, x, y) = self.n(b) { if y == a { return x; } }
                }
            }
            B::Sub => {
                if a == b { return self.c(0, w); }
                if let Some(k) = bc {
                    let nk = self.c(k.wrapping_neg() & m, w);
                    return self.bin(B::Add, a, nk);
                }
                if let N::Bin(B::Add, x, y) = self.n(a) {
                    if x == b { return y; }
                    if y == b { return x; }
                    if self.cv(y).is_some() { let t = self.bin(B::Sub, x, b); return self.bin(B::Add, t, y); }
                }
                if let N::Bin(B::Add, x, y) = self.n(b) {
                    if x == a { let z = self.c(0, w); return self.bin(B::Sub, z, y); }
                    if y == a { let z = self.c(0, w); return self.bin(B::Sub, z, x); }
                    if let Some(k) = self.cv(y) {
                        let t = self.bin(B::Sub, a, x);
                        let nk = self.c(k.wrapping_neg(), w);
                        return self.bin(B::Add, t, nk);
                    }
                }
                if let N::Bin(B::Sub, x, y) = self.n(b) { if x == a { return y; } }
            }
            B::Mul => {
                if bc == Some(0) { return b; }
                if bc == Some(1) { return a; }
                if let Some(k) = bc {
                    if k.is_power_of_two() {
                        let s = self.c(k.trailing_zeros() as u64, w);
                        return self.bin(B::Shl, a, s);
                    }
                }
            }
            B::UDiv => {
                if let Some(k) = bc {
                    if k == 1 { return a; }
                    if k.is_power_of_two() { let s = self.c(k.trailing_zeros() as u64, w); return self.bin(B::LShr, a, s); }
                }
            }
            B::URem => {
                if let Some(k) = bc {
                    if k == 1 { return self.c(0, w); }
                    if k.is_power_of_two() { let s = self.c(k - 1, w); return self.bin(B::And, a, s); }
                    if self.nodes[a as usize].umax < k { return a; }
                }
            }
            B::And => {
                if a == b { return a; }
                if bc == Some(0) { return b; }
                if let Some(k) = bc {
                    let on = self.nodes[a as usize].ones;
                    if on & !k == 0 { return a; }
                    if on & k == 0 { return self.c(0, w); }
                    if let N::Bin(B::And, x, y) = self.n(a) {
                        if let Some(j) = self.cv(y) { let s = self.c(k & j, w); return self.bin(B::And, x, s); }
                    }
                    // low-bit mask -> extract+zext (canonical)
                    if (k & (k.wrapping_add(1))) == 0 && k != m {
                        let kw = k.count_ones() as u8;
                        if kw > 1 { let x = self.extract(0, kw, a); return self.zext(x, w); }
                    }
                    if let N::ZExt(x) = self.n(a) {
                        let xw = self.w(x);
                        if xw > 1 {
                            let kk = self.c(k, xw);
                            let r = self.bin(B::And, x, kk);
                            return self.zext(r, w);
                        }
                    }
                    if let N::Ite(c, x, y) = self.n(a) {
                        if self.cv(x).is_some() && self.cv(y).is_some() {
                            let p = self.bin(op, x, b);
                            let q = self.bin(op, y, b);
                            return self.ite(c, p, q);
                        }
                    }
                } else if let (Some(x), Some(y)) = (self.is_bool_zext(a), self.is_bool_zext(b)) {
                    let r = self.and1(x, y);
                    return self.zext(r, w);
                }
            }
            B::Or => {
                if a == b { return a; }
                if bc == Some(0) { return a; }
                if bc == Some(m) { return b; }
                if let (Some(x), Some(y)) = (self.is_bool_zext(a), self.is_bool_zext(b)) {
                    let r = self.or1(x, y);
                    return self.zext(r, w);
                }
                if let Some(k) = bc {
                    if let N::Bin(B::Or, x, y) = self.n(a) {
                        if let Some(j) = self.cv(y) { let s = self.c(k | j, w); return self.bin(B::Or, x, s); }
                    }
                    if let N::ZExt(x) = self.n(a) {
                        let xw = self.w(x);
                        if xw > 1 && k & !mask(xw) == 0 {
                            let kk = self.c(k, xw);
                            let r = self.bin(B::Or, x, kk);
                            return self.zext(r, w);
                        }
                    }
                } else if let Some(r) = self.or_as_concat(a, b, w) { return r; }
            }
            B::Xor => {
                if a == b { return self.c(0, w); }
                if bc == Some(0) { return a; }
                if let (Some(x), Some(y)) = (self.is_bool_zext(a), self.is_bool_zext(b)) {
                    let r = self.bin(B::Xor, x, y);
                    return self.zext(r, w);
                }
                if let Some(k) = bc {
                    if k == 1 {
                        if let Some(x) = self.is_bool_zext(a) { let r = self.not(x); return self.zext(r, w); }
                    }
                    if let N::Bin(B::Xor, x, y) = self.n(a) {
                        if let Some(j) = self.cv(y) { let s = self.c(k ^ j, w); return self.bin(B::Xor, x, s); }
                    }
                    if let N::ZExt(x) = self.n(a) {
                        let xw = self.w(x);
                        if xw > 1 && k & !mask(xw) == 0 {
                            let kk = self.c(k, xw);
                            let r = self.bin(B::Xor, x, kk);
                            return self.zext(r, w);
                        }
                    }
                } else {
                    if let N::Bin(B::Xor, x, y) = self.n(a) {
                        if x == b { return y; }
                        if y == b { return x; }
                    }
                    if let N::Bin(B::Xor, x, y) = self.n(b) {
                        if x == a { return y; }
                        if y == a { return x; }
                    }
                    if let (N::ZExt(x), N::ZExt(y)) = (self.n(a), self.n(b)) {
                        if self.w(x) == self.w(y) && self.w(x) > 1 {
                            let r = self.bin(B::Xor, x, y);
                            return self.zext(r, w);
                        }
                    }
                }
            }
            B::Shl => {
                if let Some(k) = bc {
                    if k == 0 { return a; }
                    if k >= w as u64 { return self.c(0, w); }
                    let k = k as u8;
                    if let N::Bin(B::Shl, x, y) = self.n(a) {
                        if let Some(j) = self.cv(y) {
                            let s = self.c((j + k as u64).min(w as u64), w);
                            return self.bin(B::Shl, x, s);
                        }
                    }
                    if w - k > 1 && k > 1 {
                        let h = self.extract(0, w - k, a);
                        let z = self.c(0, k);
                        return self.concat(h, z);
                    }
                }
            }
            B::LShr => {
                if let Some(k) = bc {
                    if k == 0 { return a; }
                    if k >= w as u64 { return self.c(0, w); }
                    let k = k as u8;
                    if w - k > 1 {
                        let h = self.extract(k, w - k, a);
                        return self.zext(h, w);
                    }
                }
            }
            B::AShr => {
                if bc == Some(0) { return a; }
                if (self.nodes[a as usize].ones >> (w - 1)) & 1 == 0 { return self.bin(B::LShr, a, b); }
            }
            _ => {}
        }
        self.mk(N::Bin(op, a, b), w)
    }
    // Or of operands with disjoint bits, where the pieces line up as fields.
    fn or_as_concat(&mut self, a: E, b: E, w: u8) -> Option<E> {
        let (oa, ob) = (self.nodes[a as usize].ones, self.nodes[b as usize].ones);
        if oa & ob != 0 { return None; }
        // b low field, a high field (or vice versa)
        let (h, l) = if oa > ob { (a, b) } else { (b, a) };
        let lo_ones = self.nodes[l as usize].ones;
        if lo_ones == 0 { return Some(h); }
        let lw = 64 - lo_ones.leading_zeros() as u8;
        let ho = self.nodes[h as usize].ones;
        let tz = ho.trailing_zeros() as u8;
        if tz < lw { return None; }
        // choose a byte-ish cut
        let cut = lw.max((tz / 8) * 8).max(2);
        if cut > tz || cut < lw || w - cut < 2 { return None; }
        let hh = self.extract(cut, w - cut, h);
        let ll = self.extract(0, cut, l);
        Some(self.concat(hh, ll))
    }
    pub fn cmp(&mut self, op: C, a: E, b: E) -> E {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        if let (Some(x), Some(y)) = (self.cv(a), self.cv(b)) {
            return if Self::conc_cmp(op, x, y, w) { TRUE } else { FALSE };
        }
        if a == b { return if matches!(op, C::Eq | C::Ule | C::Sle) { TRUE } else { FALSE }; }
        let (na, nb) = (self.nodes[a as usize], self.nodes[b as usize]);
        match op {
            C::Eq => {
                if na.umax < nb.umin || nb.umax < na.umin { return FALSE; }
                let (a, b) = if self.cv(a).is_some() || (self.cv(b).is_none() && self.before(b, a)) { (b, a) } else { (a, b) };
                if w == 1 {
                    if b == TRUE { return a; }
                    if b == FALSE { return self.not(a); }
                    return self.mk(N::Cmp(C::Eq, a, b), 1);
                }
                if let Some(k) = self.cv(b) {
                    if k & !self.nodes[a as usize].ones != 0 { return FALSE; }
                    match self.n(a) {
                        N::ZExt(x) => {
                            let xw = self.w(x);
                            if xw == 1 { return if k == 1 { x } else { self.not(x) }; }
                            let kk = self.c(k, xw);
                            return self.cmp(C::Eq, x, kk);
                        }
                        N::SExt(x) => {
                            let xw = self.w(x);
                            let t = sext(k & mask(xw), xw) as u64 & mask(w);
                            if t != k { return FALSE; }
                            let kk = self.c(k, xw);
                            return self.cmp(C::Eq, x, kk);
                        }
                        N::Concat(h, l) => {
                            let lw = self.w(l);
                            let hw = self.w(h);
                            let kh = self.c(k >> lw, hw);
                            let kl = self.c(k, lw);
                            let p = self.cmp(C::Eq, h, kh);
                            let q = self.cmp(C::Eq, l, kl);
                            return self.and1(p, q);
                        }
                        N::Bin(B::Add, x, y) => if let Some(j) = self.cv(y) {
                            let kk = self.c(k.wrapping_sub(j), w);
                            return self.cmp(C::Eq, x, kk);
                        },
                        N::Bin(B::Sub, x, y) => {
                            if k == 0 { return self.cmp(C::Eq, x, y); }
                            if let Some(j) = self.cv(x) {
                                let kk = self.c(j.wrapping_sub(k), w);
                                return self.cmp(C::Eq, y, kk);
                            }
                        }
                        N::Bin(B::Xor, x, y) => {
                            if k == 0 { return self.cmp(C::Eq, x, y); }
                            if let Some(j) = self.cv(y) {
                                let kk = self.c(j ^ k, w);
                                return self.cmp(C::Eq, x, kk);
                            }
                        }
                        N::Bin(B::Or, x, y) if k == 0 => {
                            let p = self.cmp(C::Eq, x, b);
                            let q = self.cmp(C::Eq, y, b);
                            return self.and1(p, q);
                        }
                        N::Bin(B::And, x, y) => {
                            // single-bit test
                            if let Some(j) = self.cv(y) {
                                if j.is_power_of_two() {
                                    let bit = self.extract(j.trailing_zeros() as u8, 1, x);
                                    return if k == 0 { self.not(bit) } else { bit };
                                }
                            }
                        }
                        N::Ite(c, x, y) => {
                            let simple = |s: &Self, e: E| s.cv(e).is_some() || matches!(s.n(e), N::Ite(..));
                            let dis = |s: &Self, e: E| { let n = &s.nodes[e as usize]; k < n.umin || k > n.umax || k & !n.ones != 0 };
                            if simple(self, x) || simple(self, y) || dis(self, x) || dis(self, y) {
                                let p = self.cmp(C::Eq, x, b);
                                let q = self.cmp(C::Eq, y, b);
                                return self.ite(c, p, q);
                            }
                        }
                        _ => {}
                    }
                } else {
                    match (self.n(a), self.n(b)) {
                        (N::ZExt(x), N::ZExt(y)) if self.w(x) == self.w(y) => return self.cmp(C::Eq, x, y),
                        (N::Concat(h, l), N::Concat(h2, l2)) if self.w(l) == self.w(l2) => {
                            let p = self.cmp(C::Eq, h, h2);
                            let q = self.cmp(C::Eq, l, l2);
                            return self.and1(p, q);
                        }
                        (N::Bin(B::Add, x, y), N::Bin(B::Add, p, q)) if y == q => return self.cmp(C::Eq, x, p),
                        (N::Bin(B::Add, x, y), _) if x == b => { let z = self.c(0, w); return self.cmp(C::Eq, y, z); }
                        (_, N::Bin(B::Add, x, y)) if x == a => { let z = self.c(0, w); return self.cmp(C::Eq, y, z); }
                        _ => {}
                    }
                }
                self.mk(N::Cmp(C::Eq, a, b), 1)
            }
            C::Ult => {
                if na.umax < nb.umin { return TRUE; }
                if na.umin >= nb.umax { return FALSE; }
                if self.cv(b) == Some(1) { let z = self.c(0, w); return self.cmp(C::Eq, a, z); }
                if self.cv(a) == Some(0) { let z = self.c(0, w); let e = self.cmp(C::Eq, b, z); return self.not(e); }
                self.ineq(C::Ult, a, b, w)
            }
            C::Ule => {
                if na.umax <= nb.umin { return TRUE; }
                if na.umin > nb.umax { return FALSE; }
                if self.cv(b) == Some(0) { return self.cmp(C::Eq, a, b); }
                if self.cv(a) == Some(1) { let z = self.c(0, w); let e = self.cmp(C::Eq, b, z); return self.not(e); }
                self.ineq(C::Ule, a, b, w)
            }
            C::Slt | C::Sle => {
                let sb = 1u64 << (w - 1);
                if na.ones & sb == 0 && nb.ones & sb == 0 {
                    return self.cmp(if op == C::Slt { C::Ult } else { C::Ule }, a, b);
                }
                if let (N::SExt(x), Some(k)) = (self.n(a), self.cv(b)) {
                    let xw = self.w(x);
                    if xw > 1 && sext(k & mask(xw), xw) == sext(k, w) {
                        let kk = self.c(k, xw);
                        return self.cmp(op, x, kk);
                    }
                }
                if let (Some(k), N::SExt(x)) = (self.cv(a), self.n(b)) {
                    let xw = self.w(x);
                    if xw > 1 && sext(k & mask(xw), xw) == sext(k, w) {
                        let kk = self.c(k, xw);
                        return self.cmp(op, kk, x);
                    }
                }
                self.mk(N::Cmp(op, a, b), 1)
            }
        }
    }
    fn ineq(&mut self, op: C, a: E, b: E, _w: u8) -> E {
        match (self.n(a), self.n(b)) {
            (N::ZExt(x), N::Const(k)) if self.w(x) > 1 && k <= mask(self.w(x)) => {
                let kk = self.c(k, self.w(x));
                return self.cmp(op, x, kk);
            }
            (N::Const(k), N::ZExt(x)) if self.w(x) > 1 && k <= mask(self.w(x)) => {
                let kk = self.c(k, self.w(x));
                return self.cmp(op, kk, x);
            }
            (N::ZExt(x), N::ZExt(y)) if self.w(x) == self.w(y) && self.w(x) > 1 => return self.cmp(op, x, y),
            (N::Ite(c, x, y), N::Const(_)) if self.cv(x).is_some() || self.cv(y).is_some() => {
                let p = self.cmp(op, x, b);
                let q = self.cmp(op, y, b);
                return self.ite(c, p, q);
            }
            (N::Const(_), N::Ite(c, x, y)) if self.cv(x).is_some() || self.cv(y).is_some() => {
                let p = self.cmp(op, a, x);
                let q = self.cmp(op, a, y);
                return self.ite(c, p, q);
            }
            _ => {}
        }
        self.mk(N::Cmp(op, a, b), 1)
    }

    /// Evaluate under an assignment (unassigned variables are 0).
    pub fn begin_eval(&mut self) {
        self.stamp = self.stamp.wrapping_add(1);
        if self.stamp == 0 { self.stamp = 1; for s in &mut self.ev_stamp { *s = 0; } }
        let n = self.nodes.len();
        if self.ev_stamp.len() < n { self.ev_stamp.resize(n, 0); self.ev_val.resize(n, 0); }
    }
    /// continue an evaluation epoch started with begin_eval (arena may have grown)
    pub fn eval(&mut self, e: E, model: &dyn Fn(u32) -> u8) -> u64 {
        let n = self.nodes.len();
        if self.ev_stamp.len() < n { self.ev_stamp.resize(n, 0); self.ev_val.resize(n, 0); }
        self.ev(e, model)
    }
    fn ev(&mut self, e: E, model: &dyn Fn(u32) -> u8) -> u64 {
        let nd = self.nodes[e as usize];
        if let N::Const(v) = nd.n { return v; }
        if self.ev_stamp[e as usize] == self.stamp { return self.ev_val[e as usize]; }
        let r = match nd.n {
            N::None => panic!("eval none"),
            N::Const(v) => v,
            N::Var(i) => model(i) as u64,
            N::Not(a) => self.ev(a, model) ^ 1,
            N::Bin(op, a, b) => {
                let x = self.ev(a, model);
                if nd.w == 1 {
                    if op == B::And && x == 0 { 0 } else if op == B::Or && x == 1 { 1 }
                    else { let y = self.ev(b, model); Self::conc_bin(op, x, y, 1) }
                } else {
                    let y = self.ev(b, model);
                    Self::conc_bin(op, x, y, nd.w)
                }
            }
            N::Cmp(op, a, b) => {
                let x = self.ev(a, model);
                let y = self.ev(b, model);
                Self::conc_cmp(op, x, y, self.w(a)) as u64
            }
            N::Extract(lo, a) => (self.ev(a, model) >> lo) & mask(nd.w),
            N::Concat(h, l) => { let lw = self.w(l); (self.ev(h, model) << lw) | self.ev(l, model) }
            N::ZExt(a) => self.ev(a, model),
            N::SExt(a) => { let aw = self.w(a); sext(self.ev(a, model), aw) as u64 & mask(nd.w) }
            N::Ite(c, a, b) => if self.ev(c, model) == 1 { self.ev(a, model) } else { self.ev(b, model) },
        };
        self.ev_stamp[e as usize] = self.stamp;
        self.ev_val[e as usize] = r;
        r
    }
    /// Variables occurring in e, sorted.
    pub fn vars(&self, e: E, seen: &mut std::collections::HashSet<E, BuildFx>, out: &mut Vec<u32>) {
        let mut st = vec![e];
        while let Some(e) = st.pop() {
            if !seen.insert(e) { continue; }
            match self.n(e) {
                N::None | N::Const(_) => {}
                N::Var(i) => out.push(i),
                N::Not(a) | N::Extract(_, a) | N::ZExt(a) | N::SExt(a) => st.push(a),
                N::Bin(_, a, b) | N::Cmp(_, a, b) | N::Concat(a, b) => { st.push(a); st.push(b) }
                N::Ite(a, b, c) => { st.push(a); st.push(b); st.push(c) }
            }
        }
    }
    pub fn show(&self, e: E, depth: usize) -> String {
        let nd = &self.nodes[e as usize];
        if depth == 0 { return "..".into(); }
        let d = depth - 1;
        match nd.n {
            N::None => "-".into(),
            N::Const(v) => format!("{:#x}", v),
            N::Var(i) => format!("v{}", i),
            N::Not(a) => format!("!{}", self.show(a, d)),
            N::Bin(o, a, b) => format!("({:?} {} {})", o, self.show(a, d), self.show(b, d)),
            N::Cmp(o, a, b) => format!("({:?} {} {})", o, self.show(a, d), self.show(b, d)),
            N::Extract(l, a) => format!("{}[{}+{}]", self.show(a, d), l, nd.w),
            N::Concat(a, b) => format!("({} . {})", self.show(a, d), self.show(b, d)),
            N::ZExt(a) => format!("z{}({})", nd.w, self.show(a, d)),
            N::SExt(a) => format!("s{}({})", nd.w, self.show(a, d)),
            N::Ite(c, a, b) => format!("({} ? {} : {})", self.show(c, d), self.show(a, d), self.show(b, d)),
        }
    }
}
