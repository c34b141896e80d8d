//! Z3 (C API) back end with constraint slicing, query cache and model reuse.
use crate::expr::*;
use std::collections::{HashMap, HashSet};
use std::ffi::CString;
use std::os::raw::{c_char, c_int, c_uint, c_void};
use std::rc::Rc;
use std::time::Instant;

type P = *mut c_void;
#[link(name = "z3")]
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_del_config(c: P);
    fn Z3_set_param_value(c: P, k: *const c_char, v: *const c_char);
    fn Z3_mk_context(c: P) -> P;
    fn Z3_del_context(c: P);
    fn Z3_set_error_handler(c: P, h: extern "C" fn(P, c_int));
    fn Z3_get_error_code(c: P) -> c_int;
    fn Z3_mk_bv_sort(c: P, n: c_uint) -> P;
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_const(c: P, s: P, ty: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, ty: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_zero_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_solver_for_logic(c: P, logic: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_dec_ref(c: P, s: P);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_reset(c: P, s: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: P, compl: bool, v: *mut P) -> bool;
    fn Z3_get_numeral_uint64(c: P, v: P, u: *mut u64) -> bool;
}
extern "C" fn on_err(_c: P, _e: c_int) {}

pub enum Res {
    Sat(Rc<Vec<(u32, u8)>>),
    Unsat,
    Unknown,
}

#[derive(Default, Clone, Copy)]
pub struct Stats {
    pub z3_queries: u64,
    pub z3_sat: u64,
    pub z3_unsat: u64,
    pub unknown: u64,
    pub cache_hits: u64,
    pub model_hits: u64,
    pub byte_dom: u64,
    pub confirmed: u64,
    pub solver_us: u64,
    pub max_us: u64,
}

pub struct Solver {
    ctx: P,
    solver: P,
    ast: Vec<P>,
    bv: HashMap<u8, P>,
    vars_of: HashMap<E, Rc<Vec<u32>>, BuildFx>,
    cache: HashMap<Vec<E>, Option<Rc<Vec<(u32, u8)>>>>,
    models: Vec<Rc<Vec<(u32, u8)>>>,
    dom: HashMap<E, Rc<[u64; 4]>, BuildFx>,
    pub stats: Stats,
    pub timeout_ms: u32,
    pub dump: Option<std::fs::File>,
}

impl Solver {
    pub fn new(timeout_ms: u32) -> Self {
        let mut s = Solver {
            ctx: std::ptr::null_mut(), solver: std::ptr::null_mut(), ast: vec![], bv: HashMap::new(),
            vars_of: Default::default(), cache: HashMap::new(), models: vec![], dom: Default::default(),
            stats: Stats::default(), timeout_ms, dump: None,
        };
        s.init();
        s
    }
    fn init(&mut self) {
        unsafe {
            let cfg = Z3_mk_config();
            let k = CString::new("model").unwrap();
            let v = CString::new("true").unwrap();
            Z3_set_param_value(cfg, k.as_ptr(), v.as_ptr());
            self.ctx = Z3_mk_context(cfg);
            Z3_del_config(cfg);
            Z3_set_error_handler(self.ctx, on_err);
            let l = CString::new("QF_BV").unwrap();
            let ls = Z3_mk_string_symbol(self.ctx, l.as_ptr());
            self.solver = Z3_mk_solver_for_logic(self.ctx, ls);
            Z3_solver_inc_ref(self.ctx, self.solver);
            let p = Z3_mk_params(self.ctx);
            Z3_params_inc_ref(self.ctx, p);
            let t = CString::new("timeout").unwrap();
            let ts = Z3_mk_string_symbol(self.ctx, t.as_ptr());
            Z3_params_set_uint(self.ctx, p, ts, self.timeout_ms);
            Z3_solver_set_params(self.ctx, self.solver, p);
        }
    }
    /// Forget everything tied to expression ids (called when the arena is reset).
    pub fn reset(&mut self) {
        unsafe {
            Z3_solver_dec_ref(self.ctx, self.solver);
            Z3_del_context(self.ctx);
        }
        self.ast.clear();
        self.bv.clear();
        self.vars_of.clear();
        self.cache.clear();
        self.dom.clear();
        self.init();
    }
    fn sort(&mut self, w: u8) -> P {
        let ctx = self.ctx;
        *self.bv.entry(w).or_insert_with(|| unsafe { Z3_mk_bv_sort(ctx, w as c_uint) })
    }
    fn tr(&mut self, a: &Arena, e: E) -> P {
        if self.ast.len() < a.nodes.len() { self.ast.resize(a.nodes.len(), std::ptr::null_mut()); }
        let p = self.ast[e as usize];
        if !p.is_null() { return p; }
        let nd = a.nodes[e as usize];
        let c = self.ctx;
        let r = unsafe {
            match nd.n {
                N::None => panic!("tr none"),
                N::Const(v) => if nd.w == 1 { if v == 1 { Z3_mk_true(c) } else { Z3_mk_false(c) } } else {
                    let s = self.sort(nd.w);
                    Z3_mk_unsigned_int64(c, v, s)
                },
                N::Var(i) => {
                    let s = self.sort(8);
                    let nm = CString::new(format!("v{}", i)).unwrap();
                    let sy = Z3_mk_string_symbol(c, nm.as_ptr());
                    Z3_mk_const(c, sy, s)
                }
                N::Not(x) => { let x = self.tr(a, x); Z3_mk_not(c, x) }
                N::Bin(op, x, y) => {
                    let x = self.tr(a, x);
                    let y = self.tr(a, y);
                    if nd.w == 1 {
                        let v = [x, y];
                        match op {
                            B::And => Z3_mk_and(c, 2, v.as_ptr()),
                            B::Or => Z3_mk_or(c, 2, v.as_ptr()),
                            B::Xor => Z3_mk_xor(c, x, y),
                            _ => panic!(),
                        }
                    } else {
                        match op {
                            B::Add => Z3_mk_bvadd(c, x, y), B::Sub => Z3_mk_bvsub(c, x, y), B::Mul => Z3_mk_bvmul(c, x, y),
                            B::UDiv => Z3_mk_bvudiv(c, x, y), B::SDiv => Z3_mk_bvsdiv(c, x, y),
                            B::URem => Z3_mk_bvurem(c, x, y), B::SRem => Z3_mk_bvsrem(c, x, y),
                            B::And => Z3_mk_bvand(c, x, y), B::Or => Z3_mk_bvor(c, x, y), B::Xor => Z3_mk_bvxor(c, x, y),
                            B::Shl => Z3_mk_bvshl(c, x, y), B::LShr => Z3_mk_bvlshr(c, x, y), B::AShr => Z3_mk_bvashr(c, x, y),
                        }
                    }
                }
                N::Cmp(op, x, y) => {
                    let x = self.tr(a, x);
                    let y = self.tr(a, y);
                    match op {
                        C::Eq => Z3_mk_eq(c, x, y),
                        C::Ult => Z3_mk_bvult(c, x, y), C::Ule => Z3_mk_bvule(c, x, y),
                        C::Slt => Z3_mk_bvslt(c, x, y), C::Sle => Z3_mk_bvsle(c, x, y),
                    }
                }
                N::Extract(lo, x) => {
                    let x = self.tr(a, x);
                    let y = Z3_mk_extract(c, (lo + nd.w - 1) as c_uint, lo as c_uint, x);
                    if nd.w == 1 { let s = self.sort(1); let one = Z3_mk_unsigned_int64(c, 1, s); Z3_mk_eq(c, y, one) } else { y }
                }
                N::Concat(x, y) => { let x = self.tr(a, x); let y = self.tr(a, y); Z3_mk_concat(c, x, y) }
                N::ZExt(x) | N::SExt(x) => {
                    let xw = a.w(x);
                    let z = matches!(nd.n, N::ZExt(_));
                    let x = self.tr(a, x);
                    if xw == 1 {
                        let s = self.sort(nd.w);
                        let t = Z3_mk_unsigned_int64(c, if z { 1 } else { mask(nd.w) }, s);
                        let f = Z3_mk_unsigned_int64(c, 0, s);
                        Z3_mk_ite(c, x, t, f)
                    } else if z { Z3_mk_zero_ext(c, (nd.w - xw) as c_uint, x) }
                    else { Z3_mk_sign_ext(c, (nd.w - xw) as c_uint, x) }
                }
                N::Ite(x, y, z) => { let x = self.tr(a, x); let y = self.tr(a, y); let z = self.tr(a, z); Z3_mk_ite(c, x, y, z) }
            }
        };
        let ec = unsafe { Z3_get_error_code(self.ctx) };
        if r.is_null() || ec != 0 { panic!("z3 translation error {} on {}", ec, a.show(e, 4)); }
        self.ast[e as usize] = r;
        r
    }
    pub fn vars(&mut self, a: &Arena, e: E) -> Rc<Vec<u32>> {
        if let Some(v) = self.vars_of.get(&e) { return v.clone(); }
        let mut seen = HashSet::with_hasher(BuildFx);
        let mut out = vec![];
        a.vars(e, &mut seen, &mut out);
        out.sort_unstable();
        out.dedup();
        let r = Rc::new(out);
        self.vars_of.insert(e, r.clone());
        r
    }
    /// The constraints of `pc` transitively sharing variables with `q`.
    pub fn slice(&mut self, a: &Arena, pc: &[E], q: E) -> Vec<E> {
        let mut vs: HashSet<u32, BuildFx> = HashSet::with_hasher(BuildFx);
        vs.extend(self.vars(a, q).iter().copied());
        let mut rem: Vec<(E, Rc<Vec<u32>>)> = pc.iter().map(|&e| (e, self.vars(a, e))).collect();
        let mut out = vec![];
        loop {
            let mut ch = false;
            let mut i = 0;
            while i < rem.len() {
                if rem[i].1.iter().any(|v| vs.contains(v)) {
                    let (e, v) = rem.swap_remove(i);
                    vs.extend(v.iter().copied());
                    out.push(e);
                    ch = true;
                } else { i += 1; }
            }
            if !ch { break; }
        }
        out
    }
    fn domain(&mut self, a: &mut Arena, e: E, v: u32) -> Rc<[u64; 4]> {
        if let Some(d) = self.dom.get(&e) { return d.clone(); }
        let mut d = [0u64; 4];
        for x in 0..256usize {
            a.begin_eval();
            if a.eval(e, &|i| if i == v { x as u8 } else { 0 }) == 1 { d[x / 64] |= 1 << (x % 64); }
        }
        let r = Rc::new(d);
        self.dom.insert(e, r.clone());
        r
    }
    /// values of byte variable v allowed by the constraints on v alone
    pub fn byte_values(&mut self, a: &mut Arena, pc: &[E], v: u32) -> [u64; 4] {
        let mut d = [u64::MAX; 4];
        for &e in pc {
            let vs = self.vars(a, e);
            if vs.len() == 1 && vs[0] == v { let x = self.domain(a, e, v); for i in 0..4 { d[i] &= x[i]; } }
        }
        d
    }
    /// Decide  pc /\ q.   `force_z3` bypasses the single-byte-domain shortcut (used for property queries).
    pub fn check(&mut self, a: &mut Arena, pc: &[E], q: E, force_z3: bool) -> Res {
        if q == FALSE { return Res::Unsat; }
        let mut sl = self.slice(a, pc, q);
        sl.push(q);
        sl.sort_unstable();
        sl.dedup();
        sl.retain(|&e| e != TRUE);
        if sl.contains(&FALSE) { return Res::Unsat; }
        if let Some(r) = self.cache.get(&sl) {
            self.stats.cache_hits += 1;
            return match r { Some(m) => Res::Sat(m.clone()), None => Res::Unsat };
        }
        let t0 = Instant::now();
        let r = self.check2(a, &sl, force_z3);
        let us = t0.elapsed().as_micros() as u64;
        self.stats.solver_us += us;
        self.stats.max_us = self.stats.max_us.max(us);
        match &r {
            Res::Sat(m) => { self.cache.insert(sl, Some(m.clone())); }
            Res::Unsat => { self.cache.insert(sl, None); }
            Res::Unknown => {}
        }
        r
    }
    fn check2(&mut self, a: &mut Arena, sl: &[E], force_z3: bool) -> Res {
        // variables of the slice
        let mut vs: Vec<u32> = vec![];
        for &e in sl { let v = self.vars(a, e); vs.extend(v.iter().copied()); }
        vs.sort_unstable();
        vs.dedup();
        if vs.len() == 1 && !force_z3 {
            let mut d = [u64::MAX; 4];
            for &e in sl {
                let x = self.domain(a, e, vs[0]);
                for i in 0..4 { d[i] &= x[i]; }
            }
            self.stats.byte_dom += 1;
            for i in 0..4 {
                if d[i] != 0 {
                    return Res::Sat(Rc::new(vec![(vs[0], (i * 64) as u8 + d[i].trailing_zeros() as u8)]));
                }
            }
            self.confirm(a, sl);
            return Res::Unsat;
        }
        // a variable whose own constraints already exclude every value
        if !force_z3 && vs.len() > 1 {
            let mut ds: HashMap<u32, [u64; 4], BuildFx> = HashMap::with_hasher(BuildFx);
            for &e in sl {
                let v = self.vars(a, e);
                if v.len() != 1 { continue; }
                let x = self.domain(a, e, v[0]);
                let d = ds.entry(v[0]).or_insert([u64::MAX; 4]);
                let mut any = 0;
                for i in 0..4 { d[i] &= x[i]; any |= d[i]; }
                if any == 0 {
                    self.stats.byte_dom += 1;
                    let own: Vec<E> = sl.iter().copied().filter(|&e| { let w = self.vars(a, e); w.len() == 1 && w[0] == v[0] }).collect();
                    self.confirm(a, &own);
                    return Res::Unsat;
                }
            }
        }
        // reuse earlier models
        for k in (0..self.models.len()).rev().take(12) {
            let m = self.models[k].clone();
            a.begin_eval();
            let f = |i: u32| match m.binary_search_by_key(&i, |x| x.0) { Ok(p) => m[p].1, Err(_) => 0 };
            if sl.iter().all(|&e| a.eval(e, &f) == 1) {
                self.stats.model_hits += 1;
                return Res::Sat(Rc::new(vs.iter().map(|&v| (v, f(v))).collect()));
            }
        }
        self.stats.z3_queries += 1;
        unsafe {
            Z3_solver_reset(self.ctx, self.solver);
            for &e in sl {
                let t = self.tr(a, e);
                Z3_solver_assert(self.ctx, self.solver, t);
            }
            let r = Z3_solver_check(self.ctx, self.solver);
            if r == 1 {
                self.stats.z3_sat += 1;
                let m = Z3_solver_get_model(self.ctx, self.solver);
                Z3_model_inc_ref(self.ctx, m);
                let mut out = vec![];
                for &v in &vs {
                    let e = a.var(v);
                    let t = self.tr(a, e);
                    let mut o: P = std::ptr::null_mut();
                    let mut val = 0u64;
                    if Z3_model_eval(self.ctx, m, t, true, &mut o) { Z3_get_numeral_uint64(self.ctx, o, &mut val); }
                    out.push((v, val as u8));
                }
                Z3_model_dec_ref(self.ctx, m);
                // validate the model with our own evaluator: encoding bug guard
                a.begin_eval();
                let f = |i: u32| match out.binary_search_by_key(&i, |x| x.0) { Ok(p) => out[p].1, Err(_) => 0 };
                for &e in sl {
                    if a.eval(e, &f) != 1 { panic!("z3 model does not satisfy {}", a.show(e, 6)); }
                }
                let rc = Rc::new(out);
                self.models.push(rc.clone());
                if self.models.len() > 64 { self.models.drain(0..32); }
                Res::Sat(rc)
            } else if r == -1 {
                self.stats.z3_unsat += 1;
                Res::Unsat
            } else {
                self.stats.unknown += 1;
                Res::Unknown
            }
        }
    }
    /// an exclusion found by looking at all values of one byte has to be unsatisfiable for z3, too
    fn confirm(&mut self, a: &mut Arena, sl: &[E]) {
        self.stats.z3_queries += 1;
        self.stats.confirmed += 1;
        unsafe {
            Z3_solver_reset(self.ctx, self.solver);
            for &e in sl { let t = self.tr(a, e); Z3_solver_assert(self.ctx, self.solver, t); }
            match Z3_solver_check(self.ctx, self.solver) {
                -1 => self.stats.z3_unsat += 1,
                1 => panic!("z3 finds a value where there is none: {:?}", sl.iter().map(|&e| a.show(e, 6)).collect::<Vec<_>>()),
                _ => self.stats.unknown += 1,
            }
        }
    }
    pub fn smt2(&self, a: &mut Arena, sl: &[E]) -> String {
        // textual SMT-LIB2 (for cross-checking with a second solver)
        let mut order = vec![];
        let mut seen: HashSet<E, BuildFx> = HashSet::with_hasher(BuildFx);
        fn post(a: &Arena, e: E, seen: &mut HashSet<E, BuildFx>, order: &mut Vec<E>) {
            if !seen.insert(e) { return; }
            match a.n(e) {
                N::None | N::Const(_) | N::Var(_) => {}
                N::Not(x) | N::Extract(_, x) | N::ZExt(x) | N::SExt(x) => post(a, x, seen, order),
                N::Bin(_, x, y) | N::Cmp(_, x, y) | N::Concat(x, y) => { post(a, x, seen, order); post(a, y, seen, order) }
                N::Ite(x, y, z) => { post(a, x, seen, order); post(a, y, seen, order); post(a, z, seen, order) }
            }
            order.push(e);
        }
        for &e in sl { post(a, e, &mut seen, &mut order); }
        let mut s = String::from("(set-logic QF_BV)\n");
        let nm = |e: E| format!("e{}", e);
        for &e in &order {
            let nd = a.nodes[e as usize];
            let sort = if nd.w == 1 { "Bool".to_string() } else { format!("(_ BitVec {})", nd.w) };
            let body = match nd.n {
                N::None => unreachable!(),
                N::Var(_) => { s += &format!("(declare-const e{} (_ BitVec 8))\n", e); continue; }
                N::Const(v) => if nd.w == 1 { if v == 1 { "true".into() } else { "false".into() } } else { format!("(_ bv{} {})", v, nd.w) },
                N::Not(x) => format!("(not {})", nm(x)),
                N::Bin(op, x, y) => {
                    let o = if nd.w == 1 { match op { B::And => "and", B::Or => "or", _ => "xor" } } else {
                        match op { B::Add => "bvadd", B::Sub => "bvsub", B::Mul => "bvmul", B::UDiv => "bvudiv", B::SDiv => "bvsdiv", B::URem => "bvurem",
                            B::SRem => "bvsrem", B::And => "bvand", B::Or => "bvor", B::Xor => "bvxor", B::Shl => "bvshl", B::LShr => "bvlshr", B::AShr => "bvashr" }
                    };
                    format!("({} {} {})", o, nm(x), nm(y))
                }
                N::Cmp(op, x, y) => {
                    let o = match op { C::Eq => "=", C::Ult => "bvult", C::Ule => "bvule", C::Slt => "bvslt", C::Sle => "bvsle" };
                    format!("({} {} {})", o, nm(x), nm(y))
                }
                N::Extract(lo, x) => {
                    let r = format!("((_ extract {} {}) {})", lo + nd.w - 1, lo, nm(x));
                    if nd.w == 1 { format!("(= {} #b1)", r) } else { r }
                }
                N::Concat(x, y) => format!("(concat {} {})", nm(x), nm(y)),
                N::ZExt(x) | N::SExt(x) => {
                    let z = matches!(nd.n, N::ZExt(_));
                    if a.w(x) == 1 { format!("(ite {} (_ bv{} {}) (_ bv0 {}))", nm(x), if z { 1 } else { mask(nd.w) }, nd.w, nd.w) }
                    else { format!("((_ {} {}) {})", if z { "zero_extend" } else { "sign_extend" }, nd.w - a.w(x), nm(x)) }
                }
                N::Ite(x, y, z) => format!("(ite {} {} {})", nm(x), nm(y), nm(z)),
            };
            s += &format!("(define-fun e{} () {} {})\n", e, sort, body);
        }
        for &e in sl { s += &format!("(assert {})\n", nm(e)); }
        s += "(check-sat)\n";
        s
    }
}
