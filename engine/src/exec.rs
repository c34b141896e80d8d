//! Concolic interpreter: every value carries its concrete value under the current model plus
//! (optionally) a symbolic expression over the input bytes.
use crate::expr::*;
use crate::solver::*;
use crate::wasm::*;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::sync::Arc;

#[derive(Clone, Debug)]
pub enum Kind {
    Branch,
    Assume,
    Conc { e: E, v: u64, excl: Vec<u64> },
}
#[derive(Clone, Debug)]
pub struct Item {
    pub kind: Kind,
    pub expr: E, // true under the current model
    pub site: u64,
    pub taken: bool,
}
#[derive(Clone, Debug, PartialEq)]
pub enum End {
    Ok,
    Assume,
    Trap(String, String), // kind, detail
    Check(String),
    Engine(String),
}
#[derive(Clone, Debug)]
pub struct Viol {
    pub label: String,
    pub kind: String,
    pub input: Vec<u8>,
    pub trace: Vec<String>,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Hook {
    None,
    Memcpy, Memset, Memcmp, Bcmp, Memchr, Memrchr, Strlen,
    Panic, AllocErr,
    Alloc, Dealloc, Realloc, AllocZeroed,
    Zero64, Nop, Malloc, Calloc, Free,
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Prim {
    SymBytes, SymRange, SymU64, Assume, Check, Cover, Ite, Finish, Log, Conc, AllowPanic, IsEngine, Param,
    Note, FdWrite, RandomGet, ClockTime, SizesGet, Errno, ProcExit, SchedYield,
    Unresolved,
}

pub struct Image {
    pub m: Module,
    pub hooks: Vec<Hook>,      // per function index
    pub redirect: Vec<Result<u32, Prim>>, // per import
    pub import_sig: Vec<(u32, u32, bool)>, // params, results, result is 64 bit
    pub mem: Vec<u8>,
    pub heap_base: u32,
}

const PSZ: usize = 256;
type SPage = Option<Box<[E; PSZ]>>;
const MAXMEM: usize = 96 << 20;
const STACK: usize = 1 << 20;

impl Image {
    pub fn load(b: &[u8]) -> Image {
        let m = Module::parse(b);
        let n = m.func_types.len();
        let mut hooks = vec![Hook::None; n];
        for i in m.imports.len()..n {
            let raw = m.fname(i as u32).to_string();
            let d = demangle(&raw);
            let h = match raw.as_str() {
                "memcpy" | "memmove" => Hook::Memcpy,
                "memset" => Hook::Memset,
                "memcmp" => Hook::Memcmp,
                "bcmp" => Hook::Bcmp,
                "memchr" => Hook::Memchr,
                "memrchr" => Hook::Memrchr,
                "strlen" => Hook::Strlen,
                "malloc" => Hook::Malloc,
                "calloc" => Hook::Calloc,
                "free" => Hook::Free,
                "rust_begin_unwind" => Hook::Panic,
                "__rust_alloc" | "__rdl_alloc" => Hook::Alloc,
                "__rust_dealloc" | "__rdl_dealloc" => Hook::Dealloc,
                "__rust_realloc" | "__rdl_realloc" => Hook::Realloc,
                "__rust_alloc_zeroed" | "__rdl_alloc_zeroed" => Hook::AllocZeroed,
                _ => Hook::None,
            };
            let h = if h != Hook::None { h } else {
                match d.as_str() {
                    "core::panicking::panic_fmt" | "core::panicking::panic_nounwind_fmt" => Hook::Panic,
                    "alloc::alloc::handle_alloc_error" => Hook::AllocErr,
                    "std::io::stdio::_print" | "std::io::stdio::_eprint" => Hook::Nop,
                    "core::hash::BuildHasher::hash_one" => Hook::Zero64,
                    "core::slice::memchr::memchr_aligned" => Hook::None,
                    _ => Hook::None,
                }
            };
            hooks[i] = h;
        }
        let mut redirect = vec![];
        let mut import_sig = vec![];
        for im in &m.imports {
            let t = &m.types[im.ty as usize];
            import_sig.push((t.params.len() as u32, t.results.len() as u32, t.results.first() == Some(&0x7e)));
            if let Some(&(0, f)) = m.exports.get(&format!("{}::{}", im.module, im.field)) { redirect.push(Ok(f)); continue; }
            let p = match (im.module.as_str(), im.field.as_str()) {
                ("wsym", "sym_bytes") => Prim::SymBytes,
                ("wsym", "sym_range") => Prim::SymRange,
                ("wsym", "sym_u64") => Prim::SymU64,
                ("wsym", "assume") => Prim::Assume,
                ("wsym", "check") => Prim::Check,
                ("wsym", "cover") => Prim::Cover,
                ("wsym", "ite") => Prim::Ite,
                ("wsym", "finish") => Prim::Finish,
                ("wsym", "log") => Prim::Log,
                ("wsym", "note") => Prim::Note,
                ("wsym", "conc") => Prim::Conc,
                ("wsym", "allow_panic") => Prim::AllowPanic,
                ("wsym", "is_engine") => Prim::IsEngine,
                ("wsym", "param") => Prim::Param,
                (_, "fd_write") => Prim::FdWrite,
                (_, "random_get") => Prim::RandomGet,
                (_, "clock_time_get") => Prim::ClockTime,
                (_, "environ_sizes_get" | "args_sizes_get") => Prim::SizesGet,
                (_, "environ_get" | "args_get") => Prim::Errno,
                (_, "proc_exit") => Prim::ProcExit,
                (_, "sched_yield") => Prim::SchedYield,
                _ => Prim::Unresolved,
            };
            redirect.push(Err(p));
        }
        let mut mem = vec![0u8; (m.mem_min as usize) << 16];
        for (o, d) in &m.data { mem[*o as usize..*o as usize + d.len()].copy_from_slice(d); }
        let heap_base = mem.len() as u32; // engine-native bump heap starts above the module's own memory
        Image { m, hooks, redirect, import_sig, mem, heap_base }
    }
}

#[derive(Clone, Copy)]
struct Frame {
    f: u32,
    pc: u32,
    fp: u32,
}

pub struct Task {
    pub model: Vec<u8>,
    pub bound: usize,
    pub check_from: usize,
    pub excl: Vec<u64>,
    pub prefix_hash: u64,
    /// the branch and the direction this task takes for the first time along its path
    pub turn: u64,
}

pub const LATE: &str = "out of time";
pub struct Limits {
    pub fuel: u64,
    /// when to give up, also in the middle of a path
    pub deadline: std::time::Instant,
    pub alloc: u64,
    pub selfcheck: bool,
    pub params: Vec<u32>,
    /// label prefixes of the checks to decide (empty: all)
    pub tags: Vec<String>,
}

pub struct PathOut {
    pub end: End,
    pub children: Vec<Task>,
    pub viols: Vec<Viol>,
    pub log: u64,
    pub steps: u64,
    pub items: usize,
    pub unknown: u64,
}

pub struct Mach {
    pub img: Arc<Image>,
    pub lim: Limits,
    mem: Vec<u8>,
    mem_len: usize,
    dirty: Vec<u32>,      // dirty 4K pages
    dirty_map: Vec<bool>,
    shadow: Vec<SPage>,
    shadow_used: Vec<u32>,
    free_pages: Vec<Box<[E; PSZ]>>,
    vals: Vec<u64>,
    syms: Vec<E>,
    sp: usize,
    frames: Vec<Frame>,
    globals: Vec<(u64, E)>,
    heap: u64,
    pub ar: Arena,
    pub sol: Solver,
    // path state
    pub input: Vec<u8>,
    nvars: usize,
    pub items: Vec<Item>,
    known: HashSet<E, BuildFx>,
    task_bound: usize,
    task_check: usize,
    task_excl: Vec<u64>,
    viols: Vec<Viol>,
    log: u64,
    allow_panic: bool,
    unknown: u64,
    pub entered: Vec<bool>,
    pub covers: BTreeMap<String, u64>,
    pub checks: BTreeMap<String, (u64, u64)>, // label -> (evaluations, solver decided)
    pub notes: HashMap<String, u64>,
    pub selfchecked: u64,
    sc_mark: u64,
    cur_site: u64,
    // engine counters
    pub conc_points: u64,
    pub steps_total: u64,
    pub fork_sites: HashMap<u64, u64>,
    pub trace_labels: bool,
}

enum Stop {
    End(End),
}
type X<T> = Result<T, Stop>;
fn trap<T>(k: &str, d: &str) -> X<T> { Err(Stop::End(End::Trap(k.into(), d.into()))) }
fn engine<T>(d: String) -> X<T> { Err(Stop::End(End::Engine(d))) }

impl Mach {
    pub fn new(img: Arc<Image>, lim: Limits, timeout_ms: u32) -> Mach {
        let mut mem = vec![0u8; MAXMEM];
        mem[..img.mem.len()].copy_from_slice(&img.mem);
        let n = img.m.func_types.len();
        Mach {
            mem_len: img.mem.len(), mem, dirty: vec![], dirty_map: vec![false; MAXMEM >> 12],
            shadow: (0..MAXMEM / PSZ).map(|_| None).collect(), shadow_used: vec![], free_pages: vec![],
            vals: vec![0; STACK], syms: vec![0; STACK], sp: 0, frames: vec![], globals: vec![], heap: 0,
            ar: Arena::new(), sol: Solver::new(timeout_ms), input: vec![], nvars: 0, items: vec![], known: Default::default(),
            task_bound: 0, task_check: 0, task_excl: vec![], viols: vec![], log: 0, allow_panic: false, unknown: 0,
            entered: vec![false; n], covers: BTreeMap::new(), checks: BTreeMap::new(), notes: HashMap::new(), selfchecked: 0, sc_mark: 0,
            cur_site: 0, conc_points: 0, steps_total: 0, fork_sites: HashMap::new(), img, lim, trace_labels: false,
        }
    }
    fn reset(&mut self) {
        for &p in &self.dirty {
            let a = (p as usize) << 12;
            let b = a + 4096;
            let n = self.img.mem.len();
            if a < n {
                let e = b.min(n);
                self.mem[a..e].copy_from_slice(&self.img.mem[a..e]);
                for x in &mut self.mem[e..b] { *x = 0; }
            } else { for x in &mut self.mem[a..b] { *x = 0; } }
            self.dirty_map[p as usize] = false;
        }
        self.dirty.clear();
        for &p in &self.shadow_used {
            if let Some(b) = self.shadow[p as usize].take() { self.free_pages.push(b); }
        }
        self.shadow_used.clear();
        self.sp = 0;
        self.frames.clear();
        self.globals = self.img.m.globals.iter().map(|&v| (v, 0)).collect();
        self.mem_len = self.img.mem.len();
        self.heap = self.img.heap_base as u64;
        self.nvars = 0;
        self.items.clear();
        self.known.clear();
        self.viols.clear();
        self.log = 0xcbf29ce484222325;
        self.allow_panic = false;
        self.unknown = 0;
        if self.ar.nodes.len() > 3_000_000 {
            self.ar = Arena::new();
            self.sol.reset();
        }
        self.ar.begin_eval();
    }

    // ---------- memory ----------
    #[inline]
    fn touch(&mut self, a: usize, n: usize) {
        let p = a >> 12;
        if !self.dirty_map[p] { self.dirty_map[p] = true; self.dirty.push(p as u32); }
        let q = (a + n - 1) >> 12;
        if q != p && !self.dirty_map[q] { self.dirty_map[q] = true; self.dirty.push(q as u32); }
    }
    #[inline]
    fn sget(&self, a: usize) -> E {
        match &self.shadow[a / PSZ] { Some(p) => p[a % PSZ], None => 0 }
    }
    #[inline]
    fn sset(&mut self, a: usize, e: E) {
        let p = a / PSZ;
        if self.shadow[p].is_none() {
            if e == 0 { return; }
            let b = match self.free_pages.pop() { Some(mut b) => { b.fill(0); b } None => Box::new([0; PSZ]) };
            self.shadow[p] = Some(b);
            self.shadow_used.push(p as u32);
        }
        self.shadow[p].as_mut().unwrap()[a % PSZ] = e;
    }
    #[inline]
    fn any_sym(&self, a: usize, n: usize) -> bool {
        let p = a / PSZ;
        let q = (a + n - 1) / PSZ;
        if self.shadow[p].is_none() && (p == q || self.shadow[q].is_none()) && q - p <= 1 { return false; }
        (a..a + n).any(|i| self.sget(i) != 0)
    }
    fn raw_load(&self, a: usize, n: usize) -> u64 {
        let mut b = [0u8; 8];
        b[..n].copy_from_slice(&self.mem[a..a + n]);
        u64::from_le_bytes(b)
    }
    /// symbolic little-endian value of n bytes (0 when concrete); width 8*n
    fn sym_load(&mut self, a: usize, n: usize) -> E {
        if !self.any_sym(a, n) { return 0; }
        let mut e = self.byte_expr(a);
        for i in 1..n {
            let h = self.byte_expr(a + i);
            e = self.ar.concat(h, e);
        }
        if self.ar.cv(e).is_some() { 0 } else { e }
    }
    fn byte_expr(&mut self, a: usize) -> E {
        let e = self.sget(a);
        if e != 0 { e } else { let v = self.mem[a] as u64; self.ar.c(v, 8) }
    }
    fn store(&mut self, a: usize, n: usize, v: u64, e: E) {
        self.touch(a, n);
        self.mem[a..a + n].copy_from_slice(&v.to_le_bytes()[..n]);
        if e == 0 {
            let p = a / PSZ;
            let q = (a + n - 1) / PSZ;
            if self.shadow[p].is_none() && self.shadow[q].is_none() { return; }
            for i in 0..n { self.sset(a + i, 0); }
        } else {
            for i in 0..n {
                let b = self.ar.extract((8 * i) as u8, 8, e);
                let b = if self.ar.cv(b).is_some() { 0 } else { b };
                self.sset(a + i, b);
            }
        }
    }

    // ---------- path constraints ----------
    fn site(&self) -> u64 {
        let f = self.frames.last().unwrap();
        ((f.f as u64) << 32) | f.pc as u64
    }
    fn push_item(&mut self, kind: Kind, expr: E) {
        let site = self.site();
        self.known.insert(expr);
        self.items.push(Item { kind, expr, site, taken: false });
    }
    /// record that `c` (whose concrete value is `v`) was branched on
    fn branch(&mut self, c: E, v: bool) {
        let e = if v { c } else { self.ar.not(c) };
        if e == TRUE || self.known.contains(&e) { return; }
        self.push_item(Kind::Branch, e);
        if let Some(i) = self.items.last_mut() { i.taken = v; }
    }
    fn tobool(&mut self, e: E) -> E {
        let w = self.ar.w(e);
        if w == 1 { return e; }
        let z = self.ar.c(0, w);
        let q = self.ar.cmp(C::Eq, e, z);
        self.ar.not(q)
    }
    /// pin e to its current concrete value v, forking over the alternatives
    fn concretize(&mut self, e: E, v: u64) {
        if e == 0 || self.ar.cv(e).is_some() { return; }
        let w = self.ar.w(e);
        let k = self.ar.c(v, w);
        let q = self.ar.cmp(C::Eq, e, k);
        if q == TRUE || self.known.contains(&q) { return; }
        self.conc_points += 1;
        let excl = if self.items.len() == self.task_bound { std::mem::take(&mut self.task_excl) } else { vec![] };
        self.push_item(Kind::Conc { e, v, excl }, q);
    }
    fn fresh(&mut self) -> (u8, E) {
        let i = self.nvars;
        self.nvars += 1;
        if self.input.len() <= i { self.input.push(0); }
        let e = self.ar.var(i as u32);
        (self.input[i], e)
    }

    fn backtrace(&self) -> Vec<String> {
        self.frames.iter().rev().map(|f| demangle(self.img.m.fname(f.f))).collect()
    }
    fn violation(&mut self, label: &str, kind: &str, input: Vec<u8>) {
        let trace = self.backtrace();
        self.viols.push(Viol { label: label.into(), kind: kind.into(), input, trace });
    }
    fn with_model(&self, m: &[(u32, u8)]) -> Vec<u8> {
        let mut v = self.input.clone();
        for &(i, b) in m {
            if v.len() <= i as usize { v.resize(i as usize + 1, 0); }
            v[i as usize] = b;
        }
        v
    }
    fn late(&self) -> bool { std::time::Instant::now() > self.lim.deadline }
    fn pc_exprs(&self, n: usize) -> Vec<E> { self.items[..n].iter().map(|i| i.expr).collect() }

    fn check(&mut self, e: E, v: bool, label: &str) -> X<()> {
        if !self.lim.tags.is_empty() && !self.lim.tags.iter().any(|t| label.starts_with(t.as_str())) { return Ok(()); }
        let skip = self.items.len() < self.task_check;
        if !skip {
            let c = self.checks.entry(label.to_string()).or_default();
            c.0 += 1;
            if e != 0 { c.1 += 1; }
        }
        if !v {
            // concretely false under the current model
            if !skip { let inp = self.input.clone(); self.violation(label, "check", inp); }
            if e == 0 { return Err(Stop::End(End::Check(label.into()))); }
            return Ok(());
        }
        if e == 0 || skip { return Ok(()); }
        let ne = self.ar.not(e);
        if self.late() { return engine(LATE.into()); }
        let pc = self.pc_exprs(self.items.len());
        match self.sol.check(&mut self.ar, &pc, ne, true) {
            Res::Sat(m) => { let inp = self.with_model(&m); self.violation(label, "check", inp); }
            Res::Unsat => {}
            Res::Unknown => { self.unknown += 1; }
        }
        Ok(())
    }

    // ---------- running ----------
    pub fn prefix_hash(items: &[Item], n: usize) -> u64 {
        let mut h = 0xcbf29ce484222325u64;
        for i in &items[..n] { h = (h ^ i.site).wrapping_mul(0x100000001b3); }
        h
    }

    pub fn run(&mut self, entry: u32, t: Task) -> PathOut {
        self.reset();
        self.input = t.model;
        self.task_bound = t.bound;
        self.task_check = t.check_from;
        self.task_excl = t.excl;
        let mut steps = 0u64;
        let r = self.exec(entry, &mut steps);
        let end = match r { Ok(()) => End::Ok, Err(Stop::End(e)) => e };
        let mut end = end;
        self.steps_total += steps;
        if let End::Trap(k, d) = &end {
            let (k, d) = (k.clone(), d.clone());
            if k == "finish" { end = End::Ok; }
            else if self.allow_panic && k == "panic" { }
            else {
                let label = format!("{}: {}", k, d);
                let inp = self.input.clone();
                self.violation(&label, &k, inp);
            }
        }
        let n = self.nvars;
        self.input.truncate(n.max(0));
        // encoding sanity: every path condition must hold under the concrete model
        let inp = self.input.clone();
        let f = |i: u32| inp.get(i as usize).copied().unwrap_or(0);
        self.ar.begin_eval();
        for i in 0..self.items.len() {
            let e = self.items[i].expr;
            if self.ar.eval(e, &f) != 1 {
                end = End::Engine(format!("path condition {} is false under its own model: {} at {}", i, self.ar.show(e, 6),
                    demangle(self.img.m.fname((self.items[i].site >> 32) as u32))));
                return self.out(end, vec![], steps);
            }
        }
        if self.items.len() < t.bound || Self::prefix_hash(&self.items, t.bound) != t.prefix_hash {
            end = End::Engine(format!("divergence: expected prefix of {} items, got {} ({:?})", t.bound, self.items.len(), end));
            return self.out(end, vec![], steps);
        }
        // children
        let mut ch = vec![];
        let pc: Vec<E> = self.items.iter().map(|i| i.expr).collect();
        for i in t.bound..self.items.len() {
            if self.late() { end = End::Engine(LATE.into()); break; }
            let it = self.items[i].clone();
            match it.kind {
                Kind::Assume => {}
                Kind::Branch => {
                    let ne = self.ar.not(it.expr);
                    match self.sol.check(&mut self.ar, &pc[..i], ne, false) {
                        Res::Sat(m) => {
                            *self.fork_sites.entry(it.site).or_default() += 1;
                            ch.push(Task { model: self.with_model(&m), bound: i + 1, check_from: i + 1, excl: vec![], prefix_hash: Self::prefix_hash(&self.items, i + 1), turn: it.site << 2 | it.taken as u64 });
                        }
                        Res::Unsat => {}
                        Res::Unknown => self.unknown += 1,
                    }
                }
                Kind::Conc { e, v, mut excl } => {
                    excl.push(v);
                    let w = self.ar.w(e);
                    let mut q = TRUE;
                    for &x in &excl {
                        let k = self.ar.c(x, w);
                        let c = self.ar.cmp(C::Eq, e, k);
                        let c = self.ar.not(c);
                        q = self.ar.and1(q, c);
                    }
                    match self.sol.check(&mut self.ar, &pc[..i], q, false) {
                        Res::Sat(m) => {
                            *self.fork_sites.entry(it.site).or_default() += 1;
                            ch.push(Task { model: self.with_model(&m), bound: i, check_from: i + 1, turn: it.site << 2 | 2 | (excl.len() > 1) as u64, excl, prefix_hash: Self::prefix_hash(&self.items, i) });
                        }
                        Res::Unsat => {}
                        Res::Unknown => self.unknown += 1,
                    }
                }
            }
        }
        self.out(end, ch, steps)
    }
    fn out(&mut self, end: End, children: Vec<Task>, steps: u64) -> PathOut {
        PathOut { end, children, viols: std::mem::take(&mut self.viols), log: self.log, steps, items: self.items.len(), unknown: self.unknown }
    }

    #[inline]
    fn push(&mut self, v: u64, e: E) {
        let e = if e != 0 && self.ar.cv(e).is_some() { 0 } else { e };
        if self.lim.selfcheck && e != 0 { self.selfcheck(v, e); }
        self.vals[self.sp] = v;
        self.syms[self.sp] = e;
        self.sp += 1;
    }
    fn selfcheck(&mut self, v: u64, e: E) {
        let q = self.sol.stats.z3_queries + self.sol.stats.model_hits + self.sol.stats.byte_dom;
        if q != self.sc_mark { self.sc_mark = q; self.ar.begin_eval(); }
        let inp = std::mem::take(&mut self.input);
        let r = { let f = |i: u32| inp.get(i as usize).copied().unwrap_or(0); self.ar.eval(e, &f) };
        self.input = inp;
        self.selfchecked += 1;
        if r != v { panic!("selfcheck: expr {} = {:#x} but concrete {:#x} in {}", self.ar.show(e, 6), r, v, self.backtrace().join(" < ")); }
    }
    #[inline]
    fn pop(&mut self) -> (u64, E) { self.sp -= 1; (self.vals[self.sp], self.syms[self.sp]) }
    /// pop a value that must be concrete (concretised by forking otherwise)
    fn popc(&mut self) -> u64 {
        let (v, e) = self.pop();
        if e != 0 { self.concretize(e, v); }
        v
    }
    fn addr(&self, a: u64, off: u32, n: usize) -> X<usize> {
        let x = a as usize + off as usize;
        if x + n > self.mem_len { return trap("oob", "out-of-bounds memory access"); }
        Ok(x)
    }

    fn do_load(&mut self, n: usize, sg: bool, w: u8, off: u32) -> X<()> {
        let (a, ae) = self.pop();
        let x = self.addr(a, off, n)?;
        let cv = self.raw_load(x, n);
        let cv2 = if sg { sext(cv, (8 * n) as u8) as u64 & mask(w) } else { cv };
        if ae == 0 {
            let e = if self.any_sym(x, n) { self.sym_load(x, n) } else { 0 };
            let e = self.widen(e, sg, w);
            self.push(cv2, e);
            return Ok(());
        }
        // symbolic address
        if let Some(e) = self.table_load(ae, off, n)? {
            let e = self.widen(e, sg, w);
            self.push(cv2, e);
            return Ok(());
        }
        self.concretize(ae, a);
        let e = self.sym_load(x, n);
        let e = self.widen(e, sg, w);
        self.push(cv2, e);
        Ok(())
    }
    fn widen(&mut self, e: E, sg: bool, w: u8) -> E {
        if e == 0 { return 0; }
        if sg { self.ar.sext(e, w) } else { self.ar.zext(e, w) }
    }
    /// leaves of a nested Ite of constants
    fn ite_leaves(&self, e: E, out: &mut Vec<E>) -> bool {
        match self.ar.n(e) {
            N::Ite(_, a, b) => out.len() < 32 && self.ite_leaves(a, out) && self.ite_leaves(b, out),
            N::Const(_) => { if !out.contains(&e) { out.push(e); } true }
            _ => false,
        }
    }
    fn table_load(&mut self, ae: E, off: u32, n: usize) -> X<Option<E>> {
        let mut lv = vec![];
        let aw = self.ar.w(ae);
        if self.ite_leaves(ae, &mut lv) && lv.len() <= 32 {
            let mut r = 0;
            for &l in &lv {
                let k = self.ar.cv(l).unwrap();
                let x = self.addr(k, off, n)?;
                let e = self.full_load(x, n);
                r = if r == 0 { e } else { let c = self.ar.cmp(C::Eq, ae, l); self.ar.ite(c, e, r) };
            }
            return Ok(Some(r));
        }
        // an address that depends on one input byte only: a table over the values of that byte
        let vs = self.sol.vars(&self.ar, ae);
        if vs.len() == 1 {
            let v = vs[0];
            let pc = self.pc_exprs(self.items.len());
            let dom = self.sol.byte_values(&mut self.ar, &pc, v);
            let mut runs: Vec<(u64, E)> = vec![];
            let mut ok = true;
            for b in 0..256u64 {
                if dom[b as usize / 64] >> (b % 64) & 1 == 0 { continue; }
                self.ar.begin_eval();
                let k = self.ar.eval(ae, &|i| if i == v { b as u8 } else { 0 });
                let x = k as usize + off as usize;
                if x + n > self.mem_len { ok = false; break; }
                let e = self.full_load(x, n);
                if runs.last().map(|r| r.1) != Some(e) { runs.push((b, e)); }
            }
            if ok && !runs.is_empty() {
                let ve = self.ar.var(v);
                return Ok(Some(self.tree(ve, 8, &runs)));
            }
            return Ok(None);
        }
        let nd = self.ar.nodes[ae as usize];
        let (mut lo, mut hi) = (nd.umin, nd.umax);
        if hi.wrapping_sub(lo) > 1024 * 8 || hi < lo {
            // base + bounded index written as an addition that the range analysis could not bound
            return Ok(None);
        }
        // tighten the bounds with the solver so that entries outside the feasible range are not read
        if hi - lo > 512 {
        let pc = self.pc_exprs(self.items.len());
        for _ in 0..2 {
            let l = self.ar.c(lo, aw);
            let c = self.ar.cmp(C::Eq, ae, l);
            if hi > lo { if let Res::Unsat = self.sol.check(&mut self.ar, &pc, c, false) { lo += 1; } }
        }
        let mid = lo + (hi - lo) / 2;
        let m = self.ar.c(mid, aw);
        let c = self.ar.cmp(C::Ult, m, ae);
        if hi > lo { if let Res::Unsat = self.sol.check(&mut self.ar, &pc, c, false) { hi = mid; } }
        }
        let span = hi - lo;
        if hi as usize + off as usize + n > self.mem_len { return Ok(None); }
        // build a balanced decision structure over runs of identical / affine concrete bytes
        let base = lo as usize + off as usize;
        let stride = self.stride(ae);
        if span / stride > 600 { return Ok(None); }
        let mut ents: Vec<(u64, E)> = vec![];
        let mut k = 0;
        // align to the stride given the known low bits of lo
        while k <= span {
            let e = self.full_load(base + k as usize, n);
            ents.push((lo + k, e));
            k += stride;
        }
        // affine?  value[i] = value[0] + i
        if ents.len() > 2 {
            if let Some(v0) = self.ar.cv(ents[0].1) {
                let ok = ents.iter().enumerate().all(|(i, x)| self.ar.cv(x.1) == Some((v0.wrapping_add(i as u64)) & mask((8 * n) as u8)));
                if ok && stride == 1 && n == 1 {
                    let l = self.ar.c(lo, aw);
                    let d = self.ar.bin(B::Sub, ae, l);
                    let d8 = self.ar.extract(0, 8, d);
                    let v = self.ar.c(v0, 8);
                    return Ok(Some(self.ar.bin(B::Add, d8, v)));
                }
            }
        }
        let mut runs: Vec<(u64, E)> = vec![];
        for (a, e) in ents { if runs.last().map(|r| r.1) != Some(e) { runs.push((a, e)); } }
        if runs.len() > 300 { return Ok(None); }
        Ok(Some(self.tree(ae, aw, &runs)))
    }
    fn tree(&mut self, ae: E, aw: u8, runs: &[(u64, E)]) -> E {
        if runs.len() == 1 { return runs[0].1; }
        let m = runs.len() / 2;
        let l = self.tree(ae, aw, &runs[..m]);
        let r = self.tree(ae, aw, &runs[m..]);
        let k = self.ar.c(runs[m].0, aw);
        let c = self.ar.cmp(C::Ult, ae, k);
        self.ar.ite(c, l, r)
    }
    /// largest power of two known to divide (ae - umin)
    fn stride(&self, ae: E) -> u64 {
        // base + (x << k): look for an addition with constant whose other side has trailing zero bits
        let tz = |e: E| { let o = self.ar.nodes[e as usize].ones; if o == 0 { 64 } else { o.trailing_zeros() } };
        match self.ar.n(ae) {
            N::Bin(B::Add, x, y) if self.ar.cv(y).is_some() && self.ar.nodes[x as usize].umin == 0 => 1u64 << tz(x).min(6),
            N::Bin(B::Add, x, y) if self.ar.cv(x).is_some() && self.ar.nodes[y as usize].umin == 0 => 1u64 << tz(y).min(6),
            _ => 1,
        }
    }
    fn full_load(&mut self, x: usize, n: usize) -> E {
        let mut e = self.byte_expr(x);
        for i in 1..n { let h = self.byte_expr(x + i); e = self.ar.concat(h, e); }
        e
    }

    fn alloc(&mut self, size: u64, align: u64) -> X<u64> {
        let a = (self.heap + align - 1) & !(align - 1);
        let end = a + size;
        if end as usize > MAXMEM { return trap("alloc", "memory exhausted"); }
        self.heap = (end + 15) & !15;
        let pages = (end as usize + 65535) >> 16 << 16;
        if pages > self.mem_len { self.mem_len = pages.min(MAXMEM); }
        Ok(a)
    }
    /// size of an allocation request: symbolic sizes are rounded up to their maximum
    fn alloc_size(&mut self, v: u64, e: E) -> X<u64> {
        if e == 0 {
            if v > self.lim.alloc { return trap("alloc", "allocation larger than the modelled limit"); }
            return Ok(v);
        }
        let k = self.ar.c(self.lim.alloc, 32);
        let c = self.ar.cmp(C::Ult, k, e);
        if c != FALSE { self.branch(c, v > self.lim.alloc); }
        if v > self.lim.alloc { return trap("alloc", "allocation larger than the modelled limit"); }
        let mx = self.ar.nodes[e as usize].umax.min(self.lim.alloc);
        if mx <= 1024 { return Ok(mx); }
        // least power of two bounding the size on this path
        let pc = self.pc_exprs(self.items.len());
        let mut b = 256u64;
        while b < mx {
            let k = self.ar.c(b, 32);
            let c = self.ar.cmp(C::Ult, k, e);
            if let Res::Unsat = self.sol.check(&mut self.ar, &pc, c, false) { return Ok(b); }
            b *= 4;
        }
        Ok(mx)
    }
    fn hook(&mut self, h: Hook, f: u32) -> X<()> {
        match h {
            Hook::Panic => {
                let bt = self.backtrace();
                let at = bt.iter().find(|s| s.contains("puck") && !s.contains("core::panicking")).cloned().unwrap_or_else(|| bt.first().cloned().unwrap_or_default());
                trap("panic", &at)
            }
            Hook::AllocErr => trap("alloc", "handle_alloc_error"),
            Hook::Nop => { let t = &self.img.m.types[self.img.m.func_types[f as usize] as usize]; self.sp -= t.params.len(); let r = t.results.len(); for _ in 0..r { self.push(0, 0); } Ok(()) }
            Hook::Zero64 => {
                let t = &self.img.m.types[self.img.m.func_types[f as usize] as usize];
                self.sp -= t.params.len();
                self.push(0, 0);
                Ok(())
            }
            Hook::Alloc | Hook::AllocZeroed => {
                let al = self.popc();
                let (v, e) = self.pop();
                let s = self.alloc_size(v, e)?;
                let p = self.alloc(s, al.max(1))?;
                self.push(p, 0);
                Ok(())
            }
            Hook::Malloc => { let (v, e) = self.pop(); let s = self.alloc_size(v, e)?; let p = self.alloc(s, 16)?; self.push(p, 0); Ok(()) }
            Hook::Calloc => { let a = self.popc(); let b = self.popc(); let p = self.alloc(a * b, 16)?; self.push(p, 0); Ok(()) }
            Hook::Free => { self.sp -= 1; Ok(()) }
            Hook::Dealloc => { self.sp -= 3; Ok(()) }
            Hook::Realloc => {
                let (nv, ne) = self.pop();
                let al = self.popc();
                let (ov, oe) = self.pop();
                let p = self.popc();
                let s = self.alloc_size(nv, ne)?;
                let os = if oe == 0 { ov } else { self.ar.nodes[oe as usize].umax.min(self.lim.alloc) };
                let q = self.alloc(s, al.max(1))?;
                let cnt = os.min(s) as usize;
                if cnt > 0 { self.copy(q as usize, p as usize, cnt)?; }
                self.push(q, 0);
                Ok(())
            }
            Hook::Memcpy => {
                let n = self.popc() as usize;
                let s = self.pop();
                let d = self.popc() as usize;
                if n > 0 { self.copy_from(d, s, n)?; }
                self.push(d as u64, 0);
                Ok(())
            }
            Hook::Memset => {
                let n = self.pop();
                let (v, e) = self.pop();
                let d = self.popc() as usize;
                self.fill_sym(d, v, e, n)?;
                self.push(d as u64, 0);
                Ok(())
            }
            Hook::Memcmp | Hook::Bcmp => {
                let n = self.popc() as usize;
                let b = self.popc() as usize;
                let a = self.popc() as usize;
                if n == 0 { self.push(0, 0); return Ok(()); }
                if a.max(b) + n > self.mem_len { return trap("oob", "memcmp"); }
                let mut r: i32 = 0;
                for i in 0..n {
                    let (x, y) = (self.mem[a + i] as i32, self.mem[b + i] as i32);
                    if x != y { r = x - y; break; }
                }
                let mut e = 0;
                if (0..n).any(|i| self.sget(a + i) != 0 || self.sget(b + i) != 0) {
                    e = self.ar.c(0, 32);
                    for i in (0..n).rev() {
                        let x = self.byte_expr(a + i);
                        let y = self.byte_expr(b + i);
                        let c = self.ar.cmp(C::Eq, x, y);
                        if c == TRUE { continue; }
                        let x = self.ar.zext(x, 32);
                        let y = self.ar.zext(y, 32);
                        let d = self.ar.bin(B::Sub, x, y);
                        e = self.ar.ite(c, e, d);
                    }
                }
                self.push(r as u32 as u64, e);
                Ok(())
            }
            Hook::Memchr | Hook::Memrchr => {
                let n = self.popc() as usize;
                let (cv, ce) = self.pop();
                let a = self.popc() as usize;
                if n > 0 && a + n > self.mem_len { return trap("oob", "memchr"); }
                for j in 0..n {
                    let i = if h == Hook::Memchr { j } else { n - 1 - j };
                    let eqv = self.mem[a + i] == cv as u8;
                    if self.sget(a + i) != 0 || ce != 0 {
                        let x = self.byte_expr(a + i);
                        let y = if ce != 0 { self.ar.extract(0, 8, ce) } else { self.ar.c(cv, 8) };
                        let c = self.ar.cmp(C::Eq, x, y);
                        self.branch(c, eqv);
                    }
                    if eqv { self.push((a + i) as u64, 0); return Ok(()); }
                }
                self.push(0, 0);
                Ok(())
            }
            Hook::Strlen => {
                let a = self.popc() as usize;
                let mut i = a;
                while self.mem[i] != 0 { i += 1; }
                self.push((i - a) as u64, 0);
                Ok(())
            }
            Hook::None => unreachable!(),
        }
    }
    /// copy from a possibly symbolic address
    fn copy_from(&mut self, d: usize, s: (u64, E), n: usize) -> X<()> {
        let (sv, se) = s;
        if se == 0 { return self.copy(d, sv as usize, n); }
        if n <= 64 && d + n <= self.mem_len && sv as usize + n <= self.mem_len {
            let mut v = vec![];
            for i in 0..n {
                match self.table_load(se, i as u32, 1)? { Some(e) => v.push(e), None => break }
            }
            if v.len() == n {
                self.copy(d, sv as usize, n)?;
                for i in 0..n { let e = if self.ar.cv(v[i]).is_some() { 0 } else { v[i] }; self.sset(d + i, e); }
                return Ok(());
            }
        }
        self.concretize(se, sv);
        self.copy(d, sv as usize, n)
    }
    fn copy(&mut self, d: usize, s: usize, n: usize) -> X<()> {
        if d + n > self.mem_len || s + n > self.mem_len { return trap("oob", "memcpy"); }
        let mut p = d;
        while p < d + n { self.touch(p, 1); p = (p | 4095) + 1; }
        self.mem.copy_within(s..s + n, d);
        // shadows
        let sym = (s / PSZ..=(s + n - 1) / PSZ).any(|p| self.shadow[p].is_some());
        let dsym = (d / PSZ..=(d + n - 1) / PSZ).any(|p| self.shadow[p].is_some());
        if sym || dsym {
            let v: Vec<E> = (0..n).map(|i| self.sget(s + i)).collect();
            for i in 0..n { self.sset(d + i, v[i]); }
        }
        Ok(())
    }
    fn fill(&mut self, d: usize, v: u64, e: E, n: usize) -> X<()> {
        if n == 0 { return Ok(()); }
        if d + n > self.mem_len { return trap("oob", "memset"); }
        let mut p = d;
        while p < d + n { self.touch(p, 1); p = (p | 4095) + 1; }
        self.mem[d..d + n].fill(v as u8);
        let e8 = if e != 0 { let x = self.ar.extract(0, 8, e); if self.ar.cv(x).is_some() { 0 } else { x } } else { 0 };
        for i in 0..n { self.sset(d + i, e8); }
        Ok(())
    }
    /// memset with a possibly symbolic length: conditional stores up to the least proved bound
    fn fill_sym(&mut self, d: usize, v: u64, e: E, n: (u64, E)) -> X<()> {
        let (nv, ne) = n;
        if ne == 0 { return self.fill(d, v, e, nv as usize); }
        let nd = self.ar.nodes[ne as usize];
        let mut bound = None;
        if nd.umax <= 256 { bound = Some(nd.umax) } else {
            let pc = self.pc_exprs(self.items.len());
            let mut b = 256u64;
            while b <= 1 << 22 {
                let k = self.ar.c(b, 32);
                let c = self.ar.cmp(C::Ult, k, ne);
                if let Res::Unsat = self.sol.check(&mut self.ar, &pc, c, false) { bound = Some(b); break; }
                b *= 4;
            }
        }
        if let Some(b) = bound {
            if d + b as usize > self.mem_len {
                let room = (self.mem_len - d.min(self.mem_len)) as u64;
                let pc = self.pc_exprs(self.items.len());
                let k = self.ar.c(room, 32);
                let c = self.ar.cmp(C::Ult, k, ne);
                bound = if let Res::Unsat = self.sol.check(&mut self.ar, &pc, c, false) { Some(room) } else { None };
            }
        }
        let ok = bound.is_some();
        if !ok || e != 0 {
            self.concretize(ne, nv);
            return self.fill(d, v, e, nv as usize);
        }
        let b = bound.unwrap() as usize;
        let v8 = (v as u8) as u64;
        for i in 0..b {
            let old = self.sget(d + i);
            if old == 0 && self.mem[d + i] as u64 == v8 { continue; }
            let i_ = self.ar.c(i as u64, 32);
            let c = self.ar.cmp(C::Ult, i_, ne);
            let k = self.ar.c(v8, 8);
            let o = self.byte_expr(d + i);
            let r = self.ar.ite(c, k, o);
            let cv = if (i as u64) < nv { v8 } else { self.mem[d + i] as u64 };
            let r = if self.ar.cv(r).is_some() { 0 } else { r };
            self.store(d + i, 1, cv, r);
        }
        Ok(())
    }
    fn cstr(&self, p: usize, n: usize) -> String { String::from_utf8_lossy(&self.mem[p..p + n]).into_owned() }

    fn prim(&mut self, p: Prim, imp: usize) -> X<()> {
        let (np, nres, _) = self.img.import_sig[imp];
        match p {
            Prim::SymBytes => {
                let n = self.popc() as usize;
                let d = self.popc() as usize;
                if d + n > self.mem_len { return trap("oob", "sym_bytes"); }
                for i in 0..n {
                    let (v, e) = self.fresh();
                    self.store(d + i, 1, v as u64, e);
                }
            }
            Prim::SymRange => {
                // u32 in [lo, hi]
                let hi = self.popc();
                let lo = self.popc();
                let nb = if hi < 256 { 1 } else if hi < 65536 { 2 } else { 4 };
                let i0 = self.nvars;
                let mut v = 0u64;
                let mut e = 0;
                for i in 0..nb {
                    let (b, x) = self.fresh();
                    v |= (b as u64) << (8 * i);
                    e = if i == 0 { x } else { self.ar.concat(x, e) };
                }
                if v < lo || v > hi {
                    v = lo;
                    for i in 0..nb { self.input[i0 + i] = (lo >> (8 * i)) as u8; }
                }
                let e = self.ar.zext(e, 32);
                let l = self.ar.c(lo, 32);
                let h = self.ar.c(hi, 32);
                let c1 = self.ar.cmp(C::Ule, l, e);
                let c2 = self.ar.cmp(C::Ule, e, h);
                if c1 != TRUE { self.push_item(Kind::Assume, c1); }
                if c2 != TRUE { self.push_item(Kind::Assume, c2); }
                if lo == hi { self.push(lo, 0); } else { self.push(v, e); }
            }
            Prim::SymU64 => {
                let mut v = 0u64;
                let mut e = 0;
                for i in 0..8 {
                    let (b, x) = self.fresh();
                    v |= (b as u64) << (8 * i);
                    e = if i == 0 { x } else { self.ar.concat(x, e) };
                }
                self.push(v, e);
            }
            Prim::Assume => {
                let (v, e) = self.pop();
                if e == 0 { if v == 0 { return Err(Stop::End(End::Assume)); } }
                else {
                    let c = self.tobool(e);
                    if v != 0 { if c != TRUE && !self.known.contains(&c) { self.push_item(Kind::Assume, c); } }
                    else {
                        let nc = self.ar.not(c);
                        if nc != TRUE { self.push_item(Kind::Branch, nc); }
                        return Err(Stop::End(End::Assume));
                    }
                }
            }
            Prim::Check => {
                let n = self.popc() as usize;
                let s = self.popc() as usize;
                let (v, e) = self.pop();
                let l = self.cstr(s, n);
                let c = if e == 0 { 0 } else { self.tobool(e) };
                let c = if c != 0 && self.ar.cv(c).is_some() { 0 } else { c };
                self.check(c, v != 0, &l)?;
            }
            Prim::Cover => {
                let n = self.popc() as usize;
                let s = self.popc() as usize;
                let l = self.cstr(s, n);
                *self.covers.entry(l).or_default() += 1;
            }
            Prim::Note => {
                let n = self.popc() as usize;
                let s = self.popc() as usize;
                if self.trace_labels { eprintln!("note: {}", self.cstr(s, n)); }
            }
            Prim::Log => {
                let n = self.popc() as usize;
                let s = self.popc() as usize;
                for i in 0..n { self.log = (self.log ^ self.mem[s + i] as u64).wrapping_mul(0x100000001b3); }
                self.log = (self.log ^ 0x1ff).wrapping_mul(0x100000001b3);
                if self.trace_labels { eprintln!("log: {}", self.cstr(s, n)); }
            }
            Prim::Ite => {
                let (bv, be) = self.pop();
                let (av, ae) = self.pop();
                let (cv, ce) = self.pop();
                if ce == 0 { if cv != 0 { self.push(av, ae) } else { self.push(bv, be) } }
                else {
                    let c = self.tobool(ce);
                    let w = 32;
                    let a = if ae != 0 { ae } else { self.ar.c(av, w) };
                    let b = if be != 0 { be } else { self.ar.c(bv, w) };
                    let r = self.ar.ite(c, a, b);
                    self.push(if cv != 0 { av } else { bv }, r);
                }
            }
            Prim::Conc => {
                let v = self.popc();
                self.push(v, 0);
            }
            Prim::AllowPanic => { let v = self.popc(); self.allow_panic = v != 0; }
            Prim::IsEngine => self.push(1, 0),
            Prim::Param => { let i = self.popc() as usize; let v = self.lim.params.get(i).copied().unwrap_or(0); self.push(v as u64, 0); }
            Prim::Finish => return trap("finish", ""),
            Prim::FdWrite => {
                let np_ = self.popc() as usize;
                let cnt = self.popc() as usize;
                let iov = self.popc() as usize;
                self.popc();
                let mut tot = 0;
                for i in 0..cnt { tot += self.raw_load(iov + 8 * i + 4, 4); }
                self.store(np_, 4, tot, 0);
                self.push(0, 0);
            }
            Prim::RandomGet => {
                let n = self.popc() as usize;
                let d = self.popc() as usize;
                self.fill(d, 0, 0, n)?;
                self.push(0, 0);
            }
            Prim::ClockTime => {
                let p = self.popc() as usize;
                self.popc();
                self.popc();
                self.store(p, 8, 1_000_000_000, 0);
                self.push(0, 0);
            }
            Prim::SizesGet => {
                let b = self.popc() as usize;
                let a = self.popc() as usize;
                self.store(a, 4, 0, 0);
                self.store(b, 4, 0, 0);
                self.push(0, 0);
            }
            Prim::Errno => { self.sp -= np as usize; self.push(0, 0); }
            Prim::SchedYield => self.push(0, 0),
            Prim::ProcExit => return trap("exit", "proc_exit"),
            Prim::Unresolved => {
                let _ = nres;
                let im = &self.img.m.imports[imp];
                return engine(format!("unresolved import {}::{}", im.module, im.field));
            }
        }
        Ok(())
    }

    fn enter(&mut self, f: u32) -> X<()> {
        let ni = self.img.m.imports.len() as u32;
        let fun = &self.img.m.funcs[(f - ni) as usize];
        let fp = self.sp - fun.nparams as usize;
        if self.sp + fun.nlocals as usize + 512 > STACK || self.frames.len() > 20000 { return trap("stack", "call stack exhausted"); }
        for i in self.sp..fp + fun.nlocals as usize { self.vals[i] = 0; self.syms[i] = 0; }
        self.sp = fp + fun.nlocals as usize;
        self.frames.push(Frame { f, pc: 0, fp: fp as u32 });
        self.entered[f as usize] = true;
        Ok(())
    }
    fn call(&mut self, f: u32) -> X<()> {
        let ni = self.img.m.imports.len() as u32;
        let mut f = f;
        if f < ni {
            match self.img.redirect[f as usize] {
                Ok(g) => f = g,
                Err(p) => return self.prim(p, f as usize),
            }
        }
        let h = self.img.hooks[f as usize];
        if h != Hook::None { return self.hook(h, f); }
        self.enter(f)
    }

    fn exec(&mut self, entry: u32, steps: &mut u64) -> X<()> {
        let img = self.img.clone();
        let ni = img.m.imports.len() as u32;
        let nr = img.m.types[img.m.func_types[entry as usize] as usize].params.len();
        if nr != 0 { return engine("entry must take no parameters".into()); }
        self.enter(entry)?;
        'outer: loop {
            let fr = *self.frames.last().unwrap();
            let fun = &img.m.funcs[(fr.f - ni) as usize];
            let code = &fun.code[..];
            let fp = fr.fp as usize;
            let mut pc = fr.pc as usize;
            loop {
                *steps += 1;
                if *steps & 0xF_FFFF == 0 && self.late() { return engine(LATE.into()); }
                if *steps > self.lim.fuel { self.frames.last_mut().unwrap().pc = pc as u32; return trap("hang", "instruction budget exhausted"); }
                let op = code[pc];
                pc += 1;
                macro_rules! save { () => { self.frames.last_mut().unwrap().pc = pc as u32; } }
                macro_rules! branch_to { ($t:expr, $keep:expr, $h:expr) => {{
                    let keep = $keep as usize;
                    let dst = fp + $h as usize;
                    if keep > 0 {
                        for i in 0..keep {
                            self.vals[dst + i] = self.vals[self.sp - keep + i];
                            self.syms[dst + i] = self.syms[self.sp - keep + i];
                        }
                    }
                    self.sp = dst + keep;
                    pc = $t as usize;
                }} }
                match op {
                    Op::LGet(i) => {
                        let j = fp + i as usize;
                        self.vals[self.sp] = self.vals[j];
                        self.syms[self.sp] = self.syms[j];
                        self.sp += 1;
                    }
                    Op::LSet(i) => {
                        self.sp -= 1;
                        let j = fp + i as usize;
                        self.vals[j] = self.vals[self.sp];
                        self.syms[j] = self.syms[self.sp];
                    }
                    Op::LTee(i) => {
                        let j = fp + i as usize;
                        self.vals[j] = self.vals[self.sp - 1];
                        self.syms[j] = self.syms[self.sp - 1];
                    }
                    Op::Const(v) => { self.vals[self.sp] = v; self.syms[self.sp] = 0; self.sp += 1; }
                    Op::Load { n, s, w, off } => {
                        let t = self.sp - 1;
                        if self.syms[t] == 0 {
                            let x = self.vals[t] as usize + off as usize;
                            let n = n as usize;
                            if x + n > self.mem_len { save!(); return trap("oob", "load"); }
                            if !self.any_sym(x, n) {
                                let v = self.raw_load(x, n);
                                self.vals[t] = if s { sext(v, (8 * n) as u8) as u64 & mask(w) } else { v };
                                continue;
                            }
                        }
                        save!();
                        self.do_load(n as usize, s, w, off)?;
                    }
                    Op::Store { n, off } => {
                        let (v, e) = self.pop();
                        let (a, ae) = self.pop();
                        if ae != 0 { save!(); self.concretize(ae, a); }
                        let x = a as usize + off as usize;
                        if x + n as usize > self.mem_len { save!(); return trap("oob", "store"); }
                        self.store(x, n as usize, v, e);
                    }
                    Op::Bi(o) => {
                        let (b, be) = self.pop();
                        let (a, ae) = self.pop();
                        if ae == 0 && be == 0 {
                            match conc_bi(o, a, b) {
                                Ok(r) => { self.vals[self.sp] = r; self.syms[self.sp] = 0; self.sp += 1; }
                                Err(m) => { save!(); return trap("arith", m); }
                            }
                        } else { save!(); self.sym_bi(o, a, ae, b, be)?; }
                    }
                    Op::Un(o) => {
                        let (a, ae) = self.pop();
                        if ae == 0 {
                            match conc_un(o, a) {
                                Ok(r) => { self.vals[self.sp] = r; self.syms[self.sp] = 0; self.sp += 1; }
                                Err(m) => { save!(); return trap("arith", m); }
                            }
                        } else { save!(); self.sym_un(o, a, ae)?; }
                    }
                    Op::Br { t, keep, h } => branch_to!(t, keep, h),
                    Op::BrIf { t, keep, h } => {
                        let (v, e) = self.pop();
                        let v = v as u32;
                        if e != 0 { save!(); let c = self.tobool(e); self.branch(c, v != 0); }
                        if v != 0 { branch_to!(t, keep, h) }
                    }
                    Op::BrZ { t } => {
                        let (v, e) = self.pop();
                        let v = v as u32;
                        if e != 0 { save!(); let c = self.tobool(e); self.branch(c, v != 0); }
                        if v == 0 { pc = t as usize; }
                    }
                    Op::Jmp { t } => pc = t as usize,
                    Op::BrTable { start, n } => {
                        let (v, e) = self.pop();
                        let i = (v as u32).min(n);
                        let (t, keep, h) = fun.tables[(start + i) as usize];
                        if e != 0 {
                            save!();
                            // disjunction over the indices reaching the same target
                            let mut ts: Vec<(u32, E)> = vec![];
                            for j in 0..=n {
                                let tj = fun.tables[(start + j) as usize].0;
                                let k = self.ar.c(j as u64, 32);
                                let c = if j < n { self.ar.cmp(C::Eq, e, k) } else { self.ar.cmp(C::Ule, k, e) };
                                match ts.iter_mut().find(|x| x.0 == tj) {
                                    Some(x) => x.1 = self.ar.or1(x.1, c),
                                    None => ts.push((tj, c)),
                                }
                            }
                            for (tj, c) in ts {
                                self.branch(c, tj == t);
                                if tj == t { break; }
                            }
                        }
                        branch_to!(t, keep, h)
                    }
                    Op::Return => {
                        let nr = fun.nresults as usize;
                        for i in 0..nr {
                            self.vals[fp + i] = self.vals[self.sp - nr + i];
                            self.syms[fp + i] = self.syms[self.sp - nr + i];
                        }
                        self.sp = fp + nr;
                        self.frames.pop();
                        if self.frames.is_empty() { return Ok(()); }
                        continue 'outer;
                    }
                    Op::Call(f) => {
                        save!();
                        let d = self.frames.len();
                        self.call(f)?;
                        if self.frames.len() != d { continue 'outer; }
                    }
                    Op::CallInd(ty) => {
                        save!();
                        let i = self.popc() as usize;
                        let f = img.m.table.get(i).copied().unwrap_or(u32::MAX);
                        if f == u32::MAX { return trap("callind", "null or out-of-range table entry"); }
                        let ft = img.m.func_types[f as usize];
                        if ft != ty && img.m.types[ft as usize] != img.m.types[ty as usize] { return trap("callind", "signature mismatch"); }
                        let d = self.frames.len();
                        self.call(f)?;
                        if self.frames.len() != d { continue 'outer; }
                    }
                    Op::Drop => self.sp -= 1,
                    Op::Select(sw) => {
                        let (c, ce) = self.pop();
                        let (b, be) = self.pop();
                        let (a, ae) = self.pop();
                        let c = c as u32;
                        if ce == 0 {
                            if c != 0 { self.push(a, ae) } else { self.push(b, be) }
                        } else {
                            save!();
                            let q = self.tobool(ce);
                            if a == b && ae == be { self.push(a, ae); continue; }
                            let x = if ae != 0 { ae } else { self.ar.c(a, sw) };
                            let y = if be != 0 { be } else { self.ar.c(b, sw) };
                            let r = self.ar.ite(q, x, y);
                            self.push(if c != 0 { a } else { b }, r);
                        }
                    }
                    Op::GGet(i) => { let (v, e) = self.globals[i as usize]; self.push(v, e); }
                    Op::GSet(i) => { let x = self.pop(); self.globals[i as usize] = x; }
                    Op::Unreachable => { save!(); let bt = self.backtrace(); return trap("unreachable", bt.first().map(|s| s.as_str()).unwrap_or("")); }
                    Op::MemSize => { let v = (self.mem_len >> 16) as u64; self.push(v, 0); }
                    Op::MemGrow => {
                        save!();
                        let n = self.popc() as usize;
                        let old = self.mem_len >> 16;
                        // the module's own allocator is replaced; growth requests are refused
                        if n == 0 { self.push(old as u64, 0); } else { self.push(0xffff_ffff, 0); }
                    }
                    Op::MemCopy => {
                        save!();
                        let n = self.popc() as usize;
                        let s = self.pop();
                        let d = self.popc() as usize;
                        if n > 0 { self.copy_from(d, s, n)?; }
                    }
                    Op::MemFill => {
                        save!();
                        let n = self.pop();
                        let (v, e) = self.pop();
                        let d = self.popc() as usize;
                        self.fill_sym(d, v, e, n)?;
                    }
                    Op::TruncSat(k) => {
                        save!();
                        let a = self.popc();
                        let r = match k {
                            0 => f32::from_bits(a as u32) as i32 as u32 as u64,
                            1 => f32::from_bits(a as u32) as u32 as u64,
                            2 => f64::from_bits(a) as i32 as u32 as u64,
                            3 => f64::from_bits(a) as u32 as u64,
                            4 => f32::from_bits(a as u32) as i64 as u64,
                            5 => f32::from_bits(a as u32) as u64,
                            6 => f64::from_bits(a) as i64 as u64,
                            _ => f64::from_bits(a) as u64,
                        };
                        self.push(r, 0);
                    }
                }
            }
        }
    }
    fn ex(&mut self, v: u64, e: E, w: u8) -> E { if e != 0 { e } else { self.ar.c(v, w) } }
    fn b2i(&mut self, c: E) -> E { self.ar.zext(c, 32) }

    fn sym_bi(&mut self, o: u8, a: u64, ae: E, b: u64, be: E) -> X<()> {
        // comparisons
        let (cw, cop): (u8, Option<(C, bool, bool)>) = match o {
            0x46 => (32, Some((C::Eq, false, false))), 0x47 => (32, Some((C::Eq, false, true))),
            0x48 => (32, Some((C::Slt, false, false))), 0x49 => (32, Some((C::Ult, false, false))),
            0x4a => (32, Some((C::Slt, true, false))), 0x4b => (32, Some((C::Ult, true, false))),
            0x4c => (32, Some((C::Sle, false, false))), 0x4d => (32, Some((C::Ule, false, false))),
            0x4e => (32, Some((C::Sle, true, false))), 0x4f => (32, Some((C::Ule, true, false))),
            0x51 => (64, Some((C::Eq, false, false))), 0x52 => (64, Some((C::Eq, false, true))),
            0x53 => (64, Some((C::Slt, false, false))), 0x54 => (64, Some((C::Ult, false, false))),
            0x55 => (64, Some((C::Slt, true, false))), 0x56 => (64, Some((C::Ult, true, false))),
            0x57 => (64, Some((C::Sle, false, false))), 0x58 => (64, Some((C::Ule, false, false))),
            0x59 => (64, Some((C::Sle, true, false))), 0x5a => (64, Some((C::Ule, true, false))),
            _ => (0, None),
        };
        if let Some((c, swap, neg)) = cop {
            let x = self.ex(a, ae, cw);
            let y = self.ex(b, be, cw);
            let (x, y) = if swap { (y, x) } else { (x, y) };
            let mut r = self.ar.cmp(c, x, y);
            if neg { r = self.ar.not(r); }
            let v = conc_bi(o, a, b).unwrap();
            let r = self.b2i(r);
            self.push(v, r);
            return Ok(());
        }
        let (w, op) = match o {
            0x6a..=0x78 => (32u8, o - 0x6a),
            0x7c..=0x8a => (64u8, o - 0x7c),
            _ => {
                // float operation: concretise
                if ae != 0 { self.concretize(ae, a); }
                if be != 0 { self.concretize(be, b); }
                return match conc_bi(o, a, b) { Ok(r) => { self.push(r, 0); Ok(()) } Err(m) => trap("arith", m) };
            }
        };
        // division by a possibly-zero divisor is a branch
        if (3..=6).contains(&op) {
            let y = self.ex(b, be, w);
            let z = self.ar.c(0, w);
            let c = self.ar.cmp(C::Eq, y, z);
            self.branch(c, b == 0);
            if b == 0 { return trap("arith", "integer divide by zero"); }
            if op == 3 {
                // signed overflow
                let m1 = self.ar.c(mask(w), w);
                let mn = self.ar.c(1u64 << (w - 1), w);
                let x = self.ex(a, ae, w);
                let p = self.ar.cmp(C::Eq, y, m1);
                let q = self.ar.cmp(C::Eq, x, mn);
                let c = self.ar.and1(p, q);
                let ov = b == mask(w) && a == 1u64 << (w - 1);
                self.branch(c, ov);
                if ov { return trap("arith", "integer overflow"); }
            }
        }
        let x = self.ex(a, ae, w);
        let y = self.ex(b, be, w);
        let v = match conc_bi(o, a, b) { Ok(v) => v, Err(m) => return trap("arith", m) };
        let r = match op {
            0 => self.ar.bin(B::Add, x, y),
            1 => self.ar.bin(B::Sub, x, y),
            2 => self.ar.bin(B::Mul, x, y),
            3 => self.ar.bin(B::SDiv, x, y),
            4 => self.ar.bin(B::UDiv, x, y),
            5 => self.ar.bin(B::SRem, x, y),
            6 => self.ar.bin(B::URem, x, y),
            7 => self.ar.bin(B::And, x, y),
            8 => self.ar.bin(B::Or, x, y),
            9 => self.ar.bin(B::Xor, x, y),
            _ => {
                // shifts and rotates take the count modulo the width
                let m = self.ar.c(w as u64 - 1, w);
                let k = self.ar.bin(B::And, y, m);
                match op {
                    10 => self.ar.bin(B::Shl, x, k),
                    11 => self.ar.bin(B::AShr, x, k),
                    12 => self.ar.bin(B::LShr, x, k),
                    _ => {
                        let (s1, s2) = if op == 13 { (B::Shl, B::LShr) } else { (B::LShr, B::Shl) };
                        let p = self.ar.bin(s1, x, k);
                        let wk = self.ar.c(w as u64, w);
                        let d = self.ar.bin(B::Sub, wk, k);
                        let d = self.ar.bin(B::And, d, m);
                        let q = self.ar.bin(s2, x, d);
                        self.ar.bin(B::Or, p, q)
                    }
                }
            }
        };
        self.push(v, r);
        Ok(())
    }
    fn sym_un(&mut self, o: u8, a: u64, ae: E) -> X<()> {
        let r = match o {
            0x45 => { let z = self.ar.c(0, 32); let c = self.ar.cmp(C::Eq, ae, z); self.b2i(c) }
            0x50 => { let z = self.ar.c(0, 64); let c = self.ar.cmp(C::Eq, ae, z); self.b2i(c) }
            0x67 | 0x68 | 0x69 | 0x79 | 0x7a | 0x7b => {
                let w: u8 = if o < 0x70 { 32 } else { 64 };
                let k = if o < 0x70 { o - 0x67 } else { o - 0x79 };
                match k {
                    0 => { // clz
                        let mut r = self.ar.c(w as u64, w);
                        for i in 0..w { let bit = self.ar.extract(i, 1, ae); let v = self.ar.c((w - 1 - i) as u64, w); r = self.ar.ite(bit, v, r); }
                        r
                    }
                    1 => {
                        let mut r = self.ar.c(w as u64, w);
                        for i in (0..w).rev() { let bit = self.ar.extract(i, 1, ae); let v = self.ar.c(i as u64, w); r = self.ar.ite(bit, v, r); }
                        r
                    }
                    _ => {
                        let mut r = self.ar.c(0, w);
                        for i in 0..w { let bit = self.ar.extract(i, 1, ae); let z = self.ar.zext(bit, w); r = self.ar.bin(B::Add, r, z); }
                        r
                    }
                }
            }
            0xa7 => self.ar.extract(0, 32, ae),
            0xac => self.ar.sext(ae, 64),
            0xad => self.ar.zext(ae, 64),
            0xbc | 0xbd | 0xbe | 0xbf => ae,
            0xc0 => { let x = self.ar.extract(0, 8, ae); self.ar.sext(x, 32) }
            0xc1 => { let x = self.ar.extract(0, 16, ae); self.ar.sext(x, 32) }
            0xc2 => { let x = self.ar.extract(0, 8, ae); self.ar.sext(x, 64) }
            0xc3 => { let x = self.ar.extract(0, 16, ae); self.ar.sext(x, 64) }
            0xc4 => { let x = self.ar.extract(0, 32, ae); self.ar.sext(x, 64) }
            _ => {
                self.concretize(ae, a);
                return match conc_un(o, a) { Ok(r) => { self.push(r, 0); Ok(()) } Err(m) => trap("arith", m) };
            }
        };
        let v = conc_un(o, a).unwrap();
        self.push(v, r);
        Ok(())
    }
}

fn f32u(x: u64) -> f32 { f32::from_bits(x as u32) }
fn f64u(x: u64) -> f64 { f64::from_bits(x) }
fn u32f(x: f32) -> u64 { x.to_bits() as u64 }
fn fmin<T: PartialOrd + Copy>(a: T, b: T, nan: T, neg: bool) -> T {
    if a != a || b != b { return nan; }
    if neg { if a < b { a } else { b } } else if a > b { a } else { b }
}

pub fn conc_bi(o: u8, a: u64, b: u64) -> Result<u64, &'static str> {
    let (ai, bi) = (a as u32 as i32, b as u32 as i32);
    let (au, bu) = (a as u32, b as u32);
    let (al, bl) = (a as i64, b as i64);
    let t = |x: bool| x as u64;
    let r32 = |x: u32| x as u64;
    Ok(match o {
        0x46 => t(au == bu), 0x47 => t(au != bu), 0x48 => t(ai < bi), 0x49 => t(au < bu), 0x4a => t(ai > bi), 0x4b => t(au > bu),
        0x4c => t(ai <= bi), 0x4d => t(au <= bu), 0x4e => t(ai >= bi), 0x4f => t(au >= bu),
        0x51 => t(a == b), 0x52 => t(a != b), 0x53 => t(al < bl), 0x54 => t(a < b), 0x55 => t(al > bl), 0x56 => t(a > b),
        0x57 => t(al <= bl), 0x58 => t(a <= b), 0x59 => t(al >= bl), 0x5a => t(a >= b),
        0x5b => t(f32u(a) == f32u(b)), 0x5c => t(f32u(a) != f32u(b)), 0x5d => t(f32u(a) < f32u(b)), 0x5e => t(f32u(a) > f32u(b)),
        0x5f => t(f32u(a) <= f32u(b)), 0x60 => t(f32u(a) >= f32u(b)),
        0x61 => t(f64u(a) == f64u(b)), 0x62 => t(f64u(a) != f64u(b)), 0x63 => t(f64u(a) < f64u(b)), 0x64 => t(f64u(a) > f64u(b)),
        0x65 => t(f64u(a) <= f64u(b)), 0x66 => t(f64u(a) >= f64u(b)),
        0x6a => r32(au.wrapping_add(bu)), 0x6b => r32(au.wrapping_sub(bu)), 0x6c => r32(au.wrapping_mul(bu)),
        0x6d => { if bi == 0 { return Err("integer divide by zero"); } if ai == i32::MIN && bi == -1 { return Err("integer overflow"); } r32((ai / bi) as u32) }
        0x6e => { if bu == 0 { return Err("integer divide by zero"); } r32(au / bu) }
        0x6f => { if bi == 0 { return Err("integer divide by zero"); } r32(ai.wrapping_rem(bi) as u32) }
        0x70 => { if bu == 0 { return Err("integer divide by zero"); } r32(au % bu) }
        0x71 => r32(au & bu), 0x72 => r32(au | bu), 0x73 => r32(au ^ bu),
        0x74 => r32(au.wrapping_shl(bu)), 0x75 => r32(ai.wrapping_shr(bu) as u32), 0x76 => r32(au.wrapping_shr(bu)),
        0x77 => r32(au.rotate_left(bu & 31)), 0x78 => r32(au.rotate_right(bu & 31)),
        0x7c => a.wrapping_add(b), 0x7d => a.wrapping_sub(b), 0x7e => a.wrapping_mul(b),
        0x7f => { if bl == 0 { return Err("integer divide by zero"); } if al == i64::MIN && bl == -1 { return Err("integer overflow"); } (al / bl) as u64 }
        0x80 => { if b == 0 { return Err("integer divide by zero"); } a / b }
        0x81 => { if bl == 0 { return Err("integer divide by zero"); } al.wrapping_rem(bl) as u64 }
        0x82 => { if b == 0 { return Err("integer divide by zero"); } a % b }
        0x83 => a & b, 0x84 => a | b, 0x85 => a ^ b,
        0x86 => a.wrapping_shl(b as u32), 0x87 => al.wrapping_shr(b as u32) as u64, 0x88 => a.wrapping_shr(b as u32),
        0x89 => a.rotate_left((b & 63) as u32), 0x8a => a.rotate_right((b & 63) as u32),
        0x92 => u32f(f32u(a) + f32u(b)), 0x93 => u32f(f32u(a) - f32u(b)), 0x94 => u32f(f32u(a) * f32u(b)), 0x95 => u32f(f32u(a) / f32u(b)),
        0x96 => u32f(fmin(f32u(a), f32u(b), f32::NAN, true)), 0x97 => u32f(fmin(f32u(a), f32u(b), f32::NAN, false)), 0x98 => u32f(f32u(a).copysign(f32u(b))),
        0xa0 => (f64u(a) + f64u(b)).to_bits(), 0xa1 => (f64u(a) - f64u(b)).to_bits(), 0xa2 => (f64u(a) * f64u(b)).to_bits(), 0xa3 => (f64u(a) / f64u(b)).to_bits(),
        0xa4 => fmin(f64u(a), f64u(b), f64::NAN, true).to_bits(), 0xa5 => fmin(f64u(a), f64u(b), f64::NAN, false).to_bits(), 0xa6 => f64u(a).copysign(f64u(b)).to_bits(),
        _ => return Err("unknown binary opcode"),
    })
}
pub fn conc_un(o: u8, a: u64) -> Result<u64, &'static str> {
    let au = a as u32;
    Ok(match o {
        0x45 => (au == 0) as u64, 0x50 => (a == 0) as u64,
        0x67 => au.leading_zeros() as u64, 0x68 => au.trailing_zeros() as u64, 0x69 => au.count_ones() as u64,
        0x79 => a.leading_zeros() as u64, 0x7a => a.trailing_zeros() as u64, 0x7b => a.count_ones() as u64,
        0x8b => u32f(f32u(a).abs()), 0x8c => u32f(-f32u(a)), 0x8d => u32f(f32u(a).ceil()), 0x8e => u32f(f32u(a).floor()),
        0x8f => u32f(f32u(a).trunc()), 0x90 => u32f(f32u(a).round_ties_even()), 0x91 => u32f(f32u(a).sqrt()),
        0x99 => f64u(a).abs().to_bits(), 0x9a => (-f64u(a)).to_bits(), 0x9b => f64u(a).ceil().to_bits(), 0x9c => f64u(a).floor().to_bits(),
        0x9d => f64u(a).trunc().to_bits(), 0x9e => f64u(a).round_ties_even().to_bits(), 0x9f => f64u(a).sqrt().to_bits(),
        0xa7 => au as u64,
        0xa8 => f32u(a) as i32 as u32 as u64, 0xa9 => f32u(a) as u32 as u64, 0xaa => f64u(a) as i32 as u32 as u64, 0xab => f64u(a) as u32 as u64,
        0xac => au as i32 as i64 as u64, 0xad => au as u64,
        0xae => f32u(a) as i64 as u64, 0xaf => f32u(a) as u64, 0xb0 => f64u(a) as i64 as u64, 0xb1 => f64u(a) as u64,
        0xb2 => u32f(au as i32 as f32), 0xb3 => u32f(au as f32), 0xb4 => u32f(a as i64 as f32), 0xb5 => u32f(a as f32), 0xb6 => u32f(f64u(a) as f32),
        0xb7 => (au as i32 as f64).to_bits(), 0xb8 => (au as f64).to_bits(), 0xb9 => (a as i64 as f64).to_bits(), 0xba => (a as f64).to_bits(), 0xbb => (f32u(a) as f64).to_bits(),
        0xbc..=0xbf => a,
        0xc0 => au as i8 as i32 as u32 as u64, 0xc1 => au as i16 as i32 as u32 as u64,
        0xc2 => a as i8 as i64 as u64, 0xc3 => a as i16 as i64 as u64, 0xc4 => a as i32 as i64 as u64,
        _ => return Err("unknown unary opcode"),
    })
}
