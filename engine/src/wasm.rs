//! WebAssembly MVP (+ sign-ext, bulk memory, nontrapping fptoint, mutable globals) binary parser and
//! flattening of structured control flow into a linear instruction array.
use std::collections::HashMap;

#[derive(Clone, Copy, Debug)]
pub enum Op {
    Unreachable,
    Br { t: u32, keep: u16, h: u32 },
    BrIf { t: u32, keep: u16, h: u32 },
    /// jump to t when the popped condition is zero (no stack adjustment)
    BrZ { t: u32 },
    Jmp { t: u32 },
    BrTable { start: u32, n: u32 },
    Return,
    Call(u32),
    CallInd(u32),
    Drop,
    Select(u8),
    LGet(u32),
    LSet(u32),
    LTee(u32),
    GGet(u32),
    GSet(u32),
    /// size in bytes, sign, result width
    Load { n: u8, s: bool, w: u8, off: u32 },
    Store { n: u8, off: u32 },
    MemSize,
    MemGrow,
    MemCopy,
    MemFill,
    Const(u64),
    /// numeric opcode with one / two operands
    Un(u8),
    Bi(u8),
    TruncSat(u8),
}

#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct FuncType {
    pub params: Vec<u8>,
    pub results: Vec<u8>,
}

pub struct Func {
    pub ty: u32,
    pub nparams: u32,
    pub nlocals: u32, // including params
    pub nresults: u32,
    pub code: Vec<Op>,
    pub tables: Vec<(u32, u16, u32)>,
    pub name: String,
}

pub struct Import {
    pub module: String,
    pub field: String,
    pub ty: u32,
}

#[derive(Default)]
pub struct Module {
    pub types: Vec<FuncType>,
    pub imports: Vec<Import>,
    pub funcs: Vec<Func>, // defined functions; index space is imports.len() + i
    pub func_types: Vec<u32>,
    pub table: Vec<u32>, // u32::MAX = null
    pub mem_min: u32,
    pub globals: Vec<u64>,
    pub global_ty: Vec<u8>,
    pub exports: HashMap<String, (u8, u32)>,
    pub data: Vec<(u32, Vec<u8>)>,
    pub names: HashMap<u32, String>,
    pub start: Option<u32>,
}

struct R<'a> {
    b: &'a [u8],
    p: usize,
}
impl<'a> R<'a> {
    fn u8(&mut self) -> u8 { let x = self.b[self.p]; self.p += 1; x }
    fn u32(&mut self) -> u32 { self.leb() as u32 }
    fn leb(&mut self) -> u64 {
        let mut r = 0u64;
        let mut s = 0;
        loop {
            let x = self.u8();
            r |= ((x & 0x7f) as u64) << s;
            s += 7;
            if x & 0x80 == 0 { return r; }
        }
    }
    fn sleb(&mut self) -> i64 {
        let mut r = 0i64;
        let mut s = 0;
        loop {
            let x = self.u8();
            if s < 64 { r |= ((x & 0x7f) as i64) << s; }
            s += 7;
            if x & 0x80 == 0 {
                if s < 64 && x & 0x40 != 0 { r |= -1i64 << s; }
                return r;
            }
        }
    }
    fn bytes(&mut self, n: usize) -> &'a [u8] { let x = &self.b[self.p..self.p + n]; self.p += n; x }
    fn name(&mut self) -> String { let n = self.u32() as usize; String::from_utf8_lossy(self.bytes(n)).into_owned() }
}

struct Ctl {
    kind: u8, // 0 block 1 loop 2 if 3 func
    height: usize, // operand count at entry (below params)
    params: Vec<u8>,
    results: Vec<u8>,
    start: u32,
    fix: Vec<(usize, bool, usize)>, // code index (or table entry) needing the end pc
    else_fix: Option<usize>,
    dead_at_entry: bool,
}

impl Module {
    pub fn parse(b: &[u8]) -> Module {
        assert_eq!(&b[0..8], b"\0asm\x01\0\0\0", "not a wasm module");
        let mut m = Module::default();
        let mut r = R { b, p: 8 };
        let mut bodies: Vec<(usize, usize)> = vec![];
        let mut ftys: Vec<u32> = vec![];
        let mut elems: Vec<(u32, Vec<u32>)> = vec![];
        let mut table_min = 0;
        while r.p < b.len() {
            let id = r.u8();
            let len = r.u32() as usize;
            let end = r.p + len;
            match id {
                0 => {
                    let nm = r.name();
                    if nm == "name" {
                        while r.p < end {
                            let sid = r.u8();
                            let sl = r.u32() as usize;
                            let se = r.p + sl;
                            if sid == 1 {
                                let n = r.u32();
                                for _ in 0..n { let i = r.u32(); let s = r.name(); m.names.insert(i, s); }
                            }
                            r.p = se;
                        }
                    }
                }
                1 => {
                    let n = r.u32();
                    for _ in 0..n {
                        assert_eq!(r.u8(), 0x60);
                        let a = r.u32();
                        let params = (0..a).map(|_| r.u8()).collect();
                        let c = r.u32();
                        let results = (0..c).map(|_| r.u8()).collect();
                        m.types.push(FuncType { params, results });
                    }
                }
                2 => {
                    let n = r.u32();
                    for _ in 0..n {
                        let module = r.name();
                        let field = r.name();
                        match r.u8() {
                            0 => { let ty = r.u32(); m.imports.push(Import { module, field, ty }); }
                            k => panic!("unsupported import kind {}", k),
                        }
                    }
                }
                3 => { let n = r.u32(); for _ in 0..n { ftys.push(r.u32()); } }
                4 => {
                    let n = r.u32();
                    for _ in 0..n {
                        r.u8();
                        let f = r.u8();
                        table_min = r.u32();
                        if f & 1 == 1 { r.u32(); }
                    }
                }
                5 => {
                    let n = r.u32();
                    assert_eq!(n, 1);
                    let f = r.u8();
                    m.mem_min = r.u32();
                    if f & 1 == 1 { r.u32(); }
                }
                6 => {
                    let n = r.u32();
                    for _ in 0..n {
                        let gt = r.u8();
                        m.global_ty.push(gt);
                        r.u8();
                        let v = Self::const_expr(&mut r, &m);
                        m.globals.push(v);
                    }
                }
                7 => {
                    let n = r.u32();
                    for _ in 0..n { let s = r.name(); let k = r.u8(); let i = r.u32(); m.exports.insert(s, (k, i)); }
                }
                8 => m.start = Some(r.u32()),
                9 => {
                    let n = r.u32();
                    for _ in 0..n {
                        let f = r.u32();
                        assert_eq!(f, 0, "element segment kind");
                        let off = Self::const_expr(&mut r, &m) as u32;
                        let k = r.u32();
                        elems.push((off, (0..k).map(|_| r.u32()).collect()));
                    }
                }
                10 => {
                    let n = r.u32();
                    for _ in 0..n { let l = r.u32() as usize; bodies.push((r.p, r.p + l)); r.p += l; }
                }
                11 => {
                    let n = r.u32();
                    for _ in 0..n {
                        let f = r.u32();
                        assert_eq!(f, 0, "data segment kind");
                        let off = Self::const_expr(&mut r, &m) as u32;
                        let l = r.u32() as usize;
                        m.data.push((off, r.bytes(l).to_vec()));
                    }
                }
                _ => {}
            }
            r.p = end;
        }
        m.table = vec![u32::MAX; table_min as usize];
        for (o, v) in elems {
            for (i, f) in v.into_iter().enumerate() {
                let k = o as usize + i;
                if m.table.len() <= k { m.table.resize(k + 1, u32::MAX); }
                m.table[k] = f;
            }
        }
        m.func_types = m.imports.iter().map(|i| i.ty).chain(ftys.iter().copied()).collect();
        let ni = m.imports.len() as u32;
        for (i, &(s, e)) in bodies.iter().enumerate() {
            let idx = ni + i as u32;
            let name = m.names.get(&idx).cloned().unwrap_or_else(|| format!("func{}", idx));
            let f = m.body(&b[..e], s, ftys[i], name);
            m.funcs.push(f);
        }
        m
    }
    fn const_expr(r: &mut R, m: &Module) -> u64 {
        let mut v = 0;
        loop {
            match r.u8() {
                0x41 => v = r.sleb() as u32 as u64,
                0x42 => v = r.sleb() as u64,
                0x43 => { let x = r.bytes(4); v = u32::from_le_bytes(x.try_into().unwrap()) as u64 }
                0x44 => { let x = r.bytes(8); v = u64::from_le_bytes(x.try_into().unwrap()) }
                0x23 => { let i = r.u32() as usize; v = m.globals[i] }
                0x0b => return v,
                o => panic!("const expr opcode {:#x}", o),
            }
        }
    }
    fn body(&self, b: &[u8], start: usize, ty: u32, name: String) -> Func {
        const I32: u8 = 0x7f;
        const I64: u8 = 0x7e;
        const F32: u8 = 0x7d;
        const F64: u8 = 0x7c;
        let mut r = R { b, p: start };
        let ft = &self.types[ty as usize];
        let np = ft.params.len() as u32;
        let nr = ft.results.len() as u32;
        let mut lty: Vec<u8> = ft.params.clone();
        let g = r.u32();
        for _ in 0..g { let n = r.u32(); let t = r.u8(); for _ in 0..n { lty.push(t); } }
        let nlocals = lty.len() as u32;
        let mut code: Vec<Op> = vec![];
        let mut tables: Vec<(u32, u16, u32)> = vec![];
        let mut ctl: Vec<Ctl> = vec![Ctl { kind: 3, height: 0, params: vec![], results: ft.results.clone(), start: 0, fix: vec![], else_fix: None, dead_at_entry: false }];
        let mut st: Vec<u8> = vec![]; // operand types
        let mut dead = false;
        macro_rules! bt { () => {{
            let k = r.sleb();
            if k == -64 { (vec![], vec![]) } else if k < 0 { (vec![], vec![(k & 0x7f) as u8]) } else { let t = &self.types[k as usize]; (t.params.clone(), t.results.clone()) }
        }} }
        macro_rules! emit { ($o:expr) => { if !dead { code.push($o); } } }
        macro_rules! pops { ($n:expr) => {{ let k = st.len() - $n as usize; st.truncate(k); }} }
        // (ctl index, kept values, height, target for loops)
        let label = |ctl: &[Ctl], d: u32| -> (usize, u16, u32, Option<u32>) {
            let i = ctl.len() - 1 - d as usize;
            let c = &ctl[i];
            let h = nlocals + c.height as u32;
            if c.kind == 1 { (i, c.params.len() as u16, h, Some(c.start)) } else { (i, c.results.len() as u16, h, None) }
        };
        while r.p < b.len() {
            let op = r.u8();
            match op {
                0x00 => { emit!(Op::Unreachable); dead = true; }
                0x01 => {}
                0x02 | 0x03 | 0x04 => {
                    let (p, q) = bt!();
                    if op == 4 && !dead { pops!(1); }
                    let height = if dead { 0 } else { st.len() - p.len() };
                    let mut c = Ctl { kind: op - 2, height, params: p, results: q, start: code.len() as u32, fix: vec![], else_fix: None, dead_at_entry: dead };
                    if op == 4 && !dead { c.else_fix = Some(code.len()); code.push(Op::BrZ { t: 0 }); }
                    ctl.push(c);
                }
                0x05 => {
                    let n = ctl.len() - 1;
                    if !ctl[n].dead_at_entry {
                        if !dead { let k = code.len(); code.push(Op::Jmp { t: 0 }); ctl[n].fix.push((k, false, 0)); }
                        let here = code.len() as u32;
                        if let Some(k) = ctl[n].else_fix.take() { code[k] = Op::BrZ { t: here }; }
                        dead = false;
                        st.truncate(ctl[n].height);
                        let p = ctl[n].params.clone();
                        st.extend(p);
                    }
                }
                0x0b => {
                    let c = ctl.pop().unwrap();
                    let here = code.len() as u32;
                    if let Some(k) = c.else_fix { code[k] = Op::BrZ { t: here }; }
                    for (k, is_tab, ti) in &c.fix {
                        if *is_tab { tables[*ti].0 = here; } else {
                            match &mut code[*k] {
                                Op::Br { t, .. } | Op::BrIf { t, .. } | Op::Jmp { t } => *t = here,
                                _ => unreachable!(),
                            }
                        }
                    }
                    if !c.dead_at_entry { dead = false; st.truncate(c.height); st.extend(c.results); }
                    if c.kind == 3 { code.push(Op::Return); break; }
                }
                0x0c | 0x0d => {
                    let d = r.u32();
                    if !dead {
                        if op == 0x0d { pops!(1); }
                        let (i, keep, hh, t) = label(&ctl, d);
                        let k = code.len();
                        let tt = t.unwrap_or(0);
                        code.push(if op == 0x0c { Op::Br { t: tt, keep, h: hh } } else { Op::BrIf { t: tt, keep, h: hh } });
                        if t.is_none() { ctl[i].fix.push((k, false, 0)); }
                        if op == 0x0c { dead = true; }
                    }
                }
                0x0e => {
                    let n = r.u32();
                    let ds: Vec<u32> = (0..=n).map(|_| r.u32()).collect();
                    if !dead {
                        let s0 = tables.len() as u32;
                        for d in ds {
                            let (i, keep, hh, t) = label(&ctl, d);
                            let ti = tables.len();
                            tables.push((t.unwrap_or(0), keep, hh));
                            if t.is_none() { ctl[i].fix.push((0, true, ti)); }
                        }
                        code.push(Op::BrTable { start: s0, n });
                        dead = true;
                    }
                }
                0x0f => { emit!(Op::Return); dead = true; }
                0x10 => {
                    let f = r.u32();
                    if !dead {
                        let t = &self.types[self.func_types[f as usize] as usize];
                        pops!(t.params.len());
                        st.extend(&t.results);
                        code.push(Op::Call(f));
                    }
                }
                0x11 => {
                    let ty = r.u32();
                    r.u32();
                    if !dead {
                        let t = &self.types[ty as usize];
                        pops!(t.params.len() + 1);
                        st.extend(&t.results);
                        code.push(Op::CallInd(ty));
                    }
                }
                0x1a => { if !dead { pops!(1); code.push(Op::Drop); } }
                0x1b | 0x1c => {
                    if op == 0x1c { let n = r.u32(); for _ in 0..n { r.u8(); } }
                    if !dead {
                        pops!(2);
                        let w = if matches!(st.last(), Some(&I32) | Some(&F32)) { 32 } else { 64 };
                        code.push(Op::Select(w));
                    }
                }
                0x20 => { let i = r.u32(); if !dead { st.push(lty[i as usize]); code.push(Op::LGet(i)); } }
                0x21 => { let i = r.u32(); if !dead { pops!(1); code.push(Op::LSet(i)); } }
                0x22 => { let i = r.u32(); emit!(Op::LTee(i)); }
                0x23 => { let i = r.u32(); if !dead { st.push(self.global_ty[i as usize]); code.push(Op::GGet(i)); } }
                0x24 => { let i = r.u32(); if !dead { pops!(1); code.push(Op::GSet(i)); } }
                0x28..=0x35 => {
                    r.u32();
                    let off = r.u32();
                    let (n, s, w) = match op {
                        0x28 => (4, false, 32), 0x29 => (8, false, 64), 0x2a => (4, false, 32), 0x2b => (8, false, 64),
                        0x2c => (1, true, 32), 0x2d => (1, false, 32), 0x2e => (2, true, 32), 0x2f => (2, false, 32),
                        0x30 => (1, true, 64), 0x31 => (1, false, 64), 0x32 => (2, true, 64), 0x33 => (2, false, 64),
                        0x34 => (4, true, 64), _ => (4, false, 64),
                    };
                    if !dead {
                        pops!(1);
                        st.push(match op { 0x2a => F32, 0x2b => F64, _ => if w == 32 { I32 } else { I64 } });
                        code.push(Op::Load { n, s, w, off });
                    }
                }
                0x36..=0x3e => {
                    r.u32();
                    let off = r.u32();
                    let n = match op { 0x36 => 4, 0x37 => 8, 0x38 => 4, 0x39 => 8, 0x3a => 1, 0x3b => 2, 0x3c => 1, 0x3d => 2, _ => 4 };
                    if !dead { pops!(2); code.push(Op::Store { n, off }); }
                }
                0x3f => { r.u8(); if !dead { st.push(I32); code.push(Op::MemSize); } }
                0x40 => { r.u8(); emit!(Op::MemGrow); }
                0x41 => { let v = r.sleb() as u32 as u64; if !dead { st.push(I32); code.push(Op::Const(v)); } }
                0x42 => { let v = r.sleb() as u64; if !dead { st.push(I64); code.push(Op::Const(v)); } }
                0x43 => { let x = r.bytes(4); if !dead { st.push(F32); code.push(Op::Const(u32::from_le_bytes(x.try_into().unwrap()) as u64)); } }
                0x44 => { let x = r.bytes(8); if !dead { st.push(F64); code.push(Op::Const(u64::from_le_bytes(x.try_into().unwrap()))); } }
                0x45 | 0x50 | 0x67..=0x69 | 0x79..=0x7b | 0x8b..=0x91 | 0x99..=0x9f | 0xa7..=0xc4 => {
                    if !dead {
                        pops!(1);
                        st.push(match op {
                            0x45 | 0x50 | 0x67..=0x69 | 0xa7..=0xab | 0xbc | 0xc0 | 0xc1 => I32,
                            0x79..=0x7b | 0xac..=0xb1 | 0xbd | 0xc2..=0xc4 => I64,
                            0x8b..=0x91 | 0xb2..=0xb6 | 0xbe => F32,
                            _ => F64,
                        });
                        code.push(Op::Un(op));
                    }
                }
                0x46..=0x4f | 0x51..=0x66 | 0x6a..=0x78 | 0x7c..=0x8a | 0x92..=0x98 | 0xa0..=0xa6 => {
                    if !dead {
                        pops!(2);
                        st.push(match op { 0x46..=0x78 => I32, 0x7c..=0x8a => I64, 0x92..=0x98 => F32, _ => F64 });
                        code.push(Op::Bi(op));
                    }
                }
                0xfc => {
                    let s = r.u32();
                    match s {
                        0..=7 => { if !dead { pops!(1); st.push(if s < 4 { I32 } else { I64 }); code.push(Op::TruncSat(s as u8)); } }
                        10 => { r.u8(); r.u8(); if !dead { pops!(3); code.push(Op::MemCopy); } }
                        11 => { r.u8(); if !dead { pops!(3); code.push(Op::MemFill); } }
                        _ => panic!("unsupported 0xfc {}", s),
                    }
                }
                _ => panic!("unsupported opcode {:#x} in {}", op, name),
            }
        }
        Func { ty, nparams: np, nlocals, nresults: nr, code, tables, name }
    }
    pub fn fname(&self, f: u32) -> &str { self.names.get(&f).map(|s| s.as_str()).unwrap_or("?") }
}

/// Demangle (legacy `_ZN..E` scheme, good enough for v0 readable parts) into a::b::c.
pub fn demangle(s: &str) -> String {
    let Some(mut rest) = s.strip_prefix("_ZN") else { return s.to_string() };
    let mut out: Vec<String> = vec![];
    while let Some(c) = rest.chars().next() {
        if !c.is_ascii_digit() { break; }
        let d = rest.find(|c: char| !c.is_ascii_digit()).unwrap_or(rest.len());
        let n: usize = rest[..d].parse().unwrap();
        if rest.len() < d + n { break; }
        out.push(rest[d..d + n].to_string());
        rest = &rest[d + n..];
    }
    if out.last().map(|l| l.len() == 17 && l.starts_with('h')).unwrap_or(false) { out.pop(); }
    let mut j = out.join("::");
    for (a, b) in [("$LT$", "<"), ("$GT$", ">"), ("$u20$", " "), ("$u27$", "'"), ("$RF$", "&"), ("$C$", ","), ("$LP$", "("), ("$RP$", ")"),
        ("$u7b$", "{"), ("$u7d$", "}"), ("$u5b$", "["), ("$u5d$", "]"), ("$BP$", "*"), ("..", "::"), ("$u3b$", ";"), ("$u2b$", "+")] {
        j = j.replace(a, b);
    }
    j
}
