mod exec;
mod expr;
mod solver;
mod wasm;
use exec::*;
use std::collections::{BTreeMap, HashSet, VecDeque};
use std::sync::{Arc, Condvar, Mutex};
use std::time::{Duration, Instant};

fn hex(b: &[u8]) -> String { b.iter().map(|x| format!("{:02x}", x)).collect() }
fn unhex(s: &str) -> Vec<u8> { (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect() }
fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c { '"' => o += "\\\"", '\\' => o += "\\\\", c if (c as u32) < 32 => o += &format!("\\u{:04x}", c as u32), c => o.push(c) }
    }
    o + "\""
}

struct Shared {
    queue: VecDeque<Task>,
    /// tasks which take a branch in a direction not taken before: these go first
    fresh: Vec<Task>,
    turns: HashSet<u64>,
    active: usize,
    stop: bool,
}
#[derive(Default)]
struct Tot {
    paths: u64,
    steps: u64,
    items: u64,
    max_items: usize,
    ends: BTreeMap<String, u64>,
    unknown: u64,
    engine_errors: Vec<String>,
    viols: Vec<Viol>,
    samples: Vec<(Vec<u8>, String, u64)>,
    first_viol: Option<Instant>,
}

#[allow(dead_code)]
fn unused() {}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let opt = |k: &str| a.iter().position(|x| x == k).map(|i| a[i + 1].clone());
    let num = |k: &str, d: u64| opt(k).map(|s| s.parse().unwrap()).unwrap_or(d);
    if a.len() < 3 { eprintln!("usage: wsym run|one|exports mod.wasm --entry h [--out f] [--time s] [--threads n] [--fuel n] [--alloc n] [--selfcheck 1]"); std::process::exit(2); }
    let img = Arc::new(Image::load(&std::fs::read(&a[2]).unwrap()));
    if a[1] == "exports" {
        let mut v: Vec<_> = img.m.exports.iter().filter(|e| e.1 .0 == 0).map(|e| e.0.clone()).collect();
        v.sort();
        for e in v { println!("{}", e); }
        return;
    }
    let entry_name = opt("--entry").expect("--entry");
    let entry = match img.m.exports.get(&entry_name) { Some(&(0, f)) => f, _ => { eprintln!("no export {}", entry_name); std::process::exit(2); } };
    let threads = num("--threads", 8) as usize;
    let time = num("--time", 600);
    let fuel = num("--fuel", 50_000_000);
    let alloc = num("--alloc", 1 << 20);
    let selfcheck = num("--selfcheck", 0) == 1;
    let tmo = num("--solver-ms", 20000) as u32;
    let nsample = num("--samples", 200) as usize;
    let params: Vec<u32> = opt("--params").map(|s| s.split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect()).unwrap_or_default();
    let list = |k: &str| -> Vec<String> { opt(k).map(|s| s.split('|').filter(|x| !x.is_empty()).map(|x| x.to_string()).collect()).unwrap_or_default() };
    // checks to decide, and violations already known (recorded, but the exploration goes on)
    let (tags, known) = (list("--tags"), list("--known"));
    if a[1] == "one" {
        let mut m = Mach::new(img.clone(), Limits { fuel, deadline: Instant::now() + Duration::from_secs(86400), alloc, selfcheck, params: params.clone(), tags: tags.clone() }, tmo);
        m.trace_labels = true;
        let input = unhex(&opt("--input").unwrap_or_default());
        let o = m.run(entry, Task { model: input, bound: 0, check_from: 0, excl: vec![], prefix_hash: 0xcbf29ce484222325, turn: 0 });
        println!("end {:?} steps {} items {} children {} log {:016x}", o.end, o.steps, o.items, o.children.len(), o.log);
        for v in &o.viols { println!("VIOL {} {} {}\n  {}", v.kind, v.label, hex(&v.input), v.trace.join("\n  ")); }
        if a.iter().any(|x| x == "--items") {
            for it in &m.items {
                println!("{:?} {} @ {}:{}", match it.kind { Kind::Branch => "br", Kind::Assume => "as", _ => "conc" }, m.ar.show(it.expr, 8),
                    wasm::demangle(img.m.fname((it.site >> 32) as u32)), it.site as u32);
            }
        }
        return;
    }
    let sh = Arc::new((Mutex::new(Shared { queue: VecDeque::from([Task { model: vec![], bound: 0, check_from: 0, excl: vec![], prefix_hash: 0xcbf29ce484222325, turn: 0 }]), fresh: vec![], turns: HashSet::new(), active: 0, stop: false }), Condvar::new()));
    let tot = Arc::new(Mutex::new(Tot::default()));
    let t0 = Instant::now();
    let deadline = t0 + Duration::from_secs(time);
    let timed_out = Arc::new(std::sync::atomic::AtomicBool::new(false));
    let mut hs = vec![];
    for thread in 0..threads {
        let (img, sh, tot, timed_out, params, tags, known) = (img.clone(), sh.clone(), tot.clone(), timed_out.clone(), params.clone(), tags.clone(), known.clone());
        hs.push(std::thread::Builder::new().stack_size(512 << 20).spawn(move || {
            let mut m = Mach::new(img.clone(), Limits { fuel, deadline: deadline + Duration::from_secs(5), alloc, selfcheck, params: params.clone(), tags: tags.clone() }, tmo);
            loop {
                let t = {
                    let mut g = sh.0.lock().unwrap();
                    loop {
                        if g.stop { break None; }
                        // depth first, except that one thread takes the oldest tasks, so that an exploration
                        // which does not finish has seen more than one corner
                        let oldest = thread == 7 && g.queue.len() < 300_000;
                        let t = g.fresh.pop();
                        let t = if t.is_some() { t } else if oldest { g.queue.pop_front() } else { g.queue.pop_back() };
                        if let Some(t) = t { g.active += 1; break Some(t); }
                        if g.active == 0 { g.stop = true; sh.1.notify_all(); break None; }
                        g = sh.1.wait(g).unwrap();
                    }
                };
                let Some(t) = t else { break };
                let o = match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| m.run(entry, t))) {
                    Ok(o) => o,
                    Err(e) => { let mut g = sh.0.lock().unwrap(); g.stop = true; sh.1.notify_all(); drop(g); std::panic::resume_unwind(e) }
                };
                let now = Instant::now();
                let mut halt = now > deadline;
                if halt { timed_out.store(true, std::sync::atomic::Ordering::SeqCst); }
                {
                    let mut g = tot.lock().unwrap();
                    g.paths += 1;
                    g.steps += o.steps;
                    g.items += o.items as u64;
                    g.max_items = g.max_items.max(o.items);
                    g.unknown += o.unknown;
                    let e = match &o.end { End::Ok => "ok".to_string(), End::Assume => "assume".into(), End::Trap(k, _) => format!("trap:{}", k), End::Check(l) => format!("check:{}", l), End::Engine(e) if e == exec::LATE => "late".into(), End::Engine(e) => { if g.engine_errors.len() < 10 { g.engine_errors.push(e.clone()); } "engine".into() } };
                    // a path that could not be followed to its end; the others still can
                    if let End::Engine(_) = &o.end { timed_out.store(true, std::sync::atomic::Ordering::SeqCst); }
                    *g.ends.entry(e.clone()).or_default() += 1;
                    let p = g.paths;
                    // the first ones, which take every branch as early as possible, and an even choice of the others
                    if matches!(o.end, End::Ok) || e == "trap:panic" {
                        if g.samples.len() < nsample { g.samples.push((m.input.clone(), e, o.log)); }
                        else if nsample > 1 {
                            let h = p.wrapping_mul(0x9e37_79b9_7f4a_7c15);
                            let at = nsample / 2 + ((h ^ h >> 29).wrapping_mul(0xbf58_476d_1ce4_e5b9) >> 16) as usize % (p as usize - nsample / 2);
                            if at < nsample { g.samples[at] = (m.input.clone(), e, o.log); }
                        }
                    }
                    for v in o.viols {
                        if g.first_viol.is_none() && !known.contains(&v.label) { g.first_viol = Some(now); }
                        let same = g.viols.iter().filter(|x| x.label == v.label).count();
                        if same < 3 && g.viols.len() < 40 { g.viols.push(v); }
                    }
                    if let Some(f) = g.first_viol { if now.duration_since(f) > Duration::from_secs(15) { halt = true; timed_out.store(true, std::sync::atomic::Ordering::SeqCst); } }
                }
                let mut g = sh.0.lock().unwrap();
                for t in o.children {
                    if g.turns.insert(t.turn) { g.fresh.push(t) } else { g.queue.push_back(t) }
                }
                g.active -= 1;
                if halt { g.stop = true; }
                sh.1.notify_all();
            }
            (m.sol.stats, m.entered, m.covers, m.checks, m.fork_sites, m.selfchecked, m.conc_points)
        }).unwrap());
    }
    let progress = num("--progress", 0) == 1;
    if progress {
        let (sh, tot) = (sh.clone(), tot.clone());
        std::thread::spawn(move || loop {
            std::thread::sleep(Duration::from_secs(5));
            let q = { let g = sh.0.lock().unwrap(); g.queue.len() + g.fresh.len() };
            let g = tot.lock().unwrap();
            eprintln!("paths {} queue {} viols {} ends {:?}", g.paths, q, g.viols.len(), g.ends);
        });
    }
    let mut st = solver::Stats::default();
    let mut entered = vec![false; img.m.func_types.len()];
    let mut covers: BTreeMap<String, u64> = BTreeMap::new();
    let mut checks: BTreeMap<String, (u64, u64)> = BTreeMap::new();
    let mut sc = 0;
    let mut conc = 0;
    let mut sites: std::collections::HashMap<u64, u64> = Default::default();
    let mut died = false;
    for h in hs {
        let m = match h.join() { Ok(m) => m, Err(_) => { died = true; continue } };
        let s = m.0;
        st.z3_queries += s.z3_queries; st.z3_sat += s.z3_sat; st.z3_unsat += s.z3_unsat; st.unknown += s.unknown;
        st.cache_hits += s.cache_hits; st.model_hits += s.model_hits; st.byte_dom += s.byte_dom; st.confirmed += s.confirmed; st.solver_us += s.solver_us; st.max_us = st.max_us.max(s.max_us);
        for (i, e) in m.1.iter().enumerate() { entered[i] |= e; }
        for (k, v) in &m.2 { *covers.entry(k.clone()).or_default() += v; }
        for (k, v) in &m.3 { let c = checks.entry(k.clone()).or_default(); c.0 += v.0; c.1 += v.1; }
        for (k, v) in &m.4 { *sites.entry(*k).or_default() += v; }
        sc += m.5;
        conc += m.6;
    }
    let g = tot.lock().unwrap();
    let left = { let g = sh.0.lock().unwrap(); g.queue.len() + g.fresh.len() };
    let exhaustive = left == 0 && !timed_out.load(std::sync::atomic::Ordering::SeqCst) && g.unknown == 0 && !died;
    let mut fns: Vec<String> = entered.iter().enumerate().filter(|x| *x.1).map(|x| wasm::demangle(img.m.fname(x.0 as u32))).collect();
    fns.sort();
    fns.dedup();
    let mut o = String::from("{\n");
    o += &format!("\"entry\":{},\"exhaustive\":{},\"wall_s\":{:.3},\"paths\":{},\"steps\":{},\"path_items\":{},\"max_items\":{},\"frontier_left\":{},\"unknown\":{},\"died\":{},\n",
        js(&entry_name), exhaustive, t0.elapsed().as_secs_f64(), g.paths, g.steps, g.items, g.max_items, left, g.unknown, died);
    o += &format!("\"solver\":{{\"z3_queries\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"cache_hits\":{},\"model_hits\":{},\"byte_domain\":{},\"byte_domain_confirmed\":{},\"solver_s\":{:.3},\"max_query_s\":{:.3}}},\n",
        st.z3_queries, st.z3_sat, st.z3_unsat, st.unknown, st.cache_hits, st.model_hits, st.byte_dom, st.confirmed, st.solver_us as f64 / 1e6, st.max_us as f64 / 1e6);
    o += &format!("\"selfchecked\":{},\"concretizations\":{},\n", sc, conc);
    o += &format!("\"ends\":{{{}}},\n", g.ends.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect::<Vec<_>>().join(","));
    o += &format!("\"covers\":{{{}}},\n", covers.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect::<Vec<_>>().join(","));
    o += &format!("\"checks\":{{{}}},\n", checks.iter().map(|(k, v)| format!("{}:{{\"evaluated\":{},\"symbolic\":{}}}", js(k), v.0, v.1)).collect::<Vec<_>>().join(","));
    o += &format!("\"engine_errors\":[{}],\n", g.engine_errors.iter().map(|e| js(e)).collect::<Vec<_>>().join(","));
    o += &format!("\"violations\":[{}],\n", g.viols.iter().map(|v| format!("{{\"label\":{},\"kind\":{},\"input\":\"{}\",\"trace\":[{}]}}", js(&v.label), js(&v.kind), hex(&v.input),
        v.trace.iter().take(12).map(|t| js(t)).collect::<Vec<_>>().join(","))).collect::<Vec<_>>().join(",\n"));
    o += &format!("\"samples\":[{}],\n", g.samples.iter().map(|s| format!("{{\"input\":\"{}\",\"end\":{},\"log\":\"{:016x}\"}}", hex(&s.0), js(&s.1), s.2)).collect::<Vec<_>>().join(",\n"));
    let mut sv: Vec<_> = sites.into_iter().collect();
    sv.sort_by_key(|x| std::cmp::Reverse(x.1));
    o += &format!("\"fork_sites\":[{}],\n", sv.iter().take(15).map(|(k, v)| format!("[{},{},{}]", js(&wasm::demangle(img.m.fname((k >> 32) as u32))), *k as u32, v)).collect::<Vec<_>>().join(","));
    o += &format!("\"functions\":[{}]\n}}\n", fns.iter().map(|e| js(e)).collect::<Vec<_>>().join(","));
    match opt("--out") { Some(p) => std::fs::write(p, o).unwrap(), None => println!("{}", o) }
    std::process::exit(0);
}
