//! symrs: path-exhaustive symbolic execution of Rust code compiled to LLVM IR.
//! Every branch on a symbolic condition and every assertion is decided by Z3.
mod exec;
mod expr;
mod ir;
mod mem;
mod solver;

use exec::*;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::fmt::Write as _;
use std::sync::atomic::{AtomicU32, Ordering::SeqCst};
use std::time::Instant;

extern "C" {
    fn fork() -> i32;
    fn waitpid(pid: i32, st: *mut i32, opt: i32) -> i32;
    fn mmap(a: *mut u8, l: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn _exit(c: i32) -> !;
}
fn shared(n: usize) -> *mut u8 {
    let p = unsafe { mmap(std::ptr::null_mut(), n, 3, 0x21, -1, 0) };
    assert!(p as isize != -1);
    p
}

struct Shared { active: AtomicU32, stop: AtomicU32, crashed: AtomicU32, procs: AtomicU32, viols: AtomicU32, timeout: AtomicU32 }

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), c if (c as u32) < 32 => { let _ = write!(o, "\\u{:04x}", c as u32); } c => o.push(c) }
    }
    o.push('"');
    o
}
fn inputs_js(v: &[(String, u8, u128)]) -> String { format!("[{}]", v.iter().map(|(n, w, x)| format!("[{},{},\"{}\"]", js(n), w, x)).collect::<Vec<_>>().join(",")) }
fn trace_js(v: &[(u32, u64)]) -> String { format!("[{}]", v.iter().map(|(t, x)| format!("[{},\"{}\"]", t, x)).collect::<Vec<_>>().join(",")) }

fn result_js(e: &Exec, leftover: usize, t0: Instant) -> String {
    let s = &e.st;
    let mut o = String::from("{");
    for (k, v) in [("paths", s.paths), ("assumed", s.assumed), ("forks", s.forks), ("insts", s.insts), ("asserts", s.asserts), ("asserts_sym", s.asserts_sym), ("asserts_const", s.asserts_const),
        ("max_cs", s.max_cs), ("max_steps", s.max_steps), ("concretised", s.concretised), ("mux", s.mux),
        ("queries", e.sol.queries), ("cache_hits", e.sol.cache_hits), ("sat", e.sol.sat), ("unsat", e.sol.unsat), ("unknown", e.sol.unknown), ("leftover", leftover as u64)] {
        let _ = write!(o, "\"{}\":{},", k, v);
    }
    let _ = write!(o, "\"solver_time\":{:.3},\"max_query_time\":{:.4},\"wall\":{:.3},", e.sol.time, e.sol.max_time, t0.elapsed().as_secs_f64());
    let vs: Vec<String> = e.viols.iter().map(|v| format!("{{\"label\":{},\"detail\":{},\"inputs\":{},\"trace\":{},\"stack\":[{}]}}", js(&v.label), js(&v.detail), inputs_js(&v.inputs), trace_js(&v.trace),
        v.stack.iter().map(|s| js(s)).collect::<Vec<_>>().join(","))).collect();
    let _ = write!(o, "\"violations\":[{}],", vs.join(","));
    let _ = write!(o, "\"vcount\":{{{}}},", e.vcount.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect::<Vec<_>>().join(","));
    let ss: Vec<String> = e.samples.iter().map(|(i, t)| format!("{{\"inputs\":{},\"trace\":{}}}", inputs_js(i), trace_js(t))).collect();
    let _ = write!(o, "\"samples\":[{}],", ss.join(","));
    let _ = write!(o, "\"errors\":{{{}}},", e.errors.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect::<Vec<_>>().join(","));
    let _ = write!(o, "\"covers\":{{{}}}", e.covers.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect::<Vec<_>>().join(","));
    o.push('}');
    o
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let mut opt: HashMap<String, String> = HashMap::new();
    let mut env = HashMap::new();
    let mut i = 1;
    while i < a.len() {
        let k = a[i].trim_start_matches("--").to_string();
        let v = a.get(i + 1).cloned().unwrap_or_default();
        if k == "env" { let (x, y) = v.split_once('=').unwrap(); env.insert(x.to_string(), y.to_string()); } else { opt.insert(k, v); }
        i += 2;
    }
    let num = |k: &str, d: u64| opt.get(k).map(|x| x.parse::<u64>().unwrap()).unwrap_or(d);
    let t0 = Instant::now();
    let ll = opt["ll"].clone();
    let entry = opt["entry"].clone();
    let out = opt["out"].clone();
    let jobs = num("jobs", 8) as u32;
    let limit = num("time-limit", 600) as f64;
    let max_viol = num("max-viol", 200) as u32;
    let profile = num("profile", 0) != 0;
    let _ = std::fs::create_dir_all(&out);
    let m = ir::Module::load(&ll);
    let gi = mem::GIndex::new(&m);
    let nmeta = m.meta_count() + 1;
    let nf = m.funcs.len();
    let sh: &'static Shared = unsafe { &*(shared(4096) as *const Shared) };
    let cov: &'static mut [u8] = unsafe { std::slice::from_raw_parts_mut(shared(nmeta.max(1)), nmeta) };
    let fcov: &'static mut [u8] = unsafe { std::slice::from_raw_parts_mut(shared(nf.max(1)), nf) };
    sh.active.store(1, SeqCst);
    let load_t = t0.elapsed().as_secs_f64();
    let mut e = Exec {
        m, gi, sol: solver::Solver::new(num("rlimit", 100_000_000) as u32), st: Stats::default(), work: vec![], viols: vec![], vcount: BTreeMap::new(), errors: BTreeMap::new(), cov, fcov,
        covers: BTreeMap::new(), samples: vec![], env, max_steps: num("max-steps", 20_000_000), errno_addr: 0, known_labels: vec![], sample_every: 1, max_samples: num("samples", 4) as usize,
        preempt: num("preempt", 2) as u32, icall: Default::default(), branch_sites: Default::default(), profile,
    };
    e.sol.dump_every = num("dump-every", 499);
    if let Some(d) = opt.get("dump") { let _ = std::fs::create_dir_all(d); e.sol.dump_dir = Some(d.clone()); }
    let st = e.entry_state(&entry);
    e.work.push(st);
    let mut top = true;
    let mut kids: Vec<i32> = vec![];
    let mut pt0 = Instant::now();

    fn split(e: &mut Exec, sh: &Shared, jobs: u32, kids: &mut Vec<i32>, top: &mut bool, pt0: &mut Instant, need: usize) -> bool {
        // returns true in the child
        if e.work.len() < need { return false; }
        let act = sh.active.load(SeqCst);
        if act >= jobs || sh.active.compare_exchange(act, act + 1, SeqCst, SeqCst).is_err() { return false; }
        let pid = unsafe { fork() };
        if pid < 0 { sh.active.fetch_sub(1, SeqCst); return false; }
        let n = (e.work.len() + 1) / 2;
        if pid == 0 {
            e.work.truncate(n); // the oldest (shallowest) half
            e.st = Stats::default();
            e.viols.clear(); e.vcount.clear(); e.errors.clear(); e.covers.clear(); e.samples.clear(); e.branch_sites.clear();
            e.sample_every = 1;
            let s = &mut e.sol;
            s.queries = 0; s.cache_hits = 0; s.sat = 0; s.unsat = 0; s.unknown = 0; s.time = 0.0; s.max_time = 0.0; s.dumped = 0;
            kids.clear();
            *top = false;
            *pt0 = Instant::now();
            sh.procs.fetch_add(1, SeqCst);
            true
        } else {
            e.work.drain(..n);
            kids.push(pid);
            false
        }
    }

    loop {
        if sh.stop.load(SeqCst) != 0 { break; }
        if t0.elapsed().as_secs_f64() > limit { sh.timeout.store(1, SeqCst); sh.stop.store(1, SeqCst); break; }
        split(&mut e, sh, jobs, &mut kids, &mut top, &mut pt0, 2);
        let st = match e.work.pop() { Some(s) => s, None => break };
        let nv = e.viols.len();
        let left;
        {
            let (kids, top, pt0) = (&mut kids, &mut top, &mut pt0);
            let mut fin = true;
            let f = &mut fin;
            e.run(st, &mut |e| {
                if sh.stop.load(SeqCst) != 0 { *f = false; return true; }
                if t0.elapsed().as_secs_f64() > limit { sh.timeout.store(1, SeqCst); sh.stop.store(1, SeqCst); *f = false; return true; }
                // in the child: abandon this copy of the state, the parent goes on with it
                split(e, sh, jobs, kids, top, pt0, 1)
            });
            left = !fin;
        }
        if left { let dm = e.entry_dummy(); e.work.push(dm); }
        if e.viols.len() > nv {
            let n = (e.viols.len() - nv) as u32;
            if sh.viols.fetch_add(n, SeqCst) + n >= max_viol { sh.stop.store(1, SeqCst); }
        }
    }
    let leftover = e.work.len();
    let r = result_js(&e, leftover, pt0);
    std::fs::write(format!("{}/p{}.json", out, std::process::id()), r).expect("write result");
    if profile {
        let mut v: Vec<_> = e.branch_sites.iter().collect();
        v.sort_by_key(|x| std::cmp::Reverse(*x.1));
        for ((f, b, p), n) in v.into_iter().take(25) {
            let func = e.m.func(*f);
            let loc = e.m.dbg_loc(func.blocks[*b as usize].insts[*p as usize].1);
            eprintln!("{:6} {} {:?}", n, func.pretty, loc);
        }
    }
    sh.active.fetch_sub(1, SeqCst);
    for k in &kids {
        let mut s = 0i32;
        unsafe { waitpid(*k, &mut s, 0) };
        if s != 0 { sh.crashed.fetch_add(1, SeqCst); }
    }
    if !top { unsafe { _exit(0) } }

    // coverage: source lines of /repo (and the functions they belong to)
    let root = opt.get("src-root").cloned().unwrap_or_else(|| "/repo/".into());
    let mut lines: BTreeMap<String, BTreeSet<u32>> = BTreeMap::new();
    let mut fns: BTreeSet<String> = BTreeSet::new();
    for id in 0..e.cov.len() {
        if e.cov[id] == 0 { continue; }
        if let Some((f, l)) = e.m.dbg_loc(id as u32) {
            if let Some(r) = f.strip_prefix(&root) {
                lines.entry(r.to_string()).or_default().insert(l);
                if let Some(n) = e.m.dbg_fn(id as u32) { fns.insert(format!("{}::{}", r, n)); }
            }
        }
    }
    let irf: Vec<String> = (0..nf).filter(|&i| e.fcov[i] != 0).map(|i| js(&e.m.funcs[i].pretty)).collect();
    let mut o = String::from("{");
    let _ = write!(o, "\"entry\":{},\"wall\":{:.3},\"load\":{:.3},\"timeout\":{},\"stopped\":{},\"crashed\":{},\"procs\":{},\"z3\":{},", js(&entry), t0.elapsed().as_secs_f64(), load_t,
        sh.timeout.load(SeqCst), sh.stop.load(SeqCst), sh.crashed.load(SeqCst), 1 + sh.procs.load(SeqCst), js(&solver::version()));
    let _ = write!(o, "\"lines\":{{{}}},", lines.iter().map(|(f, l)| format!("{}:[{}]", js(f), l.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","))).collect::<Vec<_>>().join(","));
    let _ = write!(o, "\"src_functions\":[{}],\"ir_functions\":[{}]}}", fns.iter().map(|x| js(x)).collect::<Vec<_>>().join(","), irf.join(","));
    std::fs::write(format!("{}/meta.json", out), o).expect("write meta");
}
