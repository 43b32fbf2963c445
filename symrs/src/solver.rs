//! Z3 back end: every feasibility / validity question is decided here.
#![allow(static_mut_refs, non_camel_case_types)]
use crate::expr::*;
use std::collections::HashMap;
use std::ffi::{c_char, c_int, c_uint, c_void, CStr, CString};
use std::time::Instant;

type P = *mut c_void;
#[link(name = "z3")]
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_set_param_value(c: P, k: *const c_char, v: *const c_char);
    fn Z3_mk_context_rc(c: P) -> P;
    fn Z3_inc_ref(c: P, a: P);
    fn Z3_mk_bv_sort(c: P, n: c_uint) -> P;
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_const(c: P, s: P, ty: P) -> P;
    fn Z3_mk_numeral(c: P, s: *const c_char, ty: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, ty: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_zero_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_solver_for_logic(c: P, s: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_push(c: P, s: P);
    fn Z3_solver_pop(c: P, s: P, n: c_uint);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_solver_to_string(c: P, s: P) -> *const c_char;
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: P, comp: bool, v: *mut P) -> bool;
    fn Z3_get_numeral_string(c: P, a: P) -> *const c_char;
    fn Z3_get_numeral_uint64(c: P, a: P, v: *mut u64) -> bool;
    fn Z3_set_error_handler(c: P, h: Option<extern "C" fn(P, c_int)>);
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_get_error_msg(c: P, e: c_int) -> *const c_char;
    fn Z3_get_full_version() -> *const c_char;
}

extern "C" fn on_err(c: P, e: c_int) { eprintln!("z3 error {} {}", e, unsafe { CStr::from_ptr(Z3_get_error_msg(c, e)).to_string_lossy() }); std::process::exit(70); }

pub enum Res { Sat(Vec<(u32, u128)>), Unsat, Unknown }

pub struct Solver {
    c: P,
    s: P,
    bools: Vec<P>,
    bvs: Vec<P>,
    sorts: HashMap<u8, P>,
    cache: FxMap<Vec<E>, Option<std::rc::Rc<Vec<(u32, u128)>>>>,
    pub queries: u64,
    pub cache_hits: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub time: f64,
    pub max_time: f64,
    pub dump_dir: Option<String>,
    pub dumped: u32,
    pub dump_every: u64,
}

pub fn version() -> String { unsafe { CStr::from_ptr(Z3_get_full_version()).to_string_lossy().into_owned() } }

impl Solver {
    pub fn new(timeout_ms: u32) -> Solver {
        unsafe {
            let cfg = Z3_mk_config();
            let (k, v) = (CString::new("model").unwrap(), CString::new("true").unwrap());
            Z3_set_param_value(cfg, k.as_ptr(), v.as_ptr());
            let c = Z3_mk_context_rc(cfg);
            Z3_set_error_handler(c, Some(on_err));
            let l = CString::new("QF_BV").unwrap();
            let s = Z3_mk_solver_for_logic(c, Z3_mk_string_symbol(c, l.as_ptr()));
            Z3_solver_inc_ref(c, s);
            let p = Z3_mk_params(c);
            Z3_params_inc_ref(c, p);
            let t = CString::new("rlimit").unwrap();
            Z3_params_set_uint(c, p, Z3_mk_string_symbol(c, t.as_ptr()), timeout_ms);
            Z3_solver_set_params(c, s, p);
            Solver { c, s, bools: vec![], bvs: vec![], sorts: HashMap::new(), cache: FxMap::default(), queries: 0, cache_hits: 0,
                sat: 0, unsat: 0, unknown: 0, time: 0.0, max_time: 0.0, dump_dir: None, dumped: 0, dump_every: 997 }
        }
    }

    fn sort(&mut self, w: u8) -> P {
        let c = self.c;
        *self.sorts.entry(w).or_insert_with(|| unsafe { let s = Z3_mk_bv_sort(c, w as c_uint); Z3_inc_ref(c, s); s })
    }

    fn num(&mut self, v: u128, w: u8) -> P {
        let s = self.sort(w);
        unsafe {
            if v <= u64::MAX as u128 { Z3_mk_unsigned_int64(self.c, v as u64, s) }
            else { let t = CString::new(v.to_string()).unwrap(); Z3_mk_numeral(self.c, t.as_ptr(), s) }
        }
    }

    fn ensure(&mut self, e: E) {
        let n = ar().nodes.len();
        if self.bools.len() < n { self.bools.resize(n, std::ptr::null_mut()); self.bvs.resize(n, std::ptr::null_mut()); }
        let _ = e;
    }

    fn is_boolish(n: &Node) -> bool {
        n.w == 1 && (is_cmp(n.op) || matches!(n.op, Op::And | Op::Or | Op::Xor | Op::Ite | Op::Const))
    }

    /// translate `e` (post-order, explicit stack)
    fn tr(&mut self, e: E) {
        self.ensure(e);
        let mut stack = vec![e];
        while let Some(&x) = stack.last() {
            if !self.bvs[x as usize].is_null() || !self.bools[x as usize].is_null() { stack.pop(); continue; }
            let n = node(x);
            let kids: &[E] = match n.op {
                Op::Const | Op::Var => &[],
                Op::Extract | Op::ZExt | Op::SExt => &[n.a],
                Op::Ite => &[n.a, n.b, n.c],
                _ => &[n.a, n.b],
            };
            let mut ready = true;
            for &k in kids {
                if self.bvs[k as usize].is_null() && self.bools[k as usize].is_null() { stack.push(k); ready = false; }
            }
            if !ready { continue; }
            unsafe {
                let c = self.c;
                if Self::is_boolish(&n) {
                    let r = match n.op {
                        Op::Const => if n.k != 0 { Z3_mk_true(c) } else { Z3_mk_false(c) },
                        Op::Eq => { if width(n.a) == 1 { let (a, b) = (self.b(n.a), self.b(n.b)); Z3_mk_eq(c, a, b) } else { let (a, b) = (self.v(n.a), self.v(n.b)); Z3_mk_eq(c, a, b) } }
                        Op::Ult => { let (a, b) = (self.v(n.a), self.v(n.b)); Z3_mk_bvult(c, a, b) }
                        Op::Ule => { let (a, b) = (self.v(n.a), self.v(n.b)); Z3_mk_bvule(c, a, b) }
                        Op::Slt => { let (a, b) = (self.v(n.a), self.v(n.b)); Z3_mk_bvslt(c, a, b) }
                        Op::Sle => { let (a, b) = (self.v(n.a), self.v(n.b)); Z3_mk_bvsle(c, a, b) }
                        Op::And => { let l = [self.b(n.a), self.b(n.b)]; Z3_mk_and(c, 2, l.as_ptr()) }
                        Op::Or => { let l = [self.b(n.a), self.b(n.b)]; Z3_mk_or(c, 2, l.as_ptr()) }
                        Op::Xor => { let a = self.b(n.a); if as_const(n.b) == Some(1) { Z3_mk_not(c, a) } else { let b = self.b(n.b); Z3_mk_xor(c, a, b) } }
                        Op::Ite => { let (p, a, b) = (self.b(n.a), self.b(n.b), self.b(n.c)); Z3_mk_ite(c, p, a, b) }
                        _ => unreachable!(),
                    };
                    Z3_inc_ref(c, r);
                    self.bools[x as usize] = r;
                } else {
                    let r = match n.op {
                        Op::Const => self.num(n.k, n.w),
                        Op::Var => { let nm = CString::new(format!("v{}", n.a)).unwrap(); let s = self.sort(n.w); Z3_mk_const(c, Z3_mk_string_symbol(c, nm.as_ptr()), s) }
                        Op::Ite => { let (p, a, b) = (self.b(n.a), self.v(n.b), self.v(n.c)); Z3_mk_ite(c, p, a, b) }
                        Op::Extract => { let a = self.v(n.a); Z3_mk_extract(c, n.k as c_uint + n.w as c_uint - 1, n.k as c_uint, a) }
                        Op::ZExt => { let a = self.v(n.a); Z3_mk_zero_ext(c, (n.w - width(n.a)) as c_uint, a) }
                        Op::SExt => { let a = self.v(n.a); Z3_mk_sign_ext(c, (n.w - width(n.a)) as c_uint, a) }
                        op => { let (a, b) = (self.v(n.a), self.v(n.b));
                            match op {
                                Op::Add => Z3_mk_bvadd(c, a, b), Op::Sub => Z3_mk_bvsub(c, a, b), Op::Mul => Z3_mk_bvmul(c, a, b),
                                Op::UDiv => Z3_mk_bvudiv(c, a, b), Op::SDiv => Z3_mk_bvsdiv(c, a, b),
                                Op::URem => Z3_mk_bvurem(c, a, b), Op::SRem => Z3_mk_bvsrem(c, a, b),
                                Op::And => Z3_mk_bvand(c, a, b), Op::Or => Z3_mk_bvor(c, a, b), Op::Xor => Z3_mk_bvxor(c, a, b),
                                Op::Shl => Z3_mk_bvshl(c, a, b), Op::LShr => Z3_mk_bvlshr(c, a, b), Op::AShr => Z3_mk_bvashr(c, a, b),
                                Op::Concat => Z3_mk_concat(c, a, b),
                                _ => unreachable!("{:?} w{}", op, n.w),
                            } }
                    };
                    Z3_inc_ref(c, r);
                    self.bvs[x as usize] = r;
                }
            }
            stack.pop();
        }
    }

    fn b(&mut self, e: E) -> P {
        if self.bools[e as usize].is_null() {
            unsafe {
                let one = self.num(1, 1);
                let r = Z3_mk_eq(self.c, self.bvs[e as usize], one);
                Z3_inc_ref(self.c, r);
                self.bools[e as usize] = r;
            }
        }
        self.bools[e as usize]
    }
    fn v(&mut self, e: E) -> P {
        if self.bvs[e as usize].is_null() {
            unsafe {
                // the context keeps only the last result alive by itself
                let one = self.num(1, 1);
                Z3_inc_ref(self.c, one);
                let zero = self.num(0, 1);
                Z3_inc_ref(self.c, zero);
                let r = Z3_mk_ite(self.c, self.bools[e as usize], one, zero);
                Z3_inc_ref(self.c, r);
                self.bvs[e as usize] = r;
            }
        }
        self.bvs[e as usize]
    }

    /// Is `cs /\ q` satisfiable? Only the constraints (transitively) sharing
    /// variables with q are sent; the caller guarantees `cs` is satisfiable.
    pub fn check(&mut self, cs: &[E], q: E) -> Res {
        if let Some(k) = as_const(q) { if k == 0 { return Res::Unsat; } }
        // independence slicing
        let mut want: Vec<u32> = vars_of(q).to_vec();
        let vs: Vec<_> = cs.iter().map(|&c| vars_of(c)).collect();
        let mut used = vec![false; cs.len()];
        let mut key: Vec<E> = vec![];
        loop {
            let mut changed = false;
            for i in 0..cs.len() {
                if used[i] { continue; }
                if vs[i].iter().any(|v| want.binary_search(v).is_ok()) {
                    used[i] = true;
                    key.push(cs[i]);
                    for &v in vs[i].iter() { if let Err(p) = want.binary_search(&v) { want.insert(p, v); changed = true; } }
                }
            }
            if !changed { break; }
        }
        key.sort();
        key.dedup();
        key.push(q);
        if let Some(r) = self.cache.get(&key) {
            self.cache_hits += 1;
            return match r { Some(m) => Res::Sat((**m).clone()), None => Res::Unsat };
        }
        let t0 = Instant::now();
        for &k in &key { self.tr(k); }
        let r;
        unsafe {
            let c = self.c;
            Z3_solver_push(c, self.s);
            for &k in &key { let b = self.b(k); Z3_solver_assert(c, self.s, b); }
            let code = Z3_solver_check(c, self.s);
            self.queries += 1;
            if let Some(d) = &self.dump_dir {
                if (self.dumped < 3 && self.queries % self.dump_every == 1 % self.dump_every) || (code == 0 && self.dumped < 6) {
                    let txt = CStr::from_ptr(Z3_solver_to_string(c, self.s)).to_string_lossy().into_owned();
                    let exp = match code { 1 => "sat", -1 => "unsat", _ => "unknown" };
                    let _ = std::fs::write(format!("{}/q{}_{}.smt2", d, std::process::id(), self.queries),
                        format!("; expect {}\n(set-logic QF_BV)\n{}\n(check-sat)\n", exp, txt));
                    self.dumped += 1;
                }
            }
            r = match code {
                1 => {
                    self.sat += 1;
                    let m = Z3_solver_get_model(c, self.s);
                    Z3_model_inc_ref(c, m);
                    let mut out = vec![];
                    // collect variable nodes
                    let mut all: Vec<u32> = want.clone();
                    all.sort();
                    for &idx in all.iter() {
                        let e = var_expr(idx);
                        self.ensure(e);
                        self.tr(e);
                        let t = self.v(e);
                        let mut val: P = std::ptr::null_mut();
                        if Z3_model_eval(c, m, t, true, &mut val) {
                            let mut u = 0u64;
                            let x = if Z3_get_numeral_uint64(c, val, &mut u) { u as u128 } else {
                                CStr::from_ptr(Z3_get_numeral_string(c, val)).to_str().unwrap().parse::<u128>().unwrap() };
                            out.push((idx, x));
                        }
                    }
                    Z3_model_dec_ref(c, m);
                    // the solver's model must satisfy the very expressions that were translated
                    let mut full = vec![0u128; ar().var_w.len()];
                    for &(i, x) in &out { full[i as usize] = x; }
                    for &k in &key { if eval(k, &full) == 0 { eprintln!("model does not satisfy the query: {}", show(k, 6)); std::process::exit(70); } }
                    Res::Sat(out)
                }
                -1 => { self.unsat += 1; Res::Unsat }
                _ => { self.unknown += 1; Res::Unknown }
            };
            Z3_solver_pop(c, self.s, 1);
        }
        let dt = t0.elapsed().as_secs_f64();
        self.time += dt;
        if dt > self.max_time { self.max_time = dt; }
        match &r {
            Res::Sat(m) => { self.cache.insert(key, Some(std::rc::Rc::new(m.clone()))); }
            Res::Unsat => { self.cache.insert(key, None); }
            _ => (),
        }
        r
    }
}

