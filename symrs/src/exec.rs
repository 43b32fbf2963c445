//! Symbolic executor: path-exhaustive exploration with solver-decided branches.
use crate::expr::{self, *};
use crate::ir::*;
use crate::mem::*;
use crate::solver::*;
use std::collections::{BTreeMap, HashMap};
use std::rc::Rc;

#[derive(Clone)]
pub struct Frame {
    pub f: Rc<Func>,
    pub fid: u32,
    pub blk: u32,
    pub pc: u32,
    pub regs: Vec<V>,
    pub sp: usize,
    pub dst: Option<u32>,
    pub inv: Option<(u32, u32)>,
}

#[derive(Clone)]
pub struct OpenFile { pub data: Rc<Vec<u8>>, pub pos: usize, pub open: bool, pub flags: u64 }

#[derive(Clone)]
pub struct Thread { pub frames: Vec<Frame>, pub done: bool, pub wait: Option<u64>, pub timed: bool, pub unwinding: V, pub stack: PVec }

#[derive(Clone)]
pub struct State {
    pub frames: Vec<Frame>,
    pub mem: Mem,
    pub cs: Vec<E>,
    pub model: Rc<Vec<u128>>,
    pub known: Rc<FxMap<E, u128>>,
    pub vars: Vec<(u32, Rc<str>)>,
    pub trace: Vec<(u32, V)>,
    pub covers: Vec<Rc<str>>,
    pub files: Vec<OpenFile>,
    pub steps: u64,
    pub forks: u32,
    pub unwinding: V,
    // threads: `cur` runs in frames/mem.stack; others are parked here
    pub cur: usize,
    pub threads: Vec<Option<Thread>>,
    pub switches: u32,
}

pub enum End { Done, Assumed, Violation, Killed }

pub struct Violation { pub label: String, pub inputs: Vec<(String, u8, u128)>, pub trace: Vec<(u32, u64)>, pub stack: Vec<String>, pub detail: String }

#[derive(Default)]
pub struct Stats {
    pub paths: u64, pub assumed: u64, pub forks: u64, pub insts: u64, pub asserts: u64, pub asserts_sym: u64, pub asserts_const: u64,
    pub max_cs: u64, pub max_steps: u64, pub concretised: u64, pub mux: u64, pub vacuous: u64,
}

pub struct Exec {
    pub m: Module,
    pub gi: GIndex,
    pub sol: Solver,
    pub st: Stats,
    pub work: Vec<State>,
    pub viols: Vec<Violation>,
    pub vcount: BTreeMap<String, u64>,
    pub errors: BTreeMap<String, u64>,
    pub cov: &'static mut [u8],
    pub fcov: &'static mut [u8],
    pub covers: BTreeMap<String, u64>,
    pub samples: Vec<(Vec<(String, u8, u128)>, Vec<(u32, u64)>)>,
    pub env: HashMap<String, String>,
    pub max_steps: u64,
    pub errno_addr: u64,
    pub known_labels: Vec<String>,
    pub sample_every: u64,
    pub max_samples: usize,
    pub preempt: u32,
    pub icall: FxMap<u64, u32>,
    pub branch_sites: FxMap<(u32, u32, u32), u64>,
    pub profile: bool,
}

type R<T> = Result<T, Stop>;
pub enum Stop { Fork, End(End), Err(String) }
/// descriptors below this one belong to the process
const FD0: u64 = 3;
fn err<T>(s: impl Into<String>) -> R<T> { Err(Stop::Err(s.into())) }

#[inline]
fn m64(w: u32) -> u64 { if w >= 64 { u64::MAX } else { (1u64 << w) - 1 } }
#[inline]
fn s64(x: u64, w: u32) -> i64 { let s = 64 - w; ((x << s) as i64) >> s }
pub fn ex(v: &V, w: u32) -> E { match v { V::I(x) => konst(*x as u128, w as u8), V::S(e) => *e, V::A(_) => panic!("aggregate as scalar") } }

impl State {
    fn add(&mut self, c: E) {
        match as_const(c) { Some(_) => return, None => () }
        self.cs.push(c);
        self.learn(c);
    }
    fn learn(&mut self, c: E) {
        let k = Rc::make_mut(&mut self.known);
        k.insert(c, 1);
        let n = node(c);
        match n.op {
            Op::Eq => if let Some(v) = as_const(n.b) { k.insert(n.a, v); },
            Op::Xor => if as_const(n.b) == Some(1) && width(c) == 1 { k.insert(n.a, 0); let m = node(n.a); if m.op == Op::And { } },
            Op::And if n.w == 1 => { let (a, b) = (n.a, n.b); self.learn(a); self.learn(b); }
            _ => (),
        }
    }
    fn set_model(&mut self, upd: &[(u32, u128)]) {
        let m = Rc::make_mut(&mut self.model);
        for &(i, v) in upd { if m.len() <= i as usize { m.resize(i as usize + 1, 0); } m[i as usize] = v; }
    }
}

impl Exec {
    pub fn entry_state(&mut self, name: &str) -> State {
        let fid = *self.m.fmap.get(name).unwrap_or_else(|| { eprintln!("no function {}", name); std::process::exit(70) });
        let mut st = State {
            frames: vec![], mem: Mem::default(), cs: vec![], model: Rc::new(vec![]), known: Rc::new(FxMap::default()), vars: vec![], trace: vec![], covers: vec![],
            files: vec![], steps: 0, forks: 0, unwinding: V::I(0), cur: 0, threads: vec![None], switches: 0,
        };
        self.errno_addr = st.mem.alloc(8, 0);
        let mut keys: Vec<_> = self.env.keys().cloned().collect();
        keys.sort();
        for k in keys {
            let s = self.env[&k].clone();
            let a = st.mem.alloc(s.len() + 1, 0);
            let (w, _, _) = st.mem.locate(a, &self.gi, &self.m).unwrap();
            st.mem.get_mut(w, &self.m).data[..s.len()].copy_from_slice(s.as_bytes());
            self.env.insert(format!("@{}", k), a.to_string());
        }
        let f = self.m.func(fid);
        st.frames.push(Frame { fid, regs: vec![V::I(0); f.nregs as usize], f, blk: 0, pc: 0, sp: 0, dst: None, inv: None });
        st
    }

    pub fn inputs_of(&self, st: &State, model: &[u128]) -> Vec<(String, u8, u128)> {
        st.vars.iter().map(|(g, n)| (n.to_string(), ar().var_w[*g as usize], model.get(*g as usize).copied().unwrap_or(0) & mask(ar().var_w[*g as usize]))).collect()
    }
    pub fn trace_of(&self, st: &State, model: &[u128]) -> Vec<(u32, u64)> {
        st.trace.iter().map(|(t, v)| (*t, match v { V::I(x) => *x, V::S(e) => eval(*e, model) as u64, _ => 0 })).collect()
    }

    fn stack_of(&self, st: &State) -> Vec<String> {
        let mut o = vec![];
        for f in st.frames.iter().rev().take(24) {
            let b = &f.f.blocks[f.blk as usize];
            let pc = (f.pc as usize).min(b.insts.len() - 1);
            let loc = self.m.dbg_loc(b.insts[pc].1).map(|(a, b)| format!("{}:{}", a, b)).unwrap_or_default();
            o.push(format!("{} {}", f.f.pretty, loc));
        }
        o
    }

    pub fn violate(&mut self, st: &State, model: &[u128], label: &str, detail: String) {
        let n = self.vcount.entry(label.to_string()).or_insert(0);
        *n += 1;
        if *n > 6 { return; }
        let v = Violation { label: label.into(), inputs: self.inputs_of(st, model), trace: self.trace_of(st, model), stack: self.stack_of(st), detail };
        self.viols.push(v);
    }
    /// placeholder counted as unexplored work when a run is interrupted
    pub fn entry_dummy(&mut self) -> State {
        State { frames: vec![], mem: Mem::default(), cs: vec![], model: Rc::new(vec![]), known: Rc::new(FxMap::default()), vars: vec![], trace: vec![], covers: vec![],
            files: vec![], steps: 0, forks: 0, unwinding: V::I(0), cur: 0, threads: vec![None], switches: 0 }
    }

    // ---- solver-backed decisions -------------------------------------------------

    fn lookup_known(&self, st: &State, e: E) -> Option<u128> {
        if let Some(k) = as_const(e) { return Some(k); }
        st.known.get(&e).copied()
    }

    /// Decide a 1-bit condition; forks when both outcomes are feasible.
    fn decide(&mut self, st: &mut State, c: E) -> R<bool> {
        if let Some(k) = self.lookup_known(st, c) { return Ok(k != 0); }
        let nc = not(c);
        if let Some(k) = self.lookup_known(st, nc) { return Ok(k == 0); }
        let v = eval(c, &st.model) != 0;
        let (taken, other) = if v { (c, nc) } else { (nc, c) };
        match self.sol.check(&st.cs, other) {
            Res::Sat(m) => {
                if self.profile { let f = st.frames.last().unwrap(); *self.branch_sites.entry((f.fid, f.blk, f.pc)).or_insert(0) += 1; }
                let mut o = st.clone();
                o.add(other);
                o.set_model(&m);
                o.forks += 1;
                self.push_state(o);
                st.add(taken);
                st.forks += 1;
            }
            Res::Unsat => { Rc::make_mut(&mut st.known).insert(c, v as u128); }
            Res::Unknown => { *self.errors.entry("solver returned unknown on a branch".into()).or_insert(0) += 1; st.add(taken); }
        }
        Ok(v)
    }

    fn push_state(&mut self, o: State) { self.st.forks += 1; self.work.push(o); }

    /// Make a value concrete, forking over every feasible value.
    fn conc(&mut self, st: &mut State, v: &V, w: u32) -> R<u64> {
        let e = match v { V::I(x) => return Ok(*x), V::S(e) => *e, _ => return err("concretise aggregate") };
        let _ = w;
        if let Some(k) = self.lookup_known(st, e) { return Ok(k as u64); }
        self.st.concretised += 1;
        let x = eval(e, &st.model);
        let k = konst(x, width(e));
        let eq = bin(Op::Eq, e, k);
        let t = self.decide(st, eq)?;
        debug_assert!(t);
        Rc::make_mut(&mut st.known).insert(e, x);
        Ok(x as u64)
    }

    // ---- operands ------------------------------------------------------------------

    #[inline]
    fn val(st: &State, o: &Opd) -> V { match o { Opd::R(r) => st.frames.last().unwrap().regs[*r as usize].clone(), Opd::K(v) => v.clone() } }

    fn set(st: &mut State, d: u32, v: V) { st.frames.last_mut().unwrap().regs[d as usize] = v; }

    fn bin_v(&mut self, st: &mut State, op: Op, w: u32, a: &V, b: &V) -> R<V> {
        if let (V::I(x), V::I(y)) = (a, b) {
            let (x, y) = (*x, *y);
            let m = m64(w);
            let r = match op {
                Op::Add => x.wrapping_add(y), Op::Sub => x.wrapping_sub(y), Op::Mul => x.wrapping_mul(y),
                Op::And => x & y, Op::Or => x | y, Op::Xor => x ^ y,
                Op::Shl => if y >= w as u64 { 0 } else { x << y },
                Op::LShr => if y >= w as u64 { 0 } else { x >> y },
                Op::AShr => if y >= w as u64 { (s64(x, w) >> 63) as u64 } else { (s64(x, w) >> y) as u64 },
                Op::UDiv | Op::URem | Op::SDiv | Op::SRem if y == 0 => return self.memfault(st, "division by zero".into()),
                Op::UDiv => x / y, Op::URem => x % y,
                Op::SDiv => s64(x, w).wrapping_div(s64(y, w)) as u64,
                Op::SRem => s64(x, w).wrapping_rem(s64(y, w)) as u64,
                _ => unreachable!(),
            };
            return Ok(V::I(r & m));
        }
        Ok(norm(bin(op, ex(a, w), ex(b, w))))
    }

    fn cmp_v(&self, p: Pred, w: u32, a: &V, b: &V) -> V {
        if let (V::I(x), V::I(y)) = (a, b) {
            let (x, y) = (*x, *y);
            let r = match p {
                Pred::Eq => x == y, Pred::Ne => x != y, Pred::Ugt => x > y, Pred::Uge => x >= y, Pred::Ult => x < y, Pred::Ule => x <= y,
                Pred::Sgt => s64(x, w) > s64(y, w), Pred::Sge => s64(x, w) >= s64(y, w), Pred::Slt => s64(x, w) < s64(y, w), Pred::Sle => s64(x, w) <= s64(y, w),
            };
            return V::I(r as u64);
        }
        let (a, b) = (ex(a, w), ex(b, w));
        norm(match p {
            Pred::Eq => bin(Op::Eq, a, b), Pred::Ne => not(bin(Op::Eq, a, b)),
            Pred::Ugt => bin(Op::Ult, b, a), Pred::Uge => bin(Op::Ule, b, a), Pred::Ult => bin(Op::Ult, a, b), Pred::Ule => bin(Op::Ule, a, b),
            Pred::Sgt => bin(Op::Slt, b, a), Pred::Sge => bin(Op::Sle, b, a), Pred::Slt => bin(Op::Slt, a, b), Pred::Sle => bin(Op::Sle, a, b),
        })
    }

    // ---- memory --------------------------------------------------------------------

    fn close(&mut self, st: &mut State, fd: u64) -> R<Option<u64>> {
        if fd < FD0 { return Ok(Some(0)); }
        match st.files.get_mut((fd - FD0) as usize) { Some(f) if f.open => { f.open = false; Ok(Some(0)) } _ => { self.set_errno(st, 9)?; Ok(None) } }
    }
    pub fn memfault<T>(&mut self, st: &State, what: String) -> R<T> {
        let m = st.model.clone();
        self.violate(st, &m, "memory-safety", what);
        Err(Stop::End(End::Violation))
    }

    /// resolve a concrete access
    #[inline]
    fn loc(&mut self, st: &State, a: u64, n: usize, wr: bool) -> R<(Where, usize)> {
        match st.mem.locate(a, &self.gi, &self.m) {
            Some((w, off, size)) if off as usize + n <= size => {
                if wr { if let Where::G(g) = w { if self.m.globals[g as usize].ro { return self.memfault(st, format!("write to constant {:#x}", a)); } } }
                Ok((w, off as usize))
            }
            Some((_, off, size)) => self.memfault(st, format!("access of {} bytes at offset {} of an object of {} bytes", n, off, size)),
            None => self.memfault(st, format!("access of {} bytes at invalid address {:#x}", n, a)),
        }
    }

    fn load_ty(&mut self, st: &mut State, a: u64, ty: &Ty) -> R<V> {
        match ty {
            Ty::Int(_) | Ty::Ptr | Ty::F32 | Ty::F64 => {
                let w = ty.bits();
                let n = ((w + 7) / 8) as usize;
                let (wh, off) = self.loc(st, a, n, false)?;
                Ok(match wh {
                    Where::S(i) => st.mem.stack.get(i).unwrap().read(off, n, w),
                    Where::H(i) => st.mem.heap.get(i).unwrap().read(off, n, w),
                    _ => st.mem.with(wh, &self.m, |o| o.read(off, n, w)),
                })
            }
            Ty::Vec(n, e) if **e == Ty::Int(1) => {
                let nb = ((*n + 7) / 8) as usize;
                let (wh, off) = self.loc(st, a, nb, false)?;
                let v = st.mem.with(wh, &self.m, |o| o.read(off, nb, *n as u32));
                let x = ex(&v, *n as u32);
                Ok(V::A(Rc::new((0..*n).map(|i| norm(extract(x, i as u8, 1))).collect())))
            }
            Ty::Vec(n, e) | Ty::Arr(n, e) => {
                let mut o = Vec::with_capacity(*n as usize);
                for i in 0..*n { o.push(self.load_ty(st, a + i * e.size(), e)?); }
                Ok(V::A(Rc::new(o)))
            }
            Ty::Struct(f, _) => {
                let mut o = Vec::with_capacity(f.len());
                for i in 0..f.len() { o.push(self.load_ty(st, a + ty.field_off(i), &f[i])?); }
                Ok(V::A(Rc::new(o)))
            }
            _ => err("load type"),
        }
    }

    fn store_ty(&mut self, st: &mut State, a: u64, ty: &Ty, v: &V) -> R<()> {
        match ty {
            Ty::Int(_) | Ty::Ptr | Ty::F32 | Ty::F64 => {
                let w = ty.bits();
                let n = ((w + 7) / 8) as usize;
                let (wh, off) = self.loc(st, a, n, true)?;
                st.mem.get_mut(wh, &self.m).write(off, n, w, v);
                Ok(())
            }
            Ty::Vec(n, e) | Ty::Arr(n, e) => {
                let vs = match v { V::A(x) => x.clone(), _ => return err("store vec") };
                for i in 0..*n { self.store_ty(st, a + i * e.size(), e, &vs[i as usize])?; }
                Ok(())
            }
            Ty::Struct(f, _) => {
                let vs = match v { V::A(x) => x.clone(), _ => return err("store struct") };
                for i in 0..f.len() { self.store_ty(st, a + ty.field_off(i), &f[i], &vs[i])?; }
                Ok(())
            }
            _ => err("store type"),
        }
    }

    /// Load through a symbolic address. Constant tables become multiplexers over the
    /// offset bits; anything else is resolved by forking over the feasible addresses.
    fn load_sym(&mut self, st: &mut State, pv: &V, ty: &Ty) -> R<V> {
        let e = match pv { V::I(a) => return self.load_ty(st, *a, ty), V::S(e) => *e, _ => return err("ptr") };
        if let Some(k) = self.lookup_known(st, e) { return self.load_ty(st, k as u64, ty); }
        if ty.is_scalar() {
            let a = eval(e, &st.model) as u64;
            let w = ty.bits();
            let n = ((w + 7) / 8) as usize;
            if let Some((wh @ Where::G(g), _, size)) = st.mem.locate(a, &self.gi, &self.m) {
                if self.m.globals[g as usize].ro && size >= n && size <= 1 << 17 {
                    let base = self.m.globals[g as usize].addr;
                    let off = bin(Op::Sub, e, konst(base as u128, 64));
                    let lim = (size - n) as u128;
                    let inb = bin(Op::Ule, off, konst(lim, 64));
                    if self.decide(st, inb)? {
                        self.st.mux += 1;
                        let (mut lo, mut hi) = range(off);
                        if hi > lim { hi = lim; }
                        if lo > hi { lo = 0; }
                        let bits = if hi == 0 { 0 } else { 128 - (hi as u128).leading_zeros() as i32 };
                        let gl = &self.m.globals[g as usize];
                        let data = &gl.data;
                        let r = mux(off, data, n, w as u8, 0, bits - 1, lo as usize, hi as usize);
                        let _ = wh;
                        return Ok(norm(r.unwrap()));
                    }
                }
            }
        }
        let a = self.conc(st, pv, 64)?;
        self.load_ty(st, a, ty)
    }

    pub fn read_cstr(&mut self, st: &mut State, mut a: u64) -> R<String> {
        let mut s = vec![];
        loop {
            match self.load_ty(st, a, &Ty::Int(8))? { V::I(0) => break, V::I(b) => s.push(b as u8), _ => return err("symbolic C string") }
            a += 1;
        }
        Ok(String::from_utf8_lossy(&s).into_owned())
    }
    pub fn read_conc(&mut self, st: &mut State, a: u64, n: usize) -> R<Vec<u8>> {
        if n == 0 { return Ok(vec![]); }
        let (wh, off) = self.loc(st, a, n, false)?;
        if st.mem.with(wh, &self.m, |o| o.is_sym(off, n)) { return err("symbolic bytes where concrete needed"); }
        Ok(st.mem.with(wh, &self.m, |o| o.data[off..off + n].to_vec()))
    }
    fn write_conc(&mut self, st: &mut State, a: u64, b: &[u8]) -> R<()> {
        if b.is_empty() { return Ok(()); }
        let (wh, off) = self.loc(st, a, b.len(), true)?;
        let o = st.mem.get_mut(wh, &self.m);
        o.data[off..off + b.len()].copy_from_slice(b);
        if let Some(s) = &mut o.sym { for q in &mut s[off..off + b.len()] { *q = 0; } }
        Ok(())
    }

    fn memcpy(&mut self, st: &mut State, d: u64, s: u64, n: usize) -> R<()> {
        if n == 0 { return Ok(()); }
        let (sw, so) = self.loc(st, s, n, false)?;
        let (dw, dof) = self.loc(st, d, n, true)?;
        let (data, sym) = st.mem.with(sw, &self.m, |o| (o.data[so..so + n].to_vec(), if o.is_sym(so, n) { Some(o.sym.as_ref().unwrap()[so..so + n].to_vec()) } else { None }));
        let o = st.mem.get_mut(dw, &self.m);
        o.data[dof..dof + n].copy_from_slice(&data);
        match sym {
            Some(s) => { let len = o.data.len(); o.sym.get_or_insert_with(|| vec![0; len])[dof..dof + n].copy_from_slice(&s); }
            None => if let Some(x) = &mut o.sym { for q in &mut x[dof..dof + n] { *q = 0; } }
        }
        Ok(())
    }

    fn memcmp(&mut self, st: &mut State, a: u64, b: u64, n: usize) -> R<V> {
        if n == 0 { return Ok(V::I(0)); }
        let (aw, ao) = self.loc(st, a, n, false)?;
        let (bw, bo) = self.loc(st, b, n, false)?;
        let get = |w, off| st.mem.with(w, &self.m, |o| (0..n).map(|i| o.byte(off + i)).collect::<Vec<E>>());
        let (x, y) = (get(aw, ao), get(bw, bo));
        let mut r = konst(0, 32);
        for i in (0..n).rev() {
            if x[i] == y[i] { continue; }
            let lt = ite(bin(Op::Ult, x[i], y[i]), konst(u32::MAX as u128, 32), konst(1, 32));
            r = ite(bin(Op::Eq, x[i], y[i]), r, lt);
        }
        Ok(norm(r))
    }
    fn bcmp(&mut self, st: &mut State, a: u64, b: u64, n: usize) -> R<V> {
        if n == 0 { return Ok(V::I(0)); }
        let (aw, ao) = self.loc(st, a, n, false)?;
        let (bw, bo) = self.loc(st, b, n, false)?;
        let get = |w, off| st.mem.with(w, &self.m, |o| (0..n).map(|i| o.byte(off + i)).collect::<Vec<E>>());
        let (x, y) = (get(aw, ao), get(bw, bo));
        let mut r = tru();
        for i in 0..n { r = and1(r, bin(Op::Eq, x[i], y[i])); if r == fls() { break; } }
        Ok(norm(ite(r, konst(0, 32), konst(1, 32))))
    }

    // ---- control -------------------------------------------------------------------

    fn jump(&mut self, st: &mut State, to: u32) {
        let f = st.frames.last_mut().unwrap();
        let from = f.blk;
        let func = f.f.clone();
        let b = &func.blocks[to as usize];
        if !b.phis.is_empty() {
            let mut tmp: Vec<(u32, V)> = Vec::with_capacity(b.phis.len());
            for (d, inc) in &b.phis {
                let o = inc.iter().find(|(p, _)| *p == from).map(|(_, o)| o).expect("phi edge");
                let v = match o { Opd::R(r) => f.regs[*r as usize].clone(), Opd::K(v) => v.clone() };
                tmp.push((*d, v));
            }
            for (d, v) in tmp { f.regs[d as usize] = v; }
        }
        f.blk = to;
        f.pc = 0;
    }

    fn call_fn(&mut self, st: &mut State, fid: u32, args: Vec<V>, dst: Option<u32>, inv: Option<(u32, u32)>) -> R<()> {
        if st.frames.len() > 400 { return err("call depth"); }
        let f = self.m.func(fid);
        self.fcov[fid as usize] = 1;
        let mut regs = vec![V::I(0); f.nregs as usize];
        for (i, a) in args.into_iter().enumerate() { if i < f.params.len() { regs[f.params[i] as usize] = a; } }
        let sp = st.mem.stack.len;
        st.frames.push(Frame { f, fid, blk: 0, pc: 0, regs, sp, dst, inv });
        Ok(())
    }

    /// finish a call in the caller: store result, go on
    fn finish_call(&mut self, st: &mut State, d: Option<u32>, inv: Option<(u32, u32)>, v: V) {
        if let Some(d) = d { Self::set(st, d, v); }
        if let Some((n, _)) = inv { self.jump(st, n); } else { st.frames.last_mut().unwrap().pc += 1; }
    }

    fn ret(&mut self, st: &mut State, v: V) -> R<()> {
        let fr = st.frames.pop().unwrap();
        st.mem.stack.truncate(fr.sp);
        if st.frames.is_empty() {
            if st.cur == 0 { return Err(Stop::End(End::Done)); }
            return self.thread_exit(st);
        }
        self.finish_call(st, fr.dst, fr.inv, v);
        Ok(())
    }

    fn unwind(&mut self, st: &mut State, exc: V) -> R<()> {
        // the top frame is the one that raised (its pending instruction is the call)
        loop {
            // is the current top frame's current instruction an invoke?
            let inv = {
                let f = match st.frames.last() { Some(f) => f, None => {
                    return self.fatal(st, "uncaught panic"); } };
                match &f.f.blocks[f.blk as usize].insts[f.pc as usize].0 { Inst::Call { inv, .. } => *inv, _ => None }
            };
            if let Some((_, u)) = inv {
                st.unwinding = exc;
                self.jump(st, u);
                return Ok(());
            }
            let fr = st.frames.pop().unwrap();
            st.mem.stack.truncate(fr.sp);
        }
    }

    pub fn fatal<T>(&mut self, st: &State, label: &str) -> R<T> {
        let m = st.model.clone();
        self.violate(st, &m, label, String::new());
        Err(Stop::End(End::Violation))
    }

    // ---- threads -------------------------------------------------------------------

    fn park_switch(&mut self, st: &mut State, to: usize) {
        if to == st.cur { return; }
        let t = Thread { frames: std::mem::take(&mut st.frames), done: false, wait: None, timed: false, unwinding: st.unwinding.clone(), stack: std::mem::take(&mut st.mem.stack) };
        let cur = st.cur;
        st.threads[cur] = Some(t);
        let n = st.threads[to].take().unwrap();
        st.frames = n.frames; st.unwinding = n.unwinding; st.mem.stack = n.stack;
        st.cur = to;
    }
    fn thread_exit(&mut self, st: &mut State) -> R<()> {
        let cur = st.cur;
        let t = Thread { frames: vec![], done: true, wait: None, timed: false, unwinding: V::I(0), stack: std::mem::take(&mut st.mem.stack) };
        st.threads[cur] = Some(t);
        self.run_other(st)
    }
    /// current thread cannot go on: pick any runnable thread (forking over the choice)
    fn run_other(&mut self, st: &mut State) -> R<()> {
        let run: Vec<usize> = (0..st.threads.len()).filter(|&i| i != st.cur && matches!(&st.threads[i], Some(t) if !t.done && t.wait.is_none())).collect();
        if run.is_empty() { return self.fatal(st, "deadlock"); }
        for &r in run.iter().skip(1) {
            let mut o = st.clone();
            self.switch_from_blocked(&mut o, r);
            o.forks += 1;
            self.push_state(o);
        }
        self.switch_from_blocked(st, run[0]);
        Ok(())
    }
    fn switch_from_blocked(&mut self, st: &mut State, to: usize) {
        let n = st.threads[to].take().unwrap();
        st.frames = n.frames; st.unwinding = n.unwinding; st.mem.stack = n.stack;
        st.cur = to;
    }
    /// A scheduling point: the scheduler may preempt here (bounded).
    fn sched_point(&mut self, st: &mut State) {
        if st.threads.len() < 2 || st.switches >= self.preempt { return; }
        let run: Vec<usize> = (0..st.threads.len()).filter(|&i| i != st.cur && matches!(&st.threads[i], Some(t) if !t.done && t.wait.is_none())).collect();
        for r in run {
            let mut o = st.clone();
            o.switches += 1;
            o.forks += 1;
            self.park_switch(&mut o, r);
            self.push_state(o);
        }
    }

    // ---- main step loop ------------------------------------------------------------

    /// Run one state until it ends; forks are pushed on the worklist.
    pub fn run(&mut self, mut st: State, stop: &mut dyn FnMut(&mut Exec) -> bool) {
        let mut tick = 0u32;
        loop {
            tick += 1;
            if tick & 0x3fff == 0 && stop(self) { return; }
            if st.steps > self.max_steps {
                let m = st.model.clone();
                self.violate(&st, &m, "step-bound", "path exceeded the step bound (possible non-termination)".into());
                return;
            }
            match self.step(&mut st) {
                Ok(()) => (),
                Err(Stop::Fork) => (),
                Err(Stop::End(e)) => {
                    match e {
                        End::Done => {
                            self.st.paths += 1;
                            for c in &st.covers { *self.covers.entry(c.to_string()).or_insert(0) += 1; }
                            if self.samples.len() < self.max_samples && (self.st.paths - 1) % self.sample_every == 0 {
                                let m = st.model.clone();
                                let s = (self.inputs_of(&st, &m), self.trace_of(&st, &m));
                                self.samples.push(s);
                                if self.samples.len() == self.max_samples && self.sample_every < 1 << 40 {
                                    // thin out, keep spacing growing
                                    let mut i = 0; self.samples.retain(|_| { i += 1; i % 2 == 1 }); self.sample_every *= 2;
                                }
                            }
                        }
                        End::Assumed => self.st.assumed += 1,
                        _ => self.st.paths += 1,
                    }
                    self.st.max_cs = self.st.max_cs.max(st.cs.len() as u64);
                    self.st.max_steps = self.st.max_steps.max(st.steps);
                    return;
                }
                Err(Stop::Err(s)) => {
                    let stk = self.stack_of(&st).join(" <- ");
                    *self.errors.entry(format!("{} [{}]", s, stk)).or_insert(0) += 1;
                    return;
                }
            }
        }
    }

    fn step(&mut self, st: &mut State) -> R<()> {
        let (func, blk, pc) = { let f = st.frames.last().unwrap(); (f.f.clone(), f.blk as usize, f.pc as usize) };
        let block = &func.blocks[blk];
        let mut pc = pc;
        // straight-line run inside the block
        loop {
            let (inst, dbg) = &block.insts[pc];
            st.steps += 1;
            self.st.insts += 1;
            if (*dbg as usize) < self.cov.len() { self.cov[*dbg as usize] = 1; }
            st.frames.last_mut().unwrap().pc = pc as u32;
            match inst {
                Inst::Nop => (),
                Inst::Bin { op, lanes, w, d, a, b } => {
                    let (a, b) = (Self::val(st, a), Self::val(st, b));
                    let r = if *lanes == 0 {
                        if matches!(op, Op::UDiv | Op::URem | Op::SDiv | Op::SRem) {
                            if let V::S(e) = &b { let z = bin(Op::Eq, *e, konst(0, *w as u8)); if self.decide(st, z)? { return self.memfault(st, "division by zero".into()); } }
                        }
                        self.bin_v(st, *op, *w, &a, &b)?
                    } else {
                        let (x, y) = match (&a, &b) { (V::A(x), V::A(y)) => (x.clone(), y.clone()), _ => return err("vector operand") };
                        let mut o = Vec::with_capacity(x.len());
                        for i in 0..x.len() { o.push(self.bin_v(st, *op, *w, &x[i], &y[i])?); }
                        V::A(Rc::new(o))
                    };
                    Self::set(st, *d, r);
                }
                Inst::ICmp { pred, lanes, w, d, a, b } => {
                    let (a, b) = (Self::val(st, a), Self::val(st, b));
                    let r = if *lanes == 0 { self.cmp_v(*pred, *w, &a, &b) } else {
                        let (x, y) = match (&a, &b) { (V::A(x), V::A(y)) => (x.clone(), y.clone()), _ => return err("vector operand") };
                        V::A(Rc::new((0..x.len()).map(|i| self.cmp_v(*pred, *w, &x[i], &y[i])).collect()))
                    };
                    Self::set(st, *d, r);
                }
                Inst::Cast { k, from, to, d, a } => {
                    let a = Self::val(st, a);
                    let r = self.cast(*k, from, to, a)?;
                    Self::set(st, *d, r);
                }
                Inst::Alloca { d, size, n } => {
                    let k = match Self::val(st, n) { V::I(k) => k, _ => return err("symbolic alloca") };
                    let a = st.mem.alloc_stack((*size * k) as usize);
                    Self::set(st, *d, V::I(a));
                }
                Inst::Load { d, ty, p } => {
                    let p = Self::val(st, p);
                    let v = match &p { V::I(a) => self.load_ty(st, *a, ty)?, _ => self.load_sym(st, &p, ty)? };
                    Self::set(st, *d, v);
                }
                Inst::Store { ty, v, p } => {
                    let p = Self::val(st, p);
                    let a = self.conc(st, &p, 64)?;
                    let v = Self::val(st, v);
                    self.store_ty(st, a, ty, &v)?;
                }
                Inst::Gep { d, base, off, terms } => {
                    let mut v = Self::val(st, base);
                    for (o, w, s) in terms {
                        let ix = Self::val(st, o);
                        match (&v, &ix) {
                            (V::I(b), V::I(x)) => v = V::I(b.wrapping_add((s64(*x, *w).wrapping_mul(*s)) as u64)),
                            _ => {
                                let x = sext(ex(&ix, *w), 64);
                                let t = bin(Op::Mul, x, konst(*s as u64 as u128, 64));
                                v = norm(bin(Op::Add, ex(&v, 64), t));
                            }
                        }
                    }
                    if *off != 0 { v = match v { V::I(b) => V::I(b.wrapping_add(*off as u64)), V::S(e) => norm(bin(Op::Add, e, konst(*off as u64 as u128, 64))), _ => return err("gep") }; }
                    Self::set(st, *d, v);
                }
                Inst::Select { d, lanes, ptr, scalar, w, c, a, b } => {
                    let c = Self::val(st, c);
                    let v = if *lanes > 0 {
                        let (c, x, y) = match (c, Self::val(st, a), Self::val(st, b)) { (V::A(c), V::A(x), V::A(y)) => (c, x, y), _ => return err("vector select") };
                        let mut o = vec![];
                        for i in 0..x.len() { o.push(match &c[i] { V::I(k) => if *k != 0 { x[i].clone() } else { y[i].clone() }, V::S(ce) => norm(ite(*ce, ex(&x[i], *w as u32), ex(&y[i], *w as u32))), _ => return err("vs") }); }
                        V::A(Rc::new(o))
                    } else {
                        match c {
                            V::I(k) => Self::val(st, if k != 0 { a } else { b }),
                            V::S(ce) => {
                                if let Some(k) = self.lookup_known(st, ce) { Self::val(st, if k != 0 { a } else { b }) }
                                else {
                                    let (x, y) = (Self::val(st, a), Self::val(st, b));
                                    if *ptr || !*scalar { if self.decide(st, ce)? { x } else { y } }
                                    else { norm(ite(ce, ex(&x, *w as u32), ex(&y, *w as u32))) }
                                }
                            }
                            _ => return err("select cond"),
                        }
                    };
                    Self::set(st, *d, v);
                }
                Inst::ExtractV { d, a, idx } => {
                    let mut v = Self::val(st, a);
                    for &i in idx { v = match v { V::A(x) => x[i as usize].clone(), _ => return err("extractvalue") }; }
                    Self::set(st, *d, v);
                }
                Inst::InsertV { d, a, v, idx, ty } => {
                    let base = match Self::val(st, a) { V::A(x) => V::A(x), _ => zero_of(ty) };
                    let x = Self::val(st, v);
                    Self::set(st, *d, insert_v(base, x, idx));
                }
                Inst::ExtractE { d, a, i } => {
                    let (v, i) = match (Self::val(st, a), Self::val(st, i)) { (V::A(v), V::I(i)) => (v, i), _ => return err("extractelement") };
                    Self::set(st, *d, v[i as usize].clone());
                }
                Inst::InsertE { d, a, v, i } => {
                    let (mut x, i) = match (Self::val(st, a), Self::val(st, i)) { (V::A(v), V::I(i)) => ((*v).clone(), i), _ => return err("insertelement") };
                    x[i as usize] = Self::val(st, v);
                    Self::set(st, *d, V::A(Rc::new(x)));
                }
                Inst::Shuffle { d, a, b, n, mask } => {
                    let (x, y) = match (Self::val(st, a), Self::val(st, b)) { (V::A(x), V::A(y)) => (x, y), _ => return err("shuffle") };
                    let o = mask.iter().map(|&k| if k < *n { x[k as usize].clone() } else { y[(k - *n) as usize].clone() }).collect();
                    Self::set(st, *d, V::A(Rc::new(o)));
                }
                Inst::Freeze { d, a } => { let v = Self::val(st, a); Self::set(st, *d, v); }
                Inst::Rmw { op, w, d, p, v } => {
                    let a = { let pv = Self::val(st, p); self.conc(st, &pv, 64)? };
                    self.sched_point(st);
                    let v = Self::val(st, v);
                    let ty = Ty::Int(*w);
                    let old = self.load_ty(st, a, &ty)?;
                    let new = match &**op {
                        "xchg" => v, "add" => self.bin_v(st, Op::Add, *w, &old, &v)?, "sub" => self.bin_v(st, Op::Sub, *w, &old, &v)?,
                        "and" => self.bin_v(st, Op::And, *w, &old, &v)?, "or" => self.bin_v(st, Op::Or, *w, &old, &v)?, "xor" => self.bin_v(st, Op::Xor, *w, &old, &v)?,
                        "umax" => { let c = self.cmp_v(Pred::Ugt, *w, &old, &v); match c { V::I(1) => old.clone(), _ => v } }
                        o => return err(format!("atomicrmw {}", o)),
                    };
                    self.store_ty(st, a, &ty, &new)?;
                    Self::set(st, *d, old);
                }
                Inst::CmpXchg { w, d, p, c, n } => {
                    let a = { let pv = Self::val(st, p); self.conc(st, &pv, 64)? };
                    let (c, n) = (Self::val(st, c), Self::val(st, n));
                    let ty = Ty::Int(*w);
                    let old = self.load_ty(st, a, &ty)?;
                    let eq = self.cmp_v(Pred::Eq, *w, &old, &c);
                    let ok = match eq { V::I(k) => k != 0, V::S(e) => self.decide(st, e)?, _ => return err("cmpxchg") };
                    self.sched_point(st);
                    if ok { self.store_ty(st, a, &ty, &n)?; }
                    Self::set(st, *d, V::A(Rc::new(vec![old, V::I(ok as u64)])));
                }
                Inst::FBin { op, w, d, a, b } => {
                    let (a, b) = (Self::val(st, a), Self::val(st, b));
                    let f = |x: f64, y: f64| match op { FOp::Add => x + y, FOp::Sub => x - y, FOp::Mul => x * y, FOp::Div => x / y, FOp::Rem => x % y, FOp::Neg => -x };
                    let g = |x: f32, y: f32| match op { FOp::Add => x + y, FOp::Sub => x - y, FOp::Mul => x * y, FOp::Div => x / y, FOp::Rem => x % y, FOp::Neg => -x };
                    let h = |a: u64, b: u64| if *w == 64 { f(f64::from_bits(a), f64::from_bits(b)).to_bits() } else { g(f32::from_bits(a as u32), f32::from_bits(b as u32)).to_bits() as u64 };
                    let r = match (a, b) { (V::I(a), V::I(b)) => V::I(h(a, b)), (a, V::I(b)) => lift(&a, *w, &|a| h(a, b))?, (V::I(a), b) => lift(&b, *w, &|b| h(a, b))?, _ => return err("symbolic float") };
                    Self::set(st, *d, r);
                }
                Inst::FCmp { pred, w, d, a, b } => {
                    let (a, b) = match (Self::val(st, a), Self::val(st, b)) { (V::I(a), V::I(b)) => (a, b), _ => return err("symbolic float") };
                    let (x, y) = if *w == 64 { (f64::from_bits(a), f64::from_bits(b)) } else { (f32::from_bits(a as u32) as f64, f32::from_bits(b as u32) as f64) };
                    let un = x.is_nan() || y.is_nan();
                    let r = match &**pred { "oeq" => x == y, "ogt" => x > y, "oge" => x >= y, "olt" => x < y, "ole" => x <= y, "one" => !un && x != y, "ord" => !un, "uno" => un,
                        "ueq" => un || x == y, "ugt" => un || x > y, "uge" => un || x >= y, "ult" => un || x < y, "ule" => un || x <= y, "une" => x != y, _ => false };
                    Self::set(st, *d, V::I(r as u64));
                }
                Inst::LandingPad { d, cleanup: _, catch, filter } => {
                    let e = st.unwinding.clone();
                    let sel = if *filter { 0xffff_ffff } else if *catch { 1 } else { 0 };
                    Self::set(st, *d, V::A(Rc::new(vec![e, V::I(sel)])));
                }
                Inst::Br(t) => { self.jump(st, *t); return Ok(()); }
                Inst::CondBr(c, a, b) => {
                    let t = match Self::val(st, c) { V::I(k) => k != 0, V::S(e) => self.decide(st, e)?, _ => return err("br") };
                    self.jump(st, if t { *a } else { *b });
                    return Ok(());
                }
                Inst::Switch { v, w, def, cases } => {
                    let v = Self::val(st, v);
                    let k = match v { V::I(k) => Some(k as u128), V::S(e) => self.lookup_known(st, e), _ => return err("switch") };
                    let to = match k {
                        Some(k) => cases.iter().find(|c| c.0 == k).map(|c| c.1).unwrap_or(*def),
                        None => {
                            let e = ex(&v, *w);
                            // group by target
                            let mut groups: Vec<(u32, E)> = vec![];
                            let mut any = fls();
                            for (k, t) in cases {
                                let q = bin(Op::Eq, e, konst(*k, *w as u8));
                                if q == fls() { continue; }
                                any = or1(any, q);
                                match groups.iter_mut().find(|g| g.0 == *t) { Some(g) => g.1 = or1(g.1, q), None => groups.push((*t, q)) }
                            }
                            let dq = not(any);
                            match groups.iter_mut().find(|g| g.0 == *def) { Some(g) => g.1 = or1(g.1, dq), None => groups.push((*def, dq)) }
                            let cur = groups.iter().position(|g| eval(g.1, &st.model) != 0).unwrap();
                            // one fork at a time: the other state re-executes the switch
                            let t = groups[cur].0;
                            let q = groups[cur].1;
                            if !self.decide(st, q)? { return err("switch model"); }
                            t
                        }
                    };
                    self.jump(st, to);
                    return Ok(());
                }
                Inst::Ret(o) => { let v = match o { Some(o) => Self::val(st, o), None => V::I(0) }; return self.ret(st, v); }
                Inst::Unreachable => return self.fatal(st, "unreachable-executed"),
                Inst::Resume(o) => {
                    let e = match Self::val(st, o) { V::A(x) => x[0].clone(), _ => return err("resume") };
                    let fr = st.frames.pop().unwrap();
                    st.mem.stack.truncate(fr.sp);
                    if st.frames.is_empty() { return self.fatal(st, "uncaught panic"); }
                    return self.unwind(st, e);
                }
                Inst::Call { d, callee, args, argtys, ret, inv } => {
                    match callee {
                        Callee::Direct(f) => {
                            let a: Vec<V> = args.iter().map(|o| Self::val(st, o)).collect();
                            return self.call_fn(st, *f, a, *d, *inv);
                        }
                        Callee::Ind(o) => {
                            let p = Self::val(st, o);
                            let a = self.conc(st, &p, 64)?;
                            let fid = a.wrapping_sub(FBASE) / 16;
                            let av: Vec<V> = args.iter().map(|o| Self::val(st, o)).collect();
                            if a >= FBASE + 0x1000_0000 && ((a - FBASE - 0x1000_0000) / 16) < self.m.exts.len() as u64 {
                                let n: Rc<str> = self.m.exts[((a - FBASE - 0x1000_0000) / 16) as usize].as_str().into();
                                match self.ext(st, &n, av, argtys, ret, *d, *inv)? { Some(v) => self.finish_call(st, *d, *inv, v), None => () }
                                return Ok(());
                            }
                            if a < FBASE || fid >= self.m.funcs.len() as u64 { return self.memfault(st, format!("indirect call to {:#x}", a)); }
                            return self.call_fn(st, fid as u32, av, *d, *inv);
                        }
                        Callee::Asm(s) => {
                            if !s.contains("cpuid") { if s.is_empty() || s.contains("pause") { if let Some(d) = d { if let Some(a) = args.get(0) { let v = Self::val(st, a); Self::set(st, *d, v); } } } else { return err(format!("inline asm {}", s)); } }
                            else if let Some(d) = d { Self::set(st, *d, V::A(Rc::new(vec![V::I(0); 4]))); }
                        }
                        Callee::Ext(n) => {
                            let av: Vec<V> = args.iter().map(|o| Self::val(st, o)).collect();
                            if let Some(v) = self.ext(st, n, av, argtys, ret, *d, *inv)? { self.finish_call(st, *d, *inv, v); }
                            // control may have moved (invoke/unwind/thread switch): leave the fast loop
                            return Ok(());
                        }
                    }
                }
            }
            pc += 1;
        }
    }

    fn cast(&mut self, k: Cast, from: &Ty, to: &Ty, a: V) -> R<V> {
        match k {
            Cast::Trunc | Cast::ZExt | Cast::SExt => {
                if let (Ty::Vec(_, fe), Ty::Vec(_, te)) = (from, to) {
                    let x = match a { V::A(x) => x, _ => return err("cast vec") };
                    let mut o = vec![];
                    for v in x.iter() { o.push(self.cast(k, fe, te, v.clone())?); }
                    return Ok(V::A(Rc::new(o)));
                }
                let (fw, tw) = (from.bits(), to.bits());
                if let V::I(x) = a {
                    if tw <= 64 {
                        return Ok(V::I(match k { Cast::Trunc => x & m64(tw), Cast::ZExt => x, _ => (s64(x, fw) as u64) & m64(tw) }));
                    }
                }
                let e = ex(&a, fw);
                Ok(norm(match k { Cast::Trunc => extract(e, 0, tw as u8), Cast::ZExt => zext(e, tw as u8), _ => sext(e, tw as u8) }))
            }
            Cast::PtrToInt | Cast::IntToPtr => {
                let (fw, tw) = (from.bits(), to.bits());
                if fw == tw { return Ok(a); }
                if let V::I(x) = a { if tw <= 64 { return Ok(V::I(x & m64(tw))); } }
                let e = ex(&a, fw);
                Ok(norm(if tw < fw { extract(e, 0, tw as u8) } else { zext(e, tw as u8) }))
            }
            Cast::Bit => {
                match (from, to) {
                    (Ty::Vec(n, fe), t) if t.is_scalar() => {
                        let x = match a { V::A(x) => x, _ => return err("bitcast") };
                        let fw = fe.bits();
                        let mut e = ex(&x[0], fw);
                        for i in 1..*n as usize { e = concat(ex(&x[i], fw), e); }
                        Ok(norm(e))
                    }
                    (f, Ty::Vec(n, te)) if f.is_scalar() => {
                        let e = ex(&a, f.bits());
                        let tw = te.bits();
                        Ok(V::A(Rc::new((0..*n).map(|i| norm(extract(e, (i as u32 * tw) as u8, tw as u8))).collect())))
                    }
                    (Ty::Vec(n, fe), Ty::Vec(m, te)) => {
                        let x = match a { V::A(x) => x, _ => return err("bitcast") };
                        let (fw, tw) = (fe.bits(), te.bits());
                        let mut bytes: Vec<E> = vec![];
                        if fw % 8 != 0 || tw % 8 != 0 { return err("bitcast bits"); }
                        for i in 0..*n as usize { let e = ex(&x[i], fw); for j in 0..fw / 8 { bytes.push(extract(e, (8 * j) as u8, 8)); } }
                        let tb = (tw / 8) as usize;
                        Ok(V::A(Rc::new((0..*m as usize).map(|i| { let mut e = bytes[i * tb]; for j in 1..tb { e = concat(bytes[i * tb + j], e); } norm(e) }).collect())))
                    }
                    _ => Ok(a),
                }
            }
            Cast::FpToUi | Cast::FpToSi | Cast::UiToFp | Cast::SiToFp | Cast::FpExt | Cast::FpTrunc => {
                if let (Cast::SiToFp, V::S(e)) = (k, &a) {
                    // only the digit counter of the terminfo expander converts integers to
                    // floats; the value is split into the intervals on which its result is constant
                    if from.bits() != 32 || *to != Ty::F32 { return err("symbolic float"); }
                    return Ok(digit_intervals(*e));
                }
                let f = |x: u64, t: &Ty| if *t == Ty::F64 { f64::from_bits(x) } else { f32::from_bits(x as u32) as f64 };
                let g = |x: f64, t: &Ty| if *t == Ty::F64 { x.to_bits() } else { (x as f32).to_bits() as u64 };
                let h = |x: u64| (match k {
                    Cast::FpToUi => f(x, from) as u64 & m64(to.bits()), Cast::FpToSi => (f(x, from) as i64 as u64) & m64(to.bits()),
                    Cast::UiToFp => g(x as f64, to), Cast::SiToFp => g(s64(x, from.bits()) as f64, to),
                    _ => g(f(x, from), to),
                });
                lift(&a, to.bits(), &h)
            }
        }
    }

    /// externals and intrinsics. Ok(None): control already transferred.
    fn ext(&mut self, st: &mut State, n: &Rc<str>, a: Vec<V>, tys: &[Ty], ret: &Ty, d: Option<u32>, inv: Option<(u32, u32)>) -> R<Option<V>> {
        let _ = (d, inv);
        macro_rules! c { ($i:expr) => {{ let v = a[$i].clone(); self.conc(st, &v, 64)? }} }
        if let Some(r) = n.strip_prefix("llvm.") {
            return Ok(Some(self.intrinsic(st, r, &a, tys, ret)?));
        }
        let ok = |v: u64| Ok(Some(V::I(v)));
        match &**n {
            "malloc" => { let k = c!(0); if k > 1 << 30 { return ok(0); } ok(st.mem.alloc(k as usize, 0xA5)) }
            "calloc" => { let k = c!(0) * c!(1); ok(st.mem.alloc(k as usize, 0)) }
            "aligned_alloc" => { let k = c!(1); ok(st.mem.alloc(k as usize, 0xA5)) }
            "posix_memalign" => { let k = c!(2); let p = c!(0); let m = st.mem.alloc(k as usize, 0xA5); self.store_ty(st, p, &Ty::Ptr, &V::I(m))?; ok(0) }
            "realloc" => {
                let p = c!(0); let k = c!(1) as usize;
                if p == 0 { return ok(st.mem.alloc(k, 0xA5)); }
                let old = match st.mem.locate(p, &self.gi, &self.m) { Some((Where::H(_), 0, s)) => s, _ => return self.memfault(st, "realloc of a non-heap pointer".into()) };
                let q = st.mem.alloc(k, 0xA5);
                self.memcpy(st, q, p, old.min(k))?;
                if let Some((Where::H(i), _, _)) = st.mem.locate(p, &self.gi, &self.m) { *st.mem.heap.slot(i) = None; }
                ok(q)
            }
            "free" => {
                let p = c!(0);
                if p == 0 { return ok(0); }
                match st.mem.locate(p, &self.gi, &self.m) { Some((Where::H(i), 0, _)) => { *st.mem.heap.slot(i) = None; ok(0) } _ => self.memfault(st, "invalid free".into()) }
            }
            "memcpy" | "memmove" => { let (x, y, k) = (c!(0), c!(1), c!(2)); self.memcpy(st, x, y, k as usize)?; ok(x) }
            "memcmp" => { let (x, y, k) = (c!(0), c!(1), c!(2)); Ok(Some(self.memcmp(st, x, y, k as usize)?)) }
            "bcmp" => { let (x, y, k) = (c!(0), c!(1), c!(2)); Ok(Some(self.bcmp(st, x, y, k as usize)?)) }
            "strlen" => { let p = c!(0); let s = self.read_cstr(st, p)?; ok(s.len() as u64) }
            "memchr" | "memrchr" => {
                let (p, ch, k) = (c!(0), c!(1), c!(2)); let b = self.read_conc(st, p, k as usize)?;
                let r = if &**n == "memchr" { b.iter().position(|&x| x == ch as u8) } else { b.iter().rposition(|&x| x == ch as u8) };
                ok(r.map(|i| p + i as u64).unwrap_or(0))
            }
            "getenv" => { let p = c!(0); let s = self.read_cstr(st, p)?; ok(self.env.get(&format!("@{}", s)).map(|x| x.parse().unwrap()).unwrap_or(0)) }
            "__errno_location" => ok(self.errno_addr),
            "open64" | "open" => {
                let p = c!(0); let flags = c!(1); let path = self.read_cstr(st, p)?;
                match read_file(&path) {
                    Some(dv) => {
                        let f = OpenFile { data: Rc::new(dv), pos: 0, open: true, flags };
                        let i = match st.files.iter().position(|f| !f.open) { Some(i) => { st.files[i] = f; i } None => { st.files.push(f); st.files.len() - 1 } };
                        ok(FD0 + i as u64)
                    }
                    None => { self.set_errno(st, 2)?; ok(0xffff_ffff) }
                }
            }
            "close" => { let fd = c!(0); self.close(st, fd)?.map_or(ok(0xffff_ffff), ok) }
            "fcntl" => {
                let (fd, cmd) = (c!(0), c!(1));
                if cmd == 3 && fd >= FD0 { match st.files.get((fd - FD0) as usize) { Some(f) if f.open => return ok(f.flags & 0o3777777), _ => { self.set_errno(st, 9)?; return ok(0xffff_ffff) } } }
                ok(0)
            }
            "read" => {
                let (fd, p, k) = (c!(0), c!(1), c!(2) as usize);
                if fd < FD0 { return err(format!("unmodelled read of fd {}", fd)); }
                let f = &mut st.files[fd as usize - FD0 as usize];
                let m = k.min(f.data.len() - f.pos);
                let b = f.data[f.pos..f.pos + m].to_vec();
                f.pos += m;
                self.write_conc(st, p, &b)?;
                ok(m as u64)
            }
            "lseek64" => {
                let (fd, off, wh) = (c!(0), c!(1), c!(2));
                if fd < FD0 { self.set_errno(st, 29)?; return ok(u64::MAX); }
                let f = &mut st.files[fd as usize - FD0 as usize];
                let np = match wh { 0 => off as i64, 1 => f.pos as i64 + off as i64, _ => f.data.len() as i64 + off as i64 };
                f.pos = np as usize;
                ok(np as u64)
            }
            "fstat64" | "stat64" | "lstat64" => {
                let size = if &**n == "fstat64" { let fd = c!(0); if fd < FD0 { return err("fstat"); } st.files[fd as usize - FD0 as usize].data.len() } else {
                    let p = c!(0); let path = self.read_cstr(st, p)?;
                    match read_file(&path) { Some(d) => d.len(), None => if path_ok(&path) && std::path::Path::new(&path).is_dir() { 0 } else { self.set_errno(st, 2)?; return ok(0xffff_ffff) } }
                };
                let p = c!(1);
                let mut b = vec![0u8; 144];
                b[24..28].copy_from_slice(&0o100644u32.to_le_bytes());
                b[48..56].copy_from_slice(&(size as u64).to_le_bytes());
                self.write_conc(st, p, &b)?;
                ok(0)
            }
            "write" => {
                // std's own output (diagnostics on stderr): not part of any property's state
                let (fd, k) = (c!(0), c!(2));
                if fd == 2 || fd == 1 { ok(k) } else { err(format!("unmodelled write to fd {}", fd)) }
            }
            "writev" => { ok(0) }
            "sysconf" => ok(4096),
            "__xpg_strerror_r" | "strerror_r" => { let p = c!(1); self.write_conc(st, p, b"error\0")?; ok(0) }
            "getuid" => ok(1000),
            "getpwuid_r" => { let p = c!(4); self.store_ty(st, p, &Ty::Ptr, &V::I(0))?; ok(0) }
            "abort" => self.fatal(st, "abort"),
            "syscall" => {
                let k = c!(0);
                match k {
                    202 => {
                        let op = c!(2) & 0x7f;
                        let addr = c!(1);
                        if op == 0 || op == 9 {
                            let exp = a[3].clone();
                            let cur = self.load_ty(st, addr, &Ty::Int(32))?;
                            let e = self.cmp_v(Pred::Eq, 32, &cur, &trunc32(&exp));
                            match e { V::I(0) => { self.set_errno(st, 11)?; return ok(u64::MAX); } V::I(_) => (), _ => return err("symbolic futex") }
                            // block
                            if st.threads.len() < 2 { return self.fatal(st, "deadlock"); }
                            let cur = st.cur;
                            // the wait returns 0 when woken
                            self.finish_call(st, d, inv, V::I(0));
                            let t = Thread { frames: std::mem::take(&mut st.frames), done: false, wait: Some(addr), timed: false, unwinding: st.unwinding.clone(), stack: std::mem::take(&mut st.mem.stack) };
                            st.threads[cur] = Some(t);
                            self.run_other(st)?;
                            Ok(None)
                        } else if op == 1 || op == 10 {
                            let mut cnt = c!(3) as i64;
                            let mut woken = 0;
                            for t in st.threads.iter_mut().flatten() { if cnt <= 0 { break; } if t.wait == Some(addr) { t.wait = None; cnt -= 1; woken += 1; } }
                            ok(woken)
                        } else { err(format!("futex op {}", op)) }
                    }
                    318 => { let p = c!(1); let k = c!(2); self.write_conc(st, p, &vec![7u8; k as usize])?; ok(k) }
                    3 => { let fd = c!(1); self.close(st, fd)?.map_or(ok(u64::MAX), ok) }
                    186 => ok(1000 + st.cur as u64),
                    24 => ok(0),
                    332 => { self.set_errno(st, 38)?; ok(u64::MAX) }
                    _ => err(format!("syscall {}", k)),
                }
            }
            "sched_yield" => ok(0),
            "_Unwind_RaiseException" => {
                let e = a[0].clone();
                self.unwind(st, e)?;
                Ok(None)
            }
            "_Unwind_DeleteException" => ok(0),
            "_Unwind_Backtrace" => ok(0),
            "_Unwind_Resume" => err("_Unwind_Resume"),
            // ---- harness interface ----
            "__sym_var" => {
                let bits = c!(0); let p = c!(1); let k = c!(2);
                let name = self.read_conc(st, p, k as usize)?;
                let gid = var_id(st.vars.len() as u32, bits as u8);
                st.vars.push((gid, String::from_utf8_lossy(&name).as_ref().into()));
                let e = var_expr(gid);
                // the default model value of a fresh variable is 0
                st.set_model(&[(gid, 0)]);
                Ok(Some(norm(zext(e, 64))))
            }
            "__sym_choose" => {
                // n-way case split over a fresh variable constrained to 0..n
                let k = c!(0); let p = c!(1); let l = c!(2);
                if k == 0 { return Err(Stop::End(End::Assumed)); }
                let name: Rc<str> = String::from_utf8_lossy(&self.read_conc(st, p, l as usize)?).as_ref().into();
                let gid = var_id(st.vars.len() as u32, 32);
                st.vars.push((gid, name));
                let e = var_expr(gid);
                for i in (1..k).rev() {
                    let mut o = st.clone();
                    o.add(bin(Op::Eq, e, konst(i as u128, 32)));
                    o.set_model(&[(gid, i as u128)]);
                    o.forks += 1;
                    self.finish_call(&mut o, d, inv, V::I(i));
                    self.push_state(o);
                }
                st.add(bin(Op::Eq, e, konst(0, 32)));
                st.set_model(&[(gid, 0)]);
                ok(0)
            }
            "__sym_assume" => {
                let a0 = cond_of(&a[0]);
                match &a0 {
                    V::I(0) => Err(Stop::End(End::Assumed)),
                    V::I(_) => ok(0),
                    V::S(e) => {
                        let e = *e;
                        match self.lookup_known(st, e) { Some(0) => return Err(Stop::End(End::Assumed)), Some(_) => return ok(0), None => () }
                        if eval(e, &st.model) != 0 { st.add(e); return ok(0); }
                        match self.sol.check(&st.cs, e) {
                            Res::Sat(m) => { st.set_model(&m); st.add(e); ok(0) }
                            Res::Unsat => Err(Stop::End(End::Assumed)),
                            Res::Unknown => err("solver returned unknown on an assumption"),
                        }
                    }
                    _ => err("assume"),
                }
            }
            "__sym_assert" => {
                let p = c!(1); let k = c!(2);
                let label = String::from_utf8_lossy(&self.read_conc(st, p, k as usize)?).into_owned();
                self.st.asserts += 1;
                let a0 = cond_of(&a[0]);
                match &a0 {
                    V::I(0) => { let m = st.model.clone(); self.violate(st, &m, &label, String::new()); Err(Stop::End(End::Violation)) }
                    V::I(_) => { self.st.asserts_const += 1; ok(0) }
                    V::S(e) => {
                        let e = *e;
                        self.st.asserts_sym += 1;
                        match self.lookup_known(st, e) { Some(0) => { let m = st.model.clone(); self.violate(st, &m, &label, String::new()); return Err(Stop::End(End::Violation)); } Some(_) => return ok(0), None => () }
                        match self.sol.check(&st.cs, not(e)) {
                            Res::Unsat => { Rc::make_mut(&mut st.known).insert(e, 1); ok(0) }
                            Res::Unknown => err("solver returned unknown on an assertion"),
                            Res::Sat(m) => {
                                let mut o = st.clone();
                                o.set_model(&m);
                                let md = o.model.clone();
                                self.violate(&o, &md, &label, String::new());
                                // continue on the side where it holds
                                if eval(e, &st.model) != 0 { st.add(e); return ok(0); }
                                match self.sol.check(&st.cs, e) { Res::Sat(m) => { st.set_model(&m); st.add(e); ok(0) } _ => Err(Stop::End(End::Violation)) }
                            }
                        }
                    }
                    _ => err("assert"),
                }
            }
            "__sym_conc" => { let x = c!(0); ok(x) }
            "__sym_is_sym" => ok(matches!(a[0], V::S(_)) as u64),
            "__sym_trace" => { let t = c!(0) as u32; st.trace.push((t, a[1].clone())); ok(0) }
            "__sym_cover" => { let p = c!(0); let k = c!(1); let l: Rc<str> = String::from_utf8_lossy(&self.read_conc(st, p, k as usize)?).as_ref().into(); if !st.covers.contains(&l) { st.covers.push(l); } ok(0) }
            "__sym_fail" => {
                let p = c!(0); let k = c!(1); let label = String::from_utf8_lossy(&self.read_conc(st, p, k as usize)?).into_owned();
                let m = st.model.clone();
                self.violate(st, &m, &label, String::new());
                Err(Stop::End(End::Violation))
            }
            "__sym_exit" => Err(Stop::End(End::Done)),
            "__sym_steps" => ok(st.steps),
            "__sym_spawn" => {
                // (fn ptr, arg) -> thread id
                let f = c!(0); let arg = a[1].clone();
                let fid = (f - FBASE) / 16;
                let func = self.m.func(fid as u32);
                self.fcov[fid as usize] = 1;
                let mut regs = vec![V::I(0); func.nregs as usize];
                if !func.params.is_empty() { regs[func.params[0] as usize] = arg; }
                let fr = Frame { f: func, fid: fid as u32, blk: 0, pc: 0, regs, sp: 0, dst: None, inv: None };
                let id = st.threads.len();
                st.threads.push(Some(Thread { frames: vec![fr], done: false, wait: None, timed: false, unwinding: V::I(0), stack: PVec::default() }));
                ok(id as u64)
            }
            "__sym_yield" => {
                // explicit scheduling point
                self.finish_call(st, d, inv, V::I(0));
                self.sched_point(st);
                Ok(None)
            }
            "__sym_join_all" => {
                // re-executed until every other thread is done
                if st.threads.iter().enumerate().all(|(i, t)| i == st.cur || matches!(t, Some(t) if t.done)) { return ok(0); }
                let cur = st.cur;
                let run: Vec<usize> = (0..st.threads.len()).filter(|&i| i != cur && matches!(&st.threads[i], Some(t) if !t.done && t.wait.is_none())).collect();
                if run.is_empty() { return self.fatal(st, "deadlock"); }
                for &r in run.iter().skip(1) { let mut o = st.clone(); self.park_switch(&mut o, r); o.forks += 1; self.push_state(o); }
                self.park_switch(st, run[0]);
                Ok(None)
            }
            "__sym_tid" => ok(st.cur as u64),
            _ => err(format!("external function {}", n)),
        }
    }

    fn set_errno(&mut self, st: &mut State, e: u32) -> R<()> { let a = self.errno_addr; self.store_ty(st, a, &Ty::Int(32), &V::I(e as u64)) }

    fn intrinsic(&mut self, st: &mut State, n: &str, a: &[V], tys: &[Ty], ret: &Ty) -> R<V> {
        let base: &str = n.split('.').next().unwrap();
        match base {
            "memcpy" | "memmove" => { let (x, y, k) = (self.conc(st, &a[0], 64)?, self.conc(st, &a[1], 64)?, self.conc(st, &a[2], 64)?); self.memcpy(st, x, y, k as usize)?; return Ok(V::I(0)); }
            "memset" => {
                let (x, k) = (self.conc(st, &a[0], 64)?, self.conc(st, &a[2], 64)? as usize);
                if k == 0 { return Ok(V::I(0)); }
                let (w, off) = self.loc(st, x, k, true)?;
                let o = st.mem.get_mut(w, &self.m);
                match &a[1] {
                    V::I(b) => { for q in &mut o.data[off..off + k] { *q = *b as u8; } if let Some(s) = &mut o.sym { for q in &mut s[off..off + k] { *q = 0; } } }
                    V::S(e) => { for i in 0..k { o.set_byte(off + i, *e); } }
                    _ => return err("memset"),
                }
                return Ok(V::I(0));
            }
            "trap" => return self.fatal(st, "trap"),
            "expect" => return Ok(a[0].clone()),
            "is" if n.starts_with("is.constant") => return Ok(V::I(0)),
            "threadlocal" => return Ok(a[0].clone()),
            "x86" => { return Ok(V::I(0)); }
            "assume" | "lifetime" | "experimental" | "donothing" | "va_start" | "va_end" => return Ok(V::I(0)),
            "load" if n.starts_with("load.relative") => {
                let (p, o) = (self.conc(st, &a[0], 64)?, self.conc(st, &a[1], 64)?);
                let v = self.load_ty(st, p.wrapping_add(o), &Ty::Int(32))?;
                if let V::I(x) = v { return Ok(V::I(p.wrapping_add(x as u32 as i32 as i64 as u64))); }
                return err("load.relative");
            }
            _ => (),
        }
        // vector forms: lane-wise
        if let Some(V::A(l)) = a.get(0) {
            if matches!(base, "vector" ) {
                // vector.reduce.<op>
                let k = n.split('.').nth(2).unwrap_or("");
                let w = match &tys[0] { Ty::Vec(_, e) => e.bits(), _ => return err("reduce") };
                let mut acc = l[0].clone();
                for x in l.iter().skip(1) {
                    acc = match k { "or" => self.bin_v(st, Op::Or, w, &acc, x)?, "and" => self.bin_v(st, Op::And, w, &acc, x)?, "xor" => self.bin_v(st, Op::Xor, w, &acc, x)?, "add" => self.bin_v(st, Op::Add, w, &acc, x)?,
                        "umax" | "umin" | "smax" | "smin" => self.minmax(k, w, &acc, x), _ => return err(format!("intrinsic {}", n)) };
                }
                return Ok(acc);
            }
            let (et, er) = match (&tys[0], ret) { (Ty::Vec(_, e), Ty::Vec(_, r)) => ((**e).clone(), (**r).clone()), _ => return err(format!("vector intrinsic {}", n)) };
            let mut out = vec![];
            for i in 0..l.len() {
                let av: Vec<V> = a.iter().map(|x| match x { V::A(v) => v[i].clone(), v => v.clone() }).collect();
                let tv: Vec<Ty> = tys.iter().map(|t| match t { Ty::Vec(_, e) => (**e).clone(), t => t.clone() }).collect();
                let _ = &et;
                out.push(self.intrinsic(st, n, &av, &tv, &er)?);
            }
            return Ok(V::A(Rc::new(out)));
        }
        let w = if tys.is_empty() { 0 } else { tys[0].bits() };
        let wu = w as u8;
        match base {
            "umin" | "umax" | "smin" | "smax" => Ok(self.minmax(base, w, &a[0], &a[1])),
            "abs" => { let e = ex(&a[0], w); Ok(norm(ite(bin(Op::Slt, e, konst(0, wu)), bin(Op::Sub, konst(0, wu), e), e))) }
            "uadd" | "usub" | "umul" | "sadd" | "ssub" | "smul" => {
                let (x, y) = (ex(&a[0], w), ex(&a[1], w));
                let signed = base.starts_with('s');
                let kind = &base[1..];
                if n.contains("with.overflow") {
                    let (r, o) = arith_overflow(kind, signed, x, y, wu);
                    Ok(V::A(Rc::new(vec![norm(r), norm(o)])))
                } else if n.contains(".sat") {
                    let (r, o) = arith_overflow(kind, signed, x, y, wu);
                    let sat = if !signed { if kind == "sub" { konst(0, wu) } else { konst(mask(wu), wu) } } else {
                        // signed saturation: sign of x decides
                        ite(bin(Op::Slt, x, konst(0, wu)), konst(1u128 << (wu - 1), wu), konst((1u128 << (wu - 1)) - 1, wu))
                    };
                    Ok(norm(ite(o, sat, r)))
                } else { err(format!("intrinsic {}", n)) }
            }
            "ctpop" => { let e = ex(&a[0], w); let mut r = konst(0, wu); for i in 0..wu { r = bin(Op::Add, r, zext(extract(e, i, 1), wu)); } Ok(norm(r)) }
            "cttz" => { let e = ex(&a[0], w); let mut r = konst(w as u128, wu); for i in (0..wu).rev() { r = ite(extract(e, i, 1), konst(i as u128, wu), r); } Ok(norm(r)) }
            "ctlz" => { let e = ex(&a[0], w); let mut r = konst(w as u128, wu); for i in 0..wu { r = ite(extract(e, i, 1), konst((wu - 1 - i) as u128, wu), r); } Ok(norm(r)) }
            "bswap" => { let e = ex(&a[0], w); let nb = wu / 8; let mut r = extract(e, 0, 8); for i in 1..nb { r = concat(r, extract(e, 8 * i, 8)); } Ok(norm(r)) }
            "bitreverse" => { let e = ex(&a[0], w); let mut r = extract(e, 0, 1); for i in 1..wu { r = concat(r, extract(e, i, 1)); } Ok(norm(r)) }
            "fshl" | "fshr" => {
                let k = match self.conc(st, &a[2], w) { Ok(k) => k % w as u64, Err(e) => return Err(e) } as u8;
                let (x, y) = (ex(&a[0], w), ex(&a[1], w));
                let c = if base == "fshl" { if k == 0 { x } else { concat(extract(x, 0, wu - k), extract(y, wu - k, k)) } }
                    else if k == 0 { y } else { concat(extract(x, 0, k), extract(y, k, wu - k)) };
                Ok(norm(c))
            }
            "ucmp" | "scmp" => {
                let (x, y) = (ex(&a[0], w), ex(&a[1], w));
                let rw = ret.bits() as u8;
                let lt = bin(if base == "ucmp" { Op::Ult } else { Op::Slt }, x, y);
                Ok(norm(ite(lt, konst(u128::MAX, rw), ite(bin(Op::Eq, x, y), konst(0, rw), konst(1, rw)))))
            }
            "log" | "floor" | "fabs" | "ceil" | "sqrt" | "trunc" | "log2" | "log10" | "exp" => {
                let f = |v: f64| match base { "log" => v.ln(), "floor" => v.floor(), "fabs" => v.abs(), "ceil" => v.ceil(), "sqrt" => v.sqrt(), "trunc" => v.trunc(), "log2" => v.log2(), "log10" => v.log10(), _ => v.exp() };
                lift(&a[0], w, &|x| if w == 64 { f(f64::from_bits(x)).to_bits() } else { (f(f32::from_bits(x as u32) as f64) as f32).to_bits() as u64 })
            }
            "fptoui" | "fptosi" => {
                let sw = tys[0].bits();
                lift(&a[0], ret.bits(), &|x| {
                    let v = if sw == 64 { f64::from_bits(x) } else { f32::from_bits(x as u32) as f64 };
                    (if base == "fptoui" { v as u64 } else { v as i64 as u64 }) & m64(ret.bits())
                })
            }
            "ptrmask" => self.bin_v(st, Op::And, 64, &a[0], &a[1]),
            _ => err(format!("intrinsic llvm.{}", n)),
        }
    }

    fn minmax(&self, k: &str, w: u32, a: &V, b: &V) -> V {
        let (x, y) = (ex(a, w), ex(b, w));
        let op = if k.starts_with('u') { Op::Ult } else { Op::Slt };
        let lt = bin(op, x, y);
        norm(if k.ends_with("min") { ite(lt, x, y) } else { ite(lt, y, x) })
    }
}

fn trunc32(v: &V) -> V { match v { V::I(x) => V::I(x & 0xffff_ffff), V::S(e) => norm(if width(*e) > 32 { extract(*e, 0, 32) } else { *e }), v => v.clone() } }

/// both operands known non-negative and the result within the signed range
fn signed_fits(kind: &str, x: E, y: E, w: u8) -> bool {
    let h = mask(w) >> 1;
    let (a, b) = (range(x), range(y));
    if a.1 > h || b.1 > h { return false; }
    (if kind == "add" { a.1.checked_add(b.1) } else { a.1.checked_mul(b.1) }).map_or(false, |r| r <= h)
}
fn arith_overflow(kind: &str, signed: bool, x: E, y: E, w: u8) -> (E, E) {
    match (kind, signed) {
        ("add", false) => { let r = bin(Op::Add, x, y); let (a, b) = (range(x), range(y)); if a.1.checked_add(b.1).map_or(false, |h| h <= mask(w)) { (r, fls()) } else { (r, bin(Op::Ult, r, x)) } }
        ("sub", false) => (bin(Op::Sub, x, y), bin(Op::Ult, x, y)),
        ("mul", false) => {
            let (a, b) = (range(x), range(y));
            let r = bin(Op::Mul, x, y);
            if a.1.checked_mul(b.1).map_or(false, |h| h <= mask(w)) { return (r, fls()); }
            if let (Some(k), false) = (as_const(y), as_const(x).is_some()) { if k == 0 { return (r, fls()); } return (r, bin(Op::Ult, konst(mask(w) / k, w), x)); }
            if let (Some(k), false) = (as_const(x), as_const(y).is_some()) { if k == 0 { return (r, fls()); } return (r, bin(Op::Ult, konst(mask(w) / k, w), y)); }
            if w <= 64 { let p = bin(Op::Mul, zext(x, w * 2), zext(y, w * 2)); (r, not(bin(Op::Eq, extract(p, w, w), konst(0, w)))) }
            else { panic!("wide umul overflow") }
        }
        (_, true) if kind != "sub" && signed_fits(kind, x, y, w) => (bin(if kind == "add" { Op::Add } else { Op::Mul }, x, y), fls()),
        ("mul", true) if as_const(y).map_or(false, |k| k > 1 && k <= mask(w) >> 1) => {
            // a positive constant factor: overflow iff x lies outside the exact quotient bounds
            let k = as_const(y).unwrap() as i128;
            let (lo, hi) = (-(1i128 << (w - 1)) / k, ((1i128 << (w - 1)) - 1) / k);
            (bin(Op::Mul, x, y), or1(bin(Op::Slt, x, konst(lo as u128, w)), bin(Op::Slt, konst(hi as u128, w), x)))
        }
        ("mul", true) if as_const(x).map_or(false, |k| k > 1 && k <= mask(w) >> 1) => arith_overflow(kind, signed, y, x, w),
        ("add", true) => { let r = bin(Op::Add, x, y); let s = |e| extract(e, w - 1, 1); let o = and1(not(bin(Op::Xor, s(x), s(y))), bin(Op::Xor, s(x), s(r))); (r, o) }
        ("sub", true) => { let r = bin(Op::Sub, x, y); let s = |e| extract(e, w - 1, 1); let o = and1(bin(Op::Xor, s(x), s(y)), bin(Op::Xor, s(x), s(r))); (r, o) }
        ("mul", true) => {
            let r = bin(Op::Mul, x, y);
            let p = bin(Op::Mul, sext(x, w * 2), sext(y, w * 2));
            (r, not(bin(Op::Eq, p, sext(r, w * 2))))
        }
        _ => unreachable!(),
    }
}

fn insert_v(base: V, v: V, idx: &[u32]) -> V {
    if idx.is_empty() { return v; }
    match base {
        V::A(x) => { let mut y = (*x).clone(); let i = idx[0] as usize; let old = y[i].clone(); y[i] = insert_v(old, v, &idx[1..]); V::A(Rc::new(y)) }
        _ => panic!("insertvalue into scalar"),
    }
}

/// bit-multiplexer over a constant table
fn mux(off: E, data: &[u8], n: usize, w: u8, prefix: usize, bit: i32, lo: usize, hi: usize) -> Option<E> {
    let span = if bit < 0 { 1 } else { 1usize << (bit + 1) };
    if prefix > hi || prefix + span - 1 < lo { return None; }
    if bit < 0 {
        let mut x = 0u128;
        for i in 0..n { x |= (data[prefix + i] as u128) << (8 * i); }
        return Some(konst(x & expr::mask(w), w));
    }
    let b = extract(off, bit as u8, 1);
    if let Some(k) = as_const(b) { return mux(off, data, n, w, prefix | ((k as usize) << bit), bit - 1, lo, hi); }
    let z = mux(off, data, n, w, prefix, bit - 1, lo, hi);
    let o = mux(off, data, n, w, prefix | (1 << bit), bit - 1, lo, hi);
    match (z, o) { (Some(z), Some(o)) => Some(ite(b, o, z)), (Some(z), None) => Some(z), (None, o) => o }
}

pub fn path_ok(p: &str) -> bool { (p.contains("/terminfo")) && !p.contains("..") }
fn read_file(p: &str) -> Option<Vec<u8>> { if p == "/dev/null" { return Some(vec![]); } if !path_ok(p) { return None; } let m = std::fs::metadata(p).ok()?; if !m.is_file() { return None; } std::fs::read(p).ok() }


/// an integer used as a truth value
fn cond_of(v: &V) -> V {
    match v {
        V::S(e) if width(*e) != 1 => { let z = konst(0, width(*e)); norm(not(bin(Op::Eq, *e, z))) }
        v => v.clone(),
    }
}

/// apply a concrete function to a value that is an if-then-else tree over constants
fn lift(v: &V, w: u32, f: &dyn Fn(u64) -> u64) -> R<V> {
    fn go(e: E, w: u32, f: &dyn Fn(u64) -> u64) -> Option<E> {
        let n = node(e);
        match n.op {
            Op::Const => Some(konst(f(n.k as u64) as u128, w as u8)),
            Op::Ite => { let a = go(n.b, w, f)?; let b = go(n.c, w, f)?; Some(ite(n.a, a, b)) }
            _ => None,
        }
    }
    match v {
        V::I(x) => Ok(V::I(f(*x))),
        V::S(e) => match go(*e, w, f) { Some(e) => Ok(norm(e)), None => err("symbolic float") },
        _ => err("symbolic float"),
    }
}

/// `x as f32` for the expression |x|.log(base).floor(): one representative per interval
/// on which that expression (base 8, 10 and 16) is constant
fn digit_intervals(e: E) -> V {
    let mut cuts: Vec<i64> = vec![0, 1];
    for base in [8f32, 10., 16.] {
        let d = |v: i64| (v as i32 as f32).abs().log(base).floor() as usize;
        let mut v = 1i64;
        while d(v) < d(i32::MAX as i64) {
            let (mut lo, mut hi) = (v, i32::MAX as i64);
            while hi - lo > 1 { let m = lo + (hi - lo) / 2; if d(m) > d(v) { hi = m } else { lo = m } }
            cuts.push(hi);
            v = hi;
        }
    }
    cuts.sort();
    cuts.dedup();
    let f = |v: i64| konst((v as i32 as f32).to_bits() as u128, 32);
    let k = |v: i64| konst(v as i32 as u32 as u128, 32);
    // non-negative side: [cuts[i], cuts[i+1]); negative side mirrored
    let mut pos = f(cuts[0]);
    let mut neg = f(-1);
    for &c in &cuts[1..] {
        pos = ite(bin(Op::Slt, e, k(c)), pos, f(c));
        neg = ite(bin(Op::Slt, k(-c), e), neg, f(-c));
    }
    // i32::MIN is a power of 8 and 16 of its own
    neg = ite(bin(Op::Eq, e, konst(0x8000_0000, 32)), f(i32::MIN as i64), neg);
    norm(ite(bin(Op::Slt, e, konst(0, 32)), neg, pos))
}
