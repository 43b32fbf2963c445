//! Byte-addressed memory: every object has its own 4 GiB-aligned address window
//! (globals are packed into one window); copy-on-write between states.
use crate::expr::*;
use crate::ir::*;
use std::collections::HashMap;
use std::rc::Rc;

pub const HEAP: u64 = 0x10000;
pub const STACK: u64 = 0x3000_0000;
const CH: usize = 64;

#[derive(Clone)]
pub struct Obj { pub data: Vec<u8>, pub sym: Option<Vec<E>>, pub ro: bool }

impl Obj {
    pub fn new(n: usize, fill: u8) -> Obj { Obj { data: vec![fill; n], sym: None, ro: false } }
    #[inline]
    pub fn is_sym(&self, off: usize, n: usize) -> bool { match &self.sym { None => false, Some(s) => s[off..off + n].iter().any(|&e| e != 0) } }
    pub fn byte(&self, off: usize) -> E {
        if let Some(s) = &self.sym { if s[off] != 0 { return s[off]; } }
        konst(self.data[off] as u128, 8)
    }
    pub fn set_byte(&mut self, off: usize, e: E) {
        if let Some(k) = as_const(e) {
            self.data[off] = k as u8;
            if let Some(s) = &mut self.sym { s[off] = 0; }
        } else {
            let n = self.data.len();
            self.sym.get_or_insert_with(|| vec![0; n])[off] = e;
        }
    }
    #[inline]
    pub fn read(&self, off: usize, n: usize, w: u32) -> V {
        if !self.is_sym(off, n) {
            if n <= 8 {
                let mut b = [0u8; 8];
                b[..n].copy_from_slice(&self.data[off..off + n]);
                let x = u64::from_le_bytes(b);
                return V::I(if w >= 64 { x } else { x & ((1u64 << w) - 1) });
            }
            let mut x = 0u128;
            for i in 0..n.min(16) { x |= (self.data[off + i] as u128) << (8 * i); }
            return V::S(konst(x, w as u8));
        }
        let mut e = self.byte(off);
        for i in 1..n { e = concat(self.byte(off + i), e); }
        let e = if (w as u8) < width(e) { extract(e, 0, w as u8) } else { e };
        norm(e)
    }
    #[inline]
    pub fn write(&mut self, off: usize, n: usize, w: u32, v: &V) {
        match v {
            V::I(x) => {
                let b = x.to_le_bytes();
                self.data[off..off + n].copy_from_slice(&b[..n]);
                if let Some(s) = &mut self.sym { for q in &mut s[off..off + n] { *q = 0; } }
            }
            V::S(e) => {
                let e = if (w as usize) < n * 8 { zext(*e, (n * 8) as u8) } else { *e };
                for i in 0..n { self.set_byte(off + i, extract(e, (8 * i) as u8, 8)); }
            }
            V::A(_) => panic!("aggregate scalar store"),
        }
    }
}

#[inline]
pub fn norm(e: E) -> V { match as_const(e) { Some(k) if width(e) <= 64 => V::I(k as u64), _ => V::S(e) } }

#[derive(Clone, Default)]
pub struct PVec { ch: Vec<Rc<Vec<Option<Rc<Obj>>>>>, pub len: usize }
impl PVec {
    pub fn get(&self, i: usize) -> Option<&Rc<Obj>> { if i >= self.len { return None; } self.ch[i / CH][i % CH].as_ref() }
    pub fn slot(&mut self, i: usize) -> &mut Option<Rc<Obj>> { &mut Rc::make_mut(&mut self.ch[i / CH])[i % CH] }
    pub fn push(&mut self, o: Obj) -> usize {
        let i = self.len;
        if i % CH == 0 && i / CH == self.ch.len() { self.ch.push(Rc::new(vec![None; CH])); }
        self.len += 1;
        *self.slot(i) = Some(Rc::new(o));
        i
    }
    pub fn truncate(&mut self, n: usize) {
        while self.len > n { self.len -= 1; let i = self.len; *self.slot(i) = None; }
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Where { G(u32), H(usize), S(usize) }

#[derive(Clone, Default)]
pub struct Mem {
    pub glob: Rc<HashMap<u32, Rc<Obj>>>,
    pub heap: PVec,
    pub stack: PVec,
}

pub struct GIndex { pub gran: Vec<u32> }
impl GIndex {
    pub fn new(m: &Module) -> GIndex {
        let end = m.globals.iter().map(|g| g.addr + g.size + 64).max().unwrap_or(GBASE);
        let mut gran = vec![u32::MAX; ((end - GBASE) / 64 + 2) as usize];
        for (i, g) in m.globals.iter().enumerate() {
            let mut a = g.addr;
            while a <= g.addr + g.size { gran[((a - GBASE) / 64) as usize] = i as u32; a += 64; }
        }
        GIndex { gran }
    }
    pub fn find(&self, a: u64) -> Option<u32> {
        if a < GBASE { return None; }
        let i = (a - GBASE) / 64;
        self.gran.get(i as usize).copied().filter(|&g| g != u32::MAX)
    }
}

pub fn base_of(w: Where, m: &Module) -> u64 {
    match w { Where::G(g) => m.globals[g as usize].addr, Where::H(i) => (HEAP + i as u64) << 32, Where::S(i) => (STACK + i as u64) << 32 }
}

impl Mem {
    pub fn locate(&self, a: u64, gi: &GIndex, m: &Module) -> Option<(Where, u64, usize)> {
        let hi = a >> 32;
        if hi >= STACK { let i = (hi - STACK) as usize; let o = self.stack.get(i)?; return Some((Where::S(i), a & 0xffff_ffff, o.data.len())); }
        if hi >= HEAP { let i = (hi - HEAP) as usize; let o = self.heap.get(i)?; return Some((Where::H(i), a & 0xffff_ffff, o.data.len())); }
        let g = gi.find(a)?;
        let gl = &m.globals[g as usize];
        if a < gl.addr || gl.external { return None; }
        Some((Where::G(g), a - gl.addr, gl.size as usize))
    }
    pub fn with<R>(&self, w: Where, m: &Module, f: impl FnOnce(&Obj) -> R) -> R {
        match w {
            Where::H(i) => f(self.heap.get(i).unwrap()),
            Where::S(i) => f(self.stack.get(i).unwrap()),
            Where::G(g) => if let Some(o) = self.glob.get(&g) { f(o) } else {
                // immutable view of the initial image
                let gl = &m.globals[g as usize];
                unsafe {
                    let tmp = std::mem::ManuallyDrop::new(Obj { data: Vec::from_raw_parts(gl.data.as_ptr() as *mut u8, gl.data.len(), gl.data.len()), sym: None, ro: gl.ro });
                    f(&tmp)
                }
            }
        }
    }
    pub fn get_mut(&mut self, w: Where, m: &Module) -> &mut Obj {
        match w {
            Where::H(i) => Rc::make_mut(self.heap.slot(i).as_mut().unwrap()),
            Where::S(i) => Rc::make_mut(self.stack.slot(i).as_mut().unwrap()),
            Where::G(g) => {
                let gl = &m.globals[g as usize];
                let map = Rc::make_mut(&mut self.glob);
                Rc::make_mut(map.entry(g).or_insert_with(|| Rc::new(Obj { data: gl.data.clone(), sym: None, ro: gl.ro })))
            }
        }
    }
    pub fn alloc(&mut self, n: usize, fill: u8) -> u64 { let i = self.heap.push(Obj::new(n, fill)); (HEAP + i as u64) << 32 }
    pub fn alloc_stack(&mut self, n: usize) -> u64 { let i = self.stack.push(Obj::new(n, 0xA5)); (STACK + i as u64) << 32 }
}
