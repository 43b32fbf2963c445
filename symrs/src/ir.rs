//! LLVM IR (textual, opaque pointers) front end. Function bodies are parsed on
//! first use.
use crate::expr::{self, E};
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug)]
pub enum V { I(u64), S(E), A(Rc<Vec<V>>) }

#[derive(Clone, Debug, PartialEq)]
pub enum Ty { Void, Int(u32), Ptr, F32, F64, Arr(u64, Rc<Ty>), Struct(Rc<Vec<Ty>>, bool), Vec(u64, Rc<Ty>), Other }

impl Ty {
    pub fn size(&self) -> u64 {
        match self {
            Ty::Void | Ty::Other => 0,
            Ty::Int(n) => { let b = ((*n as u64) + 7) / 8; match b { 0..=1 => 1, 2 => 2, 3..=4 => 4, 5..=8 => 8, _ => 16 * ((b + 15) / 16) } }
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Arr(n, t) => n * t.size(),
            Ty::Vec(n, t) => { if let Ty::Int(1) = **t { (n + 7) / 8 } else { n * t.size() } }
            Ty::Struct(fs, packed) => {
                let mut o = 0; let mut al = 1;
                for f in fs.iter() { let a = if *packed { 1 } else { f.align() }; o = (o + a - 1) / a * a + f.size(); al = al.max(a); }
                (o + al - 1) / al * al
            }
        }
    }
    pub fn align(&self) -> u64 {
        match self {
            Ty::Arr(_, t) => t.align(),
            Ty::Struct(fs, packed) => if *packed { 1 } else { fs.iter().map(|f| f.align()).max().unwrap_or(1) },
            Ty::Void | Ty::Other => 1,
            Ty::Vec(..) => self.size().next_power_of_two().max(1),
            t => t.size().max(1),
        }
    }
    pub fn field_off(&self, i: usize) -> u64 {
        match self {
            Ty::Struct(fs, packed) => {
                let mut o = 0;
                for (k, f) in fs.iter().enumerate() {
                    let a = if *packed { 1 } else { f.align() };
                    o = (o + a - 1) / a * a;
                    if k == i { return o; }
                    o += f.size();
                }
                panic!("field_off")
            }
            Ty::Arr(_, t) | Ty::Vec(_, t) => t.size() * i as u64,
            _ => panic!("field_off of {:?}", self),
        }
    }
    pub fn field(&self, i: usize) -> Ty {
        match self { Ty::Struct(fs, _) => fs[i].clone(), Ty::Arr(_, t) | Ty::Vec(_, t) => (**t).clone(), _ => panic!("field") }
    }
    /// scalar bit width
    pub fn bits(&self) -> u32 {
        match self { Ty::Int(n) => *n, Ty::Ptr | Ty::F64 => 64, Ty::F32 => 32, _ => panic!("bits of {:?}", self) }
    }
    pub fn is_scalar(&self) -> bool { matches!(self, Ty::Int(_) | Ty::Ptr | Ty::F32 | Ty::F64) }
}

#[derive(Clone, Debug)]
pub enum Opd { R(u32), K(V) }

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pred { Eq, Ne, Ugt, Uge, Ult, Ule, Sgt, Sge, Slt, Sle }

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Cast { Trunc, ZExt, SExt, PtrToInt, IntToPtr, Bit, FpToUi, FpToSi, UiToFp, SiToFp, FpExt, FpTrunc }

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum FOp { Add, Sub, Mul, Div, Rem, Neg }

#[derive(Clone, Debug)]
pub enum Callee { Direct(u32), Ind(Opd), Ext(Rc<str>), Asm(Rc<str>) }

#[derive(Clone, Debug)]
pub enum Inst {
    Bin { op: expr::Op, lanes: u32, w: u32, d: u32, a: Opd, b: Opd },
    FBin { op: FOp, w: u32, d: u32, a: Opd, b: Opd },
    FCmp { pred: Rc<str>, w: u32, d: u32, a: Opd, b: Opd },
    ICmp { pred: Pred, lanes: u32, w: u32, d: u32, a: Opd, b: Opd },
    Cast { k: Cast, from: Ty, to: Ty, d: u32, a: Opd },
    Alloca { d: u32, size: u64, n: Opd },
    Load { d: u32, ty: Ty, p: Opd },
    Store { ty: Ty, v: Opd, p: Opd },
    Gep { d: u32, base: Opd, off: i64, terms: Vec<(Opd, u32, i64)> },
    Select { d: u32, lanes: u32, ptr: bool, scalar: bool, w: u8, c: Opd, a: Opd, b: Opd },
    Call { d: Option<u32>, callee: Callee, args: Vec<Opd>, argtys: Vec<Ty>, ret: Ty, inv: Option<(u32, u32)> },
    Br(u32),
    CondBr(Opd, u32, u32),
    Switch { v: Opd, w: u32, def: u32, cases: Vec<(u128, u32)> },
    Ret(Option<Opd>),
    Unreachable,
    Resume(Opd),
    LandingPad { d: u32, cleanup: bool, catch: bool, filter: bool },
    ExtractV { d: u32, a: Opd, idx: Vec<u32> },
    InsertV { d: u32, a: Opd, v: Opd, idx: Vec<u32>, ty: Ty },
    ExtractE { d: u32, a: Opd, i: Opd },
    InsertE { d: u32, a: Opd, v: Opd, i: Opd },
    Shuffle { d: u32, a: Opd, b: Opd, n: u32, mask: Vec<u32> },
    Freeze { d: u32, a: Opd },
    Rmw { op: Rc<str>, w: u32, d: u32, p: Opd, v: Opd },
    CmpXchg { w: u32, d: u32, p: Opd, c: Opd, n: Opd },
    Nop,
}

pub struct Block { pub phis: Vec<(u32, Vec<(u32, Opd)>)>, pub insts: Vec<(Inst, u32)> }

pub struct Func {
    pub name: String,
    pub pretty: String,
    pub nregs: u32,
    pub params: Vec<u32>,
    pub blocks: Vec<Block>,
}

pub struct FuncDecl { pub name: String, pub pretty: String, start: usize, end: usize, pub body: Option<Rc<Func>> }

pub struct Global { pub name: String, pub addr: u64, pub size: u64, pub ro: bool, pub data: Vec<u8>, pub external: bool }

pub const GBASE: u64 = 0x1000_0000;
pub const FBASE: u64 = 0x7000_0000_0000;

pub struct Module {
    lines: Vec<String>,
    pub funcs: Vec<FuncDecl>,
    pub fmap: HashMap<String, u32>,
    /// declared externals
    pub exts: Vec<String>,
    pub emap: HashMap<String, u32>,
    pub globals: Vec<Global>,
    pub gmap: HashMap<String, u32>,
    types: HashMap<String, Ty>,
    meta: HashMap<u32, usize>,
}

#[derive(Clone, Debug, PartialEq)]
enum Tok<'a> { W(&'a str), L(String), G(String), Str(Vec<u8>), Q(String), P(u8), M(&'a str), At(&'a str) }

fn unescape(s: &[u8]) -> Vec<u8> {
    let mut o = vec![]; let mut i = 0;
    while i < s.len() {
        if s[i] == b'\\' && i + 2 < s.len() + 0 && s.get(i + 1).map_or(false, |c| c.is_ascii_hexdigit()) && s.get(i + 2).map_or(false, |c| c.is_ascii_hexdigit()) {
            o.push(u8::from_str_radix(std::str::from_utf8(&s[i + 1..i + 3]).unwrap(), 16).unwrap()); i += 3;
        } else if s[i] == b'\\' && s.get(i + 1) == Some(&b'\\') { o.push(b'\\'); i += 2; }
        else { o.push(s[i]); i += 1; }
    }
    o
}

fn lex(s: &str) -> Vec<Tok<'_>> {
    let b = s.as_bytes();
    let mut i = 0; let mut o = vec![];
    let idc = |c: u8| c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-';
    while i < b.len() {
        let c = b[i];
        match c {
            b' ' | b'\t' | b'\n' => i += 1,
            b'%' | b'@' => {
                let name;
                if b.get(i + 1) == Some(&b'"') {
                    let j = i + 2 + s[i + 2..].find('"').unwrap();
                    name = s[i + 2..j].to_string(); i = j + 1;
                } else {
                    let mut j = i + 1; while j < b.len() && idc(b[j]) { j += 1; }
                    name = s[i + 1..j].to_string(); i = j;
                }
                o.push(if c == b'%' { Tok::L(name) } else { Tok::G(name) });
            }
            b'c' if b.get(i + 1) == Some(&b'"') => {
                let j = i + 2 + s[i + 2..].find('"').unwrap();
                o.push(Tok::Str(unescape(&b[i + 2..j]))); i = j + 1;
            }
            b'"' => { let j = i + 1 + s[i + 1..].find('"').unwrap(); o.push(Tok::Q(s[i + 1..j].to_string())); i = j + 1; }
            b'!' => { let mut j = i + 1; while j < b.len() && idc(b[j]) { j += 1; } o.push(Tok::M(&s[i..j])); i = j; }
            b'#' => { let mut j = i + 1; while j < b.len() && idc(b[j]) { j += 1; } o.push(Tok::At(&s[i..j])); i = j; }
            b';' => { while i < b.len() && b[i] != b'\n' { i += 1; } }
            b'.' if s[i..].starts_with("...") => { o.push(Tok::W("...")); i += 3; }
            _ if idc(c) || c == b'+' => { let mut j = i + 1; while j < b.len() && (idc(b[j]) || b[j] == b'+') { j += 1; } o.push(Tok::W(&s[i..j])); i = j; }
            _ => { o.push(Tok::P(c)); i += 1; }
        }
    }
    o
}

struct Ps<'a> { t: Vec<Tok<'a>>, i: usize, src: &'a str }

impl<'a> Ps<'a> {
    fn new(s: &'a str) -> Ps<'a> { Ps { t: lex(s), i: 0, src: s } }
    fn peek(&self) -> Option<&Tok<'a>> { self.t.get(self.i) }
    fn next(&mut self) -> Tok<'a> { let t = self.t.get(self.i).cloned(); self.i += 1; t.unwrap_or_else(|| panic!("unexpected end in: {}", self.src)) }
    fn is_p(&self, c: u8) -> bool { self.peek() == Some(&Tok::P(c)) }
    fn eat_p(&mut self, c: u8) -> bool { if self.is_p(c) { self.i += 1; true } else { false } }
    fn exp_p(&mut self, c: u8) { if !self.eat_p(c) { panic!("expected '{}' at {:?} in: {}", c as char, self.peek(), self.src) } }
    fn eat_w(&mut self, w: &str) -> bool { if let Some(Tok::W(x)) = self.peek() { if *x == w { self.i += 1; return true; } } false }
    fn word(&mut self) -> &'a str { match self.next() { Tok::W(w) => w, t => panic!("expected word, got {:?} in {}", t, self.src) } }
    fn skip_balanced(&mut self) {
        // at '('
        let mut d = 0;
        loop {
            match self.next() { Tok::P(b'(') => d += 1, Tok::P(b')') => { d -= 1; if d == 0 { return; } } _ => () }
        }
    }
}

fn is_value_word(w: &str) -> bool {
    matches!(w, "null" | "undef" | "poison" | "true" | "false" | "zeroinitializer" | "inttoptr" | "ptrtoint" | "getelementptr" | "trunc" | "sub" | "add" | "bitcast" | "splat" | "asm" | "none")
        || w.as_bytes()[0].is_ascii_digit() || w.starts_with('-') || w.starts_with("u0x") || w.starts_with("f0x") || w.starts_with("s0x") || w.starts_with("splat") || w == "inf" || w == "nan" || w == "+inf" || w == "-inf"
}
fn is_type_word(w: &str) -> bool {
    matches!(w, "void" | "ptr" | "float" | "double" | "metadata" | "label" | "half" | "x86_fp80" | "token" | "fp128")
        || (w.starts_with('i') && w.len() > 1 && w[1..].bytes().all(|c| c.is_ascii_digit()))
}

impl Module {
    pub fn load(path: &str) -> Module {
        let txt = std::fs::read_to_string(path).unwrap_or_else(|e| { eprintln!("cannot read {}: {}", path, e); std::process::exit(70) });
        let lines: Vec<String> = txt.lines().map(|l| l.to_string()).collect();
        drop(txt);
        let mut m = Module { lines: vec![], funcs: vec![], fmap: HashMap::new(), exts: vec![], emap: HashMap::new(), globals: vec![], gmap: HashMap::new(), types: HashMap::new(), meta: HashMap::new() };
        let mut gl = vec![];
        let mut i = 0;
        while i < lines.len() {
            let l = &lines[i];
            if l.starts_with("define ") {
                let name = Self::sym_name(l);
                let mut pretty = name.clone();
                let mut k = i;
                while k > 0 && lines[k - 1].starts_with("; ") { k -= 1; if !lines[k].starts_with("; Function Attrs") { pretty = lines[k][2..].to_string(); } }
                let start = i;
                while lines[i] != "}" { i += 1; }
                m.fmap.insert(name.clone(), m.funcs.len() as u32);
                m.funcs.push(FuncDecl { name, pretty, start, end: i, body: None });
            } else if l.starts_with("declare ") {
                let name = Self::sym_name(l);
                m.emap.insert(name.clone(), m.exts.len() as u32);
                m.exts.push(name);
            } else if l.starts_with('@') { gl.push(i); }
            else if l.starts_with('!') {
                if let Some(p) = l.find(" = ") { if let Ok(n) = l[1..p].parse::<u32>() { m.meta.insert(n, i); } }
            } else if l.starts_with('%') && l.contains(" = type ") {
                let mut ps = Ps::new(l);
                let n = match ps.next() { Tok::L(n) => n, _ => unreachable!() };
                ps.i += 2;
                let t = m.ty(&mut ps);
                m.types.insert(n, t);
            }
            i += 1;
        }
        m.lines = lines;
        // pass 1: sizes and addresses
        let mut addr = GBASE;
        let mut inits: Vec<(u32, usize, usize)> = vec![]; // global, line, token index of the initialiser
        let glines: Vec<String> = gl.iter().map(|&i| Self::strip_meta(&m.lines[i]).to_string()).collect();
        let mut gtys = vec![];
        for (gi, l) in glines.iter().enumerate() {
            let mut ps = Ps::new(l);
            let name = match ps.next() { Tok::G(n) => n, t => panic!("{:?}", t) };
            let mut ro = false; let mut external = false;
            loop {
                match ps.next() {
                    Tok::W("constant") => { ro = true; break; }
                    Tok::W("global") => break,
                    Tok::W("alias") => { external = true; break; }
                    Tok::W("external") | Tok::W("extern_weak") => external = true,
                    Tok::P(b'(') => { ps.i -= 1; ps.skip_balanced(); }
                    _ => (),
                }
            }
            let t = m.ty(&mut ps);
            let size = t.size();
            let g = Global { name: name.clone(), addr, size, ro, data: vec![0; size as usize], external };
            let id = m.globals.len() as u32;
            m.gmap.insert(name, id);
            m.globals.push(g);
            if !external { inits.push((id, gi, ps.i)); }
            gtys.push(t);
            addr += (size.max(1) + 63) / 64 * 64 + 64;
        }
        // pass 2: initialisers
        for (id, gi, ti) in inits {
            let mut ps = Ps::new(&glines[gi]);
            ps.i = ti;
            let t = gtys[id as usize].clone();
            let mut out = vec![0u8; t.size() as usize];
            m.init(&mut ps, &t, &mut out);
            m.globals[id as usize].data = out;
        }
        m
    }

    fn strip_meta(l: &str) -> &str { match l.find(", !") { Some(p) => &l[..p], None => l } }

    fn sym_name(l: &str) -> String {
        let p = l.find('@').unwrap();
        let r = &l[p + 1..];
        if r.starts_with('"') { let e = r[1..].find('"').unwrap(); r[1..1 + e].to_string() }
        else { let e = r.find('(').unwrap(); r[..e].to_string() }
    }

    fn ty(&self, ps: &mut Ps) -> Ty {
        match ps.next() {
            Tok::W(w) => match w {
                "void" => Ty::Void, "ptr" => { if ps.eat_w("addrspace") { ps.skip_balanced(); } Ty::Ptr }
                "float" => Ty::F32, "double" => Ty::F64, "metadata" | "label" | "token" => Ty::Other,
                _ if is_type_word(w) && w.starts_with('i') => Ty::Int(w[1..].parse().unwrap()),
                _ => panic!("type {:?} in {}", w, ps.src),
            },
            Tok::P(b'[') => { let n: u64 = ps.word().parse().unwrap(); ps.word(); let t = self.ty(ps); ps.exp_p(b']'); Ty::Arr(n, Rc::new(t)) }
            Tok::P(b'{') => { let f = self.fields(ps); ps.exp_p(b'}'); Ty::Struct(Rc::new(f), false) }
            Tok::P(b'<') => {
                if ps.eat_p(b'{') { let f = self.fields(ps); ps.exp_p(b'}'); ps.exp_p(b'>'); Ty::Struct(Rc::new(f), true) }
                else { let n: u64 = ps.word().parse().unwrap(); ps.word(); let t = self.ty(ps); ps.exp_p(b'>'); Ty::Vec(n, Rc::new(t)) }
            }
            Tok::L(n) => self.types.get(&n).cloned().unwrap_or(Ty::Other),
            t => panic!("type token {:?} in {}", t, ps.src),
        }
    }
    fn fields(&self, ps: &mut Ps) -> Vec<Ty> {
        let mut f = vec![];
        if ps.is_p(b'}') { return f; }
        loop { f.push(self.ty(ps)); if !ps.eat_p(b',') { return f; } }
    }

    pub fn global_addr(&self, n: &str) -> Option<u64> {
        if let Some(&g) = self.gmap.get(n) {
            let g = &self.globals[g as usize];
            if g.external { return Some(0); }
            return Some(g.addr);
        }
        if let Some(&f) = self.fmap.get(n) { return Some(FBASE + f as u64 * 16); }
        if n == "statx" || n == "gettid" || n == "__cxa_thread_atexit_impl" || n == "gnu_get_libc_version" || n == "copy_file_range" || n == "__dso_handle" || n == "getrandom" { return Some(0); }
        if let Some(&f) = self.emap.get(n) { return Some(FBASE + 0x1000_0000 + f as u64 * 16); }
        None
    }

    fn init(&self, ps: &mut Ps, t: &Ty, out: &mut [u8]) {
        match ps.peek().unwrap().clone() {
            Tok::W("zeroinitializer") | Tok::W("null") | Tok::W("undef") | Tok::W("poison") => { ps.i += 1; }
            Tok::Str(s) => { ps.i += 1; out[..s.len()].copy_from_slice(&s); }
            Tok::P(b'[') | Tok::P(b'{') => {
                let close = if ps.eat_p(b'[') { b']' } else { ps.i += 1; b'}' };
                let mut k = 0;
                while !ps.eat_p(close) {
                    let ft = self.ty(ps);
                    let o = t.field_off(k) as usize;
                    let sz = ft.size() as usize;
                    self.init(ps, &ft, &mut out[o..o + sz]);
                    ps.eat_p(b',');
                    k += 1;
                }
            }
            Tok::P(b'<') => {
                ps.i += 1;
                if ps.eat_p(b'{') {
                    let mut k = 0;
                    while !ps.eat_p(b'}') {
                        let ft = self.ty(ps);
                        let o = t.field_off(k) as usize;
                        let sz = ft.size() as usize;
                        self.init(ps, &ft, &mut out[o..o + sz]);
                        ps.eat_p(b',');
                        k += 1;
                    }
                    ps.exp_p(b'>');
                } else {
                    let mut k = 0;
                    while !ps.eat_p(b'>') {
                        let ft = self.ty(ps);
                        let sz = ft.size() as usize;
                        let o = k * sz;
                        self.init(ps, &ft, &mut out[o..o + sz]);
                        ps.eat_p(b',');
                        k += 1;
                    }
                }
            }
            _ => {
                let v = self.konst(ps, t);
                let n = out.len();
                let x: u128 = match v { V::I(x) => x as u128, V::S(e) => expr::as_const(e).unwrap(), V::A(_) => { return; } };
                for i in 0..n { out[i] = (x >> (8 * i)) as u8; }
            }
        }
    }

    /// constant operand of type t
    fn konst(&self, ps: &mut Ps, t: &Ty) -> V {
        match ps.next() {
            Tok::G(n) => V::I(self.global_addr(&n).unwrap_or_else(|| panic!("unknown global @{}", n))),
            Tok::W(w) => match w {
                "true" => V::I(1),
                "false" | "null" => V::I(0),
                "none" => V::I(0),
                "undef" | "poison" | "zeroinitializer" => self.zero(t),
                "inttoptr" | "ptrtoint" | "bitcast" | "trunc" => {
                    ps.exp_p(b'(');
                    let ft = self.ty(ps);
                    let v = self.konst(ps, &ft);
                    ps.eat_w("to");
                    let tt = self.ty(ps);
                    ps.exp_p(b')');
                    match (v, &tt) { (V::I(x), Ty::Int(n)) if *n < 64 => V::I(x & ((1u64 << n) - 1)), (v, _) => v }
                }
                "sub" | "add" => {
                    while let Some(Tok::W(_)) = ps.peek() { ps.i += 1; }
                    ps.exp_p(b'(');
                    let t1 = self.ty(ps); let a = self.konst(ps, &t1); ps.exp_p(b',');
                    let t2 = self.ty(ps); let b = self.konst(ps, &t2); ps.exp_p(b')');
                    match (a, b) { (V::I(a), V::I(b)) => V::I(if w == "sub" { a.wrapping_sub(b) } else { a.wrapping_add(b) }), _ => panic!() }
                }
                "getelementptr" => {
                    while let Some(Tok::W(x)) = ps.peek() { if *x == "inrange" { ps.i += 1; ps.skip_balanced(); } else { ps.i += 1; } }
                    ps.exp_p(b'(');
                    let st = self.ty(ps); ps.exp_p(b',');
                    let pt = self.ty(ps); let base = match self.konst(ps, &pt) { V::I(x) => x, _ => panic!() };
                    let mut cur = st; let mut off = 0u64; let mut first = true;
                    while ps.eat_p(b',') {
                        let it = self.ty(ps);
                        let ix = match self.konst(ps, &it) { V::I(x) => { let w = it.bits(); ((x << (64 - w)) as i64) >> (64 - w) } _ => panic!() };
                        if first { off = off.wrapping_add((cur.size() as i64 * ix) as u64); first = false; }
                        else { off = off.wrapping_add(match &cur { Ty::Struct(..) => cur.field_off(ix as usize), _ => (cur.field(0).size() as i64 * ix) as u64 }); cur = cur.field(if matches!(cur, Ty::Struct(..)) { ix as usize } else { 0 }); }
                    }
                    ps.exp_p(b')');
                    V::I(base.wrapping_add(off))
                }
                "splat" => {
                    ps.exp_p(b'(');
                    let et = self.ty(ps); let v = self.konst(ps, &et); ps.exp_p(b')');
                    if let Ty::Vec(n, _) = t { V::A(Rc::new(vec![v; *n as usize])) } else { panic!() }
                }
                _ => match t {
                    Ty::Int(n) => {
                        let x: u128 = if let Some(h) = w.strip_prefix("u0x").or(w.strip_prefix("s0x")) { u128::from_str_radix(h, 16).unwrap() }
                            else if let Some(p) = w.strip_prefix('-') { 0u128.wrapping_sub(p.parse::<u128>().unwrap_or_else(|_| panic!("int {} in {}", w, ps.src))) }
                            else { w.parse::<u128>().unwrap_or_else(|_| panic!("int {} in {}", w, ps.src)) };
                        if *n <= 64 { V::I((x & expr::mask(*n as u8)) as u64) } else { V::S(expr::konst(x, *n as u8)) }
                    }
                    Ty::F64 | Ty::F32 => {
                        let d = if let Some(h) = w.strip_prefix("0x") { f64::from_bits(u64::from_str_radix(h, 16).unwrap()) }
                            else if let Some(h) = w.strip_prefix("f0x") { let b = u64::from_str_radix(h, 16).unwrap(); return V::I(b) }
                            else { w.parse::<f64>().unwrap_or_else(|_| panic!("float {} in {}", w, ps.src)) };
                        if *t == Ty::F64 { V::I(d.to_bits()) } else { V::I((d as f32).to_bits() as u64) }
                    }
                    Ty::Ptr => V::I(w.parse::<u64>().unwrap()),
                    _ => panic!("const {} of {:?} in {}", w, t, ps.src),
                },
            },
            Tok::P(c @ (b'{' | b'[' | b'<')) => {
                let close = match c { b'{' => b'}', b'[' => b']', _ => b'>' };
                let mut packed = false;
                if c == b'<' && ps.eat_p(b'{') { packed = true; }
                let close = if packed { b'}' } else { close };
                let mut vs = vec![];
                while !ps.eat_p(close) { let ft = self.ty(ps); vs.push(self.konst(ps, &ft)); ps.eat_p(b','); }
                if packed { ps.exp_p(b'>'); }
                V::A(Rc::new(vs))
            }
            Tok::Str(s) => V::A(Rc::new(s.iter().map(|&b| V::I(b as u64)).collect())),
            t => panic!("const token {:?} in {}", t, ps.src),
        }
    }

    pub fn zero(&self, t: &Ty) -> V { zero_of(t) }

    /// (file, line) of a debug location id
    pub fn meta_count(&self) -> usize { self.meta.keys().max().map(|x| *x as usize + 1).unwrap_or(0) }
    pub fn dbg_loc(&self, id: u32) -> Option<(String, u32)> {
        let l = &self.lines[*self.meta.get(&id)?];
        let line: u32 = Self::mfield(l, "line: ")?.parse().ok()?;
        let mut sc: u32 = Self::mfield(l, "scope: !")?.parse().ok()?;
        for _ in 0..50 {
            let s = &self.lines[*self.meta.get(&sc)?];
            if let Some(f) = Self::mfield(s, "file: !") {
                let fl = &self.lines[*self.meta.get(&f.parse().ok()?)?];
                let fname = fl.split("filename: \"").nth(1)?.split('"').next()?.to_string();
                let dir = fl.split("directory: \"").nth(1).and_then(|d| d.split('"').next()).unwrap_or("");
                return Some((if fname.starts_with('/') || dir.is_empty() { fname } else { format!("{}/{}", dir, fname) }, line));
            }
            sc = Self::mfield(s, "scope: !")?.parse().ok()?;
        }
        None
    }
    /// names of the (possibly inlined) function of a debug location
    pub fn dbg_fn(&self, id: u32) -> Option<String> {
        let l = &self.lines[*self.meta.get(&id)?];
        let mut sc: u32 = Self::mfield(l, "scope: !")?.parse().ok()?;
        for _ in 0..50 {
            let s = &self.lines[*self.meta.get(&sc)?];
            if s.contains("!DISubprogram(") {
                return s.split("name: \"").nth(1).and_then(|d| d.split('"').next()).map(|x| x.to_string());
            }
            sc = Self::mfield(s, "scope: !")?.parse().ok()?;
        }
        None
    }
    fn mfield<'a>(l: &'a str, k: &str) -> Option<&'a str> {
        let p = l.find(k)? + k.len();
        let r = &l[p..];
        let e = r.find(|c: char| !c.is_ascii_digit()).unwrap_or(r.len());
        Some(&r[..e])
    }

    pub fn func(&mut self, id: u32) -> Rc<Func> {
        if let Some(f) = &self.funcs[id as usize].body { return f.clone(); }
        let (s, e) = (self.funcs[id as usize].start, self.funcs[id as usize].end);
        let f = Rc::new(self.parse_func(id, s, e));
        self.funcs[id as usize].body = Some(f.clone());
        f
    }

    fn parse_func(&self, id: u32, start: usize, end: usize) -> Func {
        let mut regs: HashMap<String, u32> = HashMap::new();
        let mut nregs = 0u32;
        macro_rules! reg { ($n:expr) => {{ let n: String = $n; match regs.get(&n) { Some(&r) => r, None => { let r = nregs; nregs += 1; regs.insert(n, r); r } } }} }
        // header
        let head = &self.lines[start];
        let mut ps = Ps::new(head);
        ps.i = 1;
        // skip to '@name'
        while !matches!(ps.peek(), Some(Tok::G(_))) { ps.i += 1; }
        ps.i += 1;
        ps.exp_p(b'(');
        let mut params = vec![];
        let mut implicit = 0u32;
        while !ps.eat_p(b')') {
            if ps.eat_w("...") { continue; }
            let _t = self.ty(&mut ps);
            self.skip_attrs(&mut ps);
            if let Some(Tok::L(n)) = ps.peek().cloned() { ps.i += 1; if let Ok(k) = n.parse::<u32>() { implicit = k + 1; } params.push(reg!(n)); }
            else { params.push(reg!(implicit.to_string())); implicit += 1; }
            ps.eat_p(b',');
        }
        // group into logical lines and blocks
        let mut blocks_src: Vec<(String, Vec<String>)> = vec![];
        let mut ln = start + 1;
        let mut implicit_first = true;
        while ln < end {
            let l = &self.lines[ln];
            ln += 1;
            if l.trim().is_empty() || l.starts_with(';') { continue; }
            if !l.starts_with(' ') {
                // label
                let lab = l.split("; preds").next().unwrap().trim_end();
                let lab = lab.trim_end_matches(':').trim_end();
                let lab = lab.strip_suffix(':').unwrap_or(lab);
                let lab = lab.trim_matches('"').to_string();
                blocks_src.push((lab, vec![]));
                implicit_first = false;
                continue;
            }
            if implicit_first { blocks_src.push((implicit.to_string(), vec![])); implicit_first = false; }
            let t = l.trim_start();
            let ind = l.len() - t.len();
            let b = &mut blocks_src.last_mut().unwrap().1;
            if ind > 2 || t.starts_with(']') { let s = b.last_mut().unwrap(); s.push(' '); s.push_str(t); }
            else if t.starts_with("#dbg") { }
            else { b.push(t.to_string()); }
        }
        let bmap: HashMap<String, u32> = blocks_src.iter().enumerate().map(|(i, b)| (b.0.clone(), i as u32)).collect();
        let mut blocks = vec![];
        for (_, src) in &blocks_src {
            let mut phis = vec![]; let mut insts = vec![];
            for line in src {
                let dbg: u32 = line.find("!dbg !").map(|p| { let r = &line[p + 6..]; let e = r.find(|c: char| !c.is_ascii_digit()).unwrap_or(r.len()); r[..e].parse().unwrap() }).unwrap_or(0);
                let l = Self::strip_meta(line);
                let mut ps = Ps::new(l);
                let mut dst = String::new();
                if let Some(Tok::L(n)) = ps.peek().cloned() {
                    if ps.t.get(1) == Some(&Tok::P(b'=')) { dst = n; ps.i = 2; }
                }
                macro_rules! opd { ($t:expr) => {{ let t = $t; match ps.peek().cloned() { Some(Tok::L(n)) => { ps.i += 1; Opd::R(reg!(n)) } _ => Opd::K(self.konst(&mut ps, &t)) } }} }
                macro_rules! topd { () => {{ let t = self.ty(&mut ps); self.skip_attrs(&mut ps); let o = opd!(t.clone()); (t, o) }} }
                macro_rules! lbl { () => {{ ps.eat_w("label"); match ps.next() { Tok::L(n) => *bmap.get(&n).unwrap_or_else(|| panic!("label {} in {}", n, l)), t => panic!("{:?}", t) } }} }
                let mut op = ps.word();
                if op == "tail" || op == "musttail" || op == "notail" { op = ps.word(); }
                let vecw = |t: &Ty| -> (u32, u32) { match t { Ty::Vec(n, e) => (*n as u32, e.bits()), t => (0, t.bits()) } };
                let inst = match op {
                    "add" | "sub" | "mul" | "udiv" | "sdiv" | "urem" | "srem" | "and" | "or" | "xor" | "shl" | "lshr" | "ashr" => {
                        while matches!(ps.peek(), Some(Tok::W("nuw" | "nsw" | "exact" | "disjoint"))) { ps.i += 1; }
                        let t = self.ty(&mut ps); let a = opd!(t.clone()); ps.exp_p(b','); let b = opd!(t.clone());
                        let (lanes, w) = vecw(&t);
                        use expr::Op::*;
                        let o = match op { "add" => Add, "sub" => Sub, "mul" => Mul, "udiv" => UDiv, "sdiv" => SDiv, "urem" => URem, "srem" => SRem, "and" => And, "or" => Or, "xor" => Xor, "shl" => Shl, "lshr" => LShr, _ => AShr };
                        Inst::Bin { op: o, lanes, w, d: reg!(dst), a, b }
                    }
                    "fadd" | "fsub" | "fmul" | "fdiv" | "frem" | "fneg" => {
                        while matches!(ps.peek(), Some(Tok::W(w)) if !is_type_word(w)) { ps.i += 1; }
                        let t = self.ty(&mut ps); let a = opd!(t.clone());
                        let b = if op == "fneg" { Opd::K(V::I(0)) } else { ps.exp_p(b','); opd!(t.clone()) };
                        let o = match op { "fadd" => FOp::Add, "fsub" => FOp::Sub, "fmul" => FOp::Mul, "fdiv" => FOp::Div, "frem" => FOp::Rem, _ => FOp::Neg };
                        Inst::FBin { op: o, w: t.bits(), d: reg!(dst), a, b }
                    }
                    "fcmp" => {
                        while matches!(ps.peek(), Some(Tok::W("nnan" | "ninf" | "nsz" | "fast" | "arcp" | "contract" | "reassoc" | "afn"))) { ps.i += 1; }
                        let p: Rc<str> = ps.word().into();
                        let t = self.ty(&mut ps); let a = opd!(t.clone()); ps.exp_p(b','); let b = opd!(t.clone());
                        Inst::FCmp { pred: p, w: t.bits(), d: reg!(dst), a, b }
                    }
                    "icmp" => {
                        ps.eat_w("samesign");
                        let p = match ps.word() { "eq" => Pred::Eq, "ne" => Pred::Ne, "ugt" => Pred::Ugt, "uge" => Pred::Uge, "ult" => Pred::Ult, "ule" => Pred::Ule, "sgt" => Pred::Sgt, "sge" => Pred::Sge, "slt" => Pred::Slt, "sle" => Pred::Sle, x => panic!("pred {}", x) };
                        let t = self.ty(&mut ps); let a = opd!(t.clone()); ps.exp_p(b','); let b = opd!(t.clone());
                        let (lanes, w) = vecw(&t);
                        Inst::ICmp { pred: p, lanes, w, d: reg!(dst), a, b }
                    }
                    "trunc" | "zext" | "sext" | "ptrtoint" | "inttoptr" | "bitcast" | "fptoui" | "fptosi" | "uitofp" | "sitofp" | "fpext" | "fptrunc" | "ptrtoaddr" => {
                        while matches!(ps.peek(), Some(Tok::W("nuw" | "nsw" | "nneg"))) { ps.i += 1; }
                        let (from, a) = topd!();
                        ps.eat_w("to");
                        let to = self.ty(&mut ps);
                        let k = match op { "trunc" => Cast::Trunc, "zext" => Cast::ZExt, "sext" => Cast::SExt, "ptrtoint" | "ptrtoaddr" => Cast::PtrToInt, "inttoptr" => Cast::IntToPtr, "bitcast" => Cast::Bit, "fptoui" => Cast::FpToUi, "fptosi" => Cast::FpToSi, "uitofp" => Cast::UiToFp, "sitofp" => Cast::SiToFp, "fpext" => Cast::FpExt, _ => Cast::FpTrunc };
                        Inst::Cast { k, from, to, d: reg!(dst), a }
                    }
                    "alloca" => {
                        let t = self.ty(&mut ps);
                        let mut n = Opd::K(V::I(1));
                        if ps.eat_p(b',') { if !matches!(ps.peek(), Some(Tok::W("align"))) { n = topd!().1; } }
                        Inst::Alloca { d: reg!(dst), size: t.size(), n }
                    }
                    "load" => {
                        ps.eat_w("atomic"); ps.eat_w("volatile");
                        let ty = self.ty(&mut ps); ps.exp_p(b','); let (_, p) = topd!();
                        Inst::Load { d: reg!(dst), ty, p }
                    }
                    "store" => {
                        ps.eat_w("atomic"); ps.eat_w("volatile");
                        let (ty, v) = topd!(); ps.exp_p(b','); let (_, p) = topd!();
                        Inst::Store { ty, v, p }
                    }
                    "getelementptr" => {
                        while matches!(ps.peek(), Some(Tok::W("inbounds" | "nuw" | "nusw" | "nsw"))) { ps.i += 1; }
                        let st = self.ty(&mut ps); ps.exp_p(b',');
                        let (_, base) = topd!();
                        let mut cur = st; let mut off = 0i64; let mut terms = vec![]; let mut first = true;
                        while ps.eat_p(b',') {
                            let (it, ix) = topd!();
                            let w = it.bits();
                            let scale = if first { cur.size() as i64 } else { match &cur { Ty::Struct(..) => -1, _ => cur.field(0).size() as i64 } };
                            match (&ix, scale) {
                                (Opd::K(V::I(x)), -1) if !first => { off += cur.field_off(*x as usize) as i64; cur = cur.field(*x as usize); }
                                (Opd::K(V::I(x)), s) => { let sx = ((*x << (64 - w)) as i64) >> (64 - w); off = off.wrapping_add(sx.wrapping_mul(s)); if !first { cur = cur.field(0); } }
                                (_, s) => { terms.push((ix.clone(), w, s)); if !first { cur = cur.field(0); } }
                            }
                            first = false;
                        }
                        Inst::Gep { d: reg!(dst), base, off, terms }
                    }
                    "select" => {
                        while matches!(ps.peek(), Some(Tok::W(w)) if !is_type_word(w)) { ps.i += 1; }
                        let (ct, c) = topd!(); ps.exp_p(b','); let (t, a) = topd!(); ps.exp_p(b','); let (_, b) = topd!();
                        let lanes = if let Ty::Vec(n, _) = ct { n as u32 } else { 0 };
                        let w = match &t { Ty::Vec(_, e) => e.bits(), t if t.is_scalar() => t.bits(), _ => 0 } as u8;
                        Inst::Select { d: reg!(dst), lanes, ptr: t == Ty::Ptr, scalar: t.is_scalar(), w, c, a, b }
                    }
                    "call" | "invoke" => {
                        // flags, cc, ret attrs
                        loop {
                            match ps.peek() {
                                Some(Tok::W(w)) if is_type_word(w) => break,
                                Some(Tok::W("align")) => { ps.i += 2; }
                                Some(Tok::W(_)) => { ps.i += 1; if ps.is_p(b'(') { ps.skip_balanced(); } }
                                _ => break,
                            }
                        }
                        let ret = self.ty(&mut ps);
                        if ps.is_p(b'(') { ps.skip_balanced(); }
                        let callee = match ps.peek().cloned() {
                            Some(Tok::G(n)) => { ps.i += 1; if let Some(&f) = self.fmap.get(&n) { Callee::Direct(f) } else { Callee::Ext(n.as_str().into()) } }
                            Some(Tok::W("asm")) => {
                                ps.i += 1;
                                while matches!(ps.peek(), Some(Tok::W(_))) { ps.i += 1; }
                                let s = match ps.next() { Tok::Q(s) => s, t => panic!("{:?}", t) };
                                ps.exp_p(b','); ps.next();
                                Callee::Asm(s.as_str().into())
                            }
                            _ => Callee::Ind(opd!(Ty::Ptr)),
                        };
                        ps.exp_p(b'(');
                        let mut args = vec![]; let mut argtys = vec![];
                        while !ps.eat_p(b')') {
                            let t = self.ty(&mut ps);
                            if t == Ty::Other { // metadata operand
                                while !ps.is_p(b',') && !ps.is_p(b')') { if ps.is_p(b'(') { ps.skip_balanced() } else { ps.i += 1; } }
                                ps.eat_p(b',');
                                continue;
                            }
                            self.skip_attrs(&mut ps);
                            args.push(opd!(t.clone()));
                            argtys.push(t);
                            ps.eat_p(b',');
                        }
                        let mut inv = None;
                        if op == "invoke" {
                            while !ps.eat_w("to") { ps.i += 1; }
                            let n = lbl!();
                            ps.eat_w("unwind");
                            let u = lbl!();
                            inv = Some((n, u));
                        }
                        let d = if dst.is_empty() { None } else { Some(reg!(dst)) };
                        let mut inst = Inst::Call { d, callee, args, argtys, ret, inv };
                        if let Inst::Call { callee: Callee::Ext(n), .. } = &inst {
                            if n.starts_with("llvm.lifetime") || n.starts_with("llvm.experimental.noalias") || n.starts_with("llvm.dbg") || &**n == "llvm.assume" || n.starts_with("llvm.donothing") || n.starts_with("llvm.prefetch") || n.starts_with("llvm.pseudoprobe") { inst = Inst::Nop; }
                        }
                        inst
                    }
                    "br" => {
                        if matches!(ps.peek(), Some(Tok::W("label"))) { Inst::Br(lbl!()) }
                        else { let (_, c) = topd!(); ps.exp_p(b','); let a = lbl!(); ps.exp_p(b','); let b = lbl!(); Inst::CondBr(c, a, b) }
                    }
                    "switch" => {
                        let (t, v) = topd!(); ps.exp_p(b','); let def = lbl!(); ps.exp_p(b'[');
                        let mut cases = vec![];
                        while !ps.eat_p(b']') { let ct = self.ty(&mut ps); let k = match self.konst(&mut ps, &ct) { V::I(x) => x as u128, V::S(e) => expr::as_const(e).unwrap(), k => panic!("switch {:?}", k) }; ps.exp_p(b','); cases.push((k, lbl!())); }
                        Inst::Switch { v, w: t.bits(), def, cases }
                    }
                    "ret" => { if ps.eat_w("void") { Inst::Ret(None) } else { Inst::Ret(Some(topd!().1)) } }
                    "unreachable" => Inst::Unreachable,
                    "resume" => Inst::Resume(topd!().1),
                    "landingpad" => {
                        let _ = self.ty(&mut ps);
                        let s = l;
                        Inst::LandingPad { d: reg!(dst), cleanup: s.contains(" cleanup"), catch: s.contains(" catch "), filter: s.contains(" filter ") }
                    }
                    "extractvalue" => { let (_, a) = topd!(); let mut idx = vec![]; while ps.eat_p(b',') { idx.push(ps.word().parse().unwrap()); } Inst::ExtractV { d: reg!(dst), a, idx } }
                    "insertvalue" => { let (ty, a) = topd!(); ps.exp_p(b','); let (_, v) = topd!(); let mut idx = vec![]; while ps.eat_p(b',') { idx.push(ps.word().parse().unwrap()); } Inst::InsertV { d: reg!(dst), a, v, idx, ty } }
                    "extractelement" => { let (_, a) = topd!(); ps.exp_p(b','); let (_, i) = topd!(); Inst::ExtractE { d: reg!(dst), a, i } }
                    "insertelement" => { let (_, a) = topd!(); ps.exp_p(b','); let (_, v) = topd!(); ps.exp_p(b','); let (_, i) = topd!(); Inst::InsertE { d: reg!(dst), a, v, i } }
                    "shufflevector" => {
                        let (t, a) = topd!(); ps.exp_p(b','); let (_, b) = topd!(); ps.exp_p(b',');
                        let (mt, mv) = topd!();
                        let n = if let Ty::Vec(n, _) = t { n as u32 } else { panic!() };
                        let mn = if let Ty::Vec(n, _) = mt { n as usize } else { panic!() };
                        let mask = match mv { Opd::K(V::A(v)) => v.iter().map(|x| if let V::I(k) = x { *k as u32 } else { 0 }).collect(), _ => vec![0; mn] };
                        Inst::Shuffle { d: reg!(dst), a, b, n, mask }
                    }
                    "freeze" => Inst::Freeze { d: { let r = reg!(dst); r }, a: topd!().1 },
                    "atomicrmw" => { ps.eat_w("volatile"); let o: Rc<str> = ps.word().into(); let (_, p) = topd!(); ps.exp_p(b','); let (t, v) = topd!(); Inst::Rmw { op: o, w: t.bits(), d: reg!(dst), p, v } }
                    "cmpxchg" => { ps.eat_w("weak"); ps.eat_w("volatile"); let (_, p) = topd!(); ps.exp_p(b','); let (t, c) = topd!(); ps.exp_p(b','); let (_, n) = topd!(); Inst::CmpXchg { w: t.bits(), d: reg!(dst), p, c, n } }
                    "fence" => Inst::Nop,
                    "phi" => {
                        while matches!(ps.peek(), Some(Tok::W(w)) if !is_type_word(w)) { ps.i += 1; }
                        let t = self.ty(&mut ps);
                        let mut inc = vec![];
                        while ps.eat_p(b'[') {
                            let o = opd!(t.clone()); ps.exp_p(b',');
                            let b = match ps.next() { Tok::L(n) => *bmap.get(&n).unwrap_or_else(|| panic!("phi label {} in {} ({})", n, l, self.funcs[id as usize].name)), t => panic!("{:?}", t) };
                            ps.exp_p(b']'); ps.eat_p(b',');
                            inc.push((b, o));
                        }
                        phis.push((reg!(dst), inc));
                        continue;
                    }
                    _ => panic!("instruction {} in {}", op, l),
                };
                insts.push((inst, dbg));
            }
            blocks.push(Block { phis, insts });
        }
        let fd = &self.funcs[id as usize];
        Func { name: fd.name.clone(), pretty: fd.pretty.clone(), nregs, params, blocks }
    }

    fn skip_attrs(&self, ps: &mut Ps) {
        loop {
            match ps.peek() {
                Some(Tok::W("align")) => { ps.i += 1; if ps.is_p(b'(') { ps.skip_balanced(); } else { ps.i += 1; } }
                Some(Tok::W(w)) if !is_value_word(w) => { ps.i += 1; if ps.is_p(b'(') { ps.skip_balanced(); } }
                Some(Tok::Q(_)) => { ps.i += 1; if ps.eat_p(b'=') { ps.i += 1; } }
                _ => return,
            }
        }
    }
}

pub fn zero_of(t: &Ty) -> V {
    match t {
        Ty::Int(n) if *n > 64 => V::S(expr::konst(0, *n as u8)),
        Ty::Arr(n, e) | Ty::Vec(n, e) => V::A(Rc::new(vec![zero_of(e); *n as usize])),
        Ty::Struct(f, _) => V::A(Rc::new(f.iter().map(zero_of).collect())),
        _ => V::I(0),
    }
}
