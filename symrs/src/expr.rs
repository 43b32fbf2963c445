//! Hash-consed bit-vector expressions (width 1..=128) with local simplification.
//! Single-threaded global arena.
#![allow(static_mut_refs)]
use std::collections::HashMap;
use std::rc::Rc;

pub type E = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
#[repr(u8)]
pub enum Op {
    Const, Var, Add, Sub, Mul, UDiv, SDiv, URem, SRem, And, Or, Xor, Shl, LShr, AShr,
    Eq, Ult, Ule, Slt, Sle, Ite, Concat, Extract, ZExt, SExt,
}
use Op::*;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Node { pub op: Op, pub w: u8, pub a: E, pub b: E, pub c: E, pub k: u128 }

pub struct Arena {
    pub nodes: Vec<Node>,
    pub range: Vec<(u128, u128)>,
    map: HashMap<Node, E, FxB>,
    pub var_w: Vec<u8>,
    pub var_nodes: Vec<E>,
    var_ids: HashMap<(u32, u8), u32, FxB>,
    vars_cache: HashMap<E, Rc<Vec<u32>>, FxB>,
    stamp: Vec<u32>,
    cur_stamp: u32,
    evalv: Vec<u128>,
}

#[derive(Default, Clone, Copy)]
pub struct FxH(u64);
impl std::hash::Hasher for FxH {
    fn finish(&self) -> u64 { self.0 ^ (self.0 >> 29) }
    fn write(&mut self, b: &[u8]) { for &x in b { self.write_u64(x as u64) } }
    fn write_u8(&mut self, x: u8) { self.write_u64(x as u64) }
    fn write_u32(&mut self, x: u32) { self.write_u64(x as u64) }
    fn write_u64(&mut self, x: u64) { self.0 = (self.0.rotate_left(5) ^ x).wrapping_mul(0x517cc1b727220a95) }
    fn write_usize(&mut self, x: usize) { self.write_u64(x as u64) }
    fn write_u128(&mut self, x: u128) { self.write_u64(x as u64); self.write_u64((x >> 64) as u64) }
    fn write_isize(&mut self, x: isize) { self.write_u64(x as u64) }
    fn write_i64(&mut self, x: i64) { self.write_u64(x as u64) }
}
pub type FxB = std::hash::BuildHasherDefault<FxH>;
pub type FxMap<K, V> = HashMap<K, V, FxB>;

static mut ARENA: Option<Arena> = None;

pub fn ar() -> &'static mut Arena {
    unsafe {
        if ARENA.is_none() {
            ARENA = Some(Arena {
                nodes: vec![], range: vec![], map: HashMap::default(), var_w: vec![], var_nodes: vec![], var_ids: HashMap::default(),
                vars_cache: HashMap::default(), stamp: vec![], cur_stamp: 0, evalv: vec![],
            });
            // id 0 is reserved as "none"
            let n = Node { op: Const, w: 1, a: 0, b: 0, c: 0, k: u128::MAX };
            ARENA.as_mut().unwrap().nodes.push(n);
            ARENA.as_mut().unwrap().range.push((0, 0));
        }
        ARENA.as_mut().unwrap()
    }
}

#[inline]
pub fn mask(w: u8) -> u128 { if w >= 128 { u128::MAX } else { (1u128 << w) - 1 } }
#[inline]
pub fn sx(v: u128, w: u8) -> i128 { let s = 128 - w as u32; ((v << s) as i128) >> s }

#[inline]
pub fn node(e: E) -> Node { ar().nodes[e as usize] }
#[inline]
pub fn width(e: E) -> u8 { ar().nodes[e as usize].w }
#[inline]
pub fn as_const(e: E) -> Option<u128> { let n = &ar().nodes[e as usize]; if n.op == Const { Some(n.k) } else { None } }
#[inline]
pub fn range(e: E) -> (u128, u128) { ar().range[e as usize] }

fn intern(n: Node) -> E {
    let a = ar();
    if let Some(&e) = a.map.get(&n) { return e; }
    let r = compute_range(&n);
    if r.0 == r.1 && n.op != Const && n.op != Var {
        let c = konst(r.0, n.w);
        ar().map.insert(n, c);
        return c;
    }
    let a = ar();
    let e = a.nodes.len() as E;
    a.nodes.push(n);
    a.range.push(r);
    a.map.insert(n, e);
    e
}

fn compute_range(n: &Node) -> (u128, u128) {
    let full = (0, mask(n.w));
    let r = |e: E| range(e);
    match n.op {
        Const => (n.k, n.k),
        Var => full,
        Eq | Slt | Sle => full,
        Ult => { let (a, b) = (r(n.a), r(n.b)); if a.1 < b.0 { (1, 1) } else if a.0 >= b.1 { (0, 0) } else { full } }
        Ule => { let (a, b) = (r(n.a), r(n.b)); if a.1 <= b.0 { (1, 1) } else if a.0 > b.1 { (0, 0) } else { full } }
        Ite => { let (a, b) = (r(n.b), r(n.c)); (a.0.min(b.0), a.1.max(b.1)) }
        ZExt => r(n.a),
        SExt => { let a = r(n.a); let wa = width(n.a); if a.1 <= mask(wa) >> 1 { a } else { full } }
        Extract => { let a = r(n.a); if n.k == 0 && a.1 <= mask(n.w) { a } else if a.1 >> n.k <= mask(n.w) { (a.0 >> n.k, a.1 >> n.k) } else { full } }
        Concat => { let (a, b) = (r(n.a), r(n.b)); let wb = width(n.b); ((a.0 << wb) | b.0, (a.1 << wb) | b.1) }
        Add => { let (a, b) = (r(n.a), r(n.b));
            match (a.1.checked_add(b.1), n.w) {
                (Some(h), w) if h <= mask(w) => (a.0 + b.0, h),
                // both wrap (adding a negative constant)
                _ => if n.w < 128 && a.0 + b.0 > mask(n.w) && a.1 + b.1 <= 2 * mask(n.w) + 1 { ((a.0 + b.0) & mask(n.w), (a.1 + b.1) & mask(n.w)) } else { full },
            } }
        Sub => { let (a, b) = (r(n.a), r(n.b)); if a.0 >= b.1 { (a.0 - b.1, a.1 - b.0) } else { full } }
        Mul => { let (a, b) = (r(n.a), r(n.b)); match a.1.checked_mul(b.1) { Some(h) if h <= mask(n.w) => (a.0 * b.0, h), _ => full } }
        And => { let (a, b) = (r(n.a), r(n.b)); (0, a.1.min(b.1)) }
        Or | Xor => { let (a, b) = (r(n.a), r(n.b)); let m = a.1 | b.1; let bits = 128 - m.leading_zeros() as u8;
            (if n.op == Or { a.0.max(b.0) } else { 0 }, if bits == 0 { 0 } else { mask(bits) }) }
        UDiv => { let (a, b) = (r(n.a), r(n.b)); if b.0 > 0 { (a.0 / b.1, a.1 / b.0) } else { full } }
        URem => { let (a, b) = (r(n.a), r(n.b)); if b.0 > 0 { (0, a.1.min(b.1 - 1)) } else { full } }
        Shl => { let a = r(n.a); if let Some(k) = as_const(n.b) { if k < n.w as u128 && a.1 <= mask(n.w) >> k { (a.0 << k, a.1 << k) } else { full } } else { full } }
        LShr => { let a = r(n.a); if let Some(k) = as_const(n.b) { if k < n.w as u128 { (a.0 >> k, a.1 >> k) } else { (0, 0) } } else { (0, a.1) } }
        _ => full,
    }
}

fn mk(op: Op, w: u8, a: E, b: E, c: E, k: u128) -> E { intern(Node { op, w, a, b, c, k }) }

pub fn konst(v: u128, w: u8) -> E { intern(Node { op: Const, w, a: 0, b: 0, c: 0, k: v & mask(w) }) }
/// Global id of the i-th symbolic variable of a path with the given width
/// (an id has one width; paths that disagree on the width use different ids).
pub fn var_id(idx: u32, w: u8) -> u32 {
    let a = ar();
    if let Some(&g) = a.var_ids.get(&(idx, w)) { return g; }
    let g = a.var_w.len() as u32;
    a.var_w.push(w);
    a.var_ids.insert((idx, w), g);
    let e = intern(Node { op: Var, w, a: g, b: 0, c: 0, k: 0 });
    ar().var_nodes.push(e);
    g
}
pub fn var_expr(gid: u32) -> E { ar().var_nodes[gid as usize] }

pub fn tru() -> E { konst(1, 1) }
pub fn fls() -> E { konst(0, 1) }

fn fold2(op: Op, w: u8, x: u128, y: u128) -> u128 {
    let m = mask(w);
    let v = match op {
        Add => x.wrapping_add(y), Sub => x.wrapping_sub(y), Mul => x.wrapping_mul(y),
        UDiv => if y == 0 { m } else { x / y },
        URem => if y == 0 { x } else { x % y },
        SDiv => { let (a, b) = (sx(x, w), sx(y, w)); if b == 0 { if a < 0 { 1 } else { m } } else { a.wrapping_div(b) as u128 } }
        SRem => { let (a, b) = (sx(x, w), sx(y, w)); if b == 0 { x } else { a.wrapping_rem(b) as u128 } }
        And => x & y, Or => x | y, Xor => x ^ y,
        Shl => if y >= w as u128 { 0 } else { x << y },
        LShr => if y >= w as u128 { 0 } else { x >> y },
        AShr => if y >= w as u128 { (sx(x, w) >> 127) as u128 } else { (sx(x, w) >> y) as u128 },
        Eq => (x == y) as u128, Ult => (x < y) as u128, Ule => (x <= y) as u128,
        Slt => (sx(x, w) < sx(y, w)) as u128, Sle => (sx(x, w) <= sx(y, w)) as u128,
        _ => unreachable!(),
    };
    match op { Eq | Ult | Ule | Slt | Sle => v, _ => v & m }
}

pub fn is_cmp(op: Op) -> bool { matches!(op, Eq | Ult | Ule | Slt | Sle) }

pub fn not(a: E) -> E {
    // bitwise not
    let w = width(a);
    bin(Xor, a, konst(mask(w), w))
}
pub fn and1(a: E, b: E) -> E { bin(And, a, b) }
pub fn or1(a: E, b: E) -> E { bin(Or, a, b) }

pub fn bin(op: Op, a: E, b: E) -> E {
    let w = width(a);
    debug_assert_eq!(w, width(b), "{:?}", op);
    let (ca, cb) = (as_const(a), as_const(b));
    if let (Some(x), Some(y)) = (ca, cb) {
        let rw = if is_cmp(op) { 1 } else { w };
        return konst(fold2(op, w, x, y), rw);
    }
    // canonical order: constants on the right for commutative ops
    if matches!(op, Add | Mul | And | Or | Xor | Eq) && (ca.is_some() || (cb.is_none() && a > b)) {
        return bin_(op, b, a, w);
    }
    bin_(op, a, b, w)
}

fn bin_(op: Op, a: E, b: E, w: u8) -> E {
    let cb = as_const(b);
    let na = node(a);
    let m = mask(w);
    match op {
        Add => {
            if cb == Some(0) { return a; }
            if let Some(y) = cb { if na.op == Add { if let Some(x) = as_const(na.b) { return bin(Add, na.a, konst(x.wrapping_add(y), w)); } }
                if na.op == Ite { if let (Some(p), Some(q)) = (as_const(na.b), as_const(na.c)) { return ite(na.a, konst(p.wrapping_add(y), w), konst(q.wrapping_add(y), w)); } }
                // push into zext when it cannot overflow (keeps things small)
            }
        }
        Sub => {
            if cb == Some(0) { return a; }
            if a == b { return konst(0, w); }
            if let Some(y) = cb { return bin(Add, a, konst(0u128.wrapping_sub(y), w)); }
        }
        Mul => {
            if let Some(y) = cb {
                if na.op == Add && y > 1 { if let Some(x) = as_const(na.b) { return bin(Add, bin(Mul, na.a, b), konst(x.wrapping_mul(y), w)); } }
            }
            match cb { Some(0) => return konst(0, w), Some(1) => return a,
                Some(y) if y.is_power_of_two() => return bin(Shl, a, konst(y.trailing_zeros() as u128, w)), _ => () }
        }
        // both operands known non-negative: unsigned division
        SDiv | SRem if cb.map_or(false, |y| y != 0 && y <= m >> 1) && range(a).1 <= m >> 1 => { return bin(if op == SDiv { UDiv } else { URem }, a, b); }
        UDiv => { match cb { Some(1) => return a, Some(y) if y.is_power_of_two() => return bin(LShr, a, konst(y.trailing_zeros() as u128, w)),
            Some(y) if y != 0 => {
                if range(a).1 < y { return konst(0, w); }
                if let Some((q, r)) = split_multiple(a, y, w) { return bin(Add, q, bin(UDiv, r, b)); }
                let n = 128 - range(a).1.max(y).leading_zeros() as u8;
                if n < w { return zext(bin(UDiv, extract(a, 0, n), konst(y, n)), w); }
            }
            _ => () } }
        URem => { match cb { Some(1) => return konst(0, w), Some(y) if y.is_power_of_two() => return bin(And, a, konst(y - 1, w)),
            Some(y) if y != 0 && range(a).1 < y => return a,
            Some(y) if y != 0 => {
                if let Some((_, r)) = split_multiple(a, y, w) { return bin(URem, r, b); }
                let n = 128 - range(a).1.max(y).leading_zeros() as u8;
                if n < w { return zext(bin(URem, extract(a, 0, n), konst(y, n)), w); }
            }
            _ => () } }
        And => {
            if a == b { return a; }
            match cb {
                Some(0) => return konst(0, w),
                Some(y) if y == m => return a,
                Some(y) if (y + 1).is_power_of_two() => {
                    let k = (y + 1).trailing_zeros() as u8;
                    return zext(extract(a, 0, k), w);
                }
                Some(y) => {
                    if na.op == And { if let Some(x) = as_const(na.b) { return bin(And, na.a, konst(x & y, w)); } }
                    if na.op == ZExt { let wa = width(na.a); return zext(bin(And, na.a, konst(y, wa)), w); }
                    if na.op == Ite { if let (Some(p), Some(q)) = (as_const(na.b), as_const(na.c)) { return ite(na.a, konst(p & y, w), konst(q & y, w)); } }
                    // single contiguous run of bits: (extract << k)
                    let tz = y.trailing_zeros() as u8;
                    let run = y >> tz;
                    if (run + 1).is_power_of_two() {
                        let n = (run + 1).trailing_zeros() as u8;
                        let mid = extract(a, tz, n);
                        return zext(concat(mid, konst(0, tz)), w);
                    }
                }
                None => {
                    if na.op == Xor && w == 1 && na.a == b && as_const(na.b) == Some(1) { return konst(0, 1); }
                    let nb = node(b);
                    if nb.op == Xor && w == 1 && nb.a == a && as_const(nb.b) == Some(1) { return konst(0, 1); }
                }
            }
        }
        Or => {
            if a == b { return a; }
            match cb { Some(0) => return a, Some(y) if y == m => return b, Some(y) => {
                    if na.op == Ite { if let (Some(p), Some(q)) = (as_const(na.b), as_const(na.c)) { return ite(na.a, konst(p | y, w), konst(q | y, w)); } }
                }
                None => {
                    if w == 1 {
                        if na.op == Xor && na.a == b && as_const(na.b) == Some(1) { return konst(1, 1); }
                        let nb = node(b);
                        if nb.op == Xor && nb.a == a && as_const(nb.b) == Some(1) { return konst(1, 1); }
                    } else if let Some(r) = or_as_concat(a, b, w).or_else(|| or_as_concat(b, a, w)) { return r; }
                }
            }
        }
        Xor => {
            if a == b { return konst(0, w); }
            match cb { Some(0) => return a,
                Some(y) => {
                    if na.op == Xor { if let Some(x) = as_const(na.b) { return bin(Xor, na.a, konst(x ^ y, w)); } }
                    if w == 1 && y == 1 {
                        match na.op { Ult => return bin(Ule, na.b, na.a), Ule => return bin(Ult, na.b, na.a),
                            Slt => return bin(Sle, na.b, na.a), Sle => return bin(Slt, na.b, na.a),
                            Ite => { if as_const(na.b).is_some() || as_const(na.c).is_some() { return ite(na.a, not(na.b), not(na.c)); } }
                            _ => () }
                    }
                    if na.op == Ite { if let (Some(p), Some(q)) = (as_const(na.b), as_const(na.c)) { return ite(na.a, konst(p ^ y, w), konst(q ^ y, w)); } }
                }
                None => () }
        }
        Shl => {
            if let Some(k) = cb { if k == 0 { return a; } if k >= w as u128 { return konst(0, w); }
                let k = k as u8;
                return concat(extract(a, 0, w - k), konst(0, k)); }
        }
        LShr => {
            if let Some(k) = cb { if k == 0 { return a; } if k >= w as u128 { return konst(0, w); }
                let k = k as u8;
                return zext(extract(a, k, w - k), w); }
        }
        AShr => {
            if let Some(k) = cb { if k == 0 { return a; } if k < w as u128 { let k = k as u8; return sext(extract(a, k, w - k), w); } }
        }
        Eq => {
            if a == b { return tru(); }
            let (ra, rb) = (range(a), range(b));
            if ra.1 < rb.0 || rb.1 < ra.0 { return fls(); }
            if w == 1 { match cb { Some(1) => return a, Some(0) => return not(a), _ => return not(bin(Xor, a, b)) } }
            let nb = node(b);
            if let Some(y) = cb {
                match na.op {
                    ZExt => { let wa = width(na.a); return bin(Eq, na.a, konst(y, wa)); }
                    SExt => { let wa = width(na.a); return if sx(y, w) == sx(y & mask(wa), wa) { bin(Eq, na.a, konst(y, wa)) } else { fls() }; }
                    Concat => { let wb = width(na.b); let wa = width(na.a);
                        return and1(bin(Eq, na.a, konst(y >> wb, wa)), bin(Eq, na.b, konst(y, wb))); }
                    Ite => {
                        let (p, q) = (as_const(na.b), as_const(na.c));
                        if p.is_some() || q.is_some() {
                            return ite(na.a, bin(Eq, na.b, b), bin(Eq, na.c, b));
                        }
                    }
                    Add => { if let Some(x) = as_const(na.b) { return bin(Eq, na.a, konst(y.wrapping_sub(x), w)); } }
                    Xor => { if let Some(x) = as_const(na.b) { return bin(Eq, na.a, konst(y ^ x, w)); } }
                    _ => () }
            } else {
                if na.op == ZExt && nb.op == ZExt && width(na.a) == width(nb.a) { return bin(Eq, na.a, nb.a); }
                if na.op == Concat && nb.op == Concat && width(na.a) == width(nb.a) {
                    return and1(bin(Eq, na.a, nb.a), bin(Eq, na.b, nb.b));
                }
            }
        }
        Ult | Ule => {
            if a == b { return if op == Ule { tru() } else { fls() }; }
            let (ra, rb) = (range(a), range(b));
            if op == Ult { if ra.1 < rb.0 { return tru(); } if ra.0 >= rb.1 { return fls(); } }
            else { if ra.1 <= rb.0 { return tru(); } if ra.0 > rb.1 { return fls(); } }
            let nb = node(b);
            // comparisons against boundary -> equality
            if let Some(y) = cb {
                if op == Ult && y == ra.0 + 1 { return bin(Eq, a, konst(ra.0, w)); }
                if op == Ule && y == ra.0 { return bin(Eq, a, b); }
                if op == Ule && y < m { return bin(Ult, a, konst(y + 1, w)); }
                match na.op { ZExt => { let wa = width(na.a); if y <= mask(wa) { return bin(op, na.a, konst(y, wa)); } }
                    Ite => { let (p, q) = (as_const(na.b), as_const(na.c)); if p.is_some() || q.is_some() { return ite(na.a, bin(op, na.b, b), bin(op, na.c, b)); } }
                    _ => () }
            }
            if let Some(x) = as_const(a) {
                if nb.op == ZExt { let wb = width(nb.a); if x <= mask(wb) { return bin(op, konst(x, wb), nb.a); } }
                if nb.op == Ite { let (p, q) = (as_const(nb.b), as_const(nb.c)); if p.is_some() || q.is_some() { return ite(nb.a, bin(op, a, nb.b), bin(op, a, nb.c)); } }
            }
            if na.op == ZExt && nb.op == ZExt && width(na.a) == width(nb.a) { return bin(op, na.a, nb.a); }
            // both are multiples of the same constant, without wrap-around
            if na.op == Mul && nb.op == Mul && na.b == nb.b { if let Some(k) = as_const(na.b) {
                let fits = |x: E| range(x).1.checked_mul(k).map_or(false, |h| h <= m);
                if k != 0 && fits(na.a) && fits(nb.a) { return bin(op, na.a, nb.a); }
            } }
        }
        Slt | Sle => {
            if a == b { return if op == Sle { tru() } else { fls() }; }
            let (ra, rb) = (range(a), range(b));
            let h = m >> 1;
            // both known non-negative (or both known negative): unsigned compare
            if (ra.1 <= h && rb.1 <= h) || (ra.0 > h && rb.0 > h) { return bin(if op == Slt { Ult } else { Ule }, a, b); }
            if ra.0 > h && rb.1 <= h { return tru(); }
            if ra.1 <= h && rb.0 > h { return fls(); }
            if na.op == SExt { let nb = node(b); let wa = width(na.a);
                if nb.op == SExt && width(nb.a) == wa { return bin(op, na.a, nb.a); }
                if let Some(y) = cb { if sx(y, w) == sx(y & mask(wa), wa) { return bin(op, na.a, konst(y, wa)); } } }
            if na.op == Ite && cb.is_some() { let (p, q) = (as_const(na.b), as_const(na.c)); if p.is_some() || q.is_some() { return ite(na.a, bin(op, na.b, b), bin(op, na.c, b)); } }
        }
        _ => (),
    }
    let rw = if is_cmp(op) { 1 } else { w };
    mk(op, rw, a, b, 0, 0)
}

/// a = q*k + r without wrap-around, with q's part visible in the structure of a
fn split_multiple(a: E, k: u128, w: u8) -> Option<(E, E)> {
    let mut terms = vec![];
    let mut todo = vec![a];
    let mut top = 0u128;
    while let Some(e) = todo.pop() {
        let n = node(e);
        if n.op == ZExt {
            // look into the narrower sum or product when it cannot wrap there
            let i = node(n.a);
            let m = mask(i.w);
            if i.op == Add && range(i.a).1.checked_add(range(i.b).1).map_or(false, |h| h <= m) { todo.push(zext(i.a, w)); todo.push(zext(i.b, w)); continue; }
            if i.op == Mul && as_const(i.b).is_some() && range(i.a).1.checked_mul(range(i.b).1).map_or(false, |h| h <= m) {
                let t = bin(Mul, zext(i.a, w), zext(i.b, w));
                if node(t).op == Mul { top = top.checked_add(range(t).1)?; terms.push(t); continue; }
            }
        }
        if n.op == Add { todo.push(n.a); todo.push(n.b); if terms.len() > 16 { return None; } } else { top = top.checked_add(range(e).1)?; terms.push(e); }
    }
    // the sum of the terms does not wrap, so neither does any partial sum
    if top > mask(w) { return None; }
    let (mut q, mut r) = (konst(0, w), konst(0, w));
    let mut any = false;
    for t in terms {
        let n = node(t);
        if let Some(c) = as_const(t) { if c >= k { any = true; } q = bin(Add, q, konst(c / k, w)); r = bin(Add, r, konst(c % k, w)); continue; }
        if n.op == Mul { if let Some(c) = as_const(n.b) { if c % k == 0 && range(n.a).1.checked_mul(c).map_or(false, |h| h <= mask(w)) {
            any = true; q = bin(Add, q, bin(Mul, n.a, konst(c / k, w))); continue; } } }
        r = bin(Add, r, t);
    }
    if any { Some((q, r)) } else { None }
}

/// or of (x zero-extended low part) with (concat(y, zeros)) -> concat
fn or_as_concat(a: E, b: E, w: u8) -> Option<E> {
    // b has trailing constant zeros of k bits; a has leading zeros above k bits
    let tz = trailing_zero_bits(b);
    if tz == 0 || tz >= w { return None; }
    if leading_zero_ok(a, tz) {
        return Some(concat(extract(b, tz, w - tz), extract(a, 0, tz)));
    }
    None
}
fn trailing_zero_bits(e: E) -> u8 {
    let n = node(e);
    match n.op {
        Const => if n.k == 0 { n.w } else { n.k.trailing_zeros() as u8 },
        Concat => { let t = trailing_zero_bits(n.b); let wb = width(n.b); if t == wb { wb + trailing_zero_bits(n.a) } else { t } }
        ZExt => { let t = trailing_zero_bits(n.a); if t == width(n.a) { n.w } else { t } }
        _ => 0,
    }
}
fn leading_zero_ok(e: E, bits: u8) -> bool { range(e).1 <= mask(bits) }

pub fn ite(c: E, a: E, b: E) -> E {
    if let Some(k) = as_const(c) { return if k != 0 { a } else { b }; }
    if a == b { return a; }
    let w = width(a);
    debug_assert_eq!(w, width(b));
    let nc = node(c);
    if nc.op == Xor && as_const(nc.b) == Some(1) { return ite(nc.a, b, a); }
    if w == 1 {
        match (as_const(a), as_const(b)) {
            (Some(1), Some(0)) => return c,
            (Some(0), Some(1)) => return not(c),
            (Some(1), None) => return or1(c, b),
            (Some(0), None) => return and1(not(c), b),
            (None, Some(0)) => return and1(c, a),
            (None, Some(1)) => return or1(not(c), a),
            _ => (),
        }
    }
    let (na, nb) = (node(a), node(b));
    if na.op == Ite && na.a == c { return ite(c, na.b, b); }
    if nb.op == Ite && nb.a == c { return ite(c, a, nb.c); }
    if nb.op == Ite && nb.b == a { return ite(or1(c, nb.a), a, nb.c); }
    if na.op == Ite && na.c == b { return ite(and1(c, na.a), na.b, b); }
    if na.op == ZExt && nb.op == ZExt && width(na.a) == width(nb.a) { return zext(ite(c, na.a, nb.a), w); }
    mk(Ite, w, c, a, b, 0)
}

pub fn concat(hi: E, lo: E) -> E {
    let (wh, wl) = (width(hi), width(lo));
    let w = wh + wl;
    if let (Some(x), Some(y)) = (as_const(hi), as_const(lo)) { return konst((x << wl) | y, w); }
    if as_const(hi) == Some(0) { return zext(lo, w); }
    let (nh, nl) = (node(hi), node(lo));
    if nh.op == ZExt { return zext(concat(nh.a, lo), w); }
    if nh.op == Extract && nl.op == Extract && nh.a == nl.a && nh.k == nl.k + wl as u128 {
        return extract(nh.a, nl.k as u8, w);
    }
    // the same, where taking the low part went into the operation
    if nh.op == Extract && nh.k == wl as u128 && matches!(node(nh.a).op, Add | Mul | Sub) && nl.op == node(nh.a).op && extract(nh.a, 0, wl) == lo {
        return extract(nh.a, 0, w);
    }
    // extract(x, wl, ..) ++ x' where x' itself is the whole low part
    if nh.op == Extract && nl.op == Concat {
        let top = node(nl.a);
        if top.op == Extract && top.a == nh.a && nh.k == top.k + top.w as u128 {
            return concat(extract(nh.a, top.k as u8, wh + top.w), nl.b);
        }
    }
    if nl.op == Concat && as_const(hi).is_some() {
        if as_const(nl.a).is_some() { return concat(concat(hi, nl.a), nl.b); }
    }
    if nh.op == Concat { // right-assoc
        return concat(nh.a, concat(nh.b, lo));
    }
    if nh.op == Ite && nl.op == Ite && nh.a == nl.a { return ite(nh.a, concat(nh.b, nl.b), concat(nh.c, nl.c)); }
    if nh.op == Ite && as_const(lo).is_some() && as_const(nh.b).is_some() && as_const(nh.c).is_some() { return ite(nh.a, concat(nh.b, lo), concat(nh.c, lo)); }
    mk(Concat, w, hi, lo, 0, 0)
}

pub fn extract(a: E, lo: u8, w: u8) -> E {
    let wa = width(a);
    debug_assert!(lo + w <= wa && w > 0);
    if lo == 0 && w == wa { return a; }
    let n = node(a);
    match n.op {
        Const => return konst(n.k >> lo, w),
        Extract => return extract(n.a, lo + n.k as u8, w),
        Concat => {
            let wb = width(n.b);
            if lo >= wb { return extract(n.a, lo - wb, w); }
            if lo + w <= wb { return extract(n.b, lo, w); }
            return concat(extract(n.a, 0, lo + w - wb), extract(n.b, lo, wb - lo));
        }
        ZExt => {
            let wb = width(n.a);
            if lo >= wb { return konst(0, w); }
            if lo + w <= wb { return extract(n.a, lo, w); }
            return zext(extract(n.a, lo, wb - lo), w);
        }
        SExt => {
            let wb = width(n.a);
            if lo + w <= wb { return extract(n.a, lo, w); }
            if lo < wb { return sext(extract(n.a, lo, wb - lo), w); }
        }
        Ite => {
            let (cb, cc) = (as_const(n.b).is_some(), as_const(n.c).is_some());
            if cb || cc || matches!(node(n.b).op, ZExt | Concat | Ite) || matches!(node(n.c).op, ZExt | Concat | Ite) {
                return ite(n.a, extract(n.b, lo, w), extract(n.c, lo, w));
            }
        }
        And | Or | Xor => {
            return bin(n.op, extract(n.a, lo, w), extract(n.b, lo, w));
        }
        Add | Mul | Sub if lo == 0 && (w >= 8 || w == 1) => {
            return bin(n.op, extract(n.a, 0, w), extract(n.b, 0, w));
        }
        _ => (),
    }
    mk(Extract, w, a, 0, 0, lo as u128)
}

pub fn zext(a: E, w: u8) -> E {
    let wa = width(a);
    debug_assert!(w >= wa);
    if w == wa { return a; }
    let n = node(a);
    match n.op {
        Const => return konst(n.k, w),
        ZExt => return zext(n.a, w),
        Ite => { if as_const(n.b).is_some() && as_const(n.c).is_some() { return ite(n.a, zext(n.b, w), zext(n.c, w)); } }
        _ => (),
    }
    mk(ZExt, w, a, 0, 0, 0)
}

pub fn sext(a: E, w: u8) -> E {
    let wa = width(a);
    if w == wa { return a; }
    let n = node(a);
    if n.op == Const { return konst(sx(n.k, wa) as u128, w); }
    if range(a).1 <= mask(wa) >> 1 { return zext(a, w); }
    if n.op == SExt { return sext(n.a, w); }
    if n.op == Ite && as_const(n.b).is_some() && as_const(n.c).is_some() { return ite(n.a, sext(n.b, w), sext(n.c, w)); }
    mk(SExt, w, a, 0, 0, 0)
}

fn children(n: &Node) -> ([E; 3], usize) {
    match n.op {
        Const | Var => ([0; 3], 0),
        Extract | ZExt | SExt => ([n.a, 0, 0], 1),
        Ite => ([n.a, n.b, n.c], 3),
        _ => ([n.a, n.b, 0], 2),
    }
}

/// Sorted list of variable indices an expression depends on.
pub fn vars_of(e: E) -> Rc<Vec<u32>> {
    let a = ar();
    if let Some(v) = a.vars_cache.get(&e) { return v.clone(); }
    a.cur_stamp += 1;
    let st = a.cur_stamp;
    a.stamp.resize(a.nodes.len(), 0);
    let mut out = vec![];
    let mut stack = vec![e];
    while let Some(x) = stack.pop() {
        if a.stamp[x as usize] == st { continue; }
        a.stamp[x as usize] = st;
        let n = a.nodes[x as usize];
        if n.op == Var { out.push(n.a); }
        let (c, k) = children(&n);
        for i in 0..k { stack.push(c[i]); }
    }
    out.sort(); out.dedup();
    let r = Rc::new(out);
    a.vars_cache.insert(e, r.clone());
    r
}

/// Evaluate under an assignment (missing variables are 0).
pub fn eval(e: E, model: &[u128]) -> u128 {
    let a = ar();
    let n = a.nodes[e as usize];
    match n.op { Const => return n.k, Var => return model.get(n.a as usize).copied().unwrap_or(0) & mask(n.w), _ => () }
    a.cur_stamp += 1;
    let st = a.cur_stamp;
    let len = a.nodes.len();
    if a.stamp.len() < len { a.stamp.resize(len, 0); }
    if a.evalv.len() < len { a.evalv.resize(len, 0); }
    let mut stack: Vec<E> = vec![e];
    while let Some(&x) = stack.last() {
        if a.stamp[x as usize] == st { stack.pop(); continue; }
        let n = a.nodes[x as usize];
        let (c, k) = children(&n);
        if n.op == Ite {
            if a.stamp[n.a as usize] != st { stack.push(n.a); continue; }
            let pick = if a.evalv[n.a as usize] != 0 { n.b } else { n.c };
            if a.stamp[pick as usize] != st { stack.push(pick); continue; }
            a.evalv[x as usize] = a.evalv[pick as usize];
            a.stamp[x as usize] = st;
            stack.pop();
            continue;
        }
        let mut ready = true;
        for i in 0..k { if a.stamp[c[i] as usize] != st { stack.push(c[i]); ready = false; } }
        if !ready { continue; }
        let ev = &a.evalv;
        let v = match n.op {
            Const => n.k,
            Var => model.get(n.a as usize).copied().unwrap_or(0) & mask(n.w),
            Extract => (ev[n.a as usize] >> n.k) & mask(n.w),
            ZExt => ev[n.a as usize],
            SExt => sx(ev[n.a as usize], a.nodes[n.a as usize].w) as u128 & mask(n.w),
            Concat => (ev[n.a as usize] << a.nodes[n.b as usize].w) | ev[n.b as usize],
            _ => fold2(n.op, a.nodes[n.a as usize].w, ev[n.a as usize], ev[n.b as usize]),
        };
        a.evalv[x as usize] = v;
        a.stamp[x as usize] = st;
        stack.pop();
    }
    a.evalv[e as usize]
}

pub fn show(e: E, depth: u32) -> String {
    let n = node(e);
    match n.op {
        Const => format!("{:#x}", n.k),
        Var => format!("v{}", n.a),
        _ if depth == 0 => "..".into(),
        Extract => format!("{}[{}+{}]", show(n.a, depth - 1), n.k, n.w),
        ZExt | SExt => format!("{:?}{}({})", n.op, n.w, show(n.a, depth - 1)),
        Ite => format!("ite({},{},{})", show(n.a, depth - 1), show(n.b, depth - 1), show(n.c, depth - 1)),
        _ => format!("{:?}({},{})", n.op, show(n.a, depth - 1), show(n.b, depth - 1)),
    }
}
