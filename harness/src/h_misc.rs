//! Sequence maps, signal sets, utility functions, value types, locks.
use crate::h_attr::open;
use crate::sym;
use crate::vt::Vt;
use crate::world::{self, w};
use mortal::sequence::Entry;
use mortal::util::*;
use mortal::*;
use std::sync::TryLockError;
use std::time::Duration;

// ---------------------------------------------------------------- sequence maps
/// a key: up to three characters, one of them possibly of two bytes
#[derive(Clone, Copy)]
pub struct K { b: [u8; 4], n: usize }
impl AsRef<str> for K { fn as_ref(&self) -> &str { unsafe { std::str::from_utf8_unchecked(&self.b[..self.n]) } } }
fn key(max: usize, wide: bool) -> K {
    let n = sym::choose(max + 1, "keylen");
    let mut k = K { b: [0; 4], n };
    for i in 0..n { k.b[i] = sym::bits(7, "key") as u8; }
    if wide && n == 2 && sym::choose(2, "two_bytes") == 1 {
        k.b[0] = 0xc2 + sym::small(30, "lead") as u8;
        k.b[1] = 0x80 + sym::bits(6, "cont") as u8;
    }
    k
}
fn eq(a: &K, b: &K) -> bool {
    if a.n != b.n { return false; }
    let mut e = true;
    for i in 0..a.n { e &= a.b[i] == b.b[i]; }
    e
}
/// a comes before b in the order of strings
fn less(a: &K, b: &K) -> bool {
    // most significant position last
    let m = a.n.min(b.n);
    let mut r = a.n < b.n;
    for i in (0..m).rev() { r = (a.b[i] < b.b[i]) | ((a.b[i] == b.b[i]) & r); }
    r
}
fn prefix(p: &K, s: &K) -> bool {
    if p.n >= s.n { return false; }
    let mut e = true;
    for i in 0..p.n { e &= p.b[i] == s.b[i]; }
    e
}
/// reference: pairs in no particular order, no key twice
struct Ref { p: Vec<(K, u32)> }
impl Ref {
    fn at(&self, k: &K) -> Option<usize> { for i in 0..self.p.len() { if eq(&self.p[i].0, k) { return Some(i); } } None }
    fn insert(&mut self, k: K, v: u32) -> Option<u32> {
        match self.at(&k) { Some(i) => { let o = self.p[i].1; self.p[i].1 = v; Some(o) } None => { self.p.push((k, v)); None } }
    }
    fn find(&self, k: &K) -> FindResult<u32> {
        let mut more = false;
        for i in 0..self.p.len() { more |= prefix(k, &self.p[i].0); }
        match self.at(k) {
            Some(i) => if more { FindResult::Undecided(self.p[i].1) } else { FindResult::Found(self.p[i].1) },
            None => if more { FindResult::Incomplete } else { FindResult::NotFound },
        }
    }
}
fn check_map(m: &mut SequenceMap<K, u32>, r: &Ref, max: usize, wide: bool) {
    let s = m.sequences();
    sym::check(s.len() == r.p.len(), "P19 number of sequences");
    for i in 0..s.len() {
        if i > 0 { sym::check(less(&s[i - 1].0, &s[i].0), "P19 sequences sorted by key"); }
        let mut ok = false;
        for j in 0..r.p.len() { ok |= eq(&s[i].0, &r.p[j].0) & (s[i].1 == r.p[j].1); }
        sym::check(ok, "P19 sequences and values");
    }
    let q = key(max, wide);
    let f = m.find(q.as_ref()).cloned();
    sym::check(f == r.find(&q), "P19 find");
    let g = r.at(&q).map(|i| r.p[i].1);
    sym::check(m.get(q.as_ref()).cloned() == g, "P19 get");
    let old = g;
    if let Some(v) = m.get_mut(q.as_ref()) { sym::check(Some(*v) == old, "P19 get_mut"); *v = 1000; sym::check(m.get(q.as_ref()) == Some(&1000), "P19 changed through get_mut"); }
    else { sym::check(old.is_none(), "P19 get_mut"); }
}
fn initial(n: usize, max: usize, wide: bool) -> (SequenceMap<K, u32>, Ref) {
    let mut ks = vec![];
    for i in 0..n { ks.push((key(max, wide), 10 + i as u32)); }
    let mut r = Ref { p: vec![] };
    match sym::choose(3, "built") {
        0 => {
            for &(k, v) in &ks { if r.at(&k).is_none() { r.p.push((k, v)); } }
            (SequenceMap::from(ks), r)
        }
        1 => {
            for &(k, v) in &ks { r.insert(k, v); }
            (ks.into_iter().collect(), r)
        }
        _ => {
            let mut m = SequenceMap::new();
            for (k, v) in ks { let a = m.insert(k, v); let b = r.insert(k, v); sym::check(a == b, "P19 insert returns the old value"); }
            (m, r)
        }
    }
}
fn map_op(m: &mut SequenceMap<K, u32>, r: &mut Ref, max: usize, wide: bool) {
    let k = key(max, wide);
    let at = r.at(&k);
    match sym::choose(9, "op") {
        0 => { let a = m.insert(k, 50); let b = r.insert(k, 50); sym::check(a == b, "P19 insert returns the old value"); }
        1 => {
            let a = m.remove(k.as_ref());
            match at {
                Some(i) => { let (bk, bv) = r.p.remove(i); sym::check(matches!(a, Some((ak, av)) if eq(&ak, &bk) & (av == bv)), "P19 remove"); }
                None => sym::check(a.is_none(), "P19 remove of an absent key"),
            }
        }
        2 => {
            let x = { let e = m.entry(k); sym::check(eq(e.key(), &k), "P19 entry key"); let v = e.or_insert(51); *v += 100; *v };
            match at { Some(i) => { r.p[i].1 += 100; sym::check(x == r.p[i].1, "P19 or_insert on an occupied entry"); } None => { r.p.push((k, 151)); sym::check(x == 151, "P19 or_insert on a vacant entry"); } }
        }
        3 => {
            let x = *m.entry(k).or_insert_with(|| 52);
            match at { Some(i) => sym::check(x == r.p[i].1, "P19 or_insert_with on an occupied entry"), None => { r.p.push((k, 52)); sym::check(x == 52, "P19 or_insert_with on a vacant entry"); } }
        }
        4 => {
            let x = *m.entry(k).and_modify(|v| *v += 7).or_insert(53);
            match at { Some(i) => { r.p[i].1 += 7; sym::check(x == r.p[i].1, "P19 and_modify"); } None => { r.p.push((k, 53)); sym::check(x == 53, "P19 and_modify on a vacant entry"); } }
        }
        5 => match m.entry(k) {
            Entry::Occupied(mut e) => {
                sym::check(at.is_some(), "P19 entry is occupied");
                if let Some(i) = at {
                    sym::check(eq(e.key(), &k) & (*e.get() == r.p[i].1), "P19 occupied entry");
                    let o = e.insert(54);
                    sym::check(o == r.p[i].1, "P19 occupied entry insert");
                    r.p[i].1 = 54;
                }
            }
            Entry::Vacant(e) => { sym::check(at.is_none() && eq(e.key(), &k), "P19 entry is vacant"); sym::check(eq(&e.into_key(), &k), "P19 into_key"); }
        },
        6 => match m.entry(k) {
            Entry::Occupied(e) => { let o = e.remove(); if let Some(i) = at { sym::check(o == r.p.remove(i).1, "P19 entry remove"); } else { sym::check(false, "P19 entry is occupied"); } }
            Entry::Vacant(e) => { sym::check(at.is_none(), "P19 entry is vacant"); *e.insert(55) += 1; r.p.push((k, 56)); }
        },
        7 => match m.entry(k) {
            Entry::Occupied(e) => { let (ok, ov) = e.remove_entry(); if let Some(i) = at { sym::check(eq(&ok, &k) & (ov == r.p.remove(i).1), "P19 remove_entry"); } else { sym::check(false, "P19 entry is occupied"); } }
            Entry::Vacant(e) => { sym::check(at.is_none(), "P19 entry is vacant"); let _ = e.insert(57); r.p.push((k, 57)); }
        },
        _ => match m.entry(k) {
            Entry::Occupied(e) => { *e.into_mut() = 58; if let Some(i) = at { r.p[i].1 = 58; } else { sym::check(false, "P19 entry is occupied"); } }
            Entry::Vacant(_) => sym::check(at.is_none(), "P19 entry is vacant"),
        },
    }
}
fn p19(n: usize, max: usize, ops: usize, wide: bool) {
    let (mut m, mut r) = initial(n, max, wide);
    for _ in 0..ops { map_op(&mut m, &mut r, max, wide); }
    check_map(&mut m, &r, max, wide);
}
/// more keys, given in order (the ways of building a map are p19_build*)
fn p19_sorted(n: usize, max: usize, ops: usize) {
    let mut m = SequenceMap::new();
    let mut r = Ref { p: vec![] };
    let mut last: Option<K> = None;
    for i in 0..n {
        let mut k = K { b: [0; 4], n: 1 };
        if max > 1 { k.n = 1 + sym::choose(max, "keylen"); }
        for j in 0..k.n { k.b[j] = sym::bits(7, "key") as u8; }
        if let Some(l) = last { sym::assume(less(&l, &k)); }
        m.insert(k, 10 + i as u32);
        r.p.push((k, 10 + i as u32));
        last = Some(k);
    }
    for _ in 0..ops { map_op(&mut m, &mut r, 1, false); }
    check_map(&mut m, &r, 1, false);
}
/// a vector longer than what a sort treats as a special case: 26 keys, most of them several
/// times, one of them any key at the start, in the middle or at the end
pub fn p19_from_many() {
    let n = 40;
    let mut ks = vec![];
    for i in 0..n { ks.push((K { b: [b'a' + ((i * 7) % 13) as u8 * 2, 0, 0, 0], n: 1 }, i as u32)); }
    let at = [0, 20, n - 1][sym::choose(3, "position")];
    ks[at].0.b[0] = sym::bits(7, "key") as u8;
    let mut r = Ref { p: vec![] };
    let from = sym::choose(2, "built") == 0;
    for &(k, v) in &ks {
        match r.at(&k) { Some(i) => if !from { r.p[i].1 = v }, None => r.p.push((k, v)) }
    }
    let mut m: SequenceMap<K, u32> = if from { SequenceMap::from(ks) } else { ks.into_iter().collect() };
    check_map(&mut m, &r, 1, false);
}
/// one operation with any key on a map of twenty keys
pub fn p19_large() {
    let mut m = SequenceMap::new();
    let mut r = Ref { p: vec![] };
    for i in 0..20 {
        let k = K { b: [b'A' + ((i * 7) % 20) as u8 * 2, 0, 0, 0], n: 1 };
        m.insert(k, 100 + i);
        r.p.push((k, 100 + i));
    }
    map_op(&mut m, &mut r, 1, false);
    check_map(&mut m, &r, 1, false);
}
pub fn p19_four1() { p19_sorted(4, 1, 1); }
pub fn p19_three2() { p19_sorted(3, 2, 1); }
pub fn p19_five2() { p19_sorted(5, 1, 2); }
pub fn p19_build2() { p19(2, 3, 0, true); }
pub fn p19_build3() { p19(3, 2, 0, false); }
pub fn p19_op() { p19(2, 2, 1, true); }
pub fn p19_ops() { p19(2, 1, 2, false); }
pub fn p19_op3() { p19(3, 2, 1, false); }
pub fn p19_four() { p19(4, 1, 1, false); }

// ---------------------------------------------------------------- signal sets
const S: [Signal; 6] = [Signal::Break, Signal::Continue, Signal::Interrupt, Signal::Resize, Signal::Suspend, Signal::Quit];
fn set(b: u8) -> SignalSet { let mut s = SignalSet::new(); for i in 0..6 { s.set(S[i], b & (1 << i) != 0); } s }
fn bits(s: SignalSet) -> u8 { let mut b = 0; for i in 0..6 { b |= (s.contains(S[i]) as u8) << i; } b }
pub fn p20_ops() {
    let (a, b) = (sym::bits(6, "a") as u8, sym::bits(6, "b") as u8);
    let (x, y) = (set(a), set(b));
    sym::check(bits(x) == a && bits(y) == b, "P20 set and contains");
    let l = ["P20 union", "P20 intersection", "P20 difference", "P20 symmetric difference", "P20 inverse"];
    let w = [a | b, a & b, a & !b, a ^ b, !a & 63];
    let m = [x.union(y), x.intersection(y), x.difference(y), x.symmetric_difference(y), x.inverse()];
    let o = [x | y, x & y, x - y, x ^ y, !x];
    let mut as_ = [x; 5];
    as_[0] |= y; as_[1] &= y; as_[2] -= y; as_[3] ^= y; as_[4] = !as_[4];
    for i in 0..5 {
        sym::check(bits(m[i]) == w[i], l[i]);
        sym::check(m[i] == o[i] && m[i] == as_[i], "P20 methods and operators agree");
        sym::check((m[i] == x) == (w[i] == a) && m[i].is_empty() == (w[i] == 0), "P20 equality and emptiness");
    }
    sym::check(x.contains_all(y) == (b & !a == 0), "P20 contains_all");
    sym::check(x.intersects(y) == (a & b != 0), "P20 intersects");
    sym::check((x == y) == (a == b), "P20 equality");
    sym::check(bits(SignalSet::all()) == 63 && bits(SignalSet::new()) == 0 && bits(SignalSet::default()) == 0, "P20 all and empty");
    let (i, j) = (sym::choose(6, "i"), sym::choose(6, "j"));
    sym::check(bits(SignalSet::from(S[i])) == 1 << i, "P20 from a signal");
    sym::check(bits(S[i] | S[j]) == 1 << i | 1 << j && bits(!S[i]) == 63 & !(1 << i), "P20 operators on signals");
    let mut z = x; z.insert(S[i]); sym::check(bits(z) == a | 1 << i, "P20 insert");
    z.remove(S[j]); sym::check(bits(z) == (a | 1 << i) & !(1 << j), "P20 remove");
    let on = sym::boolean("on"); z = x; z.set(S[i], on); sym::check(bits(z) == if on { a | 1 << i } else { a & !(1 << i) }, "P20 set");
    z = x; z.extend([S[i], S[j]]); sym::check(bits(z) == a | 1 << i | 1 << j, "P20 extend");
    sym::check(bits([S[j], S[i]].into_iter().collect()) == 1 << i | 1 << j, "P20 from iterator");
}
pub fn p20_debug() {
    let a = sym::choose(64, "a") as u8;
    let s = format!("{:?}", set(a));
    let mut e = String::from("SignalSet(");
    for i in 0..6 { if a & (1 << i) != 0 { if e.len() > 10 { e.push_str(" | "); } e.push_str(["Break", "Continue", "Interrupt", "Resize", "Suspend", "Quit"][i]); } }
    e.push(')');
    sym::check(s == e, "P20 debug output");
}

// ---------------------------------------------------------------- utilities
fn any_char() -> char {
    let x = sym::bits(21, "char") as u32;
    sym::assume(x < 0x110000 && !(x >= 0xd800 && x < 0xe000));
    unsafe { char::from_u32_unchecked(x) }
}
pub fn p21_ctrl() {
    let c = any_char();
    let x = c as u32;
    sym::check(is_ctrl(c) == (x < 32), "P21 is_ctrl");
    if x < 32 {
        let (u, l) = (unctrl_upper(c), unctrl_lower(c));
        sym::check(u as u32 == x + 64, "P21 unctrl_upper");
        sym::check(l as u32 == if x >= 1 && x <= 26 { x + 96 } else { x + 64 }, "P21 unctrl_lower");
        sym::check(ctrl(u) == c && ctrl(l) == c, "P21 ctrl undoes unctrl");
    }
    if x >= 64 && x < 127 { sym::check(ctrl(c) as u32 == x & 31 && is_ctrl(ctrl(c)), "P21 ctrl"); }
    let k = Key::from(c);
    let e = match x {
        27 => Key::Escape, 127 => Key::Backspace, 13 | 10 => Key::Enter, 9 => Key::Tab,
        0..=31 => Key::Ctrl(char::from_u32(if x >= 1 && x <= 26 { x + 96 } else { x + 64 }).unwrap()),
        _ => Key::Char(c),
    };
    sym::check(k == e, "P21 key of a character");
}
pub fn p21_prefixes() {
    let n = sym::choose(4, "n");
    let mut s = String::new();
    let mut ends = [0usize; 4];
    for i in 0..n { s.push(crate::h_screen::ch(crate::h_screen::sym_char(1 | 2 | 64 | 128).0)); ends[i] = s.len(); }
    let mut it = prefixes(&s);
    for i in 0..n {
        let p = it.next();
        sym::check(matches!(p, Some(p) if p.len() == ends[i] && p.as_ptr() == s.as_ptr()), "P21 prefixes");
    }
    sym::check(it.next().is_none() && it.next().is_none(), "P21 no further prefix");
}

// ---------------------------------------------------------------- positions, sizes, themes
pub fn p22_cursor() {
    let size = Size { lines: sym::usize("lines"), columns: sym::usize("columns") };
    let c = Cursor { line: sym::usize("line"), column: sym::usize("column") };
    sym::assume(size.lines > 0 && size.columns > 0);
    let outside = c.line >= size.lines || c.column >= size.columns;
    sym::check(c.is_out_of_bounds(size) == outside, "P22 is_out_of_bounds");
    let (f, l) = (Cursor::first(), Cursor::last(size));
    sym::check(f.line == 0 && f.column == 0 && l.line == size.lines - 1 && l.column == size.columns - 1, "P22 first and last");
    sym::check(!f.is_out_of_bounds(size) && !l.is_out_of_bounds(size), "P22 first and last are inside");
    let p = Cursor::from((c.line, c.column));
    sym::check(p == c, "P22 from a pair");
    sym::assume(!outside);
    match c.next(size) {
        None => sym::check(c == l, "P22 next of a cell"),
        Some(n) => {
            sym::check(c != l && !n.is_out_of_bounds(size), "P22 next is inside");
            sym::check(if c.column + 1 < size.columns { n.line == c.line && n.column == c.column + 1 } else { n.line == c.line + 1 && n.column == 0 }, "P22 next cell");
            sym::check(n.previous(size) == Some(c), "P22 previous undoes next");
        }
    }
    match c.previous(size) {
        None => sym::check(c == f, "P22 previous of a cell"),
        Some(n) => {
            sym::check(c != f && !n.is_out_of_bounds(size), "P22 previous is inside");
            sym::check(if c.column > 0 { n.line == c.line && n.column == c.column - 1 } else { n.line == c.line - 1 && n.column == size.columns - 1 }, "P22 previous cell");
            sym::check(n.next(size) == Some(c), "P22 next undoes previous");
        }
    }
}
pub fn p22_area() {
    let small = sym::boolean("small");
    let (l, c) = if small { (sym::bits(6, "lines") as usize, sym::u16("columns") as usize) } else { (sym::usize("lines"), sym::usize("columns")) };
    let s = Size { lines: l, columns: c };
    if small {
        let mut sum = 0usize;
        for i in 0..6 { if l & (1 << i) != 0 { sum += c << i; } }
        sym::check(s.checked_area() == Some(sum) && s.area() == sum, "P22 area");
        return;
    }
    // one factor a power of two: the product is a shift
    let k = sym::choose(64, "k");
    sym::assume(l == 1 << k);
    let fits = (c << k) >> k == c;
    sym::check(s.checked_area() == if fits { Some(c << k) } else { None }, "P22 area of a large size");
    sym::panic_ok(true);
    let r = std::panic::catch_unwind(|| s.area());
    sym::panic_ok(false);
    sym::check(r.is_err() != fits && (!fits || r.unwrap() == c << k), "P22 area panics when it overflows, and only then");
}
pub fn p22_theme() {
    const C: [Option<Color>; 9] = [None, Some(Color::Black), Some(Color::Blue), Some(Color::Cyan), Some(Color::Green), Some(Color::Magenta), Some(Color::Red), Some(Color::White), Some(Color::Yellow)];
    let (f, b, s) = (C[sym::small(9, "fg")], C[sym::small(9, "bg")], Style::from_bits_truncate(sym::bits(4, "st") as u8));
    let (f2, b2, s2) = (C[sym::small(9, "fg")], C[sym::small(9, "bg")], Style::from_bits_truncate(sym::bits(4, "st") as u8));
    let t = Theme::new(f, b, s);
    sym::check(t.fg == f && t.bg == b && t.style == s, "P22 theme");
    let u = t.fg(f2); sym::check(u.fg == f2 && u.bg == b && u.style == s, "P22 theme foreground");
    let u = t.bg(b2); sym::check(u.fg == f && u.bg == b2 && u.style == s, "P22 theme background");
    let u = t.style(s2); sym::check(u.fg == f && u.bg == b && u.style == s2, "P22 theme style");
    let u = t.style(None).fg(None).bg(None); sym::check(u.fg.is_none() && u.bg.is_none() && u.style.is_empty(), "P22 plain theme");
}

// ---------------------------------------------------------------- locks and threads
static mut TERM: *const Terminal = std::ptr::null();
static mut SCR: *const Screen = std::ptr::null();
static mut DONE: [usize; 4] = [0; 4];
static mut HELD: [bool; 2] = [false; 2];
fn term() -> &'static Terminal { unsafe { &*TERM } }
fn scr() -> &'static Screen { unsafe { &*SCR } }
fn enter(i: usize) { unsafe { sym::check(!HELD[i], "P25 a lock is held by two threads"); HELD[i] = true; } sym::yield_now(); unsafe { sym::check(HELD[i], "P25 a lock is held by two threads"); } }
fn leave(i: usize) { unsafe { HELD[i] = false; } }

extern "C" fn writer_guard(i: usize) {
    let mut g = term().lock_write().unwrap();
    enter(1);
    let (a, b) = [("ab", "cd"), ("AB", "CD")][i];
    g.write_str(a).unwrap();
    sym::yield_now();
    g.write_str(b).unwrap();
    leave(1);
    drop(g);
    unsafe { DONE[i] += 1; }
}
extern "C" fn writer_plain(i: usize) {
    term().write_str(["ab", "AB"][i]).unwrap();
    sym::yield_now();
    term().write_styled(Color::Red, None, Style::BOLD, ["cd", "CD"][i]).unwrap();
    unsafe { DONE[i] += 1; }
}
/// what two writers may have produced: each piece whole
fn whole(v: &Vt, n: usize, pieces: &[(&str, bool)]) {
    let mut used = vec![false; pieces.len()];
    let mut at = 0;
    while at < n {
        let mut hit = false;
        for (k, &(p, styled)) in pieces.iter().enumerate() {
            if used[k] || p.as_bytes()[0] as u32 != v.cell[0][at].ch[0] { continue; }
            for (j, c) in p.bytes().enumerate() {
                sym::check(v.cell[0][at + j].ch[0] == c as u32, "P25 output of two threads is mixed up");
                sym::check((v.cell[0][at + j].attr.style != 0) == styled, "P25 attributes of another thread's text");
            }
            used[k] = true; hit = true; at += p.len();
            break;
        }
        if !hit { sym::fail("P25 output of two threads is mixed up"); }
    }
    sym::check(used.iter().all(|&u| u), "P25 output missing");
}
fn threads(fs: &[extern "C" fn(usize)]) {
    for (i, f) in fs.iter().enumerate() { sym::spawn(*f, i); }
    sym::join_all();
}
pub fn p25_guards() {
    let t = open(2, 12); let mut v = t.v;
    let term_ = Box::new(t.t); unsafe { TERM = &*term_; }
    threads(&[writer_guard, writer_guard]);
    v.feed(world::output());
    whole(&v, 8, &[("abcd", false), ("ABCD", false)]);
}
pub fn p25_plain() {
    let t = open(2, 12); let mut v = t.v;
    let term_ = Box::new(t.t); unsafe { TERM = &*term_; }
    threads(&[writer_plain, writer_plain]);
    v.feed(world::output());
    whole(&v, 8, &[("ab", false), ("AB", false), ("cd", true), ("CD", true)]);
}
pub fn p25_mixed() {
    let t = open(2, 12); let mut v = t.v;
    let term_ = Box::new(t.t); unsafe { TERM = &*term_; }
    threads(&[writer_guard, writer_plain]);
    v.feed(world::output());
    whole(&v, 8, &[("abcd", false), ("AB", false), ("CD", true)]);
}
extern "C" fn both_in_order(i: usize) {
    let mut r = term().lock_read().unwrap();
    enter(0);
    let mut g = term().lock_write().unwrap();
    enter(1);
    let st = r.prepare_with_lock(&mut g, PrepareConfig::default()).unwrap();
    g.write_str(["ab", "AB"][i & 1]).unwrap();
    r.restore_with_lock(&mut g, st).unwrap();
    leave(1);
    drop(g);
    leave(0);
    drop(r);
    unsafe { DONE[i] += 1; }
}
extern "C" fn prepare_plain(_i: usize) {
    let st = term().prepare(PrepareConfig::default()).unwrap();
    term().restore(st).unwrap();
}
extern "C" fn read_one(_i: usize) {
    let e = term().read_event(Some(Duration::from_millis(1)));
    sym::check(matches!(e, Ok(Some(Event::Key(Key::Char('k'))))), "P25 the event");
    unsafe { DONE[3] += 1; }
}
/// the documented order of the locks does not deadlock
pub fn p25_order() {
    let t = open(2, 12); let mut v = t.v;
    let term_ = Box::new(t.t); unsafe { TERM = &*term_; }
    match sym::choose(4, "who") {
        0 => threads(&[both_in_order, both_in_order]),
        1 => threads(&[both_in_order, writer_guard]),
        2 => threads(&[prepare_plain, both_in_order]),
        _ => { w().inp[0] = b'k'; w().inp_len = 1; w().avail = 1; threads(&[read_one, both_in_order]); }
    }
    v.feed(world::output());
    sym::check(!v.bad && w().tio.c_lflag & libc::ICANON != 0, "P25 settings in the end");
}
/// each input goes to one of two readers
extern "C" fn read_key(i: usize) {
    let e = term().read_event(Some(Duration::from_millis(1))).unwrap();
    if let Some(Event::Key(Key::Char(c))) = e { unsafe { DONE[i] = c as usize; } } else { sym::fail("P25 an event is lost"); }
}
pub fn p25_readers() {
    let t = open(2, 12);
    let term_ = Box::new(t.t); unsafe { TERM = &*term_; }
    w().inp[0] = 0x61 + sym::bits(3, "k") as u8; w().inp[1] = 0x69 + sym::bits(3, "k") as u8; w().inp_len = 2; w().avail = 2;
    threads(&[read_key, read_key]);
    let d = unsafe { DONE };
    let (a, b) = (w().inp[0] as usize, w().inp[1] as usize);
    sym::check((d[0] == a && d[1] == b) || (d[0] == b && d[1] == a), "P25 each event to one reader");
}
/// a signal at any point of reading (between any two accesses to shared memory)
extern "C" fn signal_thread(_i: usize) { world::deliver(libc::SIGINT); }
pub fn p14_race() {
    let t = open(2, 12);
    let c = PrepareConfig { block_signals: false, report_signals: SignalSet::from(Signal::Interrupt), ..PrepareConfig::default() };
    let st = t.t.prepare(c).unwrap();
    w().inp[0] = b'x'; w().inp_len = 1; w().avail = 1;
    if sym::choose(2, "early") == 1 { world::deliver(libc::SIGINT); unsafe { DONE[0] = 1; } }
    sym::spawn(signal_thread, 0);
    let (mut sigs, mut keys) = (0, 0);
    for k in 0..5 {
        if k == 2 { sym::join_all(); }
        match t.t.read_event(Some(Duration::from_millis(0))).unwrap() {
            Some(Event::Key(Key::Char('x'))) => keys += 1,
            Some(Event::Signal(Signal::Interrupt)) => sigs += 1,
            None => (),
            _ => sym::fail("P14 an event that did not happen"),
        }
    }
    sym::check(keys == 1, "P14 input lost around a signal");
    let early = unsafe { DONE[0] };
    // two arrivals before a report are one pending signal, as for the process itself
    sym::check(sigs >= 1 && sigs <= 1 + early, "P14 a signal during reading is reported once");
    t.t.restore(st).unwrap();
}
/// the two locks are independent, and try_lock says what is held
pub fn p25_try() {
    let t = open(2, 12);
    let (hr, hw) = (sym::choose(2, "r") == 1, sym::choose(2, "w") == 1);
    let screen = sym::choose(2, "screen") == 1 && std::env::var("TERM").unwrap_or_default() != "dumb";
    macro_rules! go { ($s:expr) => {{
        let s = $s;
        {
            let _r = if hr { Some(s.lock_read().unwrap()) } else { None };
            let _w = if hw { Some(s.lock_write().unwrap()) } else { None };
            sym::check(matches!(s.try_lock_read(), Err(TryLockError::WouldBlock)) == hr, "P25 try_lock_read of a held lock");
            sym::check(matches!(s.try_lock_write(), Err(TryLockError::WouldBlock)) == hw, "P25 try_lock_write of a held lock");
            if !hr { sym::check(s.try_lock_read().is_ok(), "P25 try_lock_read"); }
            if !hw { sym::check(s.try_lock_write().is_ok(), "P25 try_lock_write"); }
        }
        sym::check(s.try_lock_read().is_ok() && s.try_lock_write().is_ok(), "P25 released locks");
        // a panic poisons what was held, and the data stays reachable
        sym::panic_ok(true);
        let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            let _r = if hr { Some(s.lock_read()) } else { None };
            let _w = if hw { Some(s.lock_write()) } else { None };
            panic!("poison");
        }));
        sym::panic_ok(false);
        sym::check(s.lock_read().is_err() == hr && s.lock_write().is_err() == hw, "P25 a poisoned lock is reported");
        sym::check(matches!(s.try_lock_read(), Err(TryLockError::Poisoned(_))) == hr && matches!(s.try_lock_write(), Err(TryLockError::Poisoned(_))) == hw, "P25 a poisoned lock is reported by try_lock");
        let mut g = match s.lock_write() { Ok(g) => g, Err(e) => e.into_inner() };
        let _ = g.write_str("ok");
        drop(g);
    }} }
    if screen {
        let s = Screen::with_terminal(t.t, PrepareConfig::default()).unwrap();
        go!(&s);
        let mut v = t.v;
        drop(s);
        v.feed(world::output());
        sym::check(!v.bad && !v.alt, "P25 left after poisoning");
    } else {
        go!(&t.t);
        let mut v = t.v;
        v.feed(world::output());
        sym::check(v.cell[0][0].ch[0] == 'o' as u32, "P25 output after poisoning");
    }
}
fn check_free() -> i32 {
    sym::check(term().try_lock_write().is_ok(), "P25 waiting for input leaves writing possible");
    sym::check(term().try_lock_read().is_err(), "P25 the read lock is held while reading");
    0
}
fn check_free_read(n: usize) -> isize {
    sym::check(term().try_lock_read().is_ok(), "P25 writing leaves reading possible");
    sym::check(term().try_lock_write().is_err(), "P25 the write lock is held while writing");
    n as isize
}
fn check_free_screen() -> i32 {
    sym::check(scr().try_lock_write().is_ok(), "P25 waiting for input leaves drawing possible");
    sym::check(scr().try_lock_read().is_err(), "P25 the read lock is held while reading");
    0
}
fn check_free_read_screen(n: usize) -> isize {
    sym::check(scr().try_lock_read().is_ok(), "P25 drawing leaves reading possible");
    sym::check(scr().try_lock_write().is_err(), "P25 the write lock is held while drawing");
    n as isize
}
pub fn p25_independent() {
    if std::env::var("TERM").unwrap_or_default() != "dumb" && sym::choose(2, "screen") == 1 {
        world::init(2, 4);
        let s = Box::new(Screen::new(PrepareConfig::default()).unwrap());
        unsafe { SCR = &*s; }
        w().on_wait = Some(check_free_screen);
        match sym::choose(2, "read") { 0 => { let _ = s.read_event(Some(Duration::from_millis(1))); } _ => { let _ = s.wait_event(Some(Duration::from_millis(1))); } }
        w().on_wait = None;
        w().on_write = Some(check_free_read_screen);
        s.write_str("ab");
        s.refresh().unwrap();
        w().on_write = None;
    } else {
        let t = open(2, 4);
        let mut term_ = Box::new(t.t); unsafe { TERM = &*term_; }
        w().on_wait = Some(check_free);
        let mut b = [0; 4];
        match sym::choose(3, "read") {
            0 => { let _ = term_.read_event(Some(Duration::from_millis(1))); }
            1 => { let _ = term_.wait_event(Some(Duration::from_millis(1))); }
            _ => { use mortal::unix::TerminalExt; let _ = term_.read_raw(&mut b, Some(Duration::from_millis(1))); }
        }
        w().on_wait = None;
        w().on_write = Some(check_free_read);
        match sym::choose(3, "write") {
            0 => term_.write_str("ab").unwrap(),
            1 => term_.write_styled(Color::Red, None, Style::BOLD, "ab").unwrap(),
            _ => { let _ = term_.clear_screen(); term_.write_char('x').unwrap(); }
        }
        w().on_write = None;
    }
}
extern "C" fn draw_guard(i: usize) {
    let mut g = scr().lock_write().unwrap();
    enter(1);
    g.set_cursor((i, 0));
    sym::yield_now();
    g.add_style([Style::BOLD, Style::REVERSE][i]);
    g.write_str(["ab", "AB"][i]);
    g.clear_attributes();
    if i == 0 { g.refresh().unwrap(); }
    leave(1);
}
extern "C" fn draw_plain(i: usize) {
    scr().write_styled_at((i, 1), None, None, [Style::BOLD, Style::REVERSE][i], ["cd", "CD"][i]);
    sym::yield_now();
    if i == 1 { scr().refresh().unwrap(); }
}
/// several threads draw on one screen
pub fn p25_draw() {
    world::init(2, 4);
    let mut v = Vt::new(2, 4);
    let s = Box::new(Screen::new(PrepareConfig::default()).unwrap());
    unsafe { SCR = &*s; }
    let who = sym::choose(3, "who");
    match who { 0 => threads(&[draw_guard, draw_guard]), 1 => threads(&[draw_plain, draw_plain]), _ => threads(&[draw_guard, draw_plain]) }
    s.refresh().unwrap();
    v.feed(world::output());
    sym::check(!v.bad, "P25 unknown control sequence");
    for l in 0..2 {
        let plain = who == 1 || (who == 2 && l == 1);
        let text = if plain { [" cd ", " CD "][l] } else { ["ab  ", "AB  "][l] };
        for (c, x) in text.bytes().enumerate() {
            sym::check(v.cell[l][c].ch[0] == x as u32, "P25 drawing of two threads is mixed up");
            if x != b' ' { sym::check(v.cell[l][c].attr.style == [1, 4][l], "P25 attributes of another thread's drawing"); }
        }
    }
}
/// a thread reading while another draws: a change of size arrives
extern "C" fn read_resize(_i: usize) {
    let e = scr().read_event(Some(Duration::from_millis(1))).unwrap();
    sym::check(matches!(e, Some(Event::Resize(Size { lines: 1, columns: 6 }))), "P25 the change of size");
}
pub fn p25_resize() {
    world::init(2, 4);
    let mut v = Vt::new(2, 4);
    let s = Box::new(Screen::new(PrepareConfig::default()).unwrap());
    unsafe { SCR = &*s; }
    v.feed(world::output()); world::clear_output();
    w().rows = 1; w().cols = 6;
    v.resize(1, 6, 0);
    world::deliver(libc::SIGWINCH);
    sym::spawn(read_resize, 0);
    sym::spawn(draw_guard, 0);
    sym::join_all();
    s.refresh().unwrap();
    v.feed(world::output());
    let sz = s.size();
    sym::check(sz.lines == 1 && sz.columns == 6, "P25 size of the screen");
    sym::check(v.cell[0][0].ch[0] == b'a' as u32 && v.cell[0][1].ch[0] == b'b' as u32, "P25 drawing across a resize");
}
/// both guards in one thread, taken in the documented order, while the size changes or the process is continued
pub fn p25_both_resize() {
    world::init(2, 4);
    let s = Screen::new(PrepareConfig::default()).unwrap();
    let mut r = s.lock_read().unwrap();
    let g = s.lock_write().unwrap();
    world::deliver(libc::SIGWINCH);
    let e = r.read_event(Some(Duration::from_millis(0))).unwrap();
    sym::check(matches!(e, Some(Event::Resize(_))), "P25 the change of size with both guards held");
    drop(g);
}
pub fn p25_both_continue() {
    let t = open(2, 4);
    let st = t.t.prepare(PrepareConfig { report_signals: SignalSet::from(Signal::Continue), ..PrepareConfig::default() }).unwrap();
    let mut r = t.t.lock_read().unwrap();
    let mut g = t.t.lock_write().unwrap();
    world::deliver(libc::SIGCONT);
    let e = r.read_event(Some(Duration::from_millis(0))).unwrap();
    sym::check(matches!(e, Some(Event::Signal(Signal::Continue))), "P25 the continuation with both guards held");
    r.restore_with_lock(&mut g, st).unwrap();
}

// ------------------------------------------------ any two calls at once have the effect of one after the other
static mut CALL: [usize; 2] = [0; 2];
static mut TEXT: [[u8; 2]; 2] = [[0; 2]; 2];
fn text(i: usize) -> &'static str { unsafe { std::str::from_utf8_unchecked(&TEXT[i]) } }
const TCALLS: usize = 12;
fn term_call(k: usize, i: usize) {
    let t = term();
    let (x, st) = ([text(i), ["cde", "CDE"][i]], [Style::BOLD, Style::UNDERLINE][i]);
    match k {
        0 => t.write_str(x[0]).unwrap(),
        1 => t.write_char(['x', 'X'][i]).unwrap(),
        2 => t.write_styled([Color::Red, Color::Blue][i], [None, Some(Color::Green)][i], st, x[1]).unwrap(),
        3 => write!(t, "{}-{}", x[0], i).unwrap(),
        4 => { term_write!(t, [bold] ("{}", x[0]) [!bold] [underline] "u" [reset] "r").unwrap(); }
        5 => t.set_theme(Theme::new([Color::Cyan, Color::White][i], None, st)).unwrap(),
        6 => t.set_style(st).unwrap(),
        7 => t.clear_attributes().unwrap(),
        8 => t.move_down(1 + i).unwrap(),
        9 => t.clear_screen().unwrap(),
        10 => { t.set_bg([Color::Red, Color::Blue][i]).unwrap(); }
        _ => { let c = PrepareConfig { enable_mouse: i == 1, ..PrepareConfig::default() }; let s = t.prepare(c).unwrap(); std::mem::forget(s); }
    }
}
extern "C" fn term_thread(i: usize) { term_call(unsafe { CALL[i] }, i) }
const SCALLS: usize = 12;
fn scr_call(k: usize, i: usize) {
    let s = scr();
    let (x, st) = (["ab", "AB"][i], [Style::BOLD, Style::UNDERLINE][i]);
    match k {
        0 => s.write_at((i, 1), x),
        1 => s.write_styled([Color::Red, Color::Blue][i], None, st, x),
        2 => s.write_styled_at((i, 2), None, None, st, x),
        3 => s.write_str(x),
        4 => write!(s, "{}-{}", x, i),
        5 => { term_write!(s, [bold] ("{}", x) [!bold] [underline] "u" [reset] "r"); }
        6 => s.set_cursor((i, 3)),
        7 => s.set_theme(Theme::new([Color::Cyan, Color::White][i], None, st)),
        8 => s.clear_screen(),
        9 => s.clear_attributes(),
        10 => s.next_line(1),
        _ => s.refresh().unwrap(),
    }
}
extern "C" fn scr_thread(i: usize) { scr_call(unsafe { CALL[i] }, i) }
fn calls(n: usize, reset: fn(), end: fn(), call: fn(usize, usize), thread: extern "C" fn(usize)) {
    let (a, b) = (sym::choose(n, "first"), sym::choose(n, "second"));
    sym::assume(b <= a);
    unsafe { CALL = [a, b]; for i in 0..2 { for j in 0..2 { TEXT[i][j] = 0x60 + sym::bits(4, "text") as u8; } } }
    let mut out: Vec<Vec<u8>> = vec![];
    for k in 0..2 {
        reset();
        world::clear_output();
        call([a, b][k], k);
        call([b, a][k], 1 - k);
        end();
        out.push(world::output().to_vec());
    }
    reset();
    world::clear_output();
    threads(&[thread, thread]);
    end();
    let o = world::output();
    let mut ok = false;
    for x in &out {
        let mut e = x.len() == o.len();
        if e { for i in 0..o.len() { e &= o[i] == x[i]; } }
        ok |= e;
    }
    sym::check(ok, "P25 two calls at once have the effect of neither order");
}
pub fn p25_calls() {
    let t = open(3, 12);
    let t = Box::new(t.t); unsafe { TERM = &*t; }
    calls(TCALLS, || { let mut g = term().lock_write().unwrap(); g.clear_attributes().unwrap(); g.flush().unwrap(); }, || { term().write_str("!").unwrap(); term().lock_write().unwrap().flush().unwrap(); }, term_call, term_thread);
    std::mem::forget(t);
}
pub fn p25_scr_calls() {
    world::init(3, 10);
    let s = Box::new(Screen::new(PrepareConfig::default()).unwrap());
    unsafe { SCR = &*s; }
    calls(SCALLS, || { let s = scr(); s.clear_attributes(); s.clear_screen(); s.set_cursor((0, 0)); s.refresh().unwrap(); }, || { scr().write_str("!"); scr().refresh().unwrap(); }, scr_call, scr_thread);
    std::mem::forget(s);
}
