//! Output delivery: every byte written reaches the terminal exactly once and in order.
use crate::h_attr::open;
use crate::h_screen::{ch, sym_char, A, WIDE, ATTRS, theme};
use crate::sym;
use crate::vt::PLAIN;
use crate::world::{self, w};

pub const PART: u32 = 1; pub const INTR: u32 = 2; pub const EIO: u32 = 4; pub const ZERO: u32 = 8;

/// one write of up to 8 symbolic bytes; any short writes and interruptions
fn p08_one_(n: usize, faults: usize, kinds: u32) {
    let t = open(2, 12);
    let mut b = [0u8; 8];
    for i in 0..n { b[i] = 0x20 + (sym::bits(6, "b") as u8); }
    let s = unsafe { std::str::from_utf8_unchecked(&b[..n]) };
    w().wfaults = faults; w().wkinds = kinds;
    let ok = match sym::choose(4, "how") {
        0 => t.t.write_str(s).is_ok(),
        1 => { let mut g = t.t.lock_write().unwrap(); g.write_str(s).unwrap(); g.flush().is_ok() }
        2 => { write!(t.t, "{}", s).is_ok() }
        _ => { let mut g = t.t.lock_write().unwrap(); for c in s.chars() { g.write_char(c).unwrap(); } drop(g); true }
    };
    if kinds & (EIO | ZERO) == 0 {
        w().wfaults = 0;
        sym::check(ok, "P08 interruptions are no error");
        sym::check(world::output() == &b[..n], "P08 delivered exactly once, in order");
    } else {
        let d = world::output();
        sym::check(d.len() <= n && d == &b[..d.len()], "P08 delivered prefix");
        // nothing is lost: the rest follows with the next output
        w().wfaults = 0;
        let r = t.t.write_str("!");
        sym::check(r.is_ok(), "P08 later write");
        let o = world::output();
        sym::check(o.len() == n + 1 && &o[..n] == &b[..n] && o[n] == b'!', "P08 nothing lost or repeated after an error");
    }
    sym::trace(1, w().writes as u64);
}
pub fn p08_partial() { p08_one_(5, 3, PART | INTR); }
/// the buffer is full, and the write that fails is tried again: the text still appears once
pub fn p08_retry() {
    let t = open(2, 12);
    let pre = 8192 - sym::choose(9, "room");
    let n = 1 + sym::choose(8, "n");
    let mut b = [0u8; 8];
    for i in 0..n { b[i] = 0x20 + (sym::bits(6, "b") as u8); }
    let s = unsafe { std::str::from_utf8_unchecked(&b[..n]) };
    let mut g = t.t.lock_write().unwrap();
    g.write_str(unsafe { std::str::from_utf8_unchecked(&BIG[..pre]) }).unwrap();
    w().wfaults = 2; w().wkinds = PART | EIO | ZERO;
    let mut k = 0;
    while g.write_str(s).is_err() { k += 1; sym::check(k <= 2, "P08 an error without a failed write"); }
    sym::check(k == w().wfailed, "P08 a failed write is reported");
    w().wfaults = 0;
    g.flush().unwrap();
    let o = world::output();
    sym::check(o.len() == pre + n && &o[..pre] == &BIG[..pre] && &o[pre..] == &b[..n], "P08 delivered exactly once, in order");
    sym::trace(1, w().writes as u64);
}
pub fn p08_deep() { p08_one_(8, 4, PART | INTR); }
pub fn p08_errors() { p08_one_(4, 2, PART | INTR | EIO | ZERO); }
pub fn p08_errors3() { p08_one_(6, 3, PART | INTR | EIO | ZERO); }

/// several operations on one guard, flushes in between, errors reported by the flush that met them
pub fn p08_seq() { p08_seq_(3, 2) }
pub fn p08_seq4() { p08_seq_(4, 3) }
fn p08_seq_(k: usize, faults: usize) {
    let t = open(2, 12);
    let mut exp = [0u8; 64];
    let mut n = 0;
    w().wfaults = faults; w().wkinds = PART | INTR | EIO | ZERO;
    {
        let mut g = t.t.lock_write().unwrap();
        for _ in 0..k {
            match sym::small(4, "op") {
                0 => { let x = 0x61 + sym::bits(3, "x") as u8; g.write_char(x as char).unwrap(); exp[n] = x; n += 1; }
                1 => { g.write_str("\u{e9}z").unwrap(); exp[n] = 0xc3; exp[n + 1] = 0xa9; exp[n + 2] = b'z'; n += 3; }
                2 => { g.move_to_first_column().unwrap(); exp[n] = b'\r'; n += 1; }
                _ => {
                    let f = w().wfailed;
                    let r = g.flush();
                    match r {
                        Ok(()) => { sym::check(w().wfailed == f, "P08 a failed write is reported"); sym::check(w().out_len == n, "P08 flush delivers everything"); }
                        Err(e) => {
                            sym::check(w().wfailed == f + 1, "P08 an error without a failed write");
                            if w().wlast_errno != 0 { sym::check(e.raw_os_error() == Some(w().wlast_errno), "P08 the error is the system's"); }
                            else { sym::check(e.kind() == std::io::ErrorKind::WriteZero, "P08 the error is the system's"); }
                        }
                    }
                }
            }
            let o = world::output();
            sym::check(o.len() <= n && o == &exp[..o.len()], "P08 prefix");
        }
    }
    w().wfaults = 0;
    t.t.lock_write().unwrap().flush().unwrap();
    sym::check(world::output() == &exp[..n], "P08 delivered exactly once, in order");
}

/// a screen whose redraw is interrupted, cut short or fails still ends up showing its content
fn p08_scr(kinds: u32, faults: usize) {
    let mut t = crate::h_screen::open(2, 3);
    let x = sym_char(A | WIDE); t.write(x);
    let y = sym_char(A); t.write(y);
    let hard = kinds & (EIO | ZERO) != 0;
    w().wfaults = faults; w().wkinds = kinds;
    let how = sym::choose(2, "how");
    let mut ok = true;
    if how == 0 { ok = t.s.refresh().is_ok(); } else { let mut g = t.s.lock_write().unwrap(); g.write_char('g'); t.r.put(0x67, 1); drop(g); }
    if !hard {
        sym::check(ok, "P08 screen: interruptions are no error");
        t.sync();
        t.check_content("P08 screen content");
    }
    w().wfaults = 0;
    t.s.refresh().unwrap();
    t.sync();
    t.check_content("P08 screen content after a failed refresh");
    t.check_cursor("P08 screen cursor after a failed refresh");
}
pub fn p08_screen() { p08_scr(PART | INTR, 2); }
pub fn p08_screen_err() { p08_scr(EIO | ZERO | PART, 2); }

/// content too large for one buffer: a failure in the middle of a redraw loses no cell
pub fn p08_screen_big() {
    let mut t = crate::h_screen::open(1, 4);
    let k = sym::choose(3, "k");
    let fail = sym::choose(4, "failing");
    static mut FAIL: usize = 0; static mut N: usize = 0;
    unsafe { FAIL = fail; N = 0; }
    let m = [2040, 2050, 4100][k];
    for i in 0..4 {
        t.s.write_char(ch(0x61 + i));
        let mut s = String::new();
        for _ in 0..m { s.push('\u{301}'); }
        t.s.write_str(&s);
    }
    w().on_write = Some(|n| unsafe { let k = N; N += 1; if k == FAIL { -(libc::EIO as isize) } else { n as isize } });
    let r = t.s.refresh();
    w().on_write = None;
    if r.is_err() { t.s.refresh().unwrap(); }
    // the last time a letter appears, all of its marks follow it
    let o = world::output();
    for i in 0..4u8 {
        let mut p = o.len();
        while p > 0 { p -= 1; if o[p] == 0x61 + i { break; } }
        sym::check(o[p] == 0x61 + i && p + 1 + 2 * m <= o.len(), "P08 a cell is lost");
        let mut ok = true;
        for j in 0..m { ok &= o[p + 1 + 2 * j] == 0xcc && o[p + 2 + 2 * j] == 0x81; }
        sym::check(ok, "P08 a cell is cut short");
    }
}

/// P09: sizes around the buffer's
static BIG: [u8; 70000] = { let mut b = [0u8; 70000]; let mut i = 0; while i < 70000 { b[i] = b'0' + (i * 7 + i / 100) as u8 % 64; i += 1; } b };
const PRE: [usize; 8] = [0, 1, 100, 4096, 8190, 8191, 8192, 9000];
const LEN: [usize; 12] = [0, 1, 2, 100, 4096, 4097, 8190, 8191, 8192, 8193, 8194, 16385];
fn p09(k: usize, faults: usize, kinds: u32) {
    let t = open(2, 12);
    let mut n = 0;
    let mut g = t.t.lock_write().unwrap();
    w().wfaults = faults; w().wkinds = kinds;
    let mut exp: Vec<(usize, usize)> = Vec::new();
    let mut cut = false;
    for i in 0..k {
        let l = if i == 0 { PRE[sym::small(8, "pre")] } else { LEN[sym::small(12, "len")] };
        if n + l > 36000 { sym::assume(false); }
        let off = (i * 11) % 64;
        let d = &BIG[off..off + l];
        let f = w().wfailed;
        let r = g.write_str(unsafe { std::str::from_utf8_unchecked(d) });
        sym::check(r.is_err() == (w().wfailed != f), "P09 error exactly when a write fails");
        if r.is_ok() { exp.push((off, l)); n += l; }
        else if l > 8192 {
            // a long text may have been delivered in part: a prefix of it, after everything before it
            let o = w().out_len;
            if o > n { exp.push((off, o - n)); n = o; }
            cut = true;
        }
        if cut { break; }
    }
    w().wfaults = 0;
    drop(g);
    sym::check(w().out_len == n, "P09 number of bytes delivered");
    let o = world::output();
    let mut p = 0;
    for (off, l) in exp { sym::check(o.len() >= p + l && &o[p..p + l] == &BIG[off..off + l], "P09 delivered exactly once, in order"); p += l; }
    sym::trace(1, w().writes as u64);
}
pub fn p09_sizes() { p09(3, 0, 0); }
pub fn p09_part() { p09(2, 2, PART | INTR); }
pub fn p09_err() { p09(2, 2, PART | EIO | ZERO); }
pub fn p09_three() { p09(3, 2, PART | INTR | EIO); }
pub fn p09_four() { p09(4, 1, PART | INTR | EIO | ZERO); }

/// attributes and text interleaved beyond the buffer size
pub fn p09_attr() {
    let mut t = open(2, 12);
    let g0 = PRE[4 + sym::small(4, "pre")] - sym::small(6, "less");
    let a = ATTRS[sym::choose(3, "a")];
    w().wfaults = 1; w().wkinds = PART | INTR;
    {
        let mut g = t.t.lock_write().unwrap();
        g.write_str(unsafe { std::str::from_utf8_unchecked(&BIG[..g0]) }).unwrap();
        g.write_str("\r").unwrap();
        g.set_theme(theme(a)).unwrap();
        g.write_str("xyz").unwrap();
        g.clear_attributes().unwrap();
        g.write_str("w").unwrap();
    }
    w().wfaults = 0;
    let o = world::output();
    sym::check(o.len() > g0 && &o[..g0] == &BIG[..g0], "P09 text before attributes");
    let n = o.len();
    t.v.feed(&o[g0..n]);
    for (i, (c, at)) in [('x', a), ('y', a), ('z', a), ('w', PLAIN)].into_iter().enumerate() {
        sym::check(t.v.cell[0][i].ch[0] == c as u32 && t.v.cell[0][i].attr == crate::vt::supported(at), "P09 attributes");
    }
    sym::check(!t.v.bad && t.v.c == 4, "P09 attributes");
}

/// short writes of every length: the length each write(2) accepts is one symbolic value.
/// What is offered is compared with the expected stream (PRE_N bytes of BIG, then BIG_N bytes of
/// BIG from 1000); memory that was compared once is recognised by its address.
static mut PRE_N: usize = 0;
static mut TOTAL: usize = 0;
static mut DONE: usize = 0;
static mut KNOWN: [(usize, usize, usize); 2] = [(0, 0, 0); 2]; // address of position 0, first and end position
static mut LEFT: usize = 0;
static mut MINFAIL: bool = false;
static mut FAILED: bool = false;
static mut FAST: bool = true;
fn expected(i: usize) -> u8 { unsafe { if i < PRE_N { BIG[i] } else { BIG[1000 + i - PRE_N] } } }
fn raw(p: *const u8, n: usize) -> isize {
    unsafe {
        let a = p as usize;
        sym::check(n > 0, "P08 empty write");
        sym::check(n <= TOTAL - DONE, "P08 more is written than was asked for");
        let mut known = false;
        for k in 0..2 {
            let (base, lo, hi) = KNOWN[k];
            if hi != 0 && a.wrapping_sub(base) == DONE && DONE >= lo && DONE + n <= hi {
                sym::check(*((base.wrapping_add(hi) - 1) as *const u8) == expected(hi - 1), "P08 delivered in order");
                known = true;
                break;
            }
        }
        if !known {
            let n = sym::conc(n);
            let d = sym::conc(DONE);
            let mut ok = true;
            for i in 0..n { ok &= *p.add(i) == expected(d + i); }
            sym::check(ok, "P08 delivered in order");
            if KNOWN[0].2 == 0 { KNOWN[0] = (a.wrapping_sub(d), d, d + n); } else { FAST = false; }
        }
        if LEFT == 0 { DONE += n; return n as isize; }
        LEFT -= 1;
        let k = sym::small(3, "wr");
        sym::assume(k < 2 || MINFAIL);
        if k == 1 { return -(libc::EINTR as isize); }
        if k == 2 { FAILED = true; return -(libc::EIO as isize); }
        let r = sym::bits(17, "r") as usize;
        sym::assume(r >= 1 && r <= n);
        // (should the code copy its data around: only some lengths)
        if !FAST { sym::assume(r == 1 || r == n - 1 || r == n || r == n / 2); }
        DONE += r;
        r as isize
    }
}
fn p08_len(pre: usize, big: usize, calls: usize, fail: bool) {
    let t = open(2, 12);
    unsafe {
        PRE_N = pre; TOTAL = pre + big; DONE = 0; LEFT = calls; MINFAIL = fail; FAILED = false; FAST = true;
        let text = std::str::from_utf8_unchecked(&BIG[1000..1000 + big]);
        KNOWN = [(0, 0, 0), ((text.as_ptr() as usize).wrapping_sub(pre), pre, pre + big)];
        let mut g = t.t.lock_write().unwrap();
        if pre > 0 { g.write_str(std::str::from_utf8_unchecked(&BIG[..pre])).unwrap(); }
        w().raw_write = Some(raw);
        let r = g.write_str(text);
        let r2 = if r.is_ok() { g.flush() } else { Ok(()) };
        let e = r.is_err() || r2.is_err();
        sym::check(e == FAILED, "P08 error exactly when a write fails");
        if !e { sym::check(DONE == pre + big, "P08 everything is delivered"); }
        w().raw_write = None;
        sym::trace(1, DONE as u64);
        std::mem::forget(g);
    }
    sym::exit();
}
pub fn p08_anylen() { p08_len(0, 9000, 3, true); }
pub fn p08_anylen2() { p08_len(3000, 9000, 4, false); }
pub fn p08_anylen3() { p08_len(0, 5000, 3, false); }
pub fn p08_anylen4() { p08_len(8192, 19000, 4, false); }
/// more than any counter of 16 bits can hold, accepted at once or in parts
pub fn p09_huge() { p08_len(0, [65535, 65536, 65537, 69000][sym::choose(4, "len")], 2, true); }
