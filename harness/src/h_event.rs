//! Input: key, mouse and text decoding, raw reads, signals, timeouts.
use crate::h_attr::open;
use crate::h_screen::ch;
use crate::sym;
use crate::world::{self, w};
use mortal::unix::TerminalExt;
use mortal::*;
use std::time::Duration;

const Z: Option<Duration> = Some(Duration::from_millis(0));

// ---------------------------------------------------------------- reference decoder
/// the key sequences of the terminal descriptions in /verif/harness/terminfo
const XTERM: [(&[u8], Key); 22] = [
    (b"\x1bOA", Key::Up), (b"\x1bOB", Key::Down), (b"\x1bOD", Key::Left), (b"\x1bOC", Key::Right), (b"\x1bOH", Key::Home), (b"\x1bOF", Key::End),
    (b"\x1b[6~", Key::PageDown), (b"\x1b[5~", Key::PageUp), (b"\x1b[3~", Key::Delete), (b"\x1b[2~", Key::Insert),
    (b"\x1bOP", Key::F(1)), (b"\x1bOQ", Key::F(2)), (b"\x1bOR", Key::F(3)), (b"\x1bOS", Key::F(4)), (b"\x1b[15~", Key::F(5)), (b"\x1b[17~", Key::F(6)),
    (b"\x1b[18~", Key::F(7)), (b"\x1b[19~", Key::F(8)), (b"\x1b[20~", Key::F(9)), (b"\x1b[21~", Key::F(10)), (b"\x1b[23~", Key::F(11)), (b"\x1b[24~", Key::F(12)),
];
const LINUX: [(&[u8], Key); 22] = [
    (b"\x1b[A", Key::Up), (b"\x1b[B", Key::Down), (b"\x1b[D", Key::Left), (b"\x1b[C", Key::Right), (b"\x1b[1~", Key::Home), (b"\x1b[4~", Key::End),
    (b"\x1b[6~", Key::PageDown), (b"\x1b[5~", Key::PageUp), (b"\x1b[3~", Key::Delete), (b"\x1b[2~", Key::Insert),
    (b"\x1b[[A", Key::F(1)), (b"\x1b[[B", Key::F(2)), (b"\x1b[[C", Key::F(3)), (b"\x1b[[D", Key::F(4)), (b"\x1b[[E", Key::F(5)), (b"\x1b[17~", Key::F(6)),
    (b"\x1b[18~", Key::F(7)), (b"\x1b[19~", Key::F(8)), (b"\x1b[20~", Key::F(9)), (b"\x1b[21~", Key::F(10)), (b"\x1b[23~", Key::F(11)), (b"\x1b[24~", Key::F(12)),
];
const VT100: [(&[u8], Key); 14] = [
    (b"\x1bOA", Key::Up), (b"\x1bOB", Key::Down), (b"\x1bOD", Key::Left), (b"\x1bOC", Key::Right),
    (b"\x1bOP", Key::F(1)), (b"\x1bOQ", Key::F(2)), (b"\x1bOR", Key::F(3)), (b"\x1bOS", Key::F(4)), (b"\x1bOt", Key::F(5)), (b"\x1bOu", Key::F(6)),
    (b"\x1bOv", Key::F(7)), (b"\x1bOl", Key::F(8)), (b"\x1bOw", Key::F(9)), (b"\x1bOx", Key::F(10)),
];
/// terminfo/odd.ti: keys that are prefixes of others, with and without keys in between; keys that do not start with an escape
const ODD: [(&[u8], Key); 14] = [
    (b"\x1b[A", Key::Up), (b"\x1b[AB", Key::Down), (b"\x1b[ABCD", Key::Left), (b"\x1b[1", Key::F(1)), (b"\x1b[1~", Key::F(2)), (b"\x1b[1~~", Key::F(3)),
    (b"\x1bO", Key::F(4)), (b"\x1bOxyz", Key::F(5)), (b"\x02", Key::F(6)), (b"\x02q", Key::F(7)), (b"qz", Key::F(8)),
    (b"\x1b\x1b", Key::F(10)), (b"\x01", Key::F(11)), (b"\x7f\x7f", Key::F(12)),
];
fn table() -> &'static [(&'static [u8], Key)] {
    let t = std::env::var("TERM").unwrap_or_default();
    if t == "linux" { &LINUX } else if t == "vt100" { &VT100 } else if t == "mvodd" { &ODD } else { &XTERM }
}
fn is_xterm() -> bool { std::env::var("TERM").unwrap_or_default().starts_with("xterm") }

#[derive(Clone, Copy)]
pub enum Dec { Ev(Event, usize), Mouse { btn: u64, col: u64, line: u64, press: bool, n: usize }, Bad(usize), More }

/// length of a valid character at the start of b: (Ok(len) | Err(Some(invalid bytes)) | Err(None) incomplete), by the Unicode standard's table 3-7
fn utf8(b: &[u8]) -> Result<(u32, usize), Option<usize>> {
    let a = b[0];
    if a < 0x80 { return Ok((a as u32, 1)); }
    let (n, lo, hi) = match a {
        0xc2..=0xdf => (2, 0x80, 0xbf), 0xe0 => (3, 0xa0, 0xbf), 0xe1..=0xec => (3, 0x80, 0xbf), 0xed => (3, 0x80, 0x9f), 0xee..=0xef => (3, 0x80, 0xbf),
        0xf0 => (4, 0x90, 0xbf), 0xf1..=0xf3 => (4, 0x80, 0xbf), 0xf4 => (4, 0x80, 0x8f), _ => return Err(Some(1)),
    };
    let mut c = (a as u32) & (0x7f >> n);
    for i in 1..n {
        if i >= b.len() { return Err(None); }
        let (l, h) = if i == 1 { (lo, hi) } else { (0x80, 0xbf) };
        if b[i] < l || b[i] > h { return Err(Some(i)); }
        c = c << 6 | (b[i] & 0x3f) as u32;
    }
    Ok((c, n))
}
fn number(b: &[u8], p: &mut usize) -> Option<u64> {
    let mut v = 0u64;
    let s = *p;
    while *p < b.len() && b[*p] >= b'0' && b[*p] <= b'9' { v = v * 10 + (b[*p] - b'0') as u64; if *p - s > 12 { return None; } *p += 1; }
    if *p == b.len() || v > 0xffff_ffff { return None; }
    *p += 1;
    Some(v)
}
fn mouse(b: &[u8]) -> Option<Dec> {
    let mut p = 3;
    let btn = number(b, &mut p)?;
    if b[p - 1] != b';' { return None; }
    let col = number(b, &mut p)?;
    if b[p - 1] != b';' { return None; }
    let line = number(b, &mut p)?;
    let press = match b[p - 1] { b'M' => true, b'm' => false, _ => return None };
    if col == 0 || line == 0 { return None; }
    Some(Dec::Mouse { btn, col: col - 1, line: line - 1, press, n: p })
}
fn key_of(c: u32) -> Key {
    if c == 27 { return Key::Escape; }
    if c == 127 { return Key::Backspace; }
    if c == 13 || c == 10 { return Key::Enter; }
    if c == 9 { return Key::Tab; }
    if c < 27 && c > 0 { return Key::Ctrl(ch(c + 96)); }
    if c < 32 { return Key::Ctrl(ch(c + 64)); }
    Key::Char(ch(c))
}
pub fn decode(b: &[u8]) -> Dec {
    let (c, n) = match utf8(b) { Ok(x) => x, Err(None) => return Dec::More, Err(Some(k)) => return Dec::Bad(k) };
    {
        let mut best = 0;
        let mut key = Key::Escape;
        for &(s, k) in table() {
            if s.len() > best && s.len() <= b.len() {
                let mut e = true;
                for i in 0..s.len() { if s[i] != b[i] { e = false; break; } }
                if e { best = s.len(); key = k; }
            }
        }
        if best > 0 { return Dec::Ev(Event::Key(key), best); }
        if b[0] == 27 && is_xterm() && b.len() >= 3 && b[1] == b'[' && b[2] == b'<' { if let Some(d) = mouse(b) { return d; } }
    }
    Dec::Ev(Event::Key(key_of(c)), n)
}

fn feed(b: &[u8]) {
    let w = w();
    for &x in b { w.inp[w.inp_len] = x; w.inp_len += 1; }
    w.avail = w.inp_len;
}
fn same_key(a: Key, b: Key) -> bool {
    match (a, b) {
        (Key::Char(x), Key::Char(y)) | (Key::Ctrl(x), Key::Ctrl(y)) => x as u32 == y as u32,
        (Key::F(x), Key::F(y)) => x == y,
        _ => a == b,
    }
}
fn check_ev(e: &std::io::Result<Option<Event>>, d: Dec) {
    match (e, d) {
        (Ok(Some(Event::Key(a))), Dec::Ev(Event::Key(b), _)) => sym::check(same_key(*a, b), "P10 key"),
        (Ok(Some(Event::Mouse(m))), Dec::Mouse { btn, col, line, press, .. }) => {
            sym::check(m.position.line as u64 == line && m.position.column as u64 == col, "P11 position");
            let mut md = ModifierState::empty();
            if btn & 4 != 0 { md |= ModifierState::SHIFT; }
            if btn & 8 != 0 { md |= ModifierState::ALT; }
            if btn & 16 != 0 { md |= ModifierState::CTRL; }
            sym::check(m.modifiers == md, "P11 modifiers");
            let has = |x| m.modifiers.contains(x);
            sym::check(has(ModifierState::SHIFT) == (btn & 4 != 0) && has(ModifierState::ALT) == (btn & 8 != 0) && has(ModifierState::CTRL) == (btn & 16 != 0), "P11 modifiers, one by one");
            sym::check(m.modifiers.is_empty() == (btn & 28 == 0), "P11 modifiers, none");
            let b = btn & !28;
            let button = match b { 0 => MouseButton::Left, 1 => MouseButton::Middle, 2 => MouseButton::Right, _ => MouseButton::Other(3) };
            if b < 4 { sym::check(m.input == if press { MouseInput::ButtonPressed(button) } else { MouseInput::ButtonReleased(button) }, "P11 button"); }
            else if b == 64 { sym::check(m.input == MouseInput::WheelUp, "P11 wheel"); }
            else if b == 65 { sym::check(m.input == MouseInput::WheelDown, "P11 wheel"); }
            else if b & 32 != 0 { sym::check(m.input == MouseInput::Motion, "P11 motion"); }
        }
        (Err(_), Dec::Bad(_)) => (),
        (Ok(None), Dec::More) => (),
        _ => sym::check(false, "P10 wrong kind of event"),
    }
}
/// all bytes available at once: the events, one by one, are those of the reference decoder
fn drain(b: &[u8], waits: bool) {
    let t = open(2, 12);
    feed(b);
    let mut p = 0;
    let mut k = 0;
    while p < b.len() {
        let d = decode(&b[p..]);
        if waits {
            let r = t.t.wait_event(Z);
            match d {
                Dec::Bad(_) if k > 0 => sym::check(r.is_err(), "P10 wait: invalid input"),
                Dec::More if k > 0 => sym::check(r.unwrap() == false, "P10 wait: no event yet"),
                _ => sym::check(r.unwrap(), "P10 wait: an event is available"),
            }
        }
        let e = t.t.read_event(Z);
        check_ev(&e, d);
        match d { Dec::Ev(_, n) | Dec::Mouse { n, .. } | Dec::Bad(n) => p += n, Dec::More => break }
        k += 1;
    }
    sym::trace(1, k as u64);
    // and nothing else
    sym::check(w().inp_pos == b.len(), "P10 all input read");
    let e = t.t.read_event(Z);
    sym::check(matches!(e, Ok(None)), "P10 no further event");
    if waits { sym::check(!t.t.wait_event(Z).unwrap(), "P10 wait: no further event"); }
}
fn any_bytes(n: usize, b: &mut [u8]) { for i in 0..n { b[i] = sym::u8("byte"); } }

pub fn p10_any2() { let mut b = [0u8; 2]; any_bytes(2, &mut b); drain(&b, true); }
pub fn p10_any3() { let mut b = [0u8; 3]; any_bytes(3, &mut b); drain(&b, false); }
pub fn p10_any4() { let mut b = [0u8; 4]; any_bytes(4, &mut b); drain(&b, false); }
/// an escape sequence introducer and arbitrary following bytes
fn p10_intro(n: usize) {
    let mut b = [0u8; 8];
    b[0] = 27;
    b[1] = if sym::choose(2, "intro") == 0 { b'[' } else { b'O' };
    any_bytes(n, &mut b[2..]);
    for i in 0..n { sym::assume(b[2 + i] < 0x80); }
    drain(&b[..2 + n], true);
}
pub fn p10_intro2() { p10_intro(2); }
pub fn p10_intro3() { p10_intro(3); }
pub fn p10_intro4() { p10_intro(4); }
/// every key sequence, whole or cut, between arbitrary characters
fn p10_keys(post: usize) {
    let mut b = [0u8; 12];
    let mut n = 0;
    if sym::choose(2, "pre") == 1 { b[0] = sym::bits(7, "prebyte") as u8; n = 1; }
    let (s, _) = table()[sym::choose(table().len(), "key")];
    let cut = sym::choose(3, "cut");
    for i in 0..s.len() - if cut < s.len() { cut } else { 0 } { b[n] = s[i]; n += 1; }
    for _ in 0..post { b[n] = sym::bits(7, "postbyte") as u8; n += 1; }
    drain(&b[..n], true);
}
pub fn p10_keys1() { p10_keys(1); }
/// a key, possibly cut, and then another, possibly cut: whatever the two make together
pub fn p10_odd() {
    let mut b = [0u8; 16];
    let mut n = 0;
    for _ in 0..2 {
        let (s, _) = table()[sym::choose(table().len(), "key")];
        let cut = sym::choose(3, "cut");
        for i in 0..s.len() - if cut < s.len() { cut } else { 0 } { b[n] = s[i]; n += 1; }
    }
    b[n] = sym::bits(7, "postbyte") as u8;
    drain(&b[..n + 1], true);
}
pub fn p10_keys2() { p10_keys(2); }
/// more input than one read takes, all of it there from the start: what lies across the end of the first read
/// (128 bytes) or the second is read as if it had come in one piece
fn p10_long(kind: usize) {
    let mut t = open(2, 12);
    let pre = [120, 248][sym::choose(2, "reads")] + sym::choose(8, "pre");
    let mut b = [b'x'; 320];
    let mut n = pre;
    if kind == 0 {
        let (s, _) = table()[sym::choose(table().len(), "key")];
        for &c in s { b[n] = c; n += 1; }
        b[n] = sym::bits(7, "post") as u8;
        n += 1;
    } else {
        for &c in b"\x1b[<" { b[n] = c; n += 1; }
        b[n] = b'0' + sym::small(10, "digit") as u8;
        b[n + 1] = sym::bits(7, "sep") as u8;
        b[n + 2] = b'0' + sym::small(10, "digit") as u8;
        b[n + 3] = b';';
        b[n + 4] = b'0' + sym::small(10, "digit") as u8;
        b[n + 5] = if sym::boolean("press") { b'M' } else { b'm' };
        b[n + 6] = sym::bits(7, "post") as u8;
        n += 7;
    }
    feed(&b[..n]);
    let mut p = 0;
    let mut raw = [0u8; 128];
    while p < n {
        let e = t.t.read_event(Z);
        let d = decode(&b[p..n]);
        check_ev(&e, d);
        match d { Dec::Ev(_, k) | Dec::Mouse { n: k, .. } | Dec::Bad(k) => p += k, Dec::More => break }
        // the rest of the filler, without the events
        let skip = if pre >= 248 && p < 100 { 120 } else if p + 2 < pre { pre - p - 2 } else { 0 };
        if skip > 0 && skip <= 128 {
            let mut got = 0;
            while got < skip {
                match t.t.read_raw(&mut raw[..skip - got], Z) { Ok(Some(Event::Raw(k))) if k > 0 => got += k, _ => sym::check(false, "P10 raw bytes") }
            }
            p += skip;
        }
    }
    sym::check(w().inp_pos == n, "P10 all input read");
    sym::check(matches!(t.t.read_event(Z), Ok(None)), "P10 no further event");
}
pub fn p10_long_keys() { p10_long(0); }
pub fn p10_long_mouse() { p10_long(1); }

/// mouse reports: every number of up to 3 digits (11 for one of them), both kinds of end
fn p11(dig: [usize; 3], any_end: bool) {
    let mut b = [0u8; 40];
    b[..3].copy_from_slice(b"\x1b[<");
    let mut n = 3;
    for i in 0..3 {
        for _ in 0..dig[i] { let d = sym::small(10, "digit") as u8; b[n] = b'0' + d; n += 1; }
        b[n] = b';';
        if any_end { b[n] = sym::bits(7, "sep") as u8; }
        else if i == 2 { b[n] = if sym::boolean("press") { b'M' } else { b'm' }; }
        n += 1;
    }
    let post = sym::choose(2, "post");
    if post == 1 { b[n] = b'q'; n += 1; }
    drain(&b[..n], false);
}
pub fn p11_small() { p11([1 + sym::choose(3, "d0"), 1 + sym::choose(2, "d1"), 1 + sym::choose(2, "d2")], false); }
pub fn p11_wide() { p11([1, 5, 5], false); }
/// numbers around and beyond 32 bits: a fixed prefix and symbolic last digits
fn p11_big(which: usize, prefix: &[u8], dig: usize) {
    let mut b = [0u8; 40];
    b[..3].copy_from_slice(b"\x1b[<");
    let mut n = 3;
    for i in 0..3 {
        if i == which {
            for &c in prefix { b[n] = c; n += 1; }
            for _ in 0..dig { b[n] = b'0' + sym::small(10, "digit") as u8; n += 1; }
        } else { b[n] = b'0' + sym::small(10, "digit") as u8; n += 1; }
        b[n] = if i < 2 { b';' } else if sym::boolean("press") { b'M' } else { b'm' };
        n += 1;
    }
    drain(&b[..n], false);
}
pub fn p11_over() {
    let k = sym::choose(5, "prefix");
    p11_big(sym::choose(3, "which"), [b"42949672" as &[u8], b"4294967", b"42949672", b"9", b"184467440737095516"][k], [2, 3, 3, 3, 2][k]);
}
pub fn p11_bad() { p11([1, 1, 1], true); }
pub fn p11_over2() { p11([2, 1 + sym::choose(5, "d1"), 9 + sym::choose(3, "d2")], false); }
pub fn p11_cut() {
    // every way of cutting a report short
    let full = b"\x1b[<0;12;5M";
    let n = 1 + sym::choose(9, "len");
    let mut b = [0u8; 12];
    b[..n].copy_from_slice(&full[..n]);
    b[n] = sym::bits(7, "next") as u8;
    drain(&b[..n + sym::choose(2, "more")], false);
}

fn encode(c: u32, b: &mut [u8]) -> usize {
    if c < 0x80 { b[0] = c as u8; 1 }
    else if c < 0x800 { b[0] = (0xc0 | c >> 6) as u8; b[1] = (0x80 | c & 63) as u8; 2 }
    else if c < 0x10000 { b[0] = (0xe0 | c >> 12) as u8; b[1] = (0x80 | c >> 6 & 63) as u8; b[2] = (0x80 | c & 63) as u8; 3 }
    else { b[0] = (0xf0 | c >> 18) as u8; b[1] = (0x80 | c >> 12 & 63) as u8; b[2] = (0x80 | c >> 6 & 63) as u8; b[3] = (0x80 | c & 63) as u8; 4 }
}
fn any_char(classes: usize) -> u32 {
    match sym::choose(classes, "class") {
        0 => { let c = 0x20 + sym::bits(7, "c") as u32; sym::assume(c < 0x7f); c }
        1 => { let c = sym::bits(11, "c") as u32; sym::assume(c >= 0x80); c }
        2 => { let c = sym::bits(16, "c") as u32; sym::assume(c >= 0x800 && (c < 0xd800 || c > 0xdfff)); c }
        _ => { let c = sym::bits(21, "c") as u32; sym::assume(c >= 0x10000 && c < 0x110000); c }
    }
}
/// a pasted text longer than one read takes: the characters about the ends of the reads
pub fn p12_long() {
    let mut t = open(2, 12);
    let pre = [124, 252][sym::choose(2, "reads")] + sym::choose(4, "pre");
    let mut b = [b'x'; 320];
    let mut n = pre;
    let mut exp = [0u32; 2];
    for e in exp.iter_mut() { *e = any_char(4); n += encode(*e, &mut b[n..]); }
    feed(&b[..n]);
    let mut raw = [0u8; 160];
    // the text but for its last part read as raw bytes
    for skip in [0, if pre > 250 { 120 } else { 0 }, pre - if pre > 250 { 123 } else { 3 }] {
        let mut p = 0;
        while p < skip {
            match t.t.read_raw(&mut raw[..skip - p], Z) { Ok(Some(Event::Raw(k))) if k > 0 => p += k, _ => sym::check(false, "P12 raw bytes") }
        }
        match t.t.read_event(Z) { Ok(Some(Event::Key(Key::Char('x')))) => (), _ => sym::check(false, "P12 filler") }
    }
    for &e in &exp {
        match t.t.read_event(Z) {
            Ok(Some(Event::Key(Key::Char(c)))) => sym::check(c as u32 == e, "P12 character across reads"),
            _ => sym::check(false, "P12 no character across reads"),
        }
    }
    sym::check(w().inp_pos == n, "P12 all input read");
    sym::check(matches!(t.t.read_event(Z), Ok(None)), "P12 nothing left");
}

/// P12: text arriving in pieces
fn p12(k: usize, maxlen: usize) {
    let t = open(2, 12);
    let mut b = [0u8; 16];
    let mut n = 0;
    let mut exp = [0u32; 4];
    for i in 0..k {
        exp[i] = any_char(maxlen);
        n += encode(exp[i], &mut b[n..]);
    }
    feed(&b[..n]);
    w().avail = 0;
    let mut got = 0;
    // with or without reads that time out between the pieces
    let quiet = sym::choose(2, "quiet") == 1;
    let mut idle = true;
    for _ in 0..4 * n + 3 {
        if w().avail == w().inp_pos && w().avail < n && (idle || !quiet) {
            let m = n - w().avail; w().avail += 1 + sym::choose(m, "piece");
        }
        let ev = t.t.read_event(Z);
        idle = matches!(ev, Ok(None));
        match ev {
            Ok(Some(Event::Key(Key::Char(c)))) => {
                sym::check(got < k, "P12 too many characters");
                sym::check(c as u32 == exp[got], "P12 character");
                got += 1;
            }
            Ok(None) => { if w().avail == n && w().inp_pos == n { break; } }
            _ => sym::check(false, "P12 unexpected event"),
        }
    }
    sym::check(got == k, "P12 all characters read");
    sym::check(matches!(t.t.read_event(Z), Ok(None)), "P12 nothing left");
}
pub fn p12_two() { p12(2, 4); }
pub fn p12_three() { p12(3, 3); }
pub fn p12_four() { p12(3, 4); }

/// P13: raw reads and events together consume every byte exactly once, in order
fn p13(k: usize) {
    let t = open(2, 12);
    let n = 5;
    let mut b = [0u8; 5];
    for i in 0..n { b[i] = 0x61 + sym::bits(3, "b") as u8; }
    feed(&b);
    w().avail = sym::small(3, "first") + 1;
    let mut p = 0;
    for _ in 0..k {
        if sym::boolean("op") {
            match t.t.read_event(Z) {
                Ok(Some(Event::Key(Key::Char(c)))) => { sym::check(p < n && c as u32 == b[p] as u32, "P13 event"); p += 1; }
                Ok(None) => sym::check(p == w().avail, "P13 event missing"),
                _ => sym::check(false, "P13 unexpected event"),
            }
        } else {
            let mut r = [0u8; 3];
            let l = sym::small(4, "rawlen");
            let mut tt = &t.t;
            let _ = &mut tt;
            match raw(&t.t, &mut r[..l]) {
                Ok(Some(Event::Raw(m))) => {
                    sym::check(m <= l && p + m <= n, "P13 raw length");
                    if l > 0 { sym::check(m > 0, "P13 raw read of nothing"); }
                    for i in 0..m { sym::check(r[i] == b[p + i], "P13 raw bytes"); }
                    p += m;
                }
                Ok(None) => sym::check(p == w().avail, "P13 raw data missing"),
                _ => sym::check(false, "P13 unexpected event"),
            }
        }
        if w().inp_pos == w().avail && w().avail < n { w().avail = n; }
    }
    // drain
    for _ in 0..8 { if let Ok(Some(Event::Key(Key::Char(c)))) = t.t.read_event(Z) { sym::check(p < n && c as u32 == b[p] as u32, "P13 rest"); p += 1; } w().avail = n; }
    sym::check(p == n, "P13 every byte once");
}
fn raw(t: &Terminal, b: &mut [u8]) -> std::io::Result<Option<Event>> { t.lock_read().unwrap().read_raw(b, Z) }
pub fn p13_mixed() { p13(3); }
pub fn p13_mixed5() { p13(5); }
/// the outcome of a failing read(2) or select(2) is reported and loses no input
pub fn p13_err() {
    let t = open(2, 12);
    let x = 0x61 + sym::bits(3, "b") as u8;
    feed(&[x]);
    let ev = sym::boolean("op");
    static mut KIND: usize = 0;
    unsafe { KIND = sym::small(4, "kind"); }
    let mut buf = [0u8; 4];
    w().on_wait = Some(|| unsafe { if KIND == 0 && w().waits == 1 { libc::EBADF } else if KIND == 1 && w().waits < 3 { libc::EINTR } else { 0 } });
    w().on_read = Some(|| unsafe { if KIND == 2 && w().reads == 1 { libc::EIO } else if KIND == 3 && w().reads < 3 { libc::EINTR } else { 0 } });
    let r = if ev { t.t.read_event(Z) } else { raw(&t.t, &mut buf) };
    unsafe {
        if KIND == 0 { sym::check(r.unwrap_err().raw_os_error() == Some(libc::EBADF), "P13 error of select"); }
        else if KIND == 2 { sym::check(r.unwrap_err().raw_os_error() == Some(libc::EIO), "P13 error of read"); }
        else if ev { sym::check(matches!(r, Ok(Some(Event::Key(Key::Char(c)))) if c as u32 == x as u32), "P13 interrupted read"); return; }
        else { sym::check(matches!(r, Ok(Some(Event::Raw(1)))) && buf[0] == x, "P13 interrupted read"); return; }
    }
    let r = t.t.read_event(Z);
    sym::check(matches!(r, Ok(Some(Event::Key(Key::Char(c)))) if c as u32 == x as u32), "P13 input after an error");
}

static mut FAULT: (usize, usize) = (9, 0); // kind (0 select fails, 1 select interrupted, 2 read fails, 3 read interrupted), number of the call
static mut CALLS: [usize; 2] = [0; 2];
static mut HIT: i32 = 0;
static mut ARRIVE: usize = 9;
static mut PEND: [bool; 2] = [false; 2];
static mut WHICH: usize = 0;
fn arrive() -> bool { unsafe { ARRIVE = 9; let d = world::deliver([libc::SIGINT, libc::SIGCONT][WHICH]); PEND[WHICH] |= d; d } }
fn session_fault(k: usize) -> i32 {
    unsafe {
        CALLS[k] += 1;
        // a signal that arrives while the process is in select or read interrupts it
        if ARRIVE == 5 + k && CALLS[k] == 2 && arrive() { return libc::EINTR; }
        if FAULT.0 / 2 == k && CALLS[k] == FAULT.1 {
            if FAULT.0 % 2 == 1 { return libc::EINTR; }
            HIT = [libc::EBADF, libc::EIO][k];
            return HIT;
        }
        0
    }
}
/// Any mixture of the three reading calls over input that arrives in pieces, with a failing
/// or interrupted system call or a signal somewhere: nothing is lost, repeated or reordered.
fn session(steps: usize, faults: bool, signal: bool) {
    let t = open(2, 12);
    let mut set = SignalSet::new();
    set.insert(Signal::Interrupt);
    let _st = t.t.prepare(PrepareConfig { report_signals: set, block_signals: false, ..PrepareConfig::default() }).unwrap();
    // three characters, one of them of two or three bytes
    let mut b = [0u8; 5];
    let mut n = 0;
    let long = sym::choose(3, "long");
    for i in 0..3 {
        if i != long { b[n] = 0x61 + sym::bits(3, "b") as u8; n += 1; }
        else if sym::choose(2, "bytes") == 0 { b[n] = 0xc4 + sym::bits(3, "b") as u8; b[n + 1] = 0x80 + sym::bits(6, "b") as u8; n += 2; }
        else { b[n] = 0xe4 + sym::bits(2, "b") as u8; b[n + 1] = 0x80 + sym::bits(6, "b") as u8; b[n + 2] = 0x80 + sym::bits(6, "b") as u8; n += 3; }
    }
    feed(&b[..n]);
    w().avail = 1 + sym::choose(n, "first");
    unsafe {
        FAULT = (9, 0); CALLS = [0; 2]; HIT = 0; ARRIVE = 9; PEND = [false; 2];
        if faults { FAULT = (sym::choose(4, "fault"), 1 + sym::choose(2, "call")); }
        // before the second or third call, or during the second wait or read
        if signal { WHICH = sym::choose(2, "sig"); ARRIVE = [1, 2, 5, 6][sym::choose(4, "arrive")]; }
    }
    w().on_wait = Some(|| session_fault(0));
    w().on_read = Some(|| session_fault(1));
    let mut p = 0;
    for k in 0..steps + 8 {
        if unsafe { ARRIVE } == k { arrive(); }
        unsafe { HIT = 0; }
        let op = if k < steps { sym::choose(3, "op") } else { 0 };
        let mut r = [0u8; 3];
        let l = if op == 1 { 1 + sym::choose(3, "rawlen") } else { 0 };
        let res = match op { 0 => t.t.read_event(Z), 1 => raw(&t.t, &mut r[..l]), _ => t.t.wait_event(Z).map(|x| if x { Some(Event::NoEvent) } else { None }) };
        let whole = p < w().avail && matches!(decode(&b[p..w().avail]), Dec::Ev(..));
        // a character cut by a raw read
        let cut = p < n && b[p] & 0xc0 == 0x80;
        let hit = unsafe { HIT };
        match res {
            Err(e) => {
                if hit != 0 { sym::check(e.raw_os_error() == Some(hit), "P13 the error reported is the one that happened"); }
                else {
                    sym::check(cut && e.raw_os_error().is_none(), "P13 an error without a cause");
                    // the rest of it is invalid as text
                    if op == 0 { p += 1; }
                }
            }
            Ok(x) => {
                sym::check(hit == 0, "P13 a failing call is reported");
                match x {
                    Some(Event::NoEvent) => sym::check(p < w().avail || unsafe { PEND[0] || PEND[1] }, "P13 wait sees something"),
                    Some(Event::Key(Key::Char(c))) => {
                        match decode(&b[p..n]) {
                            Dec::Ev(Event::Key(Key::Char(d)), m) => { sym::check(p + m <= w().avail && c as u32 == d as u32, "P13 event"); p += m; }
                            _ => sym::check(false, "P13 event"),
                        }
                    }
                    Some(Event::Raw(m)) => {
                        sym::check(op == 1 && m >= 1 && m <= l && p + m <= w().avail, "P13 raw length");
                        for i in 0..m { sym::check(r[i] == b[p + i], "P13 raw bytes"); }
                        p += m;
                    }
                    Some(Event::Signal(Signal::Interrupt)) => unsafe { sym::check(PEND[0], "P14 signal"); PEND[0] = false; },
                    None => {
                        let excuse = unsafe { PEND[1] };
                        if op != 2 { unsafe { PEND[1] = false; } }
                        sym::check(excuse || (!whole && (op == 0 || p == w().avail)), "P13 input is there but not reported");
                        sym::check(unsafe { !PEND[0] } || excuse, "P14 signal is there but not reported");
                    }
                    _ => sym::check(false, "P13 unexpected event"),
                }
            }
        }
        if w().inp_pos == w().avail && w().avail < n { w().avail = if k < steps { w().avail + 1 + sym::choose(n - w().avail, "more") } else { n }; }
    }
    sym::check(p == n, "P13 every byte once");
    sym::check(unsafe { !PEND[0] }, "P14 every requested signal is reported");
    sym::check(matches!(t.t.read_event(Z), Ok(None)), "P13 nothing else");
}
pub fn p13_session4() { session(4, true, false); }
pub fn p13_session3() { session(3, true, false); }
pub fn p14_session4() { session(4, false, true); }
pub fn p14_session3() { session(3, false, true); }

// ---------------------------------------------------------------- signals
const SIGS: [(i32, Signal); 5] = [(libc::SIGCONT, Signal::Continue), (libc::SIGINT, Signal::Interrupt), (libc::SIGTSTP, Signal::Suspend), (libc::SIGQUIT, Signal::Quit), (libc::SIGWINCH, Signal::Resize)];
static mut WHEN: [usize; 3] = [9; 3];
static mut SIG: [usize; 3] = [0; 3];
static mut GOT: [usize; 5] = [0; 5];
static mut FIRED: [bool; 3] = [false; 3];
fn fire(point: usize) -> bool {
    let mut any = false;
    unsafe {
        for i in 0..3 {
            if WHEN[i] == point && !FIRED[i] {
                FIRED[i] = true;
                if world::deliver(SIGS[SIG[i]].0) { GOT[SIG[i]] += 1; any = true; }
            }
        }
    }
    any
}
fn p14(k: usize, input: bool) {
    let t = open(5, 7);
    let mut set = SignalSet::new();
    let bits = sym::bits(5, "set");
    for i in 0..5 { if bits & (1 << i) != 0 { set.insert(SIGS[i].1); } }
    let keypad = sym::boolean("keypad");
    let st = t.t.prepare(PrepareConfig { report_signals: set, block_signals: false, enable_keypad: keypad, ..PrepareConfig::default() }).unwrap();
    world::clear_output();
    for i in 0..5 { sym::check(world::handled(SIGS[i].0) == (set.contains(SIGS[i].1) || i == 0 || i == 4), "P14 handlers"); }
    unsafe {
        WHEN = [9; 3]; FIRED = [false; 3]; GOT = [0; 5];
        for i in 0..k {
            SIG[i] = sym::small(5, "sig");
            // before any read / while waiting (select is interrupted) / while reading / after the first event
            WHEN[i] = sym::small(if input { 4 } else { 2 }, "when");
        }
    }
    let x = 0x61 + sym::bits(2, "b") as u8;
    if input { feed(&[x]); }
    w().on_wait = Some(|| if fire(1) { libc::EINTR } else { 0 });
    w().on_read = Some(|| if fire(2) { libc::EINTR } else { 0 });
    let tio_raw = w().tio;
    // the shell restores the terminal while the process is stopped
    w().tio.c_lflag |= libc::ICANON | libc::ECHO;
    fire(0);
    let mut seen = [0usize; 5];
    let mut keys = 0;
    for r in 0..k + 3 {
        if r == 1 { fire(3); }
        match t.t.read_event(Z) {
            Ok(Some(Event::Signal(s))) => { for i in 0..5 { if SIGS[i].1 == s { seen[i] += 1; } } sym::check(s != Signal::Resize, "P14 resize is reported as such"); sym::check(set.contains(s), "P14 signal not asked for"); }
            Ok(Some(Event::Resize(s))) => { seen[4] += 1; sym::check(s == Size { lines: 5, columns: 7 }, "P14 new size"); }
            Ok(Some(Event::Key(Key::Char(c)))) => { keys += 1; sym::check(c as u32 == x as u32, "P14 input"); }
            Ok(None) => (),
            _ => sym::check(false, "P14 unexpected event"),
        }
    }
    unsafe {
        for i in 0..5 {
            let want = GOT[i] > 0 && (i == 4 || set.contains(SIGS[i].1));
            sym::check((seen[i] > 0) == want, "P14 every requested signal is reported");
            sym::check(seen[i] <= GOT[i], "P14 a signal is reported twice");
        }
        sym::check(keys == input as usize, "P14 input lost");
        if GOT[0] > 0 {
            sym::check(w().tio.c_lflag == tio_raw.c_lflag && w().tio.c_iflag == tio_raw.c_iflag, "P14 terminal prepared again after continue");
            let o = world::output();
            let kp = is_xterm() && keypad;
            sym::check((o.len() > 0) == kp && (!kp || o.windows(5).any(|x| x == b"\x1b[?1h")), "P14 keypad mode set again after continue");
        }
    }
    sym::check(!t.t.wait_event(Z).unwrap(), "P14 nothing left");
    world::clear_output();
    t.t.restore(st).unwrap();
    for i in 0..5 { sym::check(!world::handled(SIGS[i].0), "P14 handlers restored"); }
    sym::check(w().tio.c_lflag & (libc::ICANON | libc::ECHO) == libc::ICANON | libc::ECHO, "P14 terminal restored");
}
/// signals under nested sessions: the innermost one decides what is reported and prepared
pub fn p14_nested() {
    let t = open(5, 7);
    let cfg = || {
        let mut set = SignalSet::new();
        let bits = sym::bits(5, "set");
        for i in 0..5 { if bits & (1 << i) != 0 { set.insert(SIGS[i].1); } }
        PrepareConfig { report_signals: set, block_signals: sym::boolean("block"), enable_control_flow: sym::boolean("flow"), enable_keypad: sym::boolean("keypad"), enable_mouse: sym::boolean("mouse"), always_track_motion: sym::boolean("motion"), ..PrepareConfig::default() }
    };
    let tio0 = w().tio;
    let a = cfg();
    let sa = t.t.prepare(a).unwrap();
    let tio_a = w().tio;
    let b = cfg();
    let sb = t.t.prepare(b).unwrap();
    let tio_b = w().tio;
    let inner = sym::choose(2, "inner") == 1;
    let mut sb = Some(sb);
    if !inner { t.t.restore(sb.take().unwrap()).unwrap(); }
    let (c, tio) = if inner { (b, tio_b) } else { (a, tio_a) };
    world::clear_output();
    let s = sym::choose(5, "sig");
    let handled = world::handled(SIGS[s].0);
    sym::check(handled || !c.report_signals.contains(SIGS[s].1), "P14 handlers");
    let mut got = false;
    if handled {
        got = world::deliver(SIGS[s].0);
        sym::check(got, "P14 handlers");
        w().tio.c_lflag |= libc::ICANON | libc::ECHO | libc::ISIG;
        w().tio.c_iflag |= libc::IXON | libc::ICRNL;
    }
    let mut seen = 0;
    for _ in 0..2 {
        match t.t.read_event(Z) {
            Ok(Some(Event::Signal(x))) => { sym::check(x == SIGS[s].1 && s != 4, "P14 unexpected signal"); seen += 1; }
            Ok(Some(Event::Resize(z))) => { sym::check(s == 4 && z == Size { lines: 5, columns: 7 }, "P14 resize"); seen += 1; }
            Ok(None) => (),
            _ => sym::check(false, "P14 unexpected event"),
        }
    }
    sym::check(seen == (got && (s == 4 || c.report_signals.contains(SIGS[s].1))) as usize, "P14 reported as the innermost session asks");
    if s == 0 && got {
        sym::check(w().tio.c_lflag == tio.c_lflag && w().tio.c_iflag == tio.c_iflag, "P14 prepared again as the innermost session asks");
        let o = world::output();
        if is_xterm() {
            let has = |x: &[u8]| o.windows(x.len()).any(|y| y == x);
            sym::check(has(b"\x1b[?1h") == c.enable_keypad, "P14 keypad mode after continue");
            sym::check(has(b"\x1b[?1002h") == c.enable_mouse, "P14 mouse mode after continue");
            sym::check(has(b"\x1b[?1003h") == (c.enable_mouse && c.always_track_motion), "P14 motion mode after continue");
        }
    }
    if let Some(x) = sb { t.t.restore(x).unwrap(); }
    t.t.restore(sa).unwrap();
    for i in 0..5 { sym::check(!world::handled(SIGS[i].0), "P14 handlers restored"); }
    sym::check(w().tio.c_lflag == tio0.c_lflag && w().tio.c_iflag == tio0.c_iflag, "P14 terminal restored");
}
pub fn p14_one() { p14(1, true); }
pub fn p14_two() { p14(2, false); }
pub fn p14_two_in() { p14(2, true); }
pub fn p14_three() { p14(3, false); }
/// raw reads and waiting: the same signals, seen through the other calls
pub fn p14_raw() {
    let t = open(5, 7);
    let s = sym::small(5, "sig");
    let rep = sym::boolean("reported");
    let mut set = SignalSet::new();
    if rep { set.insert(SIGS[s].1); }
    let _st = t.t.prepare(PrepareConfig { report_signals: set, block_signals: false, ..PrepareConfig::default() }).unwrap();
    unsafe { WHEN = [sym::small(3, "when"), 9, 9]; SIG[0] = s; FIRED = [false; 3]; GOT = [0; 5]; }
    w().on_wait = Some(|| if fire(1) { libc::EINTR } else { 0 });
    w().on_read = Some(|| if fire(2) { libc::EINTR } else { 0 });
    let inp = sym::boolean("input");
    if inp { feed(b"k"); }
    fire(0);
    if sym::boolean("wait") {
        let r = t.t.wait_event(Z).unwrap();
        sym::check(r == (inp || unsafe { GOT[s] > 0 }), "P14 wait sees the signal");
    }
    let (mut sigs, mut keys) = (0, 0);
    for _ in 0..4 {
        let mut b = [0u8; 4];
        match raw(&t.t, &mut b) {
            Ok(Some(Event::Signal(x))) => { sym::check(rep && x == SIGS[s].1 && s != 4, "P14 raw signal"); sigs += 1; }
            Ok(Some(Event::Resize(z))) => { sym::check(s == 4 && z == Size { lines: 5, columns: 7 }, "P14 raw resize"); sigs += 1; }
            Ok(Some(Event::Raw(n))) => { sym::check(n == 1 && b[0] == b'k', "P14 raw input"); keys += 1; }
            Ok(None) => (),
            _ => sym::check(false, "P14 unexpected event"),
        }
    }
    sym::check(sigs == unsafe { (GOT[s] > 0 && (rep || s == 4)) as usize }, "P14 raw: signal reported exactly once");
    sym::check(keys == inp as usize, "P14 raw: input exactly once");
}

// ---------------------------------------------------------------- timeouts
static mut LEFT: [i64; 2] = [0; 2];
static mut INTRS: usize = 0;
/// P24: never early, at most 1 ms late.  Seconds are split into regions (all of 0..2^43,
/// then the top of the range); the nanoseconds are any.
fn p24(how: usize) {
    let t = open(2, 12);
    let n = sym::bits(30, "nanos") as u32;
    sym::assume(n < 1_000_000_000);
    let (base, bits) = [(0, 43), (1u64 << 43, 38), (9_070_000_000_000, 37), (9_223_372_036_845, 4), (9_223_372_036_861, 40), (1 << 63, 62), (u64::MAX - 1, 1), (0, 0)][sym::choose(8, "region")];
    let none = bits == 0;
    let s = if none { 0 } else { base + sym::bits(bits, "secs") };
    w().on_wait = Some(|| { libc::EBADF });
    let d = if none { None } else { Some(Duration::new(s, n)) };
    let r = if how == 0 { t.t.wait_event(d).map(|_| ()) } else if how == 1 { t.t.read_event(d).map(|_| ()) } else { let mut b = [0u8; 2]; t.t.lock_read().unwrap().read_raw(&mut b, d).map(|_| ()) };
    sym::check(r.is_err() && w().waits == 1, "P24 exactly one wait");
    let [sec, us] = w().last_wait;
    if none { sym::check(sec == -1, "P24 no timeout: waits forever"); return; }
    sym::check(sec >= 0 && us >= 0 && us < 1_000_000, "P24 waits forever");
    if base < 9_223_372_036_000 {
        let more = (sec as u64).wrapping_sub(s);
        sym::check(more <= 1, "P24 seconds");
        let ns = (if more == 1 { 1_000_000 } else { 0 } + us as u32) as u64 * 1000;
        sym::check(ns >= n as u64, "P24 returns early");
        sym::check(ns <= n as u64 + 1_000_000, "P24 returns late");
    } else {
        // longer than 292 000 years
        sym::check(sec >= 9_223_372_036_000, "P24 very long timeout");
    }
}
pub fn p24_wait() { p24(0); }
pub fn p24_event() { p24(1); }
pub fn p24_raw() { p24(2); }
static mut TOOK: usize = 0;
static mut WIDE: u32 = 20;
fn before(a: [i64; 2], b: [i64; 2]) -> bool { a[0] < b[0] || (a[0] == b[0] && a[1] <= b[1]) }
/// interrupted waits go on for the remaining time, whichever call waits; a signal that is
/// reported, or handled silently, may end the wait but never starts it again
fn intr(signals: bool) {
    let t = open(2, 12);
    let mut st = None;
    if signals {
        let mut set = SignalSet::new();
        unsafe { SIG[0] = sym::choose(5, "sig"); }
        if sym::choose(2, "reported") == 1 { set.insert(SIGS[unsafe { SIG[0] }].1); }
        st = Some(t.t.prepare(PrepareConfig { report_signals: set, block_signals: false, ..PrepareConfig::default() }).unwrap());
    }
    let wide = if signals { 6 } else { 20 };
    let lim = [sym::bits(wide, "secs") as i64, sym::bits(20, "micros") as i64];
    sym::assume(lim[1] < 1_000_000);
    unsafe { LEFT = lim; INTRS = 0; TOOK = if signals { sym::choose(2, "when") } else { 9 }; WIDE = wide; }
    w().waits = 0;
    w().on_wait = Some(|| unsafe {
        let late = if LEFT[1] >= 999_000 { [LEFT[0] + 1, LEFT[1] - 999_000] } else { [LEFT[0], LEFT[1] + 1000] };
        sym::check(before(LEFT, w().last_wait) && before(w().last_wait, late), "P24 waits for the remaining time after an interruption");
        if INTRS < 2 {
            INTRS += 1;
            let e = [sym::bits(WIDE, "esecs") as i64, sym::bits(20, "emicros") as i64];
            sym::assume(e[1] < 1_000_000 && before(e, LEFT));
            let b = e[1] > LEFT[1];
            LEFT = [LEFT[0] - e[0] - b as i64, LEFT[1] - e[1] + if b { 1_000_000 } else { 0 }];
            w().wait_elapsed = e;
            if INTRS == TOOK + 1 { world::deliver(SIGS[SIG[0]].0); }
            return libc::EINTR;
        }
        0
    });
    let d = Some(Duration::new(lim[0] as u64, lim[1] as u32 * 1000));
    let how = sym::choose(3, "how");
    let r = match how { 0 => t.t.wait_event(d).map(|x| if x { Some(Event::NoEvent) } else { None }), 1 => t.t.read_event(d), _ => { let mut b = [0u8; 2]; raw_for(&t.t, &mut b, d) } };
    let ended = unsafe { signals && INTRS == TOOK + 1 && w().waits == INTRS };
    sym::check(r.is_ok(), "P24 result");
    if !ended {
        sym::check(matches!(r, Ok(None)), "P24 result");
        sym::check(unsafe { INTRS } == 2 && w().waits == 3, "P24 goes on waiting after an interruption");
    }
    w().on_wait = None;
    if let Some(st) = st { let _ = t.t.restore(st); }
}
/// input that arrives in pieces that make no event yet: all waits together stay within the timeout
pub fn p24_parts() {
    let t = open(2, 12);
    let lim = [sym::bits(20, "secs") as i64, sym::bits(20, "micros") as i64];
    sym::assume(lim[1] < 1_000_000);
    unsafe { LEFT = lim; INTRS = 0; TOOK = 1 + sym::choose(3, "pieces"); }
    let piece = [b"\xf0\x9f\x98\x80", b"\xe2\x82\xacx", b"\xc3\xa9xy"][sym::choose(3, "char")];
    w().inp[..4].copy_from_slice(piece);
    w().inp_len = 4;
    w().waits = 0;
    w().on_wait = Some(|| unsafe {
        let late = if LEFT[1] >= 999_000 { [LEFT[0] + 1, LEFT[1] - 999_000] } else { [LEFT[0], LEFT[1] + 1000] };
        sym::check(before(w().last_wait, late), "P24 waits longer than the timeout, piece by piece");
        if INTRS < TOOK {
            INTRS += 1;
            let e = [sym::bits(20, "esecs") as i64, sym::bits(20, "emicros") as i64];
            sym::assume(e[1] < 1_000_000 && before(e, LEFT));
            let b = e[1] > LEFT[1];
            LEFT = [LEFT[0] - e[0] - b as i64, LEFT[1] - e[1] + if b { 1_000_000 } else { 0 }];
            w().avail += 1;
            w().wait_elapsed = e;
        }
        0
    });
    let d = Some(Duration::new(lim[0] as u64, lim[1] as u32 * 1000));
    let r = t.t.read_event(d);
    sym::check(r.is_ok(), "P24 result");
    w().on_wait = None;
}
fn raw_for(t: &Terminal, b: &mut [u8], d: Option<Duration>) -> std::io::Result<Option<Event>> { t.lock_read().unwrap().read_raw(b, d) }
pub fn p24_intr() { intr(false); }
pub fn p24_signal() { intr(true); }

/// the ways to an event or to raw input: on the Terminal or Screen itself or on its read guard
enum Via { T(Terminal), S(Screen) }
macro_rules! via {
    ($v:expr, $g:expr, $b:expr, $how:expr, $d:expr) => {{
        macro_rules! call {
            ($r:expr) => {{
                let r = $r;
                match $how { 0 => r.wait_event($d).map(|x| if x { Some(Event::NoEvent) } else { None }), 1 => r.read_event($d), _ => r.read_raw(&mut $b, $d) }
            }};
        }
        match $v {
            Via::T(t) => if $g { call!(&mut t.lock_read().unwrap()) } else { call!(t) },
            Via::S(s) => if $g { call!(&mut s.lock_read().unwrap()) } else { call!(s) },
        }
    }};
}
pub fn p14_via() {
    world::init(2, 3);
    let cfg = PrepareConfig { report_signals: SignalSet::from(Signal::Quit), ..PrepareConfig::default() };
    let mut st = None;
    let mut v = if sym::choose(2, "screen") == 1 { Via::S(Screen::new(cfg).unwrap()) } else {
        let t = Terminal::new().unwrap();
        st = Some(t.prepare(cfg).unwrap());
        Via::T(t)
    };
    let g = sym::choose(2, "guard") == 1;
    let how = sym::choose(3, "how");
    let mut b = [0u8; 4];
    let d = [sym::bits(10, "secs") as i64, sym::bits(20, "micros") as i64];
    sym::assume(d[1] < 1_000_000);
    let dur = if sym::choose(2, "limit") == 1 { Some(Duration::new(d[0] as u64, d[1] as u32 * 1000)) } else { None };
    w().waits = 0;
    let what = sym::choose(if dur.is_some() { 5 } else { 4 }, "what");
    unsafe { WHAT = what; }
    w().on_wait = Some(|| unsafe {
        if w().waits > 1 { return 0; }
        match WHAT {
            0 => { w().inp[0] = b'k'; w().inp[1] = b'l'; w().inp_len = 2; w().avail = 2; 0 }
            1 => { world::deliver(libc::SIGQUIT); libc::EINTR }
            2 => { w().rows = 3; w().cols = 5; world::deliver(libc::SIGWINCH); libc::EINTR }
            3 => libc::EBADF,
            _ => 0,
        }
    });
    let r = via!(&mut v, g, b, how, dur);
    match dur {
        Some(_) => sym::check(w().last_wait[0] * 1_000_000 + w().last_wait[1] == d[0] * 1_000_000 + d[1], "P24 the timeout asked for"),
        None => sym::check(w().last_wait[0] == -1, "P24 no timeout asked for"),
    }
    w().on_wait = None;
    let size = Size { lines: 3, columns: 5 };
    match (what, how) {
        (3, _) => sym::check(r.is_err(), "P14 the error of the wait"),
        (4, _) => sym::check(matches!(r, Ok(None)), "P14 nothing happened"),
        (_, 0) => sym::check(matches!(r, Ok(Some(_))), "P14 something happened"),
        (0, 1) => sym::check(matches!(r, Ok(Some(Event::Key(Key::Char('k'))))), "P14 key"),
        (0, _) => sym::check(matches!(r, Ok(Some(Event::Raw(2)))) && b[0] == b'k' && b[1] == b'l', "P14 raw input"),
        (1, _) => sym::check(matches!(r, Ok(Some(Event::Signal(Signal::Quit)))), "P14 signal"),
        _ => sym::check(matches!(r, Ok(Some(Event::Resize(s))) if s == size), "P14 resize"),
    }
    if let Via::S(s) = &v {
        let z = Size { lines: 2, columns: 3 };
        sym::check(s.size() == if what == 2 && how != 0 { size } else { z }, "P14 the size of the screen");
    }
    // and what was only waited for is still there
    if how == 0 && what < 3 {
        let r = via!(&mut v, !g, b, 1, Z);
        match what {
            0 => sym::check(matches!(r, Ok(Some(Event::Key(Key::Char('k'))))), "P14 key after waiting"),
            1 => sym::check(matches!(r, Ok(Some(Event::Signal(Signal::Quit)))), "P14 signal after waiting"),
            _ => sym::check(matches!(r, Ok(Some(Event::Resize(s))) if s == size), "P14 resize after waiting"),
        }
    }
    if let (Via::T(t), Some(st)) = (&v, st) { t.restore(st).unwrap(); }
}
static mut WHAT: usize = 0;
