//! Screen properties: content, incremental redraw, cursor, resize, robustness.
use crate::refbuf::RefBuf;
use crate::sym;
use crate::vt::{Attr, Vt, PLAIN};
use crate::world::{self, w};
use mortal::*;
use std::time::Duration;

pub fn ch(c: u32) -> char { unsafe { char::from_u32_unchecked(c) } }

pub const A: u32 = 1; pub const WIDE: u32 = 2; pub const COMB: u32 = 4; pub const LF: u32 = 8; pub const CR: u32 = 16; pub const TAB: u32 = 32;
pub const LATIN: u32 = 64; pub const EMOJI: u32 = 128; pub const C0: u32 = 256; pub const C1: u32 = 512; pub const MC: u32 = 1024; pub const ZW: u32 = 2048;
/// One symbolic character of a chosen class; returns (code point, width)
pub fn sym_char(classes: u32) -> (u32, usize) {
    let mut list = [0u8; 12];
    let mut n = 0;
    for i in 0..12 { if classes & (1 << i) != 0 { list[n] = i as u8; n += 1; } }
    let k = if n == 1 { 0 } else { sym::choose(n, "class") };
    match list[k] {
        0 => { let c = 0x20 + sym::bits(7, "ascii") as u32; sym::assume(c < 0x7f); (c, 1) }
        1 => (0x4e00 + sym::bits(8, "wide") as u32, 2),
        2 => { let c = 0x300 + sym::bits(6, "comb") as u32; (c, 0) }
        3 => (10, 1),
        4 => (13, 1),
        5 => (9, 1),
        6 => { let c = 0xa0 + sym::bits(9, "latin") as u32; sym::assume(c != 0xad); (c, 1) }
        7 => (0x1f300 + sym::bits(4, "emoji") as u32, 2),
        8 => { let c = sym::bits(5, "c0") as u32; sym::assume(c != 9 && c != 10 && c != 13); (c, 0) }
        9 => (0x7f + sym::bits(5, "c1") as u32, 0),
        10 => (0x903, 1),
        _ => (0x200b, 0),
    }
}

pub fn color(i: usize) -> Option<Color> {
    match i { 0 => Some(Color::Black), 1 => Some(Color::Red), 2 => Some(Color::Green), 3 => Some(Color::Yellow), 4 => Some(Color::Blue), 5 => Some(Color::Magenta), 6 => Some(Color::Cyan), 7 => Some(Color::White), _ => None }
}
pub fn style(s: u32) -> Style {
    let mut r = Style::empty();
    if s & 1 != 0 { r |= Style::BOLD; }
    if s & 2 != 0 { r |= Style::ITALIC; }
    if s & 4 != 0 { r |= Style::REVERSE; }
    if s & 8 != 0 { r |= Style::UNDERLINE; }
    r
}
pub const ATTRS: [Attr; 5] = [PLAIN, Attr { fg: 1, bg: 8, style: 1 }, Attr { fg: 8, bg: 4, style: 10 }, Attr { fg: 8, bg: 8, style: 4 }, Attr { fg: 8, bg: 2, style: 0 }];
pub fn theme(a: Attr) -> Theme { Theme::new(color(a.fg as usize), color(a.bg as usize), style(a.style)) }
/// any colour and style combination, symbolically
pub fn sym_attr() -> Attr { Attr { fg: sym::small(9, "fg") as u32, bg: sym::small(9, "bg") as u32, style: sym::bits(4, "style") as u32 } }

pub struct S { pub s: Screen, pub r: RefBuf, pub v: Vt }

pub fn open(lines: usize, cols: usize) -> S {
    world::init(lines as u16, cols as u16);
    let s = Screen::new(PrepareConfig::default()).unwrap();
    let mut v = Vt::new(lines.max(1), cols.max(1));
    v.fill(0x71);
    v.feed(world::output());
    world::clear_output();
    S { s, r: RefBuf::new(lines, cols), v }
}
impl S {
    pub fn sync(&mut self) { self.v.feed(world::output()); world::clear_output(); }
    pub fn refresh(&mut self) { self.s.refresh().unwrap(); self.sync(); }
    pub fn write(&mut self, c: (u32, usize)) { self.s.write_char(ch(c.0)); self.r.put(c.0, c.1); }
    pub fn set_cursor(&mut self, l: usize, c: usize) { self.s.set_cursor((l, c)); self.r.l = l; self.r.c = c; }
    pub fn set_theme(&mut self, a: Attr) { self.s.set_theme(theme(a)); self.r.attr = a; }
    pub fn check_content(&self, label: &str) {
        sym::check(!self.v.bad, label);
        sym::check(!self.v.scrolled, label);
        sym::check(self.r.shown_by(&self.v), label);
    }
    pub fn check_cursor(&self, label: &str) {
        let (l, c) = if self.r.inb() { (self.r.l, self.r.c) } else { (self.r.lines - 1, self.r.cols - 1) };
        sym::check(self.v.l == l && self.v.c == c, label);
        sym::check(!self.v.pending, label);
        sym::check(self.v.attr == PLAIN, label);
        self.check_logical(label);
    }
    pub fn check_logical(&self, label: &str) {
        let k = self.s.cursor();
        sym::check(k.line == self.r.l && k.column == self.r.c, label);
    }
    pub fn trace(&self) {
        sym::trace(1, self.v.l as u64); sym::trace(2, self.v.c as u64);
        for l in 0..self.v.lines { for c in 0..self.v.cols { sym::trace(100 + (l * 16 + c) as u32, self.v.cell[l][c].ch[0] as u64); } }
    }
}

/// k writes of any class from any cursor position, one refresh
fn p01(lines: usize, cols: usize, k: usize, classes: u32) {
    let mut t = open(lines, cols);
    let l = sym::choose(lines, "line");
    let c = sym::choose(cols, "col");
    t.set_cursor(l, c);
    for _ in 0..k { let x = sym_char(classes); t.write(x); }
    t.check_logical("P01 cursor after writes");
    t.refresh();
    t.check_content("P01 content");
    t.trace();
}
/// text written from a cursor outside the screen, in any direction and at any distance
pub fn p01_out() {
    let mut t = open(2, 3);
    let x = sym_char(A | WIDE); t.write(x);
    let (l, c) = (sym::usize("l"), sym::usize("c"));
    t.set_cursor(l, c);
    for _ in 0..2 { let x = sym_char(A | WIDE | COMB | LF | CR | TAB); t.write(x); }
    t.refresh();
    t.check_content("P01 content");
}
pub fn p01_wide() { p01(2, 3, 3, A | WIDE | COMB | LF | CR); }
pub fn p01_tab() { p01(2, 10, 3, A | TAB | LF | CR | LATIN); }
pub fn p01_one() { p01(3, 1, 3, A | WIDE | COMB | LF | TAB); }
pub fn p01_odd() { p01(2, 3, 2, A | WIDE | COMB | LF | CR | TAB | LATIN | EMOJI | C0 | C1 | MC | ZW); }
pub fn p01_wide4() { p01(2, 4, 4, A | WIDE | COMB | LF | CR); }
pub fn p01_wide5() { p01(3, 3, 5, A | WIDE | COMB); }
pub fn p01_tab18() { p01(2, 12, 4, A | TAB | LF | WIDE); }
pub fn p01_odd3() { p01(2, 3, 3, A | WIDE | COMB | LF | TAB | LATIN | EMOJI | C0 | C1 | MC | ZW); }

/// every way of writing text, every way of setting attributes
fn enc(cs: &[u32], buf: &mut [u8; 16]) -> usize {
    let mut n = 0;
    for &c in cs { n += ch(c).encode_utf8(&mut buf[n..]).len(); }
    n
}
macro_rules! text_op {
    ($s:expr, $r:expr) => {{
        let s = $s;
        let r: &mut RefBuf = $r;
        let x = sym_char(A | WIDE);
        let y = sym_char(A);
        let mut buf = [0u8; 16];
        let n = enc(&[x.0, y.0], &mut buf);
        let st = unsafe { std::str::from_utf8_unchecked(&buf[..n]) };
        let put2 = |r: &mut RefBuf| { if r.put(x.0, x.1) { r.put(y.0, y.1); } };
        let a = ATTRS[2];
        let op = sym::choose(9, "op");
        match op {
            0 => { s.write_str(st); put2(r); }
            1 => { s.write_char(ch(x.0)); r.put(x.0, x.1); }
            2 | 4 => {
                let l = sym::choose(r.lines + 1, "atl");
                let c = sym::choose(r.cols + 1, "atc");
                let inb = l < r.lines && c < r.cols;
                if inb { r.l = l; r.c = c; }
                if op == 2 {
                    s.write_at((l, c), st);
                    if inb { put2(r); }
                } else {
                    s.write_styled_at((l, c), color(a.fg as usize), color(a.bg as usize), style(a.style), st);
                    if inb { r.attr = a; put2(r); r.attr = PLAIN; } else { s.clear_attributes(); r.attr = PLAIN; }
                }
            }
            3 => { s.write_styled(color(a.fg as usize), color(a.bg as usize), style(a.style), st); r.attr = a; put2(r); r.attr = PLAIN; }
            5 => { let c = sym::choose(r.cols + 1, "nl"); s.next_line(c); r.l += 1; r.c = c; }
            6 => { s.clear_screen(); r.clear(); }
            7 => {
                let (l, c) = (sym::choose(r.lines + 1, "atl"), sym::choose(r.cols + 1, "atc"));
                s.set_cursor((l, c)); r.l = l; r.c = c;
                s.write_char(ch(x.0)); r.put(x.0, x.1);
                sym::check(s.size() == Size { lines: r.lines, columns: r.cols }, "P01 size");
            }
            _ => { s.write_fmt(format_args!("{}{}", ch(x.0), ch(y.0))); if r.put(x.0, x.1) { r.put(y.0, y.1); } }
        }
    }};
}
macro_rules! attr_op {
    ($s:expr, $r:expr) => {{
        let s = $s;
        let r: &mut RefBuf = $r;
        match sym::choose(12, "aop") {
            0 => { let f = sym::small(9, "afg"); s.set_fg(color(f)); r.attr.fg = f as u32; }
            1 => { let f = sym::small(9, "abg"); s.set_bg(color(f)); r.attr.bg = f as u32; }
            2 => { let b = sym::bits(4, "ast") as u32; s.set_style(style(b)); r.attr.style = b; }
            3 => { let b = sym::bits(4, "ast") as u32; s.add_style(style(b)); r.attr.style |= b; }
            4 => { let b = sym::bits(4, "ast") as u32; s.remove_style(style(b)); r.attr.style &= !b; }
            5 => { s.clear_attributes(); r.attr = PLAIN; }
            6 => { s.bold(); r.attr.style |= 1; }
            7 => { s.italic(); r.attr.style |= 2; }
            8 => { s.reverse(); r.attr.style |= 4; }
            9 => { s.underline(); r.attr.style |= 8; }
            10 => { s.set_style(None); r.attr.style = 0; }
            _ => { let a = ATTRS[sym::choose(3, "ath")]; s.set_theme(theme(a)); r.attr = a; }
        }
    }};
}
fn p01_ops(lines: usize, cols: usize, k: usize) {
    let mut t = open(lines, cols);
    let guard = sym::choose(2, "guard") == 1;
    if guard {
        let mut g = t.s.lock_write().unwrap();
        for _ in 0..k { text_op!(&mut g, &mut t.r); }
        let c = g.cursor();
        sym::check(c.line == t.r.l && c.column == t.r.c, "P01 cursor after writes");
        drop(g);
        t.sync();
    } else {
        for _ in 0..k { text_op!(&t.s, &mut t.r); }
        t.check_logical("P01 cursor after writes");
        t.refresh();
    }
    t.check_content("P01 content");
}
pub fn p01_api() { p01_ops(2, 3, 2); }
pub fn p01_api3() { p01_ops(2, 3, 3); }
/// a character with any number of combining marks (up to 5), then another
pub fn p01_marks() {
    let mut t = open(1, 3);
    let x = sym_char(A | WIDE | LATIN); t.write(x);
    if sym::choose(2, "shown") == 1 { t.refresh(); }
    for _ in 0..1 + sym::choose(5, "marks") { let m = sym_char(COMB); t.write(m); }
    if sym::choose(2, "twice") == 1 { t.refresh(); t.check_content("P01 combining marks"); }
    let y = sym_char(A | COMB); 
    if y.1 > 0 { t.write(y); }
    t.refresh();
    t.check_content("P01 combining marks");
}
pub fn p01_attr() {
    let mut t = open(1, 3);
    let a0 = ATTRS[sym::choose(3, "a0")];
    t.set_theme(a0);
    let guard = sym::choose(2, "guard") == 1;
    let x = sym_char(A);
    let y = sym_char(WIDE);
    if guard {
        let mut g = t.s.lock_write().unwrap();
        attr_op!(&mut g, &mut t.r);
        g.write_char(ch(x.0)); t.r.put(x.0, x.1);
        drop(g);
        t.sync();
        t.write(y);
    } else {
        attr_op!(&t.s, &mut t.r);
        t.write(x);
        t.write(y);
    }
    t.refresh();
    t.check_content("P01 attributes");
    sym::check(t.v.attr == PLAIN, "P01 attributes");
}

/// P02/P03: whatever was displayed, after a refresh the terminal shows the buffer
fn p02(lines: usize, cols: usize, pre: usize, rounds: usize, per: usize, classes: u32, themes: usize) {
    let mut t = open(lines, cols);
    // first screenful: `pre` consecutive characters
    for _ in 0..pre { let x = sym_char(classes & (A | WIDE)); t.write(x); }
    t.refresh();
    t.check_content("P02 first refresh");
    for _ in 0..rounds {
        for _ in 0..per {
            let p = sym::choose(lines * cols + 1, "pos");
            if p == lines * cols { t.s.clear_screen(); t.r.clear(); continue; }
            t.set_cursor(p / cols, p % cols);
            if themes > 1 { t.set_theme(ATTRS[sym::choose(themes, "theme")]); }
            let x = sym_char(classes);
            t.write(x);
        }
        t.refresh();
        t.check_content("P02 incremental refresh");
        t.check_cursor("P03 cursor after refresh");
    }
    t.refresh();
    t.check_content("P02 idle refresh");
    t.trace();
}
pub fn p02_wide() { p02(1, 4, 3, 2, 1, A | WIDE | COMB, 1); }
pub fn p02_attr() { p02(2, 2, 2, 1, 2, A | WIDE, 5); }
pub fn p02_lines() { p02(2, 3, 4, 1, 2, A | WIDE | COMB, 1); }
pub fn p02_deep() { p02(1, 4, 4, 3, 1, A | WIDE | COMB, 1); }
pub fn p02_deep2() { p02(2, 3, 4, 2, 2, A | WIDE, 1); }
pub fn p02_deep3() { p02(1, 4, 3, 2, 2, A | WIDE, 2); }
pub fn p02_deep4() { p02(3, 4, 5, 1, 2, A | WIDE | COMB, 2); }

/// P03: the terminal cursor ends at the logical cursor, or at the last cell
fn p03(lines: usize, cols: usize) {
    let mut t = open(lines, cols);
    let n = sym::choose(3, "writes");
    for _ in 0..n { let x = sym_char(A | WIDE); t.write(x); }
    if sym::choose(2, "between") == 1 { t.refresh(); }
    if sym::choose(2, "theme") == 1 { let a = sym_attr(); t.set_theme(a); }
    if sym::choose(2, "move") == 1 {
        let (l, c) = (sym::usize("l"), sym::usize("c"));
        t.set_cursor(l, c);
    }
    if sym::choose(2, "guard") == 1 { drop(t.s.lock_write().unwrap()); t.sync(); } else { t.refresh(); }
    t.check_cursor("P03 cursor after refresh");
    t.check_content("P03 content");
}
pub fn p03_any() { p03(2, 3); }
pub fn p03_any2() { p03(3, 5); }
pub fn p03_size(){
    // every size up to 4x6, every logical position
    let (l, c) = (1 + sym::choose(4, "lines"), 1 + sym::choose(6, "cols"));
    let mut t = open(l, c);
    let p = sym::choose(l * c, "p");
    t.set_cursor(p / c, p % c);
    if sym::choose(2, "w") == 1 { let x = sym_char(A | WIDE); t.write(x); }
    t.refresh();
    t.check_cursor("P03 cursor after refresh");
    t.check_content("P03 content");
    sym::check(t.s.size() == Size { lines: l, columns: c }, "P03 size");
}

/// P04: a resize keeps the overlapping content and redraws everything
fn on_resize() -> i32 { if w().waits == 1 { world::deliver(libc::SIGWINCH); return libc::EINTR; } 0 }
fn p04(ml: usize, mc: usize, classes: u32, pre: usize, post: usize) {
    let (l, c) = (1 + sym::choose(ml, "lines"), 1 + sym::choose(mc, "cols"));
    let (l2, c2) = (1 + sym::choose(ml, "lines2"), 1 + sym::choose(mc, "cols2"));
    let mut t = open(l, c);
    if sym::choose(2, "attrs") == 1 { t.set_theme(ATTRS[2]); }
    for _ in 0..pre { let x = sym_char(classes); t.write(x); }
    t.set_cursor(sym::choose(l, "cl"), sym::choose(c, "cc"));
    if sym::choose(2, "shown") == 1 { t.refresh(); }
    w().rows = l2 as u16; w().cols = c2 as u16;
    w().on_wait = Some(on_resize);
    w().waits = 0;
    let e = if sym::choose(2, "how") == 0 { t.s.read_event(Some(Duration::from_millis(10))).unwrap() } else {
        let mut b = [0u8; 4];
        t.s.read_raw_ext(&mut b)
    };
    sym::check(e == Some(Event::Resize(Size { lines: l2, columns: c2 })), "P04 resize event");
    sym::check(t.s.size() == Size { lines: l2, columns: c2 }, "P04 size");
    let g = sym::bits(3, "garbage") as u32;
    t.v.resize(l2, c2, 0x30 + g);
    t.r.resize(l2, c2);
    for _ in 0..post { let x = sym_char(classes); t.write(x); }
    t.refresh();
    t.check_content("P04 content after resize");
    t.check_cursor("P04 cursor after resize");
    // and incremental updates keep working
    t.set_cursor(0, 0);
    let x = sym_char(classes & (A | WIDE));
    t.write(x);
    t.refresh();
    t.check_content("P04 update after resize");
    t.check_cursor("P04 update after resize");
}
trait Raw { fn read_raw_ext(&mut self, b: &mut [u8]) -> Option<Event>; }
impl Raw for Screen {
    fn read_raw_ext(&mut self, b: &mut [u8]) -> Option<Event> { use mortal::unix::TerminalExt; self.read_raw(b, Some(Duration::from_millis(10))).unwrap() }
}
pub fn p04_small() { p04(2, 3, A | WIDE, 2, 0); }
pub fn p04_post() { p04(2, 2, A | WIDE, 1, 1); }
pub fn p04_big() { p04(3, 4, A | WIDE, 3, 0); }
pub fn p04_twice() {
    // two resizes, no redraw in between
    let mut t = open(2, 4);
    for _ in 0..4 { let x = sym_char(A | WIDE); t.write(x); }
    if sym::choose(2, "shown") == 1 { t.refresh(); }
    for _ in 0..2 {
        let (l2, c2) = (1 + sym::choose(3, "lines2"), 1 + sym::choose(4, "cols2"));
        w().rows = l2 as u16; w().cols = c2 as u16;
        w().on_wait = Some(on_resize);
        w().waits = 0;
        let e = t.s.read_event(None).unwrap();
        sym::check(e == Some(Event::Resize(Size { lines: l2, columns: c2 })), "P04 resize event");
        let g = sym::bits(3, "garbage") as u32;
        t.v.resize(l2, c2, 0x30 + g);
        t.r.resize(l2, c2);
    }
    t.refresh();
    t.check_content("P04 content after two resizes");
    t.check_cursor("P04 cursor after two resizes");
}

/// P05: any arguments whatever; the buffer never panics, and writes outside are ignored
fn p05(lines: usize, cols: usize, k: usize) {
    let mut t = open(lines, cols);
    let x = sym_char(A | WIDE); t.write(x);
    for _ in 0..k {
        match sym::choose(5, "op") {
            0 => { let (l, c) = (sym::usize("l"), sym::usize("c")); t.set_cursor(l, c); }
            1 => { let c = sym::usize("nc"); t.s.next_line(c); t.r.l = t.r.l.saturating_add(1); t.r.c = c; }
            2 => {
                let (l, c) = (sym::usize("al"), sym::usize("ac"));
                t.s.write_at((l, c), "z");
                if l < lines && c < cols { t.r.l = l; t.r.c = c; t.r.put(0x7a, 1); }
            }
            3 => {
                let (l, c) = (sym::usize("sl"), sym::usize("sc"));
                t.s.write_styled_at((l, c), Color::Red, None, Style::BOLD, "y");
                if l < lines && c < cols { t.r.l = l; t.r.c = c; t.r.attr = ATTRS[1]; t.r.put(0x79, 1); }
                t.s.clear_attributes();
                t.r.attr = PLAIN;
            }
            _ => { let x = sym_char(A | WIDE | COMB | LF | CR | TAB | C0); t.write(x); }
        }
        t.check_logical("P05 logical cursor");
    }
    t.refresh();
    t.check_content("P05 content");
    t.check_cursor("P05 cursor");
}
/// a size with no cells (as a terminal reports that does not know its size), before or after
/// a proper one
pub fn p05_zero() { zero(2, 4); }
pub fn p05_zero3() { zero(3, 2); }
fn zero(steps: usize, ops: usize) {
    let sizes = [(0, 0), (0, 3), (2, 0), (2, 3), (1, 1)];
    let n = sym::choose(5, "size");
    let (l, c) = sizes[n];
    let mut t = open(l, c);
    for step in 0..steps {
        for _ in 0..if step == 0 && steps == 2 { 2 } else { 1 } {
            match sym::choose(ops, "op") {
                3 => { let (l, c) = (sym::usize("l"), sym::usize("c")); t.set_cursor(l, c); }
                2 => { let (l, c) = (sym::usize("al"), sym::usize("ac")); t.s.write_at((l, c), "z"); if l < t.r.lines && c < t.r.cols { t.r.l = l; t.r.c = c; t.r.put(0x7a, 1); } }
                1 => { t.s.clear_screen(); let k = t.r; t.r = RefBuf::new(k.lines, k.cols); t.r.l = k.l; t.r.c = k.c; }
                _ => { let x = sym_char(A | WIDE | COMB | TAB); t.write(x); }
            }
        }
        t.check_logical("P05 logical cursor");
        let before = t.v.chars;
        if sym::choose(2, "refresh") == 1 {
            t.refresh();
            sym::check(!t.v.bad, "P05 content");
            if t.r.lines == 0 || t.r.cols == 0 { sym::check(t.v.chars == before, "P05 something is drawn on a screen without cells"); }
            else { t.check_content("P05 content"); }
        }
        if step + 1 < steps {
            let (l2, c2) = sizes[sym::choose(4, "size2")];
            if l2 == t.r.lines && c2 == t.r.cols { continue; }
            w().rows = l2 as u16; w().cols = c2 as u16;
            w().on_wait = Some(on_resize);
            w().waits = 0;
            let e = t.s.read_event(None).unwrap();
            sym::check(e == Some(Event::Resize(Size { lines: l2, columns: c2 })), "P05 resize event");
            t.v.resize(l2.max(1), c2.max(1), 0x30);
            t.r.resize(l2, c2);
        }
    }
    sym::check(t.s.size() == Size { lines: t.r.lines, columns: t.r.cols }, "P05 size");
}
pub fn p05_any() { p05(2, 3, 2); }
pub fn p05_any3() { p05(2, 3, 3); }
pub fn p05_one() { p05(1, 1, 2); }

/// P07 (screen half): styled text leaves no attributes behind, also when it does not fit
fn p07s(k: usize) {
    let mut t = open(2, 3);
    let (l, c) = (sym::choose(2, "l"), sym::choose(3, "c"));
    t.set_cursor(l, c);
    let a0 = ATTRS[sym::choose(2, "prior")];
    t.set_theme(a0);
    let a = sym_attr();
    let n = sym::choose(k, "n");
    let txt = ["", "a", "abc", "abcdefg", "a\u{4e00}b", "abcd\u{4e00}"][n];
    if sym::choose(2, "at") == 0 { t.s.write_styled(color(a.fg as usize), color(a.bg as usize), style(a.style), txt); }
    else { t.s.write_styled_at((l, c), color(a.fg as usize), color(a.bg as usize), style(a.style), txt); }
    t.r.attr = a;
    for k in txt.chars() { if !t.r.put(k as u32, crate::vt::width(k as u32)) { break; } }
    t.r.attr = PLAIN;
    t.set_cursor(0, 0);
    let x = sym_char(A);
    t.write(x);
    t.refresh();
    t.check_content("P07 attributes leak out of styled text on the screen");
    t.check_cursor("P07 cursor");
}
pub fn p07_screen() { p07s(4); }
pub fn p07_screen6() { p07s(6); }
