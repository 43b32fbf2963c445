//! Terminal properties: attributes, cursor movement, clearing, unsupported operations, term_write!.
use crate::h_screen::{ch, color, style, sym_attr, theme, ATTRS};
use crate::sym;
use crate::vt::{self, supported, Attr, Vt, PLAIN};
use crate::world::{self, w};
use mortal::*;

pub struct T { pub t: Terminal, pub v: Vt }
pub fn open(lines: usize, cols: usize) -> T {
    world::init(lines as u16, cols as u16);
    T { t: Terminal::new().unwrap(), v: Vt::new(lines, cols) }
}
impl T { pub fn sync(&mut self) { self.v.feed(world::output()); world::clear_output(); } }

macro_rules! attr_op {
    ($s:expr, $a:expr) => { attr_op!($s, $a, 15) };
    ($s:expr, $a:expr, $n:expr) => {{
        let s = $s;
        let a: &mut Attr = $a;
        match sym::choose($n, "op") {
            0 => { let f = sym::small(9, "fg"); s.set_fg(color(f)).unwrap(); a.fg = f as u32; }
            1 => { let f = sym::small(9, "bg"); s.set_bg(color(f)).unwrap(); a.bg = f as u32; }
            2 => { let b = sym::bits(4, "st") as u32; s.set_style(style(b)).unwrap(); a.style = b; }
            3 => { let b = sym::bits(4, "st") as u32; s.add_style(style(b)).unwrap(); a.style |= b; }
            4 => { let b = sym::bits(4, "st") as u32; s.remove_style(style(b)).unwrap(); a.style &= !b; }
            5 => { s.clear_attributes().unwrap(); *a = PLAIN; }
            6 => { s.bold().unwrap(); a.style |= 1; }
            7 => { s.italic().unwrap(); a.style |= 2; }
            8 => { s.reverse().unwrap(); a.style |= 4; }
            9 => { s.underline().unwrap(); a.style |= 8; }
            10 => { s.set_style(None).unwrap(); a.style = 0; }
            14 => { let n = sym_attr(); s.set_theme(theme(n)).unwrap(); *a = n; }
            13 => { let n = ATTRS[sym::choose(3, "wa")]; s.write_styled(color(n.fg as usize), color(n.bg as usize), style(n.style), "s").unwrap(); *a = PLAIN; }
            11 => { s.set_fg(Color::Cyan).unwrap(); a.fg = 6; }
            _ => { s.set_bg(None).unwrap(); a.bg = 8; }
        }
    }};
}

/// the terminal's attributes are the requested ones, after any operations from any prior attributes
fn p06(k: usize, prior: bool) {
    let mut t = open(2, 12);
    let mut a = PLAIN;
    if prior { a = sym_attr(); t.t.set_theme(theme(a)).unwrap(); }
    if sym::choose(2, "guard") == 1 {
        let mut g = t.t.lock_write().unwrap();
        for _ in 0..k { attr_op!(&mut g, &mut a); }
        g.write_str("x").unwrap();
    } else {
        for _ in 0..k { attr_op!(&t.t, &mut a); }
        t.t.write_str("x").unwrap();
    }
    t.sync();
    sym::check(!t.v.bad, "P06 malformed output");
    let e = supported(a);
    sym::check(t.v.attr == e, "P06 attributes");
    let mut i = 0;
    while t.v.cell[0][i].ch[0] == 0x73 { i += 1; }
    sym::check(t.v.cell[0][i].ch[0] == 0x78 && t.v.cell[0][i].attr == e, "P06 attributes of the text");
    sym::trace(1, t.v.attr.fg as u64); sym::trace(2, t.v.attr.style as u64);
    // back to plain, whatever it was
    t.t.clear_attributes().unwrap();
    t.sync();
    sym::check(t.v.attr == PLAIN, "P06 clear");
}
/// whatever one call did from any attributes, a call that sets all of them, or adds or removes
/// a style, ends right
fn p06_after(k: usize) {
    let mut t = open(2, 12);
    let p = sym::choose(6, "prior");
    let mut a = Attr { fg: if p & 1 != 0 { sym::bits(3, "pfg") as u32 } else { 8 }, bg: if p & 2 != 0 { sym::bits(3, "pbg") as u32 } else { 8 }, style: [0, 15, 2, 12, 8, 11][p] };
    t.t.set_theme(theme(a)).unwrap();
    for _ in 0..k { attr_op!(&t.t, &mut a, 13); }
    match sym::choose(6, "last") {
        0 => { a.style = 15; t.t.add_style(style(15)).unwrap(); }
        1 => { a.style = 0; t.t.remove_style(style(15)).unwrap(); }
        2 => { let f = sym::small(9, "fg"); t.t.set_fg(color(f)).unwrap(); a.fg = f as u32; }
        3 => { let f = sym::small(9, "bg"); t.t.set_bg(color(f)).unwrap(); a.bg = f as u32; }
        4 => { a = ATTRS[sym::choose(3, "theme")]; t.t.set_theme(theme(a)).unwrap(); }
        _ => { a.style = 10; t.t.set_style(style(10)).unwrap(); }
    }
    t.t.write_str("x").unwrap();
    t.sync();
    sym::check(!t.v.bad && t.v.attr == supported(a), "P06 attributes after two calls");
}
pub fn p06_after1() { p06_after(1); }
pub fn p06_after2() { p06_after(2); }
pub fn p06_one() { p06(1, true); }
pub fn p06_two() { p06(2, false); }
pub fn p06_deep() { p06(2, true); }
pub fn p06_three() { p06(3, false); }

/// styled text has exactly its attributes, from any prior ones, and leaves none behind
fn p07(guard_only: bool) {
    let mut t = open(2, 12);
    let a0 = sym_attr();
    t.t.set_theme(theme(a0)).unwrap();
    let a = sym_attr();
    let n = sym::choose(3, "len");
    let s = ["", "a", "ab\u{e9}"][n];
    let (f, b, st) = (color(a.fg as usize), color(a.bg as usize), style(a.style));
    if guard_only || sym::choose(2, "guard") == 1 {
        let mut g = t.t.lock_write().unwrap();
        g.write_styled(f, b, st, s).unwrap();
        g.write_char('c').unwrap();
    } else {
        t.t.write_styled(f, b, st, s).unwrap();
        t.t.write_char('c').unwrap();
    }
    t.sync();
    let m = s.chars().count();
    sym::check(!t.v.bad && t.v.c == m + 1, "P07 text");
    for (i, c) in s.chars().enumerate() {
        sym::check(t.v.cell[0][i].ch[0] == c as u32, "P07 text");
        sym::check(t.v.cell[0][i].attr == supported(a), "P07 attributes of styled text");
    }
    sym::check(t.v.cell[0][m].ch[0] == 'c' as u32 && t.v.cell[0][m].attr == PLAIN, "P07 attributes left behind");
}
pub fn p07_term() { p07(false); }

/// an amount: every value up to the screen and beyond, and the extremes
fn amount() -> usize {
    match sym::choose(4, "nk") {
        0 => sym::small(16, "n"),
        1 => 100 + sym::bits(3, "nb") as usize,
        2 => [32767, 32768, 65535, 99999, 0x7fffffff][sym::choose(5, "nc")],
        _ => [0x80000000, 0xffffffff, 0x100000000, 0x100000001, usize::MAX][sym::choose(5, "nx")],
    }
}
macro_rules! move_op {
    ($s:expr, $op:expr, $n:expr) => {{
        let s = $s;
        match $op {
            0 => s.move_up($n).unwrap(),
            1 => s.move_down($n).unwrap(),
            2 => s.move_left($n).unwrap(),
            3 => s.move_right($n).unwrap(),
            4 => s.move_to_first_column().unwrap(),
            5 => s.clear_screen().unwrap(),
            6 => s.clear_to_line_end().unwrap(),
            7 => s.clear_to_screen_end().unwrap(),
            8 => s.set_cursor_mode(CursorMode::Invisible).unwrap(),
            9 => s.set_cursor_mode(CursorMode::Overwrite).unwrap(),
            _ => s.set_cursor_mode(CursorMode::Normal).unwrap(),
        }
    }};
}
/// relative movement, from any position, by any amount; clearing
fn p26(k: usize) {
    let mut t = open(4, 9);
    for i in 0..4 { for j in 0..9 { t.v.cell[i][j].ch[0] = (0x41 + i * 9 + j) as u32; } }
    let (mut l, mut c) = (sym::choose(4, "l"), sym::small(9, "c"));
    t.v.l = l; t.v.c = c;
    t.v.onlcr = sym::choose(2, "onlcr") == 1;
    let mut cell = t.v.cell;
    let mut on = true;
    for _ in 0..k {
        let op = sym::choose(11, "op");
        let n = if op < 4 { amount() } else { 0 };
        let sent = w().out_len;
        if sym::choose(2, "guard") == 1 { move_op!(&mut t.t.lock_write().unwrap(), op, n); } else { move_op!(&t.t, op, n); }
        match op {
            0 => l = l.saturating_sub(n),
            1 => l = l.saturating_add(n).min(3),
            2 => c = c.saturating_sub(n),
            3 => c = c.saturating_add(n).min(8),
            4 => c = 0,
            5 => { cell = [[vt::BLANK; vt::MC]; vt::ML]; l = 0; c = 0; }
            6 | 7 => {
                for i in 0..4 { for j in 0..9 {
                    if (i == l && j >= c) || (op == 7 && i > l) { cell[i][j] = vt::BLANK; }
                } }
            }
            8 => on = t.t.name() == "vt100",
            _ => on = true,
        }
        if op < 4 && n == 0 { sym::check(w().out_len == sent, "P26 moving by nothing sends something"); }
    }
    t.sync();
    sym::check(!t.v.bad && !t.v.scrolled, "P26 malformed output");
    sym::check(t.v.l == l && t.v.c == c, "P26 position");
    for i in 0..4 { for j in 0..9 { sym::check(vt::same_cell(&t.v.cell[i][j], &cell[i][j]), "P26 content"); } }
    sym::check(t.v.cursor_on == on, "P26 cursor mode");
    drop(t.t);
    t.v.feed(world::output());
    sym::check(t.v.cursor_on, "P26 cursor visible after drop");
}
pub fn p26_one() { p26(1); }
pub fn p26_two() { p26(2); }

/// P27: what the terminal type lacks fails cleanly (nothing half-sent), or is a no-op for attributes
fn p27() {
    let t = open(3, 9);
    let dumb = t.t.name() == "dumb";
    let op = sym::choose(16, "op");
    let n = amount();
    let g = sym::choose(2, "guard") == 1;
    macro_rules! go { ($s:expr) => {{ let s = $s; match op {
        0 => s.move_up(n), 1 => s.move_down(n), 2 => s.move_left(n), 3 => s.move_right(n),
        4 => s.clear_screen(), 5 => s.clear_to_line_end(), 6 => s.clear_to_screen_end(),
        7 => s.set_fg(color(sym::small(9, "fg"))), 8 => s.set_bg(color(sym::small(9, "bg"))),
        9 => s.set_style(style(sym::bits(4, "st") as u32)), 10 => s.add_style(style(sym::bits(4, "st") as u32)),
        11 => s.clear_attributes(), 12 => s.set_cursor_mode(CursorMode::Invisible), 13 => s.set_theme(theme(sym_attr())),
        14 => s.move_to_first_column(),
        _ => s.write_styled(Color::Red, Color::Blue, Style::BOLD, "q"),
    } }} }
    let r = if g { let mut w = t.t.lock_write().unwrap(); go!(&mut w) } else { go!(&t.t) };
    if dumb {
        match op {
            0..=3 => {
                sym::check(r.is_err() == (n != 0), "P27 unsupported movement is reported");
                sym::check(w().out_len == 0, "P27 unsupported movement sends nothing");
            }
            4..=6 => {
                sym::check(r.is_err(), "P27 unsupported clearing is reported");
                sym::check(w().out_len == 0, "P27 unsupported clearing sends nothing");
            }
            7..=13 => {
                sym::check(r.is_ok(), "P27 unsupported attributes are no error");
                sym::check(w().out_len == 0, "P27 unsupported attributes send nothing");
            }
            14 => sym::check(r.is_ok() && world::output() == b"\r", "P27 first column"),
            _ => sym::check(r.is_ok() && world::output() == b"q", "P27 plain text"),
        }
    } else {
        sym::check(r.is_ok(), "P27 supported operation fails");
    }
    // the terminal still works afterwards
    world::clear_output();
    t.t.write_str("ok").unwrap();
    let o = world::output();
    sym::check(o.len() >= 2 && &o[o.len() - 2..] == b"ok", "P27 text afterwards");
    if dumb { sym::check(o.len() == 2, "P27 text afterwards"); }
}
pub fn p27_dumb() { p27(); }
/// a screen on a terminal that cannot position the cursor: refused, and the terminal is as before
pub fn p27_screen() {
    world::init(3, 9);
    let tio = w().tio;
    let kp = sym::choose(2, "kp") == 1;
    let r = Screen::new(PrepareConfig { enable_keypad: kp, block_signals: sym::choose(2, "bs") == 1, ..PrepareConfig::default() });
    if std::env::var("TERM").unwrap_or_default() == "dumb" {
        sym::check(r.is_err(), "P27 screen on a terminal without cursor addressing");
        drop(r);
        sym::check(w().out_len == 0, "P27 refused screen sends something");
        sym::check(w().tio.c_lflag == tio.c_lflag && w().tio.c_iflag == tio.c_iflag, "P27 refused screen leaves raw mode");
        sym::check(!world::handled(libc::SIGWINCH) && !world::handled(libc::SIGCONT), "P27 refused screen leaves handlers");
    } else {
        sym::check(r.is_ok(), "P27 screen");
    }
}

/// P23: each element of term_write! is its documented equivalent, applied in order, up to the first failure
pub struct Mock { calls: [(u64, u64); 6], n: usize, fail_at: usize }
impl Mock {
    fn call(&mut self, op: u64, arg: u64) -> std::io::Result<()> {
        if self.n < 6 { self.calls[self.n] = (op, arg); }
        let k = self.n;
        self.n += 1;
        if k == self.fail_at { Err(std::io::ErrorKind::Other.into()) } else { Ok(()) }
    }
    pub fn borrow_term_write_guard(&mut self) -> &mut Mock { self }
    fn col(c: Option<Color>) -> u64 { for i in 0..9 { if color(i) == c { return i as u64; } } 99 }
    fn sty(s: Style) -> u64 { (s.contains(Style::BOLD) as u64) | (s.contains(Style::ITALIC) as u64) << 1 | (s.contains(Style::REVERSE) as u64) << 2 | (s.contains(Style::UNDERLINE) as u64) << 3 }
    pub fn set_fg<C: Into<Option<Color>>>(&mut self, c: C) -> std::io::Result<()> { self.call(1, Mock::col(c.into())) }
    pub fn set_bg<C: Into<Option<Color>>>(&mut self, c: C) -> std::io::Result<()> { self.call(2, Mock::col(c.into())) }
    pub fn add_style(&mut self, s: Style) -> std::io::Result<()> { self.call(3, Mock::sty(s)) }
    pub fn remove_style(&mut self, s: Style) -> std::io::Result<()> { self.call(4, Mock::sty(s)) }
    pub fn clear_attributes(&mut self) -> std::io::Result<()> { self.call(5, 0) }
    pub fn set_style<S: Into<Option<Style>>>(&mut self, s: S) -> std::io::Result<()> { self.call(6, Mock::sty(s.into().unwrap_or_default())) }
    pub fn set_theme(&mut self, t: Theme) -> std::io::Result<()> { self.call(7, Mock::col(t.fg) * 1000 + Mock::col(t.bg) * 100 + Mock::sty(t.style)) }
    pub fn write_str(&mut self, s: &str) -> std::io::Result<()> { let mut x = 0; for b in s.bytes() { x = x << 8 | b as u64; } self.call(8, x) }
    pub fn write_fmt(&mut self, a: std::fmt::Arguments) -> std::io::Result<()> { let s = a.to_string(); self.write_str(&s) }
}
const ELEMS: usize = 41;
pub fn p23_elems() {
    let fail_at = sym::small(4, "fail_at");
    let mut mock = Mock { calls: [(0, 0); 6], n: 0, fail_at };
    let m = &mut mock;
    let f = sym::small(9, "f");
    let b = sym::bits(4, "b") as u32;
    let x = 7;
    let (r, e): (std::io::Result<()>, (u64, u64)) = match sym::choose(ELEMS, "elem") {
        0 => (term_write!(m, "A" [black] "B"), (1, 0)),
        1 => (term_write!(m, "A" [#black] "B"), (2, 0)),
        2 => (term_write!(m, "A" [red] "B"), (1, 1)),
        3 => (term_write!(m, "A" [#red] "B"), (2, 1)),
        4 => (term_write!(m, "A" [green] "B"), (1, 2)),
        5 => (term_write!(m, "A" [#green] "B"), (2, 2)),
        6 => (term_write!(m, "A" [yellow] "B"), (1, 3)),
        7 => (term_write!(m, "A" [#yellow] "B"), (2, 3)),
        8 => (term_write!(m, "A" [blue] "B"), (1, 4)),
        9 => (term_write!(m, "A" [#blue] "B"), (2, 4)),
        10 => (term_write!(m, "A" [magenta] "B"), (1, 5)),
        11 => (term_write!(m, "A" [#magenta] "B"), (2, 5)),
        12 => (term_write!(m, "A" [cyan] "B"), (1, 6)),
        13 => (term_write!(m, "A" [#cyan] "B"), (2, 6)),
        14 => (term_write!(m, "A" [white] "B"), (1, 7)),
        15 => (term_write!(m, "A" [#white] "B"), (2, 7)),
        16 => (term_write!(m, "A" [bold] "B"), (3, 1)),
        17 => (term_write!(m, "A" [!bold] "B"), (4, 1)),
        18 => (term_write!(m, "A" [italic] "B"), (3, 2)),
        19 => (term_write!(m, "A" [!italic] "B"), (4, 2)),
        20 => (term_write!(m, "A" [reverse] "B"), (3, 4)),
        21 => (term_write!(m, "A" [!reverse] "B"), (4, 4)),
        22 => (term_write!(m, "A" [underline] "B"), (3, 8)),
        23 => (term_write!(m, "A" [!underline] "B"), (4, 8)),
        24 => (term_write!(m, "A" [reset] "B"), (5, 0)),
        25 => (term_write!(m, "A" [!fg] "B"), (1, 8)),
        26 => (term_write!(m, "A" [!bg] "B"), (2, 8)),
        27 => (term_write!(m, "A" [!style] "B"), (6, 0)),
        28 => (term_write!(m, "A" [fg=color(f)] "B"), (1, f as u64)),
        29 => (term_write!(m, "A" [bg=color(f)] "B"), (2, f as u64)),
        30 => (term_write!(m, "A" [style=style(b)] "B"), (6, b as u64)),
        31 => (term_write!(m, "A" [style+=style(b)] "B"), (3, b as u64)),
        32 => (term_write!(m, "A" [style-=style(b)] "B"), (4, b as u64)),
        33 => (term_write!(m, "A" [theme=theme(Attr { fg: f as u32, bg: 3, style: b })] "B"), (7, f as u64 * 1000 + 300 + b as u64)),
        34 => (term_write!(m, "A" (: x) "B"), (8, 0x37)),
        35 => (term_write!(m, "A" (? "q") "B"), (8, 0x227122)),
        36 => (term_write!(m, "A" ("{}-{}", x, 'k') "B"), (8, 0x372d6b)),
        37 => (term_write!(m, "A" ("w") "B"), (8, 0x77)),
        38 => (term_write!(m, "A" "lit" "B"), (8, 0x6c6974)),
        39 => (term_write!(m, "A" ("{0}{0}", 'u') "B"), (8, 0x7575)),
        40 => (term_write!(m, "A" ("{:02}", x) "B"), (8, 0x3037)),
        _ => return,
    };
    let calls = [(8, 0x41), e, (8, 0x42)];
    sym::check(r.is_err() == (fail_at < 3), "P23 result");
    sym::check(mock.n == if fail_at < 3 { fail_at + 1 } else { 3 }, "P23 stops at the first failure");
    for i in 0..mock.n { sym::check(mock.calls[i] == calls[i], "P23 element"); }
}
pub fn p23_lines() {
    let fail_at = sym::small(4, "fail_at");
    let mut mock = Mock { calls: [(0, 0); 6], n: 0, fail_at };
    let m = &mut mock;
    let f = sym::small(9, "f");
    let b = sym::bits(4, "b") as u32;
    let x = 7;
    let (r, e): (std::io::Result<()>, (u64, u64)) = match sym::choose(ELEMS, "elem") {
        0 => (term_writeln!(m, [black] "B"), (1, 0)),
        1 => (term_writeln!(m, [#black] "B"), (2, 0)),
        2 => (term_writeln!(m, [red] "B"), (1, 1)),
        3 => (term_writeln!(m, [#red] "B"), (2, 1)),
        4 => (term_writeln!(m, [green] "B"), (1, 2)),
        5 => (term_writeln!(m, [#green] "B"), (2, 2)),
        6 => (term_writeln!(m, [yellow] "B"), (1, 3)),
        7 => (term_writeln!(m, [#yellow] "B"), (2, 3)),
        8 => (term_writeln!(m, [blue] "B"), (1, 4)),
        9 => (term_writeln!(m, [#blue] "B"), (2, 4)),
        10 => (term_writeln!(m, [magenta] "B"), (1, 5)),
        11 => (term_writeln!(m, [#magenta] "B"), (2, 5)),
        12 => (term_writeln!(m, [cyan] "B"), (1, 6)),
        13 => (term_writeln!(m, [#cyan] "B"), (2, 6)),
        14 => (term_writeln!(m, [white] "B"), (1, 7)),
        15 => (term_writeln!(m, [#white] "B"), (2, 7)),
        16 => (term_writeln!(m, [bold] "B"), (3, 1)),
        17 => (term_writeln!(m, [!bold] "B"), (4, 1)),
        18 => (term_writeln!(m, [italic] "B"), (3, 2)),
        19 => (term_writeln!(m, [!italic] "B"), (4, 2)),
        20 => (term_writeln!(m, [reverse] "B"), (3, 4)),
        21 => (term_writeln!(m, [!reverse] "B"), (4, 4)),
        22 => (term_writeln!(m, [underline] "B"), (3, 8)),
        23 => (term_writeln!(m, [!underline] "B"), (4, 8)),
        24 => (term_writeln!(m, [reset] "B"), (5, 0)),
        25 => (term_writeln!(m, [!fg] "B"), (1, 8)),
        26 => (term_writeln!(m, [!bg] "B"), (2, 8)),
        27 => (term_writeln!(m, [!style] "B"), (6, 0)),
        28 => (term_writeln!(m, [fg=color(f)] "B"), (1, f as u64)),
        29 => (term_writeln!(m, [bg=color(f)] "B"), (2, f as u64)),
        30 => (term_writeln!(m, [style=style(b)] "B"), (6, b as u64)),
        31 => (term_writeln!(m, [style+=style(b)] "B"), (3, b as u64)),
        32 => (term_writeln!(m, [style-=style(b)] "B"), (4, b as u64)),
        33 => (term_writeln!(m, [theme=theme(Attr { fg: f as u32, bg: 3, style: b })] "B"), (7, f as u64 * 1000 + 300 + b as u64)),
        34 => (term_writeln!(m, (: x) "B"), (8, 0x37)),
        35 => (term_writeln!(m, (? "q") "B"), (8, 0x227122)),
        36 => (term_writeln!(m, ("{}-{}", x, 'k') "B"), (8, 0x372d6b)),
        37 => (term_writeln!(m, ("w") "B"), (8, 0x77)),
        38 => (term_writeln!(m, "lit" "B"), (8, 0x6c6974)),
        39 => (term_writeln!(m, ("{0}{0}", 'u') "B"), (8, 0x7575)),
        40 => (term_writeln!(m, ("{:02}", x) "B"), (8, 0x3037)),
        _ => return,
    };
    let calls = [e, (8, 0x42), (8, 10)];
    sym::check(r.is_err() == (fail_at < 3), "P23 result");
    sym::check(mock.n == if fail_at < 3 { fail_at + 1 } else { 3 }, "P23 stops at the first failure");
    for i in 0..mock.n { sym::check(mock.calls[i] == calls[i], "P23 element"); }
}
/// the same on the real interfaces
pub fn p23_term() {
    let mut t = open(2, 12);
    let a0 = sym_attr();
    t.t.set_theme(theme(a0)).unwrap();
    let f = sym::small(9, "f");
    let b = sym::bits(4, "b") as u32;
    let x = sym::bits(3, "x") as u32;
    let c = ch(0x61 + x);
    let r = if sym::choose(2, "guard") == 1 {
        let mut g = t.t.lock_write().unwrap();
        term_write!(g, (: c) [fg=color(f)] [style-=style(b)] "m" [bold] [#blue] ("{}", c) [reset] "z")
    } else {
        term_write!(t.t, (: c) [fg=color(f)] [style-=style(b)] "m" [bold] [#blue] ("{}", c) [reset] "z")
    };
    sym::check(r.is_ok(), "P23 terminal");
    t.sync();
    let a1 = Attr { fg: f as u32, bg: a0.bg, style: a0.style & !b };
    let a2 = Attr { fg: f as u32, bg: 4, style: a1.style | 1 };
    let cc = c as u32;
    for (i, (k, a)) in [(cc, a0), (0x6d, a1), (cc, a2), (0x7a, PLAIN)].into_iter().enumerate() {
        sym::check(t.v.cell[0][i].ch[0] == k && t.v.cell[0][i].attr == supported(a), "P23 terminal");
    }
    sym::check(!t.v.bad && t.v.c == 4, "P23 terminal");
}
pub fn p23_screen() {
    let mut t = crate::h_screen::open(2, 6);
    let a0 = sym_attr();
    t.set_theme(a0);
    let f = sym::small(9, "f");
    let b = sym::bits(4, "b") as u32;
    let c = ch(0x61 + sym::bits(3, "x") as u32);
    if sym::choose(2, "guard") == 1 {
        let mut g = t.s.lock_write().unwrap();
        term_write!(g, (: c) [bg=color(f)] [style+=style(b)] "m" [theme=theme(ATTRS[1])] ("{}", c) [reset] "z");
        term_writeln!(g);
    } else {
        term_write!(t.s, (: c) [bg=color(f)] [style+=style(b)] "m" [theme=theme(ATTRS[1])] ("{}", c) [reset] "z");
        term_writeln!(t.s);
    }
    t.sync();
    let cc = c as u32;
    t.r.put(cc, 1);
    t.r.attr = Attr { fg: a0.fg, bg: f as u32, style: a0.style | b };
    t.r.put(0x6d, 1);
    t.r.attr = ATTRS[1];
    t.r.put(cc, 1);
    t.r.attr = PLAIN;
    t.r.put(0x7a, 1);
    t.r.put(10, 1);
    t.refresh();
    t.check_content("P23 screen");
    t.check_cursor("P23 screen");
}
