//! Reference terminal: an independent interpreter of the byte stream the code under
//! check sends to the device (the ECMA-48 / xterm subset its terminfo entries use).
use crate::sym;

pub const ML: usize = 5;
pub const MC: usize = 12;
pub const CH: usize = 6;

#[derive(Clone, Copy, PartialEq, Eq)]
pub struct Attr { pub fg: u32, pub bg: u32, pub style: u32 } // colours 0..7, 8 = default; style bits: 1 bold 2 italic 4 reverse 8 underline
/// what the terminal type in use can show (set from TERM by `world::init`)
pub static mut ITALIC: bool = true;
pub static mut COLOR: bool = true;
pub fn supported(a: Attr) -> Attr {
    let (i, c) = unsafe { (ITALIC, COLOR) };
    Attr { fg: if c { a.fg } else { 8 }, bg: if c { a.bg } else { 8 }, style: if i { a.style } else { a.style & !2 } }
}
pub const PLAIN: Attr = Attr { fg: 8, bg: 8, style: 0 };

/// what is left of half a wide character
pub const HALF: u32 = 0x25e7;
#[derive(Clone, Copy)]
pub struct VCell { pub ch: [u32; CH], pub n: usize, pub attr: Attr, pub kind: u8 } // kind: 0 single, 1 wide lead, 2 wide continuation
pub const BLANK: VCell = VCell { ch: [32, 0, 0, 0, 0, 0], n: 1, attr: PLAIN, kind: 0 };

#[derive(Clone, Copy, PartialEq)]
enum P { Ground, Esc, Csi, EscInter, Utf(u8) }

pub struct Vt {
    pub lines: usize,
    pub cols: usize,
    pub cell: [[VCell; MC]; ML],
    pub l: usize,
    pub c: usize,
    pub pending: bool,
    pub attr: Attr,
    pub scrolled: bool,
    pub alt: bool,
    pub keypad: bool,
    pub kpam: bool,
    pub mouse: u32, // bit0 1002, bit1 1003, bit2 1006
    pub cursor_on: bool,
    pub top: usize,
    pub bot: usize,
    pub bad: bool,
    pub chars: usize,
    pub clears: usize,
    /// the line discipline turns newlines into returns and newlines
    pub onlcr: bool,
    p: P,
    priv_: bool,
    inter: bool,
    par: [u32; 8],
    np: usize,
    had: bool,
    u: u32,
}

/// display width of the characters the harnesses use
pub fn width(c: u32) -> usize {
    if c < 0x20 || c >= 0x7f && c < 0xa0 || c == 0x200b { return 0; }
    if c < 0x300 { return 1; }
    if c < 0x370 { return 0; }
    if c < 0x1100 { return 1; }
    if c >= 0x4e00 && c < 0xa000 || c >= 0xac00 && c < 0xd7a4 || c >= 0xff01 && c <= 0xff60 || c >= 0x1f300 && c < 0x1f600 || c >= 0x20000 && c < 0x30000 { 2 } else { 1 }
}

impl Vt {
    pub fn new(lines: usize, cols: usize) -> Vt {
        Vt { lines, cols, cell: [[BLANK; MC]; ML], l: 0, c: 0, pending: false, attr: PLAIN, scrolled: false, alt: false, keypad: false, kpam: false, mouse: 0, cursor_on: true,
            top: 0, bot: lines.wrapping_sub(1), bad: false, chars: 0, clears: 0, onlcr: false, p: P::Ground, priv_: false, inter: false, par: [0; 8], np: 0, had: false, u: 0 }
    }
    /// whatever was on the terminal before
    pub fn fill(&mut self, c: u32) {
        let mut g = BLANK; g.ch[0] = c;
        for l in 0..self.lines { for k in 0..self.cols { self.cell[l][k] = g; } }
    }
    pub fn feed(&mut self, b: &[u8]) { for &x in b { self.byte(x); } }

    fn byte(&mut self, b: u8) {
        match self.p {
            P::Ground => {
                if b >= 0x80 {
                    if b >= 0xf0 { self.u = (b & 7) as u32; self.p = P::Utf(3); }
                    else if b >= 0xe0 { self.u = (b & 15) as u32; self.p = P::Utf(2); }
                    else if b >= 0xc0 { self.u = (b & 31) as u32; self.p = P::Utf(1); }
                    else { self.bad = true; }
                } else if b >= 0x20 { if b == 0x7f { self.bad = true; } else { self.put(b as u32); } }
                else { match b {
                    0x1b => self.p = P::Esc,
                    b'\r' => { self.c = 0; self.pending = false; }
                    b'\n' => { if self.onlcr { self.c = 0; } self.lf(); }
                    8 => { if self.c > 0 { self.c -= 1; } self.pending = false; }
                    0x0f => (),
                    _ => self.bad = true,
                } }
            }
            P::Utf(k) => {
                if b & 0xc0 != 0x80 { self.bad = true; self.p = P::Ground; return; }
                self.u = self.u << 6 | (b & 0x3f) as u32;
                if k == 1 { self.p = P::Ground; let u = self.u; self.put(u); } else { self.p = P::Utf(k - 1); }
            }
            P::Esc => match b {
                b'[' => { self.p = P::Csi; self.priv_ = false; self.inter = false; self.par = [0; 8]; self.np = 0; self.had = false; }
                b'(' | b')' => self.p = P::EscInter,
                b'=' => { self.p = P::Ground; self.kpam = true; }
                b'>' => { self.p = P::Ground; self.kpam = false; }
                _ => { self.p = P::Ground; self.bad = true; }
            },
            P::EscInter => self.p = P::Ground,
            P::Csi => {
                if b >= b'0' && b <= b'9' { if self.np < 8 { self.par[self.np] = self.par[self.np].wrapping_mul(10).wrapping_add((b - b'0') as u32); } self.had = true; }
                else if b == b';' { self.np += 1; }
                else if b == b'?' || b == b'>' { self.priv_ = true; }
                else if b == b'!' || b == b' ' { self.inter = true; }
                else if b >= 0x40 && b < 0x7f { self.p = P::Ground; self.csi(b); }
                else { self.bad = true; self.p = P::Ground; }
            }
        }
    }

    fn p1(&self, i: usize) -> usize { let v = self.par[i] as usize; if v == 0 { 1 } else { v } }

    fn csi(&mut self, b: u8) {
        if self.inter { return; }
        if self.priv_ {
            if b == b'c' { return; }
            let on = b == b'h';
            if b != b'h' && b != b'l' { return; }
            for i in 0..=self.np.min(7) {
                match self.par[i] {
                    1049 | 47 | 1047 => { self.alt = on; }
                    1 => self.keypad = on,
                    1002 => self.set_mouse(0, on),
                    1003 => self.set_mouse(1, on),
                    1006 => self.set_mouse(2, on),
                    25 => self.cursor_on = on,
                    12 => (),
                    _ => self.bad = true,
                }
            }
            return;
        }
        match b {
            b'H' => {
                self.l = (self.p1(0) - 1).min(self.lines.saturating_sub(1)); self.c = (self.p1(1) - 1).min(self.cols.saturating_sub(1)); self.pending = false;
            }
            b'A' => { self.l = self.l.saturating_sub(self.p1(0)); self.pending = false; }
            b'B' => { self.l = (self.l + self.p1(0)).min(self.lines - 1); self.pending = false; }
            b'C' => { self.c = (self.c + self.p1(0)).min(self.cols - 1); self.pending = false; }
            b'D' => { self.c = self.c.saturating_sub(self.p1(0)); self.pending = false; }
            b'J' => {
                self.clears += 1;
                match self.par[0] {
                    3 => (),
                    1 => self.bad = true,
                    2 => for l in 0..self.lines { for c in 0..self.cols { self.cell[l][c] = BLANK; } },
                    _ => {
                        for c in self.c..self.cols { self.cell[self.l][c] = BLANK; }
                        for l in self.l + 1..self.lines { for c in 0..self.cols { self.cell[l][c] = BLANK; } }
                    }
                }
            }
            b'K' => { for c in self.c..self.cols { self.cell[self.l][c] = BLANK; } }
            b'r' => { if self.np >= 1 && (self.p1(1) < self.p1(0) || self.p1(1) > self.lines.max(1)) { self.bad = true; } self.top = self.p1(0) - 1; self.bot = (if self.np >= 1 { self.p1(1) } else { self.lines }) - 1; self.l = 0; self.c = 0; self.pending = false; }
            b't' => (),
            b'm' => {
                let n = self.np.min(7);
                for i in 0..=n {
                    let v = self.par[i];
                    if v >= 30 && v <= 37 { self.attr.fg = v - 30; }
                    else if v >= 40 && v <= 47 { self.attr.bg = v - 40; }
                    else { match v {
                        0 => self.attr = PLAIN,
                        1 => self.attr.style |= 1, 3 => self.attr.style |= 2, 7 => self.attr.style |= 4, 4 => self.attr.style |= 8,
                        22 => self.attr.style &= !1, 23 => self.attr.style &= !2, 27 => self.attr.style &= !4, 24 => self.attr.style &= !8,
                        39 => self.attr.fg = 8, 49 => self.attr.bg = 8,
                        _ => self.bad = true,
                    } }
                }
            }
            _ => self.bad = true,
        }
    }
    // 1002 and 1003 exclude each other; resetting either one ends mouse tracking
    fn set_mouse(&mut self, b: u32, on: bool) {
        if b == 2 { if on { self.mouse |= 4; } else { self.mouse &= !4; } }
        else { self.mouse &= 4; if on { self.mouse |= 1 << b; } }
    }

    fn lf(&mut self) {
        self.pending = false;
        if self.l + 1 < self.lines { self.l += 1; } else {
            self.scrolled = true;
            for l in 1..self.lines { self.cell[l - 1] = self.cell[l]; }
            self.cell[self.lines - 1] = [BLANK; MC];
        }
    }

    fn split(&mut self, l: usize, c: usize) {
        // overwriting one half of a wide character damages the other half; what is left there differs
        // between terminals, so nothing may rely on it
        let k = self.cell[l][c].kind;
        if k == 1 && c + 1 < self.cols { let a = self.cell[l][c + 1].attr; self.cell[l][c + 1] = BLANK; self.cell[l][c + 1].ch[0] = HALF; self.cell[l][c + 1].attr = a; }
        if k == 2 && c > 0 { let a = self.cell[l][c - 1].attr; self.cell[l][c - 1] = BLANK; self.cell[l][c - 1].ch[0] = HALF; self.cell[l][c - 1].attr = a; }
    }

    fn put(&mut self, ch: u32) {
        self.chars += 1;
        let w = width(ch);
        if w == 0 {
            // combining: joins the character before the cursor
            let mut c = if self.pending { self.c } else { if self.c == 0 { return; } self.c - 1 };
            if self.cell[self.l][c].kind == 2 { c -= 1; }
            let x = &mut self.cell[self.l][c];
            if x.n >= CH { sym::fail("HARNESS: combining overflow"); }
            x.ch[x.n] = ch;
            x.n += 1;
            return;
        }
        if self.pending { self.c = 0; self.lf(); }
        if w == 2 && self.cols < 2 { self.bad = true; return; }
        if self.c + w > self.cols { self.c = 0; self.lf(); }
        for i in 0..w { let (l, c) = (self.l, self.c); self.split(l, c + i); }
        let mut x = BLANK;
        x.ch[0] = ch;
        x.attr = self.attr;
        x.kind = (w == 2) as u8;
        self.cell[self.l][self.c] = x;
        if w == 2 { let mut y = BLANK; y.kind = 2; y.attr = self.attr; self.cell[self.l][self.c + 1] = y; }
        if self.c + w >= self.cols { self.c = self.cols - 1; self.pending = true; } else { self.c += w; self.pending = false; }
    }

    /// a new window size: content is unspecified until the application redraws
    pub fn resize(&mut self, lines: usize, cols: usize, garbage: u32) {
        self.lines = lines; self.cols = cols;
        let mut g = BLANK; g.ch[0] = garbage;
        for l in 0..lines { for c in 0..cols { self.cell[l][c] = g; } }
        self.l = self.l.min(lines - 1); self.c = self.c.min(cols - 1);
        self.pending = false;
        self.top = 0; self.bot = lines - 1;
    }
}

/// width of the escape for keypad transmit: DECCKM (mode 1) is part of xterm's smkx/rmkx
pub fn same_cell(a: &VCell, b: &VCell) -> bool {
    if a.kind != b.kind || a.n != b.n { return false; }
    let mut e = a.attr == b.attr;
    for i in 0..a.n { e &= a.ch[i] == b.ch[i]; }
    e
}
