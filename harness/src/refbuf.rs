//! Reference model of the screen buffer: what a user is told a `Screen` contains
//! after a sequence of writes (independent of the code under check).
use crate::vt::{Attr, Vt, BLANK, CH, MC, ML, PLAIN, VCell, supported};
use crate::sym;

#[derive(Clone, Copy)]
pub struct RefBuf {
    pub lines: usize,
    pub cols: usize,
    pub cell: [[VCell; MC]; ML],
    pub any: [[bool; MC]; ML], // attributes of this blank are unspecified
    pub l: usize,
    pub c: usize,
    pub attr: Attr,
}

impl RefBuf {
    pub fn new(lines: usize, cols: usize) -> RefBuf { RefBuf { lines, cols, cell: [[BLANK; MC]; ML], any: [[false; MC]; ML], l: 0, c: 0, attr: PLAIN } }
    pub fn inb(&self) -> bool { self.l < self.lines && self.c < self.cols }
    fn blank_partner(&mut self, l: usize, c: usize) {
        let k = self.cell[l][c].kind;
        if k == 1 && c + 1 < self.cols { self.cell[l][c + 1] = BLANK; self.any[l][c + 1] = true; }
        if k == 2 && c > 0 { self.cell[l][c - 1] = BLANK; self.any[l][c - 1] = true; }
    }
    fn set(&mut self, l: usize, c: usize, ch: u32, kind: u8) {
        self.blank_partner(l, c);
        let mut x = BLANK;
        x.ch[0] = ch; x.attr = self.attr; x.kind = kind;
        self.cell[l][c] = x;
        self.any[l][c] = false;
    }
    fn advance(&mut self, w: usize) {
        self.c += w;
        if self.c >= self.cols { self.c = 0; self.l += 1; }
    }
    /// false: the write fell outside the buffer (the rest of the string is dropped)
    pub fn put(&mut self, ch: u32, w: usize) -> bool {
        match ch {
            // non-printable characters are ignored
            c if (c < 32 && c != 9 && c != 10 && c != 13) || (c >= 0x7f && c < 0xa0) || c == 0x200b => true,
            9 => {
                if !self.inb() { return false; }
                let n = (self.cols - self.c).min(8 - self.c % 8);
                for _ in 0..n { let (l, c) = (self.l, self.c); self.set(l, c, 32, 0); self.advance(1); }
                true
            }
            13 => { self.c = 0; true }
            10 => { self.l = self.l.saturating_add(1); self.c = 0; true }
            _ if w == 0 => {
                // combining mark: joins the previous cell, if there is one inside the buffer
                let (l, mut c) = if self.c == 0 { if self.l == 0 { return true; } (self.l - 1, self.cols.wrapping_sub(1)) } else { (self.l, self.c - 1) };
                if l >= self.lines || c >= self.cols { return false; }
                if self.cell[l][c].kind == 2 { c -= 1; }
                let x = &mut self.cell[l][c];
                if x.n >= CH { sym::assume(false); }
                x.ch[x.n] = ch;
                x.n += 1;
                true
            }
            _ => {
                if !self.inb() { return false; }
                if w > self.cols { return false; }
                if self.c + w > self.cols {
                    while self.c < self.cols { let (l, c) = (self.l, self.c); self.set(l, c, 32, 0); self.c += 1; }
                    self.c = 0; self.l += 1;
                    if !self.inb() { return false; }
                }
                let (l, c) = (self.l, self.c);
                self.set(l, c, ch, (w == 2) as u8);
                if w == 2 { self.set_cont(l, c + 1); }
                self.advance(w);
                true
            }
        }
    }
    fn set_cont(&mut self, l: usize, c: usize) {
        let k = self.cell[l][c].kind;
        if k == 1 && c + 1 < self.cols { self.cell[l][c + 1] = BLANK; self.any[l][c + 1] = true; }
        let mut y = BLANK; y.kind = 2; y.attr = self.attr;
        self.cell[l][c] = y;
        self.any[l][c] = false;
    }
    pub fn clear(&mut self) { for l in 0..self.lines { for c in 0..self.cols { self.cell[l][c] = BLANK; self.any[l][c] = false; } } }
    pub fn resize(&mut self, lines: usize, cols: usize) {
        let (ol, oc) = (self.lines, self.cols);
        let old = self.cell;
        let olda = self.any;
        for l in 0..lines { for c in 0..cols {
            if l < ol && c < oc { self.cell[l][c] = old[l][c]; self.any[l][c] = olda[l][c]; } else { self.cell[l][c] = BLANK; self.any[l][c] = false; }
        } }
        self.lines = lines; self.cols = cols;
        // a wide character cut in half by the new right edge cannot be shown
        for l in 0..if cols > 0 { lines.min(ol) } else { 0 } { if self.cell[l][cols - 1].kind == 1 { self.cell[l][cols - 1] = BLANK; self.any[l][cols - 1] = true; } }
    }
    /// does the terminal show exactly this content?
    pub fn shown_by(&self, v: &Vt) -> bool {
        let mut ok = true;
        for l in 0..self.lines { for c in 0..self.cols {
            let (a, b) = (&self.cell[l][c], &v.cell[l][c]);
            if a.kind != b.kind || a.n != b.n { return false; }
            for i in 0..a.n { ok &= a.ch[i] == b.ch[i]; }
            if a.kind != 2 && !self.any[l][c] { let e = supported(a.attr); ok &= e.fg == b.attr.fg; ok &= e.bg == b.attr.bg; ok &= e.style == b.attr.style; }
        } }
        ok
    }
}
