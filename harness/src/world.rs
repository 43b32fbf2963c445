//! World model behind the `libc` stand-in: one terminal device, the process's signal
//! dispositions, and a script of input.  Faults and partial results are symbolic.
use crate::{sym, vt};
use libc::{c_int, sigaction, termios};

pub const OUT: usize = 40960;
pub const INP: usize = 320;

#[derive(Clone, Copy, PartialEq)]
pub enum Ev { None, Data(usize), Signal(c_int), Hang }

pub struct World {
    pub errno: c_int,
    /// one bit for each descriptor used for input (and settings), for output (and the size)
    pub used_in: u64,
    pub used_out: u64,
    /// descriptors closed; closes of something that was not open
    pub closed: [c_int; 8],
    pub closes: usize,
    pub bad_closes: usize,
    /// uses of a descriptor after it was closed
    pub late_uses: usize,
    // ---- output side
    pub out: [u8; OUT],
    pub out_len: usize,
    pub writes: usize,
    /// number of write(2) calls that may still misbehave (symbolically)
    pub wfaults: usize,
    /// kinds of write faults allowed: bit0 partial, bit1 EINTR, bit2 EIO, bit3 zero
    pub wkinds: u32,
    pub wfailed: usize,
    /// number of the last write(2) call that failed
    pub wfailed_at: usize,
    pub wlast_errno: c_int,
    // ---- window size
    pub rows: u16,
    pub cols: u16,
    pub size_fail: bool,
    pub sizes: usize,
    pub size_fail_at: usize,
    // ---- termios
    pub tio: termios,
    pub tcget_fail: bool,
    /// index of the tcsetattr call that fails (usize::MAX: none)
    pub tcset_fail_at: usize,
    pub tcset_calls: usize,
    pub tcset_fd: c_int,
    // ---- signals
    pub act: [sigaction; 32],
    pub sa_fail_at: usize,
    pub sa_calls: usize,
    // ---- input
    pub inp: [u8; INP],
    pub inp_len: usize,
    pub inp_pos: usize,
    /// bytes that have "arrived" (readable now)
    pub avail: usize,
    /// per-read cap (0: none)
    pub read_cap: usize,
    pub reads: usize,
    pub read_err: c_int,
    pub read_err_at: usize,
    /// standard streams that are no terminals
    pub not_tty: u32,
    pub waits: usize,
    /// seconds and microseconds asked for; (-1, 0): forever
    pub last_wait: [i64; 2],
    /// how long an interrupted wait lasted
    pub wait_elapsed: [i64; 2],
    /// seconds and microseconds spent in each wait so far (added up only when somebody asks for the time)
    pub passed: [[i64; 2]; 256],
    pub npassed: usize,
    /// called at each wait, before deciding: may deliver input or signals; returns an errno (>0) to fail with, 0 otherwise
    pub on_wait: Option<fn() -> c_int>,
    pub on_read: Option<fn() -> c_int>,
    pub on_write: Option<fn(n: usize) -> isize>,
    /// takes over write(2) completely: sees the very buffer passed, nothing is copied
    pub raw_write: Option<fn(buf: *const u8, n: usize) -> isize>,
}

pub static mut W: World = unsafe { std::mem::zeroed() };
#[allow(static_mut_refs)]
pub fn w() -> &'static mut World { unsafe { &mut W } }

pub fn init(rows: u16, cols: u16) {
    let t = std::env::var("TERM").unwrap_or_default();
    unsafe { vt::ITALIC = t.starts_with("xterm"); vt::COLOR = t != "vt100"; }
    let w = w();
    w.rows = rows;
    w.cols = cols;
    w.tcset_fail_at = usize::MAX;
    w.sa_fail_at = usize::MAX;
    w.size_fail_at = usize::MAX;
    w.read_err_at = usize::MAX;
    w.tio.c_lflag = libc::ISIG | libc::ICANON | libc::ECHO | libc::ECHOE | libc::ECHOK | libc::IEXTEN;
    w.tio.c_iflag = libc::ICRNL | libc::IXON | libc::BRKINT;
    w.tio.c_oflag = libc::OPOST | libc::ONLCR;
    w.tio.c_cflag = libc::CS8 | libc::CREAD;
    w.tio.c_cc[libc::VMIN] = 1;
}

pub fn output() -> &'static [u8] { let w = w(); &w.out[..w.out_len] }
pub fn clear_output() { w().out_len = 0; }

/// deliver a signal to the process, as the kernel would
pub fn deliver(sig: c_int) -> bool {
    let a = &w().act[sig as usize];
    let h = a.sa_sigaction;
    if h == libc::SIG_DFL || h == libc::SIG_IGN { return false; }
    let f: extern "C" fn(c_int) = unsafe { std::mem::transmute(h) };
    f(sig);
    true
}
pub fn handled(sig: c_int) -> bool { let h = w().act[sig as usize].sa_sigaction; h != libc::SIG_DFL && h != libc::SIG_IGN }

#[no_mangle]
extern "C" fn m_errno() -> *mut c_int { &mut w().errno }

/// a descriptor that was opened by path and has been closed since
fn gone(fd: c_int) -> bool {
    if fd <= 2 || unsafe { libc::fcntl(fd, libc::F_GETFL) } >= 0 { return false; }
    w().late_uses += 1;
    w().errno = libc::EBADF;
    true
}
fn emit(buf: *const u8, n: usize) {
    let w = w();
    if w.out_len + n > OUT { sym::fail("HARNESS: output log overflow") }
    unsafe { std::ptr::copy_nonoverlapping(buf, w.out.as_mut_ptr().add(w.out_len), n); }
    w.out_len += n;
}

/// any error the system may report other than an interruption
fn any_errno() -> c_int {
    let e = sym::u8("errno") as c_int;
    sym::assume(e >= 1 && e <= 133 && e != 41 && e != 58 && e != libc::EINTR);
    e
}

#[no_mangle]
extern "C" fn m_write(fd: c_int, buf: *const u8, n: usize) -> isize {
    let w = w();
    w.used_out |= 1 << (fd & 63);
    if gone(fd) { return -1; }
    w.writes += 1;
    if let Some(f) = w.raw_write {
        let r = f(buf, n);
        if r < 0 { w.errno = -r as c_int; return -1; }
        return r;
    }
    if let Some(f) = w.on_write {
        let r = f(n);
        if r >= 0 { emit(buf, r as usize); } else { w.errno = -r as c_int; return -1; }
        return r;
    }
    if w.writes > 2000 { sym::fail("write loop does not terminate") }
    if w.wfaults > 0 && n > 0 {
        // a symbolic fault: 0 none, 1 short, 2 interrupted, 3 error, 4 nothing written
        let c = sym::small(5, "wfault");
        sym::assume(c == 0 || w.wkinds & (1 << (c - 1)) != 0);
        if c > 0 {
            w.wfaults -= 1;
            if c == 1 {
                // a short write of every possible length 1..n-1 (long buffers: both ends and one in between)
                sym::assume(n > 1);
                let m = if n <= 12 { 1 + sym::small(n - 1, "wlen") } else { [1, 2, n / 2, n - 1][sym::small(4, "wlen")] };
                emit(buf, m);
                return m as isize;
            }
            if c == 2 { w.errno = libc::EINTR; return -1; }
            w.wfailed += 1;
            w.wfailed_at = w.writes;
            if c == 3 { let e = any_errno(); w.errno = e; w.wlast_errno = e; return -1; }
            w.wlast_errno = 0;
            return 0;
        }
    }
    emit(buf, n);
    n as isize
}

#[no_mangle]
extern "C" fn m_winsize(fd: c_int, p: *mut u16) -> c_int {
    let w = w();
    w.used_out |= 1 << (fd & 63);
    if gone(fd) { return -1; }
    if no_tty(fd) { w.errno = libc::ENOTTY; return -1; }
    let k = w.sizes;
    w.sizes += 1;
    if w.size_fail || k == w.size_fail_at { w.errno = any_errno(); return -1; }
    unsafe { *p = w.rows; *p.add(1) = w.cols; }
    0
}

#[no_mangle]
extern "C" fn m_tcgetattr(fd: c_int, p: *mut termios) -> c_int {
    let w = w();
    w.used_in |= 1 << (fd & 63);
    if gone(fd) { return -1; }
    if w.tcget_fail { w.errno = any_errno(); return -1; }
    unsafe { *p = w.tio; }
    0
}
#[no_mangle]
extern "C" fn m_isatty(fd: c_int) -> c_int {
    if no_tty(fd) { w().errno = libc::ENOTTY; 0 } else { 1 }
}
fn no_tty(fd: c_int) -> bool { fd >= 0 && fd <= 2 && w().not_tty >> fd & 1 != 0 }
#[no_mangle]
extern "C" fn m_tcsetattr(fd: c_int, _act: c_int, p: *const termios) -> c_int {
    let w = w();
    w.used_in |= 1 << (fd & 63);
    if gone(fd) { return -1; }
    let k = w.tcset_calls;
    w.tcset_calls += 1;
    if k == w.tcset_fail_at { w.errno = any_errno(); return -1; }
    w.tcset_fd = fd;
    w.tio = unsafe { *p };
    0
}
#[no_mangle]
extern "C" fn m_sigaction(s: c_int, n: *const sigaction, o: *mut sigaction) -> c_int {
    let w = w();
    if s <= 0 || s >= 32 { w.errno = libc::EINVAL; return -1; }
    if !n.is_null() {
        let k = w.sa_calls;
        w.sa_calls += 1;
        if k == w.sa_fail_at { w.errno = any_errno(); return -1; }
    }
    unsafe {
        if !o.is_null() { *o = w.act[s as usize]; }
        if !n.is_null() { w.act[s as usize] = *n; }
    }
    0
}

#[no_mangle]
extern "C" fn m_wait(fd: c_int, t: *mut [i64; 2]) -> c_int {
    let w = w();
    w.used_in |= 1 << (fd & 63);
    if gone(fd) { return -1; }
    let t = unsafe { &mut *t };
    w.waits += 1;
    w.last_wait = *t;
    if w.waits > 200 { sym::fail("wait loop does not terminate") }
    if fd < 0 { w.errno = libc::EINVAL; return -1; }
    if let Some(f) = w.on_wait {
        let e = f();
        // Linux leaves the remaining time in the timeout
        if t[0] >= 0 {
            t[0] -= w.wait_elapsed[0];
            t[1] -= w.wait_elapsed[1];
            if t[1] < 0 { t[0] -= 1; t[1] += 1_000_000; }
        }
        pass(w.wait_elapsed);
        w.wait_elapsed = [0; 2];
        if e > 0 { w.errno = e; return -1; }
    }
    if w.inp_pos < w.avail { return 1; }
    if t[0] < 0 { sym::fail("HARNESS: blocking forever") }
    // the full timeout elapses
    pass(*t);
    *t = [0; 2];
    0
}
/// time passes
fn pass(t: [i64; 2]) { let w = w(); if w.npassed < 256 { w.passed[w.npassed] = t; w.npassed += 1; } }
/// any clock: time passes only while waiting
#[no_mangle]
extern "C" fn clock_gettime(_clock: c_int, t: *mut [i64; 2]) -> c_int {
    let mut n = [0i64; 2];
    for i in 0..w().npassed {
        let p = w().passed[i];
        n[0] = n[0].saturating_add(p[0]);
        n[1] += p[1];
        if n[1] >= 1_000_000 { n[0] = n[0].saturating_add(1); n[1] -= 1_000_000; }
    }
    unsafe { *t = [n[0], n[1] * 1000]; }
    0
}

#[no_mangle]
extern "C" fn m_read(fd: c_int, buf: *mut u8, n: usize) -> isize {
    let w = w();
    w.used_in |= 1 << (fd & 63);
    if gone(fd) { return -1; }
    let k = w.reads;
    w.reads += 1;
    if w.reads > 200 { sym::fail("read loop does not terminate") }
    if let Some(f) = w.on_read {
        let e = f();
        if e > 0 { w.errno = e; return -1; }
    }
    if k == w.read_err_at { w.errno = w.read_err; return -1; }
    let mut m = (w.avail - w.inp_pos).min(n);
    if w.read_cap != 0 && m > w.read_cap { m = w.read_cap; }
    unsafe { std::ptr::copy_nonoverlapping(w.inp.as_ptr().add(w.inp_pos), buf, m); }
    w.inp_pos += m;
    m as isize
}

/// takes the place of libc's close, for the standard library as well
#[no_mangle]
extern "C" fn close(fd: c_int) -> c_int {
    let w = w();
    if w.closes < 8 { w.closed[w.closes] = fd; }
    w.closes += 1;
    // the process's own descriptors stay open
    if fd >= 0 && fd <= 2 { return 0; }
    if unsafe { libc::syscall(libc::SYS_close, fd) } < 0 { w.bad_closes += 1; return -1; }
    0
}
/// the descriptor the next open will return
pub fn next_fd() -> c_int {
    use std::os::fd::AsRawFd;
    let f = std::fs::File::open("/dev/null").unwrap();
    f.as_raw_fd()
}
