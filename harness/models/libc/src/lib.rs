//! Stand-in for the `libc` crate: everything is the real crate, except the system
//! calls through which mortal touches the terminal, which go to the harness's world
//! model (symbols m_*).  No call made through this crate reaches a real terminal.
pub use real_libc::*;

extern "C" {
    fn m_errno() -> *mut c_int;
    fn m_write(fd: c_int, buf: *const u8, n: usize) -> isize;
    fn m_read(fd: c_int, buf: *mut u8, n: usize) -> isize;
    /// t: seconds and microseconds, (-1, 0) = infinite, replaced by the time left; returns bit0 readable, or -1 (errno set)
    fn m_wait(fd: c_int, t: *mut [i64; 2]) -> c_int;
    fn m_winsize(fd: c_int, p: *mut u16) -> c_int;
    fn m_tcgetattr(fd: c_int, p: *mut real_libc::termios) -> c_int;
    fn m_isatty(fd: c_int) -> c_int;
    fn m_tcsetattr(fd: c_int, act: c_int, p: *const real_libc::termios) -> c_int;
    fn m_sigaction(s: c_int, n: *const real_libc::sigaction, o: *mut real_libc::sigaction) -> c_int;
}

pub unsafe fn __errno_location() -> *mut c_int { m_errno() }
pub unsafe fn write(fd: c_int, buf: *const c_void, n: size_t) -> ssize_t { m_write(fd, buf as *const u8, n) }
pub unsafe fn read(fd: c_int, buf: *mut c_void, n: size_t) -> ssize_t { m_read(fd, buf as *mut u8, n) }
pub unsafe fn writev(fd: c_int, iov: *const iovec, n: c_int) -> ssize_t {
    let mut total = 0;
    for i in 0..n as usize {
        let v = &*iov.add(i);
        if v.iov_len == 0 { continue; }
        let r = m_write(fd, v.iov_base as *const u8, v.iov_len);
        if r < 0 { return if total > 0 { total } else { r }; }
        total += r;
        if (r as usize) < v.iov_len { break; }
    }
    total
}
pub unsafe fn ioctl<T>(fd: c_int, req: c_ulong, p: *mut T) -> c_int {
    if req == TIOCGWINSZ as c_ulong { m_winsize(fd, p as *mut u16) } else { *m_errno() = ENOTTY; -1 }
}
pub unsafe fn tcgetattr(fd: c_int, p: *mut termios) -> c_int { m_tcgetattr(fd, p) }
pub unsafe fn isatty(fd: c_int) -> c_int { m_isatty(fd) }
pub unsafe fn tcsetattr(fd: c_int, act: c_int, p: *const termios) -> c_int { m_tcsetattr(fd, act, p) }
pub unsafe fn sigaction(s: c_int, n: *const real_libc::sigaction, o: *mut real_libc::sigaction) -> c_int { m_sigaction(s, n, o) }
pub unsafe fn signal(s: c_int, h: sighandler_t) -> sighandler_t {
    let mut n: real_libc::sigaction = core::mem::zeroed();
    let mut o: real_libc::sigaction = core::mem::zeroed();
    n.sa_sigaction = h;
    n.sa_flags = SA_RESTART;
    if m_sigaction(s, &n, &mut o) < 0 { SIG_ERR } else { o.sa_sigaction }
}
pub unsafe fn select(n: c_int, r: *mut fd_set, w: *mut fd_set, e: *mut fd_set, t: *mut timeval) -> c_int {
    let mut left = [-1, 0];
    if !t.is_null() {
        if (*t).tv_sec < 0 || (*t).tv_usec < 0 || (*t).tv_usec >= 1_000_000 { *m_errno() = EINVAL; return -1; }
        left = [(*t).tv_sec, (*t).tv_usec];
    }
    let mut fd = -1;
    if !r.is_null() { for i in 0..n.min(1024) { if FD_ISSET(i, r) { fd = i; } } }
    let k = m_wait(fd, &mut left);
    if !t.is_null() { (*t).tv_sec = left[0]; (*t).tv_usec = left[1]; }
    if k < 0 { return -1; }
    if !w.is_null() { FD_ZERO(w); }
    if !e.is_null() { FD_ZERO(e); }
    if !r.is_null() { FD_ZERO(r); if k > 0 && fd >= 0 { FD_SET(fd, r); } }
    if k > 0 { 1 } else { 0 }
}
pub unsafe fn pselect(n: c_int, r: *mut fd_set, w: *mut fd_set, e: *mut fd_set, t: *const timespec, _m: *const sigset_t) -> c_int {
    if t.is_null() { return select(n, r, w, e, core::ptr::null_mut()); }
    let mut tv = timeval { tv_sec: (*t).tv_sec, tv_usec: ((*t).tv_nsec + 999) / 1000 };
    if tv.tv_usec >= 1_000_000 { tv.tv_sec += 1; tv.tv_usec -= 1_000_000; }
    select(n, r, w, e, &mut tv)
}
pub unsafe fn poll(f: *mut pollfd, n: nfds_t, ms: c_int) -> c_int {
    poll_us(f, n, if ms < 0 { [-1, 0] } else { [ms as i64 / 1000, ms as i64 % 1000 * 1000] })
}
pub unsafe fn ppoll(f: *mut pollfd, n: nfds_t, t: *const timespec, _m: *const sigset_t) -> c_int {
    let mut left = [-1, 0];
    if !t.is_null() {
        left = [(*t).tv_sec, ((*t).tv_nsec + 999) / 1000];
        if left[1] >= 1_000_000 { left = [left[0] + 1, left[1] - 1_000_000]; }
    }
    poll_us(f, n, left)
}
unsafe fn poll_us(f: *mut pollfd, n: nfds_t, mut left: [i64; 2]) -> c_int {
    let mut fd = -1;
    for i in 0..n as usize { let p = &mut *f.add(i); p.revents = 0; if p.events & POLLIN != 0 { fd = p.fd; } }
    let k = m_wait(fd, &mut left);
    if k < 0 { return -1; }
    if k > 0 { for i in 0..n as usize { let p = &mut *f.add(i); if p.fd == fd { p.revents = POLLIN; } } return 1; }
    0
}
pub unsafe fn sigemptyset(s: *mut sigset_t) -> c_int { *s = core::mem::zeroed(); 0 }
pub unsafe fn sigfillset(s: *mut sigset_t) -> c_int { core::ptr::write_bytes(s as *mut u8, 0xff, core::mem::size_of::<sigset_t>()); 0 }
pub unsafe fn sigaddset(s: *mut sigset_t, n: c_int) -> c_int { *(s as *mut u64) |= 1u64 << (n - 1); 0 }
pub unsafe fn sigdelset(s: *mut sigset_t, n: c_int) -> c_int { *(s as *mut u64) &= !(1u64 << (n - 1)); 0 }
pub unsafe fn sigismember(s: *const sigset_t, n: c_int) -> c_int { (*(s as *const u64) >> (n - 1) & 1) as c_int }
pub unsafe fn sigprocmask(_h: c_int, _s: *const sigset_t, o: *mut sigset_t) -> c_int { if !o.is_null() { *o = core::mem::zeroed(); } 0 }
pub unsafe fn pthread_sigmask(_h: c_int, _s: *const sigset_t, o: *mut sigset_t) -> c_int { if !o.is_null() { *o = core::mem::zeroed(); } 0 }
