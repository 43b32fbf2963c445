//! Interface to the symbolic executor.  In the native build (feature "native") the
//! same functions replay one recorded assignment against the really compiled code.
extern "C" {
    fn __sym_var(bits: u64, name: *const u8, len: usize) -> u64;
    fn __sym_choose(n: u64, name: *const u8, len: usize) -> u64;
    fn __sym_assume(b: u32);
    fn __sym_assert(b: u32, label: *const u8, len: usize);
    fn __sym_conc(x: u64) -> u64;
    fn __sym_trace(tag: u32, v: u64);
    fn __sym_cover(label: *const u8, len: usize);
    fn __sym_fail(label: *const u8, len: usize) -> !;
    fn __sym_exit() -> !;
    fn __sym_spawn(f: usize, arg: usize) -> u64;
    fn __sym_yield();
    fn __sym_join_all();
    fn __sym_tid() -> u64;
}

fn var(bits: u64, n: &str) -> u64 { unsafe { __sym_var(bits, n.as_ptr(), n.len()) } }
pub fn bits(w: u32, n: &str) -> u64 { var(w as u64, n) }
pub fn boolean(n: &str) -> bool { var(1, n) == 1 }
pub fn u8(n: &str) -> u8 { var(8, n) as u8 }
pub fn u16(n: &str) -> u16 { var(16, n) as u16 }
pub fn u32(n: &str) -> u32 { var(32, n) as u32 }
pub fn u64(n: &str) -> u64 { var(64, n) }
pub fn usize(n: &str) -> usize { var(64, n) as usize }
/// case split into 0..n (every case is explored)
pub fn choose(n: usize, name: &str) -> usize { unsafe { __sym_choose(n as u64, name.as_ptr(), name.len()) as usize } }
/// a small integer 0..n as one symbolic value (no split)
pub fn small(n: usize, name: &str) -> usize {
    let mut w = 1;
    while (1usize << w) < n { w += 1; }
    let x = var(w, name) as usize;
    if n != 1 << w { assume(x < n); }
    x
}
pub fn assume(b: bool) { unsafe { __sym_assume(b as u32) } }
pub fn check(b: bool, label: &str) { unsafe { __sym_assert(b as u32, label.as_ptr(), label.len()) } }
pub fn conc(x: usize) -> usize { unsafe { __sym_conc(x as u64) as usize } }
pub fn trace(tag: u32, v: u64) { unsafe { __sym_trace(tag, v) } }
pub fn cover(l: &str) { unsafe { __sym_cover(l.as_ptr(), l.len()) } }
pub fn fail(l: &str) -> ! { unsafe { __sym_fail(l.as_ptr(), l.len()) } }
pub fn exit() -> ! { unsafe { __sym_exit() } }
pub fn spawn(f: extern "C" fn(usize), arg: usize) -> u64 { unsafe { __sym_spawn(f as usize, arg) } }
pub fn yield_now() { unsafe { __sym_yield() } }
pub fn join_all() { unsafe { __sym_join_all() } }
pub fn tid() -> u64 { unsafe { __sym_tid() } }

/// A panic anywhere in the code under check is reported under this label, unless the
/// harness announced it.
static mut PANIC_LABEL: &str = "panic";
static mut PANIC_OK: bool = false;
pub fn init() {
    std::panic::set_hook(Box::new(|_i| unsafe {
        #[cfg(feature = "native")]
        eprintln!("panic: {}", _i);
        if !PANIC_OK { fail(PANIC_LABEL) }
    }));
}
pub fn panic_label(l: &'static str) { unsafe { PANIC_LABEL = l } }
pub fn panic_ok(b: bool) { unsafe { PANIC_OK = b } }
pub fn panics_allowed() -> bool { unsafe { PANIC_OK } }

#[cfg(feature = "native")]
pub mod native {
    use std::cell::RefCell;
    use std::io::Write;
    use std::sync::Mutex;
    pub static INPUT: Mutex<Vec<(String, u64)>> = Mutex::new(Vec::new());
    thread_local! { static OUT: RefCell<Vec<String>> = RefCell::new(vec![]); }
    pub fn load(p: &str) {
        let s = std::fs::read_to_string(p).expect("replay file");
        let mut v = vec![];
        for l in s.lines() {
            if l.starts_with('#') || l.trim().is_empty() { continue; }
            let mut it = l.split_whitespace();
            let n = it.next().unwrap().to_string();
            let _w = it.next();
            v.push((n, it.next().unwrap().parse::<u64>().unwrap()));
        }
        v.reverse();
        *INPUT.lock().unwrap() = v;
    }
    fn name(p: *const u8, n: usize) -> String { unsafe { String::from_utf8_lossy(std::slice::from_raw_parts(p, n)).into_owned() } }
    fn next(n: String) -> u64 {
        match INPUT.lock().unwrap().pop() {
            Some((m, v)) => { if m != n { println!("REPLAY-DIVERGED wanted {} recorded {}", n, m); finish(91); } v }
            None => { println!("REPLAY-EXHAUSTED {}", n); finish(92) }
        }
    }
    pub fn finish(c: i32) -> ! { std::io::stdout().flush().unwrap(); unsafe { super::_exit_now(c) } }
    #[no_mangle] extern "C" fn __sym_var(bits: u64, p: *const u8, n: usize) -> u64 { let v = next(name(p, n)); if bits < 64 { v & ((1 << bits) - 1) } else { v } }
    #[no_mangle] extern "C" fn __sym_choose(k: u64, p: *const u8, n: usize) -> u64 { let v = next(name(p, n)); if v >= k { println!("REPLAY-DIVERGED choice"); finish(91) } v }
    #[no_mangle] extern "C" fn __sym_assume(b: u32) { if b & 1 == 0 { println!("ASSUME-FALSE"); finish(90) } }
    #[no_mangle] extern "C" fn __sym_assert(b: u32, p: *const u8, n: usize) { if b & 1 == 0 { println!("NATIVE-VIOLATION {}", name(p, n)); finish(101) } }
    #[no_mangle] extern "C" fn __sym_conc(x: u64) -> u64 { x }
    #[no_mangle] extern "C" fn __sym_trace(t: u32, v: u64) { println!("T {} {}", t, v); }
    #[no_mangle] extern "C" fn __sym_cover(_p: *const u8, _n: usize) {}
    #[no_mangle] extern "C" fn __sym_fail(p: *const u8, n: usize) -> ! { println!("NATIVE-VIOLATION {}", name(p, n)); finish(101) }
    #[no_mangle] extern "C" fn __sym_exit() -> ! { println!("NATIVE-DONE"); finish(0) }
    #[no_mangle] extern "C" fn __sym_spawn(_f: usize, _a: usize) -> u64 { println!("NO-THREADS"); finish(93) }
    #[no_mangle] extern "C" fn __sym_yield() {}
    #[no_mangle] extern "C" fn __sym_join_all() {}
    #[no_mangle] extern "C" fn __sym_tid() -> u64 { 0 }
}
#[cfg(feature = "native")]
extern "C" { #[link_name = "_exit"] pub fn _exit_now(c: i32) -> !; }
