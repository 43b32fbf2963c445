//! Preparing and restoring the terminal: exact settings, nesting, failures, sessions.
use crate::h_attr::open;
use crate::sym;
use crate::vt::Vt;
use crate::world::{self, w};
use libc::termios;
use mortal::*;
use std::time::Duration;

const IMASK: u32 = libc::IGNBRK | libc::BRKINT | libc::IGNPAR | libc::PARMRK | libc::INPCK | libc::ISTRIP | libc::INLCR | libc::IGNCR | libc::ICRNL | libc::IXON | libc::IXANY | libc::IXOFF | libc::IMAXBEL | libc::IUTF8;
const LMASK: u32 = libc::ISIG | libc::ICANON | libc::ECHO | libc::ECHOE | libc::ECHOK | libc::ECHONL | libc::NOFLSH | libc::TOSTOP | libc::ECHOCTL | libc::ECHOPRT | libc::ECHOKE | libc::IEXTEN;
const OMASK: u32 = libc::OPOST | libc::ONLCR | libc::OCRNL | libc::ONOCR | libc::ONLRET | libc::OFILL;
const CMASK: u32 = libc::CSIZE | libc::CSTOPB | libc::CREAD | libc::PARENB | libc::PARODD | libc::HUPCL | libc::CLOCAL;
const SIGS: [i32; 5] = [libc::SIGCONT, libc::SIGINT, libc::SIGTSTP, libc::SIGQUIT, libc::SIGWINCH];
const NAMES: [Signal; 5] = [Signal::Continue, Signal::Interrupt, Signal::Suspend, Signal::Quit, Signal::Resize];

extern "C" fn previous_handler(_: i32) {}

/// any terminal settings and signal dispositions
fn any_state() {
    let t = &mut w().tio;
    t.c_iflag = sym::u32("iflag") & IMASK;
    t.c_oflag = sym::u32("oflag") & OMASK;
    t.c_lflag = sym::u32("lflag") & LMASK;
    t.c_cflag = sym::u32("cflag") & CMASK;
    for i in 0..t.c_cc.len() { t.c_cc[i] = sym::u8("cc"); }
    for &s in &SIGS {
        let a = &mut w().act[s as usize];
        a.sa_flags = sym::u16("sa_flags") as i32;
        let k = sym::small(3, "disposition");
        a.sa_sigaction = if k == 0 { libc::SIG_DFL } else if k == 1 { libc::SIG_IGN } else { previous_handler as *const () as usize };
        unsafe { *(&mut a.sa_mask as *mut _ as *mut u64) = sym::u64("sa_mask"); }
    }
}
fn any_config(full: bool) -> PrepareConfig {
    let mut set = SignalSet::new();
    let b = if full { sym::bits(5, "report") } else { let b = sym::bits(2, "report"); b << 1 };
    for i in 0..5 { if b & (1 << i) != 0 { set.insert(NAMES[i]); } }
    PrepareConfig {
        block_signals: sym::boolean("block_signals"), enable_control_flow: sym::boolean("control_flow"), enable_keypad: sym::boolean("keypad"),
        enable_mouse: sym::boolean("mouse"), always_track_motion: sym::boolean("motion"), report_signals: set, ..PrepareConfig::default()
    }
}
fn is_xterm() -> bool { std::env::var("TERM").unwrap_or_default().starts_with("xterm") }
fn has_keypad() -> bool { let t = std::env::var("TERM").unwrap_or_default(); t.starts_with("xterm") || t == "vt100" }

/// everything about the terminal and the process that a session may change
#[derive(Clone, Copy)]
struct Snap { tio: termios, act: [libc::sigaction; 5], keypad: bool, kpam: bool, mouse: u32 }
fn snap(v: &mut Vt) -> Snap {
    v.feed(world::output());
    world::clear_output();
    sym::check(!v.bad, "P15 unknown control sequence");
    Snap { tio: w().tio, act: [0, 1, 2, 3, 4].map(|i| w().act[SIGS[i] as usize]), keypad: v.keypad, kpam: v.kpam, mouse: v.mouse }
}
fn same_tio(a: &termios, b: &termios) -> bool {
    let mut e = a.c_iflag == b.c_iflag && a.c_oflag == b.c_oflag && a.c_lflag == b.c_lflag && a.c_cflag == b.c_cflag && a.c_line == b.c_line;
    for i in 0..a.c_cc.len() { e &= a.c_cc[i] == b.c_cc[i]; }
    e
}
fn same_act(a: &libc::sigaction, b: &libc::sigaction) -> bool {
    let m = |x: &libc::sigaction| unsafe { *(&x.sa_mask as *const _ as *const u64) };
    a.sa_sigaction == b.sa_sigaction && a.sa_flags == b.sa_flags && m(a) == m(b)
}
fn check_same(a: &Snap, b: &Snap, labels: [&str; 3]) {
    sym::check(same_tio(&a.tio, &b.tio), labels[0]);
    let mut e = true;
    for i in 0..5 { e &= same_act(&a.act[i], &b.act[i]); }
    sym::check(e, labels[1]);
    sym::check(a.keypad == b.keypad && a.kpam == b.kpam && a.mouse == b.mouse, labels[2]);
}
const P16: [&str; 3] = ["P16 terminal settings restored", "P16 signal handlers restored", "P16 keypad and mouse modes restored"];

/// the state after a successful prepare, from the one before it
fn check_prepared(b: &Snap, n: &Snap, c: &PrepareConfig) {
    let mut t = b.tio;
    t.c_iflag &= !(libc::INLCR | libc::ICRNL | libc::IXON);
    if c.enable_control_flow { t.c_iflag |= libc::IXON; }
    t.c_lflag &= !(libc::ICANON | libc::ECHO | libc::ISIG);
    if !c.block_signals { t.c_lflag |= libc::ISIG; }
    t.c_cc[libc::VMIN] = 0;
    t.c_cc[libc::VTIME] = 0;
    sym::check(same_tio(&t, &n.tio), "P15 terminal settings");
    for i in 0..5 {
        let asked = i == 0 || i == 4 || c.report_signals.contains(NAMES[i]);
        if asked {
            let h = n.act[i].sa_sigaction;
            sym::check(h != libc::SIG_DFL && h != libc::SIG_IGN && h != previous_handler as *const () as usize, "P15 requested signals are handled");
            // interrupted system calls must not be restarted, or a waiting read would miss the signal
            sym::check(n.act[i].sa_flags & (libc::SA_RESTART | libc::SA_RESETHAND | libc::SA_SIGINFO) == 0, "P15 handler flags");
        } else {
            sym::check(same_act(&b.act[i], &n.act[i]), "P15 other signals are left alone");
        }
    }
    if c.enable_keypad && has_keypad() { sym::check(n.keypad && n.kpam, "P15 keypad mode"); }
    else { sym::check(n.keypad == b.keypad && n.kpam == b.kpam, "P15 keypad mode left alone"); }
    if c.enable_mouse && is_xterm() { sym::check(n.mouse == if c.always_track_motion { 6 } else { 5 }, "P15 mouse mode"); }
    else { sym::check(n.mouse == b.mouse, "P15 mouse mode left alone"); }
}
/// P15 and P16, one level
pub fn p15_one() {
    let mut t = open(2, 12);
    any_state();
    let b = snap(&mut t.v);
    let c = any_config(true);
    let st = t.t.prepare(c).unwrap();
    let n = snap(&mut t.v);
    check_prepared(&b, &n, &c);
    sym::check(w().tcset_calls == 1 && w().tcset_fd == 0, "P15 set once, on the input side");
    if sym::boolean("guard") { t.t.restore(st).unwrap(); } else { t.t.lock_read().unwrap().restore(st).unwrap(); }
    let a = snap(&mut t.v);
    check_same(&b, &a, P16);
}
/// the defaults that the documentation gives, and their effect
pub fn p15_default() {
    let mut t = open(2, 12);
    any_state();
    let b = snap(&mut t.v);
    let c = PrepareConfig::default();
    sym::check(c.block_signals && !c.enable_control_flow && c.enable_keypad && !c.enable_mouse && !c.always_track_motion && c.report_signals.is_empty(), "P15 default configuration");
    let st = t.t.prepare(PrepareConfig::default()).unwrap();
    let n = snap(&mut t.v);
    check_prepared(&b, &n, &c);
    t.t.restore(st).unwrap();
    let a = snap(&mut t.v);
    check_same(&b, &a, P16);
}
/// prepare with both guards held
pub fn p15_locks() {
    let mut t = open(2, 12);
    any_state();
    let b = snap(&mut t.v);
    let c = any_config(false);
    let st = {
        let mut r = t.t.lock_read().unwrap();
        let mut g = t.t.lock_write().unwrap();
        g.write_str("x").unwrap();
        let st = r.prepare_with_lock(&mut g, c).unwrap();
        g.write_str("y").unwrap();
        st
    };
    let n = snap(&mut t.v);
    sym::check(t.v.cell[0][0].ch[0] == 'x' as u32 && t.v.cell[0][1].ch[0] == 'y' as u32, "P15 other output");
    check_prepared(&b, &n, &c);
    {
        let mut r = t.t.lock_read().unwrap();
        let mut g = t.t.lock_write().unwrap();
        r.restore_with_lock(&mut g, st).unwrap();
    }
    let a = snap(&mut t.v);
    check_same(&b, &a, P16);
}
/// nested sessions, each undone exactly
fn p16(k: usize) {
    let mut t = open(2, 12);
    any_state();
    let mut snaps = vec![snap(&mut t.v)];
    let mut sts = vec![];
    let mut cfg = vec![];
    for _ in 0..k {
        let c = any_config(false);
        sts.push(t.t.prepare(c).unwrap());
        let n = snap(&mut t.v);
        check_prepared(&snaps[snaps.len() - 1], &n, &c);
        snaps.push(n);
        cfg.push(c);
    }
    while let Some(st) = sts.pop() {
        snaps.pop();
        cfg.pop();
        t.t.restore(st).unwrap();
        let a = snap(&mut t.v);
        check_same(&snaps[snaps.len() - 1], &a, P16);
        // the signals reported are again those of the outer session
        if let Some(c) = cfg.last() {
            let i = 1 + sym::small(2, "sig");
            let c: &PrepareConfig = c;
            let asked = c.report_signals.contains(NAMES[i]);
            if asked {
                world::deliver(SIGS[i]);
                let e = t.t.read_event(Some(Duration::from_millis(0)));
                sym::check(matches!(e, Ok(Some(Event::Signal(s))) if s == NAMES[i]), "P16 outer session reports its signals again");
            }
        }
    }
}
pub fn p16_two() { p16(2); }
/// after each restore a Continue prepares the terminal again exactly as the session which is then
/// the innermost asked, and what that one's own restore puts back is not affected
pub fn p16_continue() {
    let mut t = open(2, 12);
    any_state();
    let s0 = snap(&mut t.v);
    let a = any_config(false);
    let sa = t.t.prepare(a).unwrap();
    let s1 = snap(&mut t.v);
    let b = any_config(false);
    let sb = t.t.prepare(b).unwrap();
    let s2 = snap(&mut t.v);
    let inner = sym::choose(2, "inner") == 1;
    let mut sb = Some(sb);
    if !inner { t.t.restore(sb.take().unwrap()).unwrap(); }
    // the shell took the terminal back meanwhile
    snap(&mut t.v);
    w().tio = s0.tio;
    // (and turned the modes off, unless an outer session needs them afterwards, which nothing says again)
    if !inner { t.v.keypad = s0.keypad; t.v.kpam = s0.kpam; t.v.mouse = s0.mouse; }
    let l = ["P16 settings after continuing", "P16 handlers after continuing", "P16 modes after continuing"];
    if world::deliver(libc::SIGCONT) {
        let e = t.t.read_event(Some(Duration::from_millis(0)));
        let asked = if inner { b.report_signals.contains(Signal::Continue) } else { a.report_signals.contains(Signal::Continue) };
        sym::check(match e { Ok(Some(Event::Signal(Signal::Continue))) => asked, Ok(None) => !asked, _ => false }, "P16 Continue reported");
        t.t.lock_write().unwrap().flush().unwrap();
        let n = snap(&mut t.v);
        check_same(if inner { &s2 } else { &s1 }, &n, l);
    } else { sym::check(false, "P16 Continue is handled"); }
    if let Some(x) = sb {
        t.t.restore(x).unwrap();
        let n = snap(&mut t.v);
        check_same(&s1, &n, P16);
    }
    t.t.restore(sa).unwrap();
    let n = snap(&mut t.v);
    check_same(&s0, &n, P16);
}
pub fn p16_three() { p16(3); }

/// preparing again after Continue fails: the error is reported, and restoring still puts everything back
pub fn p17_continue() {
    let mut t = open(2, 12);
    any_state();
    let s0 = snap(&mut t.v);
    let a = any_config(false);
    let st = t.t.prepare(a).unwrap();
    snap(&mut t.v);
    w().tio = s0.tio;
    let step = sym::choose(6, "failing");
    sym::check(world::deliver(libc::SIGCONT), "P17 Continue is handled");
    match step {
        0 => w().tcget_fail = true,
        1 => w().tcset_fail_at = w().tcset_calls,
        2..=4 => w().sa_fail_at = w().sa_calls + step - 2,
        _ => { w().wfaults = 1; w().wkinds = 4 | 8; }
    }
    let (f, k) = (w().wfaults, w().sa_calls);
    let e = t.t.read_event(Some(Duration::from_millis(0)));
    let failed = match step { 0 | 1 => true, 2..=4 => w().sa_calls > k + step - 2, _ => w().wfaults < f };
    if failed { sym::check(e.is_err(), "P17 a failure to prepare again is reported"); }
    else { sym::check(matches!(e, Ok(None)) || a.report_signals.contains(Signal::Continue) && matches!(e, Ok(Some(Event::Signal(Signal::Continue)))), "P17 Continue"); }
    w().wfaults = 0; w().tcget_fail = false; w().tcset_fail_at = usize::MAX; w().sa_fail_at = usize::MAX;
    t.t.restore(st).unwrap();
    let n = snap(&mut t.v);
    check_same(&s0, &n, ["P17 settings restored", "P17 handlers restored", "P17 modes restored"]);
}

/// P17: a prepare that fails leaves everything as it was
fn p17_prepare(faults: usize, kinds: u32) {
    let mut t = open(2, 12);
    any_state();
    let outer = sym::boolean("outer");
    if outer { std::mem::forget(t.t.prepare(any_config(false)).unwrap()); }
    let b = snap(&mut t.v);
    let c = any_config(true);
    let step = sym::choose(8, "failing");
    match step {
        0 => w().tcget_fail = true,
        1 => w().tcset_fail_at = w().tcset_calls,
        2..=6 => w().sa_fail_at = w().sa_calls + step - 2,
        _ => { w().wfaults = faults; w().wkinds = kinds; }
    }
    let r = t.t.prepare(c);
    w().tcget_fail = false; w().tcset_fail_at = usize::MAX; w().sa_fail_at = usize::MAX;
    if step == 7 { sym::assume(w().wfaults < faults); }
    w().wfaults = 0;
    match r {
        Ok(st) => {
            sym::check(step != 0 && step != 1 && w().wfailed == 0, "P17 a failure is reported");
            t.t.lock_write().unwrap().flush().unwrap();
            let n = snap(&mut t.v);
            check_prepared(&b, &n, &c);
            t.t.restore(st).unwrap();
        }
        Err(_) => { sym::check(step < 7 || w().wfailed > 0, "P17 an error without a failure"); }
    }
    t.t.lock_write().unwrap().flush().unwrap();
    let a = snap(&mut t.v);
    check_same(&b, &a, ["P17 settings after a failed prepare", "P17 handlers after a failed prepare", "P17 modes after a failed prepare"]);
}
pub fn p17_prep() { p17_prepare(1, 1 | 2 | 4 | 8); }
pub fn p17_prep2() { p17_prepare(2, 2 | 4 | 8); }
/// a restore in which one step fails still does all the others, and says so
pub fn p17_restore() {
    let mut t = open(2, 12);
    any_state();
    let b = snap(&mut t.v);
    let c = any_config(true);
    let st = t.t.prepare(c).unwrap();
    let n = snap(&mut t.v);
    let step = sym::choose(7, "failing");
    match step {
        0 => w().tcset_fail_at = w().tcset_calls,
        1..=5 => w().sa_fail_at = w().sa_calls + step - 1,
        _ => { w().wfaults = 1; w().wkinds = 4 | 8; }
    }
    let sa0 = w().sa_calls;
    let r = t.t.restore(st);
    let sa_failed = step >= 1 && step <= 5 && w().sa_calls > sa0 + step - 1;
    w().tcset_fail_at = usize::MAX; w().sa_fail_at = usize::MAX; w().wfaults = 0;
    let failed = step == 0 || sa_failed || w().wfailed > 0;
    sym::check(r.is_err() == failed, "P17 a failure to restore is reported");
    t.t.lock_write().unwrap().flush().unwrap();
    let a = snap(&mut t.v);
    if step != 0 { sym::check(same_tio(&a.tio, &b.tio), "P17 settings restored in spite of a failure"); }
    else { sym::check(same_tio(&a.tio, &n.tio), "P17 settings"); }
    let mut kept = 0;
    for i in 0..5 { if !same_act(&a.act[i], &b.act[i]) { kept += 1; } }
    sym::check(kept <= sa_failed as usize, "P17 handlers restored in spite of a failure");
    sym::check(a.keypad == b.keypad && a.kpam == b.kpam && a.mouse == b.mouse, "P17 modes restored in spite of a failure");
}

// ---------------------------------------------------------------- sessions
struct Start { b: Snap, v: Vt }
fn start(l: u16, c: u16) -> Start {
    world::init(l, c);
    any_state();
    let mut v = Vt::new(l as usize, c as usize);
    let b = snap(&mut v);
    Start { b, v }
}
/// the very last write failed: what it carried cannot have arrived
fn last_write_failed() -> bool { w().wfailed > 0 && w().wfailed_at == w().writes }
fn check_end(s: &mut Start, labels: [&str; 3], screen: &str) {
    if last_write_failed() { sym::assume(false); }
    let a = snap(&mut s.v);
    check_same(&s.b, &a, labels);
    sym::check(!s.v.alt, screen);
    sym::check(s.v.cursor_on, "P18 cursor visible");
}
const P18: [&str; 3] = ["P18 terminal settings restored", "P18 signal handlers restored", "P18 modes restored"];
fn has_csr() -> bool { std::env::var("TERM").unwrap_or_default() != "dumb" }
fn has_alt() -> bool { is_xterm() }

/// a whole session: everything is as it was when the screen goes away
pub fn p18_drop() {
    let mut s = start(2, 3);
    let c = any_config(false);
    let scr = Screen::new(c).unwrap();
    let n = snap(&mut s.v);
    check_prepared(&s.b, &n, &c);
    sym::check(s.v.alt == has_alt(), "P18 alternate screen");
    if sym::boolean("invisible") { scr.set_cursor_mode(CursorMode::Invisible).unwrap(); }
    if sym::boolean("draw") { scr.write_styled(None, None, Style::BOLD, "ab"); scr.refresh().unwrap(); }
    // interrupted and short writes while leaving
    w().wfaults = 1; w().wkinds = 1 | 2;
    drop(scr);
    w().wfaults = 0;
    check_end(&mut s, P18, "P18 alternate screen left");
}
/// a write or a system call that fails while leaving: all the rest is still undone
pub fn p18_drop_fail() {
    let mut s = start(2, 3);
    let c = any_config(false);
    let scr = Screen::new(c).unwrap();
    scr.set_cursor_mode(CursorMode::Invisible).unwrap();
    let n = snap(&mut s.v);
    let step = sym::choose(7, "failing");
    let sa0 = w().sa_calls;
    match step {
        0 => w().tcset_fail_at = w().tcset_calls,
        1..=5 => w().sa_fail_at = sa0 + step - 1,
        _ => { w().wfaults = 1; w().wkinds = 4 | 8; }
    }
    drop(scr);
    w().wfaults = 0;
    if last_write_failed() { sym::assume(false); }
    let a = snap(&mut s.v);
    if step != 0 { sym::check(same_tio(&a.tio, &s.b.tio), "P18 settings restored in spite of a failure"); } else { sym::check(same_tio(&a.tio, &n.tio), "P18 settings"); }
    let mut kept = 0;
    for i in 0..5 { if !same_act(&a.act[i], &s.b.act[i]) { kept += 1; } }
    sym::check(kept <= (step >= 1 && step <= 5) as usize, "P18 handlers restored in spite of a failure");
    sym::check(a.keypad == s.b.keypad && a.kpam == s.b.kpam && a.mouse == s.b.mouse, "P18 modes restored in spite of a failure");
    sym::check(!s.v.alt, "P18 alternate screen left in spite of a failure");
    sym::check(s.v.cursor_on, "P18 cursor visible in spite of a failure");
}
/// a screen that cannot be opened leaves nothing behind
pub fn p18_open_fail() {
    let mut s = start(2, 3);
    let c = any_config(true);
    let step = sym::choose(9, "failing");
    // no screen on a dumb terminal: only one thing is to fail
    if !has_csr() { sym::assume(step < 3 || step == 8); }
    match step {
        0 => w().size_fail = true,
        1 => w().tcget_fail = true,
        2 => w().tcset_fail_at = 0,
        3..=7 => w().sa_fail_at = step - 3,
        _ => { w().wfaults = 1; w().wkinds = 4 | 8; }
    }
    let r = Screen::new(c);
    w().size_fail = false; w().tcget_fail = false; w().tcset_fail_at = usize::MAX; w().sa_fail_at = usize::MAX;
    let failed = r.is_err();
    sym::check(failed || step >= 3, "P18 a failure to open is reported");
    if step == 8 { sym::assume(w().wfaults == 0); }
    drop(r);
    w().wfaults = 0;
    let _ = failed;
    check_end(&mut s, ["P18 settings after a failed start", "P18 handlers after a failed start", "P18 modes after a failed start"], "P18 alternate screen after a failed start");
}
/// the size cannot be read the second time, when entering the screen
pub fn p18_size_fail() {
    let mut s = start(2, 3);
    static mut AT: usize = 0;
    unsafe { AT = w().sizes + sym::choose(2, "which"); }
    w().size_fail_at = unsafe { AT };
    let r = Screen::new(any_config(false));
    w().size_fail_at = usize::MAX;
    drop(r);
    check_end(&mut s, ["P18 settings after a failed start", "P18 handlers after a failed start", "P18 modes after a failed start"], "P18 alternate screen after a failed start");
}
/// a panic while a guard is held: the session is still undone
pub fn p18_panic() {
    let mut s = start(2, 3);
    let c = any_config(false);
    let how = sym::choose(5, "held");
    let fault = sym::choose(2, "write_fails") == 1;
    sym::panic_ok(true);
    let r = std::panic::catch_unwind(|| {
        let scr = Screen::new(c).unwrap();
        scr.set_cursor_mode(CursorMode::Invisible).unwrap();
        if how == 0 { panic!("no guard"); }
        if how == 1 { let mut g = scr.lock_write().unwrap(); g.write_str("ab"); panic!("write guard"); }
        if how == 2 { let _g = scr.lock_read().unwrap(); panic!("read guard"); }
        if how == 3 { let _r = scr.lock_read().unwrap(); let _g = scr.lock_write().unwrap(); panic!("both"); }
        if fault { w().wfaults = 1; w().wkinds = 4; }
        let mut g = scr.lock_write().unwrap();
        g.write_str("ab");
        g.refresh().unwrap();
        panic!("after a refresh");
    });
    sym::panic_ok(false);
    sym::check(r.is_err(), "P18 the panic");
    w().wfaults = 0;
    check_end(&mut s, ["P18 settings after a panic", "P18 handlers after a panic", "P18 modes after a panic"], "P18 alternate screen left after a panic");
}
/// a Terminal that goes away leaves the cursor visible, also after a panic with a guard held
pub fn p18_term() {
    use mortal::unix::OpenTerminalExt;
    world::init(2, 12);
    let mut v = Vt::new(2, 12);
    let t = if sym::choose(2, "by_path") == 0 { Terminal::new().unwrap() } else { Terminal::from_path(NULL).unwrap() };
    let m = [CursorMode::Invisible, CursorMode::Normal, CursorMode::Overwrite][sym::choose(3, "mode")];
    t.set_cursor_mode(m).unwrap();
    v.feed(world::output()); world::clear_output();
    let how = sym::choose(3, "how");
    w().wfaults = 1; w().wkinds = 1 | 2;
    sym::panic_ok(true);
    let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(move || {
        if how == 0 { drop(t); return; }
        if how == 1 { let t = t; let mut g = t.lock_write().unwrap(); g.write_str("ab").unwrap(); panic!("write guard"); }
        let t = t; let _g = t.lock_read().unwrap(); panic!("read guard");
    }));
    sym::panic_ok(false);
    v.feed(world::output());
    sym::check(v.cursor_on && !v.bad, "P18 cursor visible");
}

// ---------------------------------------------------------------- descriptors
const NULL: &str = "/dev/null";
fn is_input(m: u64, fd: i32, l: &str) { sym::check(m & !(1 << fd) == 0, l) }
/// everything a terminal does goes through the descriptors it was made for, which are closed
/// when it goes away if it opened them, and only then
pub fn p29_use() {
    use mortal::unix::{OpenTerminalExt, TerminalExt};
    world::init(2, 12);
    let how = sym::choose(3, "how");
    let screen = sym::choose(2, "screen") == 1;
    let fd = world::next_fd();
    w().closes = 0;
    // one system call may fail, or be short
    let fault = sym::choose(5, "fault");
    match fault { 1 => w().size_fail = true, 2 => w().tcget_fail = true, 3 => w().tcset_fail_at = sym::small(2, "tcset"), 4 => { w().wfaults = 1; w().wkinds = 1 | 4; } _ => () }
    // standard output and standard error may be redirected
    w().not_tty = (sym::bits(2, "redirected") as u32) << 1;
    let config = PrepareConfig { enable_mouse: sym::boolean("mouse"), enable_keypad: sym::boolean("keypad"), ..PrepareConfig::default() };
    let (i, o) = match how { 0 => (0, 1), 1 => (0, 2), _ => (fd, fd) };
    if how == 2 { sym::check(world::next_fd() == fd, "HARNESS: descriptors"); w().closes = 0; }
    let mut b = [0u8; 2];
    w().inp[0] = b'a'; w().inp[1] = b'b'; w().inp_len = 2; w().avail = 2;
    let z = Some(std::time::Duration::from_millis(1));
    let term = match how { 0 => Terminal::new(), 1 => Terminal::stderr(), _ => Terminal::from_path(NULL) };
    let term = term.unwrap();
    if how == 2 {
        sym::check(unsafe { libc::fcntl(fd, libc::F_GETFL) } & libc::O_ACCMODE == libc::O_RDWR, "P29 opened for reading and writing");
    }
    // the terminal description was read from a file
    let before = w().closes;
    if screen {
        let via = if how < 2 { sym::choose(2, "via") } else { 0 };
        let s = if via == 1 { drop(term); w().closes = 0; if how == 0 { Screen::new(config) } else { Screen::stderr(config) } } else { Screen::with_terminal(term, config) };
        if let Ok(mut s) = s {
            s.write_str("x");
            let _ = s.refresh();
            let _ = s.read_event(z);
            let _ = s.read_raw(&mut b, z);
        }
    } else {
        let mut t = term;
        let _ = t.size();
        if let Ok(st) = t.prepare(config) {
            let _ = t.write_str("x");
            let _ = t.wait_event(z);
            let _ = t.read_event(z);
            let _ = t.read_raw(&mut b, z);
            let _ = t.restore(st);
        }
    }
    is_input(w().used_in, i, "P29 input and settings use the input descriptor");
    is_input(w().used_out, o, "P29 output and size use the output descriptor");
    let _ = before;
    ends(how == 2, fd);
}
fn ends(opened: bool, fd: i32) {
    sym::check(w().late_uses == 0, "P29 uses a descriptor after closing it");
    sym::check(w().bad_closes == 0, "P29 closes a descriptor twice");
    for k in 0..w().closes.min(8) { sym::check(w().closed[k] > 2, "P29 closes a standard descriptor"); }
    sym::check(w().closes <= 8, "P29 closes");
    let _ = opened;
    sym::check(world::next_fd() == fd, "P29 a descriptor is left open");
}
/// a terminal that cannot be opened leaves no descriptor behind; TERM=nosuch here
pub fn p29_fail() {
    use mortal::unix::OpenTerminalExt;
    world::init(2, 12);
    let fd = world::next_fd();
    w().closes = 0;
    let k = sym::choose(4, "how");
    let r = match k { 0 => Terminal::new(), 1 => Terminal::stderr(), 2 => Terminal::from_path(NULL), _ => Terminal::from_path("/nonexistent/tty") };
    sym::check(r.is_err(), "P29 an unknown terminal is reported");
    if k == 3 { sym::check(r.err().map(|e| e.raw_os_error()) == Some(Some(libc::ENOENT)), "P29 the error of open is reported"); }
    sym::check(w().used_in == 0 && w().used_out == 0, "P29 a terminal that is not opened is not touched");
    ends(false, fd);
}
