#![allow(static_mut_refs)]

pub mod sym;
pub mod world;
pub mod vt;
pub mod refbuf;
pub mod h_attr;
pub mod h_screen;
pub mod h_out;
pub mod h_event;
pub mod h_prep;
pub mod h_misc;

/// name -> entry point, for the native replay
#[macro_export]
macro_rules! entries {
    ( $( $m:ident :: $f:ident ),* $(,)? ) => {
        $(
            #[no_mangle]
            pub extern "C" fn $f() { $crate::sym::init(); $crate::$m::$f(); $crate::sym::exit() }
        )*
        pub fn lookup(n: &str) -> Option<extern "C" fn()> {
            $( if n == stringify!($f) { return Some($f); } )*
            None
        }
    }
}

entries! {
    h_misc::p19_build2, h_misc::p19_from_many, h_misc::p19_large, h_misc::p19_four1, h_misc::p19_three2, h_misc::p19_five2, h_misc::p19_build3, h_misc::p19_op, h_misc::p19_ops, h_misc::p19_op3, h_misc::p19_four, h_misc::p20_ops, h_misc::p20_debug, h_misc::p21_ctrl, h_misc::p21_prefixes, h_misc::p22_cursor, h_misc::p22_area, h_misc::p22_theme, h_misc::p25_guards, h_misc::p25_plain, h_misc::p25_mixed, h_misc::p25_order, h_misc::p25_readers, h_misc::p14_race, h_misc::p25_try, h_misc::p25_independent, h_misc::p25_calls, h_misc::p25_scr_calls, h_misc::p25_draw, h_misc::p25_resize, h_misc::p25_both_resize, h_misc::p25_both_continue,
    h_prep::p15_one, h_prep::p15_locks, h_prep::p15_default, h_prep::p17_continue, h_prep::p16_two, h_prep::p16_continue, h_prep::p16_three, h_prep::p17_prep, h_prep::p17_prep2, h_prep::p17_restore, h_prep::p18_drop, h_prep::p18_drop_fail, h_prep::p18_open_fail, h_prep::p18_size_fail, h_prep::p18_panic, h_prep::p18_term, h_prep::p29_use, h_prep::p29_fail,
    h_event::p10_any2, h_event::p10_any3, h_event::p10_any4, h_event::p10_intro2, h_event::p10_intro3, h_event::p10_intro4, h_event::p10_keys1, h_event::p10_keys2, h_event::p10_odd, h_event::p10_long_keys, h_event::p10_long_mouse, h_event::p11_small, h_event::p11_wide, h_event::p11_over, h_event::p11_bad, h_event::p11_over2, h_event::p11_cut, h_event::p12_two, h_event::p12_long, h_event::p12_three, h_event::p12_four, h_event::p13_mixed, h_event::p13_mixed5, h_event::p13_err, h_event::p14_one, h_event::p14_via, h_event::p14_nested, h_event::p14_two, h_event::p14_two_in, h_event::p14_three, h_event::p14_raw, h_event::p24_wait, h_event::p24_event, h_event::p24_raw, h_event::p24_intr, h_event::p24_signal, h_event::p24_parts, h_event::p13_session4, h_event::p13_session3, h_event::p14_session4, h_event::p14_session3,
    h_out::p08_anylen, h_out::p08_anylen2, h_out::p08_anylen3, h_out::p08_anylen4, h_out::p09_huge,
    h_out::p08_partial, h_out::p08_deep, h_out::p08_retry, h_out::p08_errors, h_out::p08_errors3, h_out::p08_seq, h_out::p08_seq4, h_out::p08_screen, h_out::p08_screen_err, h_out::p08_screen_big, h_out::p09_sizes, h_out::p09_part, h_out::p09_err, h_out::p09_three, h_out::p09_four, h_out::p09_attr,
    h_attr::p06_one, h_attr::p06_after1, h_attr::p06_after2, h_attr::p06_two, h_attr::p06_deep, h_attr::p06_three, h_attr::p07_term, h_attr::p26_one, h_attr::p26_two, h_attr::p27_dumb, h_attr::p27_screen,
    h_attr::p23_elems, h_attr::p23_lines, h_attr::p23_term, h_attr::p23_screen,
    h_screen::p01_wide, h_screen::p01_out, h_screen::p01_tab, h_screen::p01_one, h_screen::p01_odd, h_screen::p01_wide4, h_screen::p01_wide5, h_screen::p01_tab18, h_screen::p01_odd3, h_screen::p01_api, h_screen::p01_api3, h_screen::p01_attr, h_screen::p01_marks,
    h_screen::p02_wide, h_screen::p02_attr, h_screen::p02_lines, h_screen::p02_deep, h_screen::p02_deep2, h_screen::p02_deep3, h_screen::p02_deep4, h_screen::p03_any, h_screen::p03_any2, h_screen::p03_size,
    h_screen::p04_small, h_screen::p04_post, h_screen::p04_big, h_screen::p04_twice, h_screen::p05_any, h_screen::p05_zero, h_screen::p05_zero3, h_screen::p05_any3, h_screen::p05_one, h_screen::p07_screen, h_screen::p07_screen6,
}
