"""What is checked: the properties, their statements, entry points, bounds and levels.
gen.py writes properties.jsonl and MANIFEST.json from this file; check.py runs it."""

LEVEL = 'other'
TECH = 'symbolic execution of the compiled code (LLVM IR), assertions decided by Z3'
ASSUMPTIONS = [
    'rustc, LLVM and the executor (/verif/symrs) translate faithfully; every run replays sample paths and every counterexample against the natively compiled code',
    'Z3 answers correctly; a sample of its queries is put to cvc5 and a newer Z3 on every run',
    'the operating system behaves as the stand-in libc in /verif/harness (select, read, write, tcsetattr, sigaction, TIOCGWINSZ) describes',
    'the terminal behaves as the model in /verif/harness/src/vt.rs, driven by the terminfo descriptions in /verif/harness/terminfo',
]

def T(entries, *terms):
    return [(e, t) for t in terms for e in entries]

# threaded entries: schedules are explored by the executor, natively not replayable
def R(entries, term='xterm', **opt):
    return [(e, term, dict(threads=1, **opt)) for e in entries]

PROPS = {}
def prop(id, title, statement, over, text, why, files, mechanism, bounds, quick, thorough=(), state=(), observe=(), note=''):
    PROPS[id] = dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mechanism=mechanism,
                     bounds=bounds, quick=list(quick), thorough=list(thorough), state=state, observe=observe, note=note)

X = 'xterm'

# ------------------------------------------------------------------ screen
prop('P01', 'A refresh shows exactly the content that was written to the screen',
     'After any sequence of writes to a Screen (text, styled text, single characters, positions, attributes), a refresh leaves the terminal showing exactly what those writes describe, cell for cell: character or grapheme, foreground, background and style. '
     'This includes wide characters, combining marks, tabs, control characters, newlines, wrapping at the end of a line and positions outside the screen.',
     ['inputs', 'programs'], 'every sequence of screen operations, every character of every class, every position, attribute and screen size',
     'No test in the repository looks at a screen after a refresh; the content depends on the character class, the column it lands in and what is already there.',
     ['src/buffer.rs', 'src/screen.rs', 'src/unix/screen.rs', 'src/util.rs'],
     [('ScreenBuffer::write_char / write_styled / set_cell', 'src/buffer.rs'), ('Screen::refresh', 'src/unix/screen.rs'), ('char_width, is_visible', 'src/util.rs')],
     'Screens of 1x1 to 3x18 cells; programs of 1 to 5 operations (up to 3 over the whole API, 4 to 5 of text); characters symbolic within each class of display width (one column, two columns, combining (up to five on one character), spacing combining, control, tab, newline, unprintable), positions and attributes symbolic or split over all cases; TERM=xterm and, for attributes and wide text, vt100 and linux. Not covered: longer programs, larger screens, U+17D8, refreshing after the terminal itself was disturbed.',
     [(e, X) for e in ('p01_one', 'p01_out', 'p01_odd', 'p01_attr', 'p01_marks', 'p01_wide', 'p01_tab', 'p01_api', 'p01_wide4', 'p01_wide5')] + T(['p01_attr', 'p01_wide'], 'vt100'),
     T(['p01_tab18', 'p01_odd3', 'p01_api3'], X) + T(['p01_attr', 'p01_wide', 'p01_odd'], 'linux') + T(['p01_odd', 'p01_tab'], 'vt100'),
     observe=['bytes written to the terminal, interpreted by an independent terminal model'])

prop('P02', 'Incremental refreshes end where a full redraw would end',
     'However screen updates are divided by refreshes, after each refresh the terminal shows the same as if the whole current content had been drawn at once on a cleared terminal. Cells that an earlier refresh drew, and later writes overwrote, cleared or cut in half, never remain visible.',
     ['histories', 'programs'], 'every history of writes and clears interleaved with refreshes',
     'A stale cell needs a particular earlier content under a particular later one; the tests contain no refresh history.',
     ['src/unix/screen.rs', 'src/buffer.rs'], [('difference between buffer and back buffer in refresh', 'src/unix/screen.rs'), ('indices(): which cells changed', 'src/buffer.rs')],
     'Histories of 2 to 4 refreshes with 1 to 3 operations before each, on screens of 1x4 to 3x4; narrow, wide and combining characters, attributes, clear_screen/clear_attributes, line writes; TERM=xterm and vt100/linux for attributes.',
     T(['p02_wide', 'p02_attr', 'p02_lines'], X) + T(['p02_attr'], 'vt100'),
     T(['p02_deep', 'p02_deep4', 'p02_deep2', 'p02_deep3'], X) + T(['p02_attr', 'p02_wide'], 'linux'))

prop('P03', 'The terminal cursor ends at the position the program set',
     'After a refresh the terminal cursor is at the position last set with set_cursor, or at the place the last drawing operation left it, wherever in the bounds of the screen that is; size() and cursor positions are reported as they are.',
     ['inputs', 'histories'], 'every position, content and history of drawing operations',
     'Depends on how the terminal itself moves while cells are drawn (wide characters, the last column); no test observes a cursor.',
     ['src/unix/screen.rs', 'src/unix/terminal.rs'], [('move_cursor, real_cursor in refresh', 'src/unix/screen.rs')],
     'Screens up to 3x5, up to 2 refreshes, symbolic positions and characters.',
     T(['p03_any', 'p03_size', 'p03_any2'], X))

prop('P04', 'Resizing keeps the surviving content and the screen stays consistent',
     'When the terminal changes size, the screen takes the new size when that is read as an event, keeps the content of every cell that still exists, blanks new cells, and the refresh that follows shows exactly that. No half of a wide character that the new edge cuts is left behind, and no write or refresh after a resize panics.',
     ['inputs', 'histories'], 'every old and new size, every content, every operation before and after the resize',
     'No test resizes a screen that has been drawn.',
     ['src/buffer.rs', 'src/unix/screen.rs', 'src/util.rs'], [('ScreenBuffer::resize, resize_buffer', 'src/buffer.rs'), ('Screen::update_size', 'src/unix/screen.rs')],
     'Sizes up to 4x6 each way, one or two resizes, symbolic content of every width class, up to 2 operations after the resize; TERM=xterm and linux/vt100. Scroll regions set before the resize are outside.',
     T(['p04_small', 'p04_post', 'p04_twice'], X) + T(['p04_post'], 'vt100'),
     T(['p04_big'], X) + T(['p04_small', 'p04_post'], 'linux'))

prop('P05', 'No argument makes the screen panic or corrupt memory or other lines',
     'Screen operations accept every position, size, string and attribute: each either takes effect within the screen bounds or returns an out-of-bounds error, without panicking, looping or changing cells it did not address.',
     ['inputs', 'programs'], 'every sequence of operations with arbitrary 64-bit positions, any characters and any buffer contents',
     'Extreme and out-of-bounds coordinates combine with every internal state; tests use in-bounds values.',
     ['src/buffer.rs', 'src/unix/screen.rs', 'src/util.rs'], [('bounds checks and cursor arithmetic', 'src/buffer.rs')],
     'Programs of 1 to 3 operations over the whole screen API with fully symbolic 64-bit line and column, any Unicode scalar value, screens from 0x0 to 2x4, changes of size to and from a size without cells; overflow checks and debug assertions enabled.',
     T(['p05_one', 'p05_any', 'p05_zero'], X), T(['p05_any3', 'p05_zero3'], X))

# ------------------------------------------------------------------ terminal output
prop('P06', 'Attributes set on a terminal are exactly those its text appears with',
     'After any sequence of colour, style, theme and clear calls on a Terminal, written text appears on the terminal with exactly the attributes those calls describe, on every supported terminal type; a call that changes one attribute leaves the others as they are.',
     ['programs', 'configurations'], 'every sequence of attribute operations, on every terminal description',
     'Removing one attribute may need a reset and re-adding the others, depending on the terminal; the order matters and the tests do not look at it.',
     ['src/unix/terminal.rs', 'src/terminal.rs'], [('set_attrs / add_style / remove_style / clear_attributes', 'src/unix/terminal.rs')],
     'Sequences of 1 to 3 operations, every style set, every colour, from every prior attribute state (also symbolic); TERM xterm, xterm-256color, vt100, linux, dumb. Themes as style+colour combinations.',
     T(['p06_one', 'p06_two', 'p06_after1', 'p06_after2'], X) + T(['p06_one', 'p06_after1'], 'vt100', 'linux'),
     T(['p06_deep', 'p06_three'], X) + T(['p06_after2'], 'vt100', 'linux') + T(['p06_one', 'p06_two'], 'xterm-256color', 'vt100', 'linux'))

prop('P07', 'Styled writes leave no attribute behind',
     'write_styled shows its text with exactly the given attributes, whatever was set before, and afterwards the terminal or screen has no attributes set, wherever the text ends and however long it is, even if it is empty.',
     ['inputs', 'programs'], 'every attribute state before, style, text and position',
     'Depends on the prior state and, for screens, on the text running over the end.',
     ['src/unix/terminal.rs', 'src/unix/screen.rs', 'src/buffer.rs'], [('write_styled', 'src/unix/terminal.rs'), ('ScreenBuffer::write_styled', 'src/buffer.rs')],
     'Every prior style set and colour and every given one; texts of up to 6 characters on screens up to 2x3, including texts that overrun. Positions outside the screen excepted (nothing is drawn).',
     T(['p07_term', 'p07_screen', 'p07_screen6'], X), T(['p07_term'], 'vt100', 'linux', 'xterm-256color'))

prop('P08', 'Output reaches the terminal exactly once, in order, whatever write does',
     'Everything written to a Terminal or drawn by a Screen is delivered to the terminal device exactly once and in order, although single writes may be short, interrupted or fail. A failing write is reported as an error, and what was not delivered by then is not lost or repeated when output continues.',
     ['fault_sequences', 'inputs'], 'every sequence of short, interrupted and failing write calls, every output',
     'Tests never meet a short or failing write; the bug class needs a fault at a certain byte.',
     ['src/unix/terminal.rs', 'src/unix/screen.rs'], [('TerminalWriteGuard::write_data / flush', 'src/unix/terminal.rs'), ('write_bytes', 'src/unix/terminal.rs')],
     'Up to 3 faults in a sequence of up to 4 output operations; the length every write call accepts is symbolic (any 1..n) or each of its values; faults EINTR, EIO, zero, short. Buffers up to the 16 KiB limits of the output buffer.',
     T(['p08_partial', 'p08_retry', 'p08_deep', 'p08_errors', 'p08_errors3', 'p08_seq', 'p08_screen', 'p08_screen_err', 'p08_screen_big', 'p08_anylen', 'p08_anylen3'], X),
     T(['p08_seq4', 'p08_anylen2', 'p08_anylen4'], X))

prop('P09', 'Buffered output is delivered completely at every size boundary',
     'Any amount of output, around and beyond the size of the internal buffer, written in any division into calls, is delivered complete, in order and once when the guard is flushed or dropped.',
     ['inputs', 'fault_sequences'], 'every length and every division into calls',
     'The boundary cases are single lengths among many; no test writes so much.',
     ['src/unix/terminal.rs'], [('write_str, OUT_BUFFER_SIZE handling', 'src/unix/terminal.rs')],
     'One to three calls with sizes at and one around 0, half, the buffer size and twice the buffer size, and single texts of 64 KiB and more; contents symbolic at both ends; with a short or a failing write; attributes between.',
     T(['p09_huge', 'p09_sizes', 'p09_part', 'p09_err', 'p09_attr'], X), T(['p09_three'], X))

# ------------------------------------------------------------------ input
prop('P10', 'Keyboard input decodes to the keys the terminal description assigns',
     'Every byte string the terminal sends is decoded into the events of its longest-match reading: the key sequences of the terminal description, control characters, and characters. No input is lost, duplicated or attributed to the wrong key, invalid bytes are reported once and do not affect what follows, and nothing panics.',
     ['inputs'], 'every byte string',
     'The tests sample no byte strings at all through the reading path.',
     ['src/unix/terminal.rs', 'src/sequence.rs', 'src/util.rs'], [('peek_event, find in the sequence map', 'src/unix/terminal.rs'), ('SequenceMap::find', 'src/sequence.rs'), ('utf8_prefix, prefixes', 'src/util.rs')],
     'All byte strings of length 2 and 3 (thorough: 4); an escape introducer followed by 3 (thorough: 4) arbitrary 7-bit characters; each key sequence, whole or cut by 1 or 2 bytes, with an arbitrary character before and one or two after; two such sequences together; TERM=xterm, linux, vt100 and a description made for this (terminfo/odd.ti) in which keys are prefixes of others and start with any control character. Each key sequence across the end of the first or second full read of 128 bytes, all input being there. A sequence that arrives over time is outside (it is decoded by what is there).',
     T(['p10_any2', 'p10_any3', 'p10_intro3', 'p10_keys1'], X) + T(['p10_any2', 'p10_keys1'], 'linux', 'mvodd') + T(['p10_keys1'], 'vt100')
     + T(['p10_odd', 'p10_long_keys'], 'mvodd') + T(['p10_long_keys'], X),
     T(['p10_any4', 'p10_intro4', 'p10_keys2', 'p10_odd'], X, 'linux', 'mvodd') + T(['p10_keys2', 'p10_odd'], 'vt100') + T(['p10_long_keys'], X, 'linux', 'mvodd', 'vt100'))

prop('P11', 'Mouse reports decode to the button, modifiers and position they carry',
     'A mouse report yields the event with its zero-based position, button, press or release, wheel, motion and modifiers, for every coordinate; a malformed, truncated or out-of-range report never panics and is read as ordinary input.',
     ['inputs'], 'every report, well-formed or not',
     'Coordinates and buttons are numbers of any length; a test has a few of them and none at the limits.',
     ['src/unix/terminal.rs'], [('parse_mouse_data', 'src/unix/terminal.rs')],
     'All numbers of 1 to 3 digits (button) and 1 to 5 digits (coordinates), numbers of up to 20 digits with symbolic last digits around 2^32 and 2^64, any separator and terminator bytes, every truncation; reports across the end of a full read of 128 bytes. Codes 66, 67 and above 127 are only checked for position and modifiers.',
     T(['p11_small', 'p11_wide', 'p11_bad', 'p11_cut', 'p11_over', 'p10_long_mouse'], X))

prop('P12', 'Text is read intact however its bytes are split over reads',
     'Any text typed or pasted is returned character for character, in order, for every way in which the bytes arrive; a character whose bytes have not all arrived is neither reported nor lost.',
     ['inputs', 'schedules'], 'every text and every division of its bytes over reads',
     'Divisions inside characters are rare with small test inputs.',
     ['src/unix/terminal.rs', 'src/util.rs'], [('utf8_prefix / incomplete sequences kept in the input buffer', 'src/unix/terminal.rs')],
     'Texts of 2 to 3 characters, each any character of 1 to 4 bytes (symbolic), in every division into pieces; two such characters anywhere about the end of the first and the second full read (128 bytes) of a longer text.',
     T(['p12_two', 'p12_three', 'p12_long'], X), T(['p12_four'], X))

prop('P13', 'Raw and decoded reads together consume the input once and in order',
     'In any mixture of read_raw and read_event, each input byte is returned exactly once and in order; a read or wait that is interrupted goes on, and an error of the system call is reported without losing input.',
     ['programs', 'fault_sequences'], 'every mixture of calls, buffer lengths, arrivals and faults',
     'The interplay over the shared buffer is not tested.',
     ['src/unix/terminal.rs'], [('read_raw, read_event and in_buffer', 'src/unix/terminal.rs')],
     'Three (thorough: five) calls over five symbolic bytes arriving in two steps, raw buffers of 0 to 3 bytes; EINTR, EBADF and EIO from select and read; and sessions of three (thorough: four) calls of any kind over three characters, one of two or three bytes, arriving in pieces of any length, with one fault.',
     T(['p13_mixed', 'p13_err', 'p13_session3'], X), T(['p13_mixed5', 'p13_session4'], X))

prop('P14', 'Every signal asked for is reported, once, and no other',
     'While a Terminal is prepared, each requested signal that arrives before, during or between reads is reported as an event once, signals that were not requested are not reported, and a change of window size is always reported with the new size. Input that was waiting is not lost, and after Continue the terminal is prepared again.',
     ['schedules', 'histories'], 'every set of requested signals, every arrival of signals relative to waiting and reading',
     'Needs signals at particular points of a read; the tests send none.',
     ['src/unix/terminal.rs', 'src/signal.rs'], [('handle_signal, take_signal / PENDING_SIGNALS', 'src/unix/terminal.rs'), ('read_event, resume', 'src/unix/terminal.rs')],
     'One or two (thorough: three) signals out of five, every requested set, arriving before a read, in select, in read or between reads, with and without input, read_event, read_raw and wait_event of Terminal, Screen and their read guards; nested sessions of every two configurations and one signal; one signal in a session of three (thorough: four) reading calls over input that arrives in pieces; and one signal before any atomic read-modify-write of a sequence of reads (up to 2 preemptions; not between a plain atomic load and what follows it).',
     T(['p14_one', 'p14_two', 'p14_raw', 'p14_via', 'p14_nested', 'p14_session3'], X) + R(['p14_race']), T(['p14_two_in', 'p14_three', 'p14_session4'], X) + T(['p14_one', 'p14_two'], 'linux'))

prop('P23', 'The formatted write macros write what they describe',
     'term_write! and term_writeln! write each text element in order, each with the attributes that the attribute elements before it and the state before the call describe, to a Terminal and to a Screen; they leave the attributes the last element left, and term_writeln! ends with a line end.',
     ['inputs', 'programs'], 'every element kind, attribute and value',
     'Macro expansion is only compile-tested.',
     ['src/macros.rs', 'src/lib.rs'], [('term_write!, term_writeln!', 'src/macros.rs')],
     'The element forms of the macros (plain, bracketed style groups, colours, combinations), symbolic strings and styles, both targets.',
     T(['p23_elems', 'p23_lines', 'p23_term', 'p23_screen'], X), T(['p23_term'], 'vt100', 'linux'))

prop('P24', 'Timeouts are kept: never early, never forever, at most 1 ms late',
     'wait_event, read_event and read_raw with a timeout wait, if nothing happens, at least that long and at most a millisecond longer, for every representable duration; without a timeout they wait without limit. An interruption does not restart, shorten or lengthen the wait.',
     ['inputs', 'schedules'], 'every duration, every moment of interruption',
     'The conversion fails at the ends of the range and at fractions; tests use one or two durations, if any.',
     ['src/unix/terminal.rs'], [('to_timeval', 'src/unix/terminal.rs'), ('the select loop', 'src/unix/terminal.rs')],
     'All seconds below 9.2e12 (in three regions covering 0..2^43, 2^43..2^43+2^38 and the next 2^37) and seconds around and above the limit up to 2^64-1, with every nanosecond part; interruptions: two, at any time, for timeouts below 2^20 s in whole microseconds, whichever of the three calls waits; with a signal of any kind, reported or not, for timeouts below 64 s. The time between system calls is not modelled.',
     T(['p24_wait', 'p24_event', 'p24_raw', 'p24_parts', 'p14_via', 'p24_intr', 'p24_signal'], X))

prop('P26', 'Cursor movement, clearing and cursor modes do what they say',
     'Each movement, clearing and cursor-visibility call on a Terminal has on the terminal exactly the effect it is documented to have, for every argument, and none other.',
     ['inputs', 'configurations'], 'every argument, starting position and terminal description',
     'The escape sequences are never interpreted by a test.',
     ['src/unix/terminal.rs'], [('move_*, clear_*, set_cursor_mode', 'src/unix/terminal.rs'), ('terminfo expansion', 'src/unix/terminal.rs')],
     'One operation with a symbolic argument (0..2^32) from every position of a small terminal, sequences of two operations; TERM xterm, vt100, linux.',
     T(['p26_one', 'p26_two'], X) + T(['p26_one'], 'vt100', 'linux'), T(['p26_two'], 'vt100', 'linux') + T(['p26_one'], 'xterm-256color'))

prop('P27', 'A terminal without a capability gets nothing it does not understand',
     'On a terminal whose description lacks a capability, the calls that would need it either report an error or do nothing; no foreign escape sequence is written, text is written unchanged, and nothing panics.',
     ['configurations', 'inputs'], 'every operation and terminal description',
     'Tests run with one TERM at most.',
     ['src/unix/terminal.rs', 'src/unix/screen.rs'], [('maybe_write_terminfo / write_terminfo', 'src/unix/terminal.rs')],
     'Every operation on TERM=dumb, xterm, vt100, linux, xterm-256color; Screen on dumb.',
     T(['p27_dumb', 'p27_screen'], 'dumb', X) + T(['p27_dumb'], 'vt100', 'linux'), T(['p27_dumb'], 'xterm-256color'))

# ------------------------------------------------------------------ preparing and restoring
prop('P15', 'Prepare puts the terminal into exactly the mode its configuration asks for',
     'A successful prepare changes the terminal settings, signal handlers and keypad and mouse modes exactly as the PrepareConfig says, starting from any previous settings, and changes nothing else.',
     ['configurations', 'inputs'], 'every previous setting and every configuration',
     'Settings have hundreds of bits and the tests cannot look at them without a terminal.',
     ['src/unix/terminal.rs'], [('prepare_with_lock, prepare_signals', 'src/unix/terminal.rs'), ('enable_keypad / enable_mouse', 'src/unix/terminal.rs')],
     'One prepare and two and three nested ones from arbitrary (symbolic) flag words, control characters, handlers, handler flags and masks, every configuration; flag bits unknown to the nix crate excepted. TERM xterm, vt100, linux, dumb.',
     T(['p15_default', 'p15_one', 'p15_locks', 'p16_two'], X) + T(['p15_one'], 'vt100', 'linux', 'dumb'), T(['p16_three'], X) + T(['p15_one', 'p16_two'], 'xterm-256color'))

prop('P16', 'Restore returns the terminal to exactly its state before the matching prepare',
     'Each restore, given the most recent PrepareState, puts back the terminal settings, the signal handlers, the reported signals and the keypad and mouse modes as they were before that prepare, for any nesting of prepare and restore.',
     ['programs', 'configurations'], 'every nesting of configurations from every initial state',
     'Nested sessions with different configurations interact through shared state; no test nests them.',
     ['src/unix/terminal.rs'], [('restore_with_lock', 'src/unix/terminal.rs'), ('PrepareState', 'src/unix/terminal.rs')],
     'Nesting depth 1 and 2 (thorough: 3), all configurations per level (five signals for depth 1, two for deeper ones), arbitrary initial settings. TERM xterm, vt100, linux, dumb.',
     T(['p15_one', 'p15_locks', 'p16_two', 'p16_continue'], X) + T(['p16_two'], 'vt100', 'linux', 'dumb'), T(['p16_three'], X) + T(['p15_one', 'p15_locks', 'p16_continue'], 'vt100', 'linux', 'dumb'))

prop('P17', 'A failing prepare or restore leaves no half-changed terminal',
     'If any step of prepare fails, the error is reported and the terminal settings, handlers and modes are as before the call; if a step of restore fails, the error is reported and every other step is still done.',
     ['fault_sequences', 'configurations'], 'every failing system call, every configuration',
     'System calls on a terminal practically never fail in tests.',
     ['src/unix/terminal.rs'], [('prepare_with_lock error paths', 'src/unix/terminal.rs'), ('restore_with_lock', 'src/unix/terminal.rs')],
     'One failure of any tcgetattr, tcsetattr, sigaction or write call, or one or two interrupted, short or failing writes; every configuration; with and without an outer session. TERM xterm, linux, vt100, dumb.',
     T(['p17_prep', 'p17_prep2', 'p17_restore', 'p17_continue'], X) + T(['p17_prep', 'p17_restore'], 'linux', 'dumb'), T(['p17_continue'], 'linux', 'dumb') + T(['p17_prep', 'p17_prep2', 'p17_restore', 'p17_continue'], 'vt100', 'xterm-256color'))

prop('P18', 'However a session ends, the terminal is left as it was found',
     'When a Screen or Terminal goes away, at the end of its scope, through a panic with any guard held, or because it could not be opened, the alternate screen is left, the cursor is visible and the settings, handlers and modes are the original ones, even if a write or system call fails on the way.',
     ['crash_points', 'fault_sequences'], 'every way and point of ending, every single failure',
     'Tests do not panic with a guard held nor fail while cleaning up.',
     ['src/unix/screen.rs', 'src/unix/terminal.rs'], [('Drop for Screen', 'src/unix/screen.rs'), ('Drop for Terminal', 'src/unix/terminal.rs'), ('Screen::new', 'src/unix/screen.rs')],
     'Sessions with every configuration and arbitrary initial settings; panics with no, each or both guards held or after a failed refresh; one failure of any call while opening or leaving (except that of the very last write); TERM xterm, linux, vt100, dumb.',
     T(['p18_drop', 'p18_drop_fail', 'p18_open_fail', 'p18_size_fail', 'p18_panic', 'p18_term'], X) + T(['p18_drop', 'p18_drop_fail', 'p18_panic'], 'linux') + T(['p18_drop', 'p18_drop_fail', 'p18_open_fail', 'p18_term'], 'vt100') + T(['p18_open_fail', 'p18_size_fail'], 'dumb'),
     T(['p18_drop', 'p18_drop_fail', 'p18_open_fail', 'p18_size_fail', 'p18_panic', 'p18_term'], 'vt100', 'xterm-256color'))

# ------------------------------------------------------------------ data types
prop('P19', 'A SequenceMap behaves as a sorted map with prefix search',
     'For every sequence of operations a SequenceMap holds exactly the keys and values a map would, sorted by key, and find reports exactly whether its argument is a key, a prefix of other keys, both or neither.',
     ['programs', 'inputs'], 'every set of keys and values, every operation',
     'Keys that are prefixes of each other around the searched position matter; tests have one fixed map.',
     ['src/sequence.rs'], [('search, find', 'src/sequence.rs'), ('insert, remove, entry', 'src/sequence.rs'), ('From<Vec>, FromIterator', 'src/sequence.rs')],
     'Maps of 2 or 3 (thorough: 4) symbolic keys of up to 3 characters, built in every way, up to 1 (thorough: 2) further operations of the whole API, any searched key; maps of 4 (thorough: 5, 20) one-character keys, vectors of 40 pairs with repeated keys, and of 3 keys of up to two characters, inserted in order, then 1 (thorough: 2) operations.',
     T(['p19_build2', 'p19_build3', 'p19_op', 'p19_four1', 'p19_three2', 'p19_from_many'], X), T(['p19_large', 'p19_five2', 'p19_ops', 'p19_op3', 'p19_four'], X))

prop('P20', 'A SignalSet is the set of the signals put into it',
     'Every SignalSet operation and operator yields exactly the set of signals that set algebra gives; contains, equality, emptiness and the debug output agree with it.',
     ['inputs'], 'every pair of sets and signals',
     'Tests use a handful of sets.',
     ['src/signal.rs'], [('SignalSet', 'src/signal.rs')],
     'All pairs of sets over the six signals (symbolic) and all pairs of signals; no bound.', T(['p20_ops', 'p20_debug'], X))

prop('P21', 'Control characters, keys and prefixes are converted faithfully',
     'ctrl, unctrl_lower, unctrl_upper, is_ctrl and Key::from agree on every character and undo each other, and prefixes yields exactly the non-empty prefixes of a string, shortest first.',
     ['inputs'], 'every character and string',
     'Tests sample ASCII.',
     ['src/util.rs', 'src/terminal.rs'], [('ctrl, unctrl_lower, unctrl_upper, is_ctrl, prefixes', 'src/util.rs'), ('Key::from', 'src/terminal.rs')],
     'All Unicode scalar values; strings of up to 3 characters of 1 to 4 bytes.', T(['p21_ctrl', 'p21_prefixes'], X))

prop('P22', 'Cursor, Size and Theme arithmetic is right for every value',
     'Cursor::next and previous enumerate the cells of any size in reading order and undo each other; first, last and is_out_of_bounds agree with them; Size::area is the product or reports the overflow; Theme setters change only their part.',
     ['inputs'], 'every position and size up to the full width of usize',
     'Edge rows and columns and overflow need extreme values.',
     ['src/terminal.rs'], [('Cursor', 'src/terminal.rs'), ('Size::checked_area', 'src/terminal.rs'), ('Theme', 'src/terminal.rs')],
     'All 64-bit positions inside all 64-bit sizes without zero; areas with one factor below 64 or a power of two, the other arbitrary (16 or 64 bits).', T(['p22_cursor', 'p22_area', 'p22_theme'], X))

prop('P25', 'Threads share a Terminal or Screen without mixing up or blocking each other',
     'A guard excludes other users of its lock, so that what is written under one guard or in one call stays together; the read and the write lock are independent; the documented order of the locks never deadlocks; try_lock never blocks; a poisoned lock is reported and stays usable.',
     ['schedules'], 'every interleaving of the threads',
     'A test sees the few schedules that happen.',
     ['src/unix/terminal.rs', 'src/unix/screen.rs', 'src/priv_util.rs'], [('lock_read / lock_write and try_lock', 'src/unix/terminal.rs'), ('Screen::lock_write', 'src/unix/screen.rs'), ('map2_lock_result', 'src/priv_util.rs')],
     'Two threads with one to two operations each, and every pair of twelve kinds of call on a Terminal and of twelve on a Screen, which must have the effect of one after the other; switches at every atomic read-modify-write (the lock operations; not at plain atomic loads and stores) with at most 2 preemptions beyond blocking; every combination of held locks for try_lock and poisoning.',
     R(['p25_guards', 'p25_plain', 'p25_mixed', 'p25_order', 'p25_readers', 'p25_draw', 'p25_calls', 'p25_scr_calls', 'p25_resize']) + T(['p25_try', 'p25_independent', 'p25_both_resize', 'p25_both_continue'], X) + T(['p25_try', 'p25_independent'], 'dumb'),
     R(['p25_guards', 'p25_plain', 'p25_mixed', 'p25_order', 'p25_readers', 'p25_draw', 'p25_calls', 'p25_scr_calls', 'p25_resize'], preempt=3))

prop('P29', 'A Terminal uses and closes exactly the descriptors it was made for',
     'A Terminal or Screen on standard output or standard error reads and configures standard input and writes to the stream it is named for; one opened from a path does both through the descriptor it opened, for reading and writing. Descriptors it opened are closed once, also when opening fails half way, and standard descriptors are never closed.',
     ['configurations', 'fault_sequences'], 'every way of making a Terminal or Screen, every failing system call',
     'The tests never open a path and never look at descriptors.',
     ['src/unix/terminal.rs', 'src/terminal.rs', 'src/screen.rs'], [('Terminal::stdout, stderr, open', 'src/unix/terminal.rs'), ('close_fd, Drop for Terminal', 'src/unix/terminal.rs')],
     'Terminal and Screen by each constructor, every input, output and settings call once, with mouse and keypad on or off; no failing call, or a failing or short write, or a failing size, tcgetattr or tcsetattr call; an unknown TERM; a path that does not exist.',
     T(['p29_use'], X, 'dumb') + [('p29_fail', 'nosuch')], T(['p29_use'], 'vt100', 'linux'))

NOT_APPLICABLE = []
def na(id, title, statement, over, text, why, files, mechanism, reason):
    NOT_APPLICABLE.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mechanism=mechanism, reason=reason, state=(), observe=()))

na('P28', 'The Windows console backend gives the same guarantees',
   'On Windows, the same operations of Terminal and Screen have the effects described for Unix terminals, and prepare and restore leave the console as it was.',
   ['inputs', 'histories'], 'every sequence of operations on a Windows console',
   'The tests run on one platform.', ['src/windows/terminal.rs', 'src/windows/screen.rs'], [('the console API backend', 'src/windows/terminal.rs')],
   'src/windows is compiled only for Windows targets; neither a Windows standard library for any rustc target nor the winapi crate is installed here, so no IR of that code can be produced to encode.')
