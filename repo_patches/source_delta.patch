From 3dcbb028ca4904695b28f18617c8e004143b74d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:04 +0000
Subject: [PATCH 01/28] fix: resume a short write where it stopped instead of
 resending the buffer from its start

---
 src/unix/terminal.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/unix/terminal.rs b/src/unix/terminal.rs
index 4efd294..b41176f 100644
--- a/src/unix/terminal.rs
+++ b/src/unix/terminal.rs
@@ -1026,7 +1026,7 @@ impl<'a> TerminalWriteGuard<'a> {
                 break Ok(());
             }
 
-            match write(self.term.out_fd, buf) {
+            match write(self.term.out_fd, &buf[offset..]) {
                 Ok(0) => break Err(io::Error::from(io::ErrorKind::WriteZero)),
                 Ok(n) => offset += n,
                 Err(Errno::EINTR) => continue,
-- 
2.43.0


From 99b8aa708c5aa21bcc25692b4abfc3ce9ba65bc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:05 +0000
Subject: [PATCH 02/28] fix: do not underflow on a mouse report with line or
 column 0

---
 src/unix/terminal.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/unix/terminal.rs b/src/unix/terminal.rs
index b41176f..5516024 100644
--- a/src/unix/terminal.rs
+++ b/src/unix/terminal.rs
@@ -1298,8 +1298,8 @@ fn parse_mouse_data(mut buf: &[u8]) -> Option<(MouseEvent, usize)> {
 
     let position = Cursor{
         // Parsed line and column begin at 1; we begin at 0
-        line: (line - 1) as usize,
-        column: (column - 1) as usize,
+        line: line.checked_sub(1)? as usize,
+        column: column.checked_sub(1)? as usize,
     };
 
     Some((MouseEvent{
-- 
2.43.0


From ffaea46d275a3799082697dcc7be8af09620fa8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:06 +0000
Subject: [PATCH 03/28] fix: fill the end of a line with spaces, not copies of
 the wide character, when it wraps

---
 src/buffer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/buffer.rs b/src/buffer.rs
index 020715e..6c827d8 100644
--- a/src/buffer.rs
+++ b/src/buffer.rs
@@ -195,7 +195,7 @@ impl ScreenBuffer {
                 let mut pos = self.cursor;
 
                 for _ in 0..rem {
-                    self.set_cell(pos, ch);
+                    self.set_cell(pos, ' ');
                     pos.column += 1;
                 }
 
-- 
2.43.0


From 231198198a28b71c97f1e0515667cad502fabf69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:08 +0000
Subject: [PATCH 04/28] fix: reject a character wider than the whole screen
 instead of writing past its line

---
 src/buffer.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/buffer.rs b/src/buffer.rs
index 6c827d8..4587ab3 100644
--- a/src/buffer.rs
+++ b/src/buffer.rs
@@ -188,6 +188,10 @@ impl ScreenBuffer {
             let rem = self.size.columns - self.cursor.column;
             let width = char_width(ch).unwrap_or(0);
 
+            if width > self.size.columns {
+                return Err(OutOfBounds(()));
+            }
+
             // If insufficient space exists on the current line,
             // fill it with spaces and write the char on the next line.
             if rem < width {
-- 
2.43.0


From ac8919a9a8d0814b2d76b5e1802803c9732b78e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:09 +0000
Subject: [PATCH 05/28] fix: attach a combining mark to a preceding wide
 character rather than to its hidden second column

---
 src/buffer.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/buffer.rs b/src/buffer.rs
index 4587ab3..f91a860 100644
--- a/src/buffer.rs
+++ b/src/buffer.rs
@@ -170,8 +170,18 @@ impl ScreenBuffer {
             self.cursor.line += 1;
             self.cursor.column = 0;
         } else if is_combining_mark(ch) {
-            if let Some(prev) = self.cursor.previous(self.size) {
+            if let Some(mut prev) = self.cursor.previous(self.size) {
                 self.try_cursor_at(prev)?;
+
+                // The second column of a wide character is never drawn;
+                // the mark belongs to its first column.
+                if prev.column != 0 {
+                    let lead = Cursor{column: prev.column - 1, .. prev};
+                    if self.cell_mut(lead).is_wide() {
+                        prev = lead;
+                    }
+                }
+
                 self.cell_mut(prev).text.push(ch);
             }
         } else if is_visible(ch) {
-- 
2.43.0


From 7e97973992e032a8454271e7bace80f5932edbf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:10 +0000
Subject: [PATCH 06/28] fix: give a spacing combining mark a cell of its own,
 as the terminal does

---
 src/buffer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/buffer.rs b/src/buffer.rs
index f91a860..02c7b9c 100644
--- a/src/buffer.rs
+++ b/src/buffer.rs
@@ -169,7 +169,7 @@ impl ScreenBuffer {
         } else if ch == '\n' {
             self.cursor.line += 1;
             self.cursor.column = 0;
-        } else if is_combining_mark(ch) {
+        } else if is_combining_mark(ch) && char_width(ch).unwrap_or(0) == 0 {
             if let Some(mut prev) = self.cursor.previous(self.size) {
                 self.try_cursor_at(prev)?;
 
-- 
2.43.0


From 537d8573de530598329fc67323f61fd310e30026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:11 +0000
Subject: [PATCH 07/28] fix: redraw a cell that a wide character covered since
 it was last drawn

---
 src/buffer.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/buffer.rs b/src/buffer.rs
index 02c7b9c..d179512 100644
--- a/src/buffer.rs
+++ b/src/buffer.rs
@@ -114,7 +114,11 @@ impl ScreenBuffer {
 
             // Skip cells overlapped by wide characters
             if width == 2 {
-                let _ = indices.next();
+                if let Some(next) = indices.next() {
+                    // Whatever was drawn there is hidden now;
+                    // it must be redrawn once it is uncovered.
+                    self.back_buffer[next] = Cell::invalid();
+                }
             }
 
             if self.buffer[idx] != self.back_buffer[idx] {
-- 
2.43.0


From bc7447031da97277f76e29e0c2aeee2d40c4616a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:12 +0000
Subject: [PATCH 08/28] fix: track the terminal cursor past both columns of a
 wide character

---
 src/buffer.rs      | 2 +-
 src/unix/screen.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/buffer.rs b/src/buffer.rs
index d179512..34e1196 100644
--- a/src/buffer.rs
+++ b/src/buffer.rs
@@ -525,7 +525,7 @@ impl Cell {
         self.text.chars().next().expect("empty cell text")
     }
 
-    fn is_wide(&self) -> bool {
+    pub fn is_wide(&self) -> bool {
         self.text.chars().next()
             .and_then(char_width).unwrap_or(0) == 2
     }
diff --git a/src/unix/screen.rs b/src/unix/screen.rs
index 5597355..fa2e3f9 100644
--- a/src/unix/screen.rs
+++ b/src/unix/screen.rs
@@ -192,7 +192,7 @@ impl<'a> ScreenWriteGuard<'a> {
 
             self.apply_attrs(cell.attrs())?;
             self.writer.write_str(cell.text())?;
-            self.data.real_cursor.column += 1;
+            self.data.real_cursor.column += if cell.is_wide() { 2 } else { 1 };
         }
 
         self.writer.clear_attributes()?;
-- 
2.43.0


From 317ce165d11cb834506d9573a4c3852080b21262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:13 +0000
Subject: [PATCH 09/28] fix: drop a wide character that a resize cuts in half

---
 src/buffer.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/buffer.rs b/src/buffer.rs
index 34e1196..fe28b9a 100644
--- a/src/buffer.rs
+++ b/src/buffer.rs
@@ -549,6 +549,11 @@ fn resize_buffer(buf: &mut Vec<Cell>, old: Size, new: Size) {
                 for i in 0..n_cols {
                     swap(&mut new[i], &mut old[i]);
                 }
+
+                // Only half of this character remains
+                if new[n_cols - 1].is_wide() {
+                    new[n_cols - 1] = Cell::default();
+                }
             }
         }
 
-- 
2.43.0


From b1e2e73d4b406a08c22c84d7d592bf2646e588d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:15 +0000
Subject: [PATCH 10/28] fix: clear attributes after styled text that runs off
 the end of the screen

---
 src/buffer.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/buffer.rs b/src/buffer.rs
index fe28b9a..bb832a7 100644
--- a/src/buffer.rs
+++ b/src/buffer.rs
@@ -264,10 +264,10 @@ impl ScreenBuffer {
         self.bg = bg;
         self.style = style;
 
-        self.write_str(text)?;
+        let res = self.write_str(text);
         self.clear_attributes();
 
-        Ok(())
+        res
     }
 
     pub fn write_styled_at(&mut self, pos: Cursor,
-- 
2.43.0


From 0635a73641aa2deffa72cbadc296793ae3d95c2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:16 +0000
Subject: [PATCH 11/28] fix: do not overflow the cursor line when advancing an
 out of bounds cursor

---
 src/buffer.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/buffer.rs b/src/buffer.rs
index bb832a7..8ff0872 100644
--- a/src/buffer.rs
+++ b/src/buffer.rs
@@ -59,7 +59,7 @@ impl ScreenBuffer {
     }
 
     pub fn next_line(&mut self, column: usize) {
-        self.cursor.line += 1;
+        self.cursor.line = self.cursor.line.saturating_add(1);
         self.cursor.column = column;
     }
 
@@ -171,7 +171,7 @@ impl ScreenBuffer {
         } else if ch == '\r' {
             self.cursor.column = 0;
         } else if ch == '\n' {
-            self.cursor.line += 1;
+            self.cursor.line = self.cursor.line.saturating_add(1);
             self.cursor.column = 0;
         } else if is_combining_mark(ch) && char_width(ch).unwrap_or(0) == 0 {
             if let Some(mut prev) = self.cursor.previous(self.size) {
-- 
2.43.0


From 9847d59d0beb6ba7ee9a46c168a761bd8d636216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:58 +0000
Subject: [PATCH 12/28] fix: neither panic on a very long timeout nor cut a
 short one to zero

---
 src/unix/terminal.rs | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/unix/terminal.rs b/src/unix/terminal.rs
index 5516024..0247c94 100644
--- a/src/unix/terminal.rs
+++ b/src/unix/terminal.rs
@@ -1190,16 +1190,17 @@ fn ti_to_io(e: terminfo::Error) -> io::Error {
 }
 
 fn to_timeval(d: Duration) -> TimeVal {
-    const MAX_SECS: i64 = i64::max_value() / 1_000;
+    // The largest whole number of seconds that TimeVal accepts
+    const MAX_SECS: i64 = i64::max_value() / 1_000_000 - 1;
 
-    let secs = match d.as_secs() {
-        n if n > MAX_SECS as u64 => MAX_SECS,
-        n => n as i64,
-    };
+    if d.as_secs() >= MAX_SECS as u64 {
+        return TimeVal::seconds(MAX_SECS);
+    }
 
-    let millis = d.subsec_millis() as i64;
+    // Round up; a timeout must not elapse early.
+    let micros = (d.subsec_nanos() as i64 + 999) / 1_000;
 
-    TimeVal::milliseconds(secs * 1_000 + millis)
+    TimeVal::microseconds(d.as_secs() as i64 * 1_000_000 + micros)
 }
 
 fn peek_event(buf: &[u8], sequences: &SeqMap)
-- 
2.43.0


From dfe5c86366a5798f13f29b31e68ceb0cbe2f079b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:59 +0000
Subject: [PATCH 13/28] fix: clamp terminfo parameters to the signed range the
 expander uses

---
 src/unix/terminal.rs | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/src/unix/terminal.rs b/src/unix/terminal.rs
index 0247c94..3b5bfce 100644
--- a/src/unix/terminal.rs
+++ b/src/unix/terminal.rs
@@ -1415,16 +1415,9 @@ fn not_supported(op: &str) -> io::Error {
         format!("operation not supported: {}", op))
 }
 
-#[cfg(target_pointer_width = "64")]
+// terminfo parameters are signed
 fn to_u32(u: usize) -> u32 {
-    if u > u32::max_value() as usize {
-        u32::max_value()
-    } else {
-        u as u32
-    }
-}
+    const MAX: usize = i32::max_value() as usize;
 
-#[cfg(any(target_pointer_width = "16", target_pointer_width = "32"))]
-fn to_u32(u: usize) -> u32 {
-    u as u32
+    u.min(MAX) as u32
 }
-- 
2.43.0


From 21fc659f179ba2183f9e63e80142da4ddd58bb0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:01 +0000
Subject: [PATCH 14/28] fix: do not take the write lock to report a resize

---
 src/unix/terminal.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/unix/terminal.rs b/src/unix/terminal.rs
index 3b5bfce..4024c97 100644
--- a/src/unix/terminal.rs
+++ b/src/unix/terminal.rs
@@ -607,7 +607,8 @@ impl<'a> TerminalReadGuard<'a> {
                 self.resume()?;
             }
             Signal::Resize => {
-                let size = self.term.size()?;
+                // Don't lock the writer; the calling thread may already hold it.
+                let size = get_winsize(self.term.out_fd)?;
                 return Ok(Some(Event::Resize(size)));
             }
             _ => ()
-- 
2.43.0


From 3035d587e8416387d2a973674d87102e38715ba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:02 +0000
Subject: [PATCH 15/28] fix: keep every pending signal instead of only the last
 one received

---
 src/unix/terminal.rs | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/unix/terminal.rs b/src/unix/terminal.rs
index 4024c97..79547d2 100644
--- a/src/unix/terminal.rs
+++ b/src/unix/terminal.rs
@@ -1363,10 +1363,11 @@ fn utf8_prefix(buf: &[u8]) -> io::Result<&str> {
     }
 }
 
-static LAST_SIGNAL: AtomicUsize = AtomicUsize::new(0);
+// One bit for each signal received and not yet taken
+static PENDING_SIGNALS: AtomicUsize = AtomicUsize::new(0);
 
 extern "C" fn handle_signal(signum: c_int) {
-    LAST_SIGNAL.store(signum as usize, Ordering::Relaxed);
+    PENDING_SIGNALS.fetch_or(1 << signum, Ordering::Relaxed);
 }
 
 fn conv_signal(sig: c_int) -> Option<Signal> {
@@ -1381,11 +1382,26 @@ fn conv_signal(sig: c_int) -> Option<Signal> {
 }
 
 fn get_signal() -> Option<Signal> {
-    conv_signal(LAST_SIGNAL.load(Ordering::Relaxed) as c_int)
+    first_signal(PENDING_SIGNALS.load(Ordering::Relaxed))
 }
 
 fn take_signal() -> Option<Signal> {
-    conv_signal(LAST_SIGNAL.swap(0, Ordering::Relaxed) as c_int)
+    let pending = PENDING_SIGNALS.load(Ordering::Relaxed);
+    let sig = first_signal(pending);
+
+    if sig.is_some() {
+        PENDING_SIGNALS.fetch_and(!(1 << pending.trailing_zeros()), Ordering::Relaxed);
+    }
+
+    sig
+}
+
+fn first_signal(pending: usize) -> Option<Signal> {
+    if pending == 0 {
+        None
+    } else {
+        conv_signal(pending.trailing_zeros() as c_int)
+    }
 }
 
 fn ascii_str(s: &[u8]) -> Option<&str> {
-- 
2.43.0


From 376554f3ee0c33f2b7264648662b2cf54bf8d000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:04 +0000
Subject: [PATCH 16/28] fix: discard invalid utf-8 input once it has been
 reported

---
 src/unix/terminal.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/unix/terminal.rs b/src/unix/terminal.rs
index 79547d2..57461ed 100644
--- a/src/unix/terminal.rs
+++ b/src/unix/terminal.rs
@@ -596,7 +596,13 @@ impl<'a> TerminalReadGuard<'a> {
                     Ok(Some(ev))
                 }
                 Ok(None) => Ok(None),
-                Err(e) => Err(e)
+                Err(e) => {
+                    // Discard the invalid bytes; otherwise, no further
+                    // input could ever be read.
+                    let n = invalid_utf8_len(&in_buffer);
+                    let _ = in_buffer.drain(..n);
+                    Err(e)
+                }
             }
         }
     }
@@ -1363,6 +1369,14 @@ fn utf8_prefix(buf: &[u8]) -> io::Result<&str> {
     }
 }
 
+/// Returns the length of the invalid UTF-8 sequence at the beginning of `buf`.
+fn invalid_utf8_len(buf: &[u8]) -> usize {
+    match from_utf8(buf) {
+        Err(ref e) if e.valid_up_to() == 0 => e.error_len().unwrap_or(0),
+        _ => 0
+    }
+}
+
 // One bit for each signal received and not yet taken
 static PENDING_SIGNALS: AtomicUsize = AtomicUsize::new(0);
 
-- 
2.43.0


From 581215aee6615d99184c478a1d353e171c9dbbba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:05 +0000
Subject: [PATCH 17/28] fix: restore the set of reported signals

---
 src/unix/terminal.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/unix/terminal.rs b/src/unix/terminal.rs
index 57461ed..07dea58 100644
--- a/src/unix/terminal.rs
+++ b/src/unix/terminal.rs
@@ -336,6 +336,7 @@ impl<'a> TerminalReadGuard<'a> {
             restore_keypad: false,
             restore_mouse: false,
             prev_resume: self.reader.resume,
+            prev_report_signals: self.reader.report_signals,
         };
 
         tio.input_flags.remove(
@@ -419,6 +420,7 @@ impl<'a> TerminalReadGuard<'a> {
     pub fn restore_with_lock(&mut self, writer: &mut TerminalWriteGuard,
             state: PrepareState) -> io::Result<()> {
         self.reader.resume = state.prev_resume;
+        self.reader.report_signals = state.prev_report_signals;
 
         if state.restore_mouse {
             writer.disable_mouse()?;
@@ -1131,6 +1133,7 @@ pub struct PrepareState {
     restore_keypad: bool,
     restore_mouse: bool,
     prev_resume: Option<Resume>,
+    prev_report_signals: SignalSet,
 }
 
 #[derive(Copy, Clone, Debug)]
-- 
2.43.0


From ec313c413abb1dd083b802861209a3d56238143f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:06 +0000
Subject: [PATCH 18/28] fix: keep keypad and mouse modes of an outer prepare
 call enabled by an inner restore

---
 src/unix/terminal.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/unix/terminal.rs b/src/unix/terminal.rs
index 07dea58..dcdb478 100644
--- a/src/unix/terminal.rs
+++ b/src/unix/terminal.rs
@@ -422,11 +422,18 @@ impl<'a> TerminalReadGuard<'a> {
         self.reader.resume = state.prev_resume;
         self.reader.report_signals = state.prev_report_signals;
 
+        // What an earlier `prepare` call has enabled must remain enabled.
+        let prev_config = state.prev_resume.map(|r| r.config);
+
         if state.restore_mouse {
             writer.disable_mouse()?;
+
+            if let Some(config) = prev_config.filter(|c| c.enable_mouse) {
+                let _ = writer.enable_mouse(config.always_track_motion)?;
+            }
         }
 
-        if state.restore_keypad {
+        if state.restore_keypad && !prev_config.map_or(false, |c| c.enable_keypad) {
             writer.disable_keypad()?;
         }
 
-- 
2.43.0


From 19235667daccc49dcae4939251d402c835587f00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:54 +0000
Subject: [PATCH 19/28] fix: restore everything that can be restored when one
 step of it fails

---
 src/unix/terminal.rs | 74 +++++++++++++++++++++++---------------------
 1 file changed, 39 insertions(+), 35 deletions(-)

diff --git a/src/unix/terminal.rs b/src/unix/terminal.rs
index dcdb478..f1b8ece 100644
--- a/src/unix/terminal.rs
+++ b/src/unix/terminal.rs
@@ -422,44 +422,28 @@ impl<'a> TerminalReadGuard<'a> {
         self.reader.resume = state.prev_resume;
         self.reader.report_signals = state.prev_report_signals;
 
-        // What an earlier `prepare` call has enabled must remain enabled.
-        let prev_config = state.prev_resume.map(|r| r.config);
-
-        if state.restore_mouse {
-            writer.disable_mouse()?;
-
-            if let Some(config) = prev_config.filter(|c| c.enable_mouse) {
-                let _ = writer.enable_mouse(config.always_track_motion)?;
-            }
-        }
-
-        if state.restore_keypad && !prev_config.map_or(false, |c| c.enable_keypad) {
-            writer.disable_keypad()?;
-        }
-
-        writer.flush()?;
-
-        tcsetattr(self.term.in_fd, SetArg::TCSANOW, &state.old_tio.into()).map_err(nix_to_io)?;
-
-        unsafe {
-            if let Some(ref old) = state.old_sigcont {
-                sigaction(NixSignal::SIGCONT, old).map_err(nix_to_io)?;
-            }
-            if let Some(ref old) = state.old_sigint {
-                sigaction(NixSignal::SIGINT, old).map_err(nix_to_io)?;
-            }
-            if let Some(ref old) = state.old_sigtstp {
-                sigaction(NixSignal::SIGTSTP, old).map_err(nix_to_io)?;
-            }
-            if let Some(ref old) = state.old_sigquit {
-                sigaction(NixSignal::SIGQUIT, old).map_err(nix_to_io)?;
-            }
-            if let Some(ref old) = state.old_sigwinch {
-                sigaction(NixSignal::SIGWINCH, old).map_err(nix_to_io)?;
+        // Restore as much as possible, even if some part of it fails;
+        // report the first failure.
+        let mut res = writer.restore_modes(&state)
+            .and(tcsetattr(self.term.in_fd, SetArg::TCSANOW, &state.old_tio.into())
+                .map_err(nix_to_io));
+
+        let actions = [
+            (NixSignal::SIGCONT, &state.old_sigcont),
+            (NixSignal::SIGINT, &state.old_sigint),
+            (NixSignal::SIGTSTP, &state.old_sigtstp),
+            (NixSignal::SIGQUIT, &state.old_sigquit),
+            (NixSignal::SIGWINCH, &state.old_sigwinch),
+        ];
+
+        for &(sig, action) in &actions {
+            if let Some(ref old) = *action {
+                res = res.and(unsafe { sigaction(sig, old) }
+                    .map(|_| ()).map_err(nix_to_io));
             }
         }
 
-        Ok(())
+        res
     }
 
     pub fn wait_event(&mut self, timeout: Option<Duration>) -> io::Result<bool> {
@@ -708,6 +692,26 @@ impl<'a> TerminalWriteGuard<'a> {
         self.write_bytes(XTERM_DISABLE_MOUSE_MOTION.as_bytes())
     }
 
+    fn restore_modes(&mut self, state: &PrepareState) -> io::Result<()> {
+        // What an earlier `prepare` call has enabled must remain enabled.
+        let prev_config = state.prev_resume.map(|r| r.config);
+        let mut res = Ok(());
+
+        if state.restore_mouse {
+            res = res.and(self.disable_mouse());
+
+            if let Some(config) = prev_config.filter(|c| c.enable_mouse) {
+                res = res.and(self.enable_mouse(config.always_track_motion).map(|_| ()));
+            }
+        }
+
+        if state.restore_keypad && !prev_config.map_or(false, |c| c.enable_keypad) {
+            res = res.and(self.disable_keypad());
+        }
+
+        res.and(self.flush())
+    }
+
     fn enable_mouse(&mut self, track_motion: bool) -> io::Result<bool> {
         if self.term.is_xterm() {
             self.write_bytes(XTERM_ENABLE_MOUSE.as_bytes())?;
-- 
2.43.0


From 76b0b9d69dc8d88252c1834c1af9a215b3a3b93c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:56 +0000
Subject: [PATCH 20/28] fix: undo a partial prepare when a later step of it
 fails

---
 src/unix/terminal.rs | 29 ++++++++++++++++++++---------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/src/unix/terminal.rs b/src/unix/terminal.rs
index f1b8ece..70e43d8 100644
--- a/src/unix/terminal.rs
+++ b/src/unix/terminal.rs
@@ -23,7 +23,7 @@ use nix::sys::signal::{
 };
 use nix::sys::termios::{
     tcgetattr, tcsetattr,
-    SetArg, InputFlags, LocalFlags,
+    SetArg, InputFlags, LocalFlags, Termios,
 };
 use nix::sys::time::{TimeVal, TimeValLike};
 use nix::unistd::{read, write};
@@ -372,12 +372,26 @@ impl<'a> TerminalReadGuard<'a> {
         // Allow a read to return after 0 deciseconds
         tio.control_chars[VTIME as usize] = 0;
 
+        if let Err(e) = self.apply_config(writer, config, tio, &mut state) {
+            // Don't leave the terminal half prepared
+            let _ = self.restore_with_lock(writer, state);
+            return Err(e);
+        }
+
+        self.reader.report_signals = config.report_signals;
+        self.reader.resume = Some(Resume{config});
+
+        Ok(state)
+    }
+
+    fn apply_config(&mut self, writer: &mut TerminalWriteGuard,
+            config: PrepareConfig, tio: Termios, state: &mut PrepareState)
+            -> io::Result<()> {
         tcsetattr(self.term.in_fd, SetArg::TCSANOW, &tio).map_err(nix_to_io)?;
 
-        if config.enable_mouse {
-            if writer.enable_mouse(config.always_track_motion)? {
-                state.restore_mouse = true;
-            }
+        if config.enable_mouse && self.term.is_xterm() {
+            state.restore_mouse = true;
+            writer.enable_mouse(config.always_track_motion)?;
         }
 
         if config.enable_keypad {
@@ -406,10 +420,7 @@ impl<'a> TerminalReadGuard<'a> {
             state.old_sigquit = Some(unsafe { sigaction(NixSignal::SIGQUIT, &action).map_err(nix_to_io)? });
         }
 
-        self.reader.report_signals = config.report_signals;
-        self.reader.resume = Some(Resume{config});
-
-        Ok(state)
+        Ok(())
     }
 
     pub fn restore(&mut self, state: PrepareState) -> io::Result<()> {
-- 
2.43.0


From 5fa444ab6b3f043f38ff6671a0d8d4d5ff4c507d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:22 +0000
Subject: [PATCH 21/28] fix: leave the alternate screen even when restoring
 terminal state fails

---
 src/unix/screen.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/unix/screen.rs b/src/unix/screen.rs
index fa2e3f9..d876936 100644
--- a/src/unix/screen.rs
+++ b/src/unix/screen.rs
@@ -129,7 +129,8 @@ impl Drop for Screen {
             Ok(())
         };
 
-        if let Err(e) = res.and_then(|_| self.term.exit_screen()) {
+        // Leave the screen even if something could not be restored
+        if let Err(e) = res.and(self.term.exit_screen()) {
             eprintln!("failed to restore terminal: {}", e);
         }
     }
-- 
2.43.0


From c0a16f0bd150fda026a5a359ae00bcf7dbfdf033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:23 +0000
Subject: [PATCH 22/28] fix: restore the terminal on drop after a panic has
 poisoned its locks

---
 src/unix/screen.rs   | 12 +++++++++---
 src/unix/terminal.rs | 15 ++++++++-------
 2 files changed, 17 insertions(+), 10 deletions(-)

diff --git a/src/unix/screen.rs b/src/unix/screen.rs
index d876936..703163a 100644
--- a/src/unix/screen.rs
+++ b/src/unix/screen.rs
@@ -1,5 +1,5 @@
 use std::io;
-use std::sync::{LockResult, Mutex, MutexGuard, TryLockResult};
+use std::sync::{LockResult, Mutex, MutexGuard, PoisonError, TryLockResult};
 use std::time::Duration;
 
 use crate::buffer::ScreenBuffer;
@@ -123,14 +123,20 @@ impl Screen {
 
 impl Drop for Screen {
     fn drop(&mut self) {
+        // The terminal must be restored even if a panic has poisoned a lock
+        let mut reader = self.term.lock_read()
+            .unwrap_or_else(PoisonError::into_inner);
+        let mut writer = self.term.lock_write()
+            .unwrap_or_else(PoisonError::into_inner);
+
         let res = if let Some(state) = self.state.take() {
-            self.term.restore(state)
+            reader.restore_with_lock(&mut writer, state)
         } else {
             Ok(())
         };
 
         // Leave the screen even if something could not be restored
-        if let Err(e) = res.and(self.term.exit_screen()) {
+        if let Err(e) = res.and(writer.exit_screen()) {
             eprintln!("failed to restore terminal: {}", e);
         }
     }
diff --git a/src/unix/terminal.rs b/src/unix/terminal.rs
index 70e43d8..7d86341 100644
--- a/src/unix/terminal.rs
+++ b/src/unix/terminal.rs
@@ -6,7 +6,7 @@ use std::os::unix::io::{FromRawFd, IntoRawFd, RawFd};
 use std::path::Path;
 use std::str::from_utf8;
 use std::sync::atomic::{AtomicUsize, Ordering};
-use std::sync::{LockResult, Mutex, MutexGuard, TryLockResult};
+use std::sync::{LockResult, Mutex, MutexGuard, PoisonError, TryLockResult};
 use std::time::Duration;
 
 use libc::{
@@ -166,10 +166,6 @@ impl Terminal {
         self.lock_writer().enter_screen()
     }
 
-    pub fn exit_screen(&self) -> io::Result<()> {
-        self.lock_writer().exit_screen()
-    }
-
     pub fn prepare(&self, config: PrepareConfig) -> io::Result<PrepareState> {
         self.lock_reader().prepare(config)
     }
@@ -299,7 +295,12 @@ impl Terminal {
 
 impl Drop for Terminal {
     fn drop(&mut self) {
-        if let Err(e) = self.set_cursor_mode(CursorMode::Normal) {
+        // The lock may have been poisoned by a panic
+        let res = self.lock_write()
+            .unwrap_or_else(PoisonError::into_inner)
+            .set_cursor_mode(CursorMode::Normal);
+
+        if let Err(e) = res {
             eprintln!("failed to restore terminal: {}", e);
         }
 
@@ -760,7 +761,7 @@ impl<'a> TerminalWriteGuard<'a> {
         Ok(())
     }
 
-    fn exit_screen(&mut self) -> io::Result<()> {
+    pub fn exit_screen(&mut self) -> io::Result<()> {
         if let Some(exit) = self.term.info.get::<cap::ExitCaMode>() {
             self.expand(exit.expand())?;
             self.flush()?;
-- 
2.43.0


From 2a0e7cb73e2cb50b92e36c4eb79eea2f2cf05f04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:18 +0000
Subject: [PATCH 23/28] fix: do not write terminfo padding specifications to
 the terminal

---
 src/unix/terminal.rs | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/src/unix/terminal.rs b/src/unix/terminal.rs
index 7d86341..42270eb 100644
--- a/src/unix/terminal.rs
+++ b/src/unix/terminal.rs
@@ -1071,10 +1071,15 @@ impl<'a> TerminalWriteGuard<'a> {
 
     fn expand<T: AsRef<[u8]>>(&mut self, exp: Expansion<T>) -> io::Result<()> {
         let writer = &mut *self.writer;
+        let start = writer.out_buffer.len();
+
         exp
             .with(&mut writer.context)
             .to(&mut writer.out_buffer)
-            .map_err(ti_to_io)
+            .map_err(ti_to_io)?;
+
+        remove_padding(&mut writer.out_buffer, start);
+        Ok(())
     }
 }
 
@@ -1472,6 +1477,24 @@ fn not_supported(op: &str) -> io::Error {
         format!("operation not supported: {}", op))
 }
 
+// Removes padding specifications, e.g. `$<5>` or `$<2*/>`,
+// from the terminfo string beginning at `start`.
+fn remove_padding(buf: &mut Vec<u8>, mut start: usize) {
+    while let Some(pos) = buf[start..].windows(2).position(|w| w == b"$<") {
+        start += pos;
+
+        let len = buf[start + 2..].iter()
+            .take_while(|&&b| b.is_ascii_digit() || b"./*".contains(&b))
+            .count();
+
+        if len != 0 && buf.get(start + 2 + len) == Some(&b'>') {
+            let _ = buf.drain(start .. start + len + 3);
+        } else {
+            start += 2;
+        }
+    }
+}
+
 // terminfo parameters are signed
 fn to_u32(u: usize) -> u32 {
     const MAX: usize = i32::max_value() as usize;
-- 
2.43.0


From a37f47ab040f7d34f2ebcbfb0d31d758fd0e1eef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:48 +0000
Subject: [PATCH 24/28] fix: keep other attributes when ending underline resets
 them all on the terminal

---
 src/unix/terminal.rs | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/unix/terminal.rs b/src/unix/terminal.rs
index 42270eb..dd9b84e 100644
--- a/src/unix/terminal.rs
+++ b/src/unix/terminal.rs
@@ -836,9 +836,7 @@ impl<'a> TerminalWriteGuard<'a> {
     pub fn remove_style(&mut self, style: Style) -> io::Result<()> {
         let remove = style & self.writer.cur_style;
 
-        if remove.intersects(Style::BOLD | Style::REVERSE) {
-            // terminfo does not contain entries to remove bold or reverse.
-            // Instead, we must reset all attributes.
+        if self.must_reset(remove) {
             let new_style = self.writer.cur_style - remove;
             let fg = self.writer.fg;
             let bg = self.writer.bg;
@@ -864,9 +862,7 @@ impl<'a> TerminalWriteGuard<'a> {
         let add = style - self.writer.cur_style;
         let remove = self.writer.cur_style - style;
 
-        if remove.intersects(Style::BOLD | Style::REVERSE) {
-            // terminfo does not contain entries to remove bold or reverse.
-            // Instead, we must reset all attributes.
+        if self.must_reset(remove) {
             let fg = self.writer.fg;
             let bg = self.writer.bg;
             self.clear_attributes()?;
@@ -881,6 +877,20 @@ impl<'a> TerminalWriteGuard<'a> {
         Ok(())
     }
 
+    // Returns whether removing the given style requires resetting all attributes.
+    fn must_reset(&self, remove: Style) -> bool {
+        // terminfo does not contain entries to remove bold or reverse.
+        if remove.intersects(Style::BOLD | Style::REVERSE) {
+            return true;
+        }
+
+        // For some terminals, e.g. "vt100", the entry to remove underline
+        // resets all attributes; their state must not be lost track of.
+        remove.contains(Style::UNDERLINE) &&
+            self.term.info.get::<cap::ExitUnderlineMode>().map_or(false,
+                |cap| cap.as_ref().starts_with(b"\x1b[m"))
+    }
+
     pub fn set_theme(&mut self, theme: Theme) -> io::Result<()> {
         self.set_attrs(theme.fg, theme.bg, theme.style)
     }
-- 
2.43.0


From e125c8171fc054d94ef20e01eb80a8800157638b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:06 +0000
Subject: [PATCH 25/28] fix: do not panic when the terminal reports a size of
 zero

---
 src/buffer.rs        | 2 +-
 src/terminal.rs      | 6 +++---
 src/unix/terminal.rs | 2 +-
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/buffer.rs b/src/buffer.rs
index 8ff0872..424af58 100644
--- a/src/buffer.rs
+++ b/src/buffer.rs
@@ -541,7 +541,7 @@ fn resize_buffer(buf: &mut Vec<Cell>, old: Size, new: Size) {
     if old != new {
         let mut new_buf = vec![Cell::default(); new.area()];
 
-        if !buf.is_empty() {
+        if !buf.is_empty() && !new_buf.is_empty() {
             let n_cols = old.columns.min(new.columns);
 
             for (old, new) in buf.chunks_mut(old.columns)
diff --git a/src/terminal.rs b/src/terminal.rs
index 8c96587..d3614f6 100644
--- a/src/terminal.rs
+++ b/src/terminal.rs
@@ -146,7 +146,7 @@ impl Cursor {
             if self.line == 0 {
                 None
             } else {
-                Some(Cursor{line: self.line - 1, column: size.columns - 1})
+                Some(Cursor{line: self.line - 1, column: size.columns.saturating_sub(1)})
             }
         } else {
             Some(Cursor{line: self.line, column: self.column - 1})
@@ -166,8 +166,8 @@ impl Cursor {
     #[inline]
     pub fn last(size: Size) -> Cursor {
         Cursor{
-            line: size.lines - 1,
-            column: size.columns - 1,
+            line: size.lines.saturating_sub(1),
+            column: size.columns.saturating_sub(1),
         }
     }
 
diff --git a/src/unix/terminal.rs b/src/unix/terminal.rs
index dd9b84e..b281cae 100644
--- a/src/unix/terminal.rs
+++ b/src/unix/terminal.rs
@@ -748,7 +748,7 @@ impl<'a> TerminalWriteGuard<'a> {
                 }
 
                 self.expand(scroll.expand()
-                    .parameters(0, to_u32(size.lines - 1)))?;
+                    .parameters(0, to_u32(size.lines.saturating_sub(1))))?;
                 self.expand(home.expand())?;
             }
             (_, None, _) => return Err(not_supported("change_scroll_region")),
-- 
2.43.0


From d6d1dfe7a7741cb6973d3d439e3399dc88deed8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:07 +0000
Subject: [PATCH 26/28] fix: redraw a cell whose text could not be written

---
 src/buffer.rs      | 7 +++++++
 src/unix/screen.rs | 9 ++++++++-
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/buffer.rs b/src/buffer.rs
index 424af58..defb50e 100644
--- a/src/buffer.rs
+++ b/src/buffer.rs
@@ -136,6 +136,13 @@ impl ScreenBuffer {
         None
     }
 
+    // Causes the cell at the given position to be returned by `next_cell` again.
+    #[cfg(unix)]
+    pub fn invalidate_cell(&mut self, pos: Cursor) {
+        let idx = pos.as_index(self.size);
+        self.back_buffer[idx] = Cell::invalid();
+    }
+
     #[cfg(test)]
     fn cell(&self, pos: Cursor) -> &Cell {
         &self.buffer[pos.as_index(self.size)]
diff --git a/src/unix/screen.rs b/src/unix/screen.rs
index 703163a..92c441b 100644
--- a/src/unix/screen.rs
+++ b/src/unix/screen.rs
@@ -198,7 +198,14 @@ impl<'a> ScreenWriteGuard<'a> {
             self.move_cursor(pos)?;
 
             self.apply_attrs(cell.attrs())?;
-            self.writer.write_str(cell.text())?;
+
+            if let Err(e) = self.writer.write_str(cell.text()) {
+                // This cell must be drawn by the next refresh
+                self.data.buffer.invalidate_cell(pos);
+                self.data.real_cursor = (!0, !0).into();
+                return Err(e);
+            }
+
             self.data.real_cursor.column += if cell.is_wide() { 2 } else { 1 };
         }
 
-- 
2.43.0


From a4bb039b1f4bbb3b9127b76a00305954c6481f2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:48 +0000
Subject: [PATCH 27/28] fix: return to the exact input modes in effect before a
 nested prepare

---
 src/unix/terminal.rs | 72 ++++++++++++++++++++++++--------------------
 1 file changed, 39 insertions(+), 33 deletions(-)

diff --git a/src/unix/terminal.rs b/src/unix/terminal.rs
index b281cae..d9f3d53 100644
--- a/src/unix/terminal.rs
+++ b/src/unix/terminal.rs
@@ -96,6 +96,15 @@ struct Writer {
     fg: Option<Color>,
     bg: Option<Color>,
     cur_style: Style,
+    modes: Modes,
+}
+
+// Input modes enabled in the terminal by `prepare`
+#[derive(Copy, Clone, Default)]
+struct Modes {
+    keypad: bool,
+    // Whether motion is always tracked, if mouse input is enabled
+    mouse: Option<bool>,
 }
 
 impl Terminal {
@@ -334,8 +343,7 @@ impl<'a> TerminalReadGuard<'a> {
             old_sigtstp: None,
             old_sigquit: None,
             old_sigwinch: None,
-            restore_keypad: false,
-            restore_mouse: false,
+            prev_modes: writer.writer.modes,
             prev_resume: self.reader.resume,
             prev_report_signals: self.reader.report_signals,
         };
@@ -390,15 +398,12 @@ impl<'a> TerminalReadGuard<'a> {
             -> io::Result<()> {
         tcsetattr(self.term.in_fd, SetArg::TCSANOW, &tio).map_err(nix_to_io)?;
 
-        if config.enable_mouse && self.term.is_xterm() {
-            state.restore_mouse = true;
+        if config.enable_mouse {
             writer.enable_mouse(config.always_track_motion)?;
         }
 
         if config.enable_keypad {
-            if writer.enable_keypad()? {
-                state.restore_keypad = true;
-            }
+            writer.enable_keypad()?;
         }
 
         writer.flush()?;
@@ -436,7 +441,7 @@ impl<'a> TerminalReadGuard<'a> {
 
         // Restore as much as possible, even if some part of it fails;
         // report the first failure.
-        let mut res = writer.restore_modes(&state)
+        let mut res = writer.restore_modes(state.prev_modes)
             .and(tcsetattr(self.term.in_fd, SetArg::TCSANOW, &state.old_tio.into())
                 .map_err(nix_to_io));
 
@@ -684,58 +689,59 @@ impl<'a> TerminalWriteGuard<'a> {
     }
 
     fn disable_keypad(&mut self) -> io::Result<()> {
+        self.writer.modes.keypad = false;
+
         if let Some(local) = self.term.info.get::<cap::KeypadLocal>() {
             self.expand(local.expand())?;
         }
         Ok(())
     }
 
-    fn enable_keypad(&mut self) -> io::Result<bool> {
+    fn enable_keypad(&mut self) -> io::Result<()> {
         if let Some(xmit) = self.term.info.get::<cap::KeypadXmit>() {
+            self.writer.modes.keypad = true;
             self.expand(xmit.expand())?;
-            Ok(true)
-        } else {
-            Ok(false)
         }
+        Ok(())
     }
 
     fn disable_mouse(&mut self) -> io::Result<()> {
+        self.writer.modes.mouse = None;
         self.write_bytes(XTERM_DISABLE_MOUSE.as_bytes())?;
         self.write_bytes(XTERM_DISABLE_MOUSE_MOTION.as_bytes())
     }
 
-    fn restore_modes(&mut self, state: &PrepareState) -> io::Result<()> {
-        // What an earlier `prepare` call has enabled must remain enabled.
-        let prev_config = state.prev_resume.map(|r| r.config);
+    fn enable_mouse(&mut self, track_motion: bool) -> io::Result<()> {
+        if self.term.is_xterm() {
+            self.writer.modes.mouse = Some(track_motion);
+            self.write_bytes(XTERM_ENABLE_MOUSE.as_bytes())?;
+            if track_motion {
+                self.write_bytes(XTERM_ENABLE_MOUSE_MOTION.as_bytes())?;
+            }
+        }
+        Ok(())
+    }
+
+    // Returns to the modes that were in effect before a `prepare` call.
+    fn restore_modes(&mut self, prev: Modes) -> io::Result<()> {
+        let cur = self.writer.modes;
         let mut res = Ok(());
 
-        if state.restore_mouse {
+        if cur.mouse != prev.mouse {
             res = res.and(self.disable_mouse());
 
-            if let Some(config) = prev_config.filter(|c| c.enable_mouse) {
-                res = res.and(self.enable_mouse(config.always_track_motion).map(|_| ()));
+            if let Some(track_motion) = prev.mouse {
+                res = res.and(self.enable_mouse(track_motion));
             }
         }
 
-        if state.restore_keypad && !prev_config.map_or(false, |c| c.enable_keypad) {
+        if cur.keypad && !prev.keypad {
             res = res.and(self.disable_keypad());
         }
 
         res.and(self.flush())
     }
 
-    fn enable_mouse(&mut self, track_motion: bool) -> io::Result<bool> {
-        if self.term.is_xterm() {
-            self.write_bytes(XTERM_ENABLE_MOUSE.as_bytes())?;
-            if track_motion {
-                self.write_bytes(XTERM_ENABLE_MOUSE_MOTION.as_bytes())?;
-            }
-            Ok(true)
-        } else {
-            Ok(false)
-        }
-    }
-
     fn enter_screen(&mut self) -> io::Result<()> {
         match (self.term.info.get::<cap::EnterCaMode>(),
                 self.term.info.get::<cap::ChangeScrollRegion>(),
@@ -1109,6 +1115,7 @@ impl Writer {
             fg: None,
             bg: None,
             cur_style: Style::empty(),
+            modes: Modes::default(),
         }
     }
 }
@@ -1168,8 +1175,7 @@ pub struct PrepareState {
     old_sigtstp: Option<SigAction>,
     old_sigquit: Option<SigAction>,
     old_sigwinch: Option<SigAction>,
-    restore_keypad: bool,
-    restore_mouse: bool,
+    prev_modes: Modes,
     prev_resume: Option<Resume>,
     prev_report_signals: SignalSet,
 }
-- 
2.43.0


From 88458134e9c46f72dea5ec54e7447d60ab5822df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:29 +0000
Subject: [PATCH 28/28] fix: read input sequences that a full read buffer cuts
 in two

---
 src/unix/terminal.rs | 65 ++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 65 insertions(+)

diff --git a/src/unix/terminal.rs b/src/unix/terminal.rs
index d9f3d53..39906b8 100644
--- a/src/unix/terminal.rs
+++ b/src/unix/terminal.rs
@@ -500,6 +500,8 @@ impl<'a> TerminalReadGuard<'a> {
     }
 
     pub fn read_event(&mut self, timeout: Option<Duration>) -> io::Result<Option<Event>> {
+        self.complete_sequence();
+
         if let Some(ev) = self.try_read()? {
             return Ok(Some(ev));
         }
@@ -566,6 +568,38 @@ impl<'a> TerminalReadGuard<'a> {
         r
     }
 
+    // The input buffer may end in the middle of a sequence because there was
+    // more input than fits in one read. Reads the remainder of the sequence,
+    // without waiting for input.
+    fn complete_sequence(&mut self) {
+        let mut buf = [0; 128];
+
+        while is_incomplete_sequence(&self.reader.in_buffer, &self.term.sequences) &&
+                self.input_available() {
+            match read(self.term.in_fd, &mut buf) {
+                Ok(0) => break,
+                Ok(n) => self.reader.in_buffer.extend_from_slice(&buf[..n]),
+                Err(Errno::EINTR) => (),
+                // If it persists, the next read reports it.
+                Err(_) => break
+            }
+        }
+    }
+
+    fn input_available(&self) -> bool {
+        let in_fd = self.term.in_fd;
+
+        let mut r_fds = FdSet::new();
+        r_fds.insert(in_fd);
+
+        let mut timeout = TimeVal::microseconds(0);
+
+        match select(in_fd + 1, Some(&mut r_fds), None, None, Some(&mut timeout)) {
+            Ok(n) => n != 0,
+            Err(_) => false
+        }
+    }
+
     fn read_input(&mut self, buf: &mut [u8], timeout: Option<Duration>) -> io::Result<Option<Event>> {
         // Check for a signal that may have already arrived.
         if let Some(sig) = take_signal() {
@@ -1307,6 +1341,37 @@ fn peek_event(buf: &[u8], sequences: &SeqMap)
     Ok(Some((res, n)))
 }
 
+// Returns whether all of `buf` is the beginning of an input sequence
+fn is_incomplete_sequence(buf: &[u8], sequences: &SeqMap) -> bool {
+    let s = match utf8_prefix(buf) {
+        Ok(s) if s.len() == buf.len() => s,
+        _ => return false
+    };
+
+    for pfx in prefixes(s) {
+        match sequences.find(pfx) {
+            FindResult::NotFound => return false,
+            FindResult::Found(SeqData::Key(_)) => return false,
+            FindResult::Found(SeqData::XTermMouse) =>
+                return is_incomplete_mouse_data(&buf[pfx.len()..]),
+            FindResult::Incomplete |
+            FindResult::Undecided(_) => ()
+        }
+    }
+
+    !s.is_empty()
+}
+
+fn is_incomplete_mouse_data(buf: &[u8]) -> bool {
+    // Length of three 10-digit integers and separators
+    const MAX_LEN: usize = 32;
+
+    buf.len() <= MAX_LEN && buf.iter().all(|&b| match b {
+        b'0' ..= b'9' | b';' => true,
+        _ => false
+    })
+}
+
 fn parse_mouse_data(mut buf: &[u8]) -> Option<(MouseEvent, usize)> {
     let orig_len = buf.len();
 
-- 
2.43.0

