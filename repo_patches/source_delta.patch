From 76882942d951117f231751bbe9bee130f2e6df70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:55 +0000
Subject: [PATCH 01/38] fix: undo/redo must stop at the end of a group that
 starts with an empty nested group

The count of undone edits was reset by every nested EndGroup, so a group
whose first members were an empty group was not recognised as finished and
the previous, unrelated group was undone as well.
---
 src/buffer.rs | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/src/buffer.rs b/src/buffer.rs
index 93cc7e4..add1ff8 100644
--- a/src/buffer.rs
+++ b/src/buffer.rs
@@ -126,12 +126,9 @@ impl Buffer {
             act.undo(self);
             self.undone_actions.push(act.clone());
             match act {
-                EndGroup => {
-                    group_nest += 1;
-                    group_count = 0;
-                }
+                EndGroup => group_nest += 1,
                 StartGroup => group_nest -= 1,
-                // count the actions in this group so we can ignore empty groups below
+                // count the actions undone so we can ignore empty groups below
                 _ => group_count += 1,
             }
 
@@ -153,12 +150,9 @@ impl Buffer {
             act.do_on(self);
             self.actions.push(act.clone());
             match act {
-                StartGroup => {
-                    group_nest += 1;
-                    group_count = 0;
-                }
+                StartGroup => group_nest += 1,
                 EndGroup => group_nest -= 1,
-                // count the actions in this group so we can ignore empty groups below
+                // count the actions redone so we can ignore empty groups below
                 _ => group_count += 1,
             }
 
-- 
2.43.0


From 5232603d53b3ef9c13831f4bf987e203dd969bd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:50 +0000
Subject: [PATCH 02/38] fix: displaying a multi-line buffer with an
 autosuggestion must split it at a character boundary

---
 src/editor.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/editor.rs b/src/editor.rs
index dbf752d..8b9284a 100644
--- a/src/editor.rs
+++ b/src/editor.rs
@@ -1082,6 +1082,8 @@ impl<C: EditorContext> Editor<C> {
         let lines_len = lines.len();
         for (i, line) in lines.into_iter().enumerate() {
             if i > 0 {
+                // Account for the newline that separates this line from the previous one.
+                buf_num_remaining_bytes = buf_num_remaining_bytes.saturating_sub(1);
                 write!(out_buf, "{}", cursor::Right(prompt_width as u16))
                     .map_err(io::Error::other)?;
             }
@@ -1089,6 +1091,11 @@ impl<C: EditorContext> Editor<C> {
             if buf_num_remaining_bytes == 0 {
                 out_buf.push_str(&line);
             } else if line.len() > buf_num_remaining_bytes {
+                // The suggestion need not start with the buffer, so make sure to split it between
+                // characters.
+                while !line.is_char_boundary(buf_num_remaining_bytes) {
+                    buf_num_remaining_bytes -= 1;
+                }
                 let start = &line[..buf_num_remaining_bytes];
                 let start = match self.closure {
                     Some(ref f) => f(start),
-- 
2.43.0


From 870de8b7b669f8c813628d116d4177d6d7668252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:52 +0000
Subject: [PATCH 03/38] fix: delete_until and delete_until_inclusive must not
 delete past the end of the buffer

---
 src/editor.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/editor.rs b/src/editor.rs
index 8b9284a..a926310 100644
--- a/src/editor.rs
+++ b/src/editor.rs
@@ -820,6 +820,7 @@ impl<C: EditorContext> Editor<C> {
     pub fn delete_until(&mut self, position: usize) -> io::Result<()> {
         {
             let buf = cur_buf_mut!(self);
+            let position = cmp::min(position, buf.num_chars());
             buf.remove(
                 cmp::min(self.cursor, position),
                 cmp::max(self.cursor, position),
@@ -833,9 +834,11 @@ impl<C: EditorContext> Editor<C> {
     pub fn delete_until_inclusive(&mut self, position: usize) -> io::Result<()> {
         {
             let buf = cur_buf_mut!(self);
+            let num_chars = buf.num_chars();
+            let position = cmp::min(position, num_chars);
             buf.remove(
                 cmp::min(self.cursor, position),
-                cmp::max(self.cursor + 1, position + 1),
+                cmp::min(cmp::max(self.cursor, position) + 1, num_chars),
             );
             self.cursor = cmp::min(self.cursor, position);
         }
-- 
2.43.0


From 1f79c0dc1cacae6e541b95b75e0d371d33ec3d24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:31 +0000
Subject: [PATCH 04/38] fix: a vi operator must not delete anything when its
 find motion finds nothing

---
 src/keymap/vi.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/keymap/vi.rs b/src/keymap/vi.rs
index 979e287..81bd1ca 100644
--- a/src/keymap/vi.rs
+++ b/src/keymap/vi.rs
@@ -1001,28 +1001,28 @@ impl Vi {
                         move_type = Inclusive;
                         match find_char(ed.current_buffer(), ed.cursor() + 1, c, count) {
                             Some(i) => ed.move_cursor_to(i - 1),
-                            None => Ok(()),
+                            None => return self.normal_mode_abort(ed),
                         }
                     }
                     RightAt => {
                         move_type = Inclusive;
                         match find_char(ed.current_buffer(), ed.cursor() + 1, c, count) {
                             Some(i) => ed.move_cursor_to(i),
-                            None => Ok(()),
+                            None => return self.normal_mode_abort(ed),
                         }
                     }
                     LeftUntil => {
                         move_type = Exclusive;
                         match find_char_rev(ed.current_buffer(), ed.cursor(), c, count) {
                             Some(i) => ed.move_cursor_to(i + 1),
-                            None => Ok(()),
+                            None => return self.normal_mode_abort(ed),
                         }
                     }
                     LeftAt => {
                         move_type = Exclusive;
                         match find_char_rev(ed.current_buffer(), ed.cursor(), c, count) {
                             Some(i) => ed.move_cursor_to(i),
-                            None => Ok(()),
+                            None => return self.normal_mode_abort(ed),
                         }
                     }
                     Repeat | ReverseRepeat => unreachable!(),
-- 
2.43.0


From d02ccfbc1286a2078cfbc36256a9c2150cebc311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:33 +0000
Subject: [PATCH 05/38] fix: cursor_is_at_end_of_line must not underflow on an
 empty line in vi normal mode

---
 src/editor.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/editor.rs b/src/editor.rs
index a926310..7d1cb4f 100644
--- a/src/editor.rs
+++ b/src/editor.rs
@@ -898,7 +898,7 @@ impl<C: EditorContext> Editor<C> {
     pub fn cursor_is_at_end_of_line(&self) -> bool {
         let num_chars = cur_buf!(self).num_chars();
         if self.no_eol {
-            self.cursor == num_chars - 1
+            self.cursor + 1 >= num_chars
         } else {
             self.cursor == num_chars
         }
-- 
2.43.0


From 34adc251a93d06d53379e7669cba62ffaff41236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:35 +0000
Subject: [PATCH 06/38] fix: vi `~` must report a display error instead of
 panicking

---
 src/keymap/vi.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/keymap/vi.rs b/src/keymap/vi.rs
index 81bd1ca..b342fe8 100644
--- a/src/keymap/vi.rs
+++ b/src/keymap/vi.rs
@@ -456,7 +456,7 @@ impl Vi {
         }
 
         if last_mode == Tilde {
-            ed.display().unwrap();
+            ed.display()?;
         }
         self.set_editor_mode(&mut ed)
     }
-- 
2.43.0


From 1ca9e126d5198fa9b5eb46a9ed3ab1575a113c12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:36 +0000
Subject: [PATCH 07/38] fix: do not panic when the cursor is displayed below
 the last printed line

---
 src/editor.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/editor.rs b/src/editor.rs
index 7d1cb4f..1ad0e95 100644
--- a/src/editor.rs
+++ b/src/editor.rs
@@ -1148,7 +1148,8 @@ impl<C: EditorContext> Editor<C> {
             write!(&mut out_buf, "{}", cursor::Up(cursor_line_diff as u16))
                 .map_err(io::Error::other)?;
         } else if cursor_line_diff < 0 {
-            unreachable!();
+            write!(&mut out_buf, "{}", cursor::Down(-cursor_line_diff as u16))
+                .map_err(io::Error::other)?;
         }
 
         // Now that we are on the right line, we must move the term cursor left or right
-- 
2.43.0


From 7f13ae09dfd6a672fb8887d4be8d3a494e045691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:38 +0000
Subject: [PATCH 08/38] fix: do not panic when the cursor line does not fit in
 16 bits

---
 src/editor.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/editor.rs b/src/editor.rs
index 1ad0e95..fdc6140 100644
--- a/src/editor.rs
+++ b/src/editor.rs
@@ -1056,7 +1056,7 @@ impl<C: EditorContext> Editor<C> {
 
         // Move the term cursor to the same line as the prompt.
         if self.term_cursor_line > 1 {
-            write!(out_buf, "{}", cursor::Up(self.term_cursor_line as u16 - 1))
+            write!(out_buf, "{}", cursor::Up((self.term_cursor_line - 1) as u16))
                 .map_err(io::Error::other)?;
         }
 
-- 
2.43.0


From 5ec8a004d0293e9ab642f79662dd96ad72977716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:40 +0000
Subject: [PATCH 09/38] fix: do not panic when listing completions on an
 extremely wide terminal

---
 src/editor.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/editor.rs b/src/editor.rs
index fdc6140..530447b 100644
--- a/src/editor.rs
+++ b/src/editor.rs
@@ -499,7 +499,8 @@ impl<C: EditorContext> Editor<C> {
         // XXX wide character support
         let max_word_size = completions.iter().fold(1, |m, x| max(m, x.chars().count()));
         let cols = max(1, w as usize / (max_word_size));
-        let col_width = 2 + w as usize / cols;
+        // `format!` can not pad to more than `u16::MAX`
+        let col_width = cmp::min(2 + w as usize / cols, u16::MAX as usize);
         let cols = max(1, w as usize / col_width);
 
         let lines = completions.len() / cols;
-- 
2.43.0


From 23c87fab14abe3ee21f6ea1a9f892387ae23724c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:41 +0000
Subject: [PATCH 10/38] fix: do not underflow when the terminal reports a width
 of 0

---
 src/editor.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/editor.rs b/src/editor.rs
index 530447b..1fc3542 100644
--- a/src/editor.rs
+++ b/src/editor.rs
@@ -266,7 +266,7 @@ impl<C: EditorContext> Editor<C> {
         {
             let out = context.terminal_mut();
             out.write_all("⏎".as_bytes())?;
-            for _ in 0..(out.width().unwrap_or(80) - 1) {
+            for _ in 0..out.width().unwrap_or(80).saturating_sub(1) {
                 out.write_all(b" ")?; // if the line is not empty, overflow on next line
             }
             out.write_all("\r \r".as_bytes())?; // Erase the "⏎" if nothing overwrites it
-- 
2.43.0


From 7af477ba290da0c6e91f3da6933d426a852076cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:43 +0000
Subject: [PATCH 11/38] fix: take_exec_buffer must leave the stored history
 entry and the cursor valid

---
 src/editor.rs | 13 ++-----------
 1 file changed, 2 insertions(+), 11 deletions(-)

diff --git a/src/editor.rs b/src/editor.rs
index 1fc3542..54a98e4 100644
--- a/src/editor.rs
+++ b/src/editor.rs
@@ -1200,17 +1200,8 @@ impl<C: EditorContext> Editor<C> {
 
     /// Remove and return the current buffer of commands to execute
     pub fn take_exec_buffer(&mut self) -> String {
-        mem::take(match self.cur_history_loc {
-            Some(i) => {
-                if self.hist_buf_valid {
-                    &mut self.hist_buf
-                } else {
-                    &mut self.context.history_mut()[i]
-                }
-            }
-            _ => &mut self.new_buf,
-        })
-        .into()
+        self.cursor = 0;
+        mem::take(cur_buf_mut!(self)).into()
     }
 }
 
-- 
2.43.0


From 0c76ebaf704758fe8ca79f40c708be6ccbe7f63b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:45 +0000
Subject: [PATCH 12/38] fix: undo and revert of an edited history entry must
 stop at the stored entry

---
 src/editor.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/editor.rs b/src/editor.rs
index 54a98e4..e5af574 100644
--- a/src/editor.rs
+++ b/src/editor.rs
@@ -228,6 +228,8 @@ macro_rules! cur_buf_mut {
             Some(i) => {
                 if !$s.hist_buf_valid {
                     $s.hist_buf.copy_buffer(&$s.context.history()[i]);
+                    // The copy is where undo and revert stop.
+                    $s.hist_buf.clear_actions();
                     $s.hist_buf_valid = true;
                 }
                 &mut $s.hist_buf
-- 
2.43.0


From 5769fb8f4d061aa74c59fd5e7c3f07cea9727eaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:47 +0000
Subject: [PATCH 13/38] fix: aborting a vi change must close its undo group

---
 src/keymap/vi.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/keymap/vi.rs b/src/keymap/vi.rs
index b342fe8..d863743 100644
--- a/src/keymap/vi.rs
+++ b/src/keymap/vi.rs
@@ -463,9 +463,14 @@ impl Vi {
 
     /// Return to normal mode.
     fn normal_mode_abort<C: EditorContext>(&mut self, mut ed: &mut Editor<C>) -> io::Result<()> {
+        let was_inserting = self.mode_stack.0.contains(&Mode::Insert);
         self.mode_stack.clear();
         ed.no_eol = true;
         self.count = 0;
+        if was_inserting {
+            // an aborted change already opened the undo group of its insert session
+            ed.current_buffer_mut().end_undo_group();
+        }
         self.set_editor_mode(&mut ed)
     }
 
-- 
2.43.0


From e3db0fffa4b4c404d19a19e859066d698e69f092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:49 +0000
Subject: [PATCH 14/38] fix: the count of vi `~` must not carry over to the
 next command

---
 src/keymap/vi.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/keymap/vi.rs b/src/keymap/vi.rs
index d863743..325e30f 100644
--- a/src/keymap/vi.rs
+++ b/src/keymap/vi.rs
@@ -839,6 +839,7 @@ impl Vi {
                         ed.move_cursor_right(1)?;
                     }
                 }
+                self.count = 0;
                 self.pop_mode(ed)?;
                 Ok(())
             }
-- 
2.43.0


From 8c6dedf81d705d6e966f60d79b43aea96469b10e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:51 +0000
Subject: [PATCH 15/38] fix: repeating vi `C` must end in normal mode

---
 src/keymap/vi.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/keymap/vi.rs b/src/keymap/vi.rs
index 325e30f..16eea26 100644
--- a/src/keymap/vi.rs
+++ b/src/keymap/vi.rs
@@ -692,14 +692,10 @@ impl Vi {
                 ed.delete_all_after_cursor()
             }
             Key::Char('C') => {
-                // update the last command state
-                self.last_insert = None;
-                self.last_command.clear();
-                self.last_command.push(key);
+                self.last_insert = Some(key);
                 self.count = 0;
-                self.last_count = 0;
 
-                self.set_mode_preserve_last(Insert, ed)?;
+                self.set_mode(Insert, ed)?;
                 ed.delete_all_after_cursor()
             }
             Key::Char('.') => {
-- 
2.43.0


From e2b13fed1bd869b7ec6fac0a9e307aa2437fead7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:53 +0000
Subject: [PATCH 16/38] fix: vi `dd` and `cc` must become the command repeated
 by `.`

---
 src/keymap/vi.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/keymap/vi.rs b/src/keymap/vi.rs
index 16eea26..cff8662 100644
--- a/src/keymap/vi.rs
+++ b/src/keymap/vi.rs
@@ -931,12 +931,11 @@ impl Vi {
             // handle numeric keys
             (Key::Char('0'..='9'), _) => self.handle_key_normal(key, ed),
             (Key::Char('c'), Some(Key::Char('c'))) | (Key::Char('d'), None) => {
-                // updating the last command buffer doesn't really make sense in this context.
-                // Repeating 'dd' will simply erase and already erased line. Any other commands
-                // will then become the new last command and the user will need to press 'dd' again
-                // to clear the line. The same largely applies to the 'cc' command. We update the
-                // last command here anyway ¯\_(ツ)_/¯
+                // update the last state
                 self.current_command.push(key);
+                mem::swap(&mut self.last_command, &mut self.current_command);
+                self.last_insert = self.current_insert;
+                self.last_count = 0;
 
                 // delete the whole line
                 self.count = 0;
-- 
2.43.0


From 02a2d82feb8d9662f396427d766442fd4cf9f4d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:55 +0000
Subject: [PATCH 17/38] fix: vi operators must complete on Home and End

---
 src/keymap/vi.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/keymap/vi.rs b/src/keymap/vi.rs
index cff8662..46e31ca 100644
--- a/src/keymap/vi.rs
+++ b/src/keymap/vi.rs
@@ -791,11 +791,11 @@ impl Vi {
                 self.count = self.count.saturating_mul(10).saturating_add(i);
                 Ok(())
             }
-            Key::Char('^') => {
+            Key::Char('^') | Key::Home => {
                 ed.move_cursor_to_start_of_line()?;
                 self.pop_mode_after_movement(Exclusive, ed)
             }
-            Key::Char('$') => {
+            Key::Char('$') | Key::End => {
                 ed.move_cursor_to_end_of_line()?;
                 self.pop_mode_after_movement(Exclusive, ed)
             }
-- 
2.43.0


From 2683e6d0c62bc0e893b813de6aa8718c13abb0db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:57 +0000
Subject: [PATCH 18/38] fix: remove_duplicates must compare whole entries

---
 src/history.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/history.rs b/src/history.rs
index d1dfad4..281731e 100644
--- a/src/history.rs
+++ b/src/history.rs
@@ -303,7 +303,7 @@ impl History {
     /// Removes duplicate entries in the history
     pub fn remove_duplicates(&mut self, input: &str) {
         self.buffers.retain(|buffer| {
-            let command = buffer.lines().concat();
+            let command = buffer.to_string();
             command != input
         });
     }
-- 
2.43.0


From 73dfabc45b974098c3143cac8d94e98e2bcf81f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:59 +0000
Subject: [PATCH 19/38] fix: reloading a shared history must drop locations
 that no longer exist

---
 src/editor.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/editor.rs b/src/editor.rs
index e5af574..e8127aa 100644
--- a/src/editor.rs
+++ b/src/editor.rs
@@ -386,6 +386,16 @@ impl<C: EditorContext> Editor<C> {
         if self.context.history().share && !self.history_fresh {
             let _ = self.context.history_mut().load_history(false);
             self.history_fresh = true;
+            // The history may have become shorter, do not keep locations that no longer exist.
+            let len = self.context.history().len();
+            if self.cur_history_loc.map_or(false, |i| i >= len) {
+                self.cur_history_loc = None;
+                self.hist_buf_valid = false;
+            }
+            if self.history_subset_index.iter().any(|&i| i >= len) {
+                self.history_subset_loc = None;
+                self.history_subset_index.clear();
+            }
         }
     }
 
-- 
2.43.0


From 26833690094ed5498f4bb3c7504950cf4e490846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:22 +0000
Subject: [PATCH 20/38] fix: returning to the new line must end the history
 subset it was browsing

---
 src/editor.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/editor.rs b/src/editor.rs
index e8127aa..efa29dd 100644
--- a/src/editor.rs
+++ b/src/editor.rs
@@ -759,6 +759,10 @@ impl<C: EditorContext> Editor<C> {
         self.hist_buf_valid = false;
         if self.cur_history_loc.is_some() {
             self.cur_history_loc = None;
+            if !self.is_search() {
+                self.history_subset_loc = None;
+                self.history_subset_index.clear();
+            }
             self.move_cursor_to_end_of_line()
         } else {
             self.display()
-- 
2.43.0


From f8fce8ac94ccd180cb36a836123ff006a23c083d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:23 +0000
Subject: [PATCH 21/38] fix: compacting the history file must not lose the
 entry being added

---
 src/history.rs | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/src/history.rs b/src/history.rs
index 281731e..1c16068 100644
--- a/src/history.rs
+++ b/src/history.rs
@@ -256,6 +256,16 @@ impl History {
         }
 
         if self.inc_append && self.file_name.is_some() {
+            let file_name = self.file_name.clone().unwrap();
+            if let Ok(inner_file) = std::fs::OpenOptions::new().append(true).open(&file_name) {
+                // Leave file size alone, if it is not right trigger a reload later.
+                let mut file = BufWriter::new(inner_file);
+                let _ = file.write_all(&item_str.as_bytes());
+                let _ = file.write_all(b"\n");
+                // Save the filesize after each append so we do not reload when we do not need to.
+                self.file_size += item_str.len() as u64 + 1;
+            }
+            // Compact only once the new item is in the file, it must not get lost.
             if !self.load_duplicates {
                 // Do not want duplicates so periodically compact the history file.
                 self.compaction_writes += 1;
@@ -284,18 +294,6 @@ impl History {
                 // If allowing duplicates then no need for compaction.
                 self.compaction_writes = 1;
             }
-            let file_name = self.file_name.clone().unwrap();
-            if let Ok(inner_file) = std::fs::OpenOptions::new().append(true).open(&file_name) {
-                // Leave file size alone, if it is not right trigger a reload later.
-                if self.compaction_writes > 0 {
-                    // If 0 we "compacted" and nothing to write.
-                    let mut file = BufWriter::new(inner_file);
-                    let _ = file.write_all(&item_str.as_bytes());
-                    let _ = file.write_all(b"\n");
-                    // Save the filesize after each append so we do not reload when we do not need to.
-                    self.file_size += item_str.len() as u64 + 1;
-                }
-            }
         }
         Ok(())
     }
-- 
2.43.0


From 2b96cfe93e9b1fefacadfa5c04b0cd36b2bb3668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:39 +0000
Subject: [PATCH 22/38] fix: repeating emacs last-arg fetch must replace
 exactly what the previous one inserted

---
 src/keymap/emacs.rs | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/keymap/emacs.rs b/src/keymap/emacs.rs
index 9ee5b3d..ff6b93e 100644
--- a/src/keymap/emacs.rs
+++ b/src/keymap/emacs.rs
@@ -16,6 +16,8 @@ use crate::KeyMap;
 #[derive(Default)]
 pub struct Emacs {
     last_arg_fetch_index: Option<usize>,
+    // Where the last fetched arg was inserted
+    last_arg_fetch_start: usize,
 }
 
 impl Emacs {
@@ -66,6 +68,19 @@ impl Emacs {
             return Ok(());
         }
 
+        // Forget the last arg fetch if what it inserted is no longer directly before the cursor
+        // (because of a completion or a history search, say).
+        if let Some(x) = self.last_arg_fetch_index {
+            let start = self.last_arg_fetch_start;
+            let in_place = x < ed.context().history().len() && start <= ed.cursor() && {
+                let inserted = ed.current_buffer().range_chars(start, ed.cursor());
+                &inserted[..] == ed.context().history()[x].last_arg().unwrap_or(&[])
+            };
+            if !in_place {
+                self.last_arg_fetch_index = None;
+            }
+        }
+
         let history_index = match self.last_arg_fetch_index {
             Some(0) => return Ok(()),
             Some(x) => x - 1,
@@ -77,11 +92,9 @@ impl Emacs {
         // If did a last arg fetch just before this, we need to delete it so it can be replaced by
         // this last arg fetch.
         if self.last_arg_fetch_index.is_some() {
-            let buffer_len = ed.current_buffer().num_chars();
-            if let Some(last_arg_len) = ed.current_buffer().last_arg().map(|x| x.len()) {
-                ed.delete_until(buffer_len - last_arg_len)?;
-            }
+            ed.delete_until(self.last_arg_fetch_start)?;
         }
+        self.last_arg_fetch_start = ed.cursor();
 
         // Actually insert it
         let buf = ed.context().history()[history_index].clone();
-- 
2.43.0


From eb05df683d031fb44cace9f10c94b12e25886d35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:41 +0000
Subject: [PATCH 23/38] fix: completing a quoted file name must not split a
 multi-byte character

---
 src/complete.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/complete.rs b/src/complete.rs
index 6d75730..097e615 100644
--- a/src/complete.rs
+++ b/src/complete.rs
@@ -61,7 +61,9 @@ impl Completer for FilenameCompleter {
         let start_owned: String = if start.starts_with('\"') || start.starts_with('\'') {
             start = &start[1..];
             if !start.is_empty() {
-                start = &start[..start.len() - 1];
+                let mut chars = start.chars();
+                chars.next_back();
+                start = chars.as_str();
             }
             start.into()
         } else {
-- 
2.43.0


From c089074135e0818570939117bf895264d04a65e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:42 +0000
Subject: [PATCH 24/38] fix: completing a file name such as `.` must not panic

---
 src/complete.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/complete.rs b/src/complete.rs
index 097e615..ef1b7ec 100644
--- a/src/complete.rs
+++ b/src/complete.rs
@@ -95,13 +95,13 @@ impl Completer for FilenameCompleter {
                 start_name = if self.case_sensitive {
                     full_path
                         .file_name()
-                        .unwrap()
+                        .unwrap_or_default()
                         .to_string_lossy()
                         .into_owned()
                 } else {
                     full_path
                         .file_name()
-                        .unwrap()
+                        .unwrap_or_default()
                         .to_string_lossy()
                         .to_lowercase()
                 };
-- 
2.43.0


From f21215cc8eea209380a110680804ea000d66d19e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:52 +0000
Subject: [PATCH 25/38] fix: history compaction must remember the size of the
 rewritten file

---
 src/history.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/history.rs b/src/history.rs
index 1c16068..f783e74 100644
--- a/src/history.rs
+++ b/src/history.rs
@@ -278,7 +278,13 @@ impl History {
                         let _ = self.load_history(false);
                         // Commit the duplicated history.
                         if let Some(file_name) = self.file_name.clone() {
-                            let _ = self.overwrite_history(file_name);
+                            if self.overwrite_history(&file_name).is_ok() {
+                                // The file got a new size, remember it or a later change to the
+                                // file could go unnoticed.
+                                if let Ok(meta) = std::fs::metadata(&file_name) {
+                                    self.file_size = meta.len();
+                                }
+                            }
                         }
                     } else {
                         // Not using shared history so just de-dup the file without messing with
-- 
2.43.0


From 26223bd1ad8bb9d27a1d28555f573344ce76b216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:16 +0000
Subject: [PATCH 26/38] fix: moving to the start of history ends the search

---
 src/editor.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/editor.rs b/src/editor.rs
index efa29dd..6e2bc8c 100644
--- a/src/editor.rs
+++ b/src/editor.rs
@@ -749,6 +749,9 @@ impl<C: EditorContext> Editor<C> {
             self.cur_history_loc = None;
             self.display()
         } else {
+            if self.is_search() {
+                self.clear_search();
+            }
             self.cur_history_loc = Some(0);
             self.move_cursor_to_end_of_line()
         }
-- 
2.43.0


From f1aefae03c813727b031a493dca7c32a1d42bd0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:31 +0000
Subject: [PATCH 27/38] fix: vi operator with a count before it and the motion
 0 (2d0) took the 0 as a digit

---
 src/keymap/vi.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/keymap/vi.rs b/src/keymap/vi.rs
index 46e31ca..4784a89 100644
--- a/src/keymap/vi.rs
+++ b/src/keymap/vi.rs
@@ -913,6 +913,8 @@ impl Vi {
             (key, _) if is_movement_key(key) | (key == Key::Char('0') && self.count == 0) => {
                 // set count
                 self.count = match (self.count, self.secondary_count) {
+                    // 0 is a motion only while no count was given, and it takes none
+                    _ if key == Key::Char('0') => 0,
                     (0, 0) => 0,
                     (_, 0) => self.count,
                     (0, _) => self.secondary_count,
-- 
2.43.0


From 107bc50ef3b0e04a40f2da08d2173c51657f1014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:49 +0000
Subject: [PATCH 28/38] fix: a vi change that is given up keeps the last change
 repeatable

---
 src/keymap/vi.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/keymap/vi.rs b/src/keymap/vi.rs
index 4784a89..c1325dc 100644
--- a/src/keymap/vi.rs
+++ b/src/keymap/vi.rs
@@ -672,7 +672,8 @@ impl Vi {
                     // handle special 'c' key stuff
                     self.current_insert = Some(key);
                     self.current_command.clear();
-                    self.set_mode(Insert, ed)?;
+                    // the last change stays the last one until this one has its motion
+                    self.set_mode_preserve_last(Insert, ed)?;
                 }
 
                 let start_pos = ed.cursor();
-- 
2.43.0


From a7b35395a954bf08b8e668da87f7048470b80157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:51 +0000
Subject: [PATCH 29/38] fix: vi repeat of what was typed after moving in insert
 mode took the count of the command before

---
 src/keymap/vi.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/keymap/vi.rs b/src/keymap/vi.rs
index c1325dc..e382e95 100644
--- a/src/keymap/vi.rs
+++ b/src/keymap/vi.rs
@@ -570,6 +570,7 @@ impl Vi {
                     self.movement_reset = false;
                     // vim behaves as if this was 'i'
                     self.last_insert = Some(Key::Char('i'));
+                    self.last_count = 0;
                 }
                 self.last_command.push(key);
                 ed.insert_after_cursor(c)
@@ -583,6 +584,7 @@ impl Vi {
                     self.movement_reset = false;
                     // vim behaves as if this was 'i'
                     self.last_insert = Some(Key::Char('i'));
+                    self.last_count = 0;
                 }
                 self.last_command.push(key);
                 self.handle_key_common(key, ed)
-- 
2.43.0


From e4aedbe244e96e4395bc423357cbc1189dd01e01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:53 +0000
Subject: [PATCH 30/38] fix: vi repeat of a change whose motion fails ran the
 typed text as commands

---
 src/keymap/vi.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/keymap/vi.rs b/src/keymap/vi.rs
index e382e95..be0e536 100644
--- a/src/keymap/vi.rs
+++ b/src/keymap/vi.rs
@@ -506,6 +506,10 @@ impl Vi {
 
         for k in &keys {
             self.handle_key_core(*k, ed)?;
+            // the motion of the change leads nowhere: what was typed then is no command
+            if self.last_insert.is_some() && self.mode() == Mode::Normal {
+                break;
+            }
         }
 
         if self.last_insert.is_some() {
-- 
2.43.0


From 01d1a0ac8a44fc7a518d565e0282a7f9de97431a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:55 +0000
Subject: [PATCH 31/38] fix: vi repeat of a counted delete or change with f, F,
 t, T, ; or , lost the count

---
 src/keymap/vi.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/keymap/vi.rs b/src/keymap/vi.rs
index be0e536..d69dc27 100644
--- a/src/keymap/vi.rs
+++ b/src/keymap/vi.rs
@@ -974,7 +974,6 @@ impl Vi {
         use self::MoveType::*;
 
         let count = self.move_count();
-        self.count = 0;
 
         let (key, movement) = match (key, movement, self.last_char_movement) {
             // repeat the last movement
@@ -1039,7 +1038,9 @@ impl Vi {
                 }?;
 
                 // go back to the previous mode
-                self.pop_mode_after_movement(move_type, ed)
+                self.pop_mode_after_movement(move_type, ed)?;
+                self.count = 0;
+                Ok(())
             }
 
             // can't get here due to our match above
-- 
2.43.0


From 3403c7f73a2e5a4fe39f2a1935e68651081dbb64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:33:52 +0000
Subject: [PATCH 32/38] fix: a quoted file name without its closing quote loses
 its last character

---
 src/complete.rs | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/complete.rs b/src/complete.rs
index ef1b7ec..00fb1cb 100644
--- a/src/complete.rs
+++ b/src/complete.rs
@@ -59,12 +59,9 @@ impl Completer for FilenameCompleter {
         // XXX: this function is really bad, TODO rewrite
 
         let start_owned: String = if start.starts_with('\"') || start.starts_with('\'') {
-            start = &start[1..];
-            if !start.is_empty() {
-                let mut chars = start.chars();
-                chars.next_back();
-                start = chars.as_str();
-            }
+            let (quote, rest) = start.split_at(1);
+            // the closing quote need not have been typed yet
+            start = rest.strip_suffix(quote).unwrap_or(rest);
             start.into()
         } else {
             start.replace(r"\ ", " ")
-- 
2.43.0


From 7db4c85ea1a351a04d74ce809c5332a43f3b439b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:33:54 +0000
Subject: [PATCH 33/38] fix: completing a path that ends in . lists its parent
 directory

---
 src/complete.rs | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/complete.rs b/src/complete.rs
index 00fb1cb..900bb90 100644
--- a/src/complete.rs
+++ b/src/complete.rs
@@ -78,16 +78,16 @@ impl Completer for FilenameCompleter {
             None => PathBuf::from(start_owned.as_str()),
         };
 
+        // `.` and `..` name a directory (`Path` ignores a trailing `.`)
+        let last = start_owned.rsplit('/').next().unwrap_or("");
+        let names_dir = last == "." || last == "..";
+
         let p;
         let start_name;
         let completing_dir;
         match full_path.parent() {
             // XXX non-unix separaor
-            Some(parent)
-                if !start.is_empty()
-                    && !start_owned.ends_with('/')
-                    && !full_path.ends_with("..") =>
-            {
+            Some(parent) if !start.is_empty() && !start_owned.ends_with('/') && !names_dir => {
                 p = parent;
                 start_name = if self.case_sensitive {
                     full_path
@@ -107,8 +107,7 @@ impl Completer for FilenameCompleter {
             _ => {
                 p = full_path.as_path();
                 start_name = "".into();
-                completing_dir =
-                    start.is_empty() || start.ends_with('/') || full_path.ends_with("..");
+                completing_dir = start.is_empty() || start.ends_with('/') || names_dir;
             }
         }
 
-- 
2.43.0


From cffef27c247397521b34feca49d9bb47addfdd2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:33:56 +0000
Subject: [PATCH 34/38] fix: file names complete in the current directory
 without a working directory

---
 src/complete.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/complete.rs b/src/complete.rs
index 900bb90..aa5e311 100644
--- a/src/complete.rs
+++ b/src/complete.rs
@@ -1,7 +1,7 @@
 use crate::EditorContext;
 
 use super::event::Event;
-use std::path::PathBuf;
+use std::path::{Path, PathBuf};
 
 pub trait Completer {
     fn completions(&mut self, start: &str) -> Vec<String>;
@@ -111,6 +111,13 @@ impl Completer for FilenameCompleter {
             }
         }
 
+        // a name without any directory is one of the current directory
+        let p = if p.as_os_str().is_empty() {
+            Path::new(".")
+        } else {
+            p
+        };
+
         let read_dir = match p.read_dir() {
             Ok(x) => x,
             Err(_) => return vec![],
-- 
2.43.0


From 31bf87909944138828d515c2e5ef7c3ae68880ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:35:37 +0000
Subject: [PATCH 35/38] fix: redrawing the line without its suggestion used the
 widths of the suggestion

---
 src/editor.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/editor.rs b/src/editor.rs
index 6e2bc8c..4a9bf93 100644
--- a/src/editor.rs
+++ b/src/editor.rs
@@ -1048,13 +1048,13 @@ impl<C: EditorContext> Editor<C> {
         }
 
         let buf_widths = match self.autosuggestion {
-            Some(ref suggestion) => suggestion.width(),
-            None => buf_width,
+            Some(ref suggestion) if show_autosuggest => suggestion.width(),
+            _ => buf_width,
         };
         // Width of the current buffer lines (including autosuggestion) from the start to the cursor
         let buf_widths_to_cursor = match self.autosuggestion {
             // Cursor might overrun autosuggestion with history search.
-            Some(ref suggestion) if self.cursor < suggestion.num_chars() => {
+            Some(ref suggestion) if show_autosuggest && self.cursor < suggestion.num_chars() => {
                 suggestion.range_width(0, self.cursor)
             }
             _ => buf.range_width(0, self.cursor),
-- 
2.43.0


From 0740bcf0b18a02d105ac03ca46f0424051dc3899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:35:39 +0000
Subject: [PATCH 36/38] fix: lines behind the first were not indented behind a
 long or an empty prompt

---
 src/editor.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/editor.rs b/src/editor.rs
index 4a9bf93..34d8dc3 100644
--- a/src/editor.rs
+++ b/src/editor.rs
@@ -1107,8 +1107,9 @@ impl<C: EditorContext> Editor<C> {
             if i > 0 {
                 // Account for the newline that separates this line from the previous one.
                 buf_num_remaining_bytes = buf_num_remaining_bytes.saturating_sub(1);
-                write!(out_buf, "{}", cursor::Right(prompt_width as u16))
-                    .map_err(io::Error::other)?;
+                // Moving the cursor to the right would stop at the right edge, and never move by
+                // zero columns.
+                out_buf.push_str(&" ".repeat(prompt_width));
             }
 
             if buf_num_remaining_bytes == 0 {
-- 
2.43.0


From 3883b178e5ea2a5bb43d112d5247e9200a62f2fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:35:41 +0000
Subject: [PATCH 37/38] fix: rows in which nothing is drawn were not counted
 when placing the cursor

---
 src/editor.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/editor.rs b/src/editor.rs
index 34d8dc3..83f99bf 100644
--- a/src/editor.rs
+++ b/src/editor.rs
@@ -1016,13 +1016,16 @@ impl<C: EditorContext> Editor<C> {
     fn display_impl(&mut self, show_autosuggest: bool) -> io::Result<()> {
         fn calc_width(prompt_width: usize, buf_widths: &[usize], terminal_width: usize) -> usize {
             let mut total = 0;
+            let mut drawn = 1;
 
             for line in buf_widths {
-                if total % terminal_width != 0 {
+                // A line in which nothing is drawn takes up a row, too.
+                if total % terminal_width != 0 || drawn == 0 {
                     total = ((total / terminal_width) + 1) * terminal_width;
                 }
 
-                total += prompt_width + line;
+                drawn = prompt_width + line;
+                total += drawn;
             }
 
             total
@@ -1156,7 +1159,8 @@ impl<C: EditorContext> Editor<C> {
         }
 
         // at the end of the line, move the cursor down a line
-        if new_total_width % terminal_width == 0 {
+        let last_width = prompt_width + buf_widths.last().cloned().unwrap_or(0);
+        if last_width > 0 && new_total_width % terminal_width == 0 {
             out_buf.push_str("\r\n");
         }
 
-- 
2.43.0


From fbcdf4acd8432074df4281b97933417322c00e2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:35:43 +0000
Subject: [PATCH 38/38] fix: clearing the screen did not reach the terminal

---
 src/editor.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/editor.rs b/src/editor.rs
index 83f99bf..89f3499 100644
--- a/src/editor.rs
+++ b/src/editor.rs
@@ -666,8 +666,9 @@ impl<C: EditorContext> Editor<C> {
 
     /// Clears the screen then prints the prompt and current buffer.
     pub fn clear(&mut self) -> io::Result<()> {
-        write!(&mut self.context, "{}{}", clear::All, cursor::Goto(1, 1))
-            .map_err(io::Error::other)?;
+        let mut out_buf = String::new();
+        write!(&mut out_buf, "{}{}", clear::All, cursor::Goto(1, 1)).map_err(io::Error::other)?;
+        self.context.terminal_mut().write_all(out_buf.as_bytes())?;
 
         self.term_cursor_line = 1;
         self.clear_search();
-- 
2.43.0

