From 7e8847216eb0b896f9eaa41fd478a034fde4807e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:46 +0000
Subject: [PATCH 01/21] fix: extend a common subsequence from its end, not one
 item past it

Skipping an item made the extension count items that are not common, so the
diff of some files lost or invented lines.
---
 pw_diff_lib/src/changes.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pw_diff_lib/src/changes.rs b/pw_diff_lib/src/changes.rs
index 0111e4a..3d83fa0 100644
--- a/pw_diff_lib/src/changes.rs
+++ b/pw_diff_lib/src/changes.rs
@@ -190,15 +190,15 @@ impl<'a, T: PartialEq + Clone, I: ContentItemIndices<T>> ChangesGenerator<'a, T,
                     .min(best_lcs.after_start()),
             );
 
-            if best_lcs.before_end() + 1 < before_range.end()
-                && best_lcs.after_end() + 1 < after_range.end()
+            if best_lcs.before_end() < before_range.end()
+                && best_lcs.after_end() < after_range.end()
             {
                 let count = self
                     .before
-                    .subsequence(Range(best_lcs.before_end() + 1, before_range.end()))
+                    .subsequence(Range(best_lcs.before_end(), before_range.end()))
                     .zip(
                         self.after
-                            .subsequence(Range(best_lcs.after_end() + 1, after_range.end())),
+                            .subsequence(Range(best_lcs.after_end(), after_range.end())),
                     )
                     .take_while(|(a, b)| a == b)
                     .count();
-- 
2.43.0


From 001545a32917eb45eaa2aa482b44abbcf575eee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:46 +0000
Subject: [PATCH 02/21] fix: write the lines of a clump applied with reductions
 by their place in the clump

The file's line numbers were used to index the clump's own lines: wrong lines
were written, or the program panicked.
---
 pw_diff_lib/src/apply_text.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pw_diff_lib/src/apply_text.rs b/pw_diff_lib/src/apply_text.rs
index 8da951c..77f9dcc 100644
--- a/pw_diff_lib/src/apply_text.rs
+++ b/pw_diff_lib/src/apply_text.rs
@@ -77,7 +77,7 @@ pub trait ApplyClumpFuzzy: TextClumpBasics {
         reverse: bool,
     ) -> io::Result<()> {
         if reductions.is_some() {
-            let range = self.before_range(reductions, reverse);
+            let range = self.my_before_range(reductions, reverse);
             for line in self.before_lines(Some(range), reverse) {
                 into.write_all(line.as_bytes())?;
             }
-- 
2.43.0


From dde7aef51f458768e1ff632ac9ea17cdf505f07f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:47 +0000
Subject: [PATCH 03/21] fix: do not underflow when a clump is longer than what
 is left of the file

---
 pw_diff_lib/src/apply_text.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pw_diff_lib/src/apply_text.rs b/pw_diff_lib/src/apply_text.rs
index 77f9dcc..4fb25a6 100644
--- a/pw_diff_lib/src/apply_text.rs
+++ b/pw_diff_lib/src/apply_text.rs
@@ -154,10 +154,11 @@ pub trait ApplyClumpFuzzy: TextClumpBasics {
         reverse: bool,
     ) -> Option<(isize, WillApply)> {
         let not_after = if let Some(next_clump) = next_clump {
-            next_clump.before_adjusted_start(offset, Some(self.context_lengths()), reverse) as usize
-                - self.before_adjusted_length(Some(self.context_lengths()), reverse)
+            next_clump.before_adjusted_start(offset, Some(self.context_lengths()), reverse)
+                - self.before_adjusted_length(Some(self.context_lengths()), reverse) as isize
         } else {
-            pd.data().len() - self.before_adjusted_length(Some(self.context_lengths()), reverse)
+            pd.data().len() as isize
+                - self.before_adjusted_length(Some(self.context_lengths()), reverse) as isize
         };
         let mut backward_done = false;
         let mut forward_done = false;
@@ -176,7 +177,7 @@ pub trait ApplyClumpFuzzy: TextClumpBasics {
             }
             if !forward_done {
                 let adjusted_offset = offset + i;
-                if self.before_adjusted_start(adjusted_offset, None, reverse) < not_after as isize {
+                if self.before_adjusted_start(adjusted_offset, None, reverse) < not_after {
                     if let Some(will_apply) = self.will_apply(pd.data(), adjusted_offset, reverse) {
                         return Some((i, will_apply));
                     }
-- 
2.43.0


From bc986d620af8d28856070f2e1fc4cda24ca3d380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:15 +0000
Subject: [PATCH 04/21] fix: do not apply a clump over what an earlier clump
 has already replaced

Two clumps could be placed on the same, or overlapping, lines of an edited
file; lines were then lost or written twice.
---
 pw_diff_lib/src/apply_bytes.rs |  8 ++++++--
 pw_diff_lib/src/apply_text.rs  | 30 +++++++++++++++++++++++++++---
 pw_diff_lib/src/byte_diff.rs   |  4 ++++
 3 files changed, 37 insertions(+), 5 deletions(-)

diff --git a/pw_diff_lib/src/apply_bytes.rs b/pw_diff_lib/src/apply_bytes.rs
index dc37988..9deb24c 100644
--- a/pw_diff_lib/src/apply_bytes.rs
+++ b/pw_diff_lib/src/apply_bytes.rs
@@ -8,6 +8,8 @@ use crate::sequence::{ConsumableSeq, ConsumableSeqIfce, Seq};
 
 pub trait ApplyClumpClean {
     fn will_apply(&self, se: &Seq<u8>, reverse: bool) -> bool;
+    /// Is the place where this clump goes clear of what has already been written?
+    fn is_unconsumed(&self, pd: &ConsumableSeq<u8>, reverse: bool) -> bool;
     fn is_already_applied(&self, se: &Seq<u8>, reverse: bool) -> bool;
     fn apply_into<W: io::Write>(
         &self,
@@ -42,10 +44,12 @@ where
         let mut clump_num = 0;
         while let Some(clump) = iter.next() {
             clump_num += 1; // for human consumption
-            if clump.will_apply(patchable, reverse) {
+            if clump.will_apply(patchable, reverse) && clump.is_unconsumed(&pd, reverse) {
                 clump.apply_into(&mut pd, into, reverse)?;
                 log::info!("Clump #{clump_num} applies cleanly.");
-            } else if clump.is_already_applied(patchable, reverse) {
+            } else if clump.is_already_applied(patchable, reverse)
+                && clump.is_unconsumed(&pd, !reverse)
+            {
                 clump.already_applied_into(&mut pd, into, reverse)?;
                 log::warn!("Clump #{clump_num} already applied");
             } else {
diff --git a/pw_diff_lib/src/apply_text.rs b/pw_diff_lib/src/apply_text.rs
index 4fb25a6..8e86ed6 100644
--- a/pw_diff_lib/src/apply_text.rs
+++ b/pw_diff_lib/src/apply_text.rs
@@ -131,6 +131,21 @@ pub trait ApplyClumpFuzzy: TextClumpBasics {
         }
     }
 
+    /// Is the place where this clump "will apply" clear of what has already been written?
+    fn is_unconsumed(
+        &self,
+        pd: &ConsumableSeq<String>,
+        offset: isize,
+        will_apply: &WillApply,
+        reverse: bool,
+    ) -> bool {
+        let reductions = match will_apply {
+            WillApply::Cleanly => None,
+            WillApply::WithReductions(reductions) => Some(*reductions),
+        };
+        self.before_adjusted_start(offset, reductions, reverse) >= pd.consumed() as isize
+    }
+
     fn apply_into<W: io::Write>(
         &self,
         into: &mut W,
@@ -178,7 +193,10 @@ pub trait ApplyClumpFuzzy: TextClumpBasics {
             if !forward_done {
                 let adjusted_offset = offset + i;
                 if self.before_adjusted_start(adjusted_offset, None, reverse) < not_after {
-                    if let Some(will_apply) = self.will_apply(pd.data(), adjusted_offset, reverse) {
+                    if let Some(will_apply) = self
+                        .will_apply(pd.data(), adjusted_offset, reverse)
+                        .filter(|wa| self.is_unconsumed(pd, adjusted_offset, wa, reverse))
+                    {
                         return Some((i, will_apply));
                     }
                 } else {
@@ -269,7 +287,10 @@ where
         let mut offset: isize = 0;
         while let Some(clump) = iter.next() {
             clump_num += 1; // for human consumption
-            if let Some(will_apply) = clump.will_apply(patchable, offset, reverse) {
+            if let Some(will_apply) = clump
+                .will_apply(patchable, offset, reverse)
+                .filter(|wa| clump.is_unconsumed(&pd, offset, wa, reverse))
+            {
                 match will_apply {
                     WillApply::Cleanly => {
                         clump.apply_into(into, &mut pd, offset, None, reverse)?;
@@ -298,7 +319,10 @@ where
                         log::warn!("Clump #{clump_num} applies with {reductions:?} reductions and offset {offset_adj}.");
                     }
                 }
-            } else if let Some(appplied) = clump.is_already_applied(patchable, offset, reverse) {
+            } else if let Some(appplied) = clump
+                .is_already_applied(patchable, offset, reverse)
+                .filter(|wa| clump.is_unconsumed(&pd, offset, wa, !reverse))
+            {
                 match appplied {
                     WillApply::Cleanly => {
                         clump.already_applied_into(into, &mut pd, offset, None, reverse)?;
diff --git a/pw_diff_lib/src/byte_diff.rs b/pw_diff_lib/src/byte_diff.rs
index 45bef4e..ae4052e 100644
--- a/pw_diff_lib/src/byte_diff.rs
+++ b/pw_diff_lib/src/byte_diff.rs
@@ -56,6 +56,10 @@ impl<'a> ApplyClumpClean for ByteChangeClump {
         data.has_subsequence_at(&before.items, before.start)
     }
 
+    fn is_unconsumed(&self, pd: &ConsumableSeq<u8>, reverse: bool) -> bool {
+        self.before(reverse).start >= pd.consumed()
+    }
+
     fn is_already_applied(&self, data: &Seq<u8>, reverse: bool) -> bool {
         let after = self.after(reverse);
         data.has_subsequence_at(&after.items, after.start)
-- 
2.43.0


From 8dc69a863d635639ce69f7e678ce9d134308c353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:15 +0000
Subject: [PATCH 05/21] fix: an empty subsequence is present at the end of a
 sequence

Changes without context at the end of a binary file could not be applied, and
a file emptied by a diff was not recognised as having it applied.
---
 pw_diff_lib/src/sequence.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pw_diff_lib/src/sequence.rs b/pw_diff_lib/src/sequence.rs
index ce05040..00ea809 100644
--- a/pw_diff_lib/src/sequence.rs
+++ b/pw_diff_lib/src/sequence.rs
@@ -29,7 +29,7 @@ impl<T: PartialEq + Clone> Seq<T> {
     }
 
     pub fn has_subsequence_at(&self, subsequence: &[T], at: usize) -> bool {
-        if at < self.len() && self.len() - at >= subsequence.len() {
+        if at <= self.len() && self.len() - at >= subsequence.len() {
             subsequence
                 .iter()
                 .zip(self.0[at..].iter())
-- 
2.43.0


From cbe7ffa8525e971506673a0f6f37901f3431d37a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:33 +0000
Subject: [PATCH 06/21] fix: fail when part of a patch cannot be applied

pw_patch reported success, for a binary file after dropping the changes that
did not fit.
---
 pw_diff_lib/src/apply_bytes.rs | 4 ++++
 pw_patch/src/main.rs           | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/pw_diff_lib/src/apply_bytes.rs b/pw_diff_lib/src/apply_bytes.rs
index 9deb24c..85797e6 100644
--- a/pw_diff_lib/src/apply_bytes.rs
+++ b/pw_diff_lib/src/apply_bytes.rs
@@ -54,6 +54,10 @@ where
                 log::warn!("Clump #{clump_num} already applied");
             } else {
                 log::error!("Clump #{clump_num} could NOT be applied!");
+                return Err(io::Error::new(
+                    io::ErrorKind::InvalidData,
+                    format!("Clump #{clump_num} could NOT be applied!"),
+                ));
             }
         }
         pd.write_remainder(into)
diff --git a/pw_patch/src/main.rs b/pw_patch/src/main.rs
index 0e62b12..56b815e 100644
--- a/pw_patch/src/main.rs
+++ b/pw_patch/src/main.rs
@@ -78,6 +78,10 @@ fn main() {
                     match diff.apply_into(&patchable_lines, &mut writer, args.reverse) {
                         Ok(stats) => {
                             match std::fs::rename(temp_file.path(), patchable_path) {
+                                Ok(_) if stats.failed > 0 => {
+                                    log::error!("Patch did not apply completely: {stats:?}");
+                                    std::process::exit(1);
+                                }
                                 Ok(_) => log::info!("{stats:?}"),
                                 Err(err) => {
                                     log::error!("Error writing patched file: {err}");
-- 
2.43.0


From 187703164aa59e5ad5a9710b24849b60f60b45d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:33 +0000
Subject: [PATCH 07/21] fix: do not take a file that cannot be examined for one
 that does not exist

The diff then said to remove, or to add, the whole file.
---
 pw_diff_lib/src/diff.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pw_diff_lib/src/diff.rs b/pw_diff_lib/src/diff.rs
index ce0a9d9..e4ef0a5 100644
--- a/pw_diff_lib/src/diff.rs
+++ b/pw_diff_lib/src/diff.rs
@@ -21,8 +21,8 @@ pub enum Diff {
 
 impl Diff {
     pub fn new(before_file_path: &Path, after_file_path: &Path, context: u8) -> io::Result<Self> {
-        if before_file_path.exists() {
-            if after_file_path.exists() {
+        if before_file_path.try_exists()? {
+            if after_file_path.try_exists()? {
                 match TextChangeDiff::new(before_file_path, after_file_path, context) {
                     Ok(text_change_diff) => Ok(Self::TextChange(text_change_diff)),
                     Err(_) => Ok(Self::ByteChange(ByteChangeDiff::new(
@@ -37,7 +37,7 @@ impl Diff {
                     Err(_) => Ok(Self::ByteRemove(PathAndBytes::new(before_file_path)?)),
                 }
             }
-        } else if after_file_path.exists() {
+        } else if after_file_path.try_exists()? {
             match PathAndLines::new(after_file_path) {
                 Ok(mut path_and_lines) => {
                     path_and_lines.change_path(&before_file_path);
-- 
2.43.0


From c52106111f110108b6357a0a2177083fc1119f78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:02 +0000
Subject: [PATCH 08/21] fix: notice when the end of a diff could not be written

---
 pw_diff/src/main.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pw_diff/src/main.rs b/pw_diff/src/main.rs
index 0c3e810..2fa4f79 100644
--- a/pw_diff/src/main.rs
+++ b/pw_diff/src/main.rs
@@ -1,6 +1,6 @@
 // Copyright 2024 Peter Williams <pwil3058@gmail.com> <pwil3058@bigpond.net.au>
 
-use std::io;
+use std::io::{self, Write};
 use std::path::PathBuf;
 
 use clap::Parser;
@@ -44,7 +44,12 @@ fn main() {
         }
     };
 
-    match diff.to_writer(&mut io::stdout()) {
+    let mut stdout = io::stdout();
+    match diff
+        .to_writer(&mut stdout)
+        .map_err(io::Error::from)
+        .and_then(|_| stdout.flush())
+    {
         Ok(_) => (),
         Err(err) => {
             log::error!("Error writing diff: {err}");
-- 
2.43.0


From 5f787631e4bfaa2a29f98c2acd0057594aabf152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:02 +0000
Subject: [PATCH 09/21] fix: remove the temporary file before exiting with an
 error

---
 pw_patch/src/main.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pw_patch/src/main.rs b/pw_patch/src/main.rs
index 56b815e..1dbe67e 100644
--- a/pw_patch/src/main.rs
+++ b/pw_patch/src/main.rs
@@ -72,6 +72,7 @@ fn main() {
                         Ok(file) => file,
                         Err(err) => {
                             log::error!("Error opening temporary file: {err}");
+                            drop(temp_file);
                             std::process::exit(1);
                         }
                     };
@@ -85,12 +86,14 @@ fn main() {
                                 Ok(_) => log::info!("{stats:?}"),
                                 Err(err) => {
                                     log::error!("Error writing patched file: {err}");
+                                    drop(temp_file);
                                     std::process::exit(1);
                                 }
                             };
                         }
                         Err(err) => {
                             log::error!("Patch failed to apply: {err}");
+                            drop(temp_file);
                             std::process::exit(1);
                         }
                     }
@@ -172,6 +175,7 @@ fn main() {
                         Ok(file) => file,
                         Err(err) => {
                             log::error!("Error opening temporary file: {err}");
+                            drop(temp_file);
                             std::process::exit(1);
                         }
                     };
@@ -181,12 +185,14 @@ fn main() {
                                 Ok(_) => log::info!("{stats:?}"),
                                 Err(err) => {
                                     log::error!("Error writing patched file: {err}");
+                                    drop(temp_file);
                                     std::process::exit(1);
                                 }
                             };
                         }
                         Err(err) => {
                             log::error!("Patch failed to apply: {err}");
+                            drop(temp_file);
                             std::process::exit(1);
                         }
                     }
-- 
2.43.0


From 8693e132f5064d46cfb2850cc8798e856f4f9577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:02 +0000
Subject: [PATCH 10/21] fix: do not remove the temporary file's name once it
 has been renamed away

By then another process may have created a file of that name.
---
 pw_patch/src/main.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/pw_patch/src/main.rs b/pw_patch/src/main.rs
index 1dbe67e..2d0d64a 100644
--- a/pw_patch/src/main.rs
+++ b/pw_patch/src/main.rs
@@ -79,11 +79,14 @@ fn main() {
                     match diff.apply_into(&patchable_lines, &mut writer, args.reverse) {
                         Ok(stats) => {
                             match std::fs::rename(temp_file.path(), patchable_path) {
-                                Ok(_) if stats.failed > 0 => {
-                                    log::error!("Patch did not apply completely: {stats:?}");
-                                    std::process::exit(1);
+                                Ok(_) => {
+                                    temp_file.leak();
+                                    if stats.failed > 0 {
+                                        log::error!("Patch did not apply completely: {stats:?}");
+                                        std::process::exit(1);
+                                    }
+                                    log::info!("{stats:?}")
                                 }
-                                Ok(_) => log::info!("{stats:?}"),
                                 Err(err) => {
                                     log::error!("Error writing patched file: {err}");
                                     drop(temp_file);
@@ -182,7 +185,10 @@ fn main() {
                     match diff.apply_into(&patchable_bytes, &mut writer, args.reverse) {
                         Ok(stats) => {
                             match std::fs::rename(temp_file.path(), patchable_path) {
-                                Ok(_) => log::info!("{stats:?}"),
+                                Ok(_) => {
+                                    temp_file.leak();
+                                    log::info!("{stats:?}")
+                                }
                                 Err(err) => {
                                     log::error!("Error writing patched file: {err}");
                                     drop(temp_file);
-- 
2.43.0


From 8adfa5aec8d2a93bed80c5cdcf015896bf6485b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:02 +0000
Subject: [PATCH 11/21] fix: create the temporary file in the directory of the
 file being patched

Renaming it from the working directory fails when the file is on another
file system.
---
 pw_patch/src/main.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/pw_patch/src/main.rs b/pw_patch/src/main.rs
index 2d0d64a..99f20f9 100644
--- a/pw_patch/src/main.rs
+++ b/pw_patch/src/main.rs
@@ -2,7 +2,7 @@
 
 use std::fs;
 use std::fs::File;
-use std::path::PathBuf;
+use std::path::{Path, PathBuf};
 
 use clap::Parser;
 use log;
@@ -23,6 +23,14 @@ struct Cli {
     patch_path: PathBuf,
 }
 
+/// The directory in which to put a temporary file that will be renamed to `path`.
+fn parent_dir(path: &Path) -> &Path {
+    match path.parent() {
+        Some(parent) if parent != Path::new("") => parent,
+        _ => Path::new("."),
+    }
+}
+
 fn main() {
     let args = Cli::parse();
 
@@ -66,7 +74,7 @@ fn main() {
                 }
             };
 
-            match temp_file::TempFile::in_dir(".") {
+            match temp_file::TempFile::in_dir(parent_dir(patchable_path)) {
                 Ok(temp_file) => {
                     let mut writer = match File::create(temp_file.path()) {
                         Ok(file) => file,
@@ -172,7 +180,7 @@ fn main() {
                 }
             };
 
-            match temp_file::TempFile::in_dir(".") {
+            match temp_file::TempFile::in_dir(parent_dir(patchable_path)) {
                 Ok(temp_file) => {
                     let mut writer = match File::create(temp_file.path()) {
                         Ok(file) => file,
-- 
2.43.0


From 4aa021aa9d3b314f3915cf3b3fa0308d60a4dd6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:02 +0000
Subject: [PATCH 12/21] fix: keep the permissions of the file being patched

---
 pw_patch/src/main.rs | 28 ++++++++++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/pw_patch/src/main.rs b/pw_patch/src/main.rs
index 99f20f9..a22c6b6 100644
--- a/pw_patch/src/main.rs
+++ b/pw_patch/src/main.rs
@@ -66,6 +66,13 @@ fn main() {
                     std::process::exit(1);
                 }
             };
+            let permissions = match patchable_file.metadata() {
+                Ok(metadata) => metadata.permissions(),
+                Err(err) => {
+                    log::error!("Error examining {patchable_path:?}: {err}");
+                    std::process::exit(1);
+                }
+            };
             let patchable_lines = match Seq::<String>::read(patchable_file) {
                 Ok(lines) => lines,
                 Err(err) => {
@@ -84,7 +91,12 @@ fn main() {
                             std::process::exit(1);
                         }
                     };
-                    match diff.apply_into(&patchable_lines, &mut writer, args.reverse) {
+                    match diff
+                        .apply_into(&patchable_lines, &mut writer, args.reverse)
+                        .and_then(|stats| {
+                            writer.set_permissions(permissions)?;
+                            Ok(stats)
+                        }) {
                         Ok(stats) => {
                             match std::fs::rename(temp_file.path(), patchable_path) {
                                 Ok(_) => {
@@ -172,6 +184,13 @@ fn main() {
                     std::process::exit(1);
                 }
             };
+            let permissions = match patchable_file.metadata() {
+                Ok(metadata) => metadata.permissions(),
+                Err(err) => {
+                    log::error!("Error examining {patchable_path:?}: {err}");
+                    std::process::exit(1);
+                }
+            };
             let patchable_bytes = match Seq::<u8>::read(patchable_file) {
                 Ok(lines) => lines,
                 Err(err) => {
@@ -190,7 +209,12 @@ fn main() {
                             std::process::exit(1);
                         }
                     };
-                    match diff.apply_into(&patchable_bytes, &mut writer, args.reverse) {
+                    match diff
+                        .apply_into(&patchable_bytes, &mut writer, args.reverse)
+                        .and_then(|stats| {
+                            writer.set_permissions(permissions)?;
+                            Ok(stats)
+                        }) {
                         Ok(stats) => {
                             match std::fs::rename(temp_file.path(), patchable_path) {
                                 Ok(_) => {
-- 
2.43.0


From 9d7fc03aad4d6e2fd7884b840c33d1c79a694dbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:02 +0000
Subject: [PATCH 13/21] fix: make the patched content durable before it
 replaces the old

After a loss of power the file could be empty or incomplete.
---
 pw_patch/src/main.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pw_patch/src/main.rs b/pw_patch/src/main.rs
index a22c6b6..4e2b7bb 100644
--- a/pw_patch/src/main.rs
+++ b/pw_patch/src/main.rs
@@ -95,6 +95,7 @@ fn main() {
                         .apply_into(&patchable_lines, &mut writer, args.reverse)
                         .and_then(|stats| {
                             writer.set_permissions(permissions)?;
+                            writer.sync_all()?;
                             Ok(stats)
                         }) {
                         Ok(stats) => {
@@ -213,6 +214,7 @@ fn main() {
                         .apply_into(&patchable_bytes, &mut writer, args.reverse)
                         .and_then(|stats| {
                             writer.set_permissions(permissions)?;
+                            writer.sync_all()?;
                             Ok(stats)
                         }) {
                         Ok(stats) => {
-- 
2.43.0


From 033f9ac831296033e062d79841b49ed89be11e17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:40 +0000
Subject: [PATCH 14/21] fix: create a file completely or not at all, and fail
 when it cannot be

A failed creation left a partial file behind and was reported as a success.
---
 pw_patch/src/main.rs | 74 +++++++++++++++++++++++++-------------------
 1 file changed, 42 insertions(+), 32 deletions(-)

diff --git a/pw_patch/src/main.rs b/pw_patch/src/main.rs
index 4e2b7bb..ec1c0bc 100644
--- a/pw_patch/src/main.rs
+++ b/pw_patch/src/main.rs
@@ -2,6 +2,8 @@
 
 use std::fs;
 use std::fs::File;
+use std::io;
+use std::io::ErrorKind::{PermissionDenied, Unsupported};
 use std::path::{Path, PathBuf};
 
 use clap::Parser;
@@ -31,6 +33,30 @@ fn parent_dir(path: &Path) -> &Path {
     }
 }
 
+/// Create the file at `path` with all of its content or not at all, and never in place of another.
+fn create_file<F>(path: &Path, write_into: F) -> io::Result<()>
+where
+    F: Fn(&mut File) -> io::Result<()>,
+{
+    let temp_file = temp_file::TempFile::in_dir(parent_dir(path))?;
+    let mut file = File::create(temp_file.path())?;
+    write_into(&mut file)?;
+    file.sync_all()?;
+    match fs::hard_link(temp_file.path(), path) {
+        Err(err) if matches!(err.kind(), PermissionDenied | Unsupported) => {
+            // The file system does not have hard links.
+            let mut file = File::create_new(path)?;
+            write_into(&mut file)
+                .and_then(|_| file.sync_all())
+                .map_err(|err| {
+                    let _ = fs::remove_file(path);
+                    err
+                })
+        }
+        result => result,
+    }
+}
+
 fn main() {
     let args = Cli::parse();
 
@@ -139,15 +165,11 @@ fn main() {
                     }
                 }
             } else {
-                match File::create_new(path) {
-                    Ok(mut file) => match path_and_lines.write_into(&mut file) {
-                        Ok(_) => log::info!("{path:?} created"),
-                        Err(err) => {
-                            log::error!("{path:?} creation failed: {err}")
-                        }
-                    },
+                match create_file(path, |file| path_and_lines.write_into(file)) {
+                    Ok(_) => log::info!("{path:?} created"),
                     Err(err) => {
-                        log::error!("{path:?} creation failed: {err}")
+                        log::error!("{path:?} creation failed: {err}");
+                        std::process::exit(1)
                     }
                 }
             }
@@ -155,15 +177,11 @@ fn main() {
         Diff::TextRemove(path_and_lines) => {
             let path = path_and_lines.path();
             if args.reverse {
-                match File::create_new(path) {
-                    Ok(mut file) => match path_and_lines.write_into(&mut file) {
-                        Ok(_) => log::info!("{path:?} created"),
-                        Err(err) => {
-                            log::error!("{path:?} creation failed: {err}")
-                        }
-                    },
+                match create_file(path, |file| path_and_lines.write_into(file)) {
+                    Ok(_) => log::info!("{path:?} created"),
                     Err(err) => {
-                        log::error!("{path:?} creation failed: {err}")
+                        log::error!("{path:?} creation failed: {err}");
+                        std::process::exit(1)
                     }
                 }
             } else {
@@ -254,15 +272,11 @@ fn main() {
                     }
                 }
             } else {
-                match File::create_new(path) {
-                    Ok(mut file) => match path_and_bytes.write_into(&mut file) {
-                        Ok(_) => log::info!("{path:?} created"),
-                        Err(err) => {
-                            log::error!("{path:?} creation failed: {err}")
-                        }
-                    },
+                match create_file(path, |file| path_and_bytes.write_into(file)) {
+                    Ok(_) => log::info!("{path:?} created"),
                     Err(err) => {
-                        log::error!("{path:?} creation failed: {err}")
+                        log::error!("{path:?} creation failed: {err}");
+                        std::process::exit(1)
                     }
                 }
             }
@@ -270,15 +284,11 @@ fn main() {
         Diff::ByteRemove(path_and_bytes) => {
             let path = path_and_bytes.path();
             if args.reverse {
-                match File::create_new(path) {
-                    Ok(mut file) => match path_and_bytes.write_into(&mut file) {
-                        Ok(_) => log::info!("{path:?} created"),
-                        Err(err) => {
-                            log::error!("{path:?} creation failed: {err}")
-                        }
-                    },
+                match create_file(path, |file| path_and_bytes.write_into(file)) {
+                    Ok(_) => log::info!("{path:?} created"),
                     Err(err) => {
-                        log::error!("{path:?} creation failed: {err}")
+                        log::error!("{path:?} creation failed: {err}");
+                        std::process::exit(1)
                     }
                 }
             } else {
-- 
2.43.0


From 670605a9ac6e7a3261274f14c0d473e0acb09492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:22 +0000
Subject: [PATCH 15/21] fix: do not remove a file whose content is not what the
 patch says

Changes made to the file since the patch was made were lost.
---
 pw_patch/src/main.rs | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/pw_patch/src/main.rs b/pw_patch/src/main.rs
index ec1c0bc..921cd6f 100644
--- a/pw_patch/src/main.rs
+++ b/pw_patch/src/main.rs
@@ -57,6 +57,22 @@ where
     }
 }
 
+/// Remove the file at `path` provided that it has the expected content.
+fn remove_file<F>(path: &Path, write_into: F) -> io::Result<()>
+where
+    F: FnOnce(&mut Vec<u8>) -> io::Result<()>,
+{
+    let mut expected = vec![];
+    write_into(&mut expected)?;
+    if fs::read(path)? != expected {
+        return Err(io::Error::new(
+            io::ErrorKind::InvalidData,
+            "its content is not what the patch expects",
+        ));
+    }
+    fs::remove_file(path)
+}
+
 fn main() {
     let args = Cli::parse();
 
@@ -157,7 +173,7 @@ fn main() {
         Diff::TextAdd(path_and_lines) => {
             let path = path_and_lines.path();
             if args.reverse {
-                match fs::remove_file(path) {
+                match remove_file(path, |content| path_and_lines.write_into(content)) {
                     Ok(_) => log::info!("{path:?} deleted"),
                     Err(err) => {
                         log::error!("{path:?} deletion failed: {err}");
@@ -185,7 +201,7 @@ fn main() {
                     }
                 }
             } else {
-                match fs::remove_file(path) {
+                match remove_file(path, |content| path_and_lines.write_into(content)) {
                     Ok(_) => log::info!("{path:?} deleted"),
                     Err(err) => {
                         log::error!("{path:?} deletion failed: {err}");
@@ -264,7 +280,7 @@ fn main() {
         Diff::ByteAdd(path_and_bytes) => {
             let path = path_and_bytes.path();
             if args.reverse {
-                match fs::remove_file(path) {
+                match remove_file(path, |content| path_and_bytes.write_into(content)) {
                     Ok(_) => log::info!("{path:?} deleted"),
                     Err(err) => {
                         log::error!("{path:?} deletion failed: {err}");
@@ -292,7 +308,7 @@ fn main() {
                     }
                 }
             } else {
-                match fs::remove_file(path) {
+                match remove_file(path, |content| path_and_bytes.write_into(content)) {
                     Ok(_) => log::info!("{path:?} deleted"),
                     Err(err) => {
                         log::error!("{path:?} deletion failed: {err}");
-- 
2.43.0


From 9aaba43c2a7da94102a83288e203bd63dad72083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:22 +0000
Subject: [PATCH 16/21] fix: do not overflow on a unified diff clump with more
 than 255 lines of context

---
 pw_cub_diff_lib/src/unified_diff.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pw_cub_diff_lib/src/unified_diff.rs b/pw_cub_diff_lib/src/unified_diff.rs
index 0b7af18..c3690ac 100644
--- a/pw_cub_diff_lib/src/unified_diff.rs
+++ b/pw_cub_diff_lib/src/unified_diff.rs
@@ -161,9 +161,9 @@ impl UnifiedDiffClump {
                 before_lines.push(line.as_str().to_string());
                 after_lines.push(line.as_str().to_string());
                 if at_the_front {
-                    start_context_length += 1
+                    start_context_length = start_context_length.saturating_add(1)
                 } else {
-                    end_context_length += 1
+                    end_context_length = end_context_length.saturating_add(1)
                 }
                 last_line_type = "-";
             } else {
-- 
2.43.0


From f4c014b01f275905d705a8660d950f2df6dae77e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:54 +0000
Subject: [PATCH 17/21] fix: remove just the newline, of the right lines, for
 "\ No newline at end of file"

After a context line only the old text lost its newline, trailing spaces were
lost with it, and a clump without lines caused a panic.
---
 pw_cub_diff_lib/src/unified_diff.rs | 29 ++++++++++++++++-------------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/pw_cub_diff_lib/src/unified_diff.rs b/pw_cub_diff_lib/src/unified_diff.rs
index c3690ac..2efe397 100644
--- a/pw_cub_diff_lib/src/unified_diff.rs
+++ b/pw_cub_diff_lib/src/unified_diff.rs
@@ -117,6 +117,15 @@ pub fn starts_and_lengths(
     }
 }
 
+/// Remove the newline that the last line does not have according to "\\ No newline at end of file".
+fn trim_newline(lines: &mut [String]) {
+    if let Some(line) = lines.last_mut() {
+        if line.ends_with('\n') {
+            line.pop();
+        }
+    }
+}
+
 pub struct UnifiedDiffClump {
     pub starts_and_lengths: StartsAndLengths,
     pub before_lines: Box<[String]>,
@@ -165,7 +174,7 @@ impl UnifiedDiffClump {
                 } else {
                     end_context_length = end_context_length.saturating_add(1)
                 }
-                last_line_type = "-";
+                last_line_type = " ";
             } else {
                 return Err(DiffParseError::UnexpectedEndClump(start_index + index + 1));
             }
@@ -173,19 +182,13 @@ impl UnifiedDiffClump {
         }
         let mut lines_consumed = index + 1;
         if let Some(line) = iter.next() {
-            if line.starts_with("\\") {
+            if line.starts_with("\\") && index > 0 {
                 lines_consumed += 1;
-                if last_line_type == "-" {
-                    let line = before_lines.pop().unwrap();
-                    before_lines.push(line.trim_end().to_string())
-                } else if last_line_type == "+" {
-                    let line = after_lines.pop().unwrap();
-                    after_lines.push(line.trim_end().to_string())
-                } else {
-                    let line = before_lines.pop().unwrap();
-                    before_lines.push(line.trim_end().to_string());
-                    let line = after_lines.pop().unwrap();
-                    after_lines.push(line.trim_end().to_string())
+                if last_line_type != "+" {
+                    trim_newline(&mut before_lines);
+                }
+                if last_line_type != "-" {
+                    trim_newline(&mut after_lines);
                 }
             }
         }
-- 
2.43.0


From f4013f60b7d37de8a14c6cd5a98c9165efbcdfc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:54 +0000
Subject: [PATCH 18/21] fix: accept "\ No newline at end of file" between the
 old and the new lines

---
 pw_cub_diff_lib/src/unified_diff.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pw_cub_diff_lib/src/unified_diff.rs b/pw_cub_diff_lib/src/unified_diff.rs
index 2efe397..2482caa 100644
--- a/pw_cub_diff_lib/src/unified_diff.rs
+++ b/pw_cub_diff_lib/src/unified_diff.rs
@@ -175,6 +175,10 @@ impl UnifiedDiffClump {
                     end_context_length = end_context_length.saturating_add(1)
                 }
                 last_line_type = " ";
+            } else if line.starts_with('\\') && last_line_type == "-" {
+                trim_newline(&mut before_lines);
+            } else if line.starts_with('\\') && last_line_type == "+" {
+                trim_newline(&mut after_lines);
             } else {
                 return Err(DiffParseError::UnexpectedEndClump(start_index + index + 1));
             }
-- 
2.43.0


From 7c2e04ccd2662a9967385e79558b0b21c199e0d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:54 +0000
Subject: [PATCH 19/21] fix: refuse a unified diff clump with more lines than
 its header says

Also do not panic when asked for a clump beyond the end.
---
 pw_cub_diff_lib/src/unified_diff.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/pw_cub_diff_lib/src/unified_diff.rs b/pw_cub_diff_lib/src/unified_diff.rs
index 2482caa..f2f7ee5 100644
--- a/pw_cub_diff_lib/src/unified_diff.rs
+++ b/pw_cub_diff_lib/src/unified_diff.rs
@@ -117,7 +117,7 @@ pub fn starts_and_lengths(
     }
 }
 
-/// Remove the newline that the last line does not have according to "\\ No newline at end of file".
+/// Remove the newline that the last line does not have according to "\ No newline at end of file".
 fn trim_newline(lines: &mut [String]) {
     if let Some(line) = lines.last_mut() {
         if line.ends_with('\n') {
@@ -136,6 +136,9 @@ pub struct UnifiedDiffClump {
 
 impl UnifiedDiffClump {
     pub fn get_from_at(lines: &Seq<String>, start_index: usize) -> DiffParseResult<Option<Self>> {
+        if start_index > lines.len() {
+            return Ok(None);
+        }
         let mut iter = lines.subsequence(lines.range_from(start_index));
         let line = match iter.next() {
             Some(line) => line,
@@ -184,6 +187,11 @@ impl UnifiedDiffClump {
             }
             index += 1;
         }
+        if before_lines.len() != starts_and_lengths.before.length
+            || after_lines.len() != starts_and_lengths.after.length
+        {
+            return Err(DiffParseError::UnexpectedEndClump(start_index + index));
+        }
         let mut lines_consumed = index + 1;
         if let Some(line) = iter.next() {
             if line.starts_with("\\") && index > 0 {
-- 
2.43.0


From a352e12fb299a970e8cd9968609b4f78a8e3af62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:10 +0000
Subject: [PATCH 20/21] fix: do not give the temporary file the name of the
 file being created

---
 pw_patch/src/main.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pw_patch/src/main.rs b/pw_patch/src/main.rs
index 921cd6f..234de79 100644
--- a/pw_patch/src/main.rs
+++ b/pw_patch/src/main.rs
@@ -38,7 +38,13 @@ fn create_file<F>(path: &Path, write_into: F) -> io::Result<()>
 where
     F: Fn(&mut File) -> io::Result<()>,
 {
-    let temp_file = temp_file::TempFile::in_dir(parent_dir(path))?;
+    // `path` does not exist yet, so see to it that the temporary file does not get that very name.
+    let name = path.file_name().unwrap_or_default();
+    let is_hidden = name.as_encoded_bytes().starts_with(b".");
+    let temp_file = temp_file::TempFileBuilder::new()
+        .in_dir(parent_dir(path))
+        .prefix(if is_hidden { "" } else { "." })
+        .build()?;
     let mut file = File::create(temp_file.path())?;
     write_into(&mut file)?;
     file.sync_all()?;
-- 
2.43.0


From 330965b0ffd52b1f97a476d98784553d18098fc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:58 +0000
Subject: [PATCH 21/21] fix: give the temporary file the permissions of the
 file before its content

---
 pw_patch/src/main.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/pw_patch/src/main.rs b/pw_patch/src/main.rs
index 234de79..b609553 100644
--- a/pw_patch/src/main.rs
+++ b/pw_patch/src/main.rs
@@ -33,6 +33,13 @@ fn parent_dir(path: &Path) -> &Path {
     }
 }
 
+/// Open the temporary file at `path` for content meant for those whom `permissions` let read it.
+fn create_like(path: &Path, permissions: &fs::Permissions) -> io::Result<File> {
+    let file = File::create(path)?;
+    file.set_permissions(permissions.clone())?;
+    Ok(file)
+}
+
 /// Create the file at `path` with all of its content or not at all, and never in place of another.
 fn create_file<F>(path: &Path, write_into: F) -> io::Result<()>
 where
@@ -131,7 +138,7 @@ fn main() {
 
             match temp_file::TempFile::in_dir(parent_dir(patchable_path)) {
                 Ok(temp_file) => {
-                    let mut writer = match File::create(temp_file.path()) {
+                    let mut writer = match create_like(temp_file.path(), &permissions) {
                         Ok(file) => file,
                         Err(err) => {
                             log::error!("Error opening temporary file: {err}");
@@ -242,7 +249,7 @@ fn main() {
 
             match temp_file::TempFile::in_dir(parent_dir(patchable_path)) {
                 Ok(temp_file) => {
-                    let mut writer = match File::create(temp_file.path()) {
+                    let mut writer = match create_like(temp_file.path(), &permissions) {
                         Ok(file) => file,
                         Err(err) => {
                             log::error!("Error opening temporary file: {err}");
-- 
2.43.0

