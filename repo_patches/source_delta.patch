From 1ed40d2208da7abcc32c9e1b8656995dc231bc7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:33 +0000
Subject: [PATCH 1/4] fix: count nested functions of a list without overflow

More than 255 functions in one predicate list overflowed the u8 counter:
a panic in debug builds, an expression with missing operands otherwise.
---
 src/expr/parser.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/expr/parser.rs b/src/expr/parser.rs
index 4b5014e..abf2d16 100644
--- a/src/expr/parser.rs
+++ b/src/expr/parser.rs
@@ -27,7 +27,7 @@ impl Expression {
             parens_index: usize,
             span: std::ops::Range<usize>,
             predicates: SmallVec<[InnerPredicate; 5]>,
-            nest_level: u8,
+            nest_level: usize,
         }
 
         let mut func_stack = SmallVec::<[FuncAndSpan; 5]>::new();
@@ -317,7 +317,7 @@ impl Expression {
                             #[allow(clippy::bool_to_int_with_if)]
                             let num_predicates = top.predicates.len()
                                 + if key.is_some() { 1 } else { 0 }
-                                + top.nest_level as usize;
+                                + top.nest_level;
 
                             let func = match top.func {
                                 Func::All(_) => Func::All(num_predicates),
-- 
2.43.0


From 5430cfce8f2704515808a76e6723351ac1e2f9d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:33 +0000
Subject: [PATCH 2/4] fix: reject multiple root predicates that are functions

`all(a), any(b)` and `all(a), b` were accepted although they have two root
predicates, and evaluated as only the last one.
---
 src/expr/parser.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/expr/parser.rs b/src/expr/parser.rs
index abf2d16..97eb2a3 100644
--- a/src/expr/parser.rs
+++ b/src/expr/parser.rs
@@ -348,6 +348,12 @@ impl Expression {
 
                             expr_queue.push(ExprNode::Fn(func));
 
+                            // A function outside of any other function is also
+                            // a root predicate
+                            if func_stack.is_empty() {
+                                root_predicate_count += 1;
+                            }
+
                             // This is the only place we go back to the top of the outer loop,
                             // so make sure we correctly record this token
                             last_token = Some(Token::CloseParen);
-- 
2.43.0


From 1c89aa427ba1baebecf6642488502974f06f83fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:33 +0000
Subject: [PATCH 3/4] fix: end the token stream after a lexing error

The lexer did not advance past an invalid character or an unclosed quote, so
the iterator yielded the same error forever and draining it never returned.
---
 src/expr/lexer.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/expr/lexer.rs b/src/expr/lexer.rs
index 60abc6b..2957c88 100644
--- a/src/expr/lexer.rs
+++ b/src/expr/lexer.rs
@@ -145,6 +145,12 @@ impl<'a> Iterator for Lexer<'a> {
             }
         }
         .map(|tok| {
+            if tok.is_err() {
+                // Nothing after an error can be lexed, so the stream ends there
+                // instead of yielding the same error forever
+                self.inner = "";
+            }
+
             tok.map(|tok| {
                 let len = tok.len();
 
-- 
2.43.0


From f92bf2dedd9b4eef9b97f181c2d1f8882c646359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:49 +0000
Subject: [PATCH 4/4] fix: replace the README atomically when regenerating

A regeneration that was killed or ran out of disk space while writing the
README left it empty or cut short, and as the version marker is read from
there every later run failed until it was restored by hand.
---
 update/src/main.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/update/src/main.rs b/update/src/main.rs
index 166b84c..26d4e8c 100644
--- a/update/src/main.rs
+++ b/update/src/main.rs
@@ -473,7 +473,15 @@ fn finalize(builtins: String, readme: String) -> Result<(), String> {
         return Err(format!("failed to successfully format: {status}"));
     }
 
-    std::fs::write(README, readme).map_err(|e| format!("failed to write {README}: {e}"))?;
+    // The README is an input of the next run, so it must never be left truncated
+    // or half written: replace it in one step
+    let tmp = format!("{README}.tmp");
+    std::fs::write(&tmp, readme)
+        .and_then(|()| std::fs::rename(&tmp, README))
+        .map_err(|e| {
+            let _ = std::fs::remove_file(&tmp);
+            format!("failed to write {README}: {e}")
+        })?;
     Ok(())
 }
 
-- 
2.43.0

