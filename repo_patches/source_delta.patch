From 97da929cf0fc2fe13725eb42cd2ceef61d4dc2ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:14 +0000
Subject: [PATCH 01/10] verification hook: cfg(dandy_verif) substitutes std's
 hash containers and adds constructors

---
 dandy/src/lib.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/dandy/src/lib.rs b/dandy/src/lib.rs
index 4204545..b84580d 100644
--- a/dandy/src/lib.rs
+++ b/dandy/src/lib.rs
@@ -114,6 +114,16 @@
 //! See the documentation for [DFAs](dfa), [NFAs](nfa) and [Regular Expressions](regex) for more detailed
 //! information about each data type and their operations, together with some code examples
 
+// Verification builds only (`--cfg dandy_verif`): substitute hash containers whose iteration order is an input of
+// the check, and constructors for automata.
+#![allow(unexpected_cfgs)]
+#[cfg(dandy_verif)]
+extern crate dandy_verif_std as std;
+#[cfg(dandy_verif)]
+pub mod verif {
+    include!(env!("DANDY_VERIF_HOOKS"));
+}
+
 pub mod dfa;
 pub mod nfa;
 pub mod parser;
-- 
2.43.0


From 25ae881dcbcaac05ee0b4c418d28d5c28bcc7e96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:48 +0000
Subject: [PATCH 02/10] fix: DfaEvaluator::step_multiple on no symbols does not
 forget that an unknown symbol was seen

---
 dandy/src/dfa/eval.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dandy/src/dfa/eval.rs b/dandy/src/dfa/eval.rs
index cda16c6..8738e0e 100644
--- a/dandy/src/dfa/eval.rs
+++ b/dandy/src/dfa/eval.rs
@@ -61,7 +61,7 @@ impl<'a> DfaEvaluator<'a> {
                 self.unknown_elem_seen = true;
                 None
             }
-            Some(_) => Some(&self.dfa.states[self.current_state]),
+            Some(_) => self.current_state(),
         }
     }
 }
-- 
2.43.0


From 08c2a3ac2173fb9597674a5ca2172cd2dc31bcfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:28 +0000
Subject: [PATCH 03/10] fix: Regex::to_string escapes reserved characters of
 several bytes and clusters that begin with a reserved character

---
 dandy/src/regex/mod.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/dandy/src/regex/mod.rs b/dandy/src/regex/mod.rs
index 9f282bb..5440247 100644
--- a/dandy/src/regex/mod.rs
+++ b/dandy/src/regex/mod.rs
@@ -194,10 +194,7 @@ impl Regex {
                     acc.push('∅');
                 }
                 RegexChar::Grapheme(g) => {
-                    if g.len() == 1
-                        && ['(', ')', '∅', 'ε', '|', '*', '+', '\\']
-                            .contains(&g.chars().next().unwrap())
-                    {
+                    if g.starts_with(['(', ')', '∅', 'ε', '|', '*', '+', '\\']) {
                         acc.push('\\');
                         acc.push_str(g);
                     } else {
-- 
2.43.0


From 8208334165fb31625eb5bcde6b14befaeaa162b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:28 +0000
Subject: [PATCH 04/10] fix: Regex::to_string keeps initial and trailing
 whitespace symbols significant

---
 dandy/src/regex/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dandy/src/regex/mod.rs b/dandy/src/regex/mod.rs
index 5440247..af4415a 100644
--- a/dandy/src/regex/mod.rs
+++ b/dandy/src/regex/mod.rs
@@ -158,6 +158,10 @@ impl Regex {
     pub fn to_string(&self) -> String {
         let mut acc = String::new();
         Self::build_string(&self.tree, &mut acc);
+        if acc.trim().len() != acc.len() {
+            // initial and trailing whitespace is ignored by the parser, except inside parentheses
+            acc = format!("({acc})");
+        }
         acc
     }
 
-- 
2.43.0


From 03132ad6ec3ea6b959ab1ee40a3438f286c9c732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:29 +0000
Subject: [PATCH 05/10] fix: Regex::to_string keeps a symbol apart that would
 join the text before it

---
 dandy/src/regex/mod.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/dandy/src/regex/mod.rs b/dandy/src/regex/mod.rs
index af4415a..7e4bcc7 100644
--- a/dandy/src/regex/mod.rs
+++ b/dandy/src/regex/mod.rs
@@ -55,6 +55,7 @@ use crate::nfa::{Nfa, NfaState};
 use std::collections::HashMap;
 use std::iter;
 use std::rc::Rc;
+use unicode_segmentation::GraphemeCursor;
 
 #[derive(Debug, Clone, PartialEq, Eq)]
 pub struct Regex {
@@ -202,7 +203,14 @@ impl Regex {
                         acc.push('\\');
                         acc.push_str(g);
                     } else {
+                        let start = acc.len();
                         acc.push_str(g);
+                        let boundary = GraphemeCursor::new(start, acc.len(), true).is_boundary(acc, 0);
+                        if boundary == Ok(false) {
+                            // the symbol would join the text before it to one grapheme cluster
+                            acc.insert(start, '(');
+                            acc.push(')');
+                        }
                     }
                 }
             },
-- 
2.43.0


From 78ec7f8e50daf2ad847129bf70b4952dd9a56255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:48 +0000
Subject: [PATCH 06/10] verification hook: cfg(dandy_verif) in dandy-cli,
 dandy-draw and dandy-wasm

---
 dandy-cli/src/main.rs | 9 +++++++++
 dandy-draw/src/lib.rs | 3 +++
 dandy-wasm/src/lib.rs | 3 +++
 3 files changed, 15 insertions(+)

diff --git a/dandy-cli/src/main.rs b/dandy-cli/src/main.rs
index 275fdd8..a10c1f6 100644
--- a/dandy-cli/src/main.rs
+++ b/dandy-cli/src/main.rs
@@ -1,9 +1,18 @@
+#[cfg(dandy_verif)]
+extern crate dandy_verif_std as std;
+
 mod automata;
 mod binary_op;
 mod enumerate;
 mod equivalence;
 mod test_files;
 
+#[cfg(dandy_verif)]
+#[allow(missing_docs)]
+pub mod verif {
+    include!(env!("DANDY_CLI_HOOKS"));
+}
+
 use automata::AutomataType;
 use clap::{Args, Parser, Subcommand, ValueEnum};
 use dandy::dfa::Dfa;
diff --git a/dandy-draw/src/lib.rs b/dandy-draw/src/lib.rs
index 7726f2a..ef18b16 100644
--- a/dandy-draw/src/lib.rs
+++ b/dandy-draw/src/lib.rs
@@ -1,3 +1,6 @@
+#[cfg(dandy_verif)]
+extern crate dandy_verif_std as std;
+
 #[cfg(feature = "canvas")]
 pub mod canvas;
 #[cfg(feature = "egui")]
diff --git a/dandy-wasm/src/lib.rs b/dandy-wasm/src/lib.rs
index 32ee854..1c356f0 100644
--- a/dandy-wasm/src/lib.rs
+++ b/dandy-wasm/src/lib.rs
@@ -17,6 +17,9 @@
 //! }
 //! ```
 
+#[cfg(dandy_verif)]
+extern crate dandy_verif_std as std;
+
 use dandy::dfa::parse::DfaParseError;
 use dandy::dfa::Dfa;
 use dandy::nfa::parse::NfaParseError;
-- 
2.43.0


From 187bf8cf077c211ec1b9be5046a9011c760a6070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:08 +0000
Subject: [PATCH 07/10] fix: last_n_components keeps the root and the order of
 the path's components

---
 dandy-cli/src/main.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dandy-cli/src/main.rs b/dandy-cli/src/main.rs
index a10c1f6..2e75257 100644
--- a/dandy-cli/src/main.rs
+++ b/dandy-cli/src/main.rs
@@ -358,10 +358,10 @@ pub fn last_n_components(path: &Path, n: Option<usize>) -> Option<String> {
         return Some(path.display().to_string());
     };
     (n != 0).then(|| {
-        let new_path = path.components().rev().take(n).collect::<PathBuf>();
-        new_path
-            .components()
-            .rev()
+        // Not reversed as a path: pushing the root onto a path replaces it
+        let components = path.components().collect::<Vec<_>>();
+        components[components.len().saturating_sub(n)..]
+            .iter()
             .collect::<PathBuf>()
             .display()
             .to_string()
-- 
2.43.0


From eae1d18613131d28fbfe1820de8255e1847240fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:23 +0000
Subject: [PATCH 08/10] fix: ascii_art places labels by characters and extends
 the line for long ones

---
 dandy-draw/src/lib.rs | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/dandy-draw/src/lib.rs b/dandy-draw/src/lib.rs
index ef18b16..07fa849 100644
--- a/dandy-draw/src/lib.rs
+++ b/dandy-draw/src/lib.rs
@@ -420,17 +420,17 @@ fn ascii_art<'a>(states: Vec<State<'a>>, arrows: Vec<Arrow<'a>>) -> String {
             .for_each(|arrow| {
                 // copy label
                 if arrow.arrow.left != arrow.arrow.right {
-                    // Note that label can be non-ascii (as for ε), so make sure we replace correct amnt of spaces
+                    // Note that label can be non-ascii (as for ε), so we need to replace the nth *char* which is not
+                    // necessarily same as the nth byte. It can also be longer than what is left of the line
                     let label = arrow.arrow.label();
-                    let range = {
-                        // We need to replace the nth *char* which is not necessarily same as the nth byte (we could
-                        // have inserted labels to the left)
-                        let start = right_x_idx(arrow.arrow.left);
-                        let start = bot_line.char_indices().nth(start).unwrap().0;
-                        // We need to replace equally many spaces as the label has (visible) chars
-                        start + 1..start + label.chars().count() + 1
-                    };
-                    bot_line.replace_range(range, &label);
+                    let start = right_x_idx(arrow.arrow.left) + 1;
+                    let end = start + label.chars().count();
+                    let mut chars = bot_line.chars().collect::<Vec<_>>();
+                    if chars.len() < end {
+                        chars.resize(end, ' ');
+                    }
+                    chars.splice(start..end, label.chars());
+                    bot_line = chars.into_iter().collect();
                 } else {
                     // Space is tight, so don't print this
                     // let label = arrow.arrow.label();
-- 
2.43.0


From 89915218c49891dfbb592cf4a1f5a278ac95d2a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:37 +0000
Subject: [PATCH 09/10] fix: drawings mark the state that is initial, not
 always the first one

---
 dandy-draw/src/lib.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/dandy-draw/src/lib.rs b/dandy-draw/src/lib.rs
index 07fa849..98c2139 100644
--- a/dandy-draw/src/lib.rs
+++ b/dandy-draw/src/lib.rs
@@ -188,9 +188,8 @@ fn draw<'a>(
     let circle_center = line_baseline + opts.line_circle_margin + opts.circle_radius;
 
     drawer.start_drawing();
-    // draw arrow
-    // FIXME: This assumes first is initial, which isn't always the case
-    {
+    // draw arrow to the first state, if it is the initial one
+    if states.first().is_some_and(|state| state.initial) {
         drawer.set_color(opts.line_color);
         let arrow_base = pos2(opts.init_arrow_length, circle_center);
         drawer.draw_line(pos2(0.0, circle_center), arrow_base, opts.init_arrow_width);
@@ -357,8 +356,14 @@ fn ascii_art<'a>(states: Vec<State<'a>>, arrows: Vec<Arrow<'a>>) -> String {
         };
 
         let mut acc = String::with_capacity(art_width);
-        acc.push_str("-> ");
-        states.iter().for_each(|state| {
+        // the initial state is marked by an arrow, there is room for its head only between two states
+        let first_initial = states.first().is_some_and(|state| state.initial);
+        acc.push_str(if first_initial { "-> " } else { "   " });
+        states.iter().enumerate().for_each(|(idx, state)| {
+            if state.initial && idx > 0 {
+                acc.pop();
+                acc.push('>');
+            }
             if state.accepting {
                 acc.push_str(&format!("(( {} )) ", pad(state.name, widest_state_name)))
             } else {
-- 
2.43.0


From 3b4fac0add2a69db5422a5fdeddde2807fa00a92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:09 +0000
Subject: [PATCH 10/10] fix: the output file gets the results a line each, as
 they are printed

---
 dandy-cli/src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dandy-cli/src/main.rs b/dandy-cli/src/main.rs
index 2e75257..b444354 100644
--- a/dandy-cli/src/main.rs
+++ b/dandy-cli/src/main.rs
@@ -307,7 +307,7 @@ fn main() {
     let mut sink = |s: &str| {
         println!("{s}");
         if let Some(f) = out_file.as_mut() {
-            f.write_all(s.as_bytes()).unwrap();
+            writeln!(f, "{s}").unwrap();
         };
     };
 
-- 
2.43.0

