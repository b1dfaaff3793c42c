From f0e601f2e2c53bad615c5cc768da4564a793b59a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:44 +0000
Subject: [PATCH 01/11] fix: record a symbol's name before its code becomes
 visible to other threads

---
 src/symbols.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/symbols.rs b/src/symbols.rs
index 5d736a3..de999dc 100644
--- a/src/symbols.rs
+++ b/src/symbols.rs
@@ -71,12 +71,11 @@ pub fn get_code(name: &str) -> Result<u32, Error> {
     }
 
     let code = SYMBOL_ID.fetch_add(1, Ordering::SeqCst);
-    register.insert(name.clone(), code);
-    drop(register);
 
-    let mut register = get_name_register().write()?;
-    register.insert(code, name);
-    drop(register);
+    // Record the name while the code register is still locked, so that no other
+    // thread can obtain the code before its name can be looked up.
+    get_name_register().write()?.insert(code, name.clone());
+    register.insert(name, code);
 
     Ok(code)
 }
-- 
2.43.0


From 8a57d5c3648b02b1864356b7dcc95f4cc2e0e124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:45 +0000
Subject: [PATCH 02/11] fix: return an error, rather than panic, for a
 production body with a chance of zero

---
 src/productions.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/productions.rs b/src/productions.rs
index 0b80a52..219ba3f 100644
--- a/src/productions.rs
+++ b/src/productions.rs
@@ -189,8 +189,8 @@ impl ProductionBody {
     /// Creates a new production body from the given
     /// [`ProductionString`] that can occur with the given chance.
     pub fn try_with_chance(chance: f32, string: ProductionString) -> Result<Self> {
-        if !(0.0..=1.0).contains(&chance) {
-            return Err(Error::new(ErrorKind::Parse, "chance should be between 0.0 and 1.0 inclusive"));
+        if !(chance > 0.0 && chance <= 1.0) {
+            return Err(Error::new(ErrorKind::Parse, "chance should be greater than 0.0, and at most 1.0"));
         }
 
         Ok(ProductionBody {
-- 
2.43.0


From 0c5ff373a89a6ce9ef79f85141ab19b0713cf660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:21 +0000
Subject: [PATCH 03/11] fix: do not refuse chances that add up to one because
 of rounding

---
 src/productions.rs | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/productions.rs b/src/productions.rs
index 219ba3f..449f493 100644
--- a/src/productions.rs
+++ b/src/productions.rs
@@ -248,6 +248,10 @@ pub struct Production {
     body: Vec<ProductionBody>
 }
 
+/// Chances are stored as [`f32`], so those declared as adding up to one might total very slightly
+/// more or less than it.
+const CHANCE_TOLERANCE: f64 = 1e-6;
+
 impl Production {
     pub fn new(head: ProductionHead, body: ProductionBody) -> Self {
         Production {
@@ -271,30 +275,30 @@ impl Production {
             return Ok(self.body.last().unwrap());
         }
 
-        let total_chance : f32 = self.body.iter()
-            .map(|b| b.chance.unwrap_or(0.0))
+        let total_chance : f64 = self.body.iter()
+            .map(|b| f64::from(b.chance.unwrap_or(0.0)))
             .sum();
 
         if total_chance < 0.0 {
             return Err(Error::execution("chance should never be negative"));
         }
 
-        if total_chance > 1.0 {
+        if total_chance > 1.0 + CHANCE_TOLERANCE {
             return Err(Error::execution("total chance of production bodies should not be greater than 1.0"));
         }
 
         let remaining = self.body.iter().filter(|b| b.chance.is_derived()).count();
         let default_chance = if remaining == 0 {
-            0_f32
+            0_f64
         } else {
-            (1.0_f32 - total_chance) / (remaining as f32)
+            (1.0_f64 - total_chance).max(0.0) / (remaining as f64)
         };
 
-        let mut current = 0_f32;
-        let random : f32 = thread_rng().gen_range(0.0..=1.0);
+        let mut current = 0_f64;
+        let random : f64 = thread_rng().gen_range(0.0..=1.0);
 
         for body in &self.body {
-            current += body.chance.unwrap_or(default_chance);
+            current += body.chance.chance.map_or(default_chance, f64::from);
             if random < current {
                 return Ok(body);
             }
-- 
2.43.0


From 16a879b6f1908b1c1a78ed53f710f5205a66e794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:21 +0000
Subject: [PATCH 04/11] fix: never pick a production body that has no chance
 left

---
 src/productions.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/productions.rs b/src/productions.rs
index 449f493..f16c1f7 100644
--- a/src/productions.rs
+++ b/src/productions.rs
@@ -288,14 +288,14 @@ impl Production {
         }
 
         let remaining = self.body.iter().filter(|b| b.chance.is_derived()).count();
-        let default_chance = if remaining == 0 {
+        let default_chance = if remaining == 0 || total_chance > 1.0 - CHANCE_TOLERANCE {
             0_f64
         } else {
-            (1.0_f64 - total_chance).max(0.0) / (remaining as f64)
+            (1.0_f64 - total_chance) / (remaining as f64)
         };
 
         let mut current = 0_f64;
-        let random : f64 = thread_rng().gen_range(0.0..=1.0);
+        let random : f64 = thread_rng().gen_range(0.0..1.0);
 
         for body in &self.body {
             current += body.chance.chance.map_or(default_chance, f64::from);
@@ -304,8 +304,10 @@ impl Production {
             }
         }
 
-        // All remaining chance given to last body.
-        return Ok(self.body.last().unwrap());
+        // All remaining chance given to last body that can occur at all.
+        let last = self.body.iter()
+            .rfind(|body| body.chance.is_user_set() || default_chance > 0.0);
+        return Ok(last.unwrap_or(&self.body[0]));
     }
 
     /// Returns true iff this production's [`Production::head`] matches the given
-- 
2.43.0


From f4369b97ebc298eb5fec0ddced1d6189dede0b20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:21 +0000
Subject: [PATCH 05/11] fix: return an error, rather than panic, for a ]
 without an open branch

---
 src/interpretation/abop.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/interpretation/abop.rs b/src/interpretation/abop.rs
index 28ecdf2..bc39102 100644
--- a/src/interpretation/abop.rs
+++ b/src/interpretation/abop.rs
@@ -119,7 +119,8 @@ impl Interpretation for AbopTurtleInterpretation {
             } else if token == push {               // interpret push tokens. This starts "a branch" of the plant.
                 pos_stack.push((pos, dir));
             } else if token == pop {                // interpret pop tokens. This ends "a branch", returning to where the branch started.
-                (pos, dir) = pos_stack.pop().expect("Nothing to pop");
+                (pos, dir) = pos_stack.pop()
+                    .ok_or_else(|| Error::execution("There is no open branch for a ] to finish"))?;
                 if path.len() > 1 {
                     paths.push(path)
                 }
-- 
2.43.0


From 9c2c54293071ac9d66025a66ba6f9bd8737c09c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:21 +0000
Subject: [PATCH 06/11] fix: do not panic when interpreting a system that lacks
 some turtle symbols

---
 src/interpretation/abop.rs | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/interpretation/abop.rs b/src/interpretation/abop.rs
index bc39102..ba8b95b 100644
--- a/src/interpretation/abop.rs
+++ b/src/interpretation/abop.rs
@@ -82,13 +82,14 @@ impl Interpretation for AbopTurtleInterpretation {
     fn interpret<S: SymbolStore>(&self,
                                  tokens: &S,
                                  string: &ProductionString) -> crate::Result<Self::Item> {
-        // We need token values to interpret the strings.
-        let forward = tokens.get_symbol("Forward").unwrap();
-        let space = tokens.get_symbol("Move").unwrap();
-        let right = tokens.get_symbol("+").unwrap();
-        let left = tokens.get_symbol("-").unwrap();
-        let push = tokens.get_symbol("[").unwrap();
-        let pop = tokens.get_symbol("]").unwrap();
+        // We need token values to interpret the strings. A symbol that the system
+        // does not know is never encountered.
+        let forward = tokens.get_symbol("Forward");
+        let space = tokens.get_symbol("Move");
+        let right = tokens.get_symbol("+");
+        let left = tokens.get_symbol("-");
+        let push = tokens.get_symbol("[");
+        let pop = tokens.get_symbol("]");
 
         // We will interpret the tokens as instructions to a LOGO turtle. The following
         // variables keep track of the position that we're at and the direction we're facing.
@@ -106,6 +107,7 @@ impl Interpretation for AbopTurtleInterpretation {
 
         // todo indicate what productions / tokens haven't been used
         for token in string {
+            let token = Some(token);
             if token == forward {                   // interpret forward tokens.
                 pos = pos + dir;
                 path.push(pos);
-- 
2.43.0


From 4dcc1af18c749432a56443842423b95f1216742b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:21 +0000
Subject: [PATCH 07/11] fix: refuse a plant whose delta is not a finite number

---
 src/interpretation/abop/parser.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/interpretation/abop/parser.rs b/src/interpretation/abop/parser.rs
index 8547d53..8023a5a 100644
--- a/src/interpretation/abop/parser.rs
+++ b/src/interpretation/abop/parser.rs
@@ -91,6 +91,9 @@ pub fn parse(string: &str) -> crate::Result<ParsedAbop> {
                 }
                 "d" | "D" | "delta" | "∂" => {
                     delta = equality.value.parse()?;
+                    if !delta.is_finite() {
+                        return Err(Error::new(ErrorKind::Parse, format!("delta should be a finite number: {}", line)))
+                    }
                 }
                 _ => return Err(Error::new(ErrorKind::Parse, format!("Unrecognised line {}", line)))
             }
-- 
2.43.0


From 500d0a1b046d4734598d34334adad2cfb6966876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:21 +0000
Subject: [PATCH 08/11] fix: write finite numbers for a drawing without any
 extent

---
 src/interpretation/svg.rs | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/src/interpretation/svg.rs b/src/interpretation/svg.rs
index 78194cd..0548f9e 100644
--- a/src/interpretation/svg.rs
+++ b/src/interpretation/svg.rs
@@ -88,20 +88,17 @@ impl<T> Interpretation for SvgPathInterpretation<T>
 
     fn interpret<S: SymbolStore>(&self, tokens: &S, string: &ProductionString) -> crate::Result<Self::Item> {
         let paths = self.initial.interpret(tokens, string)?;
-        let bounds = paths.bounds();
+        let bounds = paths.bounds().unwrap_or_default();
 
-        let center = bounds.as_ref().unwrap().center();
+        let center = bounds.center();
         let canvas_centre = Point::new(self.width as f64 / 2.0, self.height as f64 / 2.0);
 
-        let scale = bounds.as_ref()
-            .map(|bounds| {
-                let scale_y = self.height() as f64 / bounds.height();
-                let scale_x = self.width() as f64 / bounds.width();
-                let scale = scale_x.min(scale_y);
-
-                Point::new(scale, -scale)
-            })
-            .unwrap_or(Point::new(1.0, -1.0));
+        let scale_y = self.height() as f64 / bounds.height();
+        let scale_x = self.width() as f64 / bounds.width();
+        let scale = scale_x.min(scale_y);
+        // There is nothing to scale if all of the points are in one place.
+        let scale = if scale.is_finite() { scale } else { 1.0 };
+        let scale = Point::new(scale, -scale);
 
         let elements: Vec<_> = paths.into_iter()
             .map(SvgPath::from)
-- 
2.43.0


From d6d07a8b6cf7fa5fdd45f0e4d27732ae4fa2fec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:21 +0000
Subject: [PATCH 09/11] fix: do not panic on a plant file name that is not
 UTF-8

---
 src/bin/lsystem/derive.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bin/lsystem/derive.rs b/src/bin/lsystem/derive.rs
index 2798540..775e98b 100644
--- a/src/bin/lsystem/derive.rs
+++ b/src/bin/lsystem/derive.rs
@@ -9,7 +9,7 @@ use crate::cli::{Cli, InterpretationArgs};
 
 pub fn handle_derive(args: &Cli, derive: &InterpretationArgs) -> ExitCode {
     if args.verbose {
-        print!("Reading {} ", derive.file.to_str().unwrap());
+        print!("Reading {} ", derive.file.display());
     }
 
     let (interpretation, system, axiom) = {
-- 
2.43.0


From 64cccdc21c9779594235e19cb58939f4e09973f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:21 +0000
Subject: [PATCH 10/11] fix: do not panic when matching beyond the end of a
 string

---
 src/productions.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/productions.rs b/src/productions.rs
index f16c1f7..d70d7bc 100644
--- a/src/productions.rs
+++ b/src/productions.rs
@@ -121,12 +121,12 @@ impl ProductionHead {
     /// Returns true iff this matches the given
     /// string's index position of the string.
     pub fn matches(&self, string: &ProductionString, index: usize) -> bool {
-        self.pre_matches(string, index) &&
-        self.post_matches(string, index) &&
-            string.symbols()
-                .get(index)
-                .map(|symbol| self.target == *symbol)
-                .unwrap_or(false)
+        string.symbols()
+            .get(index)
+            .map(|symbol| self.target == *symbol)
+            .unwrap_or(false) &&
+            self.pre_matches(string, index) &&
+            self.post_matches(string, index)
     }
 
     pub fn pre_matches(&self, string: &ProductionString, index: usize) -> bool {
-- 
2.43.0


From ff82e47df0acd78967457072b25e19821a285035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:21 +0000
Subject: [PATCH 11/11] fix: tokenise any amount and kind of whitespace between
 symbols

---
 src/parser/iterator.rs | 20 +++++++-------------
 1 file changed, 7 insertions(+), 13 deletions(-)

diff --git a/src/parser/iterator.rs b/src/parser/iterator.rs
index acd88f1..b90f821 100644
--- a/src/parser/iterator.rs
+++ b/src/parser/iterator.rs
@@ -27,13 +27,12 @@ impl<'a> Iterator for TokenIterator<'a> {
             return None;
         }
 
-        let text = &self.text[self.current..];
+        // Skip any leading whitespace
+        let text = self.text[self.current..].trim_start_matches(is_consume);
+        self.current = self.text.len() - text.len();
 
-        let index = text.char_indices()
-            .find(|(_, c)| !is_consume(*c))
-            .map(|(i, _)| i);
-
-        if let Some(index) = index {
+        if !text.is_empty() {
+            let index = 0;
             let brk = next_break(text, index);
 
             if let Break::Token(i, c) = brk {
@@ -57,8 +56,8 @@ impl<'a> Iterator for TokenIterator<'a> {
             let index_end = self.current + brk.index();
             self.current += brk.index();
 
-            if brk.is_ignore() {
-                self.current += 1;
+            if let Break::Ignore(_, c) = brk {
+                self.current += c.len_utf8();
             }
 
             if brk.is_end() {
@@ -133,11 +132,6 @@ impl Break {
         matches!(self, Break::End(_))
     }
 
-    #[inline]
-    fn is_ignore(self) -> bool {
-        matches!(self, Break::Ignore(_, _))
-    }
-
     #[inline]
     fn is_token(self) -> bool {
         matches!(self, Break::Token(_, _))
-- 
2.43.0

