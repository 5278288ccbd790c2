From 6916f8c29be44c3c9b8cecdf6fae1b1f010d5a7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:08 +0000
Subject: [PATCH 01/11] fix: plugging an empty workload excludes the literal
 name, not a pattern parsed from it

---
 src/enumo/workload.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/enumo/workload.rs b/src/enumo/workload.rs
index 913d333..7289943 100644
--- a/src/enumo/workload.rs
+++ b/src/enumo/workload.rs
@@ -127,7 +127,7 @@ impl Workload {
         match workload {
             // Empty plug is the same as filter excludes
             Workload::Set(xs) if xs.is_empty() => {
-                self.filter(Filter::Excludes(name.into().parse().unwrap()))
+                self.filter(Filter::Excludes(Pattern::Lit(name.into())))
             }
             _ => Workload::Plug(Box::new(self), name.into(), Box::new(workload.clone())),
         }
-- 
2.43.0


From be86c1e7e68d2a8dd619629f9de7295ac1b6ba74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:58 +0000
Subject: [PATCH 02/11] fix: a rule that is its own reverse counts once in the
 two-way count

---
 src/enumo/ruleset.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/enumo/ruleset.rs b/src/enumo/ruleset.rs
index ac0130e..56a6301 100644
--- a/src/enumo/ruleset.rs
+++ b/src/enumo/ruleset.rs
@@ -112,7 +112,8 @@ impl<L: SynthLanguage> Ruleset<L> {
         let mut unidir = 0;
         for (_, rule) in &self.0 {
             let reverse = Rule::new(&rule.rhs, &rule.lhs);
-            if reverse.is_some() && self.contains(&reverse.unwrap()) {
+            // A rule that is its own reverse is not half of a pair
+            if reverse.map_or(false, |rev| rev.name != rule.name && self.contains(&rev)) {
                 bidir += 1;
             } else {
                 unidir += 1;
-- 
2.43.0


From fba2f43e9c098b3c2d79831034b33bca551e68e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:37 +0000
Subject: [PATCH 03/11] fix: a rule counts as saturating only if what is below
 its right root adds no class

Under constant folding, adding the whole right side can merge classes of the
left side, which made up for classes that were added: such a rule counted as
saturating and the saturating strategy, which runs those rules to saturation
without limits, did not terminate.
---
 src/enumo/rule.rs | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/enumo/rule.rs b/src/enumo/rule.rs
index 9ebdf2d..da5266d 100644
--- a/src/enumo/rule.rs
+++ b/src/enumo/rule.rs
@@ -117,12 +117,21 @@ impl<L: SynthLanguage> Rule<L> {
     /// e-classes to the e-graph.
     pub fn is_saturating(&self) -> bool {
         let mut egraph: EGraph<L, SynthAnalysis> = Default::default();
-        let l_id = egraph.add_expr(&L::instantiate(&self.lhs));
+        egraph.add_expr(&L::instantiate(&self.lhs));
+        egraph.rebuild();
         let initial_size = egraph.number_of_classes();
 
-        let r_id = egraph.add_expr(&L::instantiate(&self.rhs));
-
-        egraph.union(l_id, r_id);
+        // The root of rhs joins the class of lhs, so only what is below it
+        // can add classes. (Adding the root as well and comparing the sizes
+        // after merging it with lhs is wrong when constant folding merges the
+        // root with a class of lhs, which makes up for a class added below.)
+        let rhs = L::instantiate(&self.rhs);
+        let (_, below) = rhs.as_ref().split_last().unwrap();
+        let mut ids: Vec<Id> = vec![];
+        for node in below {
+            let node = node.clone().map_children(|id| ids[usize::from(id)]);
+            ids.push(egraph.add(node));
+        }
         egraph.rebuild();
         let final_size = egraph.number_of_classes();
 
-- 
2.43.0


From 071fd588e18e1589cae61a969b72a5b930dd2762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:02 +0000
Subject: [PATCH 04/11] fix: value matching requires a position where both
 vectors are defined and agree

The definition stated above the comparison asks for it; two classes that are
never defined together were proposed as a rule.
---
 src/enumo/ruleset.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/enumo/ruleset.rs b/src/enumo/ruleset.rs
index 56a6301..7ed6394 100644
--- a/src/enumo/ruleset.rs
+++ b/src/enumo/ruleset.rs
@@ -281,13 +281,15 @@ impl<L: SynthLanguage> Ruleset<L> {
             .collect();
 
         let compare = |cvec1: &CVec<L>, cvec2: &CVec<L>| -> bool {
+            let mut agree = false;
             for tup in cvec1.iter().zip(cvec2) {
                 match tup {
                     (Some(a), Some(b)) if a != b => return false,
+                    (Some(_), Some(_)) => agree = true,
                     _ => (),
                 }
             }
-            true
+            agree
         };
         let mut candidates = Ruleset::default();
         let extract = Extractor::new(egraph, AstSize);
-- 
2.43.0


From 3d5aefa2715c909ec2cd625f2a49d4fb03daed92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:46 +0000
Subject: [PATCH 05/11] fix: minimization reports only rejected candidates as
 invalid

The reverse of a considered rule was reported as invalid when it was not a
candidate at all, even if it was valid.
---
 src/enumo/ruleset.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/enumo/ruleset.rs b/src/enumo/ruleset.rs
index 7ed6394..e562764 100644
--- a/src/enumo/ruleset.rs
+++ b/src/enumo/ruleset.rs
@@ -377,10 +377,12 @@ impl<L: SynthLanguage> Ruleset<L> {
                 // If reverse direction is also in candidates, add it at the same time
                 let reverse = Rule::new(&rule.rhs, &rule.lhs);
                 if let Some(reverse) = reverse {
-                    if self.contains(&reverse) && reverse.is_valid() {
-                        selected.add(reverse);
-                    } else {
-                        invalid.add(reverse);
+                    if self.contains(&reverse) {
+                        if reverse.is_valid() {
+                            selected.add(reverse);
+                        } else {
+                            invalid.add(reverse);
+                        }
                     }
                 }
             } else {
-- 
2.43.0


From 0dec2a02b5cb0a097ea010dff37d3f5ad1b80e0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:51 +0000
Subject: [PATCH 06/11] fix: recursive rule inference handles languages with
 other than two or three arities

The grammar always had operators of up to two or three arguments; for a
language of unary operators only, or one with more arities, terms with the
unplugged names OP2, OP3 reached the e-graph and inference panicked.
---
 src/recipe_utils.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/recipe_utils.rs b/src/recipe_utils.rs
index af9771f..4446654 100644
--- a/src/recipe_utils.rs
+++ b/src/recipe_utils.rs
@@ -173,11 +173,7 @@ pub fn recursive_rules<L: SynthLanguage>(
         Ruleset::default()
     } else {
         let mut rec = recursive_rules(metric, n - 1, lang.clone(), prior.clone());
-        let base_lang = if lang.ops.len() == 2 {
-            base_lang(2)
-        } else {
-            base_lang(3)
-        };
+        let base_lang = base_lang(lang.ops.len());
         let mut wkld = iter_metric(base_lang, "EXPR", metric, n)
             .filter(Filter::Contains("VAR".parse().unwrap()))
             .plug("VAR", &Workload::new(lang.vars))
-- 
2.43.0


From b405ade855642a776c3153b2b174311ab7b0e9b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:08 +0000
Subject: [PATCH 07/11] fix: malformed binary bitvector text is rejected
 instead of panicking

---
 src/bv.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bv.rs b/src/bv.rs
index 99323e9..dc5be91 100644
--- a/src/bv.rs
+++ b/src/bv.rs
@@ -113,7 +113,7 @@ impl<const N: Inner> std::str::FromStr for BV<N> {
     type Err = std::num::ParseIntError;
     fn from_str(s: &str) -> Result<Self, Self::Err> {
         if let Some(stripped) = s.strip_prefix("#b") {
-            let i = Inner::from_str_radix(stripped, 2).unwrap();
+            let i = Inner::from_str_radix(stripped, 2)?;
             return Ok(Self::new(i));
         }
         s.parse::<Inner>().map(Self::new)
-- 
2.43.0


From 0c577d75dd9c8301abfd7b9ab669c8b3e5d46b57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:22 +0000
Subject: [PATCH 08/11] fix: bitvector domains initialize an e-graph without
 variables

---
 src/bv.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bv.rs b/src/bv.rs
index dc5be91..2e8abe1 100644
--- a/src/bv.rs
+++ b/src/bv.rs
@@ -231,7 +231,7 @@ macro_rules! impl_bv {
 
                 let mut cvecs = self_product(&consts, vars.len());
 
-                egraph.analysis.cvec_len = cvecs[0].len();
+                egraph.analysis.cvec_len = consts.len().pow(vars.len() as u32);
 
                 for (i, v) in vars.iter().enumerate() {
                     let id = egraph.add(Bv::Var(Symbol::from(v.clone())));
-- 
2.43.0


From 4daa29aaa6b8115a73f911058cfc8bd8bb975e73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:09 +0000
Subject: [PATCH 09/11] fix: bitvector validation keeps the bits of literals
 above the 64th

---
 src/bv.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/bv.rs b/src/bv.rs
index 2e8abe1..6b21ff2 100644
--- a/src/bv.rs
+++ b/src/bv.rs
@@ -250,7 +250,11 @@ macro_rules! impl_bv {
                     for node in expr.as_ref().iter() {
                         match node {
                             Bv::Var(v) => buf.push(z3::ast::BV::new_const(&ctx, v.to_string(), $n)),
-                            Bv::Lit(c) => buf.push(z3::ast::BV::from_u64(&ctx, c.0 as u64, $n)),
+                            Bv::Lit(c) => {
+                                let high = z3::ast::BV::from_u64(&ctx, (c.0 >> 64) as u64, 64);
+                                let low = z3::ast::BV::from_u64(&ctx, c.0 as u64, 64);
+                                buf.push(high.concat(&low).extract($n - 1, 0))
+                            }
                             Bv::Add([a, b]) => buf.push(buf[usize::from(*a)].bvadd(&buf[usize::from(*b)])),
                             Bv::Sub([a, b]) => buf.push(buf[usize::from(*a)].bvsub(&buf[usize::from(*b)])),
                             Bv::Mul([a, b]) => buf.push(buf[usize::from(*a)].bvmul(&buf[usize::from(*b)])),
-- 
2.43.0


From 79b49349bc9175da1307bac97319f080b4306f22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:21 +0000
Subject: [PATCH 10/11] fix: a report leaves the earlier records of the results
 file as they are written

---
 src/logger.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/logger.rs b/src/logger.rs
index 02ca7b2..641e94d 100644
--- a/src/logger.rs
+++ b/src/logger.rs
@@ -11,7 +11,7 @@ use crate::{count_lines, enumo::Ruleset, DeriveType, Limits, Phase, SynthLanguag
  * Adds a JSON object to the nightly data
  * The file is an array of JSON objects, so this function
  * parses the file into an array, adds the new JSON objec to
- * the array, and writes it back to the file
+ * the end of the array, and writes it back to the file
  */
 fn add_json_to_file(json: Value) {
     let path = "nightly/data/output.json";
@@ -26,16 +26,21 @@ fn add_json_to_file(json: Value) {
 
     let s = fs::read_to_string(path).expect("Unable to read file");
 
-    let mut contents: Vec<Value> = if s.is_empty() {
+    let contents: Vec<Value> = if s.is_empty() {
         vec![]
     } else {
         serde_json::from_str(&s).expect("Unable to parse json")
     };
 
-    contents.push(json);
+    // Earlier records are kept as they are written: reading and writing a
+    // number again may change its last digit
+    let added = serde_json::to_string_pretty(&[json]).unwrap();
+    let new_contents = match s.trim_end().strip_suffix(']') {
+        Some(earlier) if !contents.is_empty() => format!("{},{}", earlier.trim_end(), &added[1..]),
+        _ => added,
+    };
 
-    std::fs::write(path, serde_json::to_string_pretty(&contents).unwrap())
-        .expect("Unable to write to json file");
+    std::fs::write(path, new_contents).expect("Unable to write to json file");
 }
 
 /**
-- 
2.43.0


From a8ee6a1bae83f36dcb4ab92438d33c16044b4e91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:33 +0000
Subject: [PATCH 11/11] fix: the report shows every rule once and leaves the
 records as they are

---
 infra/nightly-resources/utils.js | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/infra/nightly-resources/utils.js b/infra/nightly-resources/utils.js
index c6191d3..1d00ec5 100644
--- a/infra/nightly-resources/utils.js
+++ b/infra/nightly-resources/utils.js
@@ -40,11 +40,17 @@ function formatRules(rules) {
   if (!rules || rules.length == 0) {
     return "-";
   }
-  rules.forEach((rule, i) => {
+  // Reverses of the rules already shown
+  let shown = new Set();
+  rules.forEach((rule) => {
+    if (shown.has(rule)) {
+      return;
+    }
     let [left, right] = rule.split(" ==> ");
-    if (rules.includes(`${right} ==> ${left}`)) {
+    let reverse = `${right} ==> ${left}`;
+    if (rules.includes(reverse)) {
       bidir.push(`${left} <=> ${right}`);
-      rules.splice(i, 1);
+      shown.add(reverse);
     } else {
       bidir.push(`${left} ==> ${right}`);
     }
-- 
2.43.0

