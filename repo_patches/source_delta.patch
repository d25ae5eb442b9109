From 1caae7f14bfd25ff610e63c65efab771ec30271b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:36 +0000
Subject: [PATCH 1/9] fix: report malformed #b bit-vector literals as parse
 errors instead of panicking

---
 src/bv.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/bv.rs b/src/bv.rs
index 99323e9..73fd1de 100644
--- a/src/bv.rs
+++ b/src/bv.rs
@@ -113,8 +113,7 @@ impl<const N: Inner> std::str::FromStr for BV<N> {
     type Err = std::num::ParseIntError;
     fn from_str(s: &str) -> Result<Self, Self::Err> {
         if let Some(stripped) = s.strip_prefix("#b") {
-            let i = Inner::from_str_radix(stripped, 2).unwrap();
-            return Ok(Self::new(i));
+            return Inner::from_str_radix(stripped, 2).map(Self::new);
         }
         s.parse::<Inner>().map(Self::new)
     }
-- 
2.43.0


From ad9efb7081261523041888c3b40161dff932e952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:36 +0000
Subject: [PATCH 2/9] fix: initialize bit-vector e-graphs that have no
 variables

---
 src/bv.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/bv.rs b/src/bv.rs
index 73fd1de..f14d724 100644
--- a/src/bv.rs
+++ b/src/bv.rs
@@ -230,7 +230,8 @@ macro_rules! impl_bv {
 
                 let mut cvecs = self_product(&consts, vars.len());
 
-                egraph.analysis.cvec_len = cvecs[0].len();
+                // With no variables there is exactly one (empty) valuation
+                egraph.analysis.cvec_len = cvecs.first().map_or(1, |cvec| cvec.len());
 
                 for (i, v) in vars.iter().enumerate() {
                     let id = egraph.add(Bv::Var(Symbol::from(v.clone())));
-- 
2.43.0


From 07434df3a0ae20c8be9c2d1219577ce51f74ca13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:36 +0000
Subject: [PATCH 3/9] fix: measure the depth of the empty list

---
 src/enumo/sexp.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/enumo/sexp.rs b/src/enumo/sexp.rs
index 597e618..c0b80b3 100644
--- a/src/enumo/sexp.rs
+++ b/src/enumo/sexp.rs
@@ -109,7 +109,7 @@ impl Sexp {
             Sexp::List(s) => match metric {
                 Metric::Atoms => s.iter().map(|x| x.measure(metric)).sum::<usize>(),
                 Metric::Lists => s.iter().map(|x| x.measure(metric)).sum::<usize>() + 1,
-                Metric::Depth => s.iter().map(|x| x.measure(metric)).max().unwrap() + 1,
+                Metric::Depth => s.iter().map(|x| x.measure(metric)).max().unwrap_or(0) + 1,
             },
         }
     }
-- 
2.43.0


From 814ef2d41e2a67532983102a6fe8b0a931c511bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:36 +0000
Subject: [PATCH 4/9] fix: keep empty lists when plugging

---
 src/enumo/sexp.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/enumo/sexp.rs b/src/enumo/sexp.rs
index c0b80b3..7b3875e 100644
--- a/src/enumo/sexp.rs
+++ b/src/enumo/sexp.rs
@@ -91,6 +91,9 @@ impl Sexp {
         match self {
             Sexp::Atom(s) if s == name => pegs.to_vec(),
             Sexp::Atom(_) => vec![self.clone()],
+            // The cartesian product of no lists is empty, but there is
+            // exactly one way to plug a term that has no holes
+            Sexp::List(sexps) if sexps.is_empty() => vec![self.clone()],
             Sexp::List(sexps) => sexps
                 .iter()
                 .map(|x| x.plug(name, pegs))
-- 
2.43.0


From feb53b365bbc9f39f9134c97e36b0cf8d4ef3575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:56 +0000
Subject: [PATCH 5/9] fix: plugging nothing into a hole excludes that name, not
 a pattern

---
 src/enumo/workload.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/enumo/workload.rs b/src/enumo/workload.rs
index 913d333..7289943 100644
--- a/src/enumo/workload.rs
+++ b/src/enumo/workload.rs
@@ -127,7 +127,7 @@ impl Workload {
         match workload {
             // Empty plug is the same as filter excludes
             Workload::Set(xs) if xs.is_empty() => {
-                self.filter(Filter::Excludes(name.into().parse().unwrap()))
+                self.filter(Filter::Excludes(Pattern::Lit(name.into())))
             }
             _ => Workload::Plug(Box::new(self), name.into(), Box::new(workload.clone())),
         }
-- 
2.43.0


From 60c70a6cd9769f4e43968699d3dae2509679ce6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:39 +0000
Subject: [PATCH 6/9] fix: keep all bits of wide bit-vector literals in the
 validator

---
 src/bv.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/bv.rs b/src/bv.rs
index f14d724..454649e 100644
--- a/src/bv.rs
+++ b/src/bv.rs
@@ -250,7 +250,12 @@ macro_rules! impl_bv {
                     for node in expr.as_ref().iter() {
                         match node {
                             Bv::Var(v) => buf.push(z3::ast::BV::new_const(&ctx, v.to_string(), $n)),
-                            Bv::Lit(c) => buf.push(z3::ast::BV::from_u64(&ctx, c.0 as u64, $n)),
+                            Bv::Lit(c) => {
+                                // from_u64 only takes 64 bits, but literals may have up to 128
+                                let hi = z3::ast::BV::from_u64(&ctx, (c.0 >> 64) as u64, 64);
+                                let lo = z3::ast::BV::from_u64(&ctx, c.0 as u64, 64);
+                                buf.push(hi.concat(&lo).extract($n - 1, 0))
+                            }
                             Bv::Add([a, b]) => buf.push(buf[usize::from(*a)].bvadd(&buf[usize::from(*b)])),
                             Bv::Sub([a, b]) => buf.push(buf[usize::from(*a)].bvsub(&buf[usize::from(*b)])),
                             Bv::Mul([a, b]) => buf.push(buf[usize::from(*a)].bvmul(&buf[usize::from(*b)])),
-- 
2.43.0


From ae65ea41bd2194c54c3eaa59645badd0dfbc55d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:05 +0000
Subject: [PATCH 7/9] fix: value-vector matching requires a position where both
 sides are defined

---
 src/enumo/ruleset.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/enumo/ruleset.rs b/src/enumo/ruleset.rs
index ac0130e..c3f78bb 100644
--- a/src/enumo/ruleset.rs
+++ b/src/enumo/ruleset.rs
@@ -280,13 +280,15 @@ impl<L: SynthLanguage> Ruleset<L> {
             .collect();
 
         let compare = |cvec1: &CVec<L>, cvec2: &CVec<L>| -> bool {
+            let mut both_defined = false;
             for tup in cvec1.iter().zip(cvec2) {
                 match tup {
                     (Some(a), Some(b)) if a != b => return false,
+                    (Some(_), Some(_)) => both_defined = true,
                     _ => (),
                 }
             }
-            true
+            both_defined
         };
         let mut candidates = Ruleset::default();
         let extract = Extractor::new(egraph, AstSize);
-- 
2.43.0


From 0b155fa4912a5b3488015c8c4c1864e3811d9413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:44 +0000
Subject: [PATCH 8/9] fix: report as invalid only candidates the validator does
 not accept

---
 src/enumo/ruleset.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/enumo/ruleset.rs b/src/enumo/ruleset.rs
index c3f78bb..7ff1a12 100644
--- a/src/enumo/ruleset.rs
+++ b/src/enumo/ruleset.rs
@@ -376,10 +376,12 @@ impl<L: SynthLanguage> Ruleset<L> {
                 // If reverse direction is also in candidates, add it at the same time
                 let reverse = Rule::new(&rule.rhs, &rule.lhs);
                 if let Some(reverse) = reverse {
-                    if self.contains(&reverse) && reverse.is_valid() {
-                        selected.add(reverse);
-                    } else {
-                        invalid.add(reverse);
+                    if self.contains(&reverse) {
+                        if reverse.is_valid() {
+                            selected.add(reverse);
+                        } else {
+                            invalid.add(reverse);
+                        }
                     }
                 }
             } else {
-- 
2.43.0


From 1873b145ccacc4a47f64a4fafe4a2247d94b6667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:23 +0000
Subject: [PATCH 9/9] fix: enumerate one production per operator arity in
 recursive_rules

---
 src/recipe_utils.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/recipe_utils.rs b/src/recipe_utils.rs
index af9771f..4446654 100644
--- a/src/recipe_utils.rs
+++ b/src/recipe_utils.rs
@@ -173,11 +173,7 @@ pub fn recursive_rules<L: SynthLanguage>(
         Ruleset::default()
     } else {
         let mut rec = recursive_rules(metric, n - 1, lang.clone(), prior.clone());
-        let base_lang = if lang.ops.len() == 2 {
-            base_lang(2)
-        } else {
-            base_lang(3)
-        };
+        let base_lang = base_lang(lang.ops.len());
         let mut wkld = iter_metric(base_lang, "EXPR", metric, n)
             .filter(Filter::Contains("VAR".parse().unwrap()))
             .plug("VAR", &Workload::new(lang.vars))
-- 
2.43.0

