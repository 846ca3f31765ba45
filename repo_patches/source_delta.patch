From 520598a99912ef6ad37947d722289da89ba87b65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:39:57 +0000
Subject: [PATCH 1/8] fix: allow whitespace and comments after an opening group
 or optional bracket

---
 src/parsers/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parsers/mod.rs b/src/parsers/mod.rs
index 367c507..0d1c18e 100644
--- a/src/parsers/mod.rs
+++ b/src/parsers/mod.rs
@@ -303,7 +303,7 @@ fn parsed_expression_next<F: Format>(input: &str) -> IResult<&str, &str> {
 
 fn parsed_anonymous_group<F: Format>(input: &str) -> IResult<&str, ParsedTerm> {
     let (input, rhs) = delimited(
-        complete::char('('),
+        terminated(complete::char('('), whitespace_plus_comments),
         xt_list_with_separator(parsed_expression::<F>, parsed_expression_next::<F>),
         complete::char(')'),
     )
@@ -316,7 +316,7 @@ fn parsed_anonymous_group<F: Format>(input: &str) -> IResult<&str, ParsedTerm> {
 
 fn parsed_optional_group<F: Format>(input: &str) -> IResult<&str, ParsedTerm> {
     let (input, rhs) = delimited(
-        complete::char('['),
+        terminated(complete::char('['), whitespace_plus_comments),
         xt_list_with_separator(parsed_expression::<F>, parsed_expression_next::<F>),
         complete::char(']'),
     )
-- 
2.43.0


From 19159252745d0a4ddfbb9eeec2d1fdc48379ac41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:40:02 +0000
Subject: [PATCH 2/8] fix: generated group names no longer capture names the
 grammar only refers to

---
 src/parsers/mod.rs | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/src/parsers/mod.rs b/src/parsers/mod.rs
index 0d1c18e..e172710 100644
--- a/src/parsers/mod.rs
+++ b/src/parsers/mod.rs
@@ -396,19 +396,37 @@ fn parsed_grammar_complete<F: Format>(input: &str) -> IResult<&str, ParsedGramma
 
 /// Normalize a parsed grammar (with `Group` and `Optional`) into a `Grammar` that uses only
 /// `Term::Terminal` and `Term::Nonterminal`. Anonymous names (`__anon0`, `__anon1`, …) are chosen
-/// so they do not clash with any existing LHS nonterminal (e.g. user-defined `<__anon0>`).
+/// so they do not clash with any nonterminal the user defines or refers to (e.g. `<__anon0>`).
 /// Optionals `[A / B]` are lowered to a fresh nonterminal with alternatives `A | B | ''`.
 fn normalize_parsed_grammar(parsed: ParsedGrammar) -> Grammar {
+    /// Record every nonterminal name the user refers to, including inside groups and optionals.
+    fn collect_names(exprs: &[ParsedExpression], used: &mut crate::HashSet<String>) {
+        for ParsedExpression::Terms(terms) in exprs {
+            for term in terms {
+                match term {
+                    ParsedTerm::Simple(Term::Nonterminal(nt)) => {
+                        used.insert(nt.clone());
+                    }
+                    ParsedTerm::Simple(Term::Terminal(_)) => {}
+                    ParsedTerm::Group(inner) | ParsedTerm::Optional(inner) => {
+                        collect_names(inner, used);
+                    }
+                }
+            }
+        }
+    }
+
     let mut used_names = crate::HashSet::new();
     for prod in &parsed.productions {
-        let ParsedProduction::Complex { lhs, .. } = prod;
+        let ParsedProduction::Complex { lhs, rhs } = prod;
         used_names.insert(lhs.clone());
+        collect_names(rhs, &mut used_names);
     }
 
     let mut out_prods = Vec::new();
     let mut anon_prods = Vec::new();
 
-    /// Pick a fresh name that does not collide with user-defined LHS or other generated names.
+    /// Pick a fresh name that does not collide with the user's names or other generated names.
     fn fresh_anon_name(used: &mut crate::HashSet<String>, counter: &mut usize) -> String {
         loop {
             let candidate = format!("__anon{}", counter);
-- 
2.43.0


From f98210818942c0b97fe64c3c8e0bbcd5675fc0fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:40:07 +0000
Subject: [PATCH 3/8] fix: Weighted no longer overflows when weights add up to
 more than u32::MAX

---
 src/generation.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/generation.rs b/src/generation.rs
index eeaec6c..003d55d 100644
--- a/src/generation.rs
+++ b/src/generation.rs
@@ -275,12 +275,16 @@ impl Weighted {
 
     /// Weighted random index; if total weight is 0, returns uniform random in `0..fallback_len`.
     fn weighted_random_index(rng: &mut StdRng, weights: &[u32], fallback_len: usize) -> usize {
-        let total: u32 = weights.iter().sum();
+        // The sum is taken in u64: the weights of a production may add up to more than u32::MAX.
+        let total: u64 = weights.iter().map(|&w| u64::from(w)).sum();
         if total == 0 {
             return random_index(rng, fallback_len);
         }
-        let mut r = rng.random_range(0..total);
-        for (i, &w) in weights.iter().enumerate() {
+        let mut r = match u32::try_from(total) {
+            Ok(total) => u64::from(rng.random_range(0..total)),
+            Err(_) => rng.random_range(0..total),
+        };
+        for (i, w) in weights.iter().map(|&w| u64::from(w)).enumerate() {
             if r < w {
                 return i;
             }
-- 
2.43.0


From 5cea7955649666113616b5df08cb2371293d6374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:40:11 +0000
Subject: [PATCH 4/8] fix: Grammar::remove_production keeps the order of the
 other productions

---
 src/grammar.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/grammar.rs b/src/grammar.rs
index dc06482..fd7b94e 100644
--- a/src/grammar.rs
+++ b/src/grammar.rs
@@ -348,7 +348,7 @@ impl Grammar {
         self.productions
             .iter()
             .position(|x| *x == *prod)
-            .map(|pos| self.productions.swap_remove(pos))
+            .map(|pos| self.productions.remove(pos))
     }
 
     /// Get iterator of the `Grammar`'s `Production`s
-- 
2.43.0


From 3033fef431db1ba5e877fc2a98566e48624da9c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:40:16 +0000
Subject: [PATCH 5/8] fix: build_parser accepts a reference to a production
 without alternatives, as validate does

---
 src/parser/grammar.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/parser/grammar.rs b/src/parser/grammar.rs
index 087d4dd..a0a3662 100644
--- a/src/parser/grammar.rs
+++ b/src/parser/grammar.rs
@@ -44,10 +44,14 @@ impl<'gram, 'a> ParseGrammar<'gram> {
             .productions_iter()
             .flat_map(|prod| prod.rhs_iter().map(|rhs| (&prod.lhs, rhs)));
 
-        for (lhs, rhs) in flat_prod_iter {
-            if let crate::Term::Nonterminal(nt) = lhs {
+        // A production defines its left hand side even when it has no alternatives.
+        for prod in grammar.productions_iter() {
+            if let crate::Term::Nonterminal(nt) = &prod.lhs {
                 sets.record_lhs(nt.as_str());
             }
+        }
+
+        for (lhs, rhs) in flat_prod_iter {
             for term in rhs.terms_iter() {
                 if let crate::Term::Nonterminal(nt) = term {
                     sets.record_rhs(nt.as_str());
-- 
2.43.0


From 5fc14469cf9f45a6986ddbbced452624cd4be7ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:40:21 +0000
Subject: [PATCH 6/8] fix: production! and grammar! keep alternatives and
 productions in written order

---
 src/grammar.rs    | 6 +++---
 src/production.rs | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/grammar.rs b/src/grammar.rs
index fd7b94e..f671472 100644
--- a/src/grammar.rs
+++ b/src/grammar.rs
@@ -838,7 +838,7 @@ macro_rules! grammar {
     (@collect_prods [[$($curr_terms:expr),*] [$($curr_exprs:tt)*] [$curr_lhs:ident] $($prev_prods:tt)*] ; <$next_lhs:ident> ::= $($rest:tt)*) => {
         {
             // Save current production and start next one
-            $crate::grammar!(@collect_prods [[] [] [$next_lhs] [[$($curr_terms),*] $($curr_exprs)*] [$curr_lhs] $($prev_prods)*] $($rest)*)
+            $crate::grammar!(@collect_prods [[] [] [$next_lhs] $($prev_prods)* [$($curr_exprs)* [$($curr_terms),*]] [$curr_lhs]] $($rest)*)
         }
     };
 
@@ -849,7 +849,7 @@ macro_rules! grammar {
 
     // Hit | within a production - finish current expression, start new one
     (@collect_prods [[$($curr_terms:expr),*] [$($curr_exprs:tt)*] [$lhs:ident] $($prev_prods:tt)*] | $($rest:tt)*) => {
-        $crate::grammar!(@collect_prods [[] [[$($curr_terms),*] $($curr_exprs)*] [$lhs] $($prev_prods)*] $($rest)*)
+        $crate::grammar!(@collect_prods [[] [$($curr_exprs)* [$($curr_terms),*]] [$lhs] $($prev_prods)*] $($rest)*)
     };
 
     // Collect a literal term
@@ -869,7 +869,7 @@ macro_rules! grammar {
             {
                 let mut prods = vec![];
 
-                // Build previous productions (in reverse order since we accumulated backwards)
+                // Build previous productions in the order they were written
                 $(
                     let mut exprs = vec![];
                     $crate::grammar!(@build_exprs exprs $($prod_exprs)*);
diff --git a/src/production.rs b/src/production.rs
index 3f8b832..6632c76 100644
--- a/src/production.rs
+++ b/src/production.rs
@@ -144,7 +144,7 @@ macro_rules! production {
 
     // Hit | separator - finish current expression group, start new one
     (@collect_exprs [[$($current:expr),*] $($prev_exprs:tt)*] | $($rest:tt)*) => {
-        $crate::production!(@collect_exprs [[] [$($current),*] $($prev_exprs)*] $($rest)*)
+        $crate::production!(@collect_exprs [[] $($prev_exprs)* [$($current),*]] $($rest)*)
     };
 
     // Collect a literal term into current expression
@@ -163,7 +163,7 @@ macro_rules! production {
             #[allow(clippy::vec_init_then_push)]
             {
                 let mut exprs = vec![];
-                // Add previous expressions in reverse order (they were accumulated backwards)
+                // Add previous expressions in the order they were written
                 $(exprs.push($crate::Expression::from_parts(vec![$($prev),*]));)*
                 // Add the last expression
                 exprs.push($crate::Expression::from_parts(vec![$($last),*]));
-- 
2.43.0


From 24ae0d07fc799bb0a6a3c41e48dcc826d9a3b836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:20 +0000
Subject: [PATCH 7/8] fix: generation prints an undefined nonterminal as
 <identifier>, as documented

---
 src/grammar.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/grammar.rs b/src/grammar.rs
index f671472..228f340 100644
--- a/src/grammar.rs
+++ b/src/grammar.rs
@@ -515,7 +515,7 @@ impl Grammar {
                 .find(|p| matches!(&p.lhs, Term::Nonterminal(s) if s.as_str() == ident))
             {
                 Some(p) => p,
-                None => return Ok(ident.to_string()),
+                None => return Ok(format!("<{ident}>")),
             };
 
             /// True if the production has no choosable alternative (no RHS or only an empty/epsilon alternative).
-- 
2.43.0


From 5e6f0b1630887aad6d0bc3a824340b386f4595ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:38 +0000
Subject: [PATCH 8/8] fix: generation reports a nonterminal that never ends
 instead of overflowing the stack

---
 src/grammar.rs | 42 +++++++++++++++++++++++++++++++++++++++---
 1 file changed, 39 insertions(+), 3 deletions(-)

diff --git a/src/grammar.rs b/src/grammar.rs
index 228f340..0a730cc 100644
--- a/src/grammar.rs
+++ b/src/grammar.rs
@@ -495,9 +495,12 @@ impl Grammar {
         f: &impl Fn(&str, &str) -> bool,
         strategy: &mut S,
         depth: usize,
+        endless: &[&str],
     ) -> Result<String, Error> {
         match term {
-            Term::Nonterminal(nt) => self.traverse_with_strategy(nt, f, strategy, depth + 1),
+            Term::Nonterminal(nt) => {
+                self.traverse_with_strategy(nt, f, strategy, depth + 1, endless)
+            }
             Term::Terminal(t) => Ok(t.clone()),
         }
     }
@@ -508,7 +511,13 @@ impl Grammar {
         f: &impl Fn(&str, &str) -> bool,
         strategy: &mut S,
         depth: usize,
+        endless: &[&str],
     ) -> Result<String, Error> {
+        if endless.contains(&ident) {
+            return Err(Error::GenerateError(format!(
+                "Can't generate, <{ident}> doesn't lead to a terminal state"
+            )));
+        }
         loop {
             let production = match self
                 .productions_iter()
@@ -547,7 +556,7 @@ impl Grammar {
             );
             let mut result = String::new();
             for term in expression.terms_iter() {
-                match self.eval_terminal_with_strategy(term, f, strategy, depth) {
+                match self.eval_terminal_with_strategy(term, f, strategy, depth, endless) {
                     Ok(s) => result.push_str(&s),
                     Err(e) => return Err(e),
                 }
@@ -668,7 +677,8 @@ impl Grammar {
                 )));
             }
         };
-        self.traverse_with_strategy(&start_rule, &f, strategy, 0)
+        let endless = self.endless_nonterminals();
+        self.traverse_with_strategy(&start_rule, &f, strategy, 0, &endless)
     }
 
     /// Generate a random sentence from self.
@@ -719,6 +729,32 @@ impl Grammar {
         self.generate_seeded_callback(&mut rng, f)
     }
 
+    /// Nonterminals whose expansion can never end. As in generation, a nonterminal is expanded by
+    /// its first production, and one without a production ends right away.
+    fn endless_nonterminals(&self) -> Vec<&str> {
+        let mut endless: Vec<(&str, &Production)> = vec![];
+        for prod in self.productions_iter() {
+            if let Term::Nonterminal(nt) = &prod.lhs
+                && !endless.iter().any(|(name, _)| *name == nt.as_str())
+            {
+                endless.push((nt.as_str(), prod));
+            }
+        }
+        loop {
+            let names: Vec<&str> = endless.iter().map(|(name, _)| *name).collect();
+            endless.retain(|(_, prod)| {
+                !prod.rhs_iter().any(|expression| {
+                    expression.terms_iter().all(
+                        |term| !matches!(term, Term::Nonterminal(nt) if names.contains(&nt.as_str())),
+                    )
+                })
+            });
+            if endless.len() == names.len() {
+                return names;
+            }
+        }
+    }
+
     /// Determine if the starting rule of the grammar can take us to a terminal state, i.e. all
     /// [`Term::Terminal`] types. Used as a check before generation, to tell if we can safely attempt
     /// to generate sentences without risking infinite loops
-- 
2.43.0

