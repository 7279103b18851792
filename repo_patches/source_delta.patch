From db4b1ec461643e3be61e6aed3b525f3becf4688c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:26:37 +0000
Subject: [PATCH 01/23] fix: first_set_for_string looks past nullable symbols

---
 cfg-predict-sets/src/first.rs | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/cfg-predict-sets/src/first.rs b/cfg-predict-sets/src/first.rs
index d952190..fea3d01 100644
--- a/cfg-predict-sets/src/first.rs
+++ b/cfg-predict-sets/src/first.rs
@@ -49,26 +49,27 @@ impl FirstSets {
 
     /// Calculates a FIRST set for a string of symbols.
     pub fn first_set_for_string(&self, string: &[Symbol]) -> PerSymbolSetVal {
-        let mut result = vec![];
+        let mut result = PerSymbolSetVal::new();
+        result.has_none = true;
         for &sym in string {
             if self.terminal_set[sym] {
                 result.push(sym);
-                break;
+                result.has_none = false;
             } else {
                 let first_set = self
                     .map
                     .get(&sym)
                     .expect("FIRST set not found in PerSymbolSets");
-                result.clone_from(&first_set.list);
-                if !result.is_empty() {
-                    break;
-                }
+                result.extend(first_set.iter().copied());
+                result.has_none = first_set.has_none;
+            }
+            if !result.has_none {
+                break;
             }
         }
-        PerSymbolSetVal {
-            has_none: result.is_empty(),
-            list: result,
-        }
+        result.sort_unstable();
+        result.dedup();
+        result
     }
 
     fn collect_from(&mut self, grammar: &Cfg) {
-- 
2.43.0


From 4901813ce131673257c16faa5a5de3dc1ddff61e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:26:42 +0000
Subject: [PATCH 02/23] fix: FOLLOW sets propagate the end of input

---
 cfg-predict-sets/src/follow.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cfg-predict-sets/src/follow.rs b/cfg-predict-sets/src/follow.rs
index 76ed1eb..a6ef9a7 100644
--- a/cfg-predict-sets/src/follow.rs
+++ b/cfg-predict-sets/src/follow.rs
@@ -55,6 +55,7 @@ impl FollowSets {
                         let followed = this.map.get_mut(&sym).unwrap();
                         let prev_cardinality = followed.len();
                         followed.extend(follow_set.iter().cloned());
+                        followed.has_none |= follow_set.has_none;
                         followed.sort_unstable();
                         followed.dedup();
                         changed |= prev_cardinality != followed.len();
-- 
2.43.0


From 6ee83a42e2bfc62d10b0fef63eeb3d21e2fc92fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:26:49 +0000
Subject: [PATCH 03/23] fix: Cfg::extend keeps the RHS length limit

---
 cfg-grammar/src/cfg.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cfg-grammar/src/cfg.rs b/cfg-grammar/src/cfg.rs
index 2da8cb6..a8656ce 100644
--- a/cfg-grammar/src/cfg.rs
+++ b/cfg-grammar/src/cfg.rs
@@ -262,7 +262,9 @@ impl Cfg {
     /// Extend the list of rules with the rules in the given grammar.
     /// The given grammar must have a compatible set of symbols.
     pub fn extend(&mut self, other: &Cfg) {
-        self.rules.extend(other.rules.iter().cloned());
+        for rule in other.rules() {
+            self.add_rule(rule.clone());
+        }
     }
 
     /// Ensures the grammar is binarized and eliminates all nulling rules, which have the
-- 
2.43.0


From 67d85c2a0a9b0c04e09f2675a54a8883d696863f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:26:54 +0000
Subject: [PATCH 04/23] fix: make_proper removes rules reachable only through
 unproductive rules

---
 cfg-classify/src/lib.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cfg-classify/src/lib.rs b/cfg-classify/src/lib.rs
index 63fd48d..1b9c970 100644
--- a/cfg-classify/src/lib.rs
+++ b/cfg-classify/src/lib.rs
@@ -88,6 +88,8 @@ impl CfgClassifyExt for Cfg {
             // }
             // println!("warning: grammar has useless rules");
             usefulness.remove_useless_rules(self);
+            // Some rules may have been reachable only through unproductive rules.
+            self.usefulness().remove_useless_rules(self);
         }
         !contains_useless_rules
     }
-- 
2.43.0


From 28899bce0f73937e85d056bc81dc92440afe5ed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:27:17 +0000
Subject: [PATCH 05/23] fix: rewrite_cycles translates the roots

---
 cfg-classify/src/cyclical.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/cfg-classify/src/cyclical.rs b/cfg-classify/src/cyclical.rs
index f4d7d16..af30ff1 100644
--- a/cfg-classify/src/cyclical.rs
+++ b/cfg-classify/src/cyclical.rs
@@ -4,7 +4,7 @@ use std::borrow::{Borrow, BorrowMut};
 use std::collections::BTreeMap;
 
 use cfg_grammar::{Cfg, CfgRule, SymbolBitSet};
-use cfg_symbol::SymbolSource;
+use cfg_symbol::{Symbol, SymbolSource};
 use cfg_symbol_bit_matrix::{CfgSymbolBitMatrixExt, UnitDerivationMatrix};
 
 /// Provides information about cycles among unit derivations in the grammar. There are two ways of
@@ -126,6 +126,19 @@ impl<G: BorrowMut<Cfg>> Cycles<G> {
             for rule in rewritten_rules {
                 self.grammar.borrow_mut().add_rule(rule);
             }
+            // The roots may have been rewritten, too.
+            let translate = |sym: Symbol| match translation.get(&sym) {
+                Some(&Some(new_sym)) => new_sym,
+                _ => sym,
+            };
+            let grammar = self.grammar.borrow_mut();
+            let roots: Vec<_> = grammar.roots().iter().map(|&sym| translate(sym)).collect();
+            grammar.set_roots(roots);
+            let mut wrapped_roots = grammar.wrapped_roots().to_vec();
+            for wrapped_root in &mut wrapped_roots {
+                wrapped_root.inner_root = translate(wrapped_root.inner_root);
+            }
+            grammar.set_wrapped_roots(&wrapped_roots[..]);
         }
     }
 }
-- 
2.43.0


From b925396ccdc13d982a53fba296089c1097a85900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:27:22 +0000
Subject: [PATCH 06/23] fix: sequences of more than 2^31 repetitions overflow

---
 cfg-sequence/src/rewrite.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cfg-sequence/src/rewrite.rs b/cfg-sequence/src/rewrite.rs
index c3cea3e..c47168e 100644
--- a/cfg-sequence/src/rewrite.rs
+++ b/cfg-sequence/src/rewrite.rs
@@ -181,7 +181,7 @@ impl<'a> SequencesToProductions<'a> {
             }
             (_, 1, Some(end)) => {
                 // end >= 3
-                let pow2 = end.next_power_of_two() / 2;
+                let pow2 = 1 << (end - 1).ilog2();
                 let (seq1, block, seq2) = (
                     sequence.range(1..=pow2),
                     sequence.range(pow2..=pow2),
@@ -204,7 +204,7 @@ impl<'a> SequencesToProductions<'a> {
                 // to do infinity
                 let (seq1, seq2) = if Some(start) == end {
                     // A "block"
-                    let pow2 = start.next_power_of_two() / 2;
+                    let pow2 = 1 << (start - 1).ilog2();
                     (
                         sequence.range(pow2..=pow2),
                         sequence.range(start - pow2..=start - pow2),
-- 
2.43.0


From 0656e66dc1212ab19961b9d2d9f58873d62c91bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:27:50 +0000
Subject: [PATCH 07/23] fix: Cfg::load reports unknown characters as a
 LoadError

---
 cfg-load/src/basic.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/cfg-load/src/basic.rs b/cfg-load/src/basic.rs
index 4854964..3c3b835 100644
--- a/cfg-load/src/basic.rs
+++ b/cfg-load/src/basic.rs
@@ -342,7 +342,12 @@ impl CfgLoadExt for Cfg {
             rparen,
         ] = bnf_grammar.symbols();
         let mut recognizer = Recognizer::new(&bnf_grammar);
-        let tokens = Lexer::tokenize(bnf).unwrap();
+        let tokens = Lexer::tokenize(bnf).map_err(|(line_no, col_no)| LoadError {
+            reason: "failed to tokenize".to_string(),
+            line: line_no as u32,
+            col: col_no as u32,
+            token: None,
+        })?;
         for (i, ch) in tokens.iter().enumerate() {
             let terminal = match ch {
                 Token::BnfOp => bnf_op,
-- 
2.43.0


From f1ae38c6ea2a83128e7784fbab2a8feab3ce0a83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:23 +0000
Subject: [PATCH 08/23] fix: Cfg::equivalent compares lengths

---
 cfg-grammar/src/compare.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cfg-grammar/src/compare.rs b/cfg-grammar/src/compare.rs
index aec4ee0..9a871e5 100644
--- a/cfg-grammar/src/compare.rs
+++ b/cfg-grammar/src/compare.rs
@@ -3,9 +3,9 @@ use crate::Cfg;
 impl Cfg {
     /// Compares the grammars. The symbol numeric values must match.
     pub fn equivalent(&self, other: &Cfg) -> bool {
-        let mut eq = true;
+        let mut eq = self.rules().count() == other.rules().count();
         for (i, j) in self.rules().zip(other.rules()) {
-            eq = eq && i.lhs == j.lhs && i.rhs.iter().zip(j.rhs.iter()).all(|(a, b)| *a == *b);
+            eq = eq && i.lhs == j.lhs && i.rhs == j.rhs;
         }
         eq
     }
-- 
2.43.0


From f45ab94841265b1766532f4b9d4fcbd1d78a8ce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:36 +0000
Subject: [PATCH 09/23] fix: backward minimal distances are recorded at their
 own dot positions

---
 cfg-predict-distance/src/lib.rs | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/cfg-predict-distance/src/lib.rs b/cfg-predict-distance/src/lib.rs
index 7b9c76f..786f3c8 100644
--- a/cfg-predict-distance/src/lib.rs
+++ b/cfg-predict-distance/src/lib.rs
@@ -162,11 +162,12 @@ impl<'a> MinimalDistance<'a> {
         direction: DistanceDirection,
     ) {
         if direction.includes_forward() {
-            let (min, _) = self.update_rule_distances(0, &rule.rhs[..dot_pos], rule_idx, false);
+            let (min, _) = self.update_rule_distances(0, &rule.rhs[..dot_pos], 0, rule_idx, false);
             set_min(&mut self.forward_distances.before[rule.lhs.usize()], min);
         }
         if direction.includes_backward() {
-            let (min, _) = self.update_rule_distances(0, &rule.rhs[dot_pos..], rule_idx, true);
+            let (min, _) =
+                self.update_rule_distances(0, &rule.rhs[dot_pos..], dot_pos, rule_idx, true);
             set_min(&mut self.backward_distances.before[rule.lhs.usize()], min);
         }
     }
@@ -180,38 +181,39 @@ impl<'a> MinimalDistance<'a> {
             for (idx, rule) in self.grammar.rules().enumerate() {
                 if let Some(distance) = self.forward_distances.after[rule.lhs.usize()] {
                     let (_, changed_now) =
-                        self.update_rule_distances(distance, &rule.rhs[..], idx, false);
+                        self.update_rule_distances(distance, &rule.rhs[..], 0, idx, false);
                     changed |= changed_now;
                 }
                 if let Some(distance) = self.backward_distances.after[rule.lhs.usize()] {
                     let (_, changed_now) =
-                        self.update_rule_distances(distance, &rule.rhs[..], idx, true);
+                        self.update_rule_distances(distance, &rule.rhs[..], 0, idx, true);
                     changed |= changed_now;
                 }
             }
         }
     }
 
-    // Update distances in a rule.
+    // Update distances in a rule, where `rhs` begins at the dot `first_dot`.
     fn update_rule_distances(
         &mut self,
         mut cur: u32,
         rhs: &[Symbol],
+        first_dot: usize,
         idx: usize,
         reverse: bool,
     ) -> (u32, bool) {
         let last = if reverse {
             for (dot, &sym) in rhs.iter().enumerate() {
-                set_min(&mut self.distances[idx][dot], cur);
+                set_min(&mut self.distances[idx][first_dot + dot], cur);
                 cur = self.update_sym_distance(cur, sym, true);
             }
-            rhs.len()
+            first_dot + rhs.len()
         } else {
             for (dot, &sym) in rhs.iter().enumerate().rev() {
-                set_min(&mut self.distances[idx][dot + 1], cur);
+                set_min(&mut self.distances[idx][first_dot + dot + 1], cur);
                 cur = self.update_sym_distance(cur, sym, false);
             }
-            0
+            first_dot
         };
         let changed = set_min(&mut self.distances[idx][last], cur);
         (cur, changed)
-- 
2.43.0


From 58966258b3dbbfd61bf1a11ccaf25896e24ecc41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:40 +0000
Subject: [PATCH 10/23] fix: LexerMap::compute handles classes that end past
 U+00FF or at the last character

---
 cfg-regexp-logic/src/lib.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/cfg-regexp-logic/src/lib.rs b/cfg-regexp-logic/src/lib.rs
index a98b61f..8ac592c 100644
--- a/cfg-regexp-logic/src/lib.rs
+++ b/cfg-regexp-logic/src/lib.rs
@@ -84,7 +84,7 @@ impl LexerMap {
         for (lexer_classes, &symbol) in &self.classes {
             for &class in &lexer_classes.set {
                 if class.0.is_ascii() {
-                    for ascii in class.0 as u32..=(class.1 as u32).min(256) {
+                    for ascii in class.0 as u32..=(class.1 as u32).min(255) {
                         result[ascii as usize].push(symbol);
                     }
                 }
@@ -95,10 +95,13 @@ impl LexerMap {
         for (lexer_classes, &symbol) in &self.classes {
             for &class in &lexer_classes.set {
                 ranges.entry(class.0).or_insert(vec![]).push((true, symbol));
-                ranges
-                    .entry(char::from_u32(class.1 as u32 + 1).unwrap())
-                    .or_insert(vec![])
-                    .push((false, symbol));
+                // There may be no character above the class.
+                if let Some(above) = (class.1..=char::MAX).nth(1) {
+                    ranges
+                        .entry(above)
+                        .or_insert(vec![])
+                        .push((false, symbol));
+                }
             }
         }
         let mut result = BTreeMap::new();
-- 
2.43.0


From 1f2904d3c2e4cdbebdbd629cafd995202e9e3948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:45 +0000
Subject: [PATCH 11/23] fix: regexp literals outside ASCII are characters, not
 UTF-8 bytes

---
 cfg-regexp-logic/src/lib.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/cfg-regexp-logic/src/lib.rs b/cfg-regexp-logic/src/lib.rs
index 8ac592c..81f87e5 100644
--- a/cfg-regexp-logic/src/lib.rs
+++ b/cfg-regexp-logic/src/lib.rs
@@ -171,14 +171,20 @@ impl Translator {
         match hir.kind() {
             HirKind::Literal(lit) => {
                 let mut syms = vec![];
-                for &byte in &lit.0 {
+                // A literal is UTF-8, except when it has bytes written as `(?-u:\xFF)`.
+                let chars: Vec<char> = match std::str::from_utf8(&lit.0) {
+                    Ok(text) => text.chars().collect(),
+                    Err(_) => lit.0.iter().map(|&byte| byte as char).collect(),
+                };
+                for ch in chars {
                     syms.push(
                         *self
                             .class_map
                             .classes
-                            .entry(byte.into())
+                            .entry(ch.into())
                             .or_insert_with(|| {
-                                self.cfg.next_sym(Some(format!("__byte{}", byte).into()))
+                                self.cfg
+                                    .next_sym(Some(format!("__byte{}", ch as u32).into()))
                             }),
                     );
                 }
-- 
2.43.0


From ce7b69b42c28c1174a2c5f34d7efda29434b96f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:01:01 +0000
Subject: [PATCH 12/23] fix: LL(1) parse table has an end of input column

Two rules of one nonterminal that both apply at the end of input were not
seen as a conflict, so that an ambiguous grammar was classified as LL(1).
---
 cfg-classify/src/ll.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/cfg-classify/src/ll.rs b/cfg-classify/src/ll.rs
index 27dd247..3ccb7c9 100644
--- a/cfg-classify/src/ll.rs
+++ b/cfg-classify/src/ll.rs
@@ -16,7 +16,8 @@ pub struct LlParseTable<'a> {
 #[derive(Copy, Clone, Ord, PartialOrd, Eq, PartialEq)]
 struct LlParseTableKey {
     nonterminal: Symbol,
-    terminal: Symbol,
+    /// The lookahead, or `None` at the end of input.
+    terminal: Option<Symbol>,
 }
 
 /// Container for classifying nonterminals as LL(1) or context-free.
@@ -46,19 +47,21 @@ impl<'a> LlParseTable<'a> {
         // LlParseTable[A,a] contains the rule A → w if and only if
         // a is in FIRST(w) or
         // None is in FIRST(w) and a is in FOLLOW(A).
+        // The end of input is in FOLLOW(A) if FOLLOW(A) has None.
         for (rule_idx, rule) in grammar.rules().enumerate() {
             let rhs_first_set = first.first_set_for_string(&rule.rhs[..]);
             for &terminal in &rhs_first_set[..] {
                 let key = LlParseTableKey {
                     nonterminal: rule.lhs,
-                    terminal,
+                    terminal: Some(terminal),
                 };
                 let entry = this.map.entry(key).or_default();
                 entry.push(rule_idx);
             }
             if rhs_first_set.has_none() {
                 let lhs_follow_set = follow.predict_sets().get(&rule.lhs).unwrap();
-                for &terminal in &lhs_follow_set[..] {
+                let end_of_input = lhs_follow_set.has_none().then_some(None);
+                for terminal in lhs_follow_set.iter().copied().map(Some).chain(end_of_input) {
                     let key = LlParseTableKey {
                         nonterminal: rule.lhs,
                         terminal,
-- 
2.43.0


From 0444ce179b7aff30787ced44ccdf1668b5b68c96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:31:07 +0000
Subject: [PATCH 13/23] fix: generation with negative rules forgets states it
 backtracked over

---
 cfg-generate/src/weighted/random.rs | 54 +++++++++++++++--------------
 1 file changed, 28 insertions(+), 26 deletions(-)

diff --git a/cfg-generate/src/weighted/random.rs b/cfg-generate/src/weighted/random.rs
index 8cf3c4c..570cc1b 100644
--- a/cfg-generate/src/weighted/random.rs
+++ b/cfg-generate/src/weighted/random.rs
@@ -148,6 +148,7 @@ struct BacktrackState<'a, R> {
     forbidden: &'a [char],
     rng: R,
     result_len: usize,
+    string_len: usize,
     prev_work: List<Symbol>,
 }
 
@@ -171,7 +172,7 @@ impl Random for Cfg {
             .iter()
             .map(|neg| (neg.sym, neg.chars.chars().collect()))
             .collect();
-        let mut backtracking: BTreeMap<usize, Vec<BacktrackState<R>>> = BTreeMap::new();
+        let mut backtracking: Vec<BacktrackState<R>> = vec![];
         let mut backtracking_attempts: BTreeMap<usize, u64> = BTreeMap::new();
         while let Some(&sym) = work.first() {
             work.drop_first_mut();
@@ -185,35 +186,36 @@ impl Random for Cfg {
                         return Err(RandomGenError::LimitExceeded);
                     }
                 }
-                if let Some(back) = backtracking.get_mut(&string.len()) {
-                    for state in back.iter_mut() {
-                        if string.ends_with(state.forbidden) {
-                            *rng = state.rng.clone();
-                            string.truncate(string.len() - state.forbidden.len());
-                            result.truncate(state.result_len);
-                            work = state.prev_work.clone();
-                            let attempts = backtracking_attempts
-                                .get_mut(&string.len())
-                                .expect("bt.attempt not found");
-                            rng.mutate_start(*attempts);
-                            *attempts += 1;
-                            if *attempts > 256 * 64 {
-                                return Err(RandomGenError::NegativeRuleAttemptsExceeded);
-                            }
-                        }
+                let violated = backtracking.iter().position(|state| {
+                    string.len() == state.string_len + state.forbidden.len()
+                        && string.ends_with(state.forbidden)
+                });
+                if let Some(idx) = violated {
+                    // What was generated after this state is taken back.
+                    backtracking.truncate(idx + 1);
+                    let state = &backtracking[idx];
+                    *rng = state.rng.clone();
+                    string.truncate(state.string_len);
+                    result.truncate(state.result_len);
+                    work = state.prev_work.clone();
+                    let attempts = backtracking_attempts
+                        .get_mut(&string.len())
+                        .expect("bt.attempt not found");
+                    rng.mutate_start(*attempts);
+                    *attempts += 1;
+                    if *attempts > 256 * 64 {
+                        return Err(RandomGenError::NegativeRuleAttemptsExceeded);
                     }
                 }
             } else if let Some(forbidden) = negative.get(&sym) {
                 // debug!("NEGATIVE: forbidden {:?} at {:?}", forbidden, string.len());
-                backtracking
-                    .entry(string.len() + forbidden.len())
-                    .or_default()
-                    .push(BacktrackState {
-                        forbidden: &forbidden[..],
-                        rng: rng.clone(),
-                        result_len: result.len(),
-                        prev_work: work.clone(),
-                    });
+                backtracking.push(BacktrackState {
+                    forbidden: &forbidden[..],
+                    rng: rng.clone(),
+                    result_len: result.len(),
+                    string_len: string.len(),
+                    prev_work: work.clone(),
+                });
                 backtracking_attempts.entry(string.len()).or_insert(0);
             } else {
                 let rhs = weighted.pick_rhs(sym, rng);
-- 
2.43.0


From 5a3ee80fdecff25439a4de756bd0f16efd7552fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:57 +0000
Subject: [PATCH 14/23] fix: minimal distances follow predictions through
 several rules in any rule order

---
 cfg-predict-distance/src/lib.rs | 95 +++++++++++++++++++--------------
 1 file changed, 55 insertions(+), 40 deletions(-)

diff --git a/cfg-predict-distance/src/lib.rs b/cfg-predict-distance/src/lib.rs
index 786f3c8..6c20d77 100644
--- a/cfg-predict-distance/src/lib.rs
+++ b/cfg-predict-distance/src/lib.rs
@@ -145,11 +145,29 @@ impl<'a> MinimalDistance<'a> {
         dots: &[(usize, usize)],
         direction: DistanceDirection,
     ) {
-        // Calculates distances within rules.
-        for (idx, rule) in self.grammar.rules().enumerate() {
-            for (_rule_idx, dot_pos) in binary_search_span(dots, idx) {
-                debug_assert_eq!(idx, _rule_idx);
-                self.immediate_process_dot(idx, rule, dot_pos, direction);
+        // Calculates distances within rules and into the rules they predict.
+        let mut changed = true;
+        while changed {
+            // Keep going for as long as any prediction distances were lowered in the last pass.
+            changed = false;
+            for (idx, rule) in self.grammar.rules().enumerate() {
+                for (_rule_idx, dot_pos) in binary_search_span(dots, idx) {
+                    debug_assert_eq!(idx, _rule_idx);
+                    if direction.includes_forward() {
+                        changed |= self.immediate_process_dot(idx, rule, dot_pos, 0, false);
+                    }
+                    if direction.includes_backward() {
+                        changed |= self.immediate_process_dot(idx, rule, dot_pos, 0, true);
+                    }
+                }
+                for (pos, sym) in rule.rhs.iter().enumerate() {
+                    if let Some(distance) = self.forward_distances.before[sym.usize()] {
+                        changed |= self.immediate_process_dot(idx, rule, pos, distance, false);
+                    }
+                    if let Some(distance) = self.backward_distances.before[sym.usize()] {
+                        changed |= self.immediate_process_dot(idx, rule, pos + 1, distance, true);
+                    }
+                }
             }
         }
     }
@@ -159,17 +177,22 @@ impl<'a> MinimalDistance<'a> {
         rule_idx: usize,
         rule: &CfgRule,
         dot_pos: usize,
-        direction: DistanceDirection,
-    ) {
-        if direction.includes_forward() {
-            let (min, _) = self.update_rule_distances(0, &rule.rhs[..dot_pos], 0, rule_idx, false);
-            set_min(&mut self.forward_distances.before[rule.lhs.usize()], min);
-        }
-        if direction.includes_backward() {
-            let (min, _) =
-                self.update_rule_distances(0, &rule.rhs[dot_pos..], dot_pos, rule_idx, true);
-            set_min(&mut self.backward_distances.before[rule.lhs.usize()], min);
-        }
+        distance: u32,
+        reverse: bool,
+    ) -> bool {
+        let (rhs, first_dot) = if reverse {
+            (&rule.rhs[dot_pos..], dot_pos)
+        } else {
+            (&rule.rhs[..dot_pos], 0)
+        };
+        let (min, changed) =
+            self.update_rule_distances(distance, rhs, first_dot, rule_idx, reverse);
+        let distances = if reverse {
+            &mut self.backward_distances
+        } else {
+            &mut self.forward_distances
+        };
+        set_min(&mut distances.before[rule.lhs.usize()], min) || changed
     }
 
     /// Calculates lengths of shortest paths that cross transitions (predictions and completions).
@@ -202,44 +225,36 @@ impl<'a> MinimalDistance<'a> {
         idx: usize,
         reverse: bool,
     ) -> (u32, bool) {
+        let mut changed = false;
         let last = if reverse {
             for (dot, &sym) in rhs.iter().enumerate() {
-                set_min(&mut self.distances[idx][first_dot + dot], cur);
-                cur = self.update_sym_distance(cur, sym, true);
+                changed |= set_min(&mut self.distances[idx][first_dot + dot], cur);
+                changed |= self.update_sym_distance(&mut cur, sym, true);
             }
             first_dot + rhs.len()
         } else {
             for (dot, &sym) in rhs.iter().enumerate().rev() {
-                set_min(&mut self.distances[idx][first_dot + dot + 1], cur);
-                cur = self.update_sym_distance(cur, sym, false);
+                changed |= set_min(&mut self.distances[idx][first_dot + dot + 1], cur);
+                changed |= self.update_sym_distance(&mut cur, sym, false);
             }
             first_dot
         };
-        let changed = set_min(&mut self.distances[idx][last], cur);
+        changed |= set_min(&mut self.distances[idx][last], cur);
         (cur, changed)
     }
 
-    fn update_sym_distance(&mut self, mut cur: u32, sym: Symbol, reverse: bool) -> u32 {
-        set_min(
-            if reverse {
-                &mut self.backward_distances.after[sym.usize()]
-            } else {
-                &mut self.forward_distances.after[sym.usize()]
-            },
-            cur,
-        );
-        cur += self.min_length[sym.usize()].unwrap();
-        if let Some(sym_predicted) = if reverse {
-            &self.backward_distances
-        } else {
-            &self.forward_distances
-        }
-        .before[sym.usize()]
-        {
-            cur.min(sym_predicted)
+    fn update_sym_distance(&mut self, cur: &mut u32, sym: Symbol, reverse: bool) -> bool {
+        let distances = if reverse {
+            &mut self.backward_distances
         } else {
-            cur
+            &mut self.forward_distances
+        };
+        let changed = set_min(&mut distances.after[sym.usize()], *cur);
+        *cur += self.min_length[sym.usize()].unwrap();
+        if let Some(sym_predicted) = distances.before[sym.usize()] {
+            *cur = sym_predicted.min(*cur);
         }
+        changed
     }
 }
 
-- 
2.43.0


From 03f84dc7b6cffc063a508e26c8989b9b051074a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:31 +0000
Subject: [PATCH 15/23] fix: histories of sequences record proper and liberal
 separators

---
 cfg-sequence/src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cfg-sequence/src/lib.rs b/cfg-sequence/src/lib.rs
index 230d86f..d498b0d 100644
--- a/cfg-sequence/src/lib.rs
+++ b/cfg-sequence/src/lib.rs
@@ -91,8 +91,8 @@ impl Separator {
 impl From<Separator> for Option<Symbol> {
     fn from(val: Separator) -> Option<Symbol> {
         match val {
-            Trailing(sep) => Some(sep),
-            _ => None,
+            Trailing(sep) | Proper(sep) | Liberal(sep) => Some(sep),
+            Null => None,
         }
     }
 }
-- 
2.43.0


From f990f71c6afee713a98e8930565c4d0adbf1beaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:13 +0000
Subject: [PATCH 16/23] fix: literals U+D7FF, U+10FFFF and byte 255 have a
 class

---
 cfg-regexp-logic/src/lib.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/cfg-regexp-logic/src/lib.rs b/cfg-regexp-logic/src/lib.rs
index 81f87e5..badea4c 100644
--- a/cfg-regexp-logic/src/lib.rs
+++ b/cfg-regexp-logic/src/lib.rs
@@ -20,16 +20,16 @@ pub struct LexerClasses {
 
 impl From<u8> for LexerClasses {
     fn from(value: u8) -> Self {
-        LexerClasses {
-            set: iter::once((value as char, (value + 1) as char)).collect(),
-        }
+        Self::from(value as char)
     }
 }
 
 impl From<char> for LexerClasses {
     fn from(value: char) -> Self {
+        // There may be no character above the literal.
+        let above = (value..=char::MAX).nth(1).unwrap_or(value);
         LexerClasses {
-            set: iter::once((value, char::from_u32(value as u32 + 1).unwrap())).collect(),
+            set: iter::once((value, above)).collect(),
         }
     }
 }
-- 
2.43.0


From 0126ed8353ddba655e655838956a8d8e005afb60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:27:06 +0000
Subject: [PATCH 17/23] fix: generation respects the limit of negative rule
 attempts

---
 cfg-generate/src/weighted/random.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cfg-generate/src/weighted/random.rs b/cfg-generate/src/weighted/random.rs
index 570cc1b..01e0ff1 100644
--- a/cfg-generate/src/weighted/random.rs
+++ b/cfg-generate/src/weighted/random.rs
@@ -29,7 +29,7 @@ pub enum RandomGenError {
 pub struct Limits {
     /// How many terminals we are allowed to produce.
     pub terminals: u64,
-    ///
+    /// How many times we are allowed to reverse progress at one place.
     pub negative_rule_attempts: u64,
 }
 
@@ -174,6 +174,7 @@ impl Random for Cfg {
             .collect();
         let mut backtracking: Vec<BacktrackState<R>> = vec![];
         let mut backtracking_attempts: BTreeMap<usize, u64> = BTreeMap::new();
+        let max_attempts = limit.map_or(256 * 64, |limits| limits.negative_rule_attempts);
         while let Some(&sym) = work.first() {
             work.drop_first_mut();
             if terminal_set[sym] {
@@ -203,7 +204,7 @@ impl Random for Cfg {
                         .expect("bt.attempt not found");
                     rng.mutate_start(*attempts);
                     *attempts += 1;
-                    if *attempts > 256 * 64 {
+                    if *attempts > max_attempts {
                         return Err(RandomGenError::NegativeRuleAttemptsExceeded);
                     }
                 }
-- 
2.43.0


From 15e25bafa0ea0591d044c313da8f614dfd8da1cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:38:34 +0000
Subject: [PATCH 18/23] fix: a lexer block may come first and more than once

---
 cfg-load/src/advanced.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/cfg-load/src/advanced.rs b/cfg-load/src/advanced.rs
index 2fa3097..2c78525 100644
--- a/cfg-load/src/advanced.rs
+++ b/cfg-load/src/advanced.rs
@@ -179,9 +179,15 @@ impl forest::Eval for Evaluator {
                 Value::Start(rules, lex)
             }
             // start ::= start decl;
-            (2, Value::Start(rules, None), Value::Lex(lex), ..) => Value::Start(rules, Some(lex)),
+            (2, Value::Start(rules, lex), Value::Lex(more), ..) => {
+                let mut lex = lex.unwrap_or(LexerVal(vec![]));
+                lex.0.extend(more.0);
+                Value::Start(rules, Some(lex))
+            }
             // start ::= decl;
             (3, Value::Rules(rule), ..) => Value::Start(rule, None),
+            // start ::= decl;
+            (3, Value::Lex(lex), ..) => Value::Start(vec![], Some(lex)),
             // decl ::= rule;
             (4, Value::Rules(rules), ..) => Value::Rules(rules),
             // decl ::= lexer;
-- 
2.43.0


From 6f6226e9494d4e9ffb2f1abc885e9627b064ae40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:40:27 +0000
Subject: [PATCH 19/23] fix: errors in loaded rules give their line and column

---
 cfg-load/src/advanced.rs | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/cfg-load/src/advanced.rs b/cfg-load/src/advanced.rs
index 2c78525..f3139d8 100644
--- a/cfg-load/src/advanced.rs
+++ b/cfg-load/src/advanced.rs
@@ -623,6 +623,12 @@ impl CfgLoadAdvancedExt for Cfg {
                 token: None,
             });
         };
+        let positions: Vec<_> = tokens
+            .iter()
+            .map(|&(_, line, col)| (line as u32, col as u32))
+            .collect();
+        // Spans hold numbers of tokens, from 1.
+        let position = |token: usize| positions[token - 1];
         let result = recognizer
             .forest
             .evaluator(Evaluator { symbols, tokens })
@@ -656,10 +662,11 @@ impl CfgLoadAdvancedExt for Cfg {
                 let lhs = intern.get_or_intern(&rule.lhs[..]);
                 if is_lexer {
                     if lhs_in_parser.contains(&lhs) {
+                        let (line, col) = position(rule.span.0);
                         return Err(LoadError {
                             reason: format!("lhs shared between parser and lexer: {}", rule.lhs),
-                            line: rule.span.0 as u32,
-                            col: 1,
+                            line,
+                            col,
                             token: None,
                         });
                     }
@@ -679,10 +686,11 @@ impl CfgLoadAdvancedExt for Cfg {
                     .map(|fragment| match fragment {
                         Fragment::Call { func, arg, span } => {
                             if func != "Regexp" {
+                                let (line, col) = position(span.0);
                                 return Err(LoadError {
                                     reason: format!("expected 'Regexp', found '{}'", func),
-                                    line: span.0 as u32,
-                                    col: 1,
+                                    line,
+                                    col,
                                     token: None,
                                 });
                             }
@@ -703,11 +711,12 @@ impl CfgLoadAdvancedExt for Cfg {
                                     });
                                 }
                                 &Fragment::Lex { ref string, span } => {
+                                    let (line, col) = position(span);
                                     let (mut regexp_cfg, classes) = Cfg::from_regexp(string)
                                         .map_err(|err| LoadError {
                                             reason: err.to_string(),
-                                            line: span as u32,
-                                            col: 1,
+                                            line,
+                                            col,
                                             token: None,
                                         })?;
                                     let mut remap = Remap::new(&mut regexp_cfg);
-- 
2.43.0


From fc17b5a7d75957903c1b34732dd8ab9469474d0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:07 +0000
Subject: [PATCH 20/23] fix: nulling elimination leaves no rules over symbols
 whose rules it removes

---
 cfg-grammar/src/cfg.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cfg-grammar/src/cfg.rs b/cfg-grammar/src/cfg.rs
index a8656ce..24a3c85 100644
--- a/cfg-grammar/src/cfg.rs
+++ b/cfg-grammar/src/cfg.rs
@@ -394,7 +394,7 @@ impl Cfg {
             // Retain the rule only if it's productive. We have to, in order to remove rules
             // that were made unproductive as a result of `A ::= epsilon` rule elimination.
             // Otherwise, some of our nonterminal symbols might become terminal.
-            productive[rule.lhs]
+            productive[rule.lhs] && rule.rhs.iter().all(|&sym| productive[sym] || nullable[sym])
         });
 
         result
-- 
2.43.0


From b77b3cadfcf4da0d0d09047f449508347c4e734d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:37 +0000
Subject: [PATCH 21/23] fix: a zero in nanoserde's binary form is an error
 instead of a panic

---
 cfg-symbol/src/symbol.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/cfg-symbol/src/symbol.rs b/cfg-symbol/src/symbol.rs
index 4436b68..f28e9ee 100644
--- a/cfg-symbol/src/symbol.rs
+++ b/cfg-symbol/src/symbol.rs
@@ -132,9 +132,13 @@ mod miniserde_impls {
 #[cfg(feature = "nanoserde")]
 impl nanoserde::DeBin for Symbol<NonZeroU32> {
     fn de_bin(offset: &mut usize, bytes: &[u8]) -> Result<Self, nanoserde::DeBinErr> {
-        Ok(Symbol {
-            n: u32::de_bin(offset, bytes)?.try_into().unwrap(),
-        })
+        let start = *offset;
+        let n = u32::de_bin(offset, bytes)?;
+        // Zero is no symbol.
+        match NonZeroU32::new(n) {
+            Some(n) => Ok(Symbol { n }),
+            None => Err(nanoserde::DeBinErr::new(start, 4, 0)),
+        }
     }
 }
 
-- 
2.43.0


From 1cee41f1a1483fe208423f8f3fa02608429d159c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:31 +0000
Subject: [PATCH 22/23] fix: distances of one call no longer mix with those of
 an earlier call

---
 cfg-predict-distance/src/lib.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cfg-predict-distance/src/lib.rs b/cfg-predict-distance/src/lib.rs
index 6c20d77..6bc3c61 100644
--- a/cfg-predict-distance/src/lib.rs
+++ b/cfg-predict-distance/src/lib.rs
@@ -114,6 +114,8 @@ impl<'a> MinimalDistance<'a> {
         dots: &[(usize, usize)],
         direction: DistanceDirection,
     ) -> &[Vec<Option<u32>>] {
+        // Forget the distances to the dots of an earlier call.
+        *self = Self::new(self.grammar);
         let mut dots = dots.to_vec();
         dots.sort_unstable();
         self.minimal_sentence_lengths();
-- 
2.43.0


From 10189525172b68521362aede755c3373e071efc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:28 +0000
Subject: [PATCH 23/23] fix: a wrapped grammar with no other rules counts as
 empty when the wrapping rule was split

---
 cfg-grammar/src/cfg.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/cfg-grammar/src/cfg.rs b/cfg-grammar/src/cfg.rs
index 24a3c85..2e60388 100644
--- a/cfg-grammar/src/cfg.rs
+++ b/cfg-grammar/src/cfg.rs
@@ -665,8 +665,14 @@ impl Cfg {
         } else {
             let mut roots = self.roots.clone();
             roots.sort();
+            // A wrapping rule may have been split, its first part then has another LHS.
+            let is_wrapping_part = |rule: &CfgRule| {
+                self.wrapped_roots
+                    .iter()
+                    .any(|wrapped| rule.rhs.contains(&wrapped.start_of_input))
+            };
             self.rules()
-                .all(|rule| roots.binary_search(&rule.lhs).is_ok())
+                .all(|rule| roots.binary_search(&rule.lhs).is_ok() || is_wrapping_part(rule))
         }
     }
 
-- 
2.43.0

