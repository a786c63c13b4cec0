From 80605480a6e27f9725e2f0c54a0c116f4167aa15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:57 +0000
Subject: [PATCH 01/30] hook: read access to translation steps under
 cfg(louis_verif)

---
 src/lib.rs | 41 +++++++++++++++++++++++++++++++++++++++++
 1 file changed, 41 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 1bf4009..c2c9d12 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -149,6 +149,47 @@ impl Translator {
     }
 }
 
+/// Read access to the individual steps of a translation for external verification harnesses.
+/// Only compiled with `--cfg louis_verif`.
+#[cfg(louis_verif)]
+#[doc(hidden)]
+pub mod verif {
+    use super::{TranslationOptions, Translator};
+
+    /// A single step of a translation stage
+    #[derive(Debug, Clone, PartialEq, Eq)]
+    pub struct Step {
+        pub stage: String,
+        pub input: String,
+        pub output: String,
+        pub has_rule: bool,
+    }
+
+    /// The steps of the translation of `input`, for each stage in the order they are applied
+    pub fn trace(
+        translator: &Translator,
+        input: &str,
+        options: &TranslationOptions,
+    ) -> Vec<Vec<Step>> {
+        translator
+            .0
+            .trace_with_options(input, options)
+            .iter()
+            .map(|stage| {
+                stage
+                    .iter()
+                    .map(|t| Step {
+                        stage: t.stage().to_string(),
+                        input: t.input(),
+                        output: t.output(),
+                        has_rule: t.origin().is_some(),
+                    })
+                    .collect()
+            })
+            .collect()
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use crate::translator::TranslationStage;
-- 
2.43.0


From cc65ad4562895ae74a1069c1d6cff2bf776c940c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:16 +0000
Subject: [PATCH 02/30] fix: keep the precedence and the boundary weight of a
 rule in the trie

A trie node always recorded the default precedence, so of two rules of the
same kind with the same text the last one replaced the first, and a
replacement lost the weight of its boundary conditions.
---
 src/translator/translation.rs |  5 +++++
 src/translator/trie.rs        | 29 ++++++++---------------------
 2 files changed, 13 insertions(+), 21 deletions(-)

diff --git a/src/translator/translation.rs b/src/translator/translation.rs
index 150a882..4d1209e 100644
--- a/src/translator/translation.rs
+++ b/src/translator/translation.rs
@@ -287,6 +287,11 @@ impl ResolvedTranslation {
         Self { weight, ..self }
     }
 
+    /// Set the `precedence` of a translation.
+    pub fn with_precedence(self, precedence: Precedence) -> Self {
+        Self { precedence, ..self }
+    }
+
     /// Set the `output` of a translation.
     pub fn with_output(self, output: &str) -> Self {
         Self {
diff --git a/src/translator/trie.rs b/src/translator/trie.rs
index d626d5e..7211930 100644
--- a/src/translator/trie.rs
+++ b/src/translator/trie.rs
@@ -227,36 +227,23 @@ impl Trie {
             }
         }
 
+        let new_translation =
+            ResolvedTranslation::new(from, to, length, stage, origin.clone())
+                .with_precedence(precedence.clone());
         if let Some(translation) = &current_node.translation {
             // this node already contains a translation
             if precedence > translation.precedence() {
-                current_node.translation = Some(ResolvedTranslation::new(
-                    from,
-                    to,
-                    from.chars().count(),
-                    stage,
-                    origin.clone(),
-                ));
+                current_node.translation = Some(new_translation);
+            } else if precedence < translation.precedence() {
+                // the rule that is already there takes precedence, so nothing to insert
             } else if cfg!(feature = "backwards_compatibility") {
                 // first rule wins, so nothing to insert
             } else {
                 // last rule wins
-                current_node.translation = Some(ResolvedTranslation::new(
-                    from,
-                    to,
-                    length,
-                    stage,
-                    origin.clone(),
-                ));
+                current_node.translation = Some(new_translation);
             }
         } else {
-            current_node.translation = Some(ResolvedTranslation::new(
-                from,
-                to,
-                length,
-                stage,
-                origin.clone(),
-            ));
+            current_node.translation = Some(new_translation);
         }
     }
 
-- 
2.43.0


From d5dcf8d85b515f723224f8066ea04764333b0a88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:10 +0000
Subject: [PATCH 03/30] fix: choose between equally long contractions by table
 order

The class transitions of a trie node are kept in a HashMap, so of two rules
with equal weight but different boundary conditions an arbitrary one was
applied, differing from one translator to the next.
---
 src/translator/trie.rs | 50 +++++++++++++++++++++++++++++-------------
 1 file changed, 35 insertions(+), 15 deletions(-)

diff --git a/src/translator/trie.rs b/src/translator/trie.rs
index 7211930..6c582a0 100644
--- a/src/translator/trie.rs
+++ b/src/translator/trie.rs
@@ -78,6 +78,8 @@ pub enum ClassConstraint {
 #[derive(Default, Debug, Clone)]
 struct TrieNode {
     translation: Option<ResolvedTranslation>,
+    /// Position of the translation in the order of insertions
+    order: usize,
     transitions: HashMap<ResolvedTransition, TrieNode>,
 }
 
@@ -102,6 +104,8 @@ impl TrieNode {
 #[derive(Default, Debug, Clone)]
 pub struct Trie {
     root: TrieNode,
+    /// Number of insertions so far, i.e. the position of the next one in the table order
+    insertions: usize,
     /// Character classes used for word/number/punctuation boundary checks and for
     /// `StartClass`/`EndClass` constraint checks. Set to text classes for forward translation,
     /// braille classes for backward.
@@ -112,6 +116,7 @@ impl Trie {
     pub fn new() -> Self {
         Trie {
             root: TrieNode::default(),
+            insertions: 0,
             ctx: CharacterClasses::default(),
         }
     }
@@ -183,6 +188,9 @@ impl Trie {
         let before = before.map(|t| self.resolve_transition(t));
         let after = after.map(|t| self.resolve_transition(t));
 
+        let order = self.insertions;
+        self.insertions += 1;
+
         let mut current_node = &mut self.root;
         let mut length = from.chars().count();
 
@@ -230,20 +238,17 @@ impl Trie {
         let new_translation =
             ResolvedTranslation::new(from, to, length, stage, origin.clone())
                 .with_precedence(precedence.clone());
-        if let Some(translation) = &current_node.translation {
+        let replace = match &current_node.translation {
+            None => true,
             // this node already contains a translation
-            if precedence > translation.precedence() {
-                current_node.translation = Some(new_translation);
-            } else if precedence < translation.precedence() {
-                // the rule that is already there takes precedence, so nothing to insert
-            } else if cfg!(feature = "backwards_compatibility") {
-                // first rule wins, so nothing to insert
-            } else {
-                // last rule wins
-                current_node.translation = Some(new_translation);
-            }
-        } else {
+            Some(translation) if precedence > translation.precedence() => true,
+            Some(translation) if precedence < translation.precedence() => false,
+            // first rule wins with backwards compatibility, otherwise last rule wins
+            Some(_) => !cfg!(feature = "backwards_compatibility"),
+        };
+        if replace {
             current_node.translation = Some(new_translation);
+            current_node.order = order;
         }
     }
 
@@ -253,14 +258,14 @@ impl Trie {
         prev: Option<char>,
         node: &TrieNode,
         match_length: usize,
-    ) -> Vec<ResolvedTranslation> {
+    ) -> Vec<(usize, ResolvedTranslation)> {
         let mut matching_rules = Vec::new();
         let mut chars = input.chars();
 
         // if this node has a translation add it to the list of matching rules
         if let Some(ref translation) = node.translation {
             let translation = translation.clone();
-            matching_rules.push(translation)
+            matching_rules.push((node.order, translation))
         }
         let c = chars.next();
         if let Some(c) = c {
@@ -313,8 +318,23 @@ impl Trie {
         matching_rules
     }
 
+    /// Return all translations that apply at the beginning of `input`.
+    ///
+    /// They are sorted by ascending weight. Translations with the same weight are sorted such that
+    /// the one that should be preferred comes last, i.e. the first in the table (or the last one
+    /// without backwards compatibility). The order of the class transitions is arbitrary (they are
+    /// kept in a `HashMap`), so without that the choice between them would be arbitrary also.
     pub fn find_translations(&self, input: &str, prev: Option<char>) -> Vec<ResolvedTranslation> {
-        self.find_translations_from_node(input, prev, &self.root, 0)
+        let mut translations = self.find_translations_from_node(input, prev, &self.root, 0);
+        translations.sort_by(|(order1, t1), (order2, t2)| {
+            let by_order = if cfg!(feature = "backwards_compatibility") {
+                order2.cmp(order1)
+            } else {
+                order1.cmp(order2)
+            };
+            t1.weight().cmp(&t2.weight()).then(by_order)
+        });
+        translations.into_iter().map(|(_, t)| t).collect()
     }
 }
 
-- 
2.43.0


From 5221171d31ed27ddcf53b903d99df1b3f16c8639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:14 +0000
Subject: [PATCH 04/30] fix: apply a zero-length rule again after plain
 characters

The rules already applied at a position were only forgotten when another rule
consumed input, not when a plain character or a nocross rule did, so that an
insertion happened at the first of several adjacent places only.
---
 src/translator/table/multipass.rs | 1 +
 src/translator/table/primary.rs   | 2 ++
 2 files changed, 3 insertions(+)

diff --git a/src/translator/table/multipass.rs b/src/translator/table/multipass.rs
index 03353c0..e4b8a85 100644
--- a/src/translator/table/multipass.rs
+++ b/src/translator/table/multipass.rs
@@ -161,6 +161,7 @@ impl MultipassTable {
                 }
             } else if let Some(next_char) = chars.next() {
                 prev = Some(next_char);
+                seen.clear();
                 // no translation rule found, just pass the character through
                 let translation = ResolvedTranslation::new(
                     &next_char.to_string(),
diff --git a/src/translator/table/primary.rs b/src/translator/table/primary.rs
index 5b027b7..08af505 100644
--- a/src/translator/table/primary.rs
+++ b/src/translator/table/primary.rs
@@ -1623,6 +1623,7 @@ impl PrimaryTable {
                 chars.nth(nocross.length() - 1);
                 prev = translation.input().chars().last();
                 char_pos += nocross.length();
+                seen.clear();
                 translations.push(translation);
                 delayed_translations = self.update_offsets(delayed_translations, nocross.length());
             } else if let Some(t) = candidate {
@@ -1652,6 +1653,7 @@ impl PrimaryTable {
             } else if let Some(next_char) = chars.next() {
                 prev = Some(next_char);
                 char_pos += 1;
+                seen.clear();
                 // no translation rule found
                 if let Some(translation) = self.character_translations.get(&next_char) {
                     translations.push(translation.clone());
-- 
2.43.0


From e9566a218cf5c1b1513c35a204166d40aa176885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:20 +0000
Subject: [PATCH 05/30] fix: keep delayed rules when a zero-length rule is
 applied

A zero-length rule does not move the cursor, but the match and context rules
with a before-pattern that were due at the position were dropped with it.
---
 src/translator/table/multipass.rs | 4 +++-
 src/translator/table/primary.rs   | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/translator/table/multipass.rs b/src/translator/table/multipass.rs
index e4b8a85..22ff498 100644
--- a/src/translator/table/multipass.rs
+++ b/src/translator/table/multipass.rs
@@ -127,7 +127,7 @@ impl MultipassTable {
             // move delayed_translations with zero offset into candidates
             let (current, delayed) = self.partition_delayed_translations(delayed_translations);
             delayed_translations = delayed;
-            candidates.extend(current);
+            candidates.extend(current.iter().cloned());
 
             // use the longest translation
             let candidate = candidates
@@ -142,6 +142,8 @@ impl MultipassTable {
                     // if there is a zero-length translation candiate we run the risk of an infinite
                     // loop, so remember the current translation so we only apply it once
                     seen.insert(TranslationSubset::from(&t));
+                    // the other delayed translations are still candidates at this position
+                    delayed_translations.extend(current);
                 } else {
                     seen.clear();
                     // move the iterator forward by the number of characters in the translation
diff --git a/src/translator/table/primary.rs b/src/translator/table/primary.rs
index 08af505..ba19096 100644
--- a/src/translator/table/primary.rs
+++ b/src/translator/table/primary.rs
@@ -1540,7 +1540,7 @@ impl PrimaryTable {
             // move delayed_translations with zero offset into candidates
             let (current, delayed) = self.partition_delayed_translations(delayed_translations);
             delayed_translations = delayed;
-            candidates.extend(current);
+            candidates.extend(current.iter().cloned());
 
             // `prepunc`/`postpunc` need a variable-length scan the trie can't express
             // (see `PunctuationConstrainer`), so they're inserted with no trie-level
@@ -1631,6 +1631,8 @@ impl PrimaryTable {
                     // if there is a zero-length translation candiate we run the risk of an infinite
                     // loop, so remember the current translation so we only apply it once
                     seen.insert(TranslationSubset::from(t));
+                    // the other delayed translations are still candidates at this position
+                    delayed_translations.extend(current);
                 } else {
                     seen.clear();
                     // move the iterator forward by the number of characters in the translation
-- 
2.43.0


From 052a40e42827cb07c9b92f463935f04c6794c08e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:37 +0000
Subject: [PATCH 06/30] fix: no nocross rules in computer braille and no
 nocross contractions in numbers

---
 src/translator/table/primary.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/translator/table/primary.rs b/src/translator/table/primary.rs
index ba19096..482a615 100644
--- a/src/translator/table/primary.rs
+++ b/src/translator/table/primary.rs
@@ -1511,10 +1511,13 @@ impl PrimaryTable {
             // needed by match/context rules anchored with liblouis' `^`/`` ` `` boundary markers
             let at_start = chars.as_str().len() == input.len();
 
-            // First check for nocross candidates
+            // First check for nocross candidates. As any other candidates they do not apply in
+            // computer braille and must not contract inside a numeric run.
             let nocross_candidate = self
                 .nocross_candidates(chars.as_str(), prev, char_pos, &constraints)
                 .into_iter()
+                .filter(|t| t.length() <= 1 || !constraints.dont_contract_at(char_pos))
+                .filter(|_| !constraints.use_comp6_at(char_pos))
                 .max_by_key(|t| t.weight());
 
             // given an input query the trie for matching translations. Then split off the
-- 
2.43.0


From 5fc4129f539946679fdb90b6221599c952bacdaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:41 +0000
Subject: [PATCH 07/30] fix: look behind at the actual character after a rule
 was applied

The character before the cursor was taken from the text of the rule, which is
in lower case, so that `after uppercase` and the letter classes saw another
character than the one in the input.
---
 src/translator/table/primary.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/translator/table/primary.rs b/src/translator/table/primary.rs
index 482a615..857278a 100644
--- a/src/translator/table/primary.rs
+++ b/src/translator/table/primary.rs
@@ -1623,8 +1623,7 @@ impl PrimaryTable {
                 let translation = nocross.clone();
                 let translation = uppercase_if_needed(translation);
                 // move the iterator forward by the number of characters in the translation
-                chars.nth(nocross.length() - 1);
-                prev = translation.input().chars().last();
+                prev = chars.nth(nocross.length() - 1);
                 char_pos += nocross.length();
                 seen.clear();
                 translations.push(translation);
@@ -1639,8 +1638,7 @@ impl PrimaryTable {
                 } else {
                     seen.clear();
                     // move the iterator forward by the number of characters in the translation
-                    chars.nth(t.length() - 1);
-                    prev = t.input().chars().last();
+                    prev = chars.nth(t.length() - 1);
                     char_pos += t.length();
                 }
                 // there is a matching translation rule
-- 
2.43.0


From a1ce97a78023145cb963d56e4da75e00e5b016f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:34 +0000
Subject: [PATCH 08/30] fix: match any number of repetitions within a range

`%class1-3` compiled to a loop over the optional repetitions, so that it
matched 1, 3, 5, ... characters instead of 1, 2 or 3.
---
 src/translator/regexp.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/translator/regexp.rs b/src/translator/regexp.rs
index 57ac88d..45c6ba5 100644
--- a/src/translator/regexp.rs
+++ b/src/translator/regexp.rs
@@ -215,13 +215,16 @@ impl Regexp {
                 for _ in 0..*min {
                     regexp.emit(instructions, character_classes);
                 }
-                let pos = instructions.len();
-                instructions.push(Instruction::Split(pos + 1, 0));
+                // each of the remaining repetitions is optional
+                let mut splits = Vec::new();
                 for _ in *min..*max {
+                    splits.push(instructions.len());
+                    instructions.push(Instruction::Split(0, 0));
                     regexp.emit(instructions, character_classes);
                 }
-                instructions.push(Instruction::Jump(pos));
-                instructions[pos] = Instruction::Split(pos + 1, instructions.len());
+                for pos in splits {
+                    instructions[pos] = Instruction::Split(pos + 1, instructions.len());
+                }
             }
             Regexp::Capture(regexp) => {
                 instructions.push(Instruction::CaptureStart);
-- 
2.43.0


From add70c46df2208ee3241d2b04c95cbcfb16b5a22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:05 +0000
Subject: [PATCH 09/30] fix: compare variables with the other operators in a
 multipass test

Compiling a table with a test such as `#1<2` hit a todo!().
---
 src/translator/context_pattern.rs | 13 +++++++++----
 src/translator/regexp.rs          | 32 +++++++++++++++++++++++++++++++
 2 files changed, 41 insertions(+), 4 deletions(-)

diff --git a/src/translator/context_pattern.rs b/src/translator/context_pattern.rs
index c34604f..fa694b3 100644
--- a/src/translator/context_pattern.rs
+++ b/src/translator/context_pattern.rs
@@ -1,5 +1,6 @@
 //! Store and find context rules using a simple regexp engine ([`Regexp`](crate::translator::regexp))
 
+use std::cmp::Ordering;
 use std::collections::HashSet;
 
 use crate::parser::multipass::test::Operator;
@@ -54,10 +55,14 @@ impl Regexp {
             TestInstruction::Lookback { .. } => Regexp::Empty,
             TestInstruction::Variable { var, op, operand } => match op {
                 Operator::Eq => Regexp::VariableEqual(*var, *operand),
-                // FIXME: operands other than equal do not seem to exist in the wild (at least not
-                // in the tables that are shipped with liblouis), so maybe that feature should be
-                // removed
-                _ => todo!(),
+                Operator::Lt => Regexp::VariableCompare(*var, *operand, &[Ordering::Less]),
+                Operator::Gt => Regexp::VariableCompare(*var, *operand, &[Ordering::Greater]),
+                Operator::LtEq => {
+                    Regexp::VariableCompare(*var, *operand, &[Ordering::Less, Ordering::Equal])
+                }
+                Operator::GtEq => {
+                    Regexp::VariableCompare(*var, *operand, &[Ordering::Greater, Ordering::Equal])
+                }
             },
             TestInstruction::String { s } => Regexp::String(s.to_string()),
             TestInstruction::Dots { dots } => Regexp::String(dots.to_string()),
diff --git a/src/translator/regexp.rs b/src/translator/regexp.rs
index 45c6ba5..6153588 100644
--- a/src/translator/regexp.rs
+++ b/src/translator/regexp.rs
@@ -11,6 +11,7 @@
 //! complexity and support for features like character classes, quantifiers, and
 //! captures.
 
+use std::cmp::Ordering;
 use std::collections::HashSet;
 
 use smallvec::SmallVec;
@@ -59,6 +60,12 @@ pub enum Regexp {
     VariableEqual(VariableIndex, u8),
     /// Check whether variable at index is not equal to given value
     NotVariableEqual(VariableIndex, u8),
+    /// Check whether the ordering of variable at index relative to the given value is one of the
+    /// given orderings
+    VariableCompare(VariableIndex, u8, &'static [Ordering]),
+    /// Check whether the ordering of variable at index relative to the given value is none of the
+    /// given orderings
+    NotVariableCompare(VariableIndex, u8, &'static [Ordering]),
     Group(Box<Regexp>),
     /// To support empty captures, we need an empty AST
     Empty,
@@ -122,6 +129,11 @@ impl Regexp {
             Regexp::VariableEqual(slot, value) => Regexp::NotVariableEqual(slot, value),
             // unreachable: the parser rejects double negation before it reaches here
             Regexp::NotVariableEqual(_, _) => unreachable!(),
+            Regexp::VariableCompare(slot, value, orderings) => {
+                Regexp::NotVariableCompare(slot, value, orderings)
+            }
+            // unreachable: the parser rejects double negation before it reaches here
+            Regexp::NotVariableCompare(_, _, _) => unreachable!(),
             Regexp::Group(regexp) => Regexp::Group(Box::new(regexp.negate())),
             Regexp::Empty => Regexp::Never,
             Regexp::Never => Regexp::Empty,
@@ -252,6 +264,12 @@ impl Regexp {
             Regexp::NotVariableEqual(index, value) => {
                 instructions.push(Instruction::NotVariableEqual(*index, *value))
             }
+            Regexp::VariableCompare(index, value, orderings) => {
+                instructions.push(Instruction::VariableCompare(*index, *value, orderings))
+            }
+            Regexp::NotVariableCompare(index, value, orderings) => {
+                instructions.push(Instruction::NotVariableCompare(*index, *value, orderings))
+            }
             Regexp::Group(regexp) => {
                 regexp.emit(instructions, character_classes);
             }
@@ -300,6 +318,10 @@ pub enum Instruction {
     VariableEqual(VariableIndex, u8),
     /// Test whether a variable is not equal to a value
     NotVariableEqual(VariableIndex, u8),
+    /// Test whether the ordering of a variable relative to a value is one of the given orderings
+    VariableCompare(VariableIndex, u8, &'static [Ordering]),
+    /// Test whether the ordering of a variable relative to a value is none of the given orderings
+    NotVariableCompare(VariableIndex, u8, &'static [Ordering]),
     /// Zero-width assertion: succeeds only if there is no input left
     AssertEnd,
     /// Zero-width assertion: succeeds only if there is still input left
@@ -431,6 +453,16 @@ impl CompiledRegexp {
                     self.add_thread(list, pc + 1, capture, sp, input_len, at_start, env);
                 }
             }
+            Instruction::VariableCompare(var, value, orderings) => {
+                if env.get(var).is_some_and(|actual| orderings.contains(&actual.cmp(&value))) {
+                    self.add_thread(list, pc + 1, capture, sp, input_len, at_start, env);
+                }
+            }
+            Instruction::NotVariableCompare(var, value, orderings) => {
+                if env.get(var).is_some_and(|actual| !orderings.contains(&actual.cmp(&value))) {
+                    self.add_thread(list, pc + 1, capture, sp, input_len, at_start, env);
+                }
+            }
             Instruction::AssertEnd => {
                 if sp == input_len {
                     self.add_thread(list, pc + 1, capture, sp, input_len, at_start, env);
-- 
2.43.0


From 12fde4a7d096a477df42a673626ada48ce5fab62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:15 +0000
Subject: [PATCH 10/30] fix: compile a negated group that contains a negation

A match rule with a pattern such as `!(a!b)` is accepted by the parser but
hit an unreachable!() when the table was compiled.
---
 src/translator/regexp.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/translator/regexp.rs b/src/translator/regexp.rs
index 6153588..da6bb92 100644
--- a/src/translator/regexp.rs
+++ b/src/translator/regexp.rs
@@ -111,8 +111,9 @@ impl Regexp {
             // its negation can therefore never succeed.
             Regexp::Any => Regexp::Never,
             Regexp::CharacterClass(class) => Regexp::NotCharacterClass(class),
-            // unreachable: the parser rejects double negation before it reaches here
-            Regexp::NotCharacterClass(_) => unreachable!(),
+            // the parser rejects double negation, but the negation of a group can contain another
+            // negation
+            Regexp::NotCharacterClass(class) => Regexp::CharacterClass(class),
             Regexp::RepeatExactly(n, regexp) => Regexp::RepeatExactly(n, Box::new(regexp.negate())),
             Regexp::RepeatAtLeast(n, regexp) => Regexp::RepeatAtLeast(n, Box::new(regexp.negate())),
             Regexp::RepeatAtLeastAtMost(n, m, regexp) => {
@@ -121,8 +122,7 @@ impl Regexp {
             // unreachable: the parser rejects negating a capture before it reaches here
             Regexp::Capture(_) => unreachable!(),
             Regexp::String(s) => Regexp::NotString(s),
-            // unreachable: the parser rejects double negation before it reaches here
-            Regexp::NotString(_) => unreachable!(),
+            Regexp::NotString(s) => Regexp::String(s),
             // unreachable: only ever built from a match rule's `chars` operand, which is parsed
             // separately from `pre`/`post` as a plain string and never goes through `Pattern::Negate`
             Regexp::CaseInsensitiveString(_) => unreachable!(),
-- 
2.43.0


From 0c773ecc60ef3540136a0c038c6c2f60a930aafb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:10 +0000
Subject: [PATCH 11/30] fix: find the before-pattern of a match rule inside of
 a contraction

The patterns were only searched from the positions where the cursor stops, so
a match rule did not fire if its before-pattern starts inside of the text of
another rule.
---
 src/translator/table/primary.rs | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/src/translator/table/primary.rs b/src/translator/table/primary.rs
index 857278a..51a0ba0 100644
--- a/src/translator/table/primary.rs
+++ b/src/translator/table/primary.rs
@@ -1459,6 +1459,24 @@ impl PrimaryTable {
             .partition(|t| t.offset() == 0)
     }
 
+    /// The matches that begin inside of the text that the cursor is about to skip (because a rule
+    /// translates the first `length` characters of `input` in one go) and that replace something
+    /// at the new cursor position or later. Their offset is relative to the new cursor position.
+    fn skipped_match_candidates(&self, input: &str, length: usize) -> Vec<ResolvedTranslation> {
+        input
+            .char_indices()
+            .enumerate()
+            .take(length)
+            .skip(1)
+            .flat_map(|(pos, (index, _))| {
+                self.update_offsets(
+                    self.match_patterns.find(&input[index..], false),
+                    length - pos,
+                )
+            })
+            .collect()
+    }
+
     fn context_candidates(
         &self,
         input: &str,
@@ -1622,13 +1640,16 @@ impl PrimaryTable {
             {
                 let translation = nocross.clone();
                 let translation = uppercase_if_needed(translation);
+                let skipped = self.skipped_match_candidates(chars.as_str(), nocross.length());
                 // move the iterator forward by the number of characters in the translation
                 prev = chars.nth(nocross.length() - 1);
                 char_pos += nocross.length();
                 seen.clear();
                 translations.push(translation);
                 delayed_translations = self.update_offsets(delayed_translations, nocross.length());
+                delayed_translations.extend(skipped);
             } else if let Some(t) = candidate {
+                let mut skipped = Vec::new();
                 if t.length() == 0 {
                     // if there is a zero-length translation candiate we run the risk of an infinite
                     // loop, so remember the current translation so we only apply it once
@@ -1637,6 +1658,7 @@ impl PrimaryTable {
                     delayed_translations.extend(current);
                 } else {
                     seen.clear();
+                    skipped = self.skipped_match_candidates(chars.as_str(), t.length());
                     // move the iterator forward by the number of characters in the translation
                     prev = chars.nth(t.length() - 1);
                     char_pos += t.length();
@@ -1646,6 +1668,7 @@ impl PrimaryTable {
                 let translation = uppercase_if_needed(translation);
                 translations.push(translation);
                 delayed_translations = self.update_offsets(delayed_translations, t.length());
+                delayed_translations.extend(skipped);
 
                 // update the environment if needed
                 if !t.effects().is_empty() {
-- 
2.43.0


From f5b9ad46e6719f5d395c76f109bc886ffc69bf67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:38 +0000
Subject: [PATCH 12/30] fix: report a malformed metadata query

A query without `=` panicked, and a value containing `=` was cut off.
---
 src/main.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 31c1fff..94b16fe 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -438,14 +438,17 @@ fn main() {
         } => check_yaml(yaml_files, summary),
         Commands::Query { query } => match metadata::index() {
             Ok(index) => {
-                let query = query
+                let query: Option<Vec<_>> = query
                     .split(',')
                     .map(|s| {
-                        let parts: Vec<_> = s.split('=').collect();
-                        (parts[0].to_string(), parts[1].to_string())
+                        s.split_once('=')
+                            .map(|(key, value)| (key.to_string(), value.to_string()))
                     })
                     .collect();
-                println!("{:?}", metadata::find(&index, query));
+                match query {
+                    Some(query) => println!("{:?}", metadata::find(&index, query)),
+                    None => eprintln!("Invalid query, expected <key=value,...>"),
+                }
             }
             Err(e) => {
                 eprint!("Could not index all tables: {:?}", e)
-- 
2.43.0


From c77f6cb1a068ed3b39e679a4d8671a4a9880ee93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:10 +0000
Subject: [PATCH 13/30] fix: show every rule in the listing of louis trace

The rules for capital phrases, emphasis and computer braille as well as
joinword, lowword and syllable hit a todo!() when they were displayed.
---
 src/parser.rs | 32 +++++++++++++++++++++++++++++++-
 1 file changed, 31 insertions(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index 6dc7110..e63bbb2 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -905,7 +905,28 @@ impl std::fmt::Display for Rule {
                 dots,
                 ..
             } => write!(f, "match {} {} {} {}", pre, chars, post, dots),
-            _ => todo!(),
+            Rule::Begcapsphrase { dots } => write!(f, "begcapsphrase {}", dots),
+            Rule::Endcapsphrase { dots, position } => {
+                write!(f, "endcapsphrase {} {}", position, dots)
+            }
+            Rule::Begemph { name, dots, .. } => write!(f, "begemph {} {}", name, dots),
+            Rule::Endemph { name, dots, .. } => write!(f, "endemph {} {}", name, dots),
+            Rule::Emphletter { name, dots } => write!(f, "emphletter {} {}", name, dots),
+            Rule::Begemphword { name, dots } => write!(f, "begemphword {} {}", name, dots),
+            Rule::Endemphword { name, dots } => write!(f, "endemphword {} {}", name, dots),
+            Rule::Begemphphrase { name, dots } => write!(f, "begemphphrase {} {}", name, dots),
+            Rule::Endemphphrase {
+                name,
+                dots,
+                position,
+            } => write!(f, "endemphphrase {} {} {}", name, position, dots),
+            Rule::Begcomp { dots, .. } => write!(f, "begcomp {}", dots),
+            Rule::Endcomp { dots, .. } => write!(f, "endcomp {}", dots),
+            Rule::Syllable { chars, dots } => write!(f, "syllable {} {}", chars, dots),
+            Rule::Joinword { chars, dots } => write!(f, "joinword {} {}", chars, dots),
+            Rule::Lowword { chars, dots, .. } => write!(f, "lowword {} {}", chars, dots),
+            // the other rules are never the origin of a translation
+            _ => write!(f, "{:?}", self),
         }
     }
 }
@@ -1091,6 +1112,15 @@ pub enum Position {
     After,
 }
 
+impl std::fmt::Display for Position {
+    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
+        match self {
+            Position::Before => write!(f, "before"),
+            Position::After => write!(f, "after"),
+        }
+    }
+}
+
 #[derive(PartialEq, Debug)]
 pub enum EscapingContext {
     Default,
-- 
2.43.0


From 1bd9ef3cbddfb16bf4ad8b5c9a3ca991f9531f30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:49 +0000
Subject: [PATCH 14/30] fix: increment and decrement variables in a multipass
 action

`#1+` and `#1-` were rejected because the sign was not consumed, and had no
effect.
---
 src/parser/multipass/action.rs    | 10 ++++++++--
 src/translator/context_pattern.rs |  9 +++++----
 src/translator/effect.rs          | 19 ++++++++++++++++++-
 3 files changed, 31 insertions(+), 7 deletions(-)

diff --git a/src/parser/multipass/action.rs b/src/parser/multipass/action.rs
index 5df2528..8b3d6f5 100644
--- a/src/parser/multipass/action.rs
+++ b/src/parser/multipass/action.rs
@@ -249,8 +249,14 @@ impl<'a> Parser<'a> {
                     value: self.ascii_number()?,
                 })
             }
-            Some('+') => Ok(ActionInstruction::Increment { variable }),
-            Some('-') => Ok(ActionInstruction::Decrement { variable }),
+            Some('+') => {
+                self.consume('+')?;
+                Ok(ActionInstruction::Increment { variable })
+            }
+            Some('-') => {
+                self.consume('-')?;
+                Ok(ActionInstruction::Decrement { variable })
+            }
             c => Err(ParseError::InvalidOperator { found: c.copied() }),
         }
     }
diff --git a/src/translator/context_pattern.rs b/src/translator/context_pattern.rs
index fa694b3..0b72154 100644
--- a/src/translator/context_pattern.rs
+++ b/src/translator/context_pattern.rs
@@ -192,10 +192,11 @@ impl Effects {
     }
 
     fn from_instruction(value: ActionInstruction) -> Option<Effect> {
-        if let ActionInstruction::Assignment { variable, value } = value {
-            Some(Effect::new(variable, value))
-        } else {
-            None
+        match value {
+            ActionInstruction::Assignment { variable, value } => Some(Effect::new(variable, value)),
+            ActionInstruction::Increment { variable } => Some(Effect::increment(variable)),
+            ActionInstruction::Decrement { variable } => Some(Effect::decrement(variable)),
+            _ => None,
         }
     }
 }
diff --git a/src/translator/effect.rs b/src/translator/effect.rs
index 3641d07..b494f28 100644
--- a/src/translator/effect.rs
+++ b/src/translator/effect.rs
@@ -20,6 +20,20 @@ impl Effect {
             kind: EffectKind::Set(value),
         }
     }
+
+    pub fn increment(slot: u8) -> Self {
+        Effect {
+            slot,
+            kind: EffectKind::Increment,
+        }
+    }
+
+    pub fn decrement(slot: u8) -> Self {
+        Effect {
+            slot,
+            kind: EffectKind::Decrement,
+        }
+    }
 }
 
 pub struct Environment(HashMap<u8, u8>);
@@ -37,7 +51,10 @@ impl Environment {
         let slot = effect.slot;
         match effect.kind {
             EffectKind::Increment => {
-                self.0.entry(slot).and_modify(|v| *v += 1).or_insert(1);
+                self.0
+                    .entry(slot)
+                    .and_modify(|v| *v = v.saturating_add(1))
+                    .or_insert(1);
             }
             EffectKind::Decrement => {
                 self.0
-- 
2.43.0


From 150e41c5640fb7e65ab2f3f06955ae9807739088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:19 +0000
Subject: [PATCH 15/30] fix: no endless loop for a compbrl string that starts
 with a blank

---
 src/translator/table/primary.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/translator/table/primary.rs b/src/translator/table/primary.rs
index 51a0ba0..68c0799 100644
--- a/src/translator/table/primary.rs
+++ b/src/translator/table/primary.rs
@@ -52,12 +52,14 @@ impl CompbrlScanner {
 
         let mut pos = 0;
         while pos < n {
-            // Check if any trigger matches at this character position.
+            // Check if any trigger matches at this character position. A blank isn't part of any
+            // word, so a trigger that starts with one doesn't match there.
             let remaining: String = chars[pos..].iter().collect();
-            let matched = self
-                .triggers
-                .iter()
-                .any(|t| remaining.starts_with(t.as_str()));
+            let matched = !self.character_classes.is_whitespace(chars[pos])
+                && self
+                    .triggers
+                    .iter()
+                    .any(|t| remaining.starts_with(t.as_str()));
             if matched {
                 // Expand to surrounding word: scan backward for whitespace.
                 let mut word_start = pos;
-- 
2.43.0


From d53c8a9896620445dd4f747c1c4b712a669b7bd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:01 +0000
Subject: [PATCH 16/30] fix: end emphasis before beginning another one at the
 same position

---
 src/translator/indication/emphasis.rs | 47 ++++++++++++++++++++++-----
 1 file changed, 39 insertions(+), 8 deletions(-)

diff --git a/src/translator/indication/emphasis.rs b/src/translator/indication/emphasis.rs
index 8d853d9..67dc7b3 100644
--- a/src/translator/indication/emphasis.rs
+++ b/src/translator/indication/emphasis.rs
@@ -31,14 +31,25 @@ enum EmitKind {
     /// `begemph` event; `run_end` is the position where the corresponding
     /// `endemph` will be emitted.
     Open { run_end: usize },
-    /// `endemph` event; `emit_start` is the position where the matching `Open`
-    /// (begemph) was emitted.  Used to sort same-position closes in inverse
-    /// open order (later open = closes first).
+    /// An event that ends a run (`endemph`, `endemphword` or `endemphphrase`);
+    /// `emit_start` is the position where the matching begin was emitted.  Used to
+    /// sort same-position closes in inverse open order (later open = closes first).
     Close { emit_start: usize },
     /// All other indicators — ordering within a position is preserved as-is.
     Unordered,
 }
 
+impl EmitKind {
+    /// The order of the different kinds of events at the same position.
+    fn rank(&self) -> u8 {
+        match self {
+            EmitKind::Close { .. } => 0,
+            EmitKind::Open { .. } => 1,
+            EmitKind::Unordered => 2,
+        }
+    }
+}
+
 /// Compiled indicator data for one emphasis class (e.g. "italic").
 #[derive(Debug, Clone)]
 struct ClassIndicator {
@@ -249,7 +260,13 @@ impl ClassIndicator {
             } else {
                 // Phrase brackets all words; explicit endemph after the last.
                 if let Some(end_t) = &self.endemphphrase {
-                    result.push((words.last().unwrap().1, end_t.clone(), EmitKind::Unordered));
+                    result.push((
+                        words.last().unwrap().1,
+                        end_t.clone(),
+                        EmitKind::Close {
+                            emit_start: words[0].0,
+                        },
+                    ));
                 }
             }
             return;
@@ -305,7 +322,13 @@ impl ClassIndicator {
                 && run_end < chars.len()
                 && !self.is_emphasis_word_separator(chars[run_end])
             {
-                result.push((run_end, end_t.clone(), EmitKind::Unordered));
+                result.push((
+                    run_end,
+                    end_t.clone(),
+                    EmitKind::Close {
+                        emit_start: run_start,
+                    },
+                ));
             }
             return;
         }
@@ -318,7 +341,13 @@ impl ClassIndicator {
             if let Some(end_t) = &self.endemphphrase
                 && run_end < chars.len()
             {
-                result.push((run_end, end_t.clone(), EmitKind::Unordered));
+                result.push((
+                    run_end,
+                    end_t.clone(),
+                    EmitKind::Close {
+                        emit_start: run_start,
+                    },
+                ));
             }
         }
     }
@@ -442,6 +471,7 @@ impl Indicator {
     /// * Opens at the same position: the class whose run ends **latest** opens
     ///   first (it is the "outermost" bracket).  Tiebreaker: last-defined class
     ///   opens first.
+    /// * Closes come before anything that is opened at the same position.
     /// * Closes at the same position: sorted in the inverse of the open order,
     ///   i.e. the class whose run ends **earliest** closes first.  Tiebreaker:
     ///   first-defined class closes first.
@@ -483,8 +513,9 @@ impl Indicator {
                 (EmitKind::Close { emit_start: es_a }, EmitKind::Close { emit_start: es_b }) => {
                     es_b.cmp(es_a).then(a.3.cmp(&b.3))
                 }
-                // All other combinations: preserve original order.
-                _ => Ordering::Equal,
+                // All other combinations: what ends here is closed before anything is
+                // opened, indicators of the same kind preserve their original order.
+                (a, b) => a.rank().cmp(&b.rank()),
             }
         });
 
-- 
2.43.0


From 43867ecee9faa1d0c080869692f14096b1dfbce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:19 +0000
Subject: [PATCH 17/30] fix: nest emphasis by the end of the emphasised text

---
 src/translator/indication/emphasis.rs | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/translator/indication/emphasis.rs b/src/translator/indication/emphasis.rs
index 67dc7b3..3fa1890 100644
--- a/src/translator/indication/emphasis.rs
+++ b/src/translator/indication/emphasis.rs
@@ -188,16 +188,22 @@ impl ClassIndicator {
             let effective_start = (run_start..run_end)
                 .find(|&i| !self.is_emphasis_word_separator(chars[i]))
                 .unwrap_or(run_start);
-            result.push((effective_start, begemph.clone(), EmitKind::Open { run_end }));
+            // Find the last non-mode-char position in the run. endemph goes
+            // at the next slot (= first trailing mode char, or n if none).
+            let effective_end = (run_start..run_end)
+                .rev()
+                .find(|&i| !self.is_emphasis_word_separator(chars[i]))
+                .map(|i| i + 1)
+                .unwrap_or(run_end);
+            result.push((
+                effective_start,
+                begemph.clone(),
+                EmitKind::Open {
+                    run_end: effective_end,
+                },
+            ));
 
             if let Some(endemph) = &self.endemph {
-                // Find the last non-mode-char position in the run. endemph goes
-                // at the next slot (= first trailing mode char, or n if none).
-                let effective_end = (run_start..run_end)
-                    .rev()
-                    .find(|&i| !self.is_emphasis_word_separator(chars[i]))
-                    .map(|i| i + 1)
-                    .unwrap_or(run_end);
                 result.push((
                     effective_end,
                     endemph.clone(),
-- 
2.43.0


From cd91fbab2044dc885ebeb429378cae54a496d8a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:15 +0000
Subject: [PATCH 18/30] fix: nocross prepunc and postpunc rules only at the
 edges of words

---
 src/translator/table/primary.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/translator/table/primary.rs b/src/translator/table/primary.rs
index 68c0799..d212c09 100644
--- a/src/translator/table/primary.rs
+++ b/src/translator/table/primary.rs
@@ -1531,6 +1531,12 @@ impl PrimaryTable {
             // needed by match/context rules anchored with liblouis' `^`/`` ` `` boundary markers
             let at_start = chars.as_str().len() == input.len();
 
+            let punctuation_ok = |t: &ResolvedTranslation| match t.origin().map(|a| a.rule) {
+                Some(Rule::Prepunc { .. }) => constraints.prepunc_ok_at(char_pos),
+                Some(Rule::Postpunc { .. }) => constraints.postpunc_ok_at(char_pos),
+                _ => true,
+            };
+
             // First check for nocross candidates. As any other candidates they do not apply in
             // computer braille and must not contract inside a numeric run.
             let nocross_candidate = self
@@ -1538,6 +1544,7 @@ impl PrimaryTable {
                 .into_iter()
                 .filter(|t| t.length() <= 1 || !constraints.dont_contract_at(char_pos))
                 .filter(|_| !constraints.use_comp6_at(char_pos))
+                .filter(punctuation_ok)
                 .max_by_key(|t| t.weight());
 
             // given an input query the trie for matching translations. Then split off the
@@ -1570,11 +1577,7 @@ impl PrimaryTable {
             // boundary and gated here instead. Rejected candidates are simply dropped,
             // leaving the position to fall through to the plain punctuation character
             // definition (`character_translations`), matching liblouis.
-            candidates.retain(|t| match t.origin().map(|a| a.rule) {
-                Some(Rule::Prepunc { .. }) => constraints.prepunc_ok_at(char_pos),
-                Some(Rule::Postpunc { .. }) => constraints.postpunc_ok_at(char_pos),
-                _ => true,
-            });
+            candidates.retain(punctuation_ok);
 
             // Backward numeric mode: prefer the digit reading of a cell shared with a
             // letter (common in six-dot literary codes). Rather than out-weighing the
-- 
2.43.0


From 4e4b25e0b0b55cd3a547040dab7dfef167023d24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:27 +0000
Subject: [PATCH 19/30] fix: negate a string of several characters as a whole

---
 src/translator/regexp.rs | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/translator/regexp.rs b/src/translator/regexp.rs
index da6bb92..8c67010 100644
--- a/src/translator/regexp.rs
+++ b/src/translator/regexp.rs
@@ -46,7 +46,7 @@ pub enum Regexp {
     Capture(Box<Regexp>),
     /// Convenience that is unrolled into a sequence of [`Char`](Instruction#variant.Char)
     String(String),
-    /// Convenience that is unrolled into a sequence of [`NotChar`](Instruction#variant.NotChar)
+    /// As many characters as in the string, but not the string itself
     NotString(String),
     /// Like [`String`](Regexp::String), but each character is compared case-insensitively —
     /// mirroring [`trie::TrieNode::char_transition`](crate::translator::trie::TrieNode), which
@@ -249,8 +249,21 @@ impl Regexp {
                 }
             }
             Regexp::NotString(s) => {
-                for c in s.chars() {
-                    instructions.push(Instruction::NotChar(c))
+                // As many characters as in `s` that differ in at least one place: after each
+                // character that is the same try the next one, after the first that differs
+                // any characters will do
+                let length = s.chars().count();
+                let any = instructions.len() + 4 * length + 1;
+                for (i, c) in s.chars().enumerate() {
+                    let pos = instructions.len();
+                    instructions.push(Instruction::Split(pos + 1, pos + 3));
+                    instructions.push(Instruction::NotChar(c));
+                    instructions.push(Instruction::Jump(any + i));
+                    instructions.push(Instruction::Char(c));
+                }
+                instructions.push(Instruction::Fail);
+                for _ in 1..length {
+                    instructions.push(Instruction::Any);
                 }
             }
             Regexp::CaseInsensitiveString(s) => {
-- 
2.43.0


From db32e13cd9cae793feddd5f6a423f57817243b70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:03 +0000
Subject: [PATCH 20/30] fix: tell 9 from 3 in the spelling of an undefined
 character

---
 src/parser/braille.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/braille.rs b/src/parser/braille.rs
index 544b971..6c803df 100644
--- a/src/parser/braille.rs
+++ b/src/parser/braille.rs
@@ -220,7 +220,7 @@ pub fn fallback(ch: char) -> char {
             '8',
             BrailleChar(BrailleDot::Dot2 | BrailleDot::Dot3 | BrailleDot::Dot6),
         ),
-        ('9', BrailleChar(BrailleDot::Dot2 | BrailleDot::Dot5)),
+        ('9', BrailleChar(BrailleDot::Dot3 | BrailleDot::Dot5)),
         ('a', BrailleChar(enum_set!(BrailleDot::Dot1))),
         ('b', BrailleChar(BrailleDot::Dot1 | BrailleDot::Dot2)),
         ('c', BrailleChar(BrailleDot::Dot1 | BrailleDot::Dot4)),
-- 
2.43.0


From 074582632c386ea498c44d187e77ee4601b41c56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:06 +0000
Subject: [PATCH 21/30] fix: read the cell of a letter as the letter outside of
 numbers

In back-translation a digit that shares its cell with a letter was read
instead of the letter wherever its definition came first.
---
 src/translator/table/primary.rs | 29 +++++++++++++++++------------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/src/translator/table/primary.rs b/src/translator/table/primary.rs
index d212c09..4b1afe4 100644
--- a/src/translator/table/primary.rs
+++ b/src/translator/table/primary.rs
@@ -289,15 +289,19 @@ impl PrimaryTableBuilder {
     /// A digit is always a single braille cell, so `dots` normally has length 1; this
     /// is skipped (rather than assumed) for any rule where that doesn't hold, mirroring
     /// `CharacterClasses::insert_dots`.
+    ///
+    /// Returns whether the cell is shared. Outside of a number it is then to be read as the
+    /// letter, no matter which of the two is defined first.
     fn register_backward_digit_override(
         &mut self,
         character: char,
         dots: &BrailleChars,
         letter_dots: &HashSet<String>,
         rule: &AnchoredRule,
-    ) {
+    ) -> bool {
         let dots_str = dots.to_string();
-        if dots.len() == 1 && letter_dots.contains(&dots_str) {
+        let shared = dots.len() == 1 && letter_dots.contains(&dots_str);
+        if shared {
             let cell = dots.iter().next().unwrap().to_unicode();
             self.backward_digit_overrides.insert(
                 cell,
@@ -310,6 +314,7 @@ impl PrimaryTableBuilder {
                 ),
             );
         }
+        shared
     }
 
     fn build(self, direction: Direction, ctx: &TableContext) -> PrimaryTable {
@@ -517,31 +522,31 @@ impl PrimaryTable {
                 Rule::Digit {
                     character, dots, ..
                 } => {
-                    // Skip forward translation when a litdigit rule exists for this character;
-                    // the litdigit rule is handled below and takes precedence.
-                    if !litdigit_chars.contains(character) {
-                        builder.insert_character(*character, &dots.to_string(), direction, rule);
-                    }
-                    if direction == Direction::Backward {
-                        builder.register_backward_digit_override(
+                    let shared = direction == Direction::Backward
+                        && builder.register_backward_digit_override(
                             *character,
                             dots,
                             &letter_dots,
                             rule,
                         );
+                    // Skip forward translation when a litdigit rule exists for this character;
+                    // the litdigit rule is handled below and takes precedence.
+                    if !shared && !litdigit_chars.contains(character) {
+                        builder.insert_character(*character, &dots.to_string(), direction, rule);
                     }
                 }
                 Rule::Litdigit {
                     character, dots, ..
                 } => {
-                    builder.insert_character(*character, &dots.to_string(), direction, rule);
-                    if direction == Direction::Backward {
-                        builder.register_backward_digit_override(
+                    let shared = direction == Direction::Backward
+                        && builder.register_backward_digit_override(
                             *character,
                             dots,
                             &letter_dots,
                             rule,
                         );
+                    if !shared {
+                        builder.insert_character(*character, &dots.to_string(), direction, rule);
                     }
                 }
                 Rule::Letter {
-- 
2.43.0


From b6a0e47edab710b02b24e8af8702aee2a1c31c08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:08 +0000
Subject: [PATCH 22/30] fix: a capital sign does not separate a word from what
 stands before it

In back-translation a contraction for a whole word or for the beginning of
a word was not recognized when a capital sign preceded it.
---
 src/translator/table/primary.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/translator/table/primary.rs b/src/translator/table/primary.rs
index 4b1afe4..30723cf 100644
--- a/src/translator/table/primary.rs
+++ b/src/translator/table/primary.rs
@@ -1670,7 +1670,21 @@ impl PrimaryTable {
                     seen.clear();
                     skipped = self.skipped_match_candidates(chars.as_str(), t.length());
                     // move the iterator forward by the number of characters in the translation
-                    prev = chars.nth(t.length() - 1);
+                    let last = chars.nth(t.length() - 1);
+                    // A capital sign is no part of the text: what a word follows is the character
+                    // before the sign.
+                    let is_caps_sign = is_backward
+                        && matches!(
+                            t.origin().map(|a| a.rule),
+                            Some(
+                                Rule::Capsletter { .. }
+                                    | Rule::Begcapsword { .. }
+                                    | Rule::Endcapsword { .. }
+                            )
+                        );
+                    if !is_caps_sign {
+                        prev = last;
+                    }
                     char_pos += t.length();
                 }
                 // there is a matching translation rule
-- 
2.43.0


From 6533988c8e832dac5d9283af22525bf8d62bf583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:51 +0000
Subject: [PATCH 23/30] fix: a decimal point or other midnum does not end a
 number in back-translation

---
 src/translator/position_constraints.rs | 17 +++++++++++++++++
 src/translator/table/primary.rs        | 11 +++++++++++
 2 files changed, 28 insertions(+)

diff --git a/src/translator/position_constraints.rs b/src/translator/position_constraints.rs
index 5ffbad8..d77d28e 100644
--- a/src/translator/position_constraints.rs
+++ b/src/translator/position_constraints.rs
@@ -374,6 +374,9 @@ pub struct BackwardNumericConstrainer {
     nonumsign_dots: Option<String>,
     digit_cells: HashSet<char>,
     letter_cells: HashSet<char>,
+    /// Dots that don't end a number when another digit follows them (`midnum`, `decpoint`,
+    /// `numericmodechars`): the forward direction writes no second numsign after them.
+    mid_dots: Vec<String>,
 }
 
 impl BackwardNumericConstrainer {
@@ -405,6 +408,14 @@ impl BackwardNumericConstrainer {
                     pos += 1;
                     continue;
                 }
+                let mut end = pos;
+                while let Some(dots) = self.mid_dots.iter().find(|d| matches_at(&chars, end, d)) {
+                    end += dots.chars().count();
+                }
+                if end > pos && chars.get(end).is_some_and(|c| self.digit_cells.contains(c)) {
+                    pos = end;
+                    continue;
+                }
                 in_number = false;
             }
             pos += 1;
@@ -558,6 +569,7 @@ pub struct BackwardNumericConstrainerBuilder {
     nonumsign_dots: Option<String>,
     digit_cells: HashSet<char>,
     letter_cells: HashSet<char>,
+    mid_dots: Vec<String>,
 }
 
 impl BackwardNumericConstrainerBuilder {
@@ -581,6 +593,10 @@ impl BackwardNumericConstrainerBuilder {
         self.letter_cells = cells;
     }
 
+    pub fn mid_dots(&mut self, dots: &str) {
+        self.mid_dots.push(dots.to_string());
+    }
+
     pub fn build(self) -> Option<BackwardNumericConstrainer> {
         if self.numsign_dots.is_none() {
             None
@@ -590,6 +606,7 @@ impl BackwardNumericConstrainerBuilder {
                 nonumsign_dots: self.nonumsign_dots,
                 digit_cells: self.digit_cells,
                 letter_cells: self.letter_cells,
+                mid_dots: self.mid_dots,
             })
         }
     }
diff --git a/src/translator/table/primary.rs b/src/translator/table/primary.rs
index 30723cf..6207106 100644
--- a/src/translator/table/primary.rs
+++ b/src/translator/table/primary.rs
@@ -495,6 +495,9 @@ impl PrimaryTable {
                     let s = character.to_string();
                     builder.numeric_indicator.midnum(&s);
                     builder.numeric_constrainer.midnum(&s);
+                    builder
+                        .backward_numeric_constrainer
+                        .mid_dots(&dots.to_string());
                 }
                 Rule::Hyphen {
                     character, dots, ..
@@ -611,6 +614,11 @@ impl PrimaryTable {
                 Rule::Numericmodechars { chars } => {
                     builder.numeric_indicator.numericmodechars(chars);
                     builder.numeric_constrainer.numericmodechars(chars);
+                    for c in chars.chars() {
+                        if let Some(dots) = ctx.character_definitions().get(&c) {
+                            builder.backward_numeric_constrainer.mid_dots(dots);
+                        }
+                    }
                 }
                 Rule::Capsletter { dots, .. } => {
                     builder
@@ -1203,6 +1211,9 @@ impl PrimaryTable {
                 Rule::Midnum { chars, dots, .. } => {
                     builder.numeric_indicator.midnum(chars);
                     builder.numeric_constrainer.midnum(chars);
+                    builder
+                        .backward_numeric_constrainer
+                        .mid_dots(&dots.to_string());
                     builder.get_trie_mut(rule).insert(
                         chars,
                         &dots.to_string(),
-- 
2.43.0


From af7629411fa47d7aa233364fabb67265483c6de6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:44 +0000
Subject: [PATCH 24/30] fix: a prepunc or postpunc does not hide other rules
 for the same characters

Such a rule is dropped where the punctuation does not permit it, so another
rule for the same characters (a postpunc, a largesign, or in back-translation
the definition of a character) has to remain available there.
---
 src/translator/trie.rs | 50 ++++++++++++++++++++++++++----------------
 1 file changed, 31 insertions(+), 19 deletions(-)

diff --git a/src/translator/trie.rs b/src/translator/trie.rs
index 6c582a0..1884e7c 100644
--- a/src/translator/trie.rs
+++ b/src/translator/trie.rs
@@ -3,7 +3,7 @@
 use std::collections::HashMap;
 
 use crate::{
-    parser::{AnchoredRule, CharacterClass, CharacterClasses, Direction, Precedence},
+    parser::{AnchoredRule, CharacterClass, CharacterClasses, Direction, Precedence, Rule},
     translator::TranslationStage,
 };
 
@@ -75,11 +75,20 @@ pub enum ClassConstraint {
     End(CharacterClass),
 }
 
+/// Whether two rules are subject to the same condition outside of the trie: a `prepunc` or a
+/// `postpunc` only applies where the punctuation permits, so it must not hide other rules for the
+/// same characters.
+fn same_condition(a: &AnchoredRule, b: &AnchoredRule) -> bool {
+    let prepunc = |r: &AnchoredRule| matches!(r.rule, Rule::Prepunc { .. });
+    let postpunc = |r: &AnchoredRule| matches!(r.rule, Rule::Postpunc { .. });
+    prepunc(a) == prepunc(b) && postpunc(a) == postpunc(b)
+}
+
 #[derive(Default, Debug, Clone)]
 struct TrieNode {
-    translation: Option<ResolvedTranslation>,
-    /// Position of the translation in the order of insertions
-    order: usize,
+    /// The translations and their positions in the order of insertions. There is more than one only
+    /// if they are subject to different conditions outside of the trie (see [`same_condition`])
+    translations: Vec<(usize, ResolvedTranslation)>,
     transitions: HashMap<ResolvedTransition, TrieNode>,
 }
 
@@ -238,17 +247,23 @@ impl Trie {
         let new_translation =
             ResolvedTranslation::new(from, to, length, stage, origin.clone())
                 .with_precedence(precedence.clone());
-        let replace = match &current_node.translation {
-            None => true,
-            // this node already contains a translation
-            Some(translation) if precedence > translation.precedence() => true,
-            Some(translation) if precedence < translation.precedence() => false,
+        let translations = &mut current_node.translations;
+        // the more specific rule wins
+        if translations
+            .iter()
+            .any(|(_, t)| t.precedence() > new_translation.precedence())
+        {
+            return;
+        }
+        translations.retain(|(_, t)| t.precedence() == new_translation.precedence());
+        let existing = translations
+            .iter()
+            .position(|(_, t)| t.origin().is_some_and(|o| same_condition(&o, origin)));
+        match existing {
             // first rule wins with backwards compatibility, otherwise last rule wins
-            Some(_) => !cfg!(feature = "backwards_compatibility"),
-        };
-        if replace {
-            current_node.translation = Some(new_translation);
-            current_node.order = order;
+            Some(_) if cfg!(feature = "backwards_compatibility") => (),
+            Some(i) => translations[i] = (order, new_translation),
+            None => translations.push((order, new_translation)),
         }
     }
 
@@ -262,11 +277,8 @@ impl Trie {
         let mut matching_rules = Vec::new();
         let mut chars = input.chars();
 
-        // if this node has a translation add it to the list of matching rules
-        if let Some(ref translation) = node.translation {
-            let translation = translation.clone();
-            matching_rules.push((node.order, translation))
-        }
+        // if this node has translations add them to the list of matching rules
+        matching_rules.extend(node.translations.iter().cloned());
         let c = chars.next();
         if let Some(c) = c {
             let bytes = c.len_utf8();
-- 
2.43.0


From 9e9cdf63f630d97bb1dba8e5df58b849d980a965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:00 +0000
Subject: [PATCH 25/30] fix: conditions and tests for the classes litdigit and
 math were for user-defined classes of that name

"before litdigit" or "after math" had no effect and "%math" matched nothing.
---
 src/parser/character_class.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/parser/character_class.rs b/src/parser/character_class.rs
index a72da42..4623ff7 100644
--- a/src/parser/character_class.rs
+++ b/src/parser/character_class.rs
@@ -39,11 +39,13 @@ impl From<&str> for CharacterClass {
         match value {
             "space" => CharacterClass::Space,
             "digit" => CharacterClass::Digit,
+            "litdigit" => CharacterClass::Litdigit,
             "letter" => CharacterClass::Letter,
             "uppercase" => CharacterClass::Uppercase,
             "lowercase" => CharacterClass::Lowercase,
             "punctuation" => CharacterClass::Punctuation,
             "sign" => CharacterClass::Sign,
+            "math" => CharacterClass::Math,
             "seqdelimiter" => CharacterClass::Seqdelimiter,
             "seqbeforechars" => CharacterClass::Seqbeforechars,
             "seqafterchars" => CharacterClass::Seqafterchars,
-- 
2.43.0


From 6dd841bb1e8a3eaa10c83cca43b5c7d48cf6d5a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:00 +0000
Subject: [PATCH 26/30] fix: the cells of swap classes were added to the class
 seqafterchars

A test for the cells of a swap class in a pass2, pass3 or pass4 rule matched
nothing.
---
 src/translator/table.rs | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/translator/table.rs b/src/translator/table.rs
index 34b7580..978eb1a 100644
--- a/src/translator/table.rs
+++ b/src/translator/table.rs
@@ -225,7 +225,7 @@ impl TableContext {
                     for c in chars.chars() {
                         character_classes.insert(class.clone(), c);
                         dots_classes.insert_associated_dot(
-                            CharacterClass::Seqafterchars,
+                            class.clone(),
                             c,
                             &character_definitions,
                         );
@@ -243,7 +243,7 @@ impl TableContext {
                     for c in chars.chars() {
                         character_classes.insert(class.clone(), c);
                         dots_classes.insert_associated_dot(
-                            CharacterClass::Seqafterchars,
+                            class.clone(),
                             c,
                             &character_definitions,
                         );
@@ -263,11 +263,7 @@ impl TableContext {
                     let class = CharacterClass::from(name.as_str());
                     for c in dots.to_string().chars() {
                         character_classes.insert(class.clone(), c);
-                        dots_classes.insert_associated_dot(
-                            CharacterClass::Seqafterchars,
-                            c,
-                            &character_definitions,
-                        );
+                        dots_classes.insert(class.clone(), c);
                     }
                     let replacements: Vec<String> =
                         replacement.iter().map(|b| b.to_string()).collect();
-- 
2.43.0


From 579ac573218feaf36643f0eec71cdd0bc4f84b92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:07:32 +0000
Subject: [PATCH 27/30] fix: a hexadecimal escape sequence whose first digit is
 a plus sign was accepted

---
 src/parser.rs                  | 4 ++++
 src/parser/multipass/action.rs | 6 ++++--
 src/parser/multipass/test.rs   | 6 ++++--
 3 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index e63bbb2..d918f91 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -1137,6 +1137,10 @@ fn unescape_unicode(chars: &mut Chars, len: u8) -> Result<char, ParseError> {
         }
     }
 
+    // `from_str_radix` would also accept a sign
+    if s.starts_with('+') {
+        return Err(ParseError::InvalidUnicodeLiteral { found: Some(s) });
+    }
     let Ok(value) = u32::from_str_radix(&s, 16) else {
         return Err(ParseError::InvalidUnicodeLiteral { found: Some(s) });
     };
diff --git a/src/parser/multipass/action.rs b/src/parser/multipass/action.rs
index 8b3d6f5..d87d96c 100644
--- a/src/parser/multipass/action.rs
+++ b/src/parser/multipass/action.rs
@@ -199,8 +199,10 @@ impl<'a> Parser<'a> {
                 None => return Err(ParseError::InvalidEscapeSequence { found: None }),
             }
         }
-        u32::from_str_radix(&s, 16)
-            .ok()
+        // `from_str_radix` would also accept a sign
+        Some(&s)
+            .filter(|s| !s.starts_with('+'))
+            .and_then(|s| u32::from_str_radix(s, 16).ok())
             .and_then(char::from_u32)
             .ok_or(ParseError::InvalidEscapeSequence { found: None })
     }
diff --git a/src/parser/multipass/test.rs b/src/parser/multipass/test.rs
index 0d05eee..40d1781 100644
--- a/src/parser/multipass/test.rs
+++ b/src/parser/multipass/test.rs
@@ -302,8 +302,10 @@ impl<'a> Parser<'a> {
                 None => return Err(ParseError::InvalidEscapeSequence { found: None }),
             }
         }
-        u32::from_str_radix(&s, 16)
-            .ok()
+        // `from_str_radix` would also accept a sign
+        Some(&s)
+            .filter(|s| !s.starts_with('+'))
+            .and_then(|s| u32::from_str_radix(s, 16).ok())
             .and_then(char::from_u32)
             .ok_or(ParseError::InvalidEscapeSequence { found: None })
     }
-- 
2.43.0


From ab9b4e41c766f97071d10ea9bd1e90b13ccc8658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:07:32 +0000
Subject: [PATCH 28/30] fix: hyphenating a word took time cubic in its length

---
 src/hyphenation.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/hyphenation.rs b/src/hyphenation.rs
index aa348be..34b3628 100644
--- a/src/hyphenation.rs
+++ b/src/hyphenation.rs
@@ -20,6 +20,8 @@ pub struct HyphenationTable {
     // Value: the score at each gap around those letters -- one more
     // entry than there are characters in the key.
     patterns: HashMap<String, Vec<u8>>,
+    // The number of characters of the longest pattern
+    longest_pattern: usize,
     left_min: usize,
     right_min: usize,
 }
@@ -83,6 +85,7 @@ impl HyphenationTable {
                 continue;
             }
             let (letters, tally) = parse_pattern(line, lineno)?;
+            table.longest_pattern = table.longest_pattern.max(tally.len() - 1);
             table.patterns.insert(letters, tally);
         }
 
@@ -121,7 +124,9 @@ impl HyphenationTable {
         // yes/no answer in the end.
         let mut scores = vec![0u8; wrapped_chars + 1];
         for start in 0..wrapped_chars {
-            for end in (start + 1)..=wrapped_chars {
+            // no pattern is longer than that
+            let last = wrapped_chars.min(start + self.longest_pattern);
+            for end in (start + 1)..=last {
                 if let Some(tally) = self.patterns.get(&wrapped[bounds[start]..bounds[end]]) {
                     for (k, &v) in tally.iter().enumerate() {
                         let gap = start + k;
-- 
2.43.0


From 284dacbbd57619e85e10f7719c67bd7dceeb1ee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:11:14 +0000
Subject: [PATCH 29/30] fix: a match pattern that begins with a hyphen was
 taken for no pattern at all

---
 src/parser/match_rule.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/parser/match_rule.rs b/src/parser/match_rule.rs
index 8e48c46..e8a2dd2 100644
--- a/src/parser/match_rule.rs
+++ b/src/parser/match_rule.rs
@@ -339,7 +339,9 @@ impl<'a> PatternParser<'a> {
     }
 
     pub fn pattern(&mut self) -> Result<Patterns, ParseError> {
-        if self.chars.next_if(|&c| c == '-').is_some() {
+        // only a hyphen on its own stands for no pattern
+        let mut chars = self.chars.clone();
+        if chars.next() == Some('-') && chars.next().is_none() {
             return Ok(Patterns(vec![Pattern::Empty]));
         }
         if self.chars.peek().is_none() {
-- 
2.43.0


From cb8ac67753d19b19e76a919da48b3abdd6251cc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:42:45 +0000
Subject: [PATCH 30/30] fix: parts in computer braille that overlap or touch
 were enclosed in signs of their own

A range that the caller marks as computer braille and a word with a compbrl
string in it, or two ranges, can overlap: the region got several opening signs,
and a closing sign although it went on after that.
---
 src/translator/indication/computer_braille.rs | 31 ++++++++++++-------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/src/translator/indication/computer_braille.rs b/src/translator/indication/computer_braille.rs
index d25dee8..e85d537 100644
--- a/src/translator/indication/computer_braille.rs
+++ b/src/translator/indication/computer_braille.rs
@@ -64,6 +64,7 @@ impl Indicator {
     ///
     /// Emits `begcomp` at `span.range.start` and `endcomp` at `span.range.end`
     /// (clamped to `n`) for each span with `class == "computer_braille"`.
+    /// Spans that overlap or touch are enclosed in one pair of signs.
     /// Only emits for spans where `start < end`. Result is sorted by position.
     pub fn precompute(
         &self,
@@ -71,24 +72,30 @@ impl Indicator {
         spans: &[EmphasisSpan],
     ) -> Vec<(usize, ResolvedTranslation)> {
         let n = input.chars().count();
-        let mut result: Vec<(usize, ResolvedTranslation)> = Vec::new();
-
-        for span in spans {
-            if span.class != "computer_braille" {
-                continue;
-            }
-            let start = span.range.start;
-            let end = span.range.end.min(n);
-            if start >= end {
-                continue;
+        let mut ranges: Vec<(usize, usize)> = spans
+            .iter()
+            .filter(|span| span.class == "computer_braille")
+            .map(|span| (span.range.start, span.range.end.min(n)))
+            .filter(|(start, end)| start < end)
+            .collect();
+        ranges.sort_unstable();
+
+        // spans that overlap or touch are one region
+        let mut regions: Vec<(usize, usize)> = Vec::new();
+        for (start, end) in ranges {
+            match regions.last_mut() {
+                Some((_, last)) if start <= *last => *last = end.max(*last),
+                _ => regions.push((start, end)),
             }
+        }
+
+        let mut result: Vec<(usize, ResolvedTranslation)> = Vec::new();
+        for (start, end) in regions {
             result.push((start, self.begcomp.clone()));
             if let Some(ref endcomp) = self.endcomp {
                 result.push((end, endcomp.clone()));
             }
         }
-
-        result.sort_by_key(|(pos, _)| *pos);
         result
     }
 }
-- 
2.43.0

