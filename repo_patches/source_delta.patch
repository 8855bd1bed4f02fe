From 00434c32003140f3ca876597914ae565f0b34182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:29 +0000
Subject: [PATCH 01/35] fix: answer empty and incomplete sentences instead of
 raising

The output buffer lacked the relations output_no_sentence and
output_not_understood that System.enter stores on these failures.
---
 richard/module/BasicOutputBuffer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/richard/module/BasicOutputBuffer.py b/richard/module/BasicOutputBuffer.py
index 75eea77..5c37b13 100644
--- a/richard/module/BasicOutputBuffer.py
+++ b/richard/module/BasicOutputBuffer.py
@@ -15,6 +15,8 @@ class BasicOutputBuffer(SimpleMemoryModule):
         self.add_relation(Relation("output_list", arguments=["elements"]))
         self.add_relation(Relation("output_name_not_found", arguments=["name"]))
         self.add_relation(Relation("output_unknown_word", arguments=["word"]))
+        self.add_relation(Relation("output_no_sentence", arguments=[]))
+        self.add_relation(Relation("output_not_understood", arguments=[]))
 
 
     def clear(self):
-- 
2.43.0


From 8d1baaecff689646333b9342cdf3f87f7766a705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:48 +0000
Subject: [PATCH 02/35] fix: make learn_grammar_rule work

It called the grammar rule parser without its second argument and so
always raised a TypeError.
---
 richard/module/GrammarModule.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/richard/module/GrammarModule.py b/richard/module/GrammarModule.py
index 3a917c2..6b5aeec 100644
--- a/richard/module/GrammarModule.py
+++ b/richard/module/GrammarModule.py
@@ -28,7 +28,7 @@ class GrammarModule(SomeModule):
     def learn_grammar_rule(self, values: list, context: ExecutionContext) -> list[list]:
         simple_rule = values[0]
 
-        rule = SimpleGrammarRulesParser().parse_simple_rule(simple_rule)
+        rule = SimpleGrammarRulesParser().parse_simple_rule(simple_rule, False)
         self.grammar.add_rule(rule)
 
         return [
-- 
2.43.0


From c35957b65c8ad28250fdec0e338e8da2eabf71ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:52 +0000
Subject: [PATCH 03/35] fix: generator uses the binding of the rule it selected

When the matching rule had been used before, find_rule went on to later
rules that do not match, and returned the earlier rule with the binding
of a later one, so that its values were lost.
---
 richard/core/BasicGenerator.py | 30 ++++++++++++++----------------
 1 file changed, 14 insertions(+), 16 deletions(-)

diff --git a/richard/core/BasicGenerator.py b/richard/core/BasicGenerator.py
index 7444237..3552707 100644
--- a/richard/core/BasicGenerator.py
+++ b/richard/core/BasicGenerator.py
@@ -91,7 +91,7 @@ class BasicGenerator(SomeGenerator):
 
         found = False
         result_rule = None
-        binding = {}
+        result_binding = {}
 
         rules = self.grammar.find_rules(antecedent_cat, len(antecedent_values))
 
@@ -110,29 +110,27 @@ class BasicGenerator(SomeGenerator):
             # if antecedent_values is not None:
             #     binding[rule_antecedent_variable] = antecedent_values
 
-            if not rule.sem:
-                # no condition
-                result_rule = rule
-                found = True
-
-            else:
+            if rule.sem:
 
                 # match the condition
                 # will bind the E2 in the example ([('output_type', 'declarative'), ('output_subject', E1, E2)])
                 match_bindings = self.solver.solve(rule.sem, binding)
 
-                if len(match_bindings) > 0:
-                    binding = match_bindings[0]
-                    result_rule = rule
-                    found = True
+                if len(match_bindings) == 0:
+                    continue
+
+                binding = match_bindings[0]
 
+            # the rule has no condition, or its condition holds
+            result_rule = rule
+            result_binding = binding
+            found = True
 
-            if found:
-                # make sure the same rule is not executed again and again
-                if rule.hash not in used_rules:
-                    break
+            # make sure the same rule is not executed again and again
+            if rule.hash not in used_rules:
+                break
 
-        return result_rule, binding, found
+        return result_rule, result_binding, found
 
 
     def generate_single_consequent(self, rule: GrammarRule, used_rules: list[str], category: str, values: list[any], position_type: str, optional: bool) -> list[str]:
-- 
2.43.0


From eedb4e140a719cc5674c3822b0c08240706cf78c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:15 +0000
Subject: [PATCH 04/35] fix: accept 0 and 0.0 as constants in inference rules

The term 0 was taken for the absence of a term, which made the rule
unparsable.
---
 richard/module/helper/SimpleInferenceRuleParser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/richard/module/helper/SimpleInferenceRuleParser.py b/richard/module/helper/SimpleInferenceRuleParser.py
index 54995f1..2db9a95 100644
--- a/richard/module/helper/SimpleInferenceRuleParser.py
+++ b/richard/module/helper/SimpleInferenceRuleParser.py
@@ -204,7 +204,7 @@ class SimpleInferenceRuleParser:
         while True:
 
             term, new_pos = self.parse_term(tokens, pos)
-            if not term:
+            if term is None:
                 break
             pos = new_pos
             terms.append(term)
-- 
2.43.0


From 5bad0460538fa5052c3547b50c207c60f0ba9907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:19 +0000
Subject: [PATCH 05/35] fix: read negative numbers in inference rules

The minus sign was skipped silently, so that -5 was read as 5.
---
 richard/module/helper/SimpleInferenceRuleParser.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/richard/module/helper/SimpleInferenceRuleParser.py b/richard/module/helper/SimpleInferenceRuleParser.py
index 2db9a95..321cadb 100644
--- a/richard/module/helper/SimpleInferenceRuleParser.py
+++ b/richard/module/helper/SimpleInferenceRuleParser.py
@@ -20,8 +20,8 @@ class SimpleInferenceRuleParser:
             ':-',
             '\(',
             '\)',
-            '\d+\.\d+',
-            '\d+',
+            '-?\d+\.\d+',
+            '-?\d+',
             "'(?:\\\\'|[^'])+'",
             '"(?:\\\\"|[^"])+"',
             '[A-Z]\w*',
@@ -30,8 +30,8 @@ class SimpleInferenceRuleParser:
         ]) + ")")
         self.re_identifier = re.compile("^\w+$")
         self.re_variable = re.compile("^[A-Z]\w*$")
-        self.re_float = re.compile("^\d+\.\d+$")
-        self.re_int = re.compile("^\d+$")
+        self.re_float = re.compile("^-?\d+\.\d+$")
+        self.re_int = re.compile("^-?\d+$")
 
 
     def parse(self, text: str):
-- 
2.43.0


From e1edfbcc8a316d9bb328654cb2d137610336d2c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:23 +0000
Subject: [PATCH 06/35] fix: accept a comment at the end of a rule file without
 newline

The words of such a comment were read as (part of) a rule.
---
 richard/module/helper/SimpleInferenceRuleParser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/richard/module/helper/SimpleInferenceRuleParser.py b/richard/module/helper/SimpleInferenceRuleParser.py
index 321cadb..4d5efb7 100644
--- a/richard/module/helper/SimpleInferenceRuleParser.py
+++ b/richard/module/helper/SimpleInferenceRuleParser.py
@@ -26,7 +26,7 @@ class SimpleInferenceRuleParser:
             '"(?:\\\\"|[^"])+"',
             '[A-Z]\w*',
             '\w+',
-            '#.*\n',
+            '#.*',
         ]) + ")")
         self.re_identifier = re.compile("^\w+$")
         self.re_variable = re.compile("^[A-Z]\w*$")
-- 
2.43.0


From d60e48a4624e5060669c41ef3bf56e76bee189a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:28 +0000
Subject: [PATCH 07/35] fix: read the empty string constant in inference rules

'' was skipped, or paired with a later quote.
---
 richard/module/helper/SimpleInferenceRuleParser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/richard/module/helper/SimpleInferenceRuleParser.py b/richard/module/helper/SimpleInferenceRuleParser.py
index 4d5efb7..069485d 100644
--- a/richard/module/helper/SimpleInferenceRuleParser.py
+++ b/richard/module/helper/SimpleInferenceRuleParser.py
@@ -22,8 +22,8 @@ class SimpleInferenceRuleParser:
             '\)',
             '-?\d+\.\d+',
             '-?\d+',
-            "'(?:\\\\'|[^'])+'",
-            '"(?:\\\\"|[^"])+"',
+            "'(?:\\\\'|[^'])*'",
+            '"(?:\\\\"|[^"])*"',
             '[A-Z]\w*',
             '\w+',
             '#.*',
-- 
2.43.0


From 61833020a1f1e3bd0d2b11248ec7aae1e861ae1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:46 +0000
Subject: [PATCH 08/35] fix: reject characters that are not part of the rule
 notation

Unknown characters and unbalanced quotes were skipped silently, so that
faulty rules were accepted with a different meaning.
---
 richard/module/helper/SimpleInferenceRuleParser.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/richard/module/helper/SimpleInferenceRuleParser.py b/richard/module/helper/SimpleInferenceRuleParser.py
index 069485d..b4ebbed 100644
--- a/richard/module/helper/SimpleInferenceRuleParser.py
+++ b/richard/module/helper/SimpleInferenceRuleParser.py
@@ -27,6 +27,8 @@ class SimpleInferenceRuleParser:
             '[A-Z]\w*',
             '\w+',
             '#.*',
+            # anything else is an error, and must not be skipped
+            '\S',
         ]) + ")")
         self.re_identifier = re.compile("^\w+$")
         self.re_variable = re.compile("^[A-Z]\w*$")
@@ -237,11 +239,11 @@ class SimpleInferenceRuleParser:
 
     def parse_term(self, tokens: list[str], pos: int):
         token, new_pos = self.parse_token(tokens, pos)
-        if token[0] == "'":
+        if token[0] == "'" and len(token) > 1:
             pos = new_pos
             return token[1:-1].replace("\\'", "'"), pos
 
-        if token[0] == '"':
+        if token[0] == '"' and len(token) > 1:
             pos = new_pos
             return token[1:-1].replace('\\"', '"'), pos
 
-- 
2.43.0


From 166308e857320b77fc18fbc317b83c316204b5a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:18 +0000
Subject: [PATCH 09/35] fix: leave no dangling separator when optional words
 are left out

With two optional words at the start of a rule, leaving out one or both
left a separator behind, so that the text was not accepted. An optional
separator before an optional word was treated as required.
---
 richard/entity/GrammarRules.py | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/richard/entity/GrammarRules.py b/richard/entity/GrammarRules.py
index e7d6fb7..32f4d21 100644
--- a/richard/entity/GrammarRules.py
+++ b/richard/entity/GrammarRules.py
@@ -61,17 +61,16 @@ class GrammarRules:
 
         skip = 1
 
-        # 'the'?_...
-        if index == 0 and consequent.optional and not consequent.separator and look_ahead_consequent and look_ahead_consequent.separator:
-            new_variants = [v + [consequent, look_ahead_consequent] for v in variants]
-            new_variants.extend(variants)
-            skip = 2
-        # ... _'the'? ...
-        elif consequent.separator and look_ahead_consequent and look_ahead_consequent.optional and not look_ahead_consequent.separator:
-            new_variants = [v + [consequent, look_ahead_consequent] for v in variants]
-            new_variants.extend(variants)
+        # ... _'the'? ... / ... _np() ... / ... ~'the'? ...
+        if consequent.separator and look_ahead_consequent and not look_ahead_consequent.separator:
+            # a separator belongs to the constituent that follows it, and is only needed if some constituent precedes it
+            new_variants = [v + [consequent, look_ahead_consequent] if v else [look_ahead_consequent] for v in variants]
+            # ... ~ ...
+            if consequent.optional:
+                new_variants.extend(v + [look_ahead_consequent] for v in variants if v)
+            if look_ahead_consequent.optional:
+                new_variants.extend(variants)
             skip = 2
-        # ... ~ ...
         elif consequent.optional:
             new_variants = [v + [consequent] for v in variants]
             new_variants.extend(variants)
-- 
2.43.0


From 7cbcd35a2c8991882ed9b3c867d994e083bbc500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:31 +0000
Subject: [PATCH 10/35] fix: write rules keep their optional constituents when
 used again

Every optional constituent of a write rule was also expanded into a rule
without it, that was chosen as soon as the rule had been used before.
Optional constituents are dealt with by the generator; only optional
words need expansion.
---
 richard/entity/GrammarRules.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/richard/entity/GrammarRules.py b/richard/entity/GrammarRules.py
index 32f4d21..b376f30 100644
--- a/richard/entity/GrammarRules.py
+++ b/richard/entity/GrammarRules.py
@@ -1,4 +1,5 @@
 import copy
+from richard.core.constants import POS_TYPE_WORD_FORM
 from richard.entity.GrammarRule import GrammarRule
 
 
@@ -68,10 +69,10 @@ class GrammarRules:
             # ... ~ ...
             if consequent.optional:
                 new_variants.extend(v + [look_ahead_consequent] for v in variants if v)
-            if look_ahead_consequent.optional:
+            if look_ahead_consequent.optional and look_ahead_consequent.position_type == POS_TYPE_WORD_FORM:
                 new_variants.extend(variants)
             skip = 2
-        elif consequent.optional:
+        elif consequent.optional and consequent.position_type == POS_TYPE_WORD_FORM:
             new_variants = [v + [consequent] for v in variants]
             new_variants.extend(variants)
         else:
-- 
2.43.0


From 58cf887d1d6a3b8f9d74d1d6b4e932048c6b2db1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:58 +0000
Subject: [PATCH 11/35] fix: FindOne reports the first error, as documented

It reported the error of the last alternative.
---
 richard/block/FindOne.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/richard/block/FindOne.py b/richard/block/FindOne.py
index 38ca12b..8709cad 100644
--- a/richard/block/FindOne.py
+++ b/richard/block/FindOne.py
@@ -27,7 +27,7 @@ class FindOne(ControlBlock):
             if next_block_result.error_type == "":
                # first successful product found: quit
                return BlockResult('')
-            else:
+            elif error_type == "":
                 error_type = next_block_result.error_type
                 error_args = next_block_result.error_args
 
-- 
2.43.0


From 36c35f8da9d46130c7cb6cd960b0b90f12331d8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:02 +0000
Subject: [PATCH 12/35] fix: with_context restores the contexts that were
 active before

A nested use of the same context ended the outer one, and an error in
the body left the context active.
---
 richard/module/BasicDialogContext.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/richard/module/BasicDialogContext.py b/richard/module/BasicDialogContext.py
index b7dc6d9..6f98eb1 100644
--- a/richard/module/BasicDialogContext.py
+++ b/richard/module/BasicDialogContext.py
@@ -21,9 +21,15 @@ class BasicDialogContext(SimpleMemoryModule):
     def with_context(self, values: list, context: ExecutionContext) -> list[list]:
         name = values[0]
         body = values[1]
-        self.data_source.insert('context', ['name'], [name])
-        context.solver.solve(body, context.binding)
-        self.data_source.delete('context', ['name'], [name])
+        # a context that is already active must stay active
+        active = len(self.data_source.select('context', ['name'], [name])) > 0
+        if not active:
+            self.data_source.insert('context', ['name'], [name])
+        try:
+            context.solver.solve(body, context.binding)
+        finally:
+            if not active:
+                self.data_source.delete('context', ['name'], [name])
         return [
             [None, None]
         ]
-- 
2.43.0


From 93194cd2461bf395f310c8ebf3fed8c763117f84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:07 +0000
Subject: [PATCH 13/35] fix: do not isolate goals that share variables nested
 in the first goal

Variables in the nested atoms of the first goal are not bound by it, so
goals that share them are not independent: isolating them lost joins and
gave wrong answers.
---
 .../semantic_composer/optimizer/IsolateIndependentParts.py    | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/richard/processor/semantic_composer/optimizer/IsolateIndependentParts.py b/richard/processor/semantic_composer/optimizer/IsolateIndependentParts.py
index 3297f03..105d035 100644
--- a/richard/processor/semantic_composer/optimizer/IsolateIndependentParts.py
+++ b/richard/processor/semantic_composer/optimizer/IsolateIndependentParts.py
@@ -1,5 +1,6 @@
 from dataclasses import dataclass
 from richard.core.atoms import get_atom_variables
+from richard.entity.Variable import Variable
 
 
 @dataclass(frozen=True)
@@ -23,7 +24,8 @@ class IsolateIndependentParts:
             return []
 
         head = atoms[0]
-        head_variables = set(get_atom_variables(head))
+        # only the direct arguments of the head are bound by it; variables in nested atoms are not
+        head_variables = set(arg.name for arg in head if isinstance(arg, Variable))
         new_atoms = [head]
 
         batches = self.collect_batches(atoms[1:], head_variables)
-- 
2.43.0


From bb7e1e24faec631a3f5ac45dfbe3a3333d1152d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:13 +0000
Subject: [PATCH 14/35] fix: do not multiply identical goals when isolating

A goal without variables that occurred twice was placed twice in each of
its two groups.
---
 .../optimizer/IsolateIndependentParts.py                  | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/richard/processor/semantic_composer/optimizer/IsolateIndependentParts.py b/richard/processor/semantic_composer/optimizer/IsolateIndependentParts.py
index 105d035..8bfbbf1 100644
--- a/richard/processor/semantic_composer/optimizer/IsolateIndependentParts.py
+++ b/richard/processor/semantic_composer/optimizer/IsolateIndependentParts.py
@@ -83,12 +83,12 @@ class IsolateIndependentParts:
         creates a new batch, based on `batch`, with the atoms in the order of `atoms`
         """
         ordered_atoms = []
+        remaining_atoms = list(batch.atoms)
 
         for atom in atoms:
-            for batch_atom in batch.atoms:
-                if batch_atom == atom:
-                    ordered_atoms.append(batch_atom)
-                    break
+            if atom in remaining_atoms:
+                ordered_atoms.append(atom)
+                remaining_atoms.remove(atom)
 
         ordered_batch = AtomBatch(ordered_atoms, batch.variables)
         return ordered_batch
-- 
2.43.0


From c7f8e16b961d708343f8b8c3a93126832056fc94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:13:19 +0000
Subject: [PATCH 15/35] fix: give variables in nested atoms a name of their own
 as well

A variable of a grammar rule that only occurred in nested atoms kept its
name, and was captured by the variable with that name of another rule,
giving the sentence another meaning.
---
 richard/processor/semantic_composer/SemanticComposer.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/richard/processor/semantic_composer/SemanticComposer.py b/richard/processor/semantic_composer/SemanticComposer.py
index f672cf7..12dd303 100644
--- a/richard/processor/semantic_composer/SemanticComposer.py
+++ b/richard/processor/semantic_composer/SemanticComposer.py
@@ -135,6 +135,9 @@ class SemanticComposer(SomeProcessor):
                     # since we're late in the game, don't replace variables that have already been replaced
                     if isinstance(arg, Variable) and arg.name not in map and not self.variable_generator.isinstance(arg):
                         map[arg.name] = self.variable_generator.next()
+                    # nested atoms
+                    elif isinstance(arg, list) or isinstance(arg, tuple):
+                        self.extend_map_with_semantics(map, [arg])
 
 
     def unify_variables(self, semantics: any, map: dict[str, str]) -> any:
-- 
2.43.0


From 644fa41129c286f4bb1a2fd0e61aead7b266e416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:13:23 +0000
Subject: [PATCH 16/35] fix: parsing does not add rules to the grammar

Every parse added its start rules to the grammar, which kept growing.
---
 richard/processor/parser/earley/EarleyParser.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/richard/processor/parser/earley/EarleyParser.py b/richard/processor/parser/earley/EarleyParser.py
index bad3c35..3f5b2d5 100644
--- a/richard/processor/parser/earley/EarleyParser.py
+++ b/richard/processor/parser/earley/EarleyParser.py
@@ -62,11 +62,12 @@ class EarleyParser:
         # ...
         for c in grammar_rules.find_argument_counts(ROOT_CATEGORY):
             variables = ["P" + str(j) for j in range(1, c+1)]
-            grammar_rules.add_rule(GrammarRule(
+            delta_rule = GrammarRule(
                 RuleConstituent(DELTA, ["D"], POS_TYPE_RELATION),
                 [RuleConstituent(ROOT_CATEGORY, variables, POS_TYPE_RELATION)],
                 sem=lambda s: s
-            ))
+            )
+            chart.enqueue(ChartState(delta_rule, 1, 0, 0), 0)
 
 
         for i in range(charCount + 1):
-- 
2.43.0


From 0ff883d109b170276f382595adc2be152bf4ef1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:13:27 +0000
Subject: [PATCH 17/35] fix: a constituent only completes rules with its number
 of arguments

np(E1) also advanced rules that expect np(E1, E2), so that words after it
passed as recognised in the report on an unknown word.
---
 richard/processor/parser/earley/EarleyParser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/richard/processor/parser/earley/EarleyParser.py b/richard/processor/parser/earley/EarleyParser.py
index 3f5b2d5..cc1af30 100644
--- a/richard/processor/parser/earley/EarleyParser.py
+++ b/richard/processor/parser/earley/EarleyParser.py
@@ -184,8 +184,8 @@ class EarleyParser:
             if (dot_position > len(rule.consequents)) or (rule.consequents[dot_position-1].predicate != completed_antecedent):
                 continue
 
-            # check if the types match
-            if charted_state.rule.consequents[dot_position-1].position_type != completed_state.rule.antecedent.position_type:
+            # check if the types and the number of arguments match
+            if not charted_state.rule.consequents[dot_position-1].equals(completed_state.rule.antecedent):
                 continue
 
             # create a new state that is a dot-advancement of an older state
-- 
2.43.0


From 0aae0a592a298f746f4dbf20691c238cd3e91683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:13:33 +0000
Subject: [PATCH 18/35] fix: word forms with capitals match as well

Only the text was lowered, so that a word with a capital in a grammar
rule never matched anything.
---
 richard/processor/parser/earley/EarleyParser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/richard/processor/parser/earley/EarleyParser.py b/richard/processor/parser/earley/EarleyParser.py
index cc1af30..2742010 100644
--- a/richard/processor/parser/earley/EarleyParser.py
+++ b/richard/processor/parser/earley/EarleyParser.py
@@ -206,6 +206,6 @@ class EarleyParser:
 
 
     def read_word(self, text: str, start_index: int, word: str):
-        part = text[start_index:].lower()
-        return part[:len(word)] == word
+        part = text[start_index:start_index+len(word)]
+        return part.lower() == word.lower()
 
-- 
2.43.0


From 6ebc33c76136588e83f489c93b276e23ce65b549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:14:16 +0000
Subject: [PATCH 19/35] fix: clear the output buffer also when generating the
 output fails

What was left behind showed up in the next output.
---
 richard/core/BasicGenerator.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/richard/core/BasicGenerator.py b/richard/core/BasicGenerator.py
index 3552707..97e58d0 100644
--- a/richard/core/BasicGenerator.py
+++ b/richard/core/BasicGenerator.py
@@ -21,9 +21,10 @@ class BasicGenerator(SomeGenerator):
 
 
     def generate_output(self):
-        output = self.generate_node([], "s", [], False)
-        self.output_buffer.clear()
-        return output
+        try:
+            return self.generate_node([], "s", [], False)
+        finally:
+            self.output_buffer.clear()
 
 
     def generate_node(self, used_rules: list[int], antecedent_cat: str, antecedent_values: list[any], optional: bool) -> list[str]:
-- 
2.43.0


From 85d0dfdf26daa1657e59fb7e79df4e3f5c205894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:14:21 +0000
Subject: [PATCH 20/35] fix: escape special characters in SPARQL literals

A name with a quote, like O'Brien, broke the query.
---
 richard/data_source/SparqlDataSource.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/richard/data_source/SparqlDataSource.py b/richard/data_source/SparqlDataSource.py
index d374455..d2ab1ce 100644
--- a/richard/data_source/SparqlDataSource.py
+++ b/richard/data_source/SparqlDataSource.py
@@ -121,7 +121,8 @@ class SparqlDataSource(SomeDataSource):
                 prepared = term
             else:
                 # todo: locale
-                prepared = "'{}'@{}".format(term, self.lang)
+                escaped = term.replace("\\", "\\\\").replace("'", "\\'").replace("\n", "\\n").replace("\r", "\\r")
+                prepared = "'{}'@{}".format(escaped, self.lang)
         else:
             prepared = str(term)
         return prepared
-- 
2.43.0


From d1682c2410578da31fac6009fb10c57fca223da0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:14:25 +0000
Subject: [PATCH 21/35] fix: an interrupted write does not break the SPARQL
 result cache

A partially written cache file made every later select of the same data
raise an error.
---
 richard/data_source/SparqlDataSource.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/richard/data_source/SparqlDataSource.py b/richard/data_source/SparqlDataSource.py
index d2ab1ce..6e35878 100644
--- a/richard/data_source/SparqlDataSource.py
+++ b/richard/data_source/SparqlDataSource.py
@@ -1,4 +1,5 @@
 import hashlib
+import os
 import pickle
 from richard.interface.SomeDataSource import SomeDataSource
 
@@ -34,7 +35,8 @@ class SparqlDataSource(SomeDataSource):
                 with open(file_name, 'rb') as file:
                     result = pickle.load(file)
                     return result
-            except OSError:
+            except Exception:
+                # absent or unreadable: do the actual select
                 pass
 
         # the actual select
@@ -43,9 +45,12 @@ class SparqlDataSource(SomeDataSource):
         # write to the results cache
         if self.result_cache_path:
             try:
-                with open(file_name, 'wb') as file:
+                # write to a temporary file first, so that an interrupted write is never read as a result
+                temp_file_name = file_name + "." + str(os.getpid()) + ".tmp"
+                with open(temp_file_name, 'wb') as file:
                     pickle.dump(result, file)
-                    return result
+                os.replace(temp_file_name, file_name)
+                return result
             except OSError:
                 pass
 
-- 
2.43.0


From 204860e50feafa95128f7dc262a4680202db71f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:14:30 +0000
Subject: [PATCH 22/35] fix: SimpleDataSource treats absent values as None

Selecting a record with an absent value raised a KeyError, and an absent
value matched any given value.
---
 richard/data_source/SimpleDataSource.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/richard/data_source/SimpleDataSource.py b/richard/data_source/SimpleDataSource.py
index 783bf6a..61de6ad 100644
--- a/richard/data_source/SimpleDataSource.py
+++ b/richard/data_source/SimpleDataSource.py
@@ -17,7 +17,7 @@ class SimpleDataSource(SomeDataSource):
     # def insert(self, record: Record):
     def insert(self, table: str, columns: list[str], values: list):
 
-        values = self.create_dict(columns, values)
+        values = dict(zip(columns, values))
 
         if not table in self.store:
             self.store[table] = []
@@ -38,11 +38,10 @@ class SimpleDataSource(SomeDataSource):
         for record in self.store[table]:
             ok = True
             for key, value in values.items():
-                if key in record:
-                    if record[key] != value:
-                        ok = False
+                if record.get(key) != value:
+                    ok = False
             if ok:
-                result = [record[column] for column in columns]
+                result = [record.get(column) for column in columns]
                 results.append(result)
 
         return results
-- 
2.43.0


From cc1de2253c5192c9ba144870900806c1efb725fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:14:34 +0000
Subject: [PATCH 23/35] fix: a solution with an unbound variable does not
 discard the others

One disjunct or clause that left a variable of the goal unbound made all
answers of the rule disappear.
---
 richard/module/InferenceModule.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/richard/module/InferenceModule.py b/richard/module/InferenceModule.py
index eac8877..56f4eac 100644
--- a/richard/module/InferenceModule.py
+++ b/richard/module/InferenceModule.py
@@ -101,14 +101,16 @@ class InferenceModule(SomeModule):
                         # check if the results are not bound (completely)
                         # this happens when r(X). is matches against r(Y).
                         if not rule_argument.name in solution:
-                            return []
+                            result = None
+                            break
                         result.append(solution[rule_argument.name])
                     else:
                         result.append(rule_argument)
                 else:
                     result.append(value)
 
-            results.append(result)
+            if result is not None:
+                results.append(result)
 
         return results
 
-- 
2.43.0


From 0fa8065f6d03d18cecdf0c0200acaea6a24b8802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:14:50 +0000
Subject: [PATCH 24/35] fix: a ResultIterator can be iterated more than once

Logging the answer of a sentence used up its results.
---
 richard/entity/ResultIterator.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/richard/entity/ResultIterator.py b/richard/entity/ResultIterator.py
index 8ca7731..9e11946 100644
--- a/richard/entity/ResultIterator.py
+++ b/richard/entity/ResultIterator.py
@@ -14,6 +14,8 @@ class ResultIterator:
         self.index = 0
 
     def __iter__(self):
+        # start again, so that the results can be gone through more than once
+        self.index = 0
         return self
 
     def __len__(self):
-- 
2.43.0


From 7066717cf7adf393efd4bf690ededa4ce5397812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:14:54 +0000
Subject: [PATCH 25/35] fix: keep line breaks inside CSV fields as they are

The file was opened with newline translation, which changed \r\n and \r
in quoted fields.
---
 richard/data_source/CsvImporter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/richard/data_source/CsvImporter.py b/richard/data_source/CsvImporter.py
index 7c04749..541c9f9 100644
--- a/richard/data_source/CsvImporter.py
+++ b/richard/data_source/CsvImporter.py
@@ -4,7 +4,7 @@ from richard.interface.SomeDataSource import SomeDataSource
 
 class CsvImporter:
     def import_table_from_file(self, table_name: str, file_path: str, data_source: SomeDataSource):
-        with open(file_path) as csvfile:
+        with open(file_path, newline='') as csvfile:
             reader = csv.reader(csvfile, delimiter=',')
             line = 0
             headers = []
-- 
2.43.0


From f4f038e55aa000eac45db2f7bef9b6fe5f8a6dd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:28:29 +0000
Subject: [PATCH 26/35] fix: check every row that a relation returns

---
 richard/core/Solver.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/richard/core/Solver.py b/richard/core/Solver.py
index 91abfc2..cbaf2da 100644
--- a/richard/core/Solver.py
+++ b/richard/core/Solver.py
@@ -59,11 +59,11 @@ class Solver(SomeSolver):
         if not isinstance(values, list):
             raise Exception("Predicate '" + predicate + "' should return a list")
 
-        if len(values) > 0:
-            if not isinstance(values[0], list):
+        for row in values:
+            if not isinstance(row, list):
                 raise Exception("The results of '" + predicate + "' should be lists")
-            if len(values[0]) != len(arguments):
-                raise Exception("The number of arguments in the results of '" + predicate + "' is " + str(len(values[0])) + " and should be " + str(len(arguments)))
+            if len(row) != len(arguments):
+                raise Exception("The number of arguments in the results of '" + predicate + "' is " + str(len(row)) + " and should be " + str(len(arguments)))
 
         results = self.create_solve_single_results(values, binding, arguments)
         return results
-- 
2.43.0


From 31ff23ce259e27f51be2097a537a720c3fd19577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:15 +0000
Subject: [PATCH 27/35] fix: give variables in templates a name of their own as
 well

---
 richard/processor/semantic_composer/SemanticComposer.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/richard/processor/semantic_composer/SemanticComposer.py b/richard/processor/semantic_composer/SemanticComposer.py
index 12dd303..6d7a334 100644
--- a/richard/processor/semantic_composer/SemanticComposer.py
+++ b/richard/processor/semantic_composer/SemanticComposer.py
@@ -128,8 +128,11 @@ class SemanticComposer(SomeProcessor):
 
 
     def extend_map_with_semantics(self, map: dict, semantics: list[tuple]):
+        # templates: the variables are in the body
+        if isinstance(semantics, SemanticTemplate):
+            self.extend_map_with_semantics(map, semantics.body)
         # only lists of atoms for now
-        if isinstance(semantics, list):
+        elif isinstance(semantics, list):
             for atom in semantics:
                 for arg in atom:
                     # since we're late in the game, don't replace variables that have already been replaced
-- 
2.43.0


From 21a42994151928231c930da50af782edc543d418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:20 +0000
Subject: [PATCH 28/35] fix: give variables in executables and inferences a
 name of their own as well

---
 richard/processor/semantic_composer/SemanticComposer.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/richard/processor/semantic_composer/SemanticComposer.py b/richard/processor/semantic_composer/SemanticComposer.py
index 6d7a334..9b0c9e9 100644
--- a/richard/processor/semantic_composer/SemanticComposer.py
+++ b/richard/processor/semantic_composer/SemanticComposer.py
@@ -97,8 +97,10 @@ class SemanticComposer(SomeProcessor):
         else:
             inferences.extend(node.rule.dialog)
 
-        # extend the map with variables found in the result of the semantics function
+        # extend the map with variables found in the results of the semantics, dialog and exec functions
         self.extend_map_with_semantics(map, semantics)
+        self.extend_map_with_semantics(map, inferences)
+        self.extend_map_with_semantics(map, executable)
 
         # replace the formal parameters in the semantics with the unified variables
         unified_semantics = self.unify_variables(semantics, map)
-- 
2.43.0


From 20c4268c09cfc9b6b4d19065335a8add6fc1cc22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:54 +0000
Subject: [PATCH 29/35] fix: do not move disjunctions before the goals that
 bind their variables

---
 .../processor/semantic_composer/optimizer/SortByCost.py    | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/richard/processor/semantic_composer/optimizer/SortByCost.py b/richard/processor/semantic_composer/optimizer/SortByCost.py
index f441cc7..7740d39 100644
--- a/richard/processor/semantic_composer/optimizer/SortByCost.py
+++ b/richard/processor/semantic_composer/optimizer/SortByCost.py
@@ -1,6 +1,6 @@
 from richard.core.Model import Model
 from richard.core.atoms import get_atom_variables
-from richard.core.constants import IGNORED, INFINITE
+from richard.core.constants import DISJUNCTION, IGNORED, INFINITE
 from richard.entity.Variable import Variable
 
 
@@ -53,6 +53,11 @@ class SortByCost:
 
     def calculate_cost(self, atom: tuple, bound_variables: set, model: Model):
         predicate = atom[0]
+
+        # the size of a disjunction is not known; its outcome depends on the variables bound before it
+        if predicate == DISJUNCTION:
+            return INFINITE
+
         relations = model.find_relations(predicate)
         if len(relations) == 0:
             return 0
-- 
2.43.0


From a4c78fac1c2bbc2379e685a81ee6230ab1a32bd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:48:17 +0000
Subject: [PATCH 30/35] fix: do not isolate goals that share a variable by name

---
 .../optimizer/IsolateIndependentParts.py        | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/richard/processor/semantic_composer/optimizer/IsolateIndependentParts.py b/richard/processor/semantic_composer/optimizer/IsolateIndependentParts.py
index 8bfbbf1..5698773 100644
--- a/richard/processor/semantic_composer/optimizer/IsolateIndependentParts.py
+++ b/richard/processor/semantic_composer/optimizer/IsolateIndependentParts.py
@@ -46,11 +46,14 @@ class IsolateIndependentParts:
 
     def collect_batches(self, atoms, excluded_variables: list[str]):
 
+        # variables that are passed by name (reified) also connect atoms
+        names = set(get_atom_variables(atoms))
+
         # create a batch for each atom
         collection: list[AtomBatch] = []
         for atom in atoms:
             # note that the top level variables are excluded, they may occur in any batch
-            variables = set(get_atom_variables(atom)) - excluded_variables
+            variables = (set(get_atom_variables(atom)) | self.get_names(atom, names)) - excluded_variables
             collection.append(AtomBatch([atom], variables))
 
         # combine batches until the result is stable
@@ -78,6 +81,18 @@ class IsolateIndependentParts:
         return restored
 
 
+    def get_names(self, construct: any, names: set[str]) -> set[str]:
+        """
+        returns the variables, out of `names`, whose name occurs in `construct`
+        """
+        if isinstance(construct, (tuple, list)):
+            return set().union(*[self.get_names(arg, names) for arg in construct])
+        elif isinstance(construct, str) and construct in names:
+            return {construct}
+        else:
+            return set()
+
+
     def restore_atom_order(self, atoms: list[tuple], batch: AtomBatch) -> AtomBatch:
         """
         creates a new batch, based on `batch`, with the atoms in the order of `atoms`
-- 
2.43.0


From 0bde3ce43e2db134a69c064959a9e6d1da704a9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:34 +0000
Subject: [PATCH 31/35] fix: SPARQL selections on an id that is not an IRI have
 no rows

---
 richard/data_source/SparqlDataSource.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/richard/data_source/SparqlDataSource.py b/richard/data_source/SparqlDataSource.py
index 6e35878..94ec036 100644
--- a/richard/data_source/SparqlDataSource.py
+++ b/richard/data_source/SparqlDataSource.py
@@ -1,6 +1,7 @@
 import hashlib
 import os
 import pickle
+import re
 from richard.interface.SomeDataSource import SomeDataSource
 
 
@@ -8,6 +9,9 @@ ID = 'id'
 TEXT = 'text'
 CONSTANT = 'constant'
 
+# characters that do not occur in any IRI
+NON_IRI_CHARACTER = re.compile(r'[\x00-\x20<>"{}|\\^`]')
+
 
 class SparqlDataSource(SomeDataSource):
 
@@ -61,6 +65,11 @@ class SparqlDataSource(SomeDataSource):
 
         import requests
 
+        for column, value in zip(columns, values):
+            if column == ID and isinstance(value, str) and NON_IRI_CHARACTER.search(value):
+                # not an IRI: there is no such resource, and it would change the query
+                return []
+
         terms = [
             self.prepare_term(values[0], 0, columns),
             self.prepare_term(values[1], 1, columns)
-- 
2.43.0


From 926ba82e97d4781699510e1c98b54a1053bdbff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:08 +0000
Subject: [PATCH 32/35] fix: a write rule is not used just because one with the
 same syntax was

---
 richard/core/BasicGenerator.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/richard/core/BasicGenerator.py b/richard/core/BasicGenerator.py
index 97e58d0..5875fe2 100644
--- a/richard/core/BasicGenerator.py
+++ b/richard/core/BasicGenerator.py
@@ -34,8 +34,7 @@ class BasicGenerator(SomeGenerator):
 
         if found:
 
-            hash = rule.hash
-            used_rules.append(hash)
+            used_rules.append(self.get_rule_id(rule))
 
             for i, consequent in enumerate(rule.consequents):
                 consequent_vals = self.get_consequent_values(rule, i, binding)
@@ -128,12 +127,17 @@ class BasicGenerator(SomeGenerator):
             found = True
 
             # make sure the same rule is not executed again and again
-            if rule.hash not in used_rules:
+            if self.get_rule_id(rule) not in used_rules:
                 break
 
         return result_rule, result_binding, found
 
 
+    # rules with the same syntax are different rules if they have different conditions
+    def get_rule_id(self, rule: GrammarRule):
+        return (rule.hash, id(rule.sem))
+
+
     def generate_single_consequent(self, rule: GrammarRule, used_rules: list[str], category: str, values: list[any], position_type: str, optional: bool) -> list[str]:
 
         if position_type == POS_TYPE_WORD_FORM:
-- 
2.43.0


From f81ec75531964dac2893ee9969fd07874be08425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:23:15 +0000
Subject: [PATCH 33/35] fix: a word or regexp does not predict the category
 with the same name

---
 richard/processor/parser/earley/EarleyParser.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/richard/processor/parser/earley/EarleyParser.py b/richard/processor/parser/earley/EarleyParser.py
index 2742010..959d99c 100644
--- a/richard/processor/parser/earley/EarleyParser.py
+++ b/richard/processor/parser/earley/EarleyParser.py
@@ -108,6 +108,10 @@ class EarleyParser:
         next_consequent_variables = state.rule.consequents[consequentIndex].arguments
         end_char_index = state.end_char_index
 
+        # only categories have rules; the text of a word may happen to be the name of one
+        if nextConsequent.position_type != POS_TYPE_RELATION:
+            return
+
         for rule in grammar_rules.find_rules(nextConsequent.predicate, len(next_consequent_variables)) :
 
             predicted_state = ChartState(rule, 1, end_char_index, end_char_index)
-- 
2.43.0


From fa83ce2f2c33e33bf5cc4155a540e4b2d109707a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:32 +0000
Subject: [PATCH 34/35] fix: only the last test of a dialogue counts as the
 last test, not every test that equals it

---
 richard/core/DialogTester.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/richard/core/DialogTester.py b/richard/core/DialogTester.py
index f963a41..88d24f8 100644
--- a/richard/core/DialogTester.py
+++ b/richard/core/DialogTester.py
@@ -42,12 +42,12 @@ class DialogTester:
 
 
     def do_run(self):
-        last = self.tests[-1] if len(self.tests) > 0 else None
+        last = len(self.tests) - 1
         for i, test in enumerate(self.tests):
 
             question, expected = test
 
-            log_this = self.logger.which_tests == ALL or (self.logger.which_tests == LAST and test == last)
+            log_this = self.logger.which_tests == ALL or (self.logger.which_tests == LAST and i == last)
             self.logger.is_last_test = log_this
 
             request = SentenceRequest(question, logger=self.logger)
-- 
2.43.0


From 631096dd33c82144d7960dcfef1e6123add65e92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:07 +0000
Subject: [PATCH 35/35] fix: the log shows the locale itself, not its letters

---
 richard/processor/language_selector/LanguageSelectorProduct.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/richard/processor/language_selector/LanguageSelectorProduct.py b/richard/processor/language_selector/LanguageSelectorProduct.py
index 81757a7..6083eac 100644
--- a/richard/processor/language_selector/LanguageSelectorProduct.py
+++ b/richard/processor/language_selector/LanguageSelectorProduct.py
@@ -10,7 +10,7 @@ class LanguageSelectorProduct(SomeProduct):
 
 
     def log(self, logger: Logger):
-        logger.add(", ".join(self.locale))
+        logger.add(self.locale)
 
 
     def get_output(self) -> any:
-- 
2.43.0

