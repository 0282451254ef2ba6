From c36d035b0921df1a67cdf2773077f211781dc3ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:38 +0000
Subject: [PATCH 01/98] fix: don't accumulate repetition parse actions on the
 child's matcher element

Re-creating a Repeat's matcher element added another parse action to the child's
cached element, so each repetition was recorded more than once afterwards.
---
 jsgf/expansions.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/jsgf/expansions.py b/jsgf/expansions.py
index e9e3469..bce0f3e 100644
--- a/jsgf/expansions.py
+++ b/jsgf/expansions.py
@@ -1571,8 +1571,10 @@ class Repeat(SingleChildExpansion):
                 self.child.reset_for_new_match()
             return tokens
 
-        # Get the child's matcher element and add the extra parse action.
-        child_element = self.child.matcher_element.addParseAction(f)
+        # Get a copy of the child's matcher element and add the extra parse action.
+        # A copy is used because the child's element might be used again if this
+        # expansion's element is re-created.
+        child_element = self.child.matcher_element.copy().addParseAction(f)
 
         # Determine the parser element type to use.
         type_ = pyparsing.ZeroOrMore if self.is_optional else pyparsing.OneOrMore
-- 
2.43.0


From 990b81e8eedfcb1ea5c0362a8489f518b37967c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:00 +0000
Subject: [PATCH 02/98] fix: don't match zero repetitions of a Repeat that has
 an optional ancestor

The rule '[a+ b]' matched 'b' because the Repeat expansion's matcher element was
made optional by the grouping around it.
---
 jsgf/expansions.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jsgf/expansions.py b/jsgf/expansions.py
index bce0f3e..1ad0f25 100644
--- a/jsgf/expansions.py
+++ b/jsgf/expansions.py
@@ -1577,7 +1577,8 @@ class Repeat(SingleChildExpansion):
         child_element = self.child.matcher_element.copy().addParseAction(f)
 
         # Determine the parser element type to use.
-        type_ = pyparsing.ZeroOrMore if self.is_optional else pyparsing.OneOrMore
+        kleene = isinstance(self, KleeneStar)
+        type_ = pyparsing.ZeroOrMore if kleene else pyparsing.OneOrMore
 
         # Handle the special case of a repetition ancestor, e.g. ((a b)+)+
         rep = self.repetition_ancestor
-- 
2.43.0


From 7a0df11e9e4c051e75a5cbb7fb263e016d2edcfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:35 +0000
Subject: [PATCH 03/98] fix: don't hang when matching repeats of expansions
 that can match nothing

Matching e.g. '([a])+' or '([a] [b])*' never returned because pyparsing's repetition
elements don't check for progress. Also allow repeats of such expansions to match
nothing when they are the only branch of another repeat.
---
 jsgf/expansions.py | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/jsgf/expansions.py b/jsgf/expansions.py
index 1ad0f25..78ef454 100644
--- a/jsgf/expansions.py
+++ b/jsgf/expansions.py
@@ -1576,6 +1576,19 @@ class Repeat(SingleChildExpansion):
         # expansion's element is re-created.
         child_element = self.child.matcher_element.copy().addParseAction(f)
 
+        # A repetition must consume something, otherwise the parser element would
+        # never stop repeating. Use the postParse function for this because, unlike
+        # parse actions, it is also used when looking ahead.
+        closure = child_element.postParse
+
+        def postParse(instring, loc, tokenlist):
+            result = closure(instring, loc, tokenlist)
+            if not tokenlist:
+                raise pyparsing.ParseException(instring, loc, "empty repetition")
+            return result
+
+        child_element.postParse = postParse
+
         # Determine the parser element type to use.
         kleene = isinstance(self, KleeneStar)
         type_ = pyparsing.ZeroOrMore if kleene else pyparsing.OneOrMore
@@ -1596,10 +1609,16 @@ class Repeat(SingleChildExpansion):
             # Use an And element instead if self is the only branch because
             # it makes no sense to repeat a repeat like this!
             if only_branch:
-                type_ = pyparsing.And
-                child_element = [child_element]
+                type_ = pyparsing.Optional if kleene else pyparsing.And
+                child_element = child_element if kleene else [child_element]
+
+        # Allow an empty match if there are no repetitions and if the child doesn't
+        # need to consume anything.
+        element = type_(child_element)
+        if not kleene and self.child.matcher_element.mayReturnEmpty:
+            element = pyparsing.MatchFirst([element, self.child.matcher_element])
 
-        return self._set_matcher_element_attributes(type_(child_element))
+        return self._set_matcher_element_attributes(element)
 
     def reset_match_data(self):
         super(Repeat, self).reset_match_data()
-- 
2.43.0


From a9fa4acb67bf9475433f07ac5ccf7b70385cea66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:22 +0000
Subject: [PATCH 04/98] fix: don't report incomplete matches of rules as
 matches

A rule with an optional root expansion, e.g. '[a]' or '(a)*', matched any speech
because the current_match value of an optional expansion is never None. Also discard
the match data of partial matches so that was_matched, matched_tags and
get_tags_matching() don't report anything for speech that didn't match.
---
 jsgf/rules.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/jsgf/rules.py b/jsgf/rules.py
index a49bd8c..41a2747 100644
--- a/jsgf/rules.py
+++ b/jsgf/rules.py
@@ -253,10 +253,14 @@ class Rule(references.BaseRef):
         # Match the expansion and use the remainder substring to check if the rule
         # matched completely.
         remainder = self.expansion.matches(speech)
-        if remainder != "":
-            self.expansion.current_match = None
-
-        return self.expansion.current_match is not None
+        matched = remainder == "" and self.expansion.current_match is not None
+        if not matched:
+            # Discard the match data of any partial match. Set the internal member
+            # because the current_match of an optional expansion is never None.
+            self.expansion.reset_for_new_match()
+            self.expansion._current_match = None
+
+        return matched
 
     def find_matching_part(self, speech):
         """
-- 
2.43.0


From 43e3806b8ee11f0fc161ce612e4c4e6f693be02f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:36 +0000
Subject: [PATCH 05/98] fix: match speech and literals with multiple spaces
 between words

The remainder returned by Expansion.matches() was calculated from the matched words
joined by single spaces, so 'hello   world' did not match the rule 'hello world'.
---
 jsgf/expansions.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/jsgf/expansions.py b/jsgf/expansions.py
index 78ef454..7ed1f09 100644
--- a/jsgf/expansions.py
+++ b/jsgf/expansions.py
@@ -669,8 +669,9 @@ class Expansion(object):
         :param speech: str
         :returns: str
         """
-        # Match the string using this expansion's parser element.
-        speech = speech.strip()
+        # Match the string using this expansion's parser element. Ensure that there
+        # is only one space between words as is the case for current_match values.
+        speech = " ".join(speech.split())
         try:
             result = " ".join(
                 self.matcher_element.parseString(speech).asList()
@@ -1438,7 +1439,7 @@ class Literal(Expansion):
 
     def _make_matcher_element(self):
         # Return a case-sensitive or case-insensitive pyparsing Literal element.
-        text = self._text
+        text = " ".join(self._text.split())
         if self.case_sensitive:
             matcher_cls = pyparsing.Literal
         else:
-- 
2.43.0


From 273922e6b7991b0c595129ec6b3a86eeb138d067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:50 +0000
Subject: [PATCH 06/98] fix: match the empty string with required expansions
 that can match nothing

The rules '[a] [b]', '<NULL>|a' and '([a])' did not match '' because required
expansions discard empty current_match values.
---
 jsgf/expansions.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/jsgf/expansions.py b/jsgf/expansions.py
index 7ed1f09..778f0b4 100644
--- a/jsgf/expansions.py
+++ b/jsgf/expansions.py
@@ -676,6 +676,9 @@ class Expansion(object):
             result = " ".join(
                 self.matcher_element.parseString(speech).asList()
             )
+            if not result:
+                # Matching nothing successfully is not the same as not matching.
+                self._current_match = ""
         except pyparsing.ParseException:
             result = ""
 
-- 
2.43.0


From 18b84b6d1ff990a3d8710bdc412681be7c7c9b1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:10 +0000
Subject: [PATCH 07/98] fix: update the matcher element when the text of a
 literal is changed

---
 jsgf/expansions.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/jsgf/expansions.py b/jsgf/expansions.py
index 778f0b4..91e2620 100644
--- a/jsgf/expansions.py
+++ b/jsgf/expansions.py
@@ -1334,10 +1334,10 @@ class Literal(Expansion):
     """
     def __init__(self, text, case_sensitive=False):
         # Set _text and use the text setter to validate the input.
+        super(Literal, self).__init__([])
         self._text = ""
-        self.text = text
         self._case_sensitive = bool(case_sensitive)
-        super(Literal, self).__init__([])
+        self.text = text
 
     def __str__(self):
         return "%s('%s')" % (self.__class__.__name__, self.text)
@@ -1387,6 +1387,7 @@ class Literal(Expansion):
             raise TypeError("expected string, got %s instead" % value)
 
         self._text = value
+        self.invalidate_matcher()
 
     def generate(self):
         """
-- 
2.43.0


From fc95cdc99e0a195a39cc604f2beace4598320a82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:10 +0000
Subject: [PATCH 08/98] fix: update matcher elements of references when a
 rule's expansion is replaced

Rules referencing the rule kept matching its previous expansion.
---
 jsgf/rules.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/jsgf/rules.py b/jsgf/rules.py
index 41a2747..f0c0fb2 100644
--- a/jsgf/rules.py
+++ b/jsgf/rules.py
@@ -93,8 +93,10 @@ class Rule(references.BaseRef):
             return self._name
 
     def _set_expansion(self, value):
-        # Reset expansion.rule if there was a previous expansion
+        # Reset expansion.rule if there was a previous expansion. Also invalidate its
+        # matcher element so that any references to this rule are updated.
         if self._expansion:
+            self._expansion.invalidate_matcher()
             self._expansion.rule = None
 
         # Handle the object passed in as an expansion
-- 
2.43.0


From 3709cd6ddeed529b2d8a6d1d24a15c22e063bcd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:22 +0000
Subject: [PATCH 09/98] fix: resolve rule references added to the expansion
 tree of an existing rule

---
 jsgf/expansions.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/jsgf/expansions.py b/jsgf/expansions.py
index 91e2620..bc49c5e 100644
--- a/jsgf/expansions.py
+++ b/jsgf/expansions.py
@@ -1155,8 +1155,11 @@ class NamedRuleRef(BaseExpansionRef):
         :raises: GrammarError
         :returns: Rule
         """
-        if self.rule and self.rule.grammar:
-            return self.rule.grammar.get_rule_from_name(self.name)
+        # Use the root expansion's rule if this expansion was added to the rule's
+        # expansion tree after the rule was created.
+        rule = self.rule or self.root_expansion.rule
+        if rule and rule.grammar:
+            return rule.grammar.get_rule_from_name(self.name)
         else:
             raise GrammarError("cannot get referenced Rule object from Grammar")
     
-- 
2.43.0


From 4e808e58ec81b8a0027cd5dd5e2829839a1daca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:49 +0000
Subject: [PATCH 10/98] fix: preserve the case sensitivity and text of copied
 literals

---
 jsgf/expansions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jsgf/expansions.py b/jsgf/expansions.py
index bc49c5e..56c65f6 100644
--- a/jsgf/expansions.py
+++ b/jsgf/expansions.py
@@ -1403,7 +1403,7 @@ class Literal(Expansion):
         return self.text
 
     def __copy__(self):
-        e = type(self)(self.text)
+        e = type(self)(self._text, self.case_sensitive)
         e.tag = self.tag
         return e
 
-- 
2.43.0


From 9e26c5ceaac8998776cbc549f0d2f20723ffe0d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:47 +0000
Subject: [PATCH 11/98] fix: record repetition match data for each expansion,
 not for each distinct one

Repeat.get_expansion_matches() and get_expansion_slices() returned the data of the
last comparable expansion, e.g. of the last 'a' for both literals in '(a b a)+'.
---
 jsgf/expansions.py | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/jsgf/expansions.py b/jsgf/expansions.py
index 56c65f6..ade0a0c 100644
--- a/jsgf/expansions.py
+++ b/jsgf/expansions.py
@@ -1540,7 +1540,7 @@ class Repeat(SingleChildExpansion):
         :returns: list
         """
         if e.is_descendant_of(self):
-            return [values[e]["current_match"] for values in
+            return [self._find_match_data(values, e)[0] for values in
                     self._repetitions_matched]
         else:
             return []
@@ -1552,11 +1552,18 @@ class Repeat(SingleChildExpansion):
         :returns: list
         """
         if e.is_descendant_of(self):
-            return [values[e]["matching_slice"] for values in
+            return [self._find_match_data(values, e)[1] for values in
                     self._repetitions_matched]
         else:
             return []
 
+    @staticmethod
+    def _find_match_data(values, e):
+        # Find an expansion's match data by identity because comparable expansions
+        # in a repetition, e.g. the first and last literals in '(a b a)+', can have
+        # different data.
+        return next((match, slice_) for x, match, slice_ in values if x is e)
+
     def _parse_action(self, tokens):
         # Call the super method to set current_match.
         super(Repeat, self)._parse_action(tokens)
@@ -1565,7 +1572,11 @@ class Repeat(SingleChildExpansion):
         if self._repetitions_matched:
             # Restore the last repetition's match values.
             last = self._repetitions_matched[len(self._repetitions_matched) - 1]
-            restore_current_matches(self.child, last, False)
+            for x, match, slice_ in last:
+                if match is not None:
+                    x.current_match = match
+                if slice_ is not None:
+                    x.matching_slice = slice_
         return tokens
 
     def _make_matcher_element(self):
@@ -1573,7 +1584,10 @@ class Repeat(SingleChildExpansion):
         def f(tokens):
             if tokens.asList():
                 # Add current match values to the _repetitions_matched list.
-                self._repetitions_matched.append(save_current_matches(self.child))
+                self._repetitions_matched.append(flat_map_expansion(
+                    self.child,
+                    lambda x: (x, x.current_match, x.matching_slice)
+                ))
 
                 # Wipe current match values for the next repetition (if any).
                 self.child.reset_for_new_match()
-- 
2.43.0


From b4e0f2091dffa7075b57bb0df9d860f1cd3dd858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:54 +0000
Subject: [PATCH 12/98] fix: give equal expansions equal hash values

Hash values included tags and the compiled output of alternatives, neither of which
are compared by __eq__, so e.g. parse_expansion_string('a|b') was equal to
AlternativeSet('a', 'b') but was not found in sets or dictionaries.
---
 jsgf/expansions.py | 29 ++++++++++++++---------------
 1 file changed, 14 insertions(+), 15 deletions(-)

diff --git a/jsgf/expansions.py b/jsgf/expansions.py
index ade0a0c..38c9ed6 100644
--- a/jsgf/expansions.py
+++ b/jsgf/expansions.py
@@ -425,12 +425,11 @@ class Expansion(object):
         return self + other
 
     def __hash__(self):
-        # The hash of an expansion is a combination of the class name, tag and
-        # hashes of children, similar to expansion string representations.
+        # The hash of an expansion is a combination of the class name and hashes of
+        # children, similar to expansion string representations. Tags are not
+        # included because they are not compared by __eq__.
         child_hashes = [hash(c) for c in self.children]
-        return hash(
-            "%s(%s)%s" % (self.__class__.__name__, child_hashes, self.tag)
-        )
+        return hash("%s(%s)" % (self.__class__.__name__, child_hashes))
 
     def __copy__(self):
         if not self.children:
@@ -1794,17 +1793,17 @@ class AlternativeSet(VariableChildExpansion):
         self.invalidate_matcher()
 
     def __hash__(self):
-        # The hash of an Alt.Set is a combination of the class name, tag and
-        # hashes of children, similar to expansion string representations.
-        # Hashes of children are sorted so that the same value is returned
-        # regardless of child order. Weights are also included.
-        child_hashes = sorted([
-            (e.compile(), float(self.weights.get(e, 1)))
+        # The hash of an Alt.Set is a combination of the base class name and hashes
+        # of children, similar to expansion string representations.
+        # Hashes of children are sorted and duplicates are discarded, as in __eq__,
+        # so that the same value is returned regardless of child order. Weights are
+        # also included.
+        child_hashes = sorted(set([
+            ("%s" % (e if isinstance(e, Literal) else hash(e)),
+             float(self.weights.get(e, 1)))
             for e in self.children
-        ])
-        return hash(
-            "%s(%s)%s" % (self.__class__.__name__, child_hashes, self.tag)
-        )
+        ]))
+        return hash("AlternativeSet(%s)" % child_hashes)
 
     def __copy__(self):
         result = super(AlternativeSet, self).__copy__()
-- 
2.43.0


From 208362aaa545c1f414a42015827c771ded86a913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:10 +0000
Subject: [PATCH 13/98] fix: don't match or generate removed or zero-weighted
 alternatives

Weights of alternatives removed from an AlternativeSet were still used for matching
and string generation, and string generation could choose an alternative with a
weight of 0 because of floating point errors.
---
 jsgf/expansions.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/jsgf/expansions.py b/jsgf/expansions.py
index 38c9ed6..4a391b7 100644
--- a/jsgf/expansions.py
+++ b/jsgf/expansions.py
@@ -1862,15 +1862,21 @@ class AlternativeSet(VariableChildExpansion):
             self._validate_weights()
             # use weights if they are set
             # each alternative gets the probability weight / sum_of_all_weights
-            w_sum = sum(self._weights.values())
+            # alternatives with a weight of 0 and weights of expansions which are not
+            # alternatives (any more) are not used
+            weights = [(e, self._weights[e]) for e in self.children
+                       if self._weights[e] > 0]
+            w_sum = sum([weight for _, weight in weights])
             rand = random.random()
             # print("rand = %s" % rand)
             help_sum = 0
-            for child, weight in self._weights.items():
+            for child, weight in weights:
                 help_sum += (weight / w_sum)
                 # print(help_sum)
                 if rand < help_sum:
                     return child.generate()
+            # the sum of all probabilities may be slightly lower than 1
+            return weights[-1][0].generate()
         return random.choice(self.children).generate()
 
     def _make_matcher_element(self):
@@ -1880,7 +1886,8 @@ class AlternativeSet(VariableChildExpansion):
 
             # Exclude alternatives that have a weight value of 0.
             children = []
-            for e, w in self._weights.items():
+            for e in self.children:
+                w = self._weights[e]
                 if w > 0:
                     children.append((e, w))
 
-- 
2.43.0


From adddda5920c19cfac9f5b5e37dac24e349d1c832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:15 +0000
Subject: [PATCH 14/98] fix: keep the weights of alternatives that changed
 after being weighted

---
 jsgf/expansions.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/jsgf/expansions.py b/jsgf/expansions.py
index 4a391b7..00b7b69 100644
--- a/jsgf/expansions.py
+++ b/jsgf/expansions.py
@@ -1744,6 +1744,11 @@ class AlternativeSet(VariableChildExpansion):
 
         :rtype: dict
         """
+        # Alternatives may have changed since their weights were set, so update the
+        # dictionary to ensure that they can be found with their current hashes.
+        items = list(self._weights.items())
+        self._weights.clear()
+        self._weights.update(items)
         return self._weights
 
     @weights.setter
@@ -1786,7 +1791,7 @@ class AlternativeSet(VariableChildExpansion):
                 if c.compile() == compiled_child:
                     child = c
 
-        self._weights[child] = weight
+        self.weights[child] = weight
 
         # Invalidate this expansion. This is a quick procedure if the matcher
         # element hasn't been initialised.
@@ -1798,9 +1803,10 @@ class AlternativeSet(VariableChildExpansion):
         # Hashes of children are sorted and duplicates are discarded, as in __eq__,
         # so that the same value is returned regardless of child order. Weights are
         # also included.
+        weights = self.weights
         child_hashes = sorted(set([
             ("%s" % (e if isinstance(e, Literal) else hash(e)),
-             float(self.weights.get(e, 1)))
+             float(weights.get(e, 1)))
             for e in self.children
         ]))
         return hash("AlternativeSet(%s)" % child_hashes)
@@ -1818,8 +1824,9 @@ class AlternativeSet(VariableChildExpansion):
     def _validate_weights(self):
         # Check that all alternatives have a weight. The rule for weights is
         # all or nothing.
+        weights = self.weights
         for e in self.children:
-            if e not in self._weights:
+            if e not in weights:
                 raise GrammarError("alternative %s does not have a weight "
                                    "value" % e)
 
-- 
2.43.0


From 9cafeccd1950720919521d0cc113b0a333d1038e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:41 +0000
Subject: [PATCH 15/98] fix: adopt expansions added to child lists with += and
 extended slices

---
 jsgf/expansions.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/jsgf/expansions.py b/jsgf/expansions.py
index 00b7b69..d31c753 100644
--- a/jsgf/expansions.py
+++ b/jsgf/expansions.py
@@ -286,7 +286,8 @@ class ChildList(object):
         return self._list + other
 
     def __iadd__(self, other):
-        self._list += other
+        self.extend(other)
+        return self
 
     def append(self, e):
         e = Expansion.make_expansion(e)
@@ -346,25 +347,27 @@ class ChildList(object):
         self._list[self._list.index(value)].parent = None
         self._list.remove(value)
 
-    def __setslice__(self, i, j, sequence):
+    def __setslice__(self, i, j, sequence, step=None):
         """
         Method for setting a list slice compatible with Python 2 and 3.
 
         :param i: int
         :param j: int
         :param sequence: iterable
+        :param step: int
         """
         # Convert the sequence to a sequence of Expansions if it isn't one.
         sequence = [Expansion.make_expansion(e) for e in sequence]
 
+        # Get the old children and set the slice.
+        old_children = self._list[i:j:step]
+        self._list[i:j:step] = sequence
+
         # Orphan the old children :-(
         def orphan(x):
             x.parent = None
 
-        [orphan(c) for c in self._list[i:j]]
-
-        # Set the slice.
-        self._list[slice(i, j)] = sequence
+        [orphan(c) for c in old_children]
 
         # Adopt the new children :-)
         def adopt(x):
@@ -378,7 +381,7 @@ class ChildList(object):
     def __setitem__(self, i, value):
         # Handle setting slices separately for my sanity.
         if isinstance(i, slice):
-            self.__setslice__(i.start, i.stop, value)
+            self.__setslice__(i.start, i.stop, value, i.step)
             return
 
         # Convert value to Expansion appropriately.
-- 
2.43.0


From a84c4bc902f8b5d385ec59dfcbc411871808db98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:01 +0000
Subject: [PATCH 16/98] fix: find matching parts of speech for case-sensitive
 rules

---
 jsgf/rules.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/jsgf/rules.py b/jsgf/rules.py
index f0c0fb2..5fcedd7 100644
--- a/jsgf/rules.py
+++ b/jsgf/rules.py
@@ -276,9 +276,9 @@ class Rule(references.BaseRef):
         if not self._active:
             return None
 
-        # Strip whitespace at the start of 'speech' and lower it to match regex
-        # properly.
-        speech = speech.lstrip().lower()
+        # Ensure that there is only one space between words, as Expansion.matches
+        # does. Letter case is handled by the matcher elements.
+        speech = " ".join(speech.split())
 
         # Reset match data for this rule and referenced rules.
         self.expansion.reset_for_new_match()
-- 
2.43.0


From 95b231fbf88b8313699b77583412e70c4d08d3f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:42 +0000
Subject: [PATCH 17/98] fix: allow ',' and '=' in names as documented

---
 jsgf/references.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jsgf/references.py b/jsgf/references.py
index a296f07..c622e6c 100644
--- a/jsgf/references.py
+++ b/jsgf/references.py
@@ -18,7 +18,7 @@ reserved_names = Combine(PPLiteral("NULL") ^ PPLiteral("VOID"))
 
 # This will match one or more alphanumeric Unicode characters and/or any of the
 # following special characters: +-:;,=|/\()[]@#%!^&~$
-base_name = Regex(r"[\w\+\-;:\|/\\\(\)\[\]@#%!\^&~\$]+", re.UNICODE)\
+base_name = Regex(r"[\w\+\-;:,=\|/\\\(\)\[\]@#%!\^&~\$]+", re.UNICODE)\
     .setName("base name")
 
 # A qualified name is a base name plus one or more base names joined by dots,
@@ -37,7 +37,7 @@ import_name = Combine((qualified_name + Optional(".*")) ^ (base_name + ".*"))
 # Grammar names cannot include semicolons because the declared grammar name parser
 # will gobble any semicolon after the name that isn't separated by whitespace,
 # leading to a parser error.
-_grammar_base_name = Regex(r"[\w\+\-:\|/\\\(\)\[\]@#%!\^&~\$]+", re.UNICODE)\
+_grammar_base_name = Regex(r"[\w\+\-:,=\|/\\\(\)\[\]@#%!\^&~\$]+", re.UNICODE)\
     .setName("base name")
 grammar_name = Combine(_grammar_base_name ^ Combine(
     _grammar_base_name + OneOrMore("." + _grammar_base_name)))\
-- 
2.43.0


From 7f6da34f75c2c97eaf4549fa8fb8136612259701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:46 +0000
Subject: [PATCH 18/98] fix: reject reserved names and names surrounded by
 whitespace

---
 jsgf/expansions.py |  4 +++-
 jsgf/grammars.py   |  4 ++--
 jsgf/references.py | 17 ++++++++++++++++-
 3 files changed, 21 insertions(+), 4 deletions(-)

diff --git a/jsgf/expansions.py b/jsgf/expansions.py
index d31c753..ce9b663 100644
--- a/jsgf/expansions.py
+++ b/jsgf/expansions.py
@@ -1114,7 +1114,9 @@ class BaseExpansionRef(references.BaseRef, Expansion):
 
     @staticmethod
     def valid(name):
-        return references.optionally_qualified_name.matches(name)
+        return references.is_valid_name(
+            references.optionally_qualified_name, name
+        )
 
     def compile(self, ignore_tags=False):
         self.validate_compilable()
diff --git a/jsgf/grammars.py b/jsgf/grammars.py
index b378222..df92f3b 100644
--- a/jsgf/grammars.py
+++ b/jsgf/grammars.py
@@ -178,7 +178,7 @@ class Import(references.BaseRef):
 
     @staticmethod
     def valid(name):
-        return references.import_name.matches(name)
+        return references.is_valid_name(references.import_name, name)
 
 
 class Grammar(references.BaseRef):
@@ -233,7 +233,7 @@ class Grammar(references.BaseRef):
 
     @staticmethod
     def valid(name):
-        return references.grammar_name.matches(name)
+        return references.is_valid_name(references.grammar_name, name)
 
     @property
     def case_sensitive(self):
diff --git a/jsgf/references.py b/jsgf/references.py
index c622e6c..4b67058 100644
--- a/jsgf/references.py
+++ b/jsgf/references.py
@@ -44,6 +44,21 @@ grammar_name = Combine(_grammar_base_name ^ Combine(
     .setName("grammar name")
 
 
+
+def is_valid_name(parser, name):
+    """
+    Whether a name is not reserved and can be parsed in its entirety.
+
+    Leading or trailing whitespace is not allowed, even though pyparsing skips it.
+
+    :param parser: pyparsing ParserElement
+    :param name: str
+    :returns: bool
+    """
+    return (parser.matches(name) and name == name.strip() and
+            not reserved_names.matches(name))
+
+
 class BaseRef(object):
     """
     Base class for JSGF rule and grammar references.
@@ -96,4 +111,4 @@ class BaseRef(object):
         :param name: str
         :returns: bool
         """
-        return base_name.matches(name) and not reserved_names.matches(name)
+        return is_valid_name(base_name, name)
-- 
2.43.0


From 52e400043b714b18d351fc29e53a121d6f98954f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:25 +0000
Subject: [PATCH 19/98] fix: escape backslashes in compiled tags before braces

---
 jsgf/expansions.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/jsgf/expansions.py b/jsgf/expansions.py
index ce9b663..8c29bd5 100644
--- a/jsgf/expansions.py
+++ b/jsgf/expansions.py
@@ -563,9 +563,10 @@ class Expansion(object):
             # Escape '{', '}' and '\' so that tags will be processed
             # properly if they have those characters.
             # This is suggested in the JSGF specification.
-            escaped = self.tag.replace("{", "\\{") \
-                .replace("}", "\\}") \
-                .replace("\\", "\\\\")
+            # Backslashes must be escaped first.
+            escaped = self.tag.replace("\\", "\\\\") \
+                .replace("{", "\\{") \
+                .replace("}", "\\}")
             return " { %s }" % escaped
 
     @staticmethod
-- 
2.43.0


From 80ff7d3bfbdd82f38cab71e52b9a74792e284947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:28 +0000
Subject: [PATCH 20/98] fix: parse tags with multiple words or escaped
 characters

---
 jsgf/parser.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/jsgf/parser.py b/jsgf/parser.py
index a0ba706..1f16c9c 100644
--- a/jsgf/parser.py
+++ b/jsgf/parser.py
@@ -325,6 +325,11 @@ def _ref_action(tokens):
         return NamedRuleRef(tokens[0])
 
 
+def _tag_text_action(tokens):
+    # Return one token with any escaped characters unescaped.
+    return re.sub(r"\\([\\{}])", r"\1", " ".join(tokens))
+
+
 def _atom_action(tokens):
     if len(tokens) == 2:
         weight = tokens.pop(0)
@@ -382,10 +387,11 @@ def get_exp_parser():
         .setParseAction(_atom_action)
 
     # Define tag text to one or more words defined by a regular expression.
-    # Escaped brace characters ('\{' or '\}') are allowed in tag text.
+    # Escaped brace and backslash characters ('\{', '\}' or '\\') are allowed in tag
+    # text.
     tag_text = OneOrMore(
-        Regex(r"([\w\-\\']|\\{|\\})+", re.UNICODE).setName("tag text")
-    )
+        Regex(r"(\\[\\{}]|[\w\-\\'])+", re.UNICODE).setName("tag text")
+    ).setParseAction(_tag_text_action)
     tag = lcurl + tag_text + rcurl
 
     # Define the root expansion as an atom plus additional alternatives, repeat or
-- 
2.43.0


From 902098d8b0fc157ea3cb47e8f112e0d054f65c6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:34 +0000
Subject: [PATCH 21/98] fix: parse alternatives starting with required
 groupings properly

---
 jsgf/parser.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/jsgf/parser.py b/jsgf/parser.py
index 1f16c9c..9268b98 100644
--- a/jsgf/parser.py
+++ b/jsgf/parser.py
@@ -300,10 +300,8 @@ def _transform_tokens(tokens):
     elif len(lst) == 2:
         # If the second expansion is an alternative set, place the first expansion
         # inside a sequence with the first child of the alternative set.
-        # Do not do this if the first expansion is a required grouping.
         # This handles rule expansions like "up <n> | left <n>".
-        RG, AS = RequiredGrouping, AlternativeSet
-        if not isinstance(lst[0], RG) and isinstance(lst[1], AS):
+        if isinstance(lst[1], AlternativeSet):
             child1 = lst[1].children.pop(0)
             seq = Sequence(lst[0], child1)
             lst[1].children.insert(0, seq)
-- 
2.43.0


From 45cd52e0c01cff356f8b27c7c420b71c4ce919aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:53 +0000
Subject: [PATCH 22/98] fix: parse weighted alternatives with sequences

---
 jsgf/parser.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/jsgf/parser.py b/jsgf/parser.py
index 9268b98..09e2b13 100644
--- a/jsgf/parser.py
+++ b/jsgf/parser.py
@@ -302,10 +302,22 @@ def _transform_tokens(tokens):
         # inside a sequence with the first child of the alternative set.
         # This handles rule expansions like "up <n> | left <n>".
         if isinstance(lst[1], AlternativeSet):
-            child1 = lst[1].children.pop(0)
-            seq = Sequence(lst[0], child1)
-            lst[1].children.insert(0, seq)
-            return lst[1]
+            first, alt_set = lst
+            child1 = alt_set.children[0]
+            if any(e is child1 for e in alt_set.weights):
+                raise GrammarError("weights cannot be used inside alternatives")
+
+            # Use the weight of the first expansion (if any) for the sequence.
+            weight = None
+            if isinstance(first, WeightedExpansion):
+                weight = first.weight
+                first = first.children.pop()
+
+            alt_set.children.pop(0)
+            alt_set.children.insert(0, Sequence(first, child1))
+            if weight is not None:
+                alt_set.set_weight(0, weight)
+            return alt_set
 
         # Otherwise return a sequence.
         else:
-- 
2.43.0


From 7d9792818e752ef9f5d69036276cc96619c89341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:09 +0000
Subject: [PATCH 23/98] fix: raise an error for repeat operators used on
 repeats

---
 jsgf/parser.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/jsgf/parser.py b/jsgf/parser.py
index 09e2b13..7e75b7d 100644
--- a/jsgf/parser.py
+++ b/jsgf/parser.py
@@ -287,6 +287,10 @@ def _transform_tokens(tokens):
         else:
             lst[0] = cls(lst[0])
 
+        # Raise an error if there are any more unary operators.
+        if "+" in lst or "*" in lst:
+            raise GrammarError("cannot repeat repeats without using parenthesises")
+
     # Handle atoms by returning the only token.
     if len(lst) == 1:
         return lst[0]
-- 
2.43.0


From 43f9bd6d5059aca79385d5698f6a763199fb5e4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:12 +0000
Subject: [PATCH 24/98] fix: parse multiple tags on the first weighted
 alternative

---
 jsgf/parser.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/jsgf/parser.py b/jsgf/parser.py
index 7e75b7d..5aeacd9 100644
--- a/jsgf/parser.py
+++ b/jsgf/parser.py
@@ -261,7 +261,13 @@ def _transform_tokens(tokens):
                 # I don't think this should happen...
                 raise GrammarError("tag cannot be attached to string %s" % previous)
 
-        if previous.tag:
+        weighted = isinstance(previous, WeightedExpansion)
+        if weighted and previous.child.tag:
+            # Wrap the weighted expansion's child instead.
+            grouping = RequiredGrouping(previous.children.pop())
+            grouping.tag = lst.pop(i+1)
+            lst[i-1] = WeightedExpansion(grouping, previous.weight)
+        elif previous.tag:
             # Support tagging syntax like 'text {tag1} {tag2} {tag3}' by wrapping
             # the expansion on the left in required groupings.
             previous = RequiredGrouping(previous)
-- 
2.43.0


From 51603d36ac35d2c46a99ec794ab1b3fb81eb5736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:15 +0000
Subject: [PATCH 25/98] fix: raise an error for alternatives with multiple
 weights

---
 jsgf/parser.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/jsgf/parser.py b/jsgf/parser.py
index 5aeacd9..29e9eb7 100644
--- a/jsgf/parser.py
+++ b/jsgf/parser.py
@@ -169,6 +169,9 @@ class ParsedAlternativeSet(AlternativeSet):
             if isinstance(e, AlternativeSet) and not e.tag:
                 # Add each child and preserve the weights.
                 if last_weight is not None:
+                    if any(x is e.children[0] for x in e.weights):
+                        raise GrammarError("alternatives cannot have multiple "
+                                           "weights")
                     weights.append((e.children[0], last_weight))
                     last_weight = None
 
-- 
2.43.0


From 317387bf5696e0e8cf3f3721fff003ec861a5acb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:40 +0000
Subject: [PATCH 26/98] fix: return False from valid_grammar for grammars with
 negative weights

---
 jsgf/parser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jsgf/parser.py b/jsgf/parser.py
index 29e9eb7..d31c62c 100644
--- a/jsgf/parser.py
+++ b/jsgf/parser.py
@@ -570,7 +570,8 @@ def valid_grammar(s):
     try:
         parse_grammar_string(s)
         return True
-    except (ParseException, GrammarError):
+    except (ParseException, GrammarError, TypeError):
+        # Note: a TypeError is raised for negative weights.
         # print(e)
         return False
 
-- 
2.43.0


From 002634b73bf5b0d6113a71bb0e14d760036227e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:43 +0000
Subject: [PATCH 27/98] fix: don't enable or disable rules that are not in the
 grammar

---
 jsgf/grammars.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/jsgf/grammars.py b/jsgf/grammars.py
index df92f3b..6a62fcb 100644
--- a/jsgf/grammars.py
+++ b/jsgf/grammars.py
@@ -706,11 +706,13 @@ class Grammar(references.BaseRef):
             rule_name = rule
         else:
             rule_name = rule.name
-            rule.enable()
 
         if rule_name not in self.rule_names:
             raise GrammarError("'%s' is not a rule in Grammar '%s'" % (rule, self))
 
+        if isinstance(rule, Rule):
+            rule.enable()
+
         # Enable the rule
         self.get_rule_from_name(rule_name).enable()
 
@@ -727,11 +729,13 @@ class Grammar(references.BaseRef):
             rule_name = rule
         else:
             rule_name = rule.name
-            rule.disable()
 
         if rule_name not in self.rule_names:
             raise GrammarError("'%s' is not a rule in Grammar '%s'" % (rule, self))
 
+        if isinstance(rule, Rule):
+            rule.disable()
+
         # Disable the rule
         self.get_rule_from_name(rule_name).disable()
 
-- 
2.43.0


From 719be6eda8935bbbe2d8dbed29a1b53807538b0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:46 +0000
Subject: [PATCH 28/98] fix: restore rule visibility if compiling as a root
 grammar fails

---
 jsgf/grammars.py | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/jsgf/grammars.py b/jsgf/grammars.py
index 6a62fcb..b77dc25 100644
--- a/jsgf/grammars.py
+++ b/jsgf/grammars.py
@@ -349,12 +349,17 @@ class Grammar(references.BaseRef):
         # something. Rules can compile to the empty string if they are disabled.
         names = []
         compiled_rules = ""
-        for rule in self.rules:
-            compiled = rule.compile()
-            if compiled:
-                compiled_rules += "%s\n" % compiled
-            if rule in visible_rules and compiled:
-                names.append(rule.name)
+        try:
+            for rule in self.rules:
+                compiled = rule.compile()
+                if compiled:
+                    compiled_rules += "%s\n" % compiled
+                if rule in visible_rules and compiled:
+                    names.append(rule.name)
+        finally:
+            # Set rule visibility back to normal
+            for rule in visible_rules:
+                rule.visible = True
 
         # If there are names, then build the root rule and add it and the compiled
         # rules to the result.
@@ -365,10 +370,6 @@ class Grammar(references.BaseRef):
             result += root_rule
             result += compiled_rules
 
-        # Set rule visibility back to normal
-        for rule in visible_rules:
-            rule.visible = True
-
         return result
 
     @property
-- 
2.43.0


From 95977f8a6cdae561f9fbe642bf3c3b7d1cdaa81c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:01 +0000
Subject: [PATCH 29/98] fix: allow comparing rules and grammars with other
 objects

---
 jsgf/grammars.py | 3 ++-
 jsgf/rules.py    | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/jsgf/grammars.py b/jsgf/grammars.py
index b77dc25..c628c90 100644
--- a/jsgf/grammars.py
+++ b/jsgf/grammars.py
@@ -437,7 +437,8 @@ class Grammar(references.BaseRef):
         return self.__str__()
 
     def __eq__(self, other):
-        return (self.name == other.name and self.jsgf_header == other.jsgf_header
+        return (isinstance(other, Grammar) and self.name == other.name
+                and self.jsgf_header == other.jsgf_header
                 and self.rules == other.rules and self.imports == other.imports
                 and self.case_sensitive == other.case_sensitive)
 
diff --git a/jsgf/rules.py b/jsgf/rules.py
index 5fcedd7..47223d1 100644
--- a/jsgf/rules.py
+++ b/jsgf/rules.py
@@ -397,7 +397,7 @@ class Rule(references.BaseRef):
         return len(self.dependent_rules)
 
     def __eq__(self, other):
-        return (self.name == other.name and
+        return (isinstance(other, Rule) and self.name == other.name and
                 self.expansion == other.expansion and
                 self.visible == other.visible and
                 self.case_sensitive == other.case_sensitive)
-- 
2.43.0


From b9b119123295141643b216174997766f8b9dfb9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:05 +0000
Subject: [PATCH 30/98] fix: drop the stored calculations of an expansion when
 they are invalidated

---
 jsgf/expansions.py | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/jsgf/expansions.py b/jsgf/expansions.py
index 8c29bd5..e345885 100644
--- a/jsgf/expansions.py
+++ b/jsgf/expansions.py
@@ -887,15 +887,10 @@ class Expansion(object):
         if not root._lookup_dict:
             return  # nothing to invalidate
 
+        # Calculations are stored using tuples of expansion IDs.
         for d in root._lookup_dict.values():
-            for k, v in d.items():
-                # Assume k is either an expansion or an iterable of expansions
-                if self is k or isinstance(k, (tuple, list)) and self in k:
-                    assert isinstance(d, dict)
-                    d.pop(k)
-                # Do something similar for values
-                elif self is v or isinstance(v, (tuple, list)) and self in k:
-                    d.pop(k)
+            for key in [key for key in d if id(self) in key]:
+                d.pop(key)
 
     def __str__(self):
         descendants = ", ".join(["%s" % c for c in self.children])
-- 
2.43.0


From 63e289f7a843bb3f4b189679e4bbeb3b93b3fed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:42 +0000
Subject: [PATCH 31/98] fix: don't pickle calculations stored by expansion ID

---
 jsgf/expansions.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/jsgf/expansions.py b/jsgf/expansions.py
index e345885..41de058 100644
--- a/jsgf/expansions.py
+++ b/jsgf/expansions.py
@@ -917,6 +917,9 @@ class Expansion(object):
     def __getstate__(self):
         state = self.__dict__.copy()
         state['_matcher_element'] = None
+
+        # Stored calculations use IDs, which are not valid for unpickled expansions.
+        state['_lookup_dict'] = None
         return state
 
     @property
-- 
2.43.0


From 7297c7de180ea41949f08e214b9d764cbf899704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:44 +0000
Subject: [PATCH 32/98] fix: attach the compiled tags of sequences to the whole
 sequence

---
 jsgf/expansions.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/jsgf/expansions.py b/jsgf/expansions.py
index 41de058..1348831 100644
--- a/jsgf/expansions.py
+++ b/jsgf/expansions.py
@@ -1318,8 +1318,11 @@ class Sequence(VariableChildExpansion):
             e.compile(ignore_tags) for e in self.children
         ])
 
-        # Return the sequence and the tag if there is one
+        # Return the sequence and the tag if there is one. Parenthesises are used if
+        # the tag would otherwise be attached to the last expansion in the sequence.
         if self.tag and not ignore_tags:
+            if len(self.children) > 1 or not isinstance(self.children[0], Literal):
+                seq = "(%s)" % seq
             return "%s%s" % (seq, self.compiled_tag)
         else:
             return seq
-- 
2.43.0


From 18cd7595151f50e7455c406d7b729ae17fb7920a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:24 +0000
Subject: [PATCH 33/98] fix: check the dependent rules of comparable rules when
 removing them

---
 jsgf/grammars.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/jsgf/grammars.py b/jsgf/grammars.py
index c628c90..c1f1c74 100644
--- a/jsgf/grammars.py
+++ b/jsgf/grammars.py
@@ -681,9 +681,14 @@ class Grammar(references.BaseRef):
             # Assume 'rule' is the name of a rule
             # Get the rule object with the name
             rule = self.get_rule_from_name(rule)
-        elif rule not in self.rules:
+
+        # Note that imported rules cannot be removed.
+        if rule not in self._rules:
             raise GrammarError("'%s' is not a rule in Grammar '%s'" % (rule, self))
 
+        # Use this grammar's rule object if the given object is only comparable to it.
+        rule = self._rules[self._rules.index(rule)]
+
         # Check if rule with name 'rule_name' is a dependency of another rule
         # in this grammar.
         if not ignore_dependent and rule.dependent_rules:
-- 
2.43.0


From b393c4413fbfb9e31aaf9d796923361e641a2a45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:27 +0000
Subject: [PATCH 34/98] fix: resolve (fully) qualified names of imported rules
 exactly

---
 jsgf/grammars.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/jsgf/grammars.py b/jsgf/grammars.py
index c1f1c74..661955b 100644
--- a/jsgf/grammars.py
+++ b/jsgf/grammars.py
@@ -628,9 +628,11 @@ class Grammar(references.BaseRef):
 
         # Check against imported rules.
         matching_rules = []
-        qualified_name = ".".join(name.split(".")[-2:])  # get only the last part
         for rule in imported_rules:
-            if name == rule.name or qualified_name == rule.qualified_name:
+            names = (rule.name, rule.qualified_name, rule.fully_qualified_name)
+
+            # The same rule can be imported by more than one import statement.
+            if name in names and not any(r is rule for r in matching_rules):
                 matching_rules.append(rule)
 
         # Return the matching imported rule if there is only one.
-- 
2.43.0


From 159554176dc0bfa8fc356ac975ad5a616be777a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:26 +0000
Subject: [PATCH 35/98] fix: remove and rearrange private rules of dictation
 grammars

---
 jsgf/ext/grammars.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/jsgf/ext/grammars.py b/jsgf/ext/grammars.py
index b471d07..c91141a 100644
--- a/jsgf/ext/grammars.py
+++ b/jsgf/ext/grammars.py
@@ -49,7 +49,7 @@ class DictationGrammar(Grammar):
         :returns: list
         """
         return list(set(
-                self._dictation_rules + self._jsgf_only_grammar.match_rules +
+                self._dictation_rules + self._jsgf_only_grammar.rules +
                 list(self._original_rule_map.values())
         ))
 
@@ -158,16 +158,20 @@ class DictationGrammar(Grammar):
         else:
             rule_name = rule.name
 
-        for k, v in list(self._original_rule_map.items()):
+        items = list(self._original_rule_map.items())
+        for k, v in items:
             if v.name == rule_name:
-                self._original_rule_map.pop(k)
-
                 if k in self._dictation_rules:
                     self._dictation_rules.remove(k)
 
-                elif k in self._jsgf_only_grammar.match_rules:
+                elif k in self._jsgf_only_grammar.rules:
                     self._jsgf_only_grammar.remove_rule(k, ignore_dependent)
 
+        # Only forget about the rules if they were removed.
+        self._original_rule_map = dict(
+            (k, v) for k, v in items if v.name != rule_name
+        )
+
     def _compile(self, compile_as_root_grammar):
         """
         Internal method to compile the grammar.
@@ -211,7 +215,7 @@ class DictationGrammar(Grammar):
         and the internal grammar used for JSGF only rules depending on whether a
         ``SequenceRule``'s current expansion is dictation-only or not.
         """
-        for rule in tuple(self._jsgf_only_grammar.match_rules):
+        for rule in self._jsgf_only_grammar.rules:
             if not isinstance(rule, SequenceRule):
                 continue
             if rule.current_is_dictation_only:
@@ -228,7 +232,7 @@ class DictationGrammar(Grammar):
         Reset each ``SequenceRule`` in this grammar so that they can accept matches
         again.
         """
-        for r in self._jsgf_only_grammar.match_rules + self._dictation_rules:
+        for r in self._jsgf_only_grammar.rules + self._dictation_rules:
             if isinstance(r, SequenceRule):
                 r.restart_sequence()
 
-- 
2.43.0


From 613cd97a790cf0c5b01bc44b0e92666b8b2d3f29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:12 +0000
Subject: [PATCH 36/98] fix: use the case sensitivity of dictation grammars for
 whole sequence rules

---
 jsgf/ext/grammars.py | 33 +++++++++++++++++++++++++++++++--
 jsgf/ext/rules.py    | 22 ++++++++++++++++++++++
 jsgf/rules.py        |  5 ++++-
 3 files changed, 57 insertions(+), 3 deletions(-)

diff --git a/jsgf/ext/grammars.py b/jsgf/ext/grammars.py
index c91141a..189dbb1 100644
--- a/jsgf/ext/grammars.py
+++ b/jsgf/ext/grammars.py
@@ -53,6 +53,31 @@ class DictationGrammar(Grammar):
                 list(self._original_rule_map.values())
         ))
 
+    @property
+    def case_sensitive(self):
+        """
+        Case sensitivity used when matching and compiling :class:`Literal` rule
+        expansions.
+
+        Setting this property will override the ``case_sensitive`` values for each
+        :class:`Rule` and :class:`Literal` expansion in the grammar or in any newly
+        added grammar rules. This includes internal generated rules.
+
+        :rtype: bool
+        :returns: case sensitivity
+        """
+        return self._case_sensitive
+
+    @case_sensitive.setter
+    def case_sensitive(self, value):
+        # Rules in the original rule map are changed, so it must be updated.
+        items = list(self._original_rule_map.items())
+        self._case_sensitive = bool(value)
+        self._jsgf_only_grammar.case_sensitive = value
+        for rule in self._dictation_rules + [r for item in items for r in item]:
+            rule.case_sensitive = value
+        self._original_rule_map = dict(items)
+
     @property
     def match_rules(self):
         """
@@ -81,6 +106,9 @@ class DictationGrammar(Grammar):
                 raise GrammarError("JSGF grammars cannot have multiple rules with "
                                    "the same name")
 
+        # Set case sensitivity.
+        rule.case_sensitive = self.case_sensitive
+
         # If the rule is not a dictation rule, add it to the JSGF only grammar and
         # the original rule map.
         if not dictation_in_expansion(rule.expansion):
@@ -111,7 +139,7 @@ class DictationGrammar(Grammar):
             else:
                 new_name = "%s_%d" % (rule.name, i)
             if not dictation_in_expansion(x):
-                r = Rule(new_name, rule.visible, x)
+                r = Rule(new_name, rule.visible, x, self.case_sensitive)
 
                 # Add this rule to the JSGF only grammar
                 self._jsgf_only_grammar.add_rule(r)
@@ -120,7 +148,8 @@ class DictationGrammar(Grammar):
                 # expanded rules
                 self._original_rule_map[r] = rule
             else:
-                seq_rule = SequenceRule(new_name, rule.visible, x)
+                seq_rule = SequenceRule(new_name, rule.visible, x,
+                                        self.case_sensitive)
                 self._original_rule_map[seq_rule] = rule
 
                 if not seq_rule.current_is_dictation_only:
diff --git a/jsgf/ext/rules.py b/jsgf/ext/rules.py
index d768af3..d362c13 100644
--- a/jsgf/ext/rules.py
+++ b/jsgf/ext/rules.py
@@ -110,6 +110,28 @@ class SequenceRule(Rule):
             if result:
                 return result
 
+    @property
+    def case_sensitive(self):
+        """
+        Case sensitivity used when matching and compiling :class:`Literal` rule
+        expansions.
+
+        Setting this property will override the ``case_sensitive`` value for each
+        :class:`Literal` in each sequence expansion, in the original expansion and in
+        referenced rules.
+
+        :rtype: bool
+        :returns: literal case sensitivity
+        """
+        return self._case_sensitive
+
+    @case_sensitive.setter
+    def case_sensitive(self, value):
+        self._set_case_sensitive(value, self.expansion)
+        if hasattr(self, "_sequence"):
+            for expansion in self._sequence + (self._original_expansion,):
+                self._set_case_sensitive(value, expansion)
+
     def compile(self, ignore_tags=False):
         result = ""
         if not self.refuse_matches and not self.current_is_dictation_only:
diff --git a/jsgf/rules.py b/jsgf/rules.py
index 47223d1..d79030f 100644
--- a/jsgf/rules.py
+++ b/jsgf/rules.py
@@ -176,6 +176,9 @@ class Rule(references.BaseRef):
 
     @case_sensitive.setter
     def case_sensitive(self, value):
+        self._set_case_sensitive(value, self.expansion)
+
+    def _set_case_sensitive(self, value, expansion):
         value = bool(value)
         self._case_sensitive = value
 
@@ -194,7 +197,7 @@ class Rule(references.BaseRef):
 
         # Recursively operate on the rule expansion tree. Do *not* operate on
         # referenced rules directly.
-        map_expansion(self.expansion, func, shallow=True)
+        map_expansion(expansion, func, shallow=True)
 
     def enable(self):
         """
-- 
2.43.0


From 44db335df9d85da6c28a4817156a72af009c3218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:15 +0000
Subject: [PATCH 37/98] fix: find the original rules of dictation grammar rules
 that have changed

---
 jsgf/ext/grammars.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/jsgf/ext/grammars.py b/jsgf/ext/grammars.py
index 189dbb1..b247330 100644
--- a/jsgf/ext/grammars.py
+++ b/jsgf/ext/grammars.py
@@ -166,6 +166,11 @@ class DictationGrammar(Grammar):
         :param rule: Rule
         :returns: Rule
         """
+        # Rules may have changed since being added, so try to find this one by identity
+        # first.
+        for k, v in self._original_rule_map.items():
+            if k is rule:
+                return v
         return self._original_rule_map[rule]
 
     def get_generated_rules(self, rule):
-- 
2.43.0


From 2a4314f90c6b4b928cab3a8cec0effd5f9153397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:17 +0000
Subject: [PATCH 38/98] fix: enable and disable the rules generated from
 dictation grammar rules

---
 jsgf/ext/grammars.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/jsgf/ext/grammars.py b/jsgf/ext/grammars.py
index b247330..7f8910f 100644
--- a/jsgf/ext/grammars.py
+++ b/jsgf/ext/grammars.py
@@ -206,6 +206,22 @@ class DictationGrammar(Grammar):
             (k, v) for k, v in items if v.name != rule_name
         )
 
+    def _get_rules_to_toggle(self, rule):
+        # Get the original rules with the given rule's name and their generated rules.
+        name = rule if isinstance(rule, string_types) else rule.name
+        return [r for item in self._original_rule_map.items()
+                if item[1].name == name for r in item]
+
+    def enable_rule(self, rule):
+        super(DictationGrammar, self).enable_rule(rule)
+        for r in self._get_rules_to_toggle(rule):
+            r.enable()
+
+    def disable_rule(self, rule):
+        super(DictationGrammar, self).disable_rule(rule)
+        for r in self._get_rules_to_toggle(rule):
+            r.disable()
+
     def _compile(self, compile_as_root_grammar):
         """
         Internal method to compile the grammar.
-- 
2.43.0


From 7302cd890445eda45c41394b8157db0c788044a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:31 +0000
Subject: [PATCH 39/98] fix: restore saved matches when overriding with None

---
 jsgf/expansions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jsgf/expansions.py b/jsgf/expansions.py
index 1348831..78cfe5d 100644
--- a/jsgf/expansions.py
+++ b/jsgf/expansions.py
@@ -168,9 +168,9 @@ def restore_current_matches(e, values, override_none=True):
     def restore(x):
         match_data = values.get(x, None)
         if match_data:
-            if not override_none and match_data["current_match"] is not None:
+            if override_none or match_data["current_match"] is not None:
                 x.current_match = match_data["current_match"]
-            if not override_none and match_data["matching_slice"] is not None:
+            if override_none or match_data["matching_slice"] is not None:
                 x.matching_slice = match_data["matching_slice"]
 
     map_expansion(e, restore)
-- 
2.43.0


From 51e71bfabd6d3704e4ea5382446610159ef8af48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:52 +0000
Subject: [PATCH 40/98] fix: don't compile the children of required groupings
 twice

---
 jsgf/expansions.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jsgf/expansions.py b/jsgf/expansions.py
index 78cfe5d..3b2da99 100644
--- a/jsgf/expansions.py
+++ b/jsgf/expansions.py
@@ -1722,7 +1722,8 @@ class RequiredGrouping(Sequence):
     Subclass of ``Sequence`` for wrapping multiple expansions in parenthesises.
     """
     def compile(self, ignore_tags=False):
-        super(RequiredGrouping, self).compile()
+        # Don't use Sequence.compile because that would compile each child twice.
+        super(Sequence, self).compile()
         grouping = " ".join([
             e.compile(ignore_tags) for e in self.children
         ])
-- 
2.43.0


From e07fed4975eb319c1d924fd1e2a67eb6c4bdad03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:11 +0000
Subject: [PATCH 41/98] fix: exclude trailing whitespace from matching slices

---
 jsgf/expansions.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/jsgf/expansions.py b/jsgf/expansions.py
index 3b2da99..8de25c7 100644
--- a/jsgf/expansions.py
+++ b/jsgf/expansions.py
@@ -777,7 +777,9 @@ class Expansion(object):
             else:
                 raise TypeError("postParse received invalid tokenlist %s"
                                 % tokenlist)
-            self.matching_slice = slice(loc - len(s), loc)
+            # Exclude whitespace skipped by elements that matched nothing.
+            end = len(instring[:loc].rstrip())
+            self.matching_slice = slice(end - len(s), end)
             return closure(instring, loc, tokenlist)
 
         element.postParse = postParse
-- 
2.43.0


From 09b1757c8e877dfdb06fe5f2061e36df025d92de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:19 +0000
Subject: [PATCH 42/98] fix: check every repetition of repetitions in had_match

---
 jsgf/expansions.py | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/jsgf/expansions.py b/jsgf/expansions.py
index 8de25c7..e740c63 100644
--- a/jsgf/expansions.py
+++ b/jsgf/expansions.py
@@ -799,11 +799,14 @@ class Expansion(object):
         if self.current_match:
             return True
 
+        # Check each repetition ancestor; only the outermost one has the data for
+        # repetitions of repetitions.
         rep = self.repetition_ancestor
-        if rep and any(rep.get_expansion_matches(self)):
-            return True
-        else:
-            return False
+        while rep:
+            if rep.had_expansion_match(self):
+                return True
+            rep = rep.repetition_ancestor
+        return False
 
     def _init_lookup(self):
         # Initialises the lookup dictionary for the root expansion.
@@ -1565,12 +1568,21 @@ class Repeat(SingleChildExpansion):
         else:
             return []
 
+    def had_expansion_match(self, e):
+        """
+        Whether an expansion was matched during any repetition.
+
+        :returns: bool
+        """
+        return any(x is e and had_match for values in self._repetitions_matched
+                   for x, _, _, had_match in values)
+
     @staticmethod
     def _find_match_data(values, e):
         # Find an expansion's match data by identity because comparable expansions
         # in a repetition, e.g. the first and last literals in '(a b a)+', can have
         # different data.
-        return next((match, slice_) for x, match, slice_ in values if x is e)
+        return next(data[1:] for data in values if data[0] is e)
 
     def _parse_action(self, tokens):
         # Call the super method to set current_match.
@@ -1580,7 +1592,7 @@ class Repeat(SingleChildExpansion):
         if self._repetitions_matched:
             # Restore the last repetition's match values.
             last = self._repetitions_matched[len(self._repetitions_matched) - 1]
-            for x, match, slice_ in last:
+            for x, match, slice_, _ in last:
                 if match is not None:
                     x.current_match = match
                 if slice_ is not None:
@@ -1594,7 +1606,7 @@ class Repeat(SingleChildExpansion):
                 # Add current match values to the _repetitions_matched list.
                 self._repetitions_matched.append(flat_map_expansion(
                     self.child,
-                    lambda x: (x, x.current_match, x.matching_slice)
+                    lambda x: (x, x.current_match, x.matching_slice, x.had_match)
                 ))
 
                 # Wipe current match values for the next repetition (if any).
-- 
2.43.0


From 1b90ec16f9b12096399a97d862f1d422091b746a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:37 +0000
Subject: [PATCH 43/98] fix: newline after a short grammar header is a line
 ending

---
 jsgf/parser.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/jsgf/parser.py b/jsgf/parser.py
index d31c62c..6526e77 100644
--- a/jsgf/parser.py
+++ b/jsgf/parser.py
@@ -493,9 +493,12 @@ def get_grammar_parser():
     def optional_header_action(tokens):
         return tokens if tokens else [""]
 
-    charset_name = Optional(word.copy()).setName("character set") \
+    # Do not skip newlines before these words. The newline after the header is a line
+    # ending if there isn't a semicolon.
+    header_word = word.copy().setWhitespaceChars(" \t\r")
+    charset_name = Optional(header_word.copy()).setName("character set") \
         .setParseAction(optional_header_action)
-    language_name = Optional(word.copy()).setName("language name") \
+    language_name = Optional(header_word.copy()).setName("language name") \
         .setParseAction(optional_header_action)
 
     header_line = (Suppress(CaselessLiteral("#JSGF")) + version_no + charset_name +
-- 
2.43.0


From 58e3a00872102af28013e4c5c9ed552aa2d1429c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:40 +0000
Subject: [PATCH 44/98] fix: allow a comment at the end of a grammar string
 without a newline

---
 jsgf/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jsgf/parser.py b/jsgf/parser.py
index 6526e77..20a988d 100644
--- a/jsgf/parser.py
+++ b/jsgf/parser.py
@@ -514,7 +514,7 @@ def get_grammar_parser():
     # Define the grammar parser element, then set its name and parse action.
     parser = (header_line + name_line + ZeroOrMore(import_statement) +
               OneOrMore(rule_parser))
-    parser.setName("grammar").setParseAction(_make_grammar)
+    parser.setName("grammar").setParseAction(_make_grammar).ignore(cppStyleComment)
     return parser
 
 
-- 
2.43.0


From 0b959b078ab7a980e9f40974c46a099bb7721273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:23 +0000
Subject: [PATCH 45/98] fix: rule definitions can be delimited by newlines only

---
 jsgf/parser.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/jsgf/parser.py b/jsgf/parser.py
index 20a988d..1ef2bff 100644
--- a/jsgf/parser.py
+++ b/jsgf/parser.py
@@ -101,7 +101,7 @@ from .expansions import (AlternativeSet, KleeneStar, Literal, NamedRuleRef, Null
                          VoidRef, SingleChildExpansion)
 from .grammars import Grammar, Import
 from .references import (optionally_qualified_name, import_name, grammar_name,
-                         word, words)
+                         word)
 from .rules import Rule
 
 
@@ -388,12 +388,19 @@ def get_exp_parser():
     # Define some other characters that do appear in the output.
     star, plus, pipe, lcurl, rcurl = map(PPLiteral, "*+|{}")
 
+    # Define references and literals such that they do not include the start of the
+    # next rule definition, e.g. "public <rule> =". This is necessary because rule
+    # definitions can be delimited by newlines only.
+    ref = langle + optionally_qualified_name + rangle
+    equals = PPLiteral("=")
+    not_next_rule = ~(CaselessKeyword("public") + ref + equals)
+
     # Define literals.
-    literal = words.copy()\
+    literal = OneOrMore(not_next_rule + word).setName("literal")\
         .setParseAction(lambda tokens: Literal(" ".join(tokens)))
 
     # Define rule references.
-    rule_ref = (langle + optionally_qualified_name + rangle)\
+    rule_ref = (ref + ~equals)\
         .setName("rule reference").setParseAction(_ref_action)
 
     # Define JSGF weights.
-- 
2.43.0


From f4fb74037737ef2eefa9fefaf5047915c3268362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:40 +0000
Subject: [PATCH 46/98] fix: setting case sensitivity ignores references to
 rules that cannot be imported

---
 jsgf/rules.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jsgf/rules.py b/jsgf/rules.py
index d79030f..e4d9c0c 100644
--- a/jsgf/rules.py
+++ b/jsgf/rules.py
@@ -5,7 +5,7 @@ This module contains classes for compiling and matching JSpeech Grammar Format
 rules.
 """
 
-from .errors import GrammarError
+from .errors import GrammarError, JSGFImportError
 from . import references
 from .expansions import Expansion, Literal, NamedRuleRef, filter_expansion, \
     map_expansion, TraversalOrder
@@ -192,7 +192,7 @@ class Rule(references.BaseRef):
                 # don't resolve to actual Rule objects.
                 try:
                     e.referenced_rule.case_sensitive = value
-                except GrammarError:
+                except (GrammarError, JSGFImportError):
                     pass
 
         # Recursively operate on the rule expansion tree. Do *not* operate on
-- 
2.43.0


From 116c015ac6d5e7af03d882115eae3ab586ec897e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:53 +0000
Subject: [PATCH 47/98] fix: update matcher elements of references when a rule
 is removed

---
 jsgf/grammars.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/jsgf/grammars.py b/jsgf/grammars.py
index 661955b..ad00eff 100644
--- a/jsgf/grammars.py
+++ b/jsgf/grammars.py
@@ -697,6 +697,10 @@ class Grammar(references.BaseRef):
             raise GrammarError("Cannot remove rule '%s' as it is referenced by "
                                "another rule." % rule)
 
+        # Invalidate the matcher element of the rule's expansion so that references to
+        # the rule are updated.
+        rule.expansion.invalidate_matcher()
+
         self._rules.remove(rule)
         rule.grammar = None
 
-- 
2.43.0


From 8744db3313d1c8572b7813c010508c04611b9a86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:34 +0000
Subject: [PATCH 48/98] fix: update the matcher element when the name of a
 reference is changed

---
 jsgf/expansions.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/jsgf/expansions.py b/jsgf/expansions.py
index e740c63..9a663e5 100644
--- a/jsgf/expansions.py
+++ b/jsgf/expansions.py
@@ -1113,8 +1113,22 @@ class BaseExpansionRef(references.BaseRef, Expansion):
     """
     def __init__(self, name):
         # Call both super constructors
-        references.BaseRef.__init__(self, name)
         Expansion.__init__(self, [])
+        references.BaseRef.__init__(self, name)
+
+    @property
+    def name(self):
+        """
+        The referenced name.
+
+        :returns: str
+        """
+        return self._name
+
+    @name.setter
+    def name(self, value):
+        references.BaseRef.name.fset(self, value)
+        self.invalidate_matcher()
 
     @staticmethod
     def valid(name):
-- 
2.43.0


From 66bdf92b527c272fc96a8b880844618dbb7ff8ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:47 +0000
Subject: [PATCH 49/98] fix: keep the weights of alternatives that replaced
 comparable ones

---
 jsgf/expansions.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/jsgf/expansions.py b/jsgf/expansions.py
index 9a663e5..1f933a9 100644
--- a/jsgf/expansions.py
+++ b/jsgf/expansions.py
@@ -1827,7 +1827,11 @@ class AlternativeSet(VariableChildExpansion):
                 if c.compile() == compiled_child:
                     child = c
 
-        self.weights[child] = weight
+        # Replace the key if it is only comparable to the alternative. Otherwise the
+        # weight would be lost if the alternative is changed later.
+        weights = self.weights
+        weights.pop(child, None)
+        weights[child] = weight
 
         # Invalidate this expansion. This is a quick procedure if the matcher
         # element hasn't been initialised.
-- 
2.43.0


From 59d1a8c60b30940be49da7bf2851087f59e3d86c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:36 +0000
Subject: [PATCH 50/98] fix: use the weights of alternatives instead of those
 of removed ones

---
 jsgf/expansions.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/jsgf/expansions.py b/jsgf/expansions.py
index 1f933a9..3dcd862 100644
--- a/jsgf/expansions.py
+++ b/jsgf/expansions.py
@@ -1782,9 +1782,13 @@ class AlternativeSet(VariableChildExpansion):
         """
         # Alternatives may have changed since their weights were set, so update the
         # dictionary to ensure that they can be found with their current hashes.
-        items = list(self._weights.items())
+        # Add current alternatives last so that they are used instead of comparable
+        # expansions that were removed.
+        items = sorted(self._weights.items(), key=lambda x: x[0].parent is self)
         self._weights.clear()
-        self._weights.update(items)
+        for child, weight in items:
+            self._weights.pop(child, None)
+            self._weights[child] = weight
         return self._weights
 
     @weights.setter
-- 
2.43.0


From 692f8a294c9ea6a1a97ca5646c2b55806de01b48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:49 +0000
Subject: [PATCH 51/98] fix: update matcher elements of nested repetitions if
 other branches change

---
 jsgf/expansions.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/jsgf/expansions.py b/jsgf/expansions.py
index 3dcd862..2414375 100644
--- a/jsgf/expansions.py
+++ b/jsgf/expansions.py
@@ -516,7 +516,9 @@ class Expansion(object):
                 self._parent.invalidate_matcher()
 
             # Set the parent and invalidate the matcher element for this expansion.
+            # Elements of descendants might depend on their ancestors.
             self._parent = value
+            self._discard_descendant_matchers()
             self.invalidate_matcher()
 
             # Also invalidate the new parent as necessary. This is a quick operation
@@ -732,6 +734,16 @@ class Expansion(object):
             for r in self.rule.grammar.rules:
                 map_expansion(r.expansion, process, shallow=True)
 
+    def _discard_descendant_matchers(self):
+        # Discard the parser element of each descendant. Descendants don't have one
+        # to discard if this expansion doesn't.
+        def discard(x):
+            x._matcher_element = None
+
+        if self._matcher_element:
+            for child in self.children:
+                map_expansion(child, discard, shallow=True)
+
     @property
     def matcher_element(self):
         """
@@ -1613,6 +1625,12 @@ class Repeat(SingleChildExpansion):
                     x.matching_slice = slice_
         return tokens
 
+    def invalidate_matcher(self):
+        # The elements of nested repetitions depend on whether there are any other
+        # branches, so discard them too.
+        self._discard_descendant_matchers()
+        super(Repeat, self).invalidate_matcher()
+
     def _make_matcher_element(self):
         # Define an extra parse action for the child's matcher element.
         def f(tokens):
-- 
2.43.0


From 4ed4466fd1b8a51758c33715dcf3bb7a67ef9131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:44 +0000
Subject: [PATCH 52/98] fix: unpickle alternatives of weighted alternative sets

---
 jsgf/expansions.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/jsgf/expansions.py b/jsgf/expansions.py
index 2414375..8b606a2 100644
--- a/jsgf/expansions.py
+++ b/jsgf/expansions.py
@@ -1791,6 +1791,13 @@ class AlternativeSet(VariableChildExpansion):
         self._weights = {}
         super(AlternativeSet, self).__init__(*expansions)
 
+    def __getstate__(self):
+        # Alternatives can't be used as dictionary keys during unpickling because they
+        # might not be complete, so pickle a list of pairs instead.
+        state = super(AlternativeSet, self).__getstate__()
+        state['_weights'] = list(self.weights.items())
+        return state
+
     @property
     def weights(self):
         """
@@ -1802,6 +1809,8 @@ class AlternativeSet(VariableChildExpansion):
         # dictionary to ensure that they can be found with their current hashes.
         # Add current alternatives last so that they are used instead of comparable
         # expansions that were removed.
+        if isinstance(self._weights, list):  # this expansion was unpickled
+            self._weights = dict(self._weights)
         items = sorted(self._weights.items(), key=lambda x: x[0].parent is self)
         self._weights.clear()
         for child, weight in items:
-- 
2.43.0


From 36b95996a88108975ba107740e332282d24febe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:39 +0000
Subject: [PATCH 53/98] fix: don't share weighted alternatives between deep
 copies

---
 jsgf/expansions.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/jsgf/expansions.py b/jsgf/expansions.py
index 8b606a2..27fe325 100644
--- a/jsgf/expansions.py
+++ b/jsgf/expansions.py
@@ -1889,7 +1889,14 @@ class AlternativeSet(VariableChildExpansion):
 
     def __deepcopy__(self, memo):
         result = super(AlternativeSet, self).__deepcopy__(memo)
-        result.weights = dict(self.weights)
+
+        # Use the copied alternatives as keys, so that the copy's weights don't depend
+        # on the original alternatives.
+        copies = dict(zip(self.children, result.children))
+        result.weights = dict(
+            (copies.get(child, child), weight)
+            for child, weight in self.weights.items()
+        )
         return result
 
     def _validate_weights(self):
-- 
2.43.0


From 97d51bcee5493708f0796de3abddd3aef08b2493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:16 +0000
Subject: [PATCH 54/98] fix: keep the case sensitivity of copied dictation
 expansions

---
 jsgf/ext/expansions.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/jsgf/ext/expansions.py b/jsgf/ext/expansions.py
index 3c3ff15..e417713 100644
--- a/jsgf/ext/expansions.py
+++ b/jsgf/ext/expansions.py
@@ -145,6 +145,7 @@ class Dictation(Literal):
 
     def __copy__(self):
         e = type(self)()
+        e.case_sensitive = self.case_sensitive
         e.tag = self.tag
         return e
 
-- 
2.43.0


From f61975222cb98dc381e71a3ae23b0541e3137761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:30 +0000
Subject: [PATCH 55/98] fix: compare the original expansions of sequence rules

---
 jsgf/ext/rules.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/jsgf/ext/rules.py b/jsgf/ext/rules.py
index d362c13..42c0465 100644
--- a/jsgf/ext/rules.py
+++ b/jsgf/ext/rules.py
@@ -64,6 +64,12 @@ class SequenceRule(Rule):
         return hash("%s%s%s" % (hash(self.name), hash(self.visible),
                                 hash(self.original_expansion)))
 
+    def __eq__(self, other):
+        # Current expansions can be comparable even if the rules are different.
+        return (isinstance(other, SequenceRule) and
+                super(SequenceRule, self).__eq__(other) and
+                self.original_expansion == other.original_expansion)
+
     @property
     def expansion_sequence(self):
         """
-- 
2.43.0


From 01e7dad3a004082f190c039401f6314012744ac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:41 +0000
Subject: [PATCH 56/98] fix: match repeated references to repeats in joined
 trees

---
 jsgf/expansions.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/jsgf/expansions.py b/jsgf/expansions.py
index 27fe325..eb07d99 100644
--- a/jsgf/expansions.py
+++ b/jsgf/expansions.py
@@ -1671,14 +1671,14 @@ class Repeat(SingleChildExpansion):
         rep = self.repetition_ancestor
         if rep:
             # Check if there are no other branches.
-            c = rep.child
+            p = self.parent
             only_branch = True
-            while c is not self:
-                if len(c.children) > 1:
+            while p is not rep:
+                if len(p.children) > 1:
                     only_branch = False
                     break
                 else:
-                    c = c.children[0]
+                    p = p.parent
 
             # Use an And element instead if self is the only branch because
             # it makes no sense to repeat a repeat like this!
-- 
2.43.0


From 7689053fa3119e809f5a84a2b4e18bc34b35a7a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:16:07 +0000
Subject: [PATCH 57/98] fix: update matcher elements of references when a rule
 is renamed

---
 jsgf/rules.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/jsgf/rules.py b/jsgf/rules.py
index e4d9c0c..f756d9b 100644
--- a/jsgf/rules.py
+++ b/jsgf/rules.py
@@ -49,6 +49,24 @@ class Rule(references.BaseRef):
         self._case_sensitive = case_sensitive
         self.case_sensitive = case_sensitive
 
+    @property
+    def name(self):
+        """
+        The name of this rule.
+
+        :returns: str
+        """
+        return self._name
+
+    @name.setter
+    def name(self, value):
+        # Invalidate the matcher elements of any references to this rule because they
+        # don't reference it any more.
+        if getattr(self, "_expansion", None):
+            self._expansion.invalidate_matcher()
+
+        references.BaseRef.name.fset(self, value)
+
     @property
     def expansion(self):
         """
-- 
2.43.0


From e0df9c483d1bf0663f50b13bb80e96915ecee841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:39 +0000
Subject: [PATCH 58/98] fix: share import environments with rules referenced by
 fully-qualified names

---
 jsgf/grammars.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/jsgf/grammars.py b/jsgf/grammars.py
index ad00eff..27d2791 100644
--- a/jsgf/grammars.py
+++ b/jsgf/grammars.py
@@ -649,7 +649,12 @@ class Grammar(references.BaseRef):
         # If the name is a fully-qualified rule name, then try to resolve it.
         if name.count(".") > 0:
             import_ = Import(name)
-            return import_.resolve(self._import_env)
+            rule = import_.resolve(self._import_env)
+
+            # Share this grammar's import environment with the rule's grammar so that
+            # it doesn't import other copies of the same rules.
+            self.resolve_imports()
+            return rule
 
         # No local or imported rule matched. This is an error.
         raise GrammarError("%r is not a local or imported rule in Grammar %r"
-- 
2.43.0


From 6a912221b3a91f7463e9f9cd04f02197e7ed1720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:00 +0000
Subject: [PATCH 59/98] fix: match case-insensitive literals with letters that
 have no single upper case letter

---
 jsgf/expansions.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/jsgf/expansions.py b/jsgf/expansions.py
index eb07d99..c4811d0 100644
--- a/jsgf/expansions.py
+++ b/jsgf/expansions.py
@@ -1368,6 +1368,18 @@ class Sequence(VariableChildExpansion):
         return super(Sequence, self).__hash__()
 
 
+class _CaselessLiteral(pyparsing.CaselessLiteral):
+    """
+    Parser element for case-insensitive literals. Unlike the base class, this also works
+    for text with a different length in upper case, e.g. 'stra\u00dfe'.
+    """
+    def parseImpl(self, instring, loc, doActions=True):
+        end = loc + len(self.returnString)
+        if end <= len(instring) and instring[loc:end].upper() == self.match:
+            return end, self.returnString
+        raise pyparsing.ParseException(instring, loc, self.errmsg, self)
+
+
 class Literal(Expansion):
     """
     Expansion class for literals.
@@ -1487,7 +1499,7 @@ class Literal(Expansion):
         if self.case_sensitive:
             matcher_cls = pyparsing.Literal
         else:
-            matcher_cls = pyparsing.CaselessLiteral
+            matcher_cls = _CaselessLiteral
         return self._set_matcher_element_attributes(matcher_cls(text))
 
     def __eq__(self, other):
-- 
2.43.0


From 863e8bf0a0aef48a935cb028b6da692c616e5a2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:45 +0000
Subject: [PATCH 60/98] fix: exclude trailing whitespace from matching parts

---
 jsgf/rules.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jsgf/rules.py b/jsgf/rules.py
index f756d9b..df5678d 100644
--- a/jsgf/rules.py
+++ b/jsgf/rules.py
@@ -309,7 +309,8 @@ class Rule(references.BaseRef):
         result = None
         for match in self.expansion.matcher_element.scanString(speech):
             _, start, end = match
-            result = speech[start:end]
+            # Exclude whitespace skipped by elements that matched nothing.
+            result = speech[start:end].rstrip()
             break
 
         return result
-- 
2.43.0


From 53928e61ea9aacbb1df51a6544abc4435b7ffdd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:13 +0000
Subject: [PATCH 61/98] fix: allow weights of unknown alternatives

---
 jsgf/expansions.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jsgf/expansions.py b/jsgf/expansions.py
index c4811d0..a5a7a8c 100644
--- a/jsgf/expansions.py
+++ b/jsgf/expansions.py
@@ -1823,7 +1823,8 @@ class AlternativeSet(VariableChildExpansion):
         # expansions that were removed.
         if isinstance(self._weights, list):  # this expansion was unpickled
             self._weights = dict(self._weights)
-        items = sorted(self._weights.items(), key=lambda x: x[0].parent is self)
+        items = sorted(self._weights.items(),
+                       key=lambda x: getattr(x[0], "parent", None) is self)
         self._weights.clear()
         for child, weight in items:
             self._weights.pop(child, None)
-- 
2.43.0


From 5957ad7b2595f1431a696201ca8c2d4bb2ead967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:20 +0000
Subject: [PATCH 62/98] fix: keep optional alternatives and duplicates when
 expanding dictation expansions

---
 jsgf/ext/expansions.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/jsgf/ext/expansions.py b/jsgf/ext/expansions.py
index e417713..70b6250 100644
--- a/jsgf/ext/expansions.py
+++ b/jsgf/ext/expansions.py
@@ -405,9 +405,12 @@ def expand_dictation_expansion(expansion):
             ancestor = copy_parent
 
             # Traverse up the parent tree and remove copy_x or one of its ancestors
-            # where there is another child
+            # where there is another child. An alternative set with an alternative
+            # that matches nothing is removed itself; the other alternatives are in
+            # the copies with replacements.
             while ancestor:
-                if len(ancestor.children) > 1:
+                if (len(ancestor.children) > 1 and
+                        not isinstance(ancestor, AlternativeSet)):
                     ancestor.children.remove(copy_x)
                     break
 
@@ -444,8 +447,9 @@ def expand_dictation_expansion(expansion):
 
         for copy in copies:
             next_unprocessed = first_unprocessed_expansion(copy)
-            if not next_unprocessed and copy not in result:
-                result.append(copy)
+            if not next_unprocessed:
+                if copy not in result:
+                    result.append(copy)
             else:
                 # Process the next unprocessed expansion and add the results.
                 # There are duplicates sometimes, so don't add them.
-- 
2.43.0


From b4ba14d656305f1efd7e648a88bcd1ceab1d21ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:12 +0000
Subject: [PATCH 63/98] fix: use weights when expanding dictation expansions

---
 jsgf/ext/expansions.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/jsgf/ext/expansions.py b/jsgf/ext/expansions.py
index 70b6250..f1198f2 100644
--- a/jsgf/ext/expansions.py
+++ b/jsgf/ext/expansions.py
@@ -382,17 +382,27 @@ def expand_dictation_expansion(expansion):
             # the AlternativeSet currently being processed.
             dictation_children = []  # again, not necessarily only dictation.
             jsgf_only_children = []
+            weights = current.weights
+            new_weights = []
             for child in current.children:
+                # Skip alternatives that can never be matched.
+                weight = weights.get(child)
+                if weight == 0:
+                    continue
+
                 # Add a deep copy of each child to one of the above lists.
                 if dictation_in_expansion(child):
                     dictation_children.append(child.copy())
                 else:
                     jsgf_only_children.append(child.copy())
+                    if weight is not None:
+                        new_weights.append((jsgf_only_children[-1], weight))
 
             if len(jsgf_only_children) == 1:
                 replacements = jsgf_only_children
             elif len(jsgf_only_children) > 1:
                 replacements = [AlternativeSet(*jsgf_only_children)]
+                replacements[0].weights = new_weights
             else:  # no JSGF children
                 replacements = []
             replacements.extend(dictation_children)
@@ -438,8 +448,14 @@ def expand_dictation_expansion(expansion):
             copy_parent = copy_x.parent
             if copy_parent:
                 index = copy_parent.children.index(copy_x)
+                weight = getattr(copy_parent, "weights", {}).pop(copy_x, None)
                 copy_parent.children.remove(copy_x)
                 copy_parent.children.insert(index, replacement)
+
+                # The replacement gets the weight of what it replaces.
+                if weight is not None:
+                    weight = max(weight, copy_parent.weights.get(replacement, 0))
+                    copy_parent.set_weight(replacement, weight)
             else:
                 # copy is the root expansion.
                 copy = replacement
-- 
2.43.0


From 66fec3055e0446eacc18a874be0e7bf08f83c50e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:42 +0000
Subject: [PATCH 64/98] fix: ignore alternatives with weight 0 when expanding
 dictation expansions

---
 jsgf/ext/expansions.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/jsgf/ext/expansions.py b/jsgf/ext/expansions.py
index f1198f2..07a4315 100644
--- a/jsgf/ext/expansions.py
+++ b/jsgf/ext/expansions.py
@@ -351,8 +351,12 @@ def expand_dictation_expansion(expansion):
         if isinstance(e, NamedRuleRef):
             return first_unprocessed_expansion(e.referenced_rule.expansion)
         else:
-            # Traverse in post order, i.e. children first, then e.
+            # Traverse in post order, i.e. children first, then e. Alternatives that
+            # can never be matched are not traversed.
+            weights = getattr(e, "weights", {})
             for child in e.children:
+                if weights.get(child) == 0:
+                    continue
                 result = first_unprocessed_expansion(child)
                 if result:
                     return result
-- 
2.43.0


From 1ab08ce738239c65d338ef4a927cca4e6f44f671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:11 +0000
Subject: [PATCH 65/98] fix: clear all match data when restarting sequence
 rules

---
 jsgf/ext/rules.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jsgf/ext/rules.py b/jsgf/ext/rules.py
index 42c0465..af47aeb 100644
--- a/jsgf/ext/rules.py
+++ b/jsgf/ext/rules.py
@@ -220,7 +220,7 @@ class SequenceRule(Rule):
         self._current_index = 0
         self._set_expansion_to_current()
         for expansion in self._sequence:
-            expansion.reset_match_data()
+            expansion.reset_for_new_match()
 
     def matches(self, speech):
         """
-- 
2.43.0


From 3a64fa4bcc4f7c60a570ee34fa3a096aac112123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:37 +0000
Subject: [PATCH 66/98] fix: reset the original expansions of sequence rules
 before setting their matches

---
 jsgf/ext/rules.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/jsgf/ext/rules.py b/jsgf/ext/rules.py
index af47aeb..d66a1e8 100644
--- a/jsgf/ext/rules.py
+++ b/jsgf/ext/rules.py
@@ -282,6 +282,9 @@ class SequenceRule(Rule):
         def is_dictation(x):
             return isinstance(x, Dictation)
 
+        # Don't keep any data from previous matches.
+        expansion.reset_for_new_match()
+
         # Collect Dictation in expansion and in all expansions in the
         # sequence
         dictation_in_seq = []
-- 
2.43.0


From ec025fd505876efc5d5f6c86472fa3866925f382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:29 +0000
Subject: [PATCH 67/98] fix: keep weights and tags of dictation-free expansions
 in expansion sequences

---
 jsgf/ext/expansions.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/jsgf/ext/expansions.py b/jsgf/ext/expansions.py
index 07a4315..61370fc 100644
--- a/jsgf/ext/expansions.py
+++ b/jsgf/ext/expansions.py
@@ -539,6 +539,9 @@ def calculate_expansion_sequence(expansion, should_deepcopy=True):
                 result.extend(calculate_sequence(e.referenced_rule.expansion))
             else:
                 result.append(e)
+        elif no_dictation_in_expansion(e):
+            # Use dictation-free expansions as they are.
+            result.append(e)
         else:
             # Partition the children of the expansion so that dictation
             # expansions are placed after groups of normal expansions
-- 
2.43.0


From b6e6cf5080233dfd696caf6ace2e252de01605b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:45 +0000
Subject: [PATCH 68/98] fix: don't use other rules' dictation matches when
 grafting sequence matches

---
 jsgf/ext/rules.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/jsgf/ext/rules.py b/jsgf/ext/rules.py
index d66a1e8..a5c04d8 100644
--- a/jsgf/ext/rules.py
+++ b/jsgf/ext/rules.py
@@ -294,13 +294,20 @@ class SequenceRule(Rule):
             dictation_in_seq.extend(filter_expansion(
                 e, is_dictation, TraversalOrder.PostOrder))
 
+        # Don't use matches from previous calls.
+        for e in dictation_in_exp:
+            e.use_current_match = False
+
         # Set current_match of Dictation expansions in the given expansion to
-        # current_match values of their respective counterparts in the sequence.
-        for e1, e2 in zip(dictation_in_seq, dictation_in_exp):
-            assert isinstance(e1, Dictation) and isinstance(e2, Dictation)
-            # Stop the matches(speech) method from changing current_match
-            e2.use_current_match = True
-            e2.current_match = e1.current_match
+        # current_match values of their respective counterparts in the sequence. There
+        # are no counterparts if the rule's expansion is only one of those expanded
+        # from the given expansion.
+        if len(dictation_in_seq) == len(dictation_in_exp):
+            for e1, e2 in zip(dictation_in_seq, dictation_in_exp):
+                assert isinstance(e1, Dictation) and isinstance(e2, Dictation)
+                # Stop the matches(speech) method from changing current_match
+                e2.use_current_match = True
+                e2.current_match = e1.current_match
 
         # Then collect expansions with current_match set.
         matching = []
-- 
2.43.0


From a623094ad7f7ea4424029544638f2179ce09db06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:02 +0000
Subject: [PATCH 69/98] fix: check generated rule names before adding rules to
 a DictationGrammar

---
 jsgf/ext/grammars.py | 38 +++++++++++++++++++-------------------
 1 file changed, 19 insertions(+), 19 deletions(-)

diff --git a/jsgf/ext/grammars.py b/jsgf/ext/grammars.py
index 7f8910f..97caa0c 100644
--- a/jsgf/ext/grammars.py
+++ b/jsgf/ext/grammars.py
@@ -130,34 +130,34 @@ class DictationGrammar(Grammar):
         # Expand the rule's expansion into a list of 1 or more expansions.
         expanded = expand_dictation_expansion(rule.expansion)
 
-        # Otherwise create new rules from the resulting expansions and add each to
-        # either dictation_rules or _jsgf_only_grammar
+        # Otherwise create new rules from the resulting expansions.
+        generated = []
         for i, x in enumerate(expanded):
             if len(expanded) == 1:
                 # No need to use different names in this case
                 new_name = rule.name
             else:
                 new_name = "%s_%d" % (rule.name, i)
+                if new_name in self.rule_names:
+                    raise GrammarError("JSGF grammars cannot have multiple rules "
+                                       "with the same name")
             if not dictation_in_expansion(x):
                 r = Rule(new_name, rule.visible, x, self.case_sensitive)
-
-                # Add this rule to the JSGF only grammar
-                self._jsgf_only_grammar.add_rule(r)
-
-                # Keep track of the relationship between the original rule and its
-                # expanded rules
-                self._original_rule_map[r] = rule
             else:
-                seq_rule = SequenceRule(new_name, rule.visible, x,
-                                        self.case_sensitive)
-                self._original_rule_map[seq_rule] = rule
-
-                if not seq_rule.current_is_dictation_only:
-                    # The sequence starts with a JSGF only rule and can be
-                    # spoken like a normal rule
-                    self._jsgf_only_grammar.add_rule(seq_rule)
-                else:
-                    self._dictation_rules.append(seq_rule)
+                r = SequenceRule(new_name, rule.visible, x, self.case_sensitive)
+            generated.append(r)
+
+        # Add each to either dictation_rules or _jsgf_only_grammar.
+        for r in generated:
+            # Keep track of the relationship between the original rule and its
+            # expanded rules
+            self._original_rule_map[r] = rule
+            if isinstance(r, SequenceRule) and r.current_is_dictation_only:
+                self._dictation_rules.append(r)
+            else:
+                # Sequences that start with a JSGF only rule can be spoken like a
+                # normal rule
+                self._jsgf_only_grammar.add_rule(r)
 
     def get_original_rule(self, rule):
         """
-- 
2.43.0


From 14d8fb091cf5a647480d441275d469b084a7fac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:40 +0000
Subject: [PATCH 70/98] fix: use the DictationGrammar's name, header and
 imports for the compiled grammar

---
 jsgf/ext/grammars.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/jsgf/ext/grammars.py b/jsgf/ext/grammars.py
index 97caa0c..20b7574 100644
--- a/jsgf/ext/grammars.py
+++ b/jsgf/ext/grammars.py
@@ -26,6 +26,10 @@ class DictationGrammar(Grammar):
         self._original_rule_map = {}
         self._init_jsgf_only_grammar()
 
+        # The grammar used for JSGF only rules has the same import statements.
+        self._jsgf_only_grammar._imports = self._imports
+        self._jsgf_only_grammar._import_env = self._import_env
+
         if rules:
             self.add_rules(*rules)
 
@@ -231,6 +235,13 @@ class DictationGrammar(Grammar):
         """
         self.rearrange_rules()
 
+        # The name and header values may have changed.
+        grammar = self._jsgf_only_grammar
+        grammar.name = self.name
+        grammar.jsgf_version = self.jsgf_version
+        grammar.charset_name = self.charset_name
+        grammar.language_name = self.language_name
+
         try:
             # Compile the grammar
             if compile_as_root_grammar:
-- 
2.43.0


From 8987013eb62f0d13be74f9723bf36f3fdaad006e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:55 +0000
Subject: [PATCH 71/98] fix: keep match data of sequence rules added to a
 DictationGrammar

---
 jsgf/ext/grammars.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/jsgf/ext/grammars.py b/jsgf/ext/grammars.py
index 20b7574..7a38853 100644
--- a/jsgf/ext/grammars.py
+++ b/jsgf/ext/grammars.py
@@ -320,7 +320,9 @@ class DictationGrammar(Grammar):
         for rule in result:
             original = self.get_original_rule(rule)
             if isinstance(rule, SequenceRule):
-                SequenceRule.graft_sequence_matches(rule, original.expansion)
+                # SequenceRules graft matches onto their own original expansions.
+                if original is not rule:
+                    SequenceRule.graft_sequence_matches(rule, original.expansion)
 
                 # Progress to the next expansion if required
                 if rule.has_next_expansion and advance_sequence_rules:
-- 
2.43.0


From c371c658e0bc1ea8f94fd6712715a2d2852eaef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:01 +0000
Subject: [PATCH 72/98] fix: don't match dictation of original rules by stale
 matches

---
 jsgf/ext/rules.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/jsgf/ext/rules.py b/jsgf/ext/rules.py
index a5c04d8..7285faf 100644
--- a/jsgf/ext/rules.py
+++ b/jsgf/ext/rules.py
@@ -294,10 +294,6 @@ class SequenceRule(Rule):
             dictation_in_seq.extend(filter_expansion(
                 e, is_dictation, TraversalOrder.PostOrder))
 
-        # Don't use matches from previous calls.
-        for e in dictation_in_exp:
-            e.use_current_match = False
-
         # Set current_match of Dictation expansions in the given expansion to
         # current_match values of their respective counterparts in the sequence. There
         # are no counterparts if the rule's expansion is only one of those expanded
@@ -321,6 +317,10 @@ class SequenceRule(Rule):
         # Now match on expansion using the matches for the sequence.
         expansion.matches(" ".join([e.current_match for e in matching]))
 
+        # Don't use these matches next time.
+        for e in dictation_in_exp:
+            e.use_current_match = False
+
 
 class PublicSequenceRule(SequenceRule):
     """
-- 
2.43.0


From 099e7369f406fc4965c28e8f892e92f2a5ecf4ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:38 +0000
Subject: [PATCH 73/98] fix: keep the weight of a repeated alternative in
 sequence rules

---
 jsgf/ext/rules.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/jsgf/ext/rules.py b/jsgf/ext/rules.py
index 7285faf..4f3275e 100644
--- a/jsgf/ext/rules.py
+++ b/jsgf/ext/rules.py
@@ -30,9 +30,12 @@ class SequenceRule(Rule):
             child = rep.children.pop(0)
             child.parent = parent
             if parent:
+                weight = getattr(parent, "weights", {}).get(rep)
                 parent.children.remove(rep)
                 parent.children.append(child)
                 rep.parent = None
+                if weight is not None:
+                    parent.set_weight(child, weight)
             else:
                 # If rep had no parent, set self.expansion to rep's child
                 self.expansion = child
-- 
2.43.0


From 86d5ef7bf25956e87eb3c22a5271a2a84029f5b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:33 +0000
Subject: [PATCH 74/98] fix: look ahead of dictation for each literal that can
 follow it

---
 jsgf/ext/expansions.py | 184 +++++++++++++++++------------------------
 1 file changed, 78 insertions(+), 106 deletions(-)

diff --git a/jsgf/ext/expansions.py b/jsgf/ext/expansions.py
index 61370fc..3728571 100644
--- a/jsgf/ext/expansions.py
+++ b/jsgf/ext/expansions.py
@@ -12,10 +12,12 @@ from ..expansions import (
     KleeneStar,
     Literal,
     NamedRuleRef,
+    NullRef,
     OptionalGrouping,
     Repeat,
     Sequence,
     TraversalOrder,
+    VoidRef,
     find_expansion,
 )
 
@@ -23,94 +25,77 @@ from ..expansions import (
 _word_regex_str = r"[\w\d?,\.\-_!;:']+"
 
 
-def _collect_from_leaves(e, backtrack):
+def _collect_next(e, dictation):
+    """
+    Collect whatever an expansion can begin with: literals and Dictation expansions.
+
+    The given Dictation expansion is not collected.
+    :param e: Expansion
+    :param dictation: Dictation
+    :returns: tuple of list of leaves and whether something after the expansion can be
+        next as well.
+    """
+    if e is dictation:
+        return [], False
+    elif isinstance(e, NullRef):
+        return [], True
+    elif isinstance(e, VoidRef):
+        return [], False
+    elif isinstance(e, NamedRuleRef):
+        return _collect_next(e.referenced_rule.expansion, dictation)
+    elif isinstance(e, Literal):
+        return [e], False
+
     result = []
-    look_further = True
-    for leaf in e.leaves:
-        if isinstance(leaf, Dictation):
-            # Add regex for a single dictation word.
-            result.append(_word_regex_str)
-        elif isinstance(leaf, Literal):
-            # Add first word of literal.
-            result.append(leaf.text.split()[0])
-        else:
-            # Skip references.
-            continue
+    if isinstance(e, AlternativeSet):
+        # Any alternative could be next, except those that can never be matched.
+        look_further = False
+        for c in e.children:
+            if e.weights.get(c) == 0:
+                continue
+            leaves, optional = _collect_next(c, dictation)
+            result.extend(leaves)
+            look_further = look_further or optional
+        return result, look_further
 
-        # Break out of the loop if the leaf is required.
-        if not leaf.is_optional:
-            if not backtrack:
-                look_further = False
+    # Collect from each child until a required one is found.
+    look_further = True
+    for c in e.children:
+        leaves, look_further = _collect_next(c, dictation)
+        result.extend(leaves)
+        if not look_further:
             break
-    return result, look_further
+    return result, look_further or isinstance(e, (OptionalGrouping, KleeneStar))
 
 
-def _collect_next_literals(stack, i, look_further, backtrack):
+def _collect_next_leaves(dictation):
     """
-    Build a list of each next literal using a stack of expansions and their parents
-    as well as an index for which stack frame to use.
-
-    The stack has the following structure:
-    [(e, e.parent), (e.parent, e.parent.parent), ... (root.children[x], root)]
-    :param stack: list
-    :param i: int
-    :param look_further: bool
-    :param backtrack: bool
-    :returns: tuple of literals list and flags value
-    """
-    # Handle stop looking for literals or i being an invalid index.
-    if not look_further or i < 0 or i >= len(stack):
-        return [], look_further
+    Collect each literal or Dictation expansion that could be spoken after a Dictation
+    expansion. This includes those in further repetitions.
 
-    # Get the current child and parent from the stack.
-    p1, p2 = stack[i]
+    :param dictation: Dictation
+    :returns: list
+    """
     result = []
+    child, parent = dictation, dictation.parent
+    while parent:
+        if isinstance(parent, Sequence):
+            # Get the index of child in parent.children using 'is'.
+            i = [c is child for c in parent.children].index(True)
+            look_further = True
+            for c in parent.children[i + 1:]:
+                leaves, look_further = _collect_next(c, dictation)
+                result.extend(leaves)
+                if not look_further:
+                    return result
 
-    if isinstance(p2, Sequence):
-        # Get the index of p1 in p2.children using 'is'.
-        j = 0
-        for j, c in enumerate(p2.children):
-            if c is p1:
-                break
-
-        # Collect the first word of each literal until a required one is found.
-        # This won't collect the same repeating dictation from backtracking.
-        child_slice = p2.children[:j] if backtrack else p2.children[j + 1:]
-        for c in child_slice:
-            leaves, look_further = _collect_from_leaves(c, backtrack)
-            result.extend(leaves)
-
-            # Stop if a required literal has been collected.
-            if not look_further:
-                break
-
-    elif isinstance(p2, Repeat):
-        # If we get to a repeat, it means that there were no required literals below
-        # it *after* the dictation expansion. Backtrack to search before it instead.
-        next_stack_result = _collect_next_literals(stack, i - 1, look_further, True)
-        result.extend(next_stack_result[0])
-        look_further = look_further or next_stack_result[1]
-
-    elif isinstance(p2, AlternativeSet) and backtrack:
-        # Handle backtracking through repeating alternatives. Non-repeating
-        # alternative sets in the stack won't have next literals.
-        for c in p2.children:
-            # Collect the next literals from each alternative; any of them could be
-            # matched after dictation.
-            leaves, look_further = _collect_from_leaves(c, backtrack)
-            result.extend(leaves)
-
-    # Go to the next logical stack frame.
-    if backtrack:
-        next_stack_result = _collect_next_literals(stack, i - 1, look_further,
-                                                   backtrack)
-    else:
-        next_stack_result = _collect_next_literals(stack, i + 1, look_further,
-                                                   backtrack)
+        elif isinstance(parent, Repeat):
+            # This won't collect the same repeating dictation.
+            result.extend(_collect_next(parent.child, dictation)[0])
 
-    result.extend(next_stack_result[0])
-    look_further = look_further or next_stack_result[1]
-    return result, look_further
+        # Move further up the tree.
+        child, parent = parent, parent.parent
+    return result
 
 
 class Dictation(Literal):
@@ -207,37 +192,24 @@ class Dictation(Literal):
             # Set the parse action and return the element.
             return result.setParseAction(self._parse_action)
 
-        # Otherwise build a list of next possible literals. Make the required stack
-        # of child-parent pairs.
-        stack = []
-        p1, p2 = self, self.parent
-        while p1 and p2:
-            stack.append((p1, p2))
-
-            # Move both pivots further up the tree.
-            p1 = p1.parent
-            p2 = p2.parent
-
-        # Build a list of next literals using the stack.
-        next_literals, _ = _collect_next_literals(stack, 0, True, False)
-
-        # De-duplicate the list.
-        next_literals = set(next_literals)
-
+        # Otherwise get the next possible literals.
+        next_leaves = _collect_next_leaves(self)
         word = pyparsing.Regex(_word_regex_str, re.UNICODE)
-        if next_literals:
-            # Check if there is a next dictation literal. If there is, only match
-            # one word for this expansion.
-            if _word_regex_str in next_literals:
-                result = word
+        if any(isinstance(e, Dictation) for e in next_leaves):
+            # If there is dictation next, only match one word for this expansion.
+            result = word
 
-            # Otherwise build an element to match one or more words stopping on
+        elif next_leaves:
+            # Build an element to match one or more words stopping on the first word of
             # any of the next literals so that they aren't matched as dictation.
-            else:
-                next_literals = list(map(pyparsing.Literal, next_literals))
-                result = pyparsing.OneOrMore(
-                    word, stopOn=pyparsing.Or(next_literals)
-                )
+            next_words = set((e.text.split()[0], e.case_sensitive)
+                             for e in next_leaves)
+            result = pyparsing.OneOrMore(word, stopOn=pyparsing.MatchFirst([
+                pyparsing.Regex(
+                    "%s(?!%s)" % (re.escape(text), _word_regex_str),
+                    re.UNICODE | (0 if case_sensitive else re.IGNORECASE)
+                ) for text, case_sensitive in next_words
+            ]))
         else:
             # Handle the case of no literals ahead by allowing one or more Unicode
             # words without restrictions.
-- 
2.43.0


From 2f02a4d7e25d4cefb9a5527aaee80f447d05f6d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:59 +0000
Subject: [PATCH 75/98] fix: alternatives that were only tried had a matching
 slice

---
 jsgf/expansions.py | 33 ++++++++++-----------------------
 1 file changed, 10 insertions(+), 23 deletions(-)

diff --git a/jsgf/expansions.py b/jsgf/expansions.py
index a5a7a8c..b4378e1 100644
--- a/jsgf/expansions.py
+++ b/jsgf/expansions.py
@@ -772,29 +772,16 @@ class Expansion(object):
         raise NotImplementedError()
 
     def _set_matcher_element_attributes(self, element):
-        # Set the ParserElement's action.
-        element.setParseAction(self._parse_action)
-
-        # Save the element's original postParse function.
-        closure = element.postParse
-
-        # Set a new function and use the original function for returning values.
-        def postParse(instring, loc, tokenlist):
-            if isinstance(tokenlist, pyparsing.ParseResults):
-                s = " ".join(tokenlist.asList())
-            elif isinstance(tokenlist, list):
-                s = "".join(tokenlist)
-            elif isinstance(tokenlist, string_types):
-                s = tokenlist
-            else:
-                raise TypeError("postParse received invalid tokenlist %s"
-                                % tokenlist)
-            # Exclude whitespace skipped by elements that matched nothing.
-            end = len(instring[:loc].rstrip())
-            self.matching_slice = slice(end - len(s), end)
-            return closure(instring, loc, tokenlist)
-
-        element.postParse = postParse
+        # Set the ParserElement's action. It sets the matching slice too, because actions,
+        # unlike the postParse function, are not used when only looking ahead.
+        def action(instring, loc, tokens):
+            # The location might be that of whitespace before the tokens.
+            start = len(instring) - len(instring[loc:].lstrip())
+            end = start + len(" ".join(tokens.asList()))
+            self.matching_slice = slice(start, end)
+            return self._parse_action(tokens)
+
+        element.setParseAction(action)
 
         # Return the element.
         return element
-- 
2.43.0


From 976ec4b05b11e7c758b1dc0d5526fa0c9a6cae0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:06 +0000
Subject: [PATCH 76/98] fix: values of an incomplete repetition were kept

A repetition that was tried after the last complete one left match data of
its expansions behind.
---
 jsgf/expansions.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/jsgf/expansions.py b/jsgf/expansions.py
index b4378e1..1779d14 100644
--- a/jsgf/expansions.py
+++ b/jsgf/expansions.py
@@ -1615,13 +1615,13 @@ class Repeat(SingleChildExpansion):
 
         # Note: this method is called after the child's parse actions.
         if self._repetitions_matched:
-            # Restore the last repetition's match values.
+            # Restore the last repetition's match values. Values of an incomplete
+            # repetition after it, if any, shouldn't be kept.
+            self.child.reset_for_new_match()
             last = self._repetitions_matched[len(self._repetitions_matched) - 1]
             for x, match, slice_, _ in last:
-                if match is not None:
-                    x.current_match = match
-                if slice_ is not None:
-                    x.matching_slice = slice_
+                x.current_match = match
+                x.matching_slice = slice_
         return tokens
 
     def invalidate_matcher(self):
-- 
2.43.0


From 647f2681cf65294e2f9fffe6b0207e57fccbc2b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:09 +0000
Subject: [PATCH 77/98] fix: remove partial matches of rule references and
 repetitions

Match data of expansions in an abandoned part of an expansion was kept if
the part references a rule, and was recorded for repetitions.
---
 jsgf/expansions.py | 30 ++++++++++++++++++++++++------
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/jsgf/expansions.py b/jsgf/expansions.py
index 1779d14..d7eeea5 100644
--- a/jsgf/expansions.py
+++ b/jsgf/expansions.py
@@ -692,15 +692,29 @@ class Expansion(object):
         remaining = speech[len(result):].strip()
 
         # Do a second pass of the expansion tree for post-processing.
+        self._remove_partial_matches()
+        return remaining
+
+    def _remove_partial_matches(self):
+        # Reset the match data of descendants that matched something as part of an
+        # expansion that didn't match. Referenced rules are included.
+        matched = set()
+
+        def find_matched(x):
+            matched.add(id(x))
+            if x.current_match:
+                children = x.children
+                if isinstance(x, NamedRuleRef):
+                    children = [x.referenced_rule.expansion]
+                for child in children:
+                    find_matched(child)
+
         def process(x):
-            # Remove partial matches.
-            if (x.parent and not isinstance(x, NamedRuleRef) and not
-                    x.parent.current_match):
-                x.current_match = None
-                x.matching_slice = None
+            if id(x) not in matched:
+                x.reset_match_data()
 
+        find_matched(self)
         map_expansion(self, process)
-        return remaining
 
     def invalidate_matcher(self):
         """
@@ -1634,6 +1648,10 @@ class Repeat(SingleChildExpansion):
         # Define an extra parse action for the child's matcher element.
         def f(tokens):
             if tokens.asList():
+                # Remove partial matches, as they would be otherwise kept with this
+                # repetition's values.
+                self.child._remove_partial_matches()
+
                 # Add current match values to the _repetitions_matched list.
                 self._repetitions_matched.append(flat_map_expansion(
                     self.child,
-- 
2.43.0


From 12b92da4269188ab388b7ce01f1ae72a0a7eb4e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:42 +0000
Subject: [PATCH 78/98] fix: keep a rule's expansion intact if another is
 refused

---
 jsgf/rules.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/jsgf/rules.py b/jsgf/rules.py
index df5678d..e7cc3ad 100644
--- a/jsgf/rules.py
+++ b/jsgf/rules.py
@@ -111,14 +111,16 @@ class Rule(references.BaseRef):
             return self._name
 
     def _set_expansion(self, value):
+        # Handle the object passed in as an expansion
+        value = Expansion.make_expansion(value)
+
         # Reset expansion.rule if there was a previous expansion. Also invalidate its
         # matcher element so that any references to this rule are updated.
         if self._expansion:
             self._expansion.invalidate_matcher()
             self._expansion.rule = None
 
-        # Handle the object passed in as an expansion
-        self._expansion = Expansion.make_expansion(value)
+        self._expansion = value
 
         # Set the rule attribute for the rule's expansions
         def set_rule(x):
-- 
2.43.0


From 1040db36188619080030ed608d2146331123bdb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:45 +0000
Subject: [PATCH 79/98] fix: keep children intact if other children are refused

---
 jsgf/expansions.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/jsgf/expansions.py b/jsgf/expansions.py
index d7eeea5..b81ec37 100644
--- a/jsgf/expansions.py
+++ b/jsgf/expansions.py
@@ -478,6 +478,9 @@ class Expansion(object):
         if not isinstance(value, (tuple, list, ChildList)):
             raise TypeError("'children' must be a list or tuple")
 
+        # Make each item into an Expansion before changing anything.
+        value = [Expansion.make_expansion(e) for e in value]
+
         # Orphan current children if applicable.
         if self._children:
             self._children.orphan_children()
-- 
2.43.0


From 661fe261a009cd72bb44f522c33e5653a656372c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:48 +0000
Subject: [PATCH 80/98] fix: don't set some weights if others are refused

---
 jsgf/expansions.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/jsgf/expansions.py b/jsgf/expansions.py
index b81ec37..b826bff 100644
--- a/jsgf/expansions.py
+++ b/jsgf/expansions.py
@@ -1843,10 +1843,24 @@ class AlternativeSet(VariableChildExpansion):
     def weights(self, value):
         value = dict(value)
 
+        # Check every weight before setting any.
+        for k, v in value.items():
+            self._check_weight(v)
+            if isinstance(k, integer_types):
+                self.children[k]
+
         # Set weights for each child using set_weight().
         for k, v in value.items():
             self.set_weight(k, v)
 
+    @staticmethod
+    def _check_weight(weight):
+        # Check that weight is a non-negative number and return it.
+        weight = float(weight)
+        if weight < 0:
+            raise TypeError("weight value '%s' is a negative number" % weight)
+        return weight
+
     def set_weight(self, child, weight):
         """
         Set the weight of a child.
@@ -1865,10 +1879,7 @@ class AlternativeSet(VariableChildExpansion):
         :param weight: weight value - must be >= 0
         :type weight: float|int
         """
-        # Check that weight is a non-negative number.
-        weight = float(weight)
-        if weight < 0:
-            raise TypeError("weight value '%s' is a negative number" % weight)
+        weight = self._check_weight(weight)
 
         # Use the alternative as the key for _weights.
         if isinstance(child, integer_types):
-- 
2.43.0


From 8122b35e37e24a3850894c345327f14b00c5c8ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:23 +0000
Subject: [PATCH 81/98] fix: refuse weights that are not finite numbers

They would be compiled as /nan/ or /inf/, which can't be parsed.
---
 jsgf/expansions.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/jsgf/expansions.py b/jsgf/expansions.py
index b826bff..1170af9 100644
--- a/jsgf/expansions.py
+++ b/jsgf/expansions.py
@@ -1859,6 +1859,8 @@ class AlternativeSet(VariableChildExpansion):
         weight = float(weight)
         if weight < 0:
             raise TypeError("weight value '%s' is a negative number" % weight)
+        if not weight < float("inf"):
+            raise TypeError("weight value '%s' is not a finite number" % weight)
         return weight
 
     def set_weight(self, child, weight):
-- 
2.43.0


From 51e2148eba1769b276735d317b03ce800e5fe177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:19 +0000
Subject: [PATCH 82/98] fix: invalidate references to an expansion that is
 joined with a tree

---
 jsgf/expansions.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/jsgf/expansions.py b/jsgf/expansions.py
index 1170af9..162a268 100644
--- a/jsgf/expansions.py
+++ b/jsgf/expansions.py
@@ -514,15 +514,19 @@ class Expansion(object):
     @parent.setter
     def parent(self, value):
         if isinstance(value, Expansion) or value is None:
+            # Invalidate the matcher element for this expansion. This is done before
+            # setting the parent so that references to this expansion, if it is the
+            # root of a rule, are also invalidated. Elements of descendants might
+            # depend on their ancestors.
+            self._discard_descendant_matchers()
+            self.invalidate_matcher()
+
             # Invalidate the old parent if necessary.
             if self._parent:
                 self._parent.invalidate_matcher()
 
-            # Set the parent and invalidate the matcher element for this expansion.
-            # Elements of descendants might depend on their ancestors.
+            # Set the parent.
             self._parent = value
-            self._discard_descendant_matchers()
-            self.invalidate_matcher()
 
             # Also invalidate the new parent as necessary. This is a quick operation
             # if nothing has been matched yet.
-- 
2.43.0


From e9dea4c15326b38053f799599874b39e641fe065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:10 +0000
Subject: [PATCH 83/98] fix: invalidate all references to a rule whose
 expansion is joined with a tree

---
 jsgf/expansions.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/jsgf/expansions.py b/jsgf/expansions.py
index 162a268..633835e 100644
--- a/jsgf/expansions.py
+++ b/jsgf/expansions.py
@@ -742,10 +742,12 @@ class Expansion(object):
         if self.parent:
             self.parent.invalidate_matcher()
 
-        # If at the root expansion, call invalidate_matcher for any RuleRefs or
-        # NamedRuleRefs that reference this rule. To make things simple, this is
-        # is only done if this expansion belongs to a rule in a grammar.
-        elif self.rule and self.rule.grammar:
+        # If at the root expansion of a rule, which may be joined with another tree,
+        # call invalidate_matcher for any RuleRefs or NamedRuleRefs that reference
+        # this rule. To make things simple, this is is only done if this expansion
+        # belongs to a rule in a grammar.
+        if ((not self.parent or isinstance(self.parent, NamedRuleRef)) and
+                self.rule and self.rule.grammar):
             def process(x):
                 if isinstance(x, NamedRuleRef) and x.name == self.rule.name:
                     x.invalidate_matcher()
-- 
2.43.0


From 7da737ad42a5cacbce59c9a6224a7069314e34e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:14 +0000
Subject: [PATCH 84/98] fix: expand the expansion itself rather than a
 comparable one elsewhere

---
 jsgf/ext/expansions.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/jsgf/ext/expansions.py b/jsgf/ext/expansions.py
index 3728571..4c5fb5c 100644
--- a/jsgf/ext/expansions.py
+++ b/jsgf/ext/expansions.py
@@ -19,6 +19,7 @@ from ..expansions import (
     TraversalOrder,
     VoidRef,
     find_expansion,
+    flat_map_expansion,
 )
 
 # Define the regular expression used for dictation words.
@@ -336,7 +337,11 @@ def expand_dictation_expansion(expansion):
                 return e
 
     def find_goal(e, goal):
-        return find_expansion(e, lambda x: x == goal)
+        # Find the expansion in the same place of the tree. Other expansions, including
+        # those of referenced rules, may be comparable.
+        originals = flat_map_expansion(goal.root_expansion, shallow=True)
+        i = [x is goal for x in originals].index(True)
+        return flat_map_expansion(e, shallow=True)[i]
 
     def process(e):
         """
-- 
2.43.0


From 0cc8d5df343cd06b4d76f90f76add5f13000077a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:53 +0000
Subject: [PATCH 85/98] fix: leave rules referenced by sequence rules as they
 are

---
 jsgf/ext/expansions.py | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/jsgf/ext/expansions.py b/jsgf/ext/expansions.py
index 4c5fb5c..c5e394f 100644
--- a/jsgf/ext/expansions.py
+++ b/jsgf/ext/expansions.py
@@ -20,6 +20,7 @@ from ..expansions import (
     VoidRef,
     find_expansion,
     flat_map_expansion,
+    map_expansion,
 )
 
 # Define the regular expression used for dictation words.
@@ -264,6 +265,25 @@ def dictation_and_literals_in_expansion(e):
     return dictation_in_expansion(e, False)
 
 
+def _copy_referenced_expansion(ref):
+    """
+    Copy the expansion of a referenced rule, so that the rule won't be changed.
+
+    References in the copy are still resolved by the referenced rule's grammar.
+
+    :param ref: NamedRuleRef
+    :returns: Expansion
+    """
+    rule = ref.referenced_rule
+
+    def set_rule(x):
+        x.rule = rule
+
+    result = rule.expansion.copy()
+    map_expansion(result, set_rule, shallow=True)
+    return result
+
+
 def expand_dictation_expansion(expansion):
     """
     Take an expansion and expand any ``AlternativeSet`` with alternatives containing
@@ -513,7 +533,7 @@ def calculate_expansion_sequence(expansion, should_deepcopy=True):
         elif len(e.children) == 0:
             if (isinstance(e, NamedRuleRef) and
                     dictation_in_expansion(e.referenced_rule.expansion)):
-                result.extend(calculate_sequence(e.referenced_rule.expansion))
+                result.extend(calculate_sequence(_copy_referenced_expansion(e)))
             else:
                 result.append(e)
         elif no_dictation_in_expansion(e):
-- 
2.43.0


From 8574ed10798e6157bc95580e798ae3177bad5f11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:56 +0000
Subject: [PATCH 86/98] fix: keep what is around references to rules that are
 expanded

---
 jsgf/ext/expansions.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/jsgf/ext/expansions.py b/jsgf/ext/expansions.py
index c5e394f..4e2b193 100644
--- a/jsgf/ext/expansions.py
+++ b/jsgf/ext/expansions.py
@@ -342,7 +342,10 @@ def expand_dictation_expansion(expansion):
         :returns: Expansion | None
         """
         if isinstance(e, NamedRuleRef):
-            return first_unprocessed_expansion(e.referenced_rule.expansion)
+            # The reference has to be replaced if anything in the referenced rule is
+            # to be processed.
+            if first_unprocessed_expansion(e.referenced_rule.expansion):
+                return e
         else:
             # Traverse in post order, i.e. children first, then e. Alternatives that
             # can never be matched are not traversed.
@@ -439,6 +442,10 @@ def expand_dictation_expansion(expansion):
                 replacements = [current.child.copy()]
             else:
                 replacements = [Repeat(current.child.copy())]
+
+        elif isinstance(current, NamedRuleRef):
+            # Process a copy of the referenced rule's expansion instead.
+            replacements = [_copy_referenced_expansion(current)]
         else:
             replacements = []
 
-- 
2.43.0


From 6eae161d1de8138a072b78abafd37d1259c68187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:08 +0000
Subject: [PATCH 87/98] fix: graft matches of dictation in referenced rules

---
 jsgf/ext/rules.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/jsgf/ext/rules.py b/jsgf/ext/rules.py
index 4f3275e..632a729 100644
--- a/jsgf/ext/rules.py
+++ b/jsgf/ext/rules.py
@@ -3,7 +3,7 @@ This module contains extension rule classes.
 """
 
 from ..errors import GrammarError
-from ..expansions import Repeat, TraversalOrder, filter_expansion
+from ..expansions import NamedRuleRef, Repeat, TraversalOrder, filter_expansion
 from ..rules import Rule
 
 from .expansions import (expand_dictation_expansion, calculate_expansion_sequence,
@@ -308,6 +308,15 @@ class SequenceRule(Rule):
                 e2.use_current_match = True
                 e2.current_match = e1.current_match
 
+        # Dictation expansions may be in referenced rules. These aren't necessarily in
+        # a grammar, so the matcher elements of references have to be invalidated too.
+        def invalidate_references():
+            for ref in filter_expansion(expansion,
+                                        lambda x: isinstance(x, NamedRuleRef)):
+                ref.invalidate_matcher()
+
+        invalidate_references()
+
         # Then collect expansions with current_match set.
         matching = []
         for e in sequence_rule._sequence:
@@ -323,6 +332,7 @@ class SequenceRule(Rule):
         # Don't use these matches next time.
         for e in dictation_in_exp:
             e.use_current_match = False
+        invalidate_references()
 
 
 class PublicSequenceRule(SequenceRule):
-- 
2.43.0


From fa8cfab5118f5e6bbaa5889e481bcb37f23cefb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:17 +0000
Subject: [PATCH 88/98] fix: don't compile the child of a KleeneStar twice

---
 jsgf/expansions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jsgf/expansions.py b/jsgf/expansions.py
index 633835e..5feeeb8 100644
--- a/jsgf/expansions.py
+++ b/jsgf/expansions.py
@@ -1734,7 +1734,7 @@ class KleeneStar(Repeat):
         <kleene> = (please)* don't crash;
     """
     def compile(self, ignore_tags=False):
-        super(KleeneStar, self).compile()
+        super(Repeat, self).compile()
         compiled = self.child.compile(ignore_tags)
         if self.tag and not ignore_tags:
             return "(%s)*%s" % (compiled, self.compiled_tag)
-- 
2.43.0


From 043c0c94300ff31c1304791bc00c1fb961707a15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:17 +0000
Subject: [PATCH 89/98] fix: only match whole words with literals

---
 jsgf/expansions.py | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/jsgf/expansions.py b/jsgf/expansions.py
index 5feeeb8..0d52f2c 100644
--- a/jsgf/expansions.py
+++ b/jsgf/expansions.py
@@ -1378,14 +1378,34 @@ class Sequence(VariableChildExpansion):
         return super(Sequence, self).__hash__()
 
 
+def _is_whole(instring, loc, end):
+    # Whether a part of a string neither begins nor ends within a word.
+    return ((loc == 0 or instring[loc - 1].isspace()) and
+            (end == len(instring) or instring[end].isspace()))
+
+
+class _Literal(pyparsing.Literal):
+    """
+    Parser element for case-sensitive literals. Unlike the base class, this only matches
+    whole words.
+    """
+    def parseImpl(self, instring, loc, doActions=True):
+        end = loc + self.matchLen
+        if instring.startswith(self.match, loc) and _is_whole(instring, loc, end):
+            return end, self.match
+        raise pyparsing.ParseException(instring, loc, self.errmsg, self)
+
+
 class _CaselessLiteral(pyparsing.CaselessLiteral):
     """
     Parser element for case-insensitive literals. Unlike the base class, this also works
-    for text with a different length in upper case, e.g. 'stra\u00dfe'.
+    for text with a different length in upper case, e.g. 'stra\u00dfe', and only matches
+    whole words.
     """
     def parseImpl(self, instring, loc, doActions=True):
         end = loc + len(self.returnString)
-        if end <= len(instring) and instring[loc:end].upper() == self.match:
+        if (end <= len(instring) and instring[loc:end].upper() == self.match and
+                _is_whole(instring, loc, end)):
             return end, self.returnString
         raise pyparsing.ParseException(instring, loc, self.errmsg, self)
 
@@ -1507,7 +1527,7 @@ class Literal(Expansion):
         # Return a case-sensitive or case-insensitive pyparsing Literal element.
         text = " ".join(self._text.split())
         if self.case_sensitive:
-            matcher_cls = pyparsing.Literal
+            matcher_cls = _Literal
         else:
             matcher_cls = _CaselessLiteral
         return self._set_matcher_element_attributes(matcher_cls(text))
-- 
2.43.0


From 6f48f14670a6e90dcc4ea771dcb08b43229b1cfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:57 +0000
Subject: [PATCH 90/98] fix: let Dictation match words of any characters, and
 only whole words

---
 jsgf/ext/expansions.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/jsgf/ext/expansions.py b/jsgf/ext/expansions.py
index 4e2b193..f10f833 100644
--- a/jsgf/ext/expansions.py
+++ b/jsgf/ext/expansions.py
@@ -23,8 +23,8 @@ from ..expansions import (
     map_expansion,
 )
 
-# Define the regular expression used for dictation words.
-_word_regex_str = r"[\w\d?,\.\-_!;:']+"
+# Define the regular expression used for dictation words. Words can have any characters.
+_word_regex_str = r"\S+"
 
 
 def _collect_next(e, dictation):
@@ -196,7 +196,7 @@ class Dictation(Literal):
 
         # Otherwise get the next possible literals.
         next_leaves = _collect_next_leaves(self)
-        word = pyparsing.Regex(_word_regex_str, re.UNICODE)
+        word = pyparsing.Regex(r"(?<!\S)" + _word_regex_str, re.UNICODE)
         if any(isinstance(e, Dictation) for e in next_leaves):
             # If there is dictation next, only match one word for this expansion.
             result = word
-- 
2.43.0


From 67a4be9a7c83035b45ede186556d0c5614fb50a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:50 +0000
Subject: [PATCH 91/98] fix: generate repetitions whatever random number is
 drawn

---
 jsgf/expansions.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/jsgf/expansions.py b/jsgf/expansions.py
index 0d52f2c..9de08f5 100644
--- a/jsgf/expansions.py
+++ b/jsgf/expansions.py
@@ -1597,7 +1597,8 @@ class Repeat(SingleChildExpansion):
 
         :rtype: str
         """
-        c = int(math.log(random.random() / 2, 0.5))
+        # Use 1 instead of 0, for which there is no logarithm.
+        c = int(math.log((random.random() or 1) / 2, 0.5))
         return " ".join([self.child.generate() for _ in range(c)])
 
     def __hash__(self):
@@ -1770,7 +1771,8 @@ class KleeneStar(Repeat):
 
         :rtype: str
         """
-        c = int(math.log(random.random() / 2, 0.5)) - 1
+        # Use 1 instead of 0, for which there is no logarithm.
+        c = int(math.log((random.random() or 1) / 2, 0.5)) - 1
         return " ".join([self.child.generate() for _ in range(c)])
 
     @property
-- 
2.43.0


From 13468b51a26298f72b0e107a76db0e77ae98e032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:53 +0000
Subject: [PATCH 92/98] fix: raise a TypeError for non-rules added to a
 RootGrammar

---
 jsgf/grammars.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jsgf/grammars.py b/jsgf/grammars.py
index 27d2791..6996cf4 100644
--- a/jsgf/grammars.py
+++ b/jsgf/grammars.py
@@ -813,7 +813,7 @@ class RootGrammar(Grammar):
         return self.compile_as_root_grammar()
 
     def add_rule(self, rule):
-        if rule.name == "root":
+        if isinstance(rule, Rule) and rule.name == "root":
             raise GrammarError("cannot add rule with name 'root' to RootGrammar")
 
         super(RootGrammar, self).add_rule(rule)
-- 
2.43.0


From a8f077d27cd9a282e66d60db03a99bacf297b450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:56 +0000
Subject: [PATCH 93/98] fix: raise a GrammarError for unknown rules removed
 from a DictationGrammar

---
 jsgf/ext/grammars.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/jsgf/ext/grammars.py b/jsgf/ext/grammars.py
index 7a38853..4f34108 100644
--- a/jsgf/ext/grammars.py
+++ b/jsgf/ext/grammars.py
@@ -197,6 +197,9 @@ class DictationGrammar(Grammar):
             rule_name = rule.name
 
         items = list(self._original_rule_map.items())
+        if not any(v.name == rule_name for _, v in items):
+            raise GrammarError("'%s' is not a rule in Grammar '%s'" % (rule, self))
+
         for k, v in items:
             if v.name == rule_name:
                 if k in self._dictation_rules:
-- 
2.43.0


From 8d668e8a4b0923b5be93c349b81e8727b783afa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:49 +0000
Subject: [PATCH 94/98] fix: match and generate sets and sequences without
 children like NULL

---
 jsgf/expansions.py     | 11 +++++++++++
 jsgf/ext/expansions.py |  2 +-
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/jsgf/expansions.py b/jsgf/expansions.py
index 9de08f5..f55b34f 100644
--- a/jsgf/expansions.py
+++ b/jsgf/expansions.py
@@ -1369,6 +1369,10 @@ class Sequence(VariableChildExpansion):
             return seq
 
     def _make_matcher_element(self):
+        # Nothing is matched without children, as '<NULL>' is compiled in that case.
+        if not self.children:
+            return self._set_matcher_element_attributes(pyparsing.Empty())
+
         # Return an And element using each child's matcher element.
         return self._set_matcher_element_attributes(pyparsing.And([
             child.matcher_element for child in self.children
@@ -2005,6 +2009,9 @@ class AlternativeSet(VariableChildExpansion):
             p = w / sum(weights)
 
         """
+        if not self.children:
+            return ""
+
         if self._weights:
             self._validate_weights()
             # use weights if they are set
@@ -2027,6 +2034,10 @@ class AlternativeSet(VariableChildExpansion):
         return random.choice(self.children).generate()
 
     def _make_matcher_element(self):
+        # Nothing is matched without children, as '<NULL>' is compiled in that case.
+        if not self.children:
+            return self._set_matcher_element_attributes(pyparsing.Empty())
+
         # Return an element that can match the alternatives.
         if self._weights:
             self._validate_weights()
diff --git a/jsgf/ext/expansions.py b/jsgf/ext/expansions.py
index f10f833..77fd5a1 100644
--- a/jsgf/ext/expansions.py
+++ b/jsgf/ext/expansions.py
@@ -51,7 +51,7 @@ def _collect_next(e, dictation):
     result = []
     if isinstance(e, AlternativeSet):
         # Any alternative could be next, except those that can never be matched.
-        look_further = False
+        look_further = not e.children
         for c in e.children:
             if e.weights.get(c) == 0:
                 continue
-- 
2.43.0


From 235b3cdaa0e7379ed9e4ffea9a8acfe1c8bb1c8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:19 +0000
Subject: [PATCH 95/98] fix: compile sets and sequences without children
 without changing them

---
 jsgf/expansions.py | 31 +++++++++++++------------------
 1 file changed, 13 insertions(+), 18 deletions(-)

diff --git a/jsgf/expansions.py b/jsgf/expansions.py
index f55b34f..c4bf9b1 100644
--- a/jsgf/expansions.py
+++ b/jsgf/expansions.py
@@ -1285,11 +1285,11 @@ class VoidRef(BaseExpansionRef):
 
 
 class ExpansionWithChildren(Expansion):
-    def compile(self, ignore_tags=False):
-        # Add a reference to the built-in NULL rule to produce a valid JSGF rule
+    @property
+    def _compiled_children(self):
+        # Use a reference to the built-in NULL rule to produce a valid JSGF rule
         # expansion: "<NULL>" instead of "()";
-        if not self.children:
-            self.children.append(NullRef())
+        return self.children or [NullRef()]
 
 
 class SingleChildExpansion(ExpansionWithChildren):
@@ -1354,15 +1354,15 @@ class Sequence(VariableChildExpansion):
     Class for expansions to be spoken in sequence.
     """
     def compile(self, ignore_tags=False):
-        super(Sequence, self).compile()
+        children = self._compiled_children
         seq = " ".join([
-            e.compile(ignore_tags) for e in self.children
+            e.compile(ignore_tags) for e in children
         ])
 
         # Return the sequence and the tag if there is one. Parenthesises are used if
         # the tag would otherwise be attached to the last expansion in the sequence.
         if self.tag and not ignore_tags:
-            if len(self.children) > 1 or not isinstance(self.children[0], Literal):
+            if len(children) > 1 or not isinstance(children[0], Literal):
                 seq = "(%s)" % seq
             return "%s%s" % (seq, self.compiled_tag)
         else:
@@ -1586,8 +1586,7 @@ class Repeat(SingleChildExpansion):
         self._repetitions_matched = []
 
     def compile(self, ignore_tags=False):
-        super(Repeat, self).compile()
-        compiled = self.child.compile(ignore_tags)
+        compiled = self._compiled_children[0].compile(ignore_tags)
         if self.tag and not ignore_tags:
             return "(%s)+%s" % (compiled, self.compiled_tag)
         else:
@@ -1759,8 +1758,7 @@ class KleeneStar(Repeat):
         <kleene> = (please)* don't crash;
     """
     def compile(self, ignore_tags=False):
-        super(Repeat, self).compile()
-        compiled = self.child.compile(ignore_tags)
+        compiled = self._compiled_children[0].compile(ignore_tags)
         if self.tag and not ignore_tags:
             return "(%s)*%s" % (compiled, self.compiled_tag)
         else:
@@ -1792,8 +1790,7 @@ class OptionalGrouping(SingleChildExpansion):
     Class for expansions that can be optionally spoken in a rule.
     """
     def compile(self, ignore_tags=False):
-        super(OptionalGrouping, self).compile()
-        compiled = self.child.compile(ignore_tags)
+        compiled = self._compiled_children[0].compile(ignore_tags)
         if self.tag and not ignore_tags:
             return "[%s]%s" % (compiled, self.compiled_tag)
         else:
@@ -1821,9 +1818,8 @@ class RequiredGrouping(Sequence):
     """
     def compile(self, ignore_tags=False):
         # Don't use Sequence.compile because that would compile each child twice.
-        super(Sequence, self).compile()
         grouping = " ".join([
-            e.compile(ignore_tags) for e in self.children
+            e.compile(ignore_tags) for e in self._compiled_children
         ])
 
         if self.tag and not ignore_tags:
@@ -1975,8 +1971,7 @@ class AlternativeSet(VariableChildExpansion):
                                    "value" % e)
 
     def compile(self, ignore_tags=False):
-        super(AlternativeSet, self).compile()
-        if self._weights:
+        if self._weights and self.children:
             self._validate_weights()
 
             # Create a string with w=weight and e=compiled expansion
@@ -1989,7 +1984,7 @@ class AlternativeSet(VariableChildExpansion):
         else:
             # Or do the same thing without the weights
             alt_set = "|".join([
-                e.compile(ignore_tags) for e in self.children
+                e.compile(ignore_tags) for e in self._compiled_children
             ])
 
         if self.tag and not ignore_tags:
-- 
2.43.0


From 22164c027915cd8b085376b0c0d6256dedb820b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:36 +0000
Subject: [PATCH 96/98] fix: comments are not part of names

---
 jsgf/parser.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/jsgf/parser.py b/jsgf/parser.py
index 1ef2bff..ab95855 100644
--- a/jsgf/parser.py
+++ b/jsgf/parser.py
@@ -105,6 +105,14 @@ from .references import (optionally_qualified_name, import_name, grammar_name,
 from .rules import Rule
 
 
+# Use copies of the parser elements for names and words because ParserElement.ignore()
+# changes elements in place. The originals are used for checking whether names are valid
+# and comments are not part of a name.
+optionally_qualified_name = optionally_qualified_name.copy()
+import_name = import_name.copy()
+grammar_name = grammar_name.copy()
+word = word.copy()
+
 # Define angled brackets that don't appear in the output.
 langle, rangle = map(Suppress, "<>")
 
-- 
2.43.0


From d587d906b0d1bb3facafb17eaaf9c23f0dd1fc04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:07 +0000
Subject: [PATCH 97/98] fix: a disabled rule isn't matched any more

---
 jsgf/rules.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/jsgf/rules.py b/jsgf/rules.py
index e7cc3ad..633ff24 100644
--- a/jsgf/rules.py
+++ b/jsgf/rules.py
@@ -266,6 +266,11 @@ class Rule(references.BaseRef):
         :returns: bool
         """
         if not self._active:
+            # Discard the match data of any previous match. That of referenced rules
+            # isn't this rule's to discard; other rules may be using it.
+            map_expansion(self.expansion, lambda x: x.reset_match_data(),
+                          shallow=True)
+            self.expansion._current_match = None
             return False
 
         # Strip whitespace at the start of 'speech' and lower it to match regex
@@ -343,6 +348,10 @@ class Rule(references.BaseRef):
 
         :returns: list
         """
+        # Referenced rules may have been matched without this one.
+        if not self.was_matched and not self.expansion.had_match:
+            return []
+
         # Get tagged and matching expansions in this rule and referenced rules.
         tagged_expansions = filter_expansion(
             self.expansion, lambda e: e.tag and e.had_match,
-- 
2.43.0


From bbe27a66df90f183a498ec670a6cb5800d769457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:29 +0000
Subject: [PATCH 98/98] fix: renaming can't give a rule the name of another
 rule in its grammar

---
 jsgf/rules.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/jsgf/rules.py b/jsgf/rules.py
index 633ff24..2ff7e28 100644
--- a/jsgf/rules.py
+++ b/jsgf/rules.py
@@ -60,6 +60,13 @@ class Rule(references.BaseRef):
 
     @name.setter
     def name(self, value):
+        # Rule names are unique, as for Grammar.add_rule.
+        grammar = getattr(self, "grammar", None)
+        if grammar is not None and any(rule is not self and rule.name == value
+                                       for rule in grammar.rules):
+            raise GrammarError("JSGF grammars cannot have multiple rules with the same "
+                               "name")
+
         # Invalidate the matcher elements of any references to this rule because they
         # don't reference it any more.
         if getattr(self, "_expansion", None):
-- 
2.43.0

