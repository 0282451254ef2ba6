"""
C11: copies and unpickled objects are equal to, independent of and work like the
originals.

Oracle: structure, links and match data of the copy are those of the original; changing
one does not change the other.
"""
import copy
import pickle

from .base import *
import jsgf
from jsgf.ext import Dictation, DictationGrammar, SequenceRule


def all_nodes(rule_or_expansion):
    e = getattr(rule_or_expansion, "expansion", rule_or_expansion)
    return tree_nodes(e)


def change_literal(e):
    """Change some literal of the tree; None if there is none."""
    for x in tree_nodes(e):
        if type(x) is jsgf.Literal:
            x.text = x.text + " changed"
            return x
    return None


class C11(Prop):
    id = "C11"

    def case(self, src, rec):
        kind = src.weighted([(5, "deep copy"), (2, "shallow copy"),
                             (3, "pickle expansion"), (2, "pickle rule"),
                             (3, "pickle grammar"), (2, "dictation")])
        rec.show(kind)
        rec.label(kind)
        if kind == "dictation":
            return self.dictation(src, rec)
        cfg = M.Cfg(wide=3, chain=2, depth=src.between(1, 3), width=3, weights=40, case=30, tags=40,
                    tag_rep=True, dictation=src.chance(15), empty_groups=60,
                    unique=src.chance(60))
        rules, names = M.gen_rules(src, cfg)
        self.has_dict = any(x.kind == "dict" for r in rules.rules.values()
                            for x in r.walk())
        objs, libs = {}, {}
        for name in reversed(names):
            libs[name] = jsgf.Rule(name, src.chance(60), M.build(
                rules[name], objs, lambda n: jsgf.RuleRef(libs[n])
                if src.chance(40) else jsgf.NamedRuleRef(n)))
        g = src.pick((jsgf.Grammar, jsgf.RootGrammar))(name="gram")
        g.case_sensitive = src.chance(20)
        for name in names:
            g.add_rule(libs[name])
            rec.show("%s = %s" % (name, M.show(rules[name])))
        if src.chance(50):
            for x in rules.rules.values():
                for y in x.walk():
                    if y.kind == "lit":
                        objs[id(y)].case_sensitive = y.cs
        if src.chance(40):
            g.add_import(jsgf.Import("com.example.%s" % src.pick(("a", "b.*"))))
        if src.chance(30):
            g.language_name, g.charset_name = "en", "utf-8"
        for _ in range(src.below(3)):
            name = src.pick(names)
            speech = M.render_speech(src, M.gen_speech(src, rules[name], rules),
                                     case=True)
            libs[name].matches(speech)
            rec.show("%s.matches(%r)" % (name, speech))
        if src.chance(20):
            libs[src.pick(names)].disable()
        self.rules, self.names, self.libs, self.g = rules, names, libs, g
        getattr(self, "do_" + kind.replace(" ", "_"))(src, rec)
        rec.nontrivial([kind] + [M.show(rules[n]) for n in names])

    # ------------------------------------------------------------------ copies

    def do_deep_copy(self, src, rec):
        rule = self.libs[src.pick(self.names)]
        e = src.pick(tree_nodes(rule.expansion))
        how = src.below(3)
        before = describe(rule.expansion)
        data = match_snapshot(tree_nodes(rule.expansion))
        parent = e.parent
        c = (lambda: e.copy(), lambda: copy.deepcopy(e),
             lambda: e.copy(shallow=False))[how]()
        rec.show("copy of %r" % e)
        self.same_tree(e, c)
        check(c == e or self.has_dict, "equal", "copy %r is not equal to %r", c, e)
        check(c.parent is None, "parent", "the copy has parent %r", c.parent)
        check(e.parent is parent, "moved", "parent of the original changed")
        check_eq(describe(rule.expansion), before, "original", "the original")
        check_eq(match_snapshot(tree_nodes(rule.expansion)), data, "original-data",
                 "match data of the original")
        mine = {id(x) for x in tree_nodes(e)}
        for x in tree_nodes(c):
            check(id(x) not in mine, "shared", "%r is shared", x)
            check(x.rule is None, "rule", "the copy %r has rule %r", x, x.rule)
            check(x.root_expansion is c, "root", "root of %r", x)
        check(links_ok(c, None), "links", "parent links of the copy")
        for x, y in zip(tree_nodes(e), tree_nodes(c)):
            if isinstance(x, jsgf.RuleRef):
                check(x.referenced_rule is y.referenced_rule, "ref",
                      "rule referenced by a copied RuleRef")
        self.compiles_like(c, e)
        # The copy of a whole expansion can be used in place of the original.
        if parent is None and not self.has_dict:
            g2 = type(self.g)(name="gram")
            for name in self.names:
                if name == rule.name:
                    r = jsgf.Rule(name, True, c)
                else:
                    r = jsgf.Rule(name, True, self.libs[name].expansion.copy())
                g2.add_rule(r)
            cs = [(x.case_sensitive, y) for n in self.names for x, y in zip(
                tree_nodes(self.libs[n].expansion),
                tree_nodes(g2.get_rule_from_name(n).expansion))
                if isinstance(x, jsgf.Literal)]
            for v, y in cs:
                y.case_sensitive = v
            speech = self.speech(src, rule.name)
            rule.enable()
            rec.show("matches(%r)" % speech)
            check_eq(g2.get_rule_from_name(rule.name).matches(speech),
                     rule.matches(speech), "matches", "copy.matches(%r)" % speech)
            check_eq(match_snapshot(tree_nodes(c)),
                     match_snapshot(tree_nodes(rule.expansion)), "data",
                     "match data of the copy")
        # Changes of one do not reach the other.
        for a, b in ((e, c), (c, e)):
            text = describe(b)
            comp = self.compiled(b)
            x = change_literal(a)
            if x is not None:
                rec.label("changed")
            for y in tree_nodes(a):
                if isinstance(y, jsgf.AlternativeSet) and y.weights:
                    y.set_weight(0, 77)
                    break
            if len(a.children) > 1 and src.chance(50):
                a.children.pop()
            a.tag = "changed"
            check_eq(describe(b), text, "independent", "after changing the other")
            check_eq(self.compiled(b), comp, "independent-compiled",
                     "compiled after changing the other")

    def do_shallow_copy(self, src, rec):
        rule = self.libs[src.pick(self.names)]
        e = src.pick(tree_nodes(rule.expansion))
        rec.show("shallow copy of %r" % e)
        want, comp = describe(e), self.compiled(e)
        kids = list(e.children)
        c = src.pick((lambda: e.copy(shallow=True), lambda: copy.copy(e)))()
        check(c is not e and type(c) is type(e), "type", "%r is a copy of %r", c, e)
        check_eq(describe(c), want, "shallow", "the shallow copy")
        check_eq(self.compiled(c), comp, "shallow-compiled", "the shallow copy compiled")
        check(len(kids) == len(c.children) and
              all(x is y for x, y in zip(kids, c.children)), "children",
              "children of the shallow copy are %r", c.children)
        check(links_ok(c, None), "links", "parent links of the shallow copy")
        # Only the children are shared.
        a, b = (c, e) if src.chance(60) else (e, c)
        text, comp = describe(b), self.compiled(b)
        a.tag = "changed"
        if isinstance(a, jsgf.AlternativeSet) and a.weights:
            i = src.below(len(a.children))
            if src.chance(50):
                a.set_weight(i, 77)
            else:
                a.weights = {i: 77}
            rec.label("shallow weights")
            check("/77.0000/" in a.compile(), "set-weight", "weight of %r not set", a)
        if isinstance(a, jsgf.Literal) and type(a) is jsgf.Literal:
            a.case_sensitive = not a.case_sensitive
            a.text += " changed"
        check_eq(describe(b), text, "shallow-independent", "after changing the other")
        check_eq(self.compiled(b), comp, "shallow-independent",
                 "compiled after changing the other")

    def same_tree(self, e, c):
        check_eq(describe(c), describe(e), "same", "structure of the copy")
        check_eq([type(x) for x in tree_nodes(c)], [type(x) for x in tree_nodes(e)],
                 "types", "types of the copy")

    def compiled(self, e):
        return e.compile(), e.compile(ignore_tags=True)

    def compiles_like(self, c, e):
        check_eq(self.compiled(c), self.compiled(e), "compile", "the compiled copy")

    def speech(self, src, name):
        return M.render_speech(src, M.gen_speech(src, self.rules[name], self.rules),
                               case=True)

    # ------------------------------------------------------------------ pickling

    def roundtrip(self, src, x):
        protocol = src.pick((2, 0, 1, 3, 4, 5))
        return pickle.loads(pickle.dumps(x, protocol))

    def do_pickle_expansion(self, src, rec):
        rule = self.libs[src.pick(self.names)]
        nodes = tree_nodes(rule.expansion)
        i = src.below(len(nodes))
        e = nodes[i]
        if src.chance(40):
            # An expansion that does not belong to any rule.
            e = e.copy()
            c = self.roundtrip(src, e)
            self.same_tree(e, c)
            check(c == e or self.has_dict, "equal", "%r is not equal to %r", c, e)
            self.compiles_like(c, e)
            check(links_ok(c, None), "links", "parent links")
            return
        rec.show("pickling %r" % e)
        c = self.roundtrip(src, e)
        check(c is not e, "same", "unpickled the same object")
        root = c.root_expansion
        check(any(x is c for x in tree_nodes(root)), "in tree",
              "the unpickled expansion is not in its tree")
        check(tree_nodes(root)[i] is c, "position", "position of the expansion in "
              "its tree")
        check(root.rule is not None and root.rule.name == rule.name, "rule",
              "rule of the expansion: %r", root.rule)
        self.grammars_alike(src, rec, root.rule.grammar)

    def do_pickle_rule(self, src, rec):
        rule = self.libs[src.pick(self.names)]
        r = self.roundtrip(src, rule)
        check_eq((r.name, r.visible, r.case_sensitive, r.active),
                 (rule.name, rule.visible, rule.case_sensitive, rule.active),
                 "attributes", "attributes of the rule")
        check(r is r.grammar.get_rule_from_name(r.name), "rule", "the rule is not in "
              "its grammar")
        self.grammars_alike(src, rec, r.grammar)

    def do_pickle_grammar(self, src, rec):
        self.grammars_alike(src, rec, self.roundtrip(src, self.g))

    def grammars_alike(self, src, rec, g):
        check(type(g) is type(self.g) and g is not self.g, "grammar", "%r", g)
        check(g == self.g or self.has_dict, "equal-grammar", "grammars are not equal")
        check_eq((g.name, g.jsgf_header, g.case_sensitive, g.imports, g.rule_names),
                 (self.g.name, self.g.jsgf_header, self.g.case_sensitive,
                  self.g.imports, self.g.rule_names), "attributes",
                 "attributes of the grammar")
        for name in self.names:
            a, b = self.libs[name], g.get_rule_from_name(name)
            check(a is not b and type(a) is type(b), "rule-object", "%r, %r", a, b)
            self.same_tree(a.expansion, b.expansion)
            check(links_ok(b.expansion, None), "links", "parent links of %s", name)
            check(b.grammar is g, "rule.grammar", "grammar of %s", name)
            check_eq((b.visible, b.case_sensitive, b.active),
                     (a.visible, a.case_sensitive, a.active), "rule-attributes", name)
            check_eq(b.compile(), a.compile(), "compile", "compiled rule %s" % name)
            for x in tree_nodes(b.expansion):
                check(x.rule is b, "rule-link", "rule of %r is %r", x, x.rule)
                if isinstance(x, jsgf.NamedRuleRef):
                    check(x.referenced_rule is g.get_rule_from_name(x.name), "ref",
                          "%r references a rule outside its grammar", x)
            check_eq(match_snapshot(tree_nodes(b.expansion)),
                     match_snapshot(tree_nodes(a.expansion)), "data",
                     "match data of %s" % name)
            check_eq(b.was_matched, a.was_matched, "was_matched", name)
            check_eq(b.tags, a.tags, "tags", name)
            check_eq(sorted(r.name for r in b.dependencies),
                     sorted(r.name for r in a.dependencies), "dependencies", name)
        check_eq(g.compile(), self.g.compile(), "grammar-compile", "compiled grammar")
        if not self.has_dict:
            for _ in range(2):
                name = src.pick(self.names)
                speech = self.speech(src, name)
                rec.show("%s.matches(%r)" % (name, speech))
                a, b = self.libs[name], g.get_rule_from_name(name)
                check_eq(b.matches(speech), a.matches(speech), "matches",
                         "%s.matches(%r)" % (name, speech))
                check_eq(match_snapshot(tree_nodes(b.expansion)),
                         match_snapshot(tree_nodes(a.expansion)), "new-data",
                         "match data of %s" % name)
                check_eq(b.matched_tags, a.matched_tags, "matched_tags", name)
        # Changing one does not change the other.
        before = g.compile()
        for name in self.names:
            change_literal(self.libs[name].expansion)
            self.libs[name].visible = not self.libs[name].visible
        check_eq(g.compile(), before, "independent", "after changing the original")

    # ------------------------------------------------------------------ dictation

    def dictation(self, src, rec):
        """Sequence rules and dictation grammars, also half way through."""
        def piece():
            if src.chance(50):
                return Dictation()
            x = jsgf.Literal(src.pick(M.WORDS))
            return x if src.chance(70) else jsgf.AlternativeSet(x, src.pick(M.WORDS))
        g = DictationGrammar(name="dict")
        rules = []
        for i in range(src.between(1, 3)):
            kids = [piece() for _ in range(src.between(1, 3))]
            # A dictation directly followed by another one is the same as one.
            e = jsgf.Sequence(*kids)
            if src.chance(30):
                e.tag = "t"
            r = jsgf.Rule("r%d" % i, src.chance(85), e)
            rules.append(r)
            g.add_rule(r)
            rec.show(r)

        def words():
            return " ".join(src.pick(M.WORDS + M.NOISE)
                            for _ in range(src.between(1, 2)))
        for _ in range(src.below(3)):
            s = words()
            g.find_matching_rules(s)
            rec.show("find_matching_rules(%r)" % s)
        if src.chance(20):
            g.disable_rule("r0")
        what = src.below(3)
        if what == 0:
            h = self.roundtrip(src, g)
        elif what == 1:
            rule = src.pick(rules)
            r = self.roundtrip(src, rule)
            check_eq(describe(r.expansion), describe(rule.expansion), "dict-rule",
                     "unpickled rule")
            return rec.nontrivial(rec.lines)
        else:
            gen = src.pick(sorted(g.get_generated_rules(src.pick(rules)),
                                  key=lambda r: r.name))
            r = self.roundtrip(src, gen)
            check(type(r) is type(gen), "dict-type", "%r", r)
            check_eq((r.name, r.visible, describe(r.expansion), r.active, r.compile()),
                     (gen.name, gen.visible, describe(gen.expansion), gen.active,
                      gen.compile()), "generated", "unpickled generated rule")
            if isinstance(gen, SequenceRule):
                self.sequences_alike(r, gen)
            s = words()
            check_eq(r.matches(s), gen.matches(s), "gen-matches", "matches(%r)" % s)
            return rec.nontrivial(rec.lines)
        check_eq(self.state(h), self.state(g), "dict-state", "unpickled grammar")
        for _ in range(src.between(1, 3)):
            s = words()
            rec.show("find_matching_rules(%r)" % s)
            a, b = g.find_matching_rules(s), h.find_matching_rules(s)
            check_eq([r.name for r in b], [r.name for r in a], "dict-matches", s)
            for x, y in zip(a, b):
                check_eq(h.get_original_rule(y).name, g.get_original_rule(x).name,
                         "original", x.name)
                check_eq(match_snapshot(tree_nodes(h.get_original_rule(y).expansion)),
                         match_snapshot(tree_nodes(g.get_original_rule(x).expansion)),
                         "original-data", "data of the original rule of %s" % x.name)
            check_eq(self.state(h), self.state(g), "dict-state2", "unpickled grammar")
        rec.nontrivial(rec.lines)

    def sequences_alike(self, r, gen):
        check_eq([describe(x) for x in r.expansion_sequence],
                 [describe(x) for x in gen.expansion_sequence], "sequence",
                 "expansion_sequence")
        check_eq(describe(r.original_expansion), describe(gen.original_expansion),
                 "original_expansion", "original_expansion")
        check_eq((r.can_repeat, r.refuse_matches, r.entire_match, r.tags),
                 (gen.can_repeat, gen.refuse_matches, gen.entire_match, gen.tags),
                 "seq-state", "state of the sequence rule")
        check(r.expansion in r.expansion_sequence, "current", "current expansion")

    def state(self, g):
        return (g.name, g.compile(), g.compile_as_root_grammar(),
                sorted(r.name for r in g.rules),
                sorted((r.name, r.active, r.visible, r.was_matched)
                       for r in g.rules), [r.name for r in g.match_rules])


PROP = C11()
