"""
C30: calls that are refused with an error leave everything as it was.

Oracle: the documented class of error, everything observable before and after each
refused call (also of the objects given to it), and a second grammar with the same
history of matches but without the refused calls.
"""
import contextlib
import io
import os
import tempfile

from .base import *
import jsgf
from jsgf.expansions import JointTreeContext
from jsgf.ext import Dictation, DictationGrammar

BAD = (1, None, 2.5, b"x", object, {"a": 1})
BAD_NAMES = ("a b", "", "NULL", "VOID", "a<b", "x{y", " ")


class Boom(Exception):
    pass


def whole(e):
    """Structure, data and links of a tree."""
    nodes = tree_nodes(e)
    return [describe(e), match_snapshot(nodes), [id(x.parent) for x in nodes],
            [id(x.rule) for x in nodes], [id(x) for x in nodes]]


class C30(Prop):
    id = "C30"

    def case(self, src, rec):
        if src.chance(12):
            return self.dictation_grammar(src, rec)
        cfg = M.Cfg(empty_groups=60, wide=3, chain=2, depth=src.between(1, 3), width=3, tags=25, weights=30, case=10,
                    dictation=src.chance(20), words=M.WORDS[:src.pick((3, 13))])
        rules, names = M.gen_rules(src, cfg)
        visible = {k: src.chance(75) for k in names}
        cls = src.pick((jsgf.Grammar, jsgf.Grammar, jsgf.RootGrammar))
        grammars = [M.build_grammar(rules, names, visible=visible,
                                    grammar=cls(name="gram")) for _ in range(2)]
        for name in names:
            rec.show("%s = %s" % (name, M.show(rules[name])))
        used, twin = grammars
        for _ in range(src.between(1, 3)):
            name = src.pick(names)
            speech = M.render_speech(src, M.gen_speech(src, rules[name], rules))
            rec.show("%s.matches(%r)" % (name, speech))
            check_eq(used.get_rule(name).matches(speech),
                     twin.get_rule(name).matches(speech), "twin",
                     "%s.matches(%r)" % (name, speech))
            check_eq(self.text(used), self.text(twin), "twin", "state of the grammar")
            before = self.state(used)
            for _ in range(src.between(1, 5)):
                kind = src.pick(("children", "children", "attributes", "constructor",
                                 "rule", "grammar", "compiling", "callback"))
                what = getattr(self, kind)(src, rec, used)
                check_eq(self.state(used), before, "changed", "state after refusing %s"
                         % what)
                rec.label(kind)
        # Changes made now have to reach every rule that uses what was changed.
        name = src.pick(names)
        for g in grammars:
            for x in tree_nodes(g.get_rule(name).expansion):
                if type(x) is jsgf.Literal and x.text:
                    x.text = "fish"
                    break
        for _ in range(2):
            name = src.pick(names)
            words = M.gen_speech(src, rules[name], rules)
            if src.chance(50) and words:
                words[src.below(len(words))] = "fish"
            speech = M.render_speech(src, words)
            rec.show("%s.matches(%r)" % (name, speech))
            check_eq(used.get_rule(name).matches(speech),
                     twin.get_rule(name).matches(speech), "twin", "last match")
            check_eq(self.text(used), self.text(twin), "twin", "state at the end")
        rec.nontrivial(rec.lines)

    def text(self, g):
        out = [g.name, g.jsgf_header, g.rule_names, g.import_names, g.case_sensitive]
        for r in g.rules:
            nodes = tree_nodes(r.expansion)
            out.append([r.name, r.visible, r.active, r.was_matched, r.case_sensitive,
                        r.grammar is g, describe(r.expansion), match_snapshot(nodes),
                        [n.rule is r for n in nodes], links_ok(r.expansion, r)])
        return out

    def state(self, g):
        return self.text(g) + [whole(r.expansion) for r in g.rules]

    def refused(self, rec, what, exc, f, *strangers):
        """f is refused; the objects given to it are left as they were."""
        before = [whole(x) for x in strangers]
        rec.show("%s is refused" % what)
        check_raises(exc, f, "accepted", what)
        check_eq([whole(x) for x in strangers], before, "argument",
                 "objects given to %s" % what)
        return what

    # -- refused calls

    def pick(self, src, g):
        r = src.pick(g.rules)
        return r, src.pick(tree_nodes(r.expansion))

    def new(self):
        x = jsgf.Sequence("new", jsgf.OptionalGrouping("er"))
        x.tag = "n"
        return x

    def children(self, src, rec, g):
        r, e = self.pick(src, g)
        c, bad, new = e.children, src.pick(BAD), self.new()
        other = src.pick((new, self.pick(src, g)[1], "word"))
        n = len(c)
        mixed = [other, bad] if src.chance(70) else [new, other, bad]
        ops = {
            "children = bad": (TypeError, lambda: setattr(e, "children", bad)),
            "children = mixed": (TypeError, lambda: setattr(e, "children", mixed)),
            "children = old and bad": (TypeError, lambda: setattr(
                e, "children", list(c) + [bad])),
            "append": (TypeError, lambda: c.append(bad)),
            "insert": (TypeError, lambda: c.insert(src.below(n + 1), bad)),
            "extend": (TypeError, lambda: c.extend(mixed)),
            "setslice": (TypeError, lambda: c.__setitem__(
                slice(0, src.below(n + 1)), mixed)),
            "+=": (TypeError, lambda: c.__iadd__(mixed)),
            "set beyond": (IndexError, lambda: c.__setitem__(n, new)),
            "get beyond": (IndexError, lambda: c[n]),
            "pop beyond": (IndexError, lambda: c.pop(n)),
            "remove unknown": (ValueError, lambda: c.remove(new)),
            "index of unknown": (ValueError, lambda: c.index(new)),
            "parent": (TypeError, lambda: setattr(e, "parent", bad)),
        }
        if bad is None:
            del ops["parent"]
        if bad == {"a": 1} or src.chance(20):
            # Things that aren't lists at all.
            ops["extend with bad"] = (TypeError, lambda: c.extend(5))
        if n:
            ops["set"] = (TypeError, lambda: c.__setitem__(src.below(n), bad))
        if n > 1:
            ops["wrong number"] = (ValueError, lambda: c.__setitem__(
                slice(None, None, 2), [new] * ((n + 1) // 2 + 1)))
        what = src.pick(sorted(ops))
        exc, f = ops[what]
        return self.refused(rec, "%s of %s (%r)" % (what, e, bad), exc, f, new)

    def attributes(self, src, rec, g):
        r, e = self.pick(src, g)
        if src.chance(50):
            # Rather something with attributes of its own.
            some = [x for x in tree_nodes(r.expansion) if isinstance(
                x, (jsgf.AlternativeSet, jsgf.NamedRuleRef))]
            e = src.pick(some or [e])
        bad = src.pick((1, 2.5, b"x", object))
        ops = {
            "tag": (TypeError, lambda: setattr(e, "tag", bad)),
            "matching_slice": (TypeError, lambda: setattr(
                e, "matching_slice", src.pick((bad, (0, 1), "0:1")))),
        }
        if not isinstance(e, (jsgf.NullRef, jsgf.VoidRef)):
            # These two have a constant one.
            ops["current_match"] = (TypeError, lambda: setattr(e, "current_match", bad))
        if isinstance(e, jsgf.Literal):
            ops["text"] = (TypeError, lambda: setattr(e, "text", src.pick((bad, None))))
        if isinstance(e, jsgf.NamedRuleRef) and type(e) is jsgf.NamedRuleRef:
            name = src.pick(("a b", "", "a<b"))
            ops["name"] = (jsgf.GrammarError, lambda: setattr(e, "name", name))
        if isinstance(e, jsgf.AlternativeSet) and e.children:
            n = len(e.children)
            i = src.below(n)
            good = [(c, 3) for c in e.children[:i]]
            ops["negative weight"] = (TypeError, lambda: e.set_weight(
                i, src.pick((-1, -0.5, float("-inf"), float("nan"), float("inf")))))
            ops["no weight"] = ((TypeError, ValueError), lambda: e.set_weight(i, "x"))
            ops["weight of none"] = (IndexError, lambda: e.set_weight(n, 1))
            ops["weights"] = (TypeError, lambda: setattr(
                e, "weights", good + [(e.children[i], src.pick((-1, float("nan"))))]))
            ops["weights of text"] = ((TypeError, ValueError), lambda: setattr(
                e, "weights", good + [(e.children[i], "x")]))
            ops["weights of none"] = (IndexError, lambda: setattr(
                e, "weights", [(j, 2) for j in range(n + 1)]))
            ops["bad weights"] = (TypeError, lambda: setattr(e, "weights", 5))
        what = src.pick(sorted(ops))
        exc, f = ops[what]
        return self.refused(rec, "%s of %s" % (what, e), exc, f)

    def constructor(self, src, rec, g):
        r, e = self.pick(src, g)
        bad, new = src.pick(BAD), self.new()
        name = src.pick(BAD_NAMES)
        cls = src.pick((jsgf.Sequence, jsgf.AlternativeSet, jsgf.RequiredGrouping))
        ops = {
            "%s of %s and bad" % (cls.__name__, e): (TypeError, lambda: cls(e, bad)),
            "%s of new and bad" % cls.__name__: (TypeError, lambda: cls(new, bad)),
            "Expansion of bad": (TypeError, lambda: jsgf.Expansion([e, new, bad])),
            "Optional of bad": (TypeError, lambda: jsgf.OptionalGrouping(bad)),
            "Repeat of bad": (TypeError, lambda: jsgf.Repeat(bad)),
            "Literal of bad": (TypeError, lambda: jsgf.Literal(bad)),
            "Rule named %r" % name: (jsgf.GrammarError,
                                     lambda: jsgf.Rule(name, True, r.expansion)),
            "Rule of bad": (TypeError, lambda: jsgf.Rule("x", True, bad)),
            "Reference named %r" % name: (jsgf.GrammarError,
                                          lambda: jsgf.NamedRuleRef(
                                              src.pick(("a b", "", "a<b")))),
        }
        what = src.pick(sorted(ops))
        exc, f = ops[what]
        return self.refused(rec, what, exc, f, new)

    def rule(self, src, rec, g):
        r = src.pick(g.rules)
        bad, name = src.pick(BAD + (["a"], )), src.pick(BAD_NAMES)
        ops = {
            "expansion = %r" % (bad,): (TypeError,
                                        lambda: setattr(r, "expansion", bad)),
            "name = %r" % name: (jsgf.GrammarError, lambda: setattr(r, "name", name)),
        }
        what = src.pick(sorted(ops))
        exc, f = ops[what]
        return self.refused(rec, "%s of rule %s" % (what, r.name), exc, f)

    def grammar(self, src, rec, g):
        name = src.pick(g.rule_names)
        new = self.new()
        lit = src.pick(tree_nodes(new)[1:])
        cs = not g.case_sensitive
        clash = jsgf.Rule(name, src.chance(50), new, cs)
        stranger = jsgf.Rule("zebra", True, "z")
        bad, badname = src.pick(BAD), src.pick(("a b", "", "a<b", "NULL"))
        ops = {
            "add_rule of another %s" % name: (jsgf.GrammarError,
                                              lambda: g.add_rule(clash)),
            "add_rules of another %s" % name: (jsgf.GrammarError,
                                               lambda: g.add_rules(clash)),
            "add_import": (TypeError, lambda: g.add_import(bad)),
            "remove_import": (TypeError, lambda: g.remove_import(bad)),
            "remove_import of unknown": (jsgf.GrammarError,
                                         lambda: g.remove_import(jsgf.Import("x.y.z"))),
            "name": (jsgf.GrammarError, lambda: setattr(g, "name", badname)),
        }
        ops["add_rule"] = (TypeError, lambda: g.add_rule(bad))
        if type(g) is not jsgf.Grammar:
            root = jsgf.Rule("root", True, new, cs)
            ops["add_rule of root"] = (jsgf.GrammarError, lambda: g.add_rule(root))
        for f in (g.remove_rule, g.disable_rule, g.enable_rule):
            ops["%s of unknown" % f.__name__] = (
                jsgf.GrammarError, lambda f=f: f(src.pick(("zebra", stranger))))
        ops["get_rule of unknown"] = (jsgf.GrammarError, lambda: g.get_rule("zebra"))
        ops["get_rules of unknown"] = (jsgf.GrammarError,
                                       lambda: g.get_rules(name, "zebra"))
        ops["get_rule of bad"] = (TypeError, lambda: g.get_rule(bad))
        used = [r for r in g.rules if r.dependent_rules]
        if used:
            r = src.pick(used)
            ops["remove_rule of %s, which is in use" % r.name] = (
                jsgf.GrammarError, lambda: g.remove_rule(src.pick((r, r.name))))
        what = src.pick(sorted(ops))
        exc, f = ops[what]
        out = self.refused(rec, "%s of the grammar" % what, exc, f, new)
        for r in (clash, stranger):
            check(r.grammar is None, "argument", "grammar of the refused rule")
        check_eq(clash.case_sensitive, cs, "argument", "case sensitivity of the refused "
                 "rule")
        check(all(x.case_sensitive is cs for x in tree_nodes(new)
                  if isinstance(x, jsgf.Literal)), "argument", "literals of the refused "
              "rule")
        return out

    def compiling(self, src, rec, g):
        """Something can't be compiled for a while."""
        r = src.pick(g.rules)
        nodes = tree_nodes(r.expansion)
        lits = [x for x in nodes if type(x) is jsgf.Literal]
        sets = [x for x in nodes if isinstance(x, jsgf.AlternativeSet) and
                len(x.weights) > 1]
        if sets and src.chance(50):
            e, exc = src.pick(sets), jsgf.GrammarError
            key = src.pick(e.children)
            weight = e.weights.pop(key)
            key = e.children[[c is key for c in e.children].index(True)]

            def undo():
                e.set_weight(key, weight)
        elif lits:
            e, exc = src.pick(lits), jsgf.CompilationError
            text = e.text
            e.text = ""

            def undo():
                e.text = text
        else:
            return "nothing"
        root = src.chance(50)
        ops = {"compile": g.compile, "compile_as_root_grammar":
               g.compile_as_root_grammar, "compile_to_file": lambda: self.to_file(
                   g, root)}
        what = src.pick(sorted(ops))
        broken = self.state(g)
        if "root" in what or root or isinstance(g, jsgf.RootGrammar):
            # Nothing is compiled without visible rules.
            if not [x for x in g.visible_rules]:
                undo()
                return "nothing"
        self.refused(rec, "%s with %r in %s" % (what, e, r.name), exc, ops[what])
        check_eq(self.state(g), broken, "changed", "state after failing to compile")
        undo()
        return what

    def to_file(self, g, root):
        d = tempfile.mkdtemp(prefix="verif-c30-")
        path = os.path.join(d, "g.jsgf")
        try:
            with io.open(path, "w") as f:
                f.write(u"precious")
            try:
                g.compile_to_file(path, root)
            finally:
                with io.open(path) as f:
                    check_eq(f.read(), "precious", "file", "file after an error")
        finally:
            with contextlib.suppress(OSError):
                os.unlink(path)
            os.rmdir(d)

    def callback(self, src, rec, g):
        """Functions of the caller that raise."""
        r, e = self.pick(src, g)
        count = src.below(4)
        seen = []

        def f(x):
            seen.append(x)
            if len(seen) > count:
                raise Boom()

        def joint():
            with JointTreeContext(r.expansion):
                if src.chance(50):
                    src.pick(tree_nodes(r.expansion)).root_expansion
                raise Boom()

        def bad_order():
            src.pick((jsgf.map_expansion, jsgf.find_expansion,
                      jsgf.filter_expansion, jsgf.flat_map_expansion))(
                          e, lambda x: x, 7)
        ops = {"map_expansion": (Boom, lambda: [jsgf.map_expansion(e, f)
                                                for _ in range(count + 1)]),
               "JointTreeContext": (Boom, joint), "order": (ValueError, bad_order)}
        what = src.pick(sorted(ops))
        exc, f2 = ops[what]
        return self.refused(rec, "%s of %s" % (what, e), exc, f2)

    # -- DictationGrammar

    def dictation_grammar(self, src, rec):
        grammars = []
        picks = [src.below(6) for _ in range(src.between(1, 3))]
        cs = src.chance(30)

        def make(k):
            return (lambda: jsgf.Literal("ape"),
                    lambda: Dictation(),
                    lambda: jsgf.Sequence("ape", Dictation()),
                    lambda: jsgf.AlternativeSet("ape", Dictation()),
                    lambda: jsgf.Sequence(jsgf.OptionalGrouping("ape"), Dictation()),
                    lambda: jsgf.Sequence(Dictation(), "bat", Dictation()))[k]()
        for _ in range(2):
            g = DictationGrammar(name="gram", case_sensitive=cs)
            for i, k in enumerate(picks):
                g.add_rule(jsgf.PublicRule("r%d" % i, make(k)))
            grammars.append(g)
        used, twin = grammars
        rec.show("DictationGrammar of %s" % [str(make(k)) for k in picks])

        def state(g):
            return [sorted((r.name, r.compile(), r.active, r.visible, r.was_matched,
                            r.case_sensitive, r.expansion.current_match)
                           for r in g.rules),
                    sorted(r.name for r in g.match_rules), g.name, g.compile()]
        for _ in range(src.between(1, 4)):
            speech = src.pick(("ape", "ape yak", "yak", "ape bat", "bat", "yak yak", ""))
            rec.show("find_matching_rules(%r)" % speech)
            check_eq(sorted(r.name for r in used.find_matching_rules(speech)),
                     sorted(r.name for r in twin.find_matching_rules(speech)), "twin",
                     "find_matching_rules(%r)" % speech)
            check_eq(state(used), state(twin), "twin", "state of the grammar")
            before = state(used)
            name = src.pick(used.rule_names)
            new = src.pick((self.new, lambda: make(src.between(2, 4))))()
            clash = jsgf.Rule(name, True, new, not cs)
            # A rule that would be expanded to several, one with a used name.
            split = None
            if "_" in name:
                split = jsgf.Rule(name.split("_")[0], True, make(3), not cs)
            bad = src.pick(BAD)
            ops = {
                "add_rule": (TypeError, lambda: used.add_rule(bad)),
                "add_rule of another %s" % name: (jsgf.GrammarError,
                                                  lambda: used.add_rule(clash)),
                "enable_rule": (jsgf.GrammarError, lambda: used.enable_rule("zebra")),
                "disable_rule": (jsgf.GrammarError, lambda: used.disable_rule("zebra")),
                "get_rule": (jsgf.GrammarError, lambda: used.get_rule("zebra")),
                "name": (jsgf.GrammarError, lambda: setattr(used, "name", "a b")),
                "add_import": (TypeError, lambda: used.add_import(bad)),
            }
            if split is not None:
                ops["add_rule that is split"] = (jsgf.GrammarError,
                                                 lambda: used.add_rule(split))
            what = src.pick(sorted(ops))
            exc, f = ops[what]
            self.refused(rec, what, exc, f, new)
            check_eq(state(used), before, "changed", "state after refusing %s" % what)
            check(clash.grammar is None, "argument", "grammar of the refused rule")
            check_eq(clash.case_sensitive, not cs, "argument", "case sensitivity of "
                     "the refused rule")
            rec.label("DictationGrammar")
        rec.nontrivial(rec.lines)


PROP = C30()
