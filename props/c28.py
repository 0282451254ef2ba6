"""
C28: looking at grammars, rules and expansions changes nothing.

Oracle: everything observable before and after each call, and a second grammar with
the same history of matches that was never looked at.
"""
import contextlib
import io
import os
import pickle
import shutil
import tempfile

from .base import *
import jsgf
from jsgf import TraversalOrder
from jsgf.expansions import JointTreeContext
from jsgf.ext import Dictation
from jsgf.ext import expansions as X

ORDERS = (TraversalOrder.PreOrder, TraversalOrder.PostOrder)

ERRORS = (jsgf.GrammarError, jsgf.errors.JSGFImportError)


def spoil(x):
    """Change a list, set or dictionary that was returned."""
    if isinstance(x, list):
        x.reverse()
        x.append("spoilt")
        del x[:1]
    elif isinstance(x, set):
        x.add("spoilt")
    elif isinstance(x, dict):
        x.clear()


class C28(Prop):
    id = "C28"

    def case(self, src, rec):
        if src.chance(6):
            return self.imports_case(src, rec)
        cfg = M.Cfg(empty_groups=60, wide=3, chain=2, depth=src.between(1, 3), width=3, tags=25, weights=25, case=10,
                    dictation=src.chance(25), words=M.WORDS[:src.pick((3, 13))])
        rules, names = M.gen_rules(src, cfg)
        visible = {k: src.chance(75) for k in names}
        grammars = []
        cls = src.pick((jsgf.Grammar, jsgf.Grammar, jsgf.RootGrammar))
        for _ in range(2):
            g = M.build_grammar(rules, names, visible=visible,
                                grammar=cls("gram") if cls is jsgf.Grammar else
                                cls(name="gram"))
            g.add_import(jsgf.Import("a.b.c"))
            grammars.append(g)
        for name in names:
            rec.show("%s = %s" % (name, M.show(rules[name])))
        used, twin = grammars
        ops = 0
        for _ in range(src.between(1, 3)):
            name = src.pick(names)
            speech = M.render_speech(src, M.gen_speech(src, rules[name], rules))
            rec.show("%s.matches(%r)" % (name, speech))
            got = used.get_rule(name).matches(speech)
            want = twin.get_rule(name).matches(speech)
            check_eq(got, want, "twin", "%s.matches(%r)" % (name, speech))
            if src.chance(15):
                for g in grammars:
                    (g.enable_rule if g.get_rule(name).active is False else
                     g.disable_rule)(name)
            before = self.state(used)
            check_eq(before, self.state(twin), "twin", "state of the grammar")
            for _ in range(src.between(1, 6)):
                kind = src.pick(("expansion", "rule", "grammar"))
                what = getattr(self, kind)(src, rec, used)
                check_eq(self.state(used), before, "pure", "state after %s" % what)
                ops += 1
        name = src.pick(names)
        speech = M.render_speech(src, M.gen_speech(src, rules[name], rules))
        rec.show("%s.matches(%r)" % (name, speech))
        check_eq(used.get_rule(name).matches(speech),
                 twin.get_rule(name).matches(speech), "twin", "last match")
        check_eq(self.state(used), self.state(twin), "twin", "state at the end")
        rec.nontrivial(rec.lines)
        rec.label("ops %d" % min(ops, 12))

    def imports_case(self, src, rec):
        """Looking at a grammar whose rules are imported from files."""
        d = tempfile.mkdtemp(prefix="verif-c28-")
        cwd = os.getcwd()
        os.chdir(d)
        try:
            self.imports_run(src, rec)
        finally:
            os.chdir(cwd)
            shutil.rmtree(d)

    def imports_run(self, src, rec):
        words = src.shuffle(("ape", "bat", "cat", "dog"))
        files = src.shuffle(("x", "a.x", "a.b.y"))[:src.between(1, 3)]
        for i, f in enumerate(files):
            with io.open(f + ".jsgf", "w") as out:
                out.write(u"#JSGF V1.0;\ngrammar %s;\npublic <r%d> = %s;\n"
                          u"public <s> = <r%d> %s;\n<t> = x;\n"
                          % (f, i, words[i], i, words[3]))
        options = [f + "." + r for i, f in enumerate(files)
                   for r in ("*", "s", "r%d" % i)]
        imports = src.shuffle(options)[:src.between(1, 4)]
        if src.chance(15):
            imports.append(src.pick(("a.none.r", files[0] + ".t")))
        used, twin = [jsgf.Grammar("main") for _ in range(2)]
        for g in (used, twin):
            g.add_imports(*[jsgf.Import(i) for i in imports])
            g.add_rule(jsgf.PublicRule("own", jsgf.AlternativeSet(
                "zebra", jsgf.NamedRuleRef(imports[0] if imports[0][-1] != "*" else
                                           imports[0][:-1] + "s"))))
        rec.show("files %r, imports %r" % (files, imports))
        names = ["s", "r0", "r1", "t", "own"] + [
            "%s.%s" % (n, r) for f in files for n in {f, f.split(".")[-1]}
            for r in ("s", "r0", "r1", "t")]

        def look(g, name):
            try:
                return repr(g.get_rule(name)), g.get_rule(name).grammar.name
            except ERRORS as e:
                return type(e).__name__

        def matched(g, speech):
            try:
                return g.find_matching_rules(speech) != []
            except ERRORS as e:
                return type(e).__name__

        def tried(f):
            try:
                return f()
            except ERRORS as e:
                return type(e).__name__
        ops = {
            "resolve_imports": lambda: tried(used.resolve_imports) and None,
            "resolve": lambda: [tried(i.resolve) and None for i in used.imports],
            "result of resolve_imports": lambda: spoil(tried(used.resolve_imports)),
            "added to the result of resolve_imports": lambda: self.put(
                tried(used.resolve_imports)),
            "result of resolve": lambda: [spoil(tried(i.resolve))
                                          for i in used.imports],
            "imports": lambda: spoil(used.imports),
            "import_names": lambda: spoil(used.import_names),
            "compile": used.compile, "root": used.compile_as_root_grammar,
            "str": lambda: str(used), "pickle": lambda: pickle.dumps(used) and None,
            "get_rules": lambda: tried(lambda: spoil(used.get_rules("own"))),
            "dependencies": lambda: tried(
                lambda: spoil(used.get_rule("own").dependencies)),
            "tags": lambda: tried(lambda: spoil(used.get_rule("own").tags)),
            "find_tagged_rules": lambda: tried(lambda: spoil(
                used.find_tagged_rules("t"))),
        }
        for _ in range(src.between(2, 8)):
            if src.chance(40):
                name = src.pick(names)
                rec.show("get_rule(%r)" % name)
                check_eq(look(used, name), look(twin, name), "twin",
                         "get_rule(%r)" % name)
            elif src.chance(30):
                speech = src.pick(("zebra", words[0], words[1],
                                   words[0] + " " + words[3]))
                rec.show("find_matching_rules(%r)" % speech)
                check_eq(matched(used, speech), matched(twin, speech), "twin",
                         "find_matching_rules(%r)" % speech)
            else:
                what = src.pick(sorted(ops))
                rec.show(what)
                self.twice(what, ops[what])
                check_eq(used.import_names, imports, "pure", "imports after " + what)
        check_eq([look(used, n) for n in names], [look(twin, n) for n in names],
                 "twin", "rules found at the end")
        rec.label("imports")
        rec.nontrivial(rec.lines)

    def put(self, memo):
        if isinstance(memo, dict):
            for k in list(memo):
                memo[k] = jsgf.PublicRule("spoilt", "spoilt")

    def state(self, g):
        out = [g.name, g.jsgf_header, g.rule_names, g.import_names, g.case_sensitive]
        for r in g.rules:
            nodes = tree_nodes(r.expansion)
            out.append([r.name, r.visible, r.active, r.was_matched, r.case_sensitive,
                        r.grammar is g, describe(r.expansion), match_snapshot(nodes),
                        [n.rule is r for n in nodes], links_ok(r.expansion, r)])
        return out

    def twice(self, what, f, same=True, spoiling=True):
        """Call f twice; the caller may do what it wants with returned lists."""
        a = f()
        shown = repr(a) if same else None
        if spoiling:
            spoil(a)
        b = f()
        if same:
            check_eq(repr(b), shown, "again", "%s the second time" % what)
        if spoiling:
            spoil(b)

    # -- calls

    def expansion(self, src, rec, g):
        r = src.pick(g.rules)
        nodes = tree_nodes(r.expansion)
        e, other = src.pick(nodes), src.pick(nodes)
        if src.chance(20):
            other = src.pick(tree_nodes(src.pick(g.rules).expansion))
        order, shallow = src.pick(ORDERS), src.chance(50)
        ops = {
            "compile": e.compile, "compile without tags": lambda: e.compile(True),
            "str": lambda: str(e), "repr": lambda: repr(e), "hash": lambda: hash(e),
            "==": lambda: e == other, "!=": lambda: e != other,
            "in": lambda: other in e,
            "collect_leaves": lambda: e.collect_leaves(order, shallow),
            "leaves": lambda: e.leaves,
            "leaves_after": lambda: list(e.leaves_after),
            "matchable_leaves_after": lambda: list(e.matchable_leaves_after),
            "is_descendant_of": lambda: e.is_descendant_of(other),
            "mutually_exclusive_of": lambda: e.mutually_exclusive_of(other),
            "flags": lambda: (e.is_optional, e.is_alternative, e.had_match,
                              e.repetition_ancestor, e.root_expansion is r.expansion),
            "tags": lambda: (e.tag, e.compiled_tag),
            "map_expansion": lambda: jsgf.map_expansion(e, lambda x: x, order, shallow),
            "flat_map_expansion": lambda: jsgf.flat_map_expansion(
                e, lambda x: x.tag, order, shallow),
            "filter_expansion": lambda: jsgf.filter_expansion(
                e, lambda x: x.current_match, order, shallow),
            "find_expansion": lambda: jsgf.find_expansion(
                e, lambda x: x is other, order, shallow),
            "save_current_matches": lambda: sorted(
                (str(k), repr(v)) for k, v in jsgf.save_current_matches(e).items()),
            "copy": e.copy,
            "pickle": lambda: pickle.loads(pickle.dumps(r)).name,
            "joint": lambda: self.joint(e, other),
            "dictation": lambda: (X.dictation_in_expansion(e),
                                  X.only_dictation_in_expansion(e),
                                  X.no_dictation_in_expansion(e)),
            "matcher_element": lambda: e.matcher_element and None,
            "children": lambda: list(e.children),
            "slice of children": lambda: e.children[:],
            "sum of children": lambda: e.children + [],
        }
        if hasattr(e, "get_expansion_matches"):
            ops["repetitions"] = lambda: (
                e.get_expansion_matches(other), e.get_expansion_slices(other),
                e.had_expansion_match(other))
            ops["expansion matches"] = lambda: e.get_expansion_matches(other)
            ops["repetitions_matched"] = lambda: e.repetitions_matched
        if not any(isinstance(x, jsgf.NamedRuleRef) for x in tree_nodes(e)):
            ops["matches of a copy"] = lambda: e.copy().matches("ape bat")
        if hasattr(e, "weights"):
            ops["weights"] = lambda: sorted(
                (str(k), v) for k, v in e.weights.items())
        if isinstance(e, jsgf.Literal) and not isinstance(e, Dictation):
            ops["matching_regex_pattern"] = lambda: e.matching_regex_pattern
        if self.few(r.expansion):
            ops["expand"] = lambda: X.expand_dictation_expansion(r.expansion)
            ops["sequence"] = lambda: X.calculate_expansion_sequence(r.expansion)
        what = src.pick(sorted(ops))
        rec.show("%s of %s in %s" % (what, e, r.name))
        self.twice(what, ops[what],
                   spoiling=what not in ("expand", "repetitions_matched"))
        if src.chance(10):
            e.generate() if self.generates(e) else None
        return what

    def few(self, e):
        return not any(isinstance(x, jsgf.NamedRuleRef) for x in tree_nodes(e)) and \
            sum(isinstance(x, (jsgf.AlternativeSet, jsgf.OptionalGrouping,
                               jsgf.KleeneStar)) for x in tree_nodes(e)) < 4

    def generates(self, e):
        return not any(isinstance(x, (jsgf.VoidRef, Dictation)) for x in tree_nodes(e))

    def joint(self, e, other):
        with JointTreeContext(e):
            return (e.is_optional, e.mutually_exclusive_of(other),
                    [x.is_optional for x in e.leaves], e.root_expansion is e)

    def rule(self, src, rec, g):
        r, other = src.pick(g.rules), src.pick(g.rules)
        ops = {
            "compile": r.compile, "compile without tags": lambda: r.compile(True),
            "str": lambda: str(r), "hash": lambda: hash(r), "==": lambda: r == other,
            "tags": lambda: sorted(r.tags), "matched_tags": lambda: r.matched_tags,
            "the tags": lambda: spoil(r.tags), "has_tag": lambda: r.has_tag("t1"),
            "dependencies": lambda: sorted(x.name for x in r.dependencies),
            "the dependencies": lambda: spoil(r.dependencies),
            "dependent_rules": lambda: sorted(x.name for x in r.dependent_rules),
            "the dependent_rules": lambda: spoil(r.dependent_rules),
            "reference_count": lambda: r.reference_count,
            "names": lambda: (r.qualified_name, r.fully_qualified_name),
            "flags": lambda: (r.was_matched, r.active, r.visible),
            "pickle": lambda: pickle.loads(pickle.dumps(r)).name,
        }
        what = src.pick(sorted(ops))
        rec.show("%s of rule %s" % (what, r.name))
        self.twice(what, ops[what])
        return what

    def grammar_file(self, g, root):
        d = tempfile.mkdtemp(prefix="verif-c28-")
        path = os.path.join(d, "g.jsgf")
        try:
            g.compile_to_file(path, root)
            with io.open(path, "rb") as f:
                return f.read()
        finally:
            with contextlib.suppress(OSError):
                os.unlink(path)
            os.rmdir(d)

    def grammar(self, src, rec, g):
        tag = src.pick(("t1", "t2", "none"))
        name = src.pick(g.rule_names)
        root = src.chance(50)
        ops = {
            "compile": g.compile, "compile_as_root_grammar": g.compile_as_root_grammar,
            "compile_to_file": lambda: self.grammar_file(g, root),
            "str": lambda: str(g), "==": lambda: g == g,
            "rules": lambda: g.rules, "visible_rules": lambda: g.visible_rules,
            "rule_names": lambda: g.rule_names, "imports": lambda: g.imports,
            "import_names": lambda: g.import_names,
            "match_rules": lambda: g.match_rules,
            "find_tagged_rules": lambda: g.find_tagged_rules(tag),
            "find_tagged_rules hidden": lambda: g.find_tagged_rules(tag, True),
            "get_rule": lambda: g.get_rule(name),
            "get_rules": lambda: g.get_rules(name, name),
            "jsgf_header": lambda: g.jsgf_header,
            "add_rule again": lambda: g.add_rule(g.get_rule(name)),
            "add_import again": lambda: g.add_import(jsgf.Import("a.b.c")),
            "pickle": lambda: pickle.loads(pickle.dumps(g)).name,
            "failing add": lambda: self.fails(g, name),
        }
        what = src.pick(sorted(ops))
        rec.show("%s of the grammar" % what)
        self.twice(what, ops[what])
        return what

    def fails(self, g, name):
        """Calls that are refused."""
        check_raises(jsgf.GrammarError,
                     lambda: g.add_rule(jsgf.Rule(name, True, "zebra")), "refused",
                     "another rule with the same name")
        if not isinstance(g, jsgf.RootGrammar):
            check_raises(TypeError, lambda: g.add_rule("rule"), "refused", "add_rule")
        check_raises(TypeError, lambda: g.add_import("a.b.c"), "refused", "add_import")
        check_raises(jsgf.GrammarError, lambda: g.disable_rule("zebra"), "refused",
                     "disable_rule")
        check_raises(jsgf.GrammarError, lambda: g.enable_rule("zebra"), "refused",
                     "enable_rule")
        check_raises(jsgf.GrammarError,
                     lambda: g.remove_rule(jsgf.Rule("zebra", True, "z")), "refused",
                     "remove_rule")
        check_raises(jsgf.GrammarError,
                     lambda: g.remove_import(jsgf.Import("x.y.z")), "refused",
                     "remove_import")
        check_raises(jsgf.GrammarError, lambda: setattr(g, "name", "a b"), "refused",
                     "name")
        used = [r for r in g.rules if r.dependent_rules]
        for r in used:
            check_raises(jsgf.GrammarError, lambda: g.remove_rule(r), "refused",
                         "remove_rule of a rule in use")


PROP = C28()
