"""
C16: the compiled root grammar has one public rule, which matches exactly the speech
that some visible enabled rule of the grammar matches.
"""
import os
import shutil
import tempfile

from .base import *
import jsgf
from jsgf.parser import parse_grammar_string, parse_grammar_file


class C16(Prop):
    id = "C16"

    def case(self, src, rec):
        cfg = M.Cfg(depth=src.between(1, 2), width=3, tags=15, weights=15,
                    words=M.WORDS[:5] if src.chance(60) else M.WORDS, case=0)
        rules, names = M.gen_rules(src, cfg, 4)
        cs = src.chance(25)
        for n in rules.rules.values():
            for x in n.walk():
                if x.weights and len(x.kids) < 2:
                    # The text of one weighted alternative cannot be parsed (C01).
                    x.weights = None
                if x.kind == "lit":
                    x.cs = cs
        visible = {n: src.chance(65) for n in names}
        used = {x.name for n in names for x in rules[n].walk() if x.kind == "ref"}
        # A reference to a disabled rule could not be resolved in the compiled text.
        active = {n: n in used or not src.chance(15) for n in names}
        root = src.chance(40)
        objs = {}
        if root:
            g = jsgf.RootGrammar(name=src.pick(("root", "gram", "com.x.gram")),
                                 case_sensitive=cs)
        else:
            g = jsgf.Grammar(src.pick(("gram", "com.x.gram")), case_sensitive=cs)
        M.build_grammar(rules, names, objs, visible, g, case_sensitive=cs)
        for n in names:
            if not active[n]:
                g.disable_rule(n)
            rec.show("%s%s%s = %s" % ("public " * visible[n], n,
                                      " (off)" * (not active[n]), rules[n]))
        before = [(r.name, r.visible, r.active, r.case_sensitive) for r in g.rules]
        text = g.compile_as_root_grammar()
        check_eq([(r.name, r.visible, r.active, r.case_sensitive) for r in g.rules],
                 before, "unchanged", "attributes of the rules after compiling")
        if root:
            check_eq(g.compile(), text, "compile", "RootGrammar.compile()")
        shown = [n for n in names if visible[n] and active[n]]
        on = [n for n in names if active[n]]
        if not shown:
            check_eq(text, "#JSGF V1.0;\ngrammar %s;\n" % g.name, "none",
                     "text without visible rules")
            return
        if src.chance(4):
            text2, g2 = self.file(src, g, root)
            check_eq(text2, text, "file", "contents of the compiled file")
        else:
            g2 = parse_grammar_string(text)
        check_eq(g2.name, g.name, "name", "name of the parsed grammar")
        check_eq(g2.rule_names, ["root"] + on, "names", "rules of the parsed grammar")
        check_eq([r.name for r in g2.visible_rules], ["root"], "public",
                 "public rules of the parsed grammar")
        e = g2.get_rule("root").expansion
        refs = [x.name for x in tree_nodes(e) if isinstance(x, jsgf.NamedRuleRef)]
        check_eq(refs, shown, "refs", "references of the root rule")
        check(not [x for x in tree_nodes(e) if isinstance(x, (
            jsgf.OptionalGrouping, jsgf.Repeat))], "refs", "root rule %s", e)
        g2.case_sensitive = cs
        for _ in range(src.between(1, 3)):
            n = rules[src.pick(shown)]
            words = M.gen_speech(src, n, rules)
            lang = M.Lang(rules, words)
            if src.chance(15):
                words = [w.upper() for w in words]
                lang = M.Lang(rules, words)
            inside = [m for m in shown if lang.accepts(rules[m])]
            if any(not lang.greedy_accepts(rules[m]) for m in inside):
                continue
            speech = M.render_speech(src, words)
            rec.show(repr(speech))
            check_eq([r.name for r in g.find_matching_rules(speech)], inside, "match",
                     "rules matching %r" % speech)
            got = [r.name for r in g2.find_matching_rules(speech)]
            check_eq(got, ["root"] if inside else [], "root-match",
                     "rules of the root grammar matching %r" % speech)
            if inside and words:
                rec.nontrivial((rec.lines, speech))

    def file(self, src, g, root):
        d = tempfile.mkdtemp(prefix="vp16")
        try:
            path = os.path.join(d, "g.jsgf")
            if root and src.chance(50):
                g.compile_to_file(path)
            else:
                g.compile_to_file(path, True)
            with open(path) as f:
                return f.read(), parse_grammar_file(path)
        finally:
            shutil.rmtree(d)


PROP = C16()
