"""
C26: dictation grammars generate rules from those added to them, match these part by
part and compile what can be spoken next.

Oracle: a model of the grammar: per added rule the generated rules, and per generated
rule its parts, its position in them, whether matches are refused and what matched.
"""
from .base import *
from .c24 import TooBig, deep_nodes, language, product
from .c25 import SPOKEN, gen_tree, has_dict, needs_expanding
import jsgf
from jsgf.ext import Dictation, DictationGrammar, SequenceRule
from jsgf.ext.expansions import expand_dictation_expansion

NAMES = ("r", "s", "t", "r_0", "s_1")


def to_node(e):
    """The model of a library expansion, by its public attributes."""
    if isinstance(e, Dictation):
        return M.N("dict")
    if isinstance(e, jsgf.NamedRuleRef):
        return M.N("ref", name=e.referenced_rule.name)
    if isinstance(e, jsgf.Literal):
        return M.N("lit", words=e.text.split(), cs=e.case_sensitive)
    for cls, kind in ((jsgf.RequiredGrouping, "req"), (jsgf.Sequence, "seq"),
                      (jsgf.AlternativeSet, "alt"), (jsgf.OptionalGrouping, "opt"),
                      (jsgf.KleeneStar, "star"), (jsgf.Repeat, "rep")):
        if isinstance(e, cls):
            n = M.N(kind, [to_node(c) for c in e.children])
            if kind == "alt" and e.weights:
                n.weights = [e.weights[c] for c in e.children]
            return n
    raise HarnessError("unexpected %r" % e)


class Generated:
    def __init__(self, rule, original):
        self.rule, self.original = rule, original
        self.seq = isinstance(rule, SequenceRule)
        self.exps = list(rule.expansion_sequence) if self.seq else [rule.expansion]
        self.parts = [to_node(x) for x in self.exps]
        self.dict_only = [has_dict(p) for p in self.parts]
        self.enabled = True
        self.restart()

    def restart(self):
        self.pos, self.refuse = 0, False
        self.matched = [None] * len(self.parts)

    @property
    def part(self):
        return self.parts[self.pos]

    def advance(self):
        if self.pos + 1 < len(self.parts):
            self.pos, self.refuse = self.pos + 1, False

    def compiled(self, public):
        if not self.enabled or self.refuse or self.dict_only[self.pos]:
            return None
        return "%s<%s> = %s;" % ("public " if public else "", self.rule.name,
                                 self.exps[self.pos].compile())


class Original:
    def __init__(self, rule, n, kind):
        self.rule, self.n, self.kind = rule, n, kind
        self.visible = rule.visible
        self.generated = []


class State:
    def __init__(self, src):
        self.cs = src.chance(20)
        self.header = ["1.0", "", ""]
        self.name = src.pick(("default", "a.b"))
        self.originals = {}
        self.rules = M.RuleSet({})
        self.imports = []

    def all(self):
        return [x for o in self.originals.values() for x in o.generated]

    def names(self):
        out = set(self.originals)
        for x in self.all():
            out.add(x.rule.name)
        return out


class C26(Prop):
    id = "C26"

    def case(self, src, rec):
        st = State(src)
        cfg = M.Cfg(depth=src.between(1, 3), width=3, null=False, void=False,
                    tags=src.pick((0, 15)), weights=src.pick((0, 30)),
                    words=M.WORDS[:src.pick((3, 8, 13))])
        if src.chance(30):
            g = DictationGrammar([], st.name, st.cs)
        else:
            g = DictationGrammar(name=st.name, case_sensitive=st.cs)
        rec.show("DictationGrammar(name=%r, case_sensitive=%r)" % (st.name, st.cs))
        if src.chance(25):
            p = jsgf.Rule("plain", False, src.pick((
                lambda: "rabbit", lambda: jsgf.AlternativeSet("rabbit", "rat"),
                lambda: jsgf.Sequence("wild", "rabbit")))())
            g.add_rule(p)
            o = Original(p, to_node(p.expansion), "plain")
            st.plain = p
            st.originals["plain"] = o
            st.rules.rules["plain"] = o.n
            o.generated = [Generated(p, o)]
            cfg.refs = ("plain",)
            rec.show("rule plain: %s" % M.show(o.n))
        for _ in range(src.weighted([(6, 1), (1, 2), (1, 3)])):
            self.add(src, rec, st, g, cfg)
        self.wins = 0
        for _ in range(src.between(4, 14)):
            op = src.weighted([(9, "say"), (2, "add"), (1, "readd"), (1, "clash"),
                               (1, "remove"), (1, "toggle"), (1, "reset"), (1, "next"),
                               (1, "compile"), (1, "root"), (1, "attrs")])
            getattr(self, op)(src, rec, st, g, cfg)
            self.state(st, g)
        self.compile(src, rec, st, g, cfg)
        if self.wins:
            rec.nontrivial(rec.lines)
        rec.label("matches %d" % min(self.wins, 6))

    # -- operations

    def gen(self, src, cfg):
        kind = src.weighted([(3, "any"), (3, "tree"), (2, "plain"), (2, "sequence")])
        cfg.dictation = kind == "any"
        if kind in ("any", "plain"):
            n = M.gen(src, cfg)
        else:
            n = gen_tree(src, cfg, 1)
        if any(x.kind in ("rep", "star") and has_dict(x) and x.kids[0].kind != "dict"
               for x in n.walk()):
            raise Discard()
        if sum(x.kind == "dict" for x in n.walk()) > 3 or \
                sum(x.kind in ("opt", "star", "alt") for x in n.walk()) > 5:
            raise Discard()
        if kind == "sequence" and needs_expanding(n):
            kind = "any"
        return kind, n

    def make(self, st, kind, name, visible, n):
        e = M.build(n, ref=lambda name: jsgf.RuleRef(st.plain))
        cls = SequenceRule if kind == "sequence" else jsgf.Rule
        return cls(name, visible, e)

    def add(self, src, rec, st, g, cfg):
        free = [x for x in NAMES if x not in st.names()]
        if not free or len(st.originals) > 3:
            return
        kind, n = self.gen(src, cfg)
        name, visible = src.pick(free), src.chance(85)
        rule = self.make(st, kind, name, visible, n)
        rec.show("add_rule(%s %s, visible=%r: %s)" % (kind, name, visible, M.show(n)))
        count = 1
        if kind != "sequence" and has_dict(n):
            count = len(expand_dictation_expansion(rule.expansion.copy()))
            if count > 8:
                raise Discard()
            if count > 1 and any("%s_%d" % (name, i) in st.names()
                                 for i in range(count)):
                check_raises(jsgf.GrammarError, lambda: g.add_rule(rule), "names",
                             "adding a rule with used names")
                rec.label("generated name used")
                return
        if src.chance(70):
            g.add_rule(rule)
        else:
            g.add_rules(rule)
        o = Original(rule, n, kind)
        got = list(g.get_generated_rules(rule))
        rec.show("generated", got)
        check_eq(len(got), count, "generated", "number of generated rules")
        want = [name] if count == 1 else ["%s_%d" % (name, i) for i in range(count)]
        check_eq(sorted(r.name for r in got), sorted(want), "generated", "names")
        for r in got:
            check_eq(r.visible, visible, "generated", "visibility of %r" % r)
            check(g.get_original_rule(r) is rule, "original", "rule of %r", r)
            if not has_dict(n) or kind == "sequence":
                check(r is rule, "generated", "%r is not the rule itself", r)
            for e in ([r.expansion] + list(getattr(r, "expansion_sequence", ()))):
                for x in tree_nodes(e):
                    if isinstance(x, jsgf.Literal):
                        check_eq(x.case_sensitive, st.cs, "case", "of %r" % x)
        o.generated = [Generated(r, o) for r in got]
        for x in o.generated:
            # Rules without dictation have no parts, so they never refuse matches.
            check_eq(x.seq, kind == "sequence" or any(x.dict_only), "generated",
                     "whether %r is a sequence rule" % x.rule)
        if not any(getattr(r, "can_repeat", False) for r in got):
            try:
                want, have = language(rule.expansion if kind != "sequence" else
                                      rule.original_expansion), set()
                for x in o.generated:
                    have |= product([language(e) for e in x.exps])
                check_eq(have - {()}, want - {()}, "language", "of the generated rules")
            except TooBig:
                raise Discard()
        st.originals[name] = o
        rec.label("%s rule" % kind)
        if count > 1:
            rec.label("generated rules")

    def readd(self, src, rec, st, g, cfg):
        """Comparable rules are not added again."""
        names = [k for k in st.originals if k != "plain"]
        if not names:
            return
        o = st.originals[src.pick(sorted(names))]
        if any(x.pos for x in o.generated):
            return
        rec.show("add_rule(%s) again" % o.rule.name)
        if src.chance(50):
            g.add_rule(o.rule)
        else:
            rule = self.make(st, o.kind, o.rule.name, o.visible, o.n)
            rule.case_sensitive = st.cs
            if not o.rule.active:
                rule.disable()
            if rule == o.rule:
                g.add_rule(rule)

    def clash(self, src, rec, st, g, cfg):
        if not st.originals:
            return
        name = src.pick(sorted(st.names()))
        e = src.pick((lambda: jsgf.Literal("zebra"), lambda: jsgf.Sequence(
            "zebra", Dictation()), lambda: jsgf.AlternativeSet("zebra", Dictation())))()
        rec.show("add_rule(Rule(%r, %s))" % (name, e))
        check_raises(jsgf.GrammarError,
                     lambda: g.add_rule(jsgf.Rule(name, True, e)), "clash",
                     "adding another rule named %s" % name)
        rec.label("name used")

    def remove(self, src, rec, st, g, cfg):
        names = sorted(k for k in st.originals if k != "plain")
        if not names:
            return
        if src.chance(15):
            stranger = jsgf.Rule("zebra", True, "a")
            arg = src.pick(("zebra", stranger))
            rec.show("remove_rule(%r)" % (arg,))
            check_raises(jsgf.GrammarError, lambda: g.remove_rule(arg), "unknown",
                         "removing an unknown rule")
            return
        name = src.pick(names)
        o = st.originals.pop(name)
        arg = src.pick((name, o.rule))
        rec.show("remove_rule(%r)" % (arg,))
        g.remove_rule(arg)
        check_eq(list(g.get_generated_rules(o.rule)), [], "remove", "generated rules")
        if o.kind != "sequence" and src.chance(40):
            # Generated rules start from the beginning.
            for x in tree_nodes(o.rule.expansion):
                if isinstance(x, jsgf.Literal):
                    x.case_sensitive = st.cs
            if not all(x.enabled for x in o.generated):
                o.rule.enable()
            count = len(o.generated)
            new = ["%s_%d" % (name, i) for i in range(count)] if count > 1 else []
            if any(x in st.names() for x in new + [name]):
                return
            rec.show("add_rule(%s)" % name)
            g.add_rule(o.rule)
            got = list(g.get_generated_rules(o.rule))
            check_eq(sorted(r.name for r in got),
                     sorted(x.rule.name for x in o.generated), "readded", "names")
            o.generated = [Generated(r, o) for r in got]
            st.originals[name] = o
            rec.label("removed and added")

    def toggle(self, src, rec, st, g, cfg):
        names = sorted(k for k in st.originals if k != "plain")
        if not names:
            return
        o = st.originals[src.pick(names)]
        on = src.chance(50)
        arg = src.pick((o.rule.name, o.rule))
        rec.show("%s_rule(%r)" % ("enable" if on else "disable", arg))
        (g.enable_rule if on else g.disable_rule)(arg)
        for x in o.generated:
            x.enabled = on
        check_eq(o.rule.active, on, "toggle", "active of the rule")
        for x in o.generated:
            check_eq(x.rule.active, on, "toggle", "active of %r" % x.rule)
        rec.label("toggled")

    def reset(self, src, rec, st, g, cfg):
        rec.show("reset_sequence_rules()")
        g.reset_sequence_rules()
        for x in st.all():
            if x.seq:
                x.restart()
                for e in x.exps:
                    for y in tree_nodes(e):
                        check(not y.current_match and not y.had_match, "reset",
                              "match data of %r", y)

    def next(self, src, rec, st, g, cfg):
        seqs = [x for x in st.all() if x.seq]
        if not seqs:
            return
        if src.chance(30):
            seqs = src.subset(seqs)
        else:
            seqs = [src.pick(seqs)]
        for x in seqs:
            rec.show("set_next() of %s" % x.rule.name)
            x.rule.set_next()
            x.advance()
        if src.chance(50):
            g.rearrange_rules()

    def attrs(self, src, rec, st, g, cfg):
        k = src.below(5)
        if k == 0 and "plain" in st.originals:
            return
        if k == 0:
            st.cs = not st.cs
            rec.show("case_sensitive = %r" % st.cs)
            g.case_sensitive = st.cs
            for x in st.all():
                for e in x.exps + [x.original.rule.expansion]:
                    for y in tree_nodes(e):
                        if isinstance(y, jsgf.Literal):
                            check_eq(y.case_sensitive, st.cs, "case", "of %r" % y)
                x.parts = [to_node(e) for e in x.exps]
            for o in st.originals.values():
                for y in o.n.walk():
                    y.cs = st.cs
        elif k == 1:
            g.name = st.name = src.pick(("default", "x.y", "z"))
            rec.show("name = %r" % st.name)
        elif k == 2:
            g.language_name = st.header[2] = src.pick(("en", ""))
        elif k == 3:
            g.charset_name = st.header[1] = src.pick(("UTF-8", ""))
        else:
            name = src.pick(("a.b.c", "d.e.*"))
            if name in st.imports:
                st.imports.remove(name)
                g.remove_import(jsgf.Import(name))
            else:
                st.imports.append(name)
                g.add_import(jsgf.Import(name))
            rec.show("imports: %r" % st.imports)

    def say(self, src, rec, st, g, cfg):
        rules = st.all()
        if not rules:
            return
        ready = [x for x in rules if x.original.visible and not x.refuse] or rules
        x = src.pick(ready if src.chance(85) else rules)
        noise = src.chance(75)
        words = []
        if has_dict(x.part):
            for _ in range(src.between(0 if src.chance(5) else 1, 3)):
                words.append(src.pick(SPOKEN if noise else SPOKEN + M.WORDS))
        elif src.chance(85):
            M.sample(src, x.part, st.rules, words)
        else:
            words = M.gen_speech(src, x.part, st.rules)
        if src.chance(10):
            words = [w.upper() for w in words]
        advance = src.chance(80)
        text = " ".join(words)
        lang = M.Lang(st.rules, words)
        want = []
        for y in rules:
            if not y.original.visible:
                continue
            if has_dict(y.part):
                ok = bool(words)
            else:
                ok = lang.accepts(y.part)
                if ok != lang.greedy_accepts(y.part):
                    return
            if ok and y.enabled and not y.refuse:
                want.append(y)
        speech = M.render_speech(src, words)
        rec.show("find_matching_rules(%r, %r)" % (speech, advance))
        got = g.find_matching_rules(speech) if advance and src.chance(50) else \
            g.find_matching_rules(speech, advance)
        rec.show("matching", [r.name for r in got])
        check_eq(sorted(r.name for r in got), sorted(y.rule.name for y in want),
                 "matching", "rules matching %r" % speech)
        for y in want:
            check(any(r is y.rule for r in got), "matching", "%r isn't the rule", y.rule)
            check(g.get_original_rule(y.rule) is y.original.rule, "original",
                  "rule of %r", y.rule)
        for y in rules:
            if not y.original.visible or y.seq and y.refuse:
                continue
            ok = y in want
            if y.enabled:
                y.matched[y.pos] = text if ok else None
            if y.seq:
                y.refuse = True
            if ok:
                self.wins += 1
                self.matched(rec, st, y, text, want)
                if y.seq and advance:
                    y.advance()

    def matched(self, rec, st, y, text, want):
        same = (lambda a: a and a.lower())
        check_eq(same(y.exps[y.pos].current_match), same(text), "current_match",
                 "match of %r" % y.exps[y.pos])
        if len([z for z in want if z.original is y.original]) > 1:
            return
        if any(M.nullable(p, st.rules) for p in y.parts if not has_dict(p)):
            return
        if y.original.kind == "sequence":
            e = y.rule.original_expansion
        else:
            e = y.original.rule.expansion
        done = None not in y.matched
        if y.seq:
            check_eq(same(y.rule.entire_match),
                     same(" ".join(y.matched)) if done else None, "entire",
                     "entire_match")
        if not done:
            return
        # The words of other parts may be taken for dictation and vice versa.
        spoken = {z.lower() for z in SPOKEN}
        for p, m in zip(y.parts, y.matched):
            if has_dict(p) and not all(w.lower() in spoken for w in m.split()):
                return
        if any(has_dict(p) and has_dict(q) and any(
                x.kind == "rep" for x in p.walk()) for p, q in zip(y.parts, y.parts[1:])):
            return
        if len(y.original.generated) > 1:
            # The original is matched without looking further than the next words.
            n = y.original.n
            words = [w for x in n.walk() for w in x.words]
            if len(words) != len(set(words)) or any(
                    x.kind == "ref" for x in n.walk()) or sum(
                    x.kind in ("opt", "star") or x.kind == "alt" and len(x.kids) > 1
                    for x in n.walk()) > 1:
                return
        check_eq(same(e.current_match), same(" ".join(y.matched)), "original match",
                 "match of the original expansion %s" % e)
        dicts = [x for x in deep_nodes(e) if isinstance(x, Dictation)]
        spans = [m for p, m in zip(y.parts, y.matched) if has_dict(p)]
        if len(dicts) == len(spans):
            check_eq([d.current_match for d in dicts], spans,
                     "original match", "matches of the Dictation expansions of %s" % e)
            if y.original.kind != "sequence":
                rec.label("original's dictation")
        else:
            rec.label("original of several")

    # -- observations

    def state(self, st, g):
        check_eq(set(g.rule_names), st.names(), "names", "rule names")
        want = {id(o.rule) for o in st.originals.values()}
        want |= {id(x.rule) for x in st.all()}
        check_eq(sorted(id(r) for r in g.rules), sorted(want), "rules",
                 "rules of the grammar")
        check_eq(sorted(r.name for r in g.match_rules),
                 sorted(x.rule.name for x in st.all() if x.original.visible),
                 "match_rules", "match_rules")
        for tag in ("t1", "t2", " t1 ", ""):
            for hidden, among in ((False, g.match_rules), (True, g.rules)):
                check_eq(sorted(id(r) for r in g.find_tagged_rules(tag, hidden)),
                         sorted(id(r) for r in among if tag.strip() and
                                tag.strip() in r.tags),
                         "tagged", "find_tagged_rules(%r, %r)" % (tag, hidden))
        for name in sorted(st.names()):
            found = g.get_rule(name)
            check(any(r is found for r in g.rules) and found.name == name, "get_rule",
                  "get_rule(%r): %r", name, found)
        for x in st.all():
            if x.seq:
                check_eq((x.rule.refuse_matches, x.rule.has_next_expansion),
                         (x.refuse, x.pos + 1 < len(x.parts)), "state",
                         "state of %r" % x.rule)
                check(x.rule.expansion is x.exps[x.pos], "state", "expansion of %r",
                      x.rule)

    def header(self, st):
        h = "#JSGF V%s" % st.header[0]
        for x in st.header[1:]:
            h += " " + x if x else ""
        return [h + ";", "grammar %s;" % st.name] + \
            ["import <%s>;" % i for i in st.imports]

    def compile(self, src, rec, st, g, cfg):
        rec.show("compile()")
        lines = [x.compiled(x.original.visible) for x in st.all()]
        lines = [x for x in lines if x]
        got = g.compile()
        if not lines:
            check_eq(got, "", "compile", "output without rules")
            rec.label("nothing compiled")
            return
        got = got.split("\n")
        check_eq(got[-1], "", "compile", "last line")
        head = self.header(st)
        check_eq(got[:len(head)], head, "compile", "header")
        check_eq(sorted(got[len(head):-1]), sorted(lines), "compile", "rules")

    def root(self, src, rec, st, g, cfg):
        rec.show("compile_as_root_grammar()")
        names = [x.rule.name for x in st.all()
                 if x.original.visible and x.compiled(False)]
        got = g.compile_as_root_grammar()
        if not names:
            check_eq(got, "", "root", "output without rules")
            return
        got = got.split("\n")
        head = self.header(st)
        check_eq(got[:len(head)], head, "root", "header")
        line = got[len(head)]
        check(line.startswith("public <root> = (<") and line.endswith(">);"), "root",
              "root rule %r", line)
        check_eq(sorted(line[len("public <root> = (<"):-3].split(">|<")), sorted(names),
                 "root", "alternatives of the root rule")
        lines = [x.compiled(False) for x in st.all()]
        check_eq(sorted(got[len(head) + 1:-1]), sorted(x for x in lines if x), "root",
                 "rules")
        rec.label("root")


PROP = C26()
