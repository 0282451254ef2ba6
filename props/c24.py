"""
C24: expand_dictation_expansion splits an expansion into simpler ones with, together,
the same language.

Oracle: the (finite) languages of the trees, with repetitions limited to two and a
single token for any dictation, computed from public attributes.
"""
from .base import *
import jsgf
from jsgf.ext import Dictation, SequenceRule
from jsgf.ext.expansions import expand_dictation_expansion

LIMIT = 3000


class TooBig(Exception):
    pass


def product(sets):
    out = {()}
    for s in sets:
        out = {a + b for a in out for b in s}
        if len(out) > LIMIT:
            raise TooBig()
    return out


def language(e):
    if isinstance(e, Dictation):
        return {("DICT",)}
    if isinstance(e, jsgf.NullRef):
        return {()}
    if isinstance(e, jsgf.VoidRef):
        return set()
    if isinstance(e, jsgf.NamedRuleRef):
        return language(e.referenced_rule.expansion)
    if isinstance(e, jsgf.Literal):
        words = e.text.split()
        return {tuple(words if e.case_sensitive else [w.lower() for w in words])}
    kids = [language(c) for c in e.children]
    if isinstance(e, jsgf.Sequence):
        return product(kids)
    if isinstance(e, jsgf.AlternativeSet):
        w = e.weights
        return set().union(*[k for c, k in zip(e.children, kids)
                             if not w or w[c] > 0])
    k = kids[0]
    if isinstance(e, jsgf.OptionalGrouping):
        return k | {()}
    if isinstance(e, jsgf.Repeat):
        return k | product([k, k]) | ({()} if isinstance(e, jsgf.KleeneStar) else set())
    raise HarnessError(repr(e))


def deep_nodes(e):
    """All expansions of a tree and of the rules it references."""
    out = [e]
    if isinstance(e, jsgf.NamedRuleRef):
        return out + deep_nodes(e.referenced_rule.expansion)
    for c in e.children:
        out += deep_nodes(c)
    return out


def has_dictation(e):
    return any(isinstance(x, Dictation) for x in deep_nodes(e))


def inline(n, rules):
    """The tree with the referenced trees in place of references."""
    if n.kind == "ref":
        return rules[n.name]
    n = n.copy()
    n.kids = [inline(k, rules) for k in n.kids]
    return n


def processed(e, dictation):
    """Nothing optional along with dictation, no sets with alternatives to separate."""
    if not dictation:
        return True
    for x in deep_nodes(e):
        if isinstance(x, (jsgf.OptionalGrouping, jsgf.KleeneStar)) and \
                has_dictation(x):
            return False
        if isinstance(x, jsgf.AlternativeSet) and has_dictation(x) and \
                len(x.children) > 1:
            return False
    return True


class C24(Prop):
    id = "C24"

    def case(self, src, rec):
        cfg = M.Cfg(empty_groups=60, depth=src.between(1, 4), width=3, dictation=True, case=20,
                    tags=src.pick((0, 20)), null=src.chance(10), void=src.chance(10),
                    weights=src.pick((0, 40)),
                    refs=src.pick(((), ("plain",), ("inner",), ("plain", "inner"))),
                    words=M.WORDS[:src.pick((3, 13))])
        n = M.gen(src, cfg)
        rules, trees = {}, {}
        for name in cfg.refs:
            cfg.refs, cfg.depth = (), src.between(0, 2)
            cfg.dictation = name == "inner"
            trees[name] = M.gen(src, cfg)
            rules[name] = jsgf.Rule(name, False, M.build(trees[name]))
        full = inline(n, trees)
        if sum(x.kind == "dict" for x in full.walk()) > 4 or \
                sum(x.kind in ("opt", "star", "alt") for x in full.walk()) > 6:
            raise Discard()
        g = jsgf.Grammar("g")
        g.add_rules(*rules.values())
        for name, r in rules.items():
            for x, y in zip(trees[name].walk(), tree_nodes(r.expansion)):
                if x.kind == "lit":
                    y.case_sensitive = x.cs
        e = M.build(n, ref=lambda name: jsgf.RuleRef(rules[name]))
        if src.chance(50):
            jsgf.Rule("r", True, e)
            for x, y in zip(n.walk(), tree_nodes(e)):
                if x.kind == "lit":
                    y.case_sensitive = x.cs
        for name in sorted(trees):
            rec.show("<%s> = %s" % (name, M.show(trees[name])))
        rec.show(M.show(n))
        try:
            want = language(e)
        except TooBig:
            raise Discard()
        before = [describe(x) for x in deep_nodes(e)]
        result = expand_dictation_expansion(e)
        rec.show("expanded to", result)
        check_eq([describe(x) for x in deep_nodes(e)], before, "changed",
                 "the expansion itself or a referenced one")
        check(type(result) is list, "list", "result %r", result)
        got = set()
        for r in result:
            got |= language(r)
        # Choices within a repetition are only made once for all repetitions.
        bound = any(
            x.kind in ("rep", "star") and any(
                y is not x and (y.kind in ("opt", "star") or y.kind == "alt" and any(
                    z.kind == "dict" for z in y.walk())) for y in x.walk())
            for x in full.walk())
        if bound:
            check(got <= want, "language", "results match %r", got - want)
            rec.label("choice in repetition")
        else:
            check_eq(got - {()}, want - {()}, "language", "language of the results")
        kept = {}
        for x in full.walk():
            for k, w in zip(x.kids, x.weights or [None] * len(x.kids)):
                if x.kind == "alt" and k.kind == "lit":
                    kept.setdefault((" ".join(k.words)).lower(), set()).add(w)
        for r in result:
            for x in tree_nodes(r):
                if not isinstance(x, jsgf.AlternativeSet):
                    continue
                for c in x.children:
                    if isinstance(c, jsgf.Literal) and c.text.lower() in kept and \
                            len(x.children) > 1:
                        check(x.weights.get(c) in kept[c.text.lower()] or
                              any(y.kind in ("opt", "star") or y.kind == "alt" and any(
                                  z.kind == "alt" for z in y.kids) for y in full.walk()),
                              "weight", "weight of %r in %r", c, x)
        for i, r in enumerate(result):
            check(processed(r, has_dictation(r)), "processed", "%r", r)
            check(r.parent is None and links_ok(r, None), "links", "links of %r", r)
            check_eq(expand_dictation_expansion(r), [r], "again", "expanding %r" % r)
            for q in result[:i]:
                check(not q == r, "duplicate", "%r twice", r)
        if not has_dictation(e):
            check(len(result) == 1 and result[0] is e, "plain", "without dictation")
            rec.label("no dictation")
            return
        old = [repr(x).lower() for x in deep_nodes(e)]
        for r in result:
            SequenceRule("r", True, r)
        # Rules set the case sensitivity of their literals.
        check_eq([repr(x).lower() for x in deep_nodes(e)], old, "changed",
                 "the expansion or a referenced one by a sequence rule")
        if any(x.kind == "ref" and x.name == "inner" for x in n.walk()) and \
                has_dictation(rules["inner"].expansion):
            rec.label("dictation in a reference")
        old = [id(x) for x in deep_nodes(e)]
        if len(result) != 1 or result[0] is not e:
            for r in result:
                check(not any(id(x) in old for x in tree_nodes(r)), "shared",
                      "%r shares expansions with the original", r)
            rec.nontrivial(rec.lines)
            rec.label("expanded %d" % min(len(result), 9))

    def known(self, kid):
        if kid == "named-references":
            g = jsgf.Grammar()
            g.add_rule(jsgf.Rule("plain", False, "a"))
            r = jsgf.Rule("r", True, jsgf.Sequence(jsgf.NamedRuleRef("plain"),
                                                   jsgf.OptionalGrouping(Dictation())))
            g.add_rule(r)
            try:
                expand_dictation_expansion(r.expansion)
            except jsgf.GrammarError:
                return True
            return False
        return Prop.known(self, kid)


PROP = C24()
