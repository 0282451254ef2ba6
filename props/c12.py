"""
C12: == is an equivalence relation that means "same structure"; hash values agree.

Oracle: equality of the model's normalised shapes.
"""
import copy

from .base import *
import jsgf
from jsgf.ext import Dictation, SequenceRule, PublicSequenceRule


def key(n):
    """What two comparable expansions have in common (no tags, order of sets)."""
    if n.kind == "lit":
        text = " ".join(n.words)
        return ("lit", n.cs, text if n.cs else text.lower())
    if n.kind in ("null", "void", "dict"):
        return (n.kind,)
    if n.kind == "ref":
        return ("ref", n.name)
    kids = [key(k) for k in n.kids]
    if n.kind == "alt":
        w = n.weights and frozenset(zip(kids, map(float, n.weights)))
        return ("alt", len(kids), frozenset(kids), w or None)
    return (n.kind, tuple(kids))


def variant(src, n, refs):
    """A copy of n that was changed somewhere, or not at all."""
    m = n.copy()
    nodes = list(m.walk())
    x = src.pick(nodes)
    op = src.pick(("none", "tag", "word", "case", "cs", "shuffle", "kind", "weight",
                   "drop", "double", "wrap", "ref", "unweighted", "leaf"))
    if op == "tag":
        x.tag = src.pick(("", "other", "t1"))
    elif op == "word" and x.words:
        x.words[src.below(len(x.words))] = src.pick(M.WORDS[:4])
    elif op == "case" and x.words:
        i = src.below(len(x.words))
        x.words[i] = src.pick((x.words[i].upper(), x.words[i].lower(),
                               x.words[i].capitalize()))
    elif op == "cs" and x.kind == "lit":
        x.cs = not x.cs
    elif op == "shuffle" and len(x.kids) > 1:
        i = src.below(len(x.kids) - 1)
        x.kids[i], x.kids[i + 1] = x.kids[i + 1], x.kids[i]
        if x.weights is not None and src.chance(60):
            w = x.weights
            w[i], w[i + 1] = w[i + 1], w[i]
    elif op == "kind":
        alike = {"seq": "req", "req": "seq", "rep": "star", "star": "rep", "opt": "rep",
                 "null": "void", "void": "null"}
        if x.kind in alike:
            x.kind = alike[x.kind]
        elif x.kind == "alt":
            x.kind, x.weights = "req", None
    elif op == "weight" and x.weights is not None:
        x.weights[src.below(len(x.weights))] = M.gen_weight(src)
    elif op == "unweighted" and x.weights is not None:
        x.weights = None
    elif op == "drop" and len(x.kids) > 1:
        i = src.below(len(x.kids))
        del x.kids[i]
        if x.weights is not None:
            del x.weights[i]
    elif op == "double" and x.kind in ("seq", "req", "alt") and x.weights is None:
        x.kids.insert(src.below(len(x.kids) + 1), src.pick(x.kids).copy())
    elif op == "wrap":
        y = x.copy()
        x.kind, x.kids, x.words, x.tag, x.weights, x.name, x.cs = \
            src.pick(("req", "opt", "seq")), [y], [], "", None, None, False
    elif op == "ref" and x.kind == "ref":
        x.name = src.pick(refs)
    elif op == "leaf" and x.kind != "alt" and not x.kids:
        y = M.N("lit", words=["ape"])
        x.kind, x.words, x.name = "lit", ["ape"], None
    ok = True
    for y in m.walk():
        if y.weights is not None:
            s = [repr(M.shape(k, cs=False)) for k in y.kids]
            ok = ok and len(set(s)) == len(s)
    return m if ok else n.copy()


class Plain(object):
    pass


class C12(Prop):
    id = "C12"

    def case(self, src, rec):
        refs = ("r1", "r2")
        cfg = M.Cfg(wide=3, chain=2, depth=src.between(0, 3), width=3, weights=40, case=40, tags=30,
                    tag_rep=True, words=M.WORDS[:src.pick((2, 4, 13))], refs=refs)
        base = M.gen(src, cfg)
        pool = [base, base.copy()]
        for _ in range(src.between(2, 5)):
            pool.append(variant(src, src.pick(pool), refs))
        if src.chance(30):
            # Part of another one.
            pool.append(src.pick(list(base.walk())).copy())
        rec.show(" , ".join(M.show(n) for n in pool))
        keys = [key(n) for n in pool]
        libs = [M.build(n) for n in pool]
        if src.chance(30):
            # Use, and places in other trees, do not matter.
            i = src.below(len(libs))
            libs[i].compile()
            jsgf.Sequence("x", libs[i])
        if src.chance(30):
            for e in libs:
                jsgf.Rule("r", True, e)
            for n, e in zip(pool, libs):
                for x, y in zip(n.walk(), tree_nodes(e)):
                    if x.kind == "lit":
                        y.case_sensitive = x.cs
        hashes = [hash(e) for e in libs]
        same = diff = 0
        for i, a in enumerate(libs):
            for j, b in enumerate(libs):
                want = keys[i] == keys[j]
                check_eq(a == b, want, "eq", "%r == %r" % (a, b))
                check_eq(a != b, not want, "ne", "%r != %r" % (a, b))
                check_eq(a.children == b.children,
                         list(a.children) == list(b.children), "children-eq",
                         "children of %r and %r" % (a, b))
                if want:
                    check_eq(hash(a), hash(b), "hash", "hash of %r and %r" % (a, b))
                    check(b in {a}, "set", "%r in {%r}", b, a)
                    check_eq({a: 5}.get(b), 5, "dict", "key %r for %r" % (b, a))
                    same += i != j
                else:
                    check(b not in [a], "list", "%r in [%r]", b, a)
                    diff += 1
        check_eq(len(set(libs)), len(set(keys)), "set-size", "size of the set of all")
        for e in libs:
            for other in (None, 1, "text", e.children, object(), Plain(), [], (e,)):
                check_eq(e == other, False, "other", "%r == %r" % (e, other))
                check_eq(e != other, True, "other", "%r != %r" % (e, other))
        # x in expansion: comparable to the expansion or a descendant.
        e, n = libs[0], pool[0]
        if not any(x.kind == "ref" for x in n.walk()):
            parts = {key(x) for x in n.walk()}
            for b, k in zip(libs, keys):
                check_eq(b in e, k in parts, "in", "%r in %r" % (b, e))
        # Hash values don't change by using an expansion or changing its tag.
        for e, h in zip(libs, hashes):
            e.compile()
            e.tag = "newtag"
            check_eq(hash(e), h, "hash-changed", "hash of %r" % e)
            c = e.copy()
            check(c == e and hash(c) == h, "copy", "copy of %r", e)
        self.rules(src, rec, pool, keys)
        self.named(src, rec)
        rec.label("with-equal" if same else "all-different")
        if same and diff:
            rec.nontrivial([M.show(n) for n in pool])

    def rules(self, src, rec, pool, keys):
        made = []
        for _ in range(src.between(2, 4)):
            i = src.below(len(pool))
            name = src.pick(("a", "a", "b"))
            cls = src.pick(("Rule", "PublicRule", "PrivateRule"))
            vis = {"Rule": src.chance(50), "PublicRule": True,
                   "PrivateRule": False}[cls]
            cs = src.chance(40)
            e = M.build(pool[i])
            r = jsgf.Rule(name, vis, e, cs) if cls == "Rule" else \
                getattr(jsgf, cls)(name, e, case_sensitive=cs)
            n = pool[i].copy()
            for x in n.walk():
                if x.kind == "lit":
                    x.cs = cs
            weights_ok = all(len({repr(key(k)) for k in x.kids}) == len(x.kids)
                             for x in n.walk() if x.weights is not None)
            if not weights_ok:
                continue
            made.append((r, (name, vis, cs, key(n))))
        for a, ka in made:
            for b, kb in made:
                want = ka == kb
                check_eq(a == b, want, "rule-eq", "%r == %r" % (a, b))
                check_eq(a != b, not want, "rule-ne", "%r != %r" % (a, b))
                if want:
                    check_eq(hash(a), hash(b), "rule-hash", "hash of %r, %r" % (a, b))
                    rec.label("equal rules")
            for other in (None, "a", 3, a.expansion, Plain()):
                check_eq(a == other, False, "rule-other", "%r == %r" % (a, other))
                check_eq(a != other, True, "rule-other", "%r != %r" % (a, other))
        # Grammars of them.
        grams = []
        same = src.chance(40)
        for name, cs in ((src.pick("gh"), not same and src.chance(25)), (src.pick("gh"), False)):
            g = src.pick((jsgf.Grammar, jsgf.RootGrammar))(name=name)
            g.case_sensitive = cs
            chosen = []
            for r, k in made:
                if k[0] not in [c[0] for c in chosen] and (same or src.chance(85)):
                    g.add_rule(copy_rule(r))
                    # Adding it sets its case sensitivity.
                    chosen.append((k[0], k[1], cs, r.expansion))
            imp = list(src.pick(((), (), (), ("x.y",), ("x.y", "x.z"), ("x.z", "x.y"))))
            for i in imp:
                g.add_import(jsgf.Import(i))
            if src.chance(15):
                g.language_name = "en"
            grams.append((g, name, cs, imp, g.language_name))
        (g, n1, c1, i1, l1), (h, n2, c2, i2, l2) = grams
        want = (n1, c1, i1, l1) == (n2, c2, i2, l2) and \
            len(g.rules) == len(h.rules) and \
            all(a == b for a, b in zip(g.rules, h.rules))
        check_eq(g == h, want, "grammar-eq", "%r == %r" % (g, h))
        check_eq(g != h, not want, "grammar-ne", "%r != %r" % (g, h))
        check_eq(g == g.name, False, "grammar-other", "grammar == name")
        if want:
            rec.label("equal grammars")
            if g.rules and src.chance(50):
                h.rules[-1].visible = not h.rules[-1].visible
                check(g != h, "grammar-changed", "equal after changing a rule")

    def named(self, src, rec):
        """Imports, rule references and sequence rules."""
        names = [src.pick(("a.b", "a.*", "b.a", "a.c")) for _ in range(3)]
        imps = [jsgf.Import(n) for n in names]
        for a, x in zip(imps, names):
            for b, y in zip(imps, names):
                check_eq((a == b, a != b), (x == y, x != y), "import", "imports %s, %s"
                         % (x, y))
                if x == y:
                    check_eq(hash(a), hash(b), "import-hash", x)
        t = src.pick("xy"), src.pick("xy")
        r = [jsgf.Rule("q", True, x) for x in t]
        refs = [jsgf.RuleRef(r[0]), jsgf.RuleRef(r[1]), jsgf.NamedRuleRef("q")]
        check_eq(refs[0] == refs[1], t[0] == t[1], "ruleref", "RuleRefs to %s" % (t,))
        check(refs[0] != refs[2] and refs[2] != refs[0], "ruleref",
              "RuleRef == NamedRuleRef")
        if t[0] == t[1]:
            check_eq(hash(refs[0]), hash(refs[1]), "ruleref-hash", "RuleRefs")
        # Sequence rules
        cs = []
        for _ in range(3):
            words = [src.pick(("ape", "bat", None)) for _ in range(src.between(1, 3))]
            cs.append((words, src.pick((SequenceRule("s", True, jsgf.Sequence(*[
                w or Dictation() for w in words])), PublicSequenceRule(
                    "s", jsgf.Sequence(*[w or Dictation() for w in words]))))))
        for wa, a in cs:
            for wb, b in cs:
                # Whether the current expansions differ does not matter here.
                if wa != wb:
                    check(a != b and not a == b, "seqrule", "%r == %r", a, b)
                else:
                    check(a == b and not a != b, "seqrule", "%r != %r", a, b)
                    check_eq(hash(a), hash(b), "seqrule-hash", "hash of %r" % a)
        a = cs[0][1]
        h = hash(a)
        a.matches("ape")
        a.set_next()
        check_eq(hash(a), h, "seqrule-next", "hash after set_next()")


def copy_rule(r):
    c = jsgf.Rule(r.name, r.visible, r.expansion.copy(), r.case_sensitive)
    return c


PROP = C12()
