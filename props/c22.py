"""
C22: weights belong to alternatives, whatever happens to the set.

Oracle: a list of alternatives with their weights.
"""
import copy
import pickle
import random

from .base import *
import jsgf
from jsgf import (AlternativeSet, GrammarError, Literal, OptionalGrouping, Repeat,
                  RequiredGrouping, Sequence)


class Child:
    """An alternative, its words and the phrase that it matches."""

    def __init__(self, e, lit, words, others):
        self.others = others    # other words that it can begin with
        self.e = e
        self.lit = lit          # the literal whose text can be changed
        self.words = words      # words[0] is that of lit

    @property
    def phrase(self):
        return " ".join(self.words)


class C22(Prop):
    id = "C22"

    def word(self):
        self.n += 1
        return "w%03d" % self.n

    def make(self, src, twin=None):
        kind = src.weighted([(5, "lit"), (2, "seq"), (1, "rep"), (1, "req"), (1, "alt")])
        words = [twin or self.word()]
        others = []
        lit = Literal(words[0])
        if kind == "lit":
            e = lit
        elif kind == "seq":
            if twin:
                e = Sequence(lit)
            else:
                words.append(self.word())
                e = Sequence(lit, words[1])
        elif kind == "rep":
            e = Repeat(lit)
        elif kind == "req":
            e = RequiredGrouping(lit)
        else:
            others = [self.word()]
            e = AlternativeSet(lit, *others)
        if src.chance(20):
            e.tag = "t%d" % src.below(3)
        return Child(e, lit, words, others)

    def case(self, src, rec):
        self.n = 0
        kids = [self.make(src) for _ in range(src.between(1, 4))]
        alt = AlternativeSet(*[k.e for k in kids])
        form = src.below(3)

        def wrap(alt):
            top = alt if form == 0 else Sequence("say", alt) if form == 1 else \
                Sequence(OptionalGrouping("say"), RequiredGrouping(alt))
            return jsgf.Rule("r", True, top)
        rule = wrap(alt)
        prefix = "" if form == 0 else "say "
        weights = {}          # id of the alternative -> (alternative, weight)
        removed = []          # their weights are those of comparable alternatives
        stale = False         # weights of what is no alternative (any more)
        rec.show("alternatives", [k.e for k in kids], "form", form)
        compared = changes = 0
        for _ in range(src.between(2, 9)):
            op = src.weighted([
                (6, "set"), (2, "all"), (1, "assign"), (1, "add"), (1, "remove"),
                (1, "replace"), (2, "text"), (2, "invalid"), (1, "copy"), (2, "use"),
                (1, "twin"), (1, "reorder"), (1, "unknown")])
            w = src.weighted([(3, 1.0), (2, 2), (2, 0), (2, 0.5), (1, 10), (1, 0.00004),
                              (1, 1234567.125), (1, 3.14159265)])
            i = src.below(len(kids))
            k = kids[i]
            if op == "set":
                how = src.pick(("child", "index", "negative", "text"))
                key = {"child": k.e, "index": i, "negative": i - len(kids),
                       "text": self.text(k, kids)}[how]
                value = src.pick((w, w, str(w), float(w)))
                rec.show("set_weight(%r, %r)" % (key, value))
                alt.set_weight(key, value)
                weights[id(k.e)] = k.e, float(w)
                changes += 1
            elif op == "all":
                given = [src.pick((1, 2, 0, 0.5, 5.25)) for _ in kids]
                keys = [src.pick((c.e, j, self.text(c, kids))) for j, c in enumerate(kids)]
                rec.show("weights of all", given)
                if src.chance(50):
                    alt.weights = dict(zip(keys, given))
                else:
                    for key, x in zip(keys, given):
                        alt.set_weight(key, x)
                for c, x in zip(kids, given):
                    weights[id(c.e)] = c.e, float(x)
                changes += 1
            elif op == "assign":
                some = src.subset(kids)
                rec.show("weights =", {c.e: w for c in some})
                src.pick((lambda d: setattr(alt, "weights", d),
                          lambda d: setattr(alt, "weights", list(d.items()))))(
                              {c.e: w for c in some})
                for c in some:
                    weights[id(c.e)] = c.e, float(w)
            elif op == "add":
                c = self.make(src)
                rec.show("append", c.e)
                alt.children.append(c.e)
                kids.append(c)
                changes += 1
            elif op == "twin":
                c = self.make(src, k.words[0])
                if any(c.e == o for o in removed + [x.e for x in kids]) or \
                        len(k.words) > 1:
                    continue
                rec.show("append", c.e, "spoken as another one")
                alt.children.append(c.e)
                kids.append(c)
            elif op == "remove" and len(kids) > 1:
                rec.show("remove", k.e)
                src.pick((lambda: alt.children.remove(k.e),
                          lambda: alt.children.pop(i),
                          lambda: alt.children.__setslice__(i, i + 1, [])))()
                removed.append(k.e)
                del kids[i]
                stale = stale or id(k.e) in weights
                changes += 1
            elif op == "replace":
                c = self.make(src)
                rec.show("replace", k.e, "with", c.e)
                alt.children[i] = c.e
                removed.append(k.e)
                kids[i] = c
                stale = stale or id(k.e) in weights
                changes += 1
            elif op == "text":
                new = self.word()
                if sum(o.words[0] == k.words[0] for o in kids) > 1:
                    continue
                rec.show("text", k.lit.text, "->", new)
                k.lit.text = new
                k.words[0] = new
                changes += 1
            elif op == "reorder":
                order = src.shuffle(range(len(kids)))
                kids = [kids[j] for j in order]
                rec.show("order", order)
                alt.children = [c.e for c in kids]
            elif op == "copy" and src.chance(30):
                rec.show("copied, not deeply")
                before = self.listed(alt)
                shallow = src.pick((lambda: alt.copy(shallow=True),
                                    lambda: copy.copy(alt)))()
                check_eq(self.listed(shallow), before, "copy", "weights of the copy")
                shallow.set_weight(src.below(len(kids)), w + 1)
                check_eq(self.listed(alt), before, "copy",
                         "weights after changing those of the copy")
                alt.children = list(shallow.children)
            elif op == "copy":
                old = alt
                alt = {"copy": lambda: alt.copy(),
                       "deepcopy": lambda: copy.deepcopy(alt),
                       "pickle": lambda: pickle.loads(pickle.dumps(alt)),
                       "assign": lambda: self.rebuild(alt)}[
                           src.pick(("copy", "deepcopy", "pickle", "assign"))]()
                rec.show("copied")
                new = {}
                for o, e in zip(kids, alt.children):
                    if id(o.e) in weights:
                        new[id(e)] = e, weights[id(o.e)][1]
                    at = [id(x) for x in tree_nodes(o.e)].index(id(o.lit))
                    o.lit = tree_nodes(e)[at]
                    o.e = e
                weights = new
                if not stale:
                    check(alt == old, "copy-equal", "copy of %r", old)
                    check_eq(hash(alt), hash(old), "copy-hash", "hash of the copy")
                # Weights of the original are not those of the copy.
                if old is not alt:
                    old.set_weight(0, w)
                rule = wrap(alt)
            elif op == "unknown":
                text = self.word()
                rec.show("set_weight(%r, %r)" % (text, w))
                alt.set_weight(text, w)
                stale = True
            elif op == "invalid":
                before = self.listed(alt)
                for exc, key, value in (
                        (TypeError, k.e, -1), (TypeError, i, -0.001),
                        (TypeError, k.e.compile(), None), (TypeError, i, []),
                        (ValueError, i, "x"), (ValueError, k.e, ""),
                        (IndexError, len(kids), 1), (IndexError, -len(kids) - 1, 1)):
                    check_raises(exc, lambda: alt.set_weight(key, value), "invalid",
                                 "set_weight(%r, %r)" % (key, value))
                check_raises(TypeError, lambda: setattr(alt, "weights", {k.e: -2}),
                             "invalid", "weights = negative")
                check_eq(self.listed(alt), before, "invalid", "weights after an error")
            elif op == "use":
                pass
            if op != "use" and src.chance(40):
                continue
            compared += self.look(src, rec, alt, rule, kids, weights, stale, prefix)
        compared += self.look(src, rec, alt, rule, kids, weights, stale, prefix)
        if compared and changes:
            rec.nontrivial(rec.lines)

    def text(self, k, kids):
        """Compiled text as a key, if it belongs to one alternative only."""
        text = k.e.compile()
        return text if [c.e.compile() for c in kids].count(text) == 1 else k.e

    def rebuild(self, alt):
        children = [c.copy() for c in alt.children]
        new = AlternativeSet(*children)
        new.weights = alt.weights
        return self.repin(new, alt)

    def repin(self, new, alt):
        # Weights given for equal expansions of another set: the keys are theirs.
        for i, c in enumerate(alt.children):
            if c in alt.weights:
                new.set_weight(i, alt.weights[c])
        return new

    def listed(self, alt):
        return [(str(c), alt.weights.get(c)) for c in alt.children]

    def look(self, src, rec, alt, rule, kids, weights, stale, prefix):
        want = [weights[id(k.e)][1] if id(k.e) in weights else None for k in kids]
        rec.show("look", want)
        got = alt.weights
        check_eq([got.get(k.e) for k in kids], want, "weights", "weights of %r" % alt)
        known = [w for w in want if w is not None]
        if not stale:
            check_eq(len(got), len(known), "weights", "number of weights")
        queries = [("compile", alt.compile), ("rule compile", rule.compile),
                   ("generate", alt.generate),
                   ("matches", lambda: rule.matches("anything"))]
        if (known or stale) and None in want:
            for name, f in queries:
                check_raises(GrammarError, f, "partial", name + " of partial weights")
            rec.label("partial")
            return 0
        texts = [k.e.compile() for k in kids]
        if known:
            texts = ["/%.4f/ %s" % (w, t) for w, t in zip(want, texts)]
        check_eq(alt.compile(), "(%s)" % "|".join(texts), "compile", "compile()")
        check("(%s)" % "|".join(texts) in rule.compile(), "compile", "in the rule")
        if known and not any(want):
            return 0
        spoken = {}
        for k, w in zip(kids, want):
            if w != 0:
                spoken.setdefault(k.phrase, []).append((w, k))
        for k in kids:
            can = k.phrase in spoken
            check_eq(rule.matches(prefix + k.phrase), can, "matches",
                     "matches(%r)" % (prefix + k.phrase))
            if not can:
                rec.label("weight 0")
                continue
            alike = spoken[k.phrase]
            top = max(w or 1 for w, _ in alike)
            best = [c for w, c in alike if (w or 1) == top]
            matched = [c for c in kids if c.e.had_match]
            check_eq(len(matched), 1, "one", "alternatives that matched")
            check(any(matched[0] is c for c in best), "best",
                  "%r matched, best are %r", matched[0].e, [c.e for c in best])
            check_eq(matched[0].e.current_match, k.phrase, "current", "current_match")
            if len(alike) > 1:
                rec.label("twins")
        first = [x for k, w in zip(kids, want) if w != 0 for x in [k.words[0]] + k.others]
        state = random.getstate()
        random.seed(src.below(1000))
        try:
            for _ in range(3):
                s = alt.generate()
                check(s.split()[0] in first, "generate", "generated %r", s)
        finally:
            random.setstate(state)
        rec.label("weighted" if known else "unweighted")
        return 1 if known else 0


PROP = C22()
