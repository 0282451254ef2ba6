"""
C20: generated strings belong to the language, every alternative is generated as often
as its weight says.
"""
import itertools
import math
import random

from .base import *
import jsgf

DRAWS = 600


class C20(Prop):
    id = "C20"

    def case(self, src, rec):
        random.seed(src.below(1 << 30))
        if src.chance(12):
            return self.frequencies(src, rec)
        if src.chance(8):
            return self.zero_weights(src, rec)
        if src.chance(4):
            return self.independent(src, rec)
        if src.chance(25):
            # The random numbers include the smallest and the largest.  Not many of
            # them, as they can stand for the most repetitions.
            real = random.random
            numbers = [src.pick((0.0, 0.0, 2.0 ** -53, 0.5, 0.25, 1 - 2.0 ** -53, None,
                                 None)) for _ in range(src.between(1, 6))]
            big = 0
            for i, x in enumerate(numbers):
                if x in (0.0, 2.0 ** -53, 1 - 2.0 ** -53):
                    big += 1
                    if big > 2:
                        numbers[i] = None

            def fake():
                x = numbers.pop(0) if numbers else None
                return real() if x is None else x

            random.random = fake
            rec.label("extreme numbers")
            try:
                return self.generated(src, rec)
            finally:
                random.random = real
        return self.generated(src, rec)

    def generated(self, src, rec):
        cfg = M.Cfg(empty_groups=60, depth=src.between(1, 3), width=3, tags=10, weights=30, case=20,
                    void=False)
        rules, names = M.gen_rules(src, cfg, 4)
        objs = {}
        if src.chance(30):
            g = M.build_grammar(rules, names, objs, grammar=jsgf.RootGrammar())
        else:
            g = M.build_grammar(rules, names, objs)
        for n in names:
            rec.show("%s = %s" % (n, rules[n]))
        for _ in range(src.between(2, 6)):
            name = src.pick(names)
            r = g.get_rule(name)
            node = rules[name]
            what = "%s.generate()" % name
            if src.chance(30):
                node = src.pick(list(node.walk()))
                text = objs[id(node)].generate()
                what = "%s.generate()" % M.show(node)
            else:
                if src.chance(15):
                    r.disable()
                    check_eq(r.generate(), "", "disabled", "%s disabled" % name)
                    r.enable()
                text = r.generate()
            check(isinstance(text, str), "type", "%s returned %r", what, text)
            words = text.split()
            if len(words) > 150:
                continue
            rec.show("%s = %r" % (what, text))
            lang = M.Lang(rules, words)
            check(lang.accepts(node), "language", "%s = %r is not in its language",
                  what, text)
            if lang.greedy_accepts(node):
                if node is rules[name]:
                    check(r.matches(text), "match", "%s = %r is not matched", what,
                          text)
                if words:
                    rec.nontrivial(rec.lines)

    def frequencies(self, src, rec):
        rec.label("frequencies")
        k = src.below(3)
        words = list(M.WORDS[:src.between(2, 5)])
        if k == 0:
            e = jsgf.AlternativeSet(*words)
            ws = [1.0] * len(words)
            if src.chance(75):
                ws = [M.gen_weight(src) for _ in words]
                if not any(ws):
                    ws[-1] = 1.0
                for i in src.shuffle(range(len(words))):
                    e.set_weight(src.pick((i, words[i], e.children[i])), ws[i])
            rec.show("alternatives %s, weights %s" % (words, ws))
            total = sum(ws)
            want = {w: x / total for w, x in zip(words, ws)}
        elif k == 1:
            e = jsgf.OptionalGrouping(words[0])
            rec.show("optional")
            want = {words[0]: None, "": None}
        else:
            star = src.chance(50)
            e = (jsgf.KleeneStar if star else jsgf.Repeat)(words[0])
            rec.show("repetition", star)
            want = {" ".join([words[0]] * i): None for i in range(0 if star else 1, 4)}
        count = {}
        for _ in range(DRAWS):
            t = e.generate()
            count[t] = count.get(t, 0) + 1
        for t, p in want.items():
            got = count.get(t, 0)
            if p is None:
                # How often is not specified, but it must be possible.
                check(got, "possible", "%r was never generated in %d strings", t, DRAWS)
            elif p == 0:
                check_eq(got, 0, "zero", "%r generated with weight 0" % t)
            else:
                # 9 standard deviations, at least 25 draws.
                limit = max(25, 9 * math.sqrt(DRAWS * p * (1 - p)))
                check(abs(got - DRAWS * p) <= limit, "frequency", "%r was generated "
                      "%d times in %d, expected %.1f +- %.1f", t, got, DRAWS, DRAWS * p,
                      limit)
        if k == 0:
            check(not set(count) - set(want), "other", "generated %s", set(count))
        rec.nontrivial(rec.lines)

    def independent(self, src, rec):
        """Choices are made anew for each repetition and each part of a sequence."""
        rec.label("independent")
        a, b = src.shuffle(list(M.WORDS))[:2]
        how = src.below(4)
        choice = jsgf.AlternativeSet(a, b)
        if src.chance(30):
            choice.weights = {0: 3, 1: 3}
        rule = jsgf.HiddenRule("choice", choice)
        one = (lambda: choice.copy()) if how != 3 else (lambda: jsgf.RuleRef(rule))
        if how == 0:
            e = jsgf.Repeat(one())
        elif how == 1:
            e = jsgf.KleeneStar(one())
        else:
            e = src.pick((jsgf.Sequence, jsgf.RequiredGrouping))(one(), one(), one())
        rec.show("strings of 3 words of", e)
        got = {}
        for _ in range(20 * DRAWS):
            words = tuple(e.generate().split()[:3])
            if len(words) == 3:
                got[words] = got.get(words, 0) + 1
                if sum(got.values()) == 400:
                    break
        # 400 strings, each kind is 50 of them; the number has a deviation of less
        # than 7.
        for words in itertools.product((a, b), repeat=3):
            n = got.get(words, 0)
            check(1 <= n <= 150, "independent", "%r is the beginning of %d strings "
                  "out of 400", words, n)
        rec.nontrivial(rec.lines)

    def zero_weights(self, src, rec):
        """Alternatives with a weight of 0 are not generated, whatever is drawn."""
        rec.label("zero weights")
        words = list(M.WORDS[:src.between(2, 12)])
        e = jsgf.AlternativeSet(*words)
        ws = [0.0 if src.chance(40) else src.pick((
            M.gen_weight(src), 0.1, 1.0 / 3, 0.7, 1e-9, 3e7, src.below(1000) / 997.0))
            for _ in words]
        if src.chance(60):
            ws[-1] = 0.0
        if src.chance(40):
            ws[0] = 0.0
        if not any(ws):
            ws[src.below(len(ws))] = 0.3
        for i in src.shuffle(range(len(words))):
            e.set_weight(i, ws[i])
        rec.show("alternatives %s, weights %s" % (words, ws))
        good = [w for w, x in zip(words, ws) if x]
        real = random.random
        try:
            for x in (0.0, 2.0 ** -53, 0.5, 1 - 2.0 ** -53, src.below(10 ** 6) / 1e6):
                random.random = lambda: x
                t = e.generate()
                check(t in good, "zero", "%r generated with weight %r, the number "
                      "drawn is %r", t, ws[words.index(t)] if t in words else None, x)
                random.random = real
                t = jsgf.Sequence(e.copy()).generate()
                check(t in good, "zero", "%r generated with weight 0", t)
        finally:
            random.random = real
        rec.nontrivial(rec.lines)

    def known(self, kid):
        if kid == "void-generates-nothing":
            e = jsgf.Sequence("a", jsgf.VoidRef())
            return e.generate() == "a"
        if kid == "dictation-generates-nothing":
            from jsgf.ext import Dictation
            return jsgf.Sequence("a", Dictation()).generate() == "a"
        return super().known(kid)


PROP = C20()
