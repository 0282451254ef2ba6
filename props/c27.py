"""
C27: what Dictation matches within a rule.

Oracle: greedy matching of the model tree in which a Dictation takes words up to one
with which anything that can follow it begins (FIRST and FOLLOW sets of the model).
"""
from .base import *
from .c25 import SPOKEN
import jsgf
from jsgf.expansions import JointTreeContext
from jsgf.ext import Dictation, only_dictation_in_expansion, dictation_in_expansion

DICT = "DICT"


class Follow:
    """
    What can come after each Dictation of a rule, within the rule: a set of words
    (word, case_sensitive) and of DICT.
    """

    def __init__(self, rules, joint=()):
        self.rules = rules
        self.up = {}       # id(node) -> (parent, index)
        for name, n in rules.rules.items():
            self.link(n)
        for n in joint:    # references whose rules see the referencing tree
            for x in n.walk():
                if x.kind == "ref":
                    self.up[id(rules[x.name])] = (x, 0)

    def link(self, n):
        for i, k in enumerate(n.kids):
            self.up[id(k)] = (n, i)
            self.link(k)

    def first(self, n, but=None):
        """(set of what n can begin with, whether n can be empty)"""
        k = n.kind
        if n is but:
            return set(), False
        if k == "lit":
            return {(n.words[0] if n.cs else n.words[0].lower(), n.cs)}, False
        if k == "dict":
            return {DICT}, False
        if k == "null":
            return set(), True
        if k == "void":
            return set(), False
        if k == "ref":
            return self.first(self.rules[n.name], but)
        if k in ("seq", "req"):
            out = set()
            for c in n.kids:
                f, empty = self.first(c, but)
                out |= f
                if not empty:
                    return out, False
            return out, True
        if k == "alt":
            got = [self.first(n.kids[i], but) for i in M.active_alts(n)]
            return set().union(*[f for f, _ in got]), any(e for _, e in got)
        f, empty = self.first(n.kids[0], but)
        return f, empty or k in ("opt", "star")

    def follow(self, d):
        out, x = set(), d
        while id(x) in self.up:
            p, i = self.up[id(x)]
            if p.kind in ("seq", "req"):
                for c in p.kids[i + 1:]:
                    f, empty = self.first(c, d)
                    out |= f
                    if not empty:
                        return out
            elif p.kind in ("rep", "star"):
                out |= self.first(p.kids[0], d)[0]
            x = p
        return out


class Greedy(M.Lang):
    def __init__(self, rules, words, follow):
        M.Lang.__init__(self, rules, words)
        self.f = follow
        self.tie = False

    def run(self, d, i):
        """Where dictation that begins at i ends."""
        after = self.f.follow(d)
        n = len(self.words)
        if i >= n:
            return None
        if DICT in after:
            return i + 1
        j = i
        while j < n and not any(M.same_word(w, self.words[j], cs) for w, cs in after):
            j += 1
        return j if j > i else None

    def match(self, n, i, spans):
        """(end or None); the matches of Dictation nodes are put into spans."""
        k = n.kind
        if k == "dict":
            j = self.run(n, i)
            if j is not None:
                spans[id(n)] = (i, j)
            return j
        if k in ("lit", "null", "void"):
            e = self.ends(n, i)
            return min(e) if e else None
        if k == "ref":
            return self.match(self.rules[n.name], i, spans)
        if k in ("seq", "req"):
            for c in n.kids:
                i = self.match(c, i, spans)
                if i is None:
                    return None
            return i
        if k == "alt":
            best = None
            for x in M.active_alts(n):
                s = {}
                j = self.match(n.kids[x], i, s)
                if j is not None and best is not None and j == best[0]:
                    self.tie = True
                if j is not None and (best is None or j > best[0]):
                    best = (j, s)
            if best is None:
                return None
            spans.update(best[1])
            return best[0]
        if k == "opt":
            s = {}
            j = self.match(n.kids[0], i, s)
            if j is None:
                return i
            spans.update(s)
            return j
        j, count = i, 0
        while True:
            s = {}
            e = self.match(n.kids[0], j, s)
            if e is None or e == j:
                return None if count == 0 and k == "rep" and e is None else j
            for x in n.walk():
                spans.pop(id(x), None)
            spans.update(s)
            j, count = e, count + 1


class C27(Prop):
    id = "C27"

    def case(self, src, rec):
        if src.chance(15):
            return self.prefixes(src, rec)
        cfg = M.Cfg(empty_groups=60, depth=src.between(1, 3), width=4, dictation=True, case=20,
                    tags=src.pick((0, 10)), weights=src.pick((0, 30)),
                    null=src.chance(20), void=src.chance(10),
                    words=M.WORDS[:src.pick((3, 6, 13))])
        rules = M.RuleSet({})
        joint = False
        if src.chance(25):
            rules.rules["inner"] = M.gen(src, cfg, src.between(0, 2))
            cfg.refs = ("inner",)
            joint = src.chance(40)
        n = M.gen(src, cfg)
        rules.rules["r"] = n
        if not any(x.kind == "dict" for m in rules.rules.values() for x in m.walk()):
            leaf = src.pick([x for x in n.walk() if not x.kids])
            leaf.kind, leaf.words, leaf.name = "dict", [], None
        refs = sum(x.kind == "ref" for x in n.walk())
        joint = joint and refs == 1
        objs = {}
        names = [k for k in ("inner", "r") if k in rules.rules]
        g = M.build_grammar(rules, names, objs)
        rule = g.get_rule("r")
        for k in names:
            rec.show("%s = %s" % (k, M.show(rules[k])))
        alone, joined = Follow(rules), Follow(rules, [n])
        follow = joined if joint else alone
        dicts = [x for k in names for x in rules[k].walk() if x.kind == "dict"]
        check_eq(dictation_in_expansion(rule.expansion),
                 any(x.kind == "dict" for x in self.walk(n, rules)), "in",
                 "dictation_in_expansion()")
        own = {id(x) for x in n.walk()}
        once = [x for x in dicts if not self.repeated(follow, x) and (
            id(x) in own or refs == 1 and not any(
                self.repeated(follow, y) for y in n.walk() if y.kind == "ref"))]
        wins = 0
        for _ in range(src.between(2, 5)):
            words = self.speech(src, n, rules)
            if refs == 1 and src.chance(40):
                joint = not joint
                follow = joined if joint else alone
            lang = Greedy(rules, words, follow)
            spans = {}
            want = lang.match(n, 0, spans) == len(words)
            speech = M.render_speech(src, words)
            if not joint and not M.nullable(n, rules) and src.chance(25):
                part = None
                for i in range(len(words)):
                    j = lang.match(n, i, {})
                    if j is not None and j > i:
                        part = " ".join(words[i:j])
                        rec.label("part", "part at word %d" % min(i, 2))
                        break
                if words:
                    rec.show("find_matching_part(%r)" % speech)
                    check_eq(rule.find_matching_part(speech), part, "part",
                             "find_matching_part(%r)" % speech)
            rec.show("matches(%r)%s" % (speech, " joined" if joint else ""))
            if joint:
                with JointTreeContext(rule.expansion):
                    got = rule.matches(speech)
            else:
                got = rule.matches(speech)
            if got:
                check(lang.accepts(n), "language", "matched %r", speech)
            check_eq(got, want, "matches", "matches(%r)" % speech)
            if not want:
                continue
            check_eq(rule.expansion.current_match.lower(), " ".join(words).lower(),
                     "current_match", "of the rule's expansion")
            if lang.tie:
                rec.label("tie")
                continue
            for x in once:
                s = spans.get(id(x))
                e = objs[id(x)]
                # (Referenced rules keep data of matches that were given up.)
                if s or id(x) in own:
                    check_eq(e.had_match, s is not None, "had_match", "of %r" % e)
                if s:
                    check_eq(e.current_match, " ".join(words[s[0]:s[1]]), "dictation",
                             "current_match of a Dictation")
                    wins += 1
                    if s[1] < len(words):
                        rec.label("dictation before other words")
                    if s[1] - s[0] > 1:
                        rec.label("several words")
        if wins:
            rec.nontrivial(rec.lines)

    def walk(self, n, rules):
        for x in n.walk():
            yield x
            if x.kind == "ref":
                for y in self.walk(rules[x.name], rules):
                    yield y

    def repeated(self, follow, x):
        while id(x) in follow.up:
            x = follow.up[id(x)][0]
            if x.kind in ("rep", "star"):
                return True
        return False

    def speech(self, src, n, rules):
        words = []
        if src.chance(75):
            M.sample(src, n, rules, words, noise=SPOKEN)
            if src.chance(40):
                words = M.mutate_words(src, words, M.vocab_of(n, rules) + list(SPOKEN))
        else:
            words = [src.pick(M.vocab_of(n, rules) + list(SPOKEN))
                     for _ in range(src.between(1, 5))]
        return [src.pick((w.upper(), w.capitalize(), w)) if src.chance(10) else w
                for w in words[:10]]

    def prefixes(self, src, rec):
        """Dictated words that begin like those that follow."""
        kids, words, spans = [], [], []
        for _ in range(src.between(1, 3)):
            lits = src.shuffle(list(M.WORDS))[:src.between(1, 3)]
            kids.append(Dictation())
            kids.append(jsgf.AlternativeSet(*lits) if len(lits) > 1 or src.chance(30)
                        else jsgf.Literal(lits[0]))
            run = []
            for _ in range(src.between(1, 3)):
                w = src.pick(lits)
                spoken = src.pick((w + "s", w.upper() + "X", w + "-" + w, w + ".",
                                   "x" + w, src.pick(SPOKEN)))
                run.append("q" if spoken in lits else spoken)
            spans.append(" ".join(run))
            words += run + [src.pick(lits)]
        rule = jsgf.Rule("r", True, jsgf.Sequence(*kids))
        speech = " ".join(words)
        rec.show(rule.expansion)
        rec.show("matches(%r)" % speech)
        check(rule.matches(speech), "prefix", "no match of %r", speech)
        check_eq([k.current_match for k in kids if isinstance(k, Dictation)], spans,
                 "prefix", "dictated words")
        rec.label("prefixes")
        rec.nontrivial(rec.lines)


PROP = C27()
