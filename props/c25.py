"""
C25: sequence rules match their parts one after another.

Oracle: the tree's items in order, cut at the Dictation expansions, and a model of the
protocol (position, whether matches are refused, what each part matched).
"""
from .base import *
from .c24 import TooBig, deep_nodes, language
import jsgf
from jsgf.ext import (Dictation, PrivateSequenceRule, PublicSequenceRule, SequenceRule)
from jsgf.ext.expansions import calculate_expansion_sequence

SPOKEN = ("yak", "owl", "hey!", "3.5", "it's", "a;b:c", u"\u0436\u0443\u043a", "Hi", "no?",
          "x_y-z,", "YAK", "c++", "50%", "me@home", "(x)", "\u0939\u093f\u0928\u094d\u0926\u0940",
          "cafe\u0301", "catch", "yaks")


def has_dict(n):
    return any(x.kind == "dict" for x in n.walk())


def gen_tree(src, cfg, depth):
    """Sequences of dictation (perhaps repeated) and of other expansions."""
    kids = []
    for _ in range(src.between(1, 3)):
        k = src.weighted([(8, "dict"), (8, "plain"), (2, "rep"), (4, "seq"), (1, "sub")])
        if k == "dict":
            kids.append(M.N("dict"))
        elif k == "rep":
            kids.append(M.N("rep", [M.N(src.pick(("dict", "dict")))]))
        elif k in ("seq", "sub") and depth > 0:
            p = gen_tree(src, cfg, depth - 1)
            if k == "sub" and has_dict(p):
                # A rule of its own.
                p.name = "sub%d" % src.below(100)
            kids.append(p)
        else:
            p = M.gen(src, cfg)
            if any(x.kind in ("opt", "star") for x in p.walk()):
                p = M.N("seq", [p])
            kids.append(p)
    return M.N(src.pick(("seq", "seq", "req")), kids)


def items(n):
    """Nodes without dictation and DICT nodes from left to right."""
    if not has_dict(n):
        return [n]
    if n.kind in ("seq", "req"):
        return [x for k in n.kids for x in items(k)]
    return [n]


def needs_expanding(n, parents=()):
    """Whether there are choices that concern dictation."""
    if n.name:
        parents = ()
    if n.kind in ("opt", "star"):
        if has_dict(n):
            return True
        around = [p for p in parents if p.kind in ("seq", "req")]
        if has_dict(around[-1] if around else (parents + (n,))[0]):
            return True
    if n.kind == "alt" and len(n.kids) > 1 and has_dict(n):
        return True
    return any(needs_expanding(k, parents + (n,)) for k in n.kids)


class C25(Prop):
    id = "C25"

    def case(self, src, rec):
        cfg = M.Cfg(empty_groups=60, depth=src.between(0, 2), width=3, null=src.chance(15), void=False, tags=20,
                    weights=20, words=M.WORDS[:src.pick((3, 13))])
        if src.chance(15):
            self.accepted(src, rec)
            return
        if src.chance(12):
            n = src.pick((M.N("dict"), M.gen(src, cfg)))
        else:
            n = gen_tree(src, cfg, 2)
        if sum(x.kind == "dict" for x in n.walk()) > 5:
            raise Discard()
        inner, repeat = n, False
        if src.chance(20):
            # The whole rule can be repeated.
            n = M.N("rep", [n])
            for _ in range(src.below(2)):
                n = M.N(src.pick(("seq", "req")), [n])
        x = n
        while x.kind != "rep" and len(x.kids) == 1 and x.kind != "star" and \
                x.kind != "opt" and not x.name:
            x = x.kids[0]
        if x.kind == "rep":
            repeat, inner = True, x.kids[0]
        if any(x.kind == "rep" and has_dict(x) and not self.pure(x)
               for x in inner.walk()):
            raise Discard()
        e = M.build(n)
        objs = deep_nodes(e)
        name = src.pick(("r", "rule_1"))
        cls = src.pick((SequenceRule, PublicSequenceRule, PrivateSequenceRule))
        visible = cls is PublicSequenceRule or cls is SequenceRule and src.chance(50)
        rec.show("%s(%s)" % (cls.__name__, M.show(n)))
        if needs_expanding(n):
            check_raises(jsgf.GrammarError, lambda: self.make(cls, name, visible, e),
                         "needs expanding", "sequence rule")
            rec.label("needs expanding")
            return
        before = [describe(x) for x in objs]
        if any(x.name for x in n.walk()):
            rec.label("dictation in a reference")
        r = self.make(cls, name, visible, e)
        check(r.original_expansion is e, "original", "original_expansion")
        check_eq([describe(x) for x in deep_nodes(e)], before, "original",
                 "the original expansion")
        check_eq(r.can_repeat, repeat, "can_repeat", "can_repeat")
        check_eq(r.tags, {x.tag for x in self.own(n) if x.tag}, "tags",
                 "tags of the rule")
        # The parts.
        parts = []
        for x in items(inner):
            if has_dict(x):
                parts.append(x)
            elif parts and isinstance(parts[-1], list):
                parts[-1].append(x)
            else:
                parts.append([x])
        parts = [M.N("seq", p) if isinstance(p, list) else p for p in parts]
        seq = r.expansion_sequence
        rec.show("parts", seq)
        check_eq(len(seq), len(parts), "parts", "number of parts")
        check(isinstance(seq, tuple), "parts", "type of expansion_sequence")
        try:
            for p, s in zip(parts, seq):
                check_eq(language(s), language(M.build(p)), "part",
                         "language of part %r" % s)
                check_eq(any(isinstance(x, Dictation) for x in tree_nodes(s)),
                         has_dict(p), "part", "dictation in part %r" % s)
                check_eq([x.tag for x in tree_nodes(s) if x.tag],
                         [x.tag for x in (n if repeat and len(parts) == 1 else p).walk()
                          if x.tag], "part", "tags of %r" % s)
                check(s.parent is None and links_ok(s, r), "links", "links in %r", s)
        except TooBig:
            raise Discard()
        if not repeat:
            again = calculate_expansion_sequence(e)
            check_eq([describe(x) for x in again], [describe(x) for x in seq], "again",
                     "calculate_expansion_sequence()")
            check_eq([describe(x) for x in deep_nodes(e)], before, "original",
                     "the original expansion")
        dicts = [x for x in objs if isinstance(x, Dictation)]
        rules = M.RuleSet({})
        pos, refuse = 0, False
        matched = [None] * len(parts)
        wins = 0
        # The words of repeated dictation could be matched again after it.
        noise = src.chance(70) and not any(
            p.kind == "rep" and any(has_dict(q) and all(
                M.nullable(x, rules) for x in parts[i + 1:j])
                for j, q in enumerate(parts) if j > i)
            for i, p in enumerate(parts))
        for _ in range(src.between(3, 6 + 3 * len(parts))):
            op = src.weighted([(8, "step"), (3, "matches"), (2, "next"), (1, "restart"),
                               (1, "refuse"), (1, "accept"), (1, "case")])
            if op == "next":
                rec.show("set_next()")
                r.set_next()
                if pos + 1 < len(parts):
                    pos, refuse = pos + 1, False
            elif op == "restart":
                rec.show("restart_sequence()")
                r.restart_sequence()
                pos, refuse, matched = 0, False, [None] * len(parts)
                for s in seq:
                    for x in tree_nodes(s):
                        check(x.current_match in (None, "") and not x.had_match,
                              "restart", "match data of %r after restarting", x)
            elif op == "case":
                v = src.chance(50)
                rec.show("case_sensitive = %r" % v)
                r.case_sensitive = v
                check_eq(r.case_sensitive, v, "case", "case_sensitive")
                for s in [e] + list(seq):
                    for x in deep_nodes(s):
                        if isinstance(x, jsgf.Literal):
                            check_eq(x.case_sensitive, v, "case", "of %r" % x)
                for p in parts:
                    for x in p.walk():
                        x.cs = v
            elif op in ("refuse", "accept"):
                refuse = op == "refuse"
                r.refuse_matches = refuse
            else:
                if op == "step" and refuse:
                    r.set_next()
                    if pos + 1 < len(parts):
                        pos, refuse = pos + 1, False
                p = parts[pos]
                if has_dict(p):
                    pool = SPOKEN if noise else SPOKEN + M.WORDS
                    words = [src.pick(pool) for _ in range(
                        src.between(0 if src.chance(10) else 1, 3))]
                    ok = bool(words)
                    text = " ".join(words)
                else:
                    words = []
                    if op == "step" or src.chance(50):
                        M.sample(src, p, rules, words)
                    else:
                        words = M.gen_speech(src, p, rules)
                    lang = M.Lang(rules, words)
                    ok = lang.accepts(p)
                    if ok != lang.greedy_accepts(p):
                        continue
                    text = " ".join(words)
                speech = M.render_speech(src, words)
                rec.show("matches(%r)" % speech)
                got = r.matches(speech)
                check_eq(got, ok and not refuse, "matches", "matches(%r) of part %d"
                         % (speech, pos))
                if not refuse:
                    matched[pos] = text if ok else None
                    refuse = True
                    wins += ok
                    got = seq[pos].current_match
                    if ok:
                        check_eq(norm(got), text, "current_match", "match of the part")
                    else:
                        check(not got, "current_match", "%r after no match", got)
                    self.tags(r, seq[pos], ok)
                    self.grafted(rec, noise, parts, matched, e, dicts, rules)
            # What can be seen from outside.
            check_eq((r.has_next_expansion, r.refuse_matches),
                     (pos + 1 < len(parts), refuse), "state", "state of the rule")
            check(r.expansion is seq[pos], "state", "current expansion")
            check_eq(r.current_is_dictation_only, has_dict(parts[pos]), "state",
                     "current_is_dictation_only")
            text = "%s<%s> = %s;" % ("public " if visible else "", name,
                                     seq[pos].compile())
            check_eq(r.compile(), "" if refuse or has_dict(parts[pos]) else text,
                     "compile", "compile()")
            bare = "%s<%s> = %s;" % ("public " if visible else "", name,
                                     seq[pos].compile(ignore_tags=True))
            check_eq(r.compile(ignore_tags=True),
                     "" if refuse or has_dict(parts[pos]) else bare, "compile",
                     "compile(ignore_tags=True)")
            want = None if None in matched else norm(" ".join(matched))
            got = r.entire_match
            if not any(not has_dict(p) and M.nullable(p, rules) for p in parts):
                check_eq(got, want, "entire", "entire_match")
            elif want is not None:
                # Optional parts cannot be told from those that matched nothing
                # before all of them were matched.
                check_eq(got if got is None else norm(got), want, "entire",
                         "entire_match")
                rec.label("entire, with optional parts")
            if want and len(parts) > 1:
                rec.label("entire")
        check(r.expansion_sequence is seq, "parts", "expansion_sequence changed")
        if wins:
            rec.nontrivial(rec.lines)
        rec.label("parts %d" % len(parts))

    def tags(self, r, s, ok):
        """Tags of what matched in the current part."""
        got = r.matched_tags
        if not ok:
            check_eq(got, [], "tags", "matched_tags after no match")
            return
        want = [x.tag for x in jsgf.expansions.flat_map_expansion(
            s, order=jsgf.expansions.TraversalOrder.PostOrder) if x.tag and x.had_match]
        check_eq(got, want, "tags", "matched_tags")
        if s.tag and s.current_match:
            check_eq(s.tag in got, True, "tags", "matched tag %r" % s.tag)

    def own(self, n):
        """Nodes that are not those of referenced rules."""
        return [n] + [x for k in n.kids if not n.name for x in self.own(k)]

    def pure(self, x):
        return all(y.kind in ("dict", "rep") for y in x.walk())

    def make(self, cls, name, visible, e):
        return cls(name, visible, e) if cls is SequenceRule else cls(name, e)

    def grafted(self, rec, noise, parts, matched, e, dicts, rules):
        if not noise:
            return
        if any(M.nullable(p, rules) for p in parts) and None in matched:
            return
        n = 0
        for m in matched:
            if m is None:
                break
            n += 1
        if n == len(parts):
            text = norm(" ".join(matched))
            check_eq(e.current_match, text, "graft", "match of the original expansion")
            got = [d.current_match for d in dicts]
            check_eq(got, [m for p, m in zip(parts, matched) if has_dict(p)],
                     "graft", "matches of the original Dictation expansions")
            rec.label("grafted")
        else:
            check_eq(e.current_match, None, "graft",
                     "match of the original after %d parts" % n)

    def accepted(self, src, rec):
        """Any expansion: accepted exactly if it needs no expanding."""
        cfg = M.Cfg(depth=src.between(0, 3), width=3, dictation=True, null=False,
                    void=False, words=M.WORDS[:5])
        n = M.gen(src, cfg)
        rec.show("SequenceRule(%s)" % M.show(n))
        x = n
        while x.kind not in ("rep", "star", "opt") and len(x.kids) == 1:
            x = x.kids[0]
        if x.kind == "rep":
            n = x.kids[0]
        try:
            e = M.build(n)
            language(e)
        except TooBig:
            raise Discard()
        if needs_expanding(n):
            check_raises(jsgf.GrammarError, lambda: SequenceRule("r", True, e),
                         "needs expanding", "sequence rule")
            rec.label("rejected")
        else:
            SequenceRule("r", True, e)
            rec.label("accepted")


PROP = C25()
