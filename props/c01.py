"""
C01: parsing a compiled expansion gives an expansion with the same meaning.

Oracle: normal forms.  The model tree's normal form is computed without the library,
so that a compiler and a parser that are wrong in the same way do not agree by luck.
"""
from .base import *
from vlib import text as T
from jsgf import parse_expansion_string, Literal, AlternativeSet
from jsgf import errors


def retext(src, n):
    """Give literals and tags random text, references random names."""
    for x in n.walk():
        if x.kind == "lit":
            x.words = [T.gen_word(src) for _ in x.words]
        if x.kind == "ref":
            x.name = T.gen_qname(src)
        if x.tag:
            x.tag = T.gen_tag(src)


def comparable(x):
    """A normal form without the order of alternatives."""
    if not isinstance(x, tuple):
        return x
    if x and x[0] == "alt":
        kids = [repr(comparable(c)) for c in x[1]]
        return ("alt", len(kids), tuple(sorted(set(kids))))
    return tuple(comparable(c) for c in x)


def fix_weights(n):
    """Alternatives of weighted sets pairwise different; at least two of them."""
    # Inner sets first: what is left of them decides whether outer ones differ.
    for x in reversed(list(n.walk())):
        if x.weights is not None:
            seen, kids, weights = set(), [], []
            for k, w in zip(x.kids, x.weights):
                s = repr(comparable(T.strip_tags(T.nf_model(k)))).lower()
                if s not in seen:
                    seen.add(s)
                    kids.append(k)
                    weights.append(w)
            x.kids, x.weights = kids, weights
            if len(kids) < 2:
                x.weights = None


def untag_after_words(n, prev=False):
    """
    'a b { t }' is a tagged literal 'a b' for the parser, so Sequence('a', tagged 'b')
    is excluded (known finding): the tag is removed.  prev: whether the compiled text
    before n ends with a word.  Returns whether it does after n.
    """
    k = n.kind
    if k == "lit":
        if prev:
            n.tag = ""
        return not n.tag
    if k == "seq":
        if len(n.kids) == 1 and n.kids[0].kind == "lit":
            if prev:
                n.tag = n.kids[0].tag = ""
            if n.tag and n.kids[0].tag:
                return False
            return not n.tag and not n.kids[0].tag
        prev = prev and not n.tag
        for c in n.kids:
            prev = untag_after_words(c, prev)
        return prev and not n.tag
    for c in n.kids:
        p = untag_after_words(c, False) if k not in ("req",) else None
    if k == "req":
        p = False
        for c in n.kids:
            p = untag_after_words(c, p)
    return False


def empty_groups(src, n):
    for x in n.walk():
        if x.kind in ("seq", "req", "alt") and src.chance(3):
            x.kids, x.weights = [], None


def check_links(e):
    check(e.parent is None, "links", "the parsed root has parent %r", e.parent)
    check(links_ok(e, None), "links", "parent links of %s are wrong", e)


def gen_expansion(src, tags=30, weights=30, dictation=True):
    weights = 0 if src.chance(15) else weights
    cfg = M.Cfg(wide=3, chain=3, long=True, depth=src.between(1, 3), width=src.between(2, 4), weights=weights,
                case=25, tags=tags, refs=("x",), max_words=3,
                dictation=dictation and src.chance(20))
    n = M.gen(src, cfg)
    retext(src, n)
    empty_groups(src, n)
    untag_after_words(n)
    fix_weights(n)
    return n


class C01(Prop):
    id = "C01"

    def case(self, src, rec):
        n = gen_expansion(src)
        objs = {}
        e = M.build(n, objs)
        rec.show(M.show(n))
        want = T.nf_model(n)
        text = e.compile()
        rec.show("compiled: %s" % text)
        check(isinstance(text, str), "type", "compile() returned %r", text)
        parsed = parse_expansion_string(text)
        check_links(parsed)
        got = T.nf_lib(parsed, cs=True)
        check_eq(got, want, "round-trip", "meaning of parse(%r)" % text)

        # Again: the parsed expansion is compiled and parsed.
        if not T.tag_after_word(want):
            for x in tree_nodes(parsed):
                if isinstance(x, Literal):
                    x.case_sensitive = True
            text2 = parsed.compile()
            got2 = T.nf_lib(parse_expansion_string(text2), cs=True)
            check_eq(got2, want, "round-trip-2", "meaning of parse(%r), second round"
                     % text2)

        # Without tags.
        text3 = e.compile(ignore_tags=True)
        got3 = T.nf_lib(parse_expansion_string(text3), cs=True)
        check_eq(got3, T.nf_model(n, tags=False), "ignore-tags",
                 "meaning of parse(%r), compiled without tags" % text3)
        check_eq(e.compile(), text, "stable", "compile() called again")
        kinds = {x.kind for x in n.walk()}
        rec.label(*sorted(kinds))
        if any(x.tag for x in n.walk()):
            rec.label("tagged")
        if any(x.weights for x in n.walk()):
            rec.label("weighted")
        if len(kinds) > 1:
            rec.nontrivial(M.show(n))

    def known(self, kid):
        import jsgf
        if kid == "tagged-repeat":
            e = jsgf.Repeat("a")
            e.tag = "t"
            try:
                parse_expansion_string(e.compile())
            except errors.GrammarError:
                return True
            return False
        if kid == "single-weighted-alternative":
            e = AlternativeSet("a")
            e.set_weight(0, 2)
            try:
                parse_expansion_string(e.compile())
            except errors.GrammarError:
                return True
            return False
        if kid == "tagged-literal-after-literal":
            b = Literal("b")
            b.tag = "t"
            e = jsgf.Sequence("a", b)
            return parse_expansion_string(e.compile()).tag == "t"
        return super().known(kid)


PROP = C01()
