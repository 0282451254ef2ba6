"""
C07: repetition data of (outermost) repeats lists each repetition of the speech.

Oracle: the only derivation of the speech, as in C06.
"""
from .base import *
from .c06 import (occurrences, text_of, slice_of, same_text, all_cs, ref_counts)


def outer_reps(n, out):
    if n.kind in ("rep", "star"):
        out.append(n)
        return
    for k in n.kids:
        outer_reps(k, out)


def all_occurrences(d, out):
    """Every occurrence of each node in a derivation."""
    n, i, j, ds = d
    out.setdefault(id(n), []).append((i, j, d))
    for c in ds:
        all_occurrences(c, out)


class C07(Prop):
    id = "C07"

    def case(self, src, rec):
        cfg = M.Cfg(depth=src.between(1, 3), width=src.between(2, 3), weights=10,
                    case=15, unique=True, void=False)
        # A repeat of something, with other things around it.
        inner = M.gen(src, cfg, src.between(1, 3))
        rep = M.N(src.pick(("rep", "star")), [inner])
        kids = [rep]
        if src.chance(50):
            kids.insert(0, M.gen(src, cfg, 1))
        if src.chance(50):
            kids.append(M.gen(src, cfg, 1))
        if src.chance(30):
            kids = [M.N("opt", [M.N("seq", kids)])]
        root = kids[0] if len(kids) == 1 else M.N("seq", kids)
        rules = M.RuleSet({"alpha": root})
        if src.chance(30):
            # Put a part of the repeat in another rule.
            holders = [x for x in inner.walk() if x.kids]
            if holders:
                h = src.pick(holders)
                i = src.below(len(h.kids))
                rules.rules["beta"] = h.kids[i]
                h.kids[i] = M.N("ref", name="beta")
        M.add_traps(src, rules, cfg, refs=False)
        names = list(rules.rules)
        objs = {}
        grammar = M.build_grammar(rules, names, objs)
        rule = grammar.get_rule_from_name("alpha")
        for name in names:
            rec.show("%s = %s" % (name, M.show(rules[name])))
        outer = []
        outer_reps(root, outer)

        for _ in range(src.between(1, 3)):
            spoken = M.gen_speech(src, root, rules)
            speech = M.render_speech(src, spoken, case=True)
            words = speech.split()
            got = rule.matches(speech)
            rec.show("matches(%r) = %s" % (speech, got))
            if not got:
                for r in outer:
                    e = objs[id(r)]
                    check_eq(e.repetitions_matched, 0, "after-fail",
                             "%s: repetitions_matched after a failed match"
                             % M.show(r))
                continue
            lang = M.Lang(rules, words)
            if not lang.greedy_accepts(root):
                rec.label("ambiguous")
                continue
            try:
                ds = M.Derivations(rules, words).full(root)
            except M.TooMany:
                continue
            if len(ds) != 1:
                rec.label("many_derivations")
                continue
            occ = {}
            all_occurrences(ds[0], occ)
            for r in outer:
                self.check_rep(r, occ, objs, rules, words, rec, names)
            inside = set(id(x) for r in outer for x in r.walk())
            for x in root.walk():
                # had_match of everything in this rule, including inner repeats
                spans = [(i, j) for i, j, _ in occ.get(id(x), []) if j > i]
                check_eq(bool(objs[id(x)].had_match), bool(spans), "had_match",
                         "%s: had_match" % M.show(x))
                if id(x) not in inside:
                    for r in outer:
                        e = objs[id(r)]
                        if x.kind in ("lit", "ref") or not any(
                                y is r for y in x.walk()):
                            check_eq(e.get_expansion_matches(objs[id(x)]), [],
                                     "outside", "matches of %s, which is not in %s"
                                     % (M.show(x), M.show(r)))
                            check_eq(e.get_expansion_slices(objs[id(x)]), [],
                                     "outside", "slices of %s, which is not in %s"
                                     % (M.show(x), M.show(r)))
            if any(len(occ[id(r)][0][2][3]) > 1 for r in outer if id(r) in occ):
                rec.nontrivial([M.show(r) for r in rules.rules.values()] + words)

    def check_rep(self, r, occ, objs, rules, words, rec, names):
        e = objs[id(r)]
        what = M.show(r)
        ds = ()
        if id(r) in occ:
            (_, _, d), = occ[id(r)]
            ds = [c for c in d[3] if c[2] > c[1]]
        check_eq(e.repetitions_matched, len(ds), "count",
                 "%s: repetitions_matched" % what)
        rec.label("reps_%d" % min(len(ds), 4))
        per_rep = []
        for c in ds:
            o = {}
            occurrences(c, o)
            per_rep.append(o)
        nodes = [x for x in r.kids[0].walk()]
        for x in list(nodes):
            if x.kind == "ref":
                nodes += list(rules[x.name].walk())
                rec.label("through_reference")
        for x in nodes:
            xe = objs[id(x)]
            xw = "%s in %s" % (M.show(x), what)
            matches = e.get_expansion_matches(xe)
            slices = e.get_expansion_slices(xe)
            check_eq(len(matches), len(ds), "matches-len", "number of matches of " + xw)
            check_eq(len(slices), len(ds), "slices-len", "number of slices of " + xw)
            for k, o in enumerate(per_rep):
                spans = o.get(id(x), [])
                if spans and spans[0][1] > spans[0][0]:
                    i, j = spans[0]
                    check(same_text(matches[k], text_of(words, i, j),
                                    all_cs(x, rules)),
                          "matches", "match of %s in repetition %d is %r, not %r",
                          xw, k, matches[k], text_of(words, i, j))
                    check_eq(slices[k], slice_of(words, i, j), "slices",
                             "slice of %s in repetition %d" % (xw, k))
                else:
                    check(not matches[k], "matches-none", "match of %s in repetition "
                          "%d is %r, but it was not matched", xw, k, matches[k])
                    check(slices[k] is None or slices[k].start == slices[k].stop,
                          "slices-none", "slice of %s in repetition %d is %r, but it "
                          "was not matched", xw, k, slices[k])


PROP = C07()
