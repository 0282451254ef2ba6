"""
C06: match data of expansions describes the derivation of the speech.

Oracle: all derivations of the speech are enumerated; if there is exactly one (and it
needs no backtracking), each expansion's current_match / matching_slice is known.
"""
from .base import *


def occurrences(d, out):
    """Occurrences that match data is kept for: the last repetition of repeats."""
    n, i, j, ds = d
    out.setdefault(id(n), []).append((i, j))
    if n.kind in ("rep", "star") and ds:
        occurrences(ds[-1], out)
    else:
        for c in ds:
            occurrences(c, out)


def ref_counts(rules):
    counts = {}
    for r in rules.rules.values():
        for x in r.walk():
            if x.kind == "ref":
                counts[x.name] = counts.get(x.name, 0) + 1
    return counts


def text_of(words, i, j):
    return " ".join(words[i:j])


def slice_of(words, i, j):
    start = len(" ".join(words[:i])) + (1 if i else 0)
    return slice(start, start + len(" ".join(words[i:j])))


def same_text(actual, expected, cs):
    if not isinstance(actual, str):
        return False
    return actual == expected if cs else actual.lower() == expected.lower()


def all_cs(n, rules):
    return all(x.cs for x in n.walk() if x.kind == "lit") and \
        all(all_cs(rules[x.name], rules) for x in n.walk() if x.kind == "ref")


def optional_ids(n, out, inside=False):
    inside = inside or n.kind in ("opt", "star")
    if inside:
        out.add(id(n))
    for k in n.kids:
        optional_ids(k, out, inside)


def has_slice(e):
    s = e.matching_slice
    return s is not None and s.start != s.stop


def check_unmatched(x, e, optional, what):
    m = e.current_match
    if x.kind == "null" and not x.name:
        check(m == "", "unmatched", "%s current_match is %r", what, m)
    elif x.kind == "void":
        check(m is None, "unmatched", "%s current_match is %r", what, m)
    elif optional:
        check(m == "", "unmatched", "%s is optional and was not matched, but its "
              "current_match is %r", what, m)
    else:
        check(m is None, "unmatched", "%s was not matched, but its current_match "
              "is %r", what, m)


class C06(Prop):
    id = "C06"

    def case(self, src, rec):
        cfg = M.Cfg(empty_groups=60, wide=3, chain=2, depth=src.between(1, 3), width=src.between(2, 3), weights=15,
                    case=15, unique=src.chance(70))
        rules, names = M.gen_rules(src, cfg)
        M.add_traps(src, rules, cfg)
        objs = {}
        grammar = M.build_grammar(rules, names, objs)
        for name in names:
            rec.show("%s = %s" % (name, M.show(rules[name])))
        counts = ref_counts(rules)
        root = rules[names[0]]
        rule = grammar.get_rule_from_name(names[0])

        # Rules that can be reached, with each of their nodes matched once at most.
        todo, reach = [names[0]], []
        while todo:
            name = todo.pop()
            if name not in reach:
                reach.append(name)
                todo += [x.name for x in rules[name].walk() if x.kind == "ref"]
        single = [n for n in reach if counts.get(n, 0) <= 1]
        if any(counts.get(n, 0) > 1 for n in reach):
            # A rule referenced twice has one set of match data only.
            rec.label("shared_rule")
            shared = set()
            for n in reach:
                if counts.get(n, 0) > 1:
                    below = [n]
                    while below:
                        m = below.pop()
                        if m not in shared:
                            shared.add(m)
                            below += [x.name for x in rules[m].walk()
                                      if x.kind == "ref"]
            single = [n for n in single if n not in shared]
        optional = set()
        for n in single:
            optional_ids(rules[n], optional)

        for _ in range(src.between(1, 3)):
            spoken = M.gen_speech(src, root, rules)
            speech = M.render_speech(src, spoken, case=True)
            words = speech.split()
            got = rule.matches(speech)
            rec.show("%s.matches(%r) = %s" % (names[0], speech, got))
            if not got:
                rec.label("failed")
                for n in reach:
                    for x in rules[n].walk():
                        e = objs[id(x)]
                        check(not e.current_match, "after-fail", "%s has "
                              "current_match %r after a failed match", M.show(x),
                              e.current_match)
                        check(e.matching_slice is None, "after-fail-slice", "%s has "
                              "matching_slice %r after a failed match", M.show(x),
                              e.matching_slice)
                continue
            lang = M.Lang(rules, words)
            if not lang.greedy_accepts(root):
                rec.label("ambiguous")
                continue
            try:
                ds = M.Derivations(rules, words).full(root)
            except M.TooMany:
                rec.label("too_many_derivations")
                continue
            if len(ds) != 1:
                rec.label("many_derivations")
                continue
            rec.label("matched")
            occ = {}
            occurrences(ds[0], occ)
            for n in single:
                for x in rules[n].walk():
                    e = objs[id(x)]
                    what = "%s in %s" % (M.show(x), n)
                    o = occ.get(id(x), [])
                    if len(o) > 1:
                        raise HarnessError("several occurrences")
                    if o and o[0][0] < o[0][1]:
                        i, j = o[0]
                        check(same_text(e.current_match, text_of(words, i, j),
                                        all_cs(x, rules)),
                              "current_match", "%s: current_match is %r, expected %r",
                              what, e.current_match, text_of(words, i, j))
                        check_eq(e.matching_slice, slice_of(words, i, j),
                                 "matching_slice", "%s: matching_slice" % what)
                        check(e.had_match, "had_match", "%s: had_match is False", what)
                    elif o:
                        check(not e.current_match, "empty", "%s matched nothing but "
                              "its current_match is %r", what, e.current_match)
                    else:
                        check_unmatched(x, e, id(x) in optional, what)
                        check(not has_slice(e), "unmatched-slice", "%s was not "
                              "matched, but its matching_slice is %r", what,
                              e.matching_slice)
            check(rule.expansion.current_match is not None, "root",
                  "root current_match is None after a match")
            if len(words) > 1:
                rec.nontrivial([M.show(r) for r in rules.rules.values()] + words)


PROP = C06()
