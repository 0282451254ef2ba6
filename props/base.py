from vlib.engine import (Violation, HarnessError, Discard, check, check_eq,
                         check_raises)
from vlib import model as M


class Prop:
    id = None

    def case(self, src, rec):
        raise NotImplementedError

    def known(self, kid):
        """Whether the listed known finding kid can still be reproduced."""
        raise HarnessError("unknown finding %s" % kid)


def norm(speech):
    return " ".join(speech.split())


def tree_nodes(e):
    """All expansions of one rule's tree in pre-order (not through references)."""
    out = [e]
    for c in list(e.children):
        out.extend(tree_nodes(c))
    return out


def match_snapshot(expansions):
    """Everything observable about the last match for the given expansions."""
    out = []
    for e in expansions:
        d = [type(e).__name__.replace("RuleRef", "NamedRuleRef")
             .replace("NamedNamed", "Named"), e.current_match, e.matching_slice and
             (e.matching_slice.start, e.matching_slice.stop), bool(e.had_match)]
        if hasattr(e, "repetitions_matched"):
            d.append(e.repetitions_matched)
            for x in tree_nodes(e)[1:]:
                d.append(e.get_expansion_matches(x))
                d.append([s and (s.start, s.stop) for s in e.get_expansion_slices(x)])
        out.append(d)
    return out


def describe(e):
    """Structure of a library expansion through its public attributes."""
    d = [type(e).__name__.replace("Parsed", ""), e.tag]
    if hasattr(e, "text"):
        d += [e.text, e.case_sensitive]
    if hasattr(e, "name"):
        d.append(e.name)
    if hasattr(e, "weights"):
        w = e.weights
        d.append([float(w[c]) if c in w else None for c in e.children] if w else None)
    d.append([describe(c) for c in e.children])
    return d


def links_ok(e, rule, parent=None):
    """Parent and rule links of a rule's tree."""
    if e.parent is not parent:
        return False
    return all(links_ok(c, rule, e) for c in e.children)
