"""
C13: traversals and tree queries give what their definitions say.

Oracle: naive definitions over an explicit list of nodes with paths.
"""
import jsgf
from jsgf.expansions import (map_expansion, flat_map_expansion, filter_expansion,
                             find_expansion, TraversalOrder, JointTreeContext)

from .base import *

PRE, POST = TraversalOrder.PreOrder, TraversalOrder.PostOrder


class Tree:
    """Occurrences of expansions in a tree, optionally through references."""

    def __init__(self, root, lookup, deep):
        self.deep, self.lookup = deep, lookup
        self.pre, self.post = [], []          # (expansion, path of ancestors)
        self.nested = self.visit(root, ())

    def kids(self, e):
        if isinstance(e, jsgf.NamedRuleRef):
            return [self.lookup(e.name)] if self.deep else []
        return list(e.children)

    def visit(self, e, path):
        self.pre.append((e, path))
        kids = [self.visit(k, path + (e,)) for k in self.kids(e)]
        self.post.append((e, path))
        return (e, kids)


def pre_tuple(t, f, lookup, deep):
    e, kids = t
    if isinstance(e, jsgf.NamedRuleRef) and deep:
        # The referenced rule's tree is in place of the children.
        return (f(e), pre_tuple(kids[0], f, lookup, deep))
    return (f(e), tuple(pre_tuple(k, f, lookup, deep) for k in kids))


def post_tuple(t, f, lookup, deep):
    e, kids = t
    if isinstance(e, jsgf.NamedRuleRef) and deep:
        return (post_tuple(kids[0], f, lookup, deep), f(e))
    return (tuple(post_tuple(k, f, lookup, deep) for k in kids), f(e))


def ids(xs):
    return [id(x) for x in xs]


class C13(Prop):
    id = "C13"

    def case(self, src, rec):
        cfg = M.Cfg(empty_groups=60, wide=3, chain=2, depth=src.between(1, 3), width=3, tags=20, tag_rep=True, case=10,
                    words=M.WORDS[:src.pick((13, 2))], dictation=src.chance(20))
        rules, names = M.gen_rules(src, cfg)
        g = M.build_grammar(rules, names)
        shown = [M.show(rules[n]) for n in names]
        rec.show("; ".join("%s = %s" % x for x in zip(names, shown)))
        self.lookup = lambda name: g.get_rule_from_name(name).expansion
        self.g = g
        rule = g.get_rule_from_name(names[0])
        roots = [g.get_rule_from_name(n).expansion for n in names]
        every = [x for r in roots for x in tree_nodes(r)]
        e = rule.expansion if src.chance(60) else src.pick(tree_nodes(rule.expansion))
        deep = src.chance(60)
        rec.show("from %r, %s" % (e, "deep" if deep else "shallow"))
        self.traverse(src, e, deep)
        self.ancestors(every)
        self.relations(src, every, roots)
        self.leaves(src, roots, every)
        if src.chance(50):
            self.move(src, rec, roots, every)
            every = [x for r in roots for x in tree_nodes(r)]
            rules = None
        # Joined trees
        self.joint(src, rec, rule, roots, rules, names)
        self.ancestors(every)
        rec.label("refs" if any(isinstance(x, jsgf.NamedRuleRef) for x in every)
                  else "no refs")
        if len(every) > 3:
            rec.nontrivial(shown)

    # -- map, flat_map, filter, find
    def traverse(self, src, e, deep):
        t = Tree(e, self.lookup, deep)
        kw = {} if deep and src.chance(50) else {"shallow": not deep}
        f = src.pick((lambda x: x, lambda x: str(x), lambda x: None, lambda x: x.tag))
        got = map_expansion(e, f, **kw)
        check_eq(got, pre_tuple(t.nested, f, self.lookup, deep), "map-pre",
                 "map_expansion")
        got = map_expansion(e, f, order=POST, **kw)
        check_eq(got, post_tuple(t.nested, f, self.lookup, deep), "map-post",
                 "map_expansion in post-order")
        pre, post = [x for x, _ in t.pre], [x for x, _ in t.post]
        check_eq(ids(flat_map_expansion(e, **kw)), ids(pre), "flat-pre",
                 "flat_map_expansion")
        check_eq(ids(flat_map_expansion(e, order=POST, **kw)), ids(post), "flat-post",
                 "flat_map_expansion in post-order")
        check_eq(flat_map_expansion(e, f, **kw), [f(x) for x in pre], "flat-f",
                 "flat_map_expansion")
        seen = []
        map_expansion(e, seen.append, order=POST, **kw)
        check_eq(ids(seen), ids(post), "map-order", "order of calls")
        target = src.pick(pre)
        conds = (lambda x: isinstance(x, jsgf.Literal), lambda x: x is target,
                 lambda x: x == target, lambda x: x.tag, lambda x: False,
                 lambda x: True, lambda x: len(x.children) > 1,
                 lambda x: isinstance(x, jsgf.NamedRuleRef))
        cond = src.pick(conds)
        for order, nodes in ((PRE, pre), (POST, post)):
            want = [x for x in nodes if cond(x)]
            check_eq(ids(filter_expansion(e, cond, order, **kw)), ids(want), "filter",
                     "filter_expansion in order %d" % order)
            got = find_expansion(e, cond, order, **kw)
            check(got is (want[0] if want else None), "find",
                  "find_expansion in order %d: %r, not %r", order, got, want[:1])
            # It stops at the first one.
            calls = []

            def count(x):
                calls.append(x)
                return cond(x)
            find_expansion(e, count, order, **kw)
            first = [i for i, x in enumerate(nodes) if cond(x)]
            n = first[0] + 1 if first else len(nodes)
            check_eq(ids(calls), ids(nodes[:n]), "find-calls",
                     "expansions find_expansion looked at")
        for func in (map_expansion, find_expansion):
            check_raises(ValueError, lambda: func(e, order=7), "order",
                         "%s with order 7" % func.__name__)

    def path(self, e):
        out = []
        p = e.parent
        while p is not None:
            out.append(p)
            p = p.parent
        return out

    # -- upward queries, from parents
    def ancestors(self, every):
        for e in every:
            path = self.path(e)
            check(e.root_expansion is (path[-1] if path else e), "root",
                  "root_expansion of %r", e)
            opt = any(isinstance(x, (jsgf.OptionalGrouping, jsgf.KleeneStar))
                      for x in [e] + path)
            check_eq(e.is_optional, opt, "is_optional", "is_optional of %r" % e)
            alts = [x for x in [e] + path if isinstance(x, jsgf.AlternativeSet)]
            # Sets with one alternative are unspecified.
            if not alts or any(len(x.children) > 1 for x in alts):
                check_eq(e.is_alternative, bool(alts), "is_alternative",
                         "is_alternative of %r" % e)
            reps = [x for x in path if isinstance(x, jsgf.Repeat)]
            check(e.repetition_ancestor is (reps[0] if reps else None), "repetition",
                  "repetition_ancestor of %r is %r", e, e.repetition_ancestor)

    def below(self, e, deep=True):
        """Expansions below e, through references."""
        return [x for x, _ in Tree(e, self.lookup, deep).pre if x is not e]

    def relations(self, src, every, roots):
        for _ in range(6):
            a, b = src.pick(every), src.pick(every)
            for _ in range(2):        # stored, the second time
                check_eq(a.is_descendant_of(b),
                         any(x is a for x in self.below(b)), "descendant",
                         "%r.is_descendant_of(%r)" % (a, b))
        self.exclusive(src, every)

    def exclusive(self, src, every):
        for _ in range(6):
            a, b = src.pick(every), src.pick(every)
            want = False
            root = self.top(a)
            if root is self.top(b):
                t = Tree(root, self.lookup, True)
                pa = [p + (x,) for x, p in t.pre if x is a]
                pb = [p + (x,) for x, p in t.pre if x is b]
                if len(pa) != 1 or len(pb) != 1:
                    continue      # more than one place
                pa, pb = pa[0], pb[0]
                # The last common ancestor is a set of alternatives.
                n = 0
                while n < min(len(pa), len(pb)) and pa[n] is pb[n]:
                    n += 1
                if n < len(pa) and n < len(pb):
                    want = isinstance(pa[n - 1], jsgf.AlternativeSet)
            for x, y in ((a, b), (b, a)):
                check_eq(x.mutually_exclusive_of(y), want, "exclusive",
                         "%r.mutually_exclusive_of(%r)" % (x, y))

    def top(self, e):
        p = self.path(e)
        return p[-1] if p else e

    def leaves(self, src, roots, every):
        e = src.pick(every)
        for deep in (True, False):
            for order in (PRE, POST):
                t = Tree(e, self.lookup, deep)
                nodes = [x for x, _ in (t.pre if order == PRE else t.post)]
                check_eq(ids(e.collect_leaves(order, shallow=not deep)),
                         ids(x for x in nodes if not x.children), "leaves",
                         "leaves of %r" % e)
        check_eq(ids(e.leaves), ids(e.collect_leaves()), "leaves-property", "leaves")
        self.after(src, every)

    def after(self, src, every):
        for _ in range(3):
            e = src.pick(every)
            t = Tree(self.top(e), self.lookup, True)
            leaves = [x for x, _ in t.pre if not x.children]
            at = [i for i, x in enumerate(leaves) if x is e]
            if len(at) > 1:
                continue          # the rule is referenced more than once
            want = leaves[at[0] + 1:] if at else []
            check_eq(ids(e.leaves_after), ids(want), "leaves_after",
                     "leaves_after of %r" % e)
            if len({id(x) for x in leaves}) == len(leaves):
                check_eq(ids(e.matchable_leaves_after),
                         ids(x for x in want if not e.mutually_exclusive_of(x)),
                         "matchable_leaves_after", "matchable_leaves_after of %r" % e)

    # -- Changed trees. Stored calculations are invalidated as documented.
    def move(self, src, rec, roots, every):
        for _ in range(src.between(1, 3)):
            places = [(p, i) for p in every for i in range(len(p.children))
                      if isinstance(p, (jsgf.Sequence, jsgf.AlternativeSet))
                      and len(p.children) > 1]
            if not places:
                return
            p, i = src.pick(places)
            x = old = p.children[i]
            inside = {id(y) for y in tree_nodes(x)}
            to = [q for q in every if id(q) not in inside
                  and isinstance(q, (jsgf.Sequence, jsgf.AlternativeSet))]
            if any(isinstance(y, jsgf.NamedRuleRef) for y in tree_nodes(x)):
                # Never make rules reference themselves.
                to = [q for q in to if self.top(q) is self.top(p)]
            q = src.pick(to)
            k = src.below(3)
            # Calculations are stored with the tree an expansion is in, so invalidate
            # them before as well as after the change.
            map_expansion(old, jsgf.Expansion.invalidate_calculations)
            if k == 0:
                p.children.pop(i)
                q.children.insert(src.below(len(q.children) + 1), x)
                rec.show("moved %r to %r; %s" % (x, q, roots))
            elif k == 1:
                new = jsgf.AlternativeSet("n", jsgf.Sequence("m", "o"))
                p.children[i] = new
                rec.show("replaced %r in %r" % (x, p))
                # Wrapped by an expansion of another kind.
                if src.chance(50):
                    new.children.append(x)
                x = new
            else:
                x = src.pick((jsgf.Literal("n"), jsgf.OptionalGrouping("n"),
                              jsgf.Sequence("n", jsgf.AlternativeSet("m", "o"))))
                q.children.append(x)
                rec.show("appended %r to %r" % (x, q))
            for y in (old, x):
                map_expansion(y, jsgf.Expansion.invalidate_calculations)
            every[:] = [y for r in roots for y in tree_nodes(r)]
            # The new places are asked about in particular.
            some = tree_nodes(x) + [p, q] + [y for y in p.children]
            self.ancestors(every)
            self.relations(src, some, roots)
            self.relations(src, every, roots)
            self.leaves(src, roots, every)
        rec.label("changed")

    # -- JointTreeContext
    def joint(self, src, rec, rule, roots, rules, names):
        root = rule.expansion
        t = Tree(root, self.lookup, True)
        parents = {id(x): x.parent for r in roots for x in tree_nodes(r)}
        fail = src.chance(30)
        single = len({id(x) for x, _ in t.pre}) == len(t.pre)
        has_dict = rules is None or any(
            x.kind == "dict" for r in rules.rules.values() for x in r.walk())
        speech = "" if rules is None else \
            M.render_speech(src, M.gen_speech(src, rules[names[0]], rules))
        before = None if has_dict else rule.matches(speech)
        try:
            with JointTreeContext(root):
                for x, path in t.pre:
                    if single:
                        check_eq(ids(self.path(x)), ids(reversed(path)), "joined",
                                 "ancestors of %r in the joined tree" % x)
                    else:
                        check(x is root or x.parent is not None, "joined",
                              "%r was not joined", x)
                if single:
                    rec.label("joined")
                    nodes = [x for x, _ in t.pre]
                    self.ancestors(nodes)
                    self.exclusive(src, nodes)
                    self.after(src, nodes)
                if not has_dict and single:
                    check_eq(rule.matches(speech), before, "joined-match",
                             "%s.matches(%r) in the joined tree" % (rule.name, speech))
                if fail:
                    raise KeyError("stop")
        except KeyError as e:
            check(fail and e.args == ("stop",), "error", "error: %r", e)
        else:
            check(not fail, "swallowed", "the error was swallowed")
        for r in roots:
            for x in tree_nodes(r):
                check(x.parent is parents[id(x)], "detached", "parent of %r after "
                      "JointTreeContext: %r", x, x.parent)
        if not has_dict:
            check_eq(rule.matches(speech), before, "match-after",
                     "%s.matches(%r) after JointTreeContext" % (rule.name, speech))


PROP = C13()
