"""
C10: child lists behave like Python lists of expansions and keep parent links right.

Oracle: a plain Python list of the same objects, operated in parallel.
"""
import operator

from .base import *
import jsgf
from jsgf import Literal, Sequence, AlternativeSet, RequiredGrouping


ORDER = (("<", operator.lt), ("<=", operator.le), (">", operator.gt),
         (">=", operator.ge))


def outcome(func):
    try:
        return ("ok", func())
    except (IndexError, ValueError, TypeError, AttributeError) as e:
        return ("raised", type(e).__name__)


def ident(x):
    """Comparable by identity."""
    if isinstance(x, (list, tuple)):
        return [ident(y) for y in x]
    if isinstance(x, jsgf.Expansion):
        return ("expansion", id(x))
    return x


class C10(Prop):
    id = "C10"

    def case(self, src, rec):
        cls = src.pick((Sequence, AlternativeSet, RequiredGrouping))
        self.counter = 0
        self.every = []
        model = [self.new(src, True) for _ in range(src.below(5))]
        e = cls(*model)
        outer = Sequence(e) if src.chance(50) else None
        rec.show("%s(%s)" % (cls.__name__, model))
        self.verify(e, model, outer, "start")
        done = []
        for _ in range(src.between(1, 8)):
            d = self.step(src, e, model)
            rec.show(d)
            done.append(d.split("(")[0])
            self.verify(e, model, outer, d)
        rec.label(*set(done))
        if len(set(done)) > 1:
            rec.nontrivial(rec.lines)

    def new(self, src, expansion=False):
        """A new item: an expansion, or a string that becomes one."""
        self.counter += 1
        # Some are comparable to others.
        text = src.pick(("x%d" % self.counter, "a", "b"))
        if not expansion and src.chance(25):
            return text
        x = Literal(text) if src.chance(75) else src.pick((
            lambda: jsgf.Repeat(text), lambda: Sequence(text, "q"),
            lambda: jsgf.NullRef(), lambda: jsgf.NamedRuleRef("r")))()
        self.every.append(x)
        return x

    def index(self, src, n):
        return src.between(-n - 2, n + 1)

    def slice(self, src, n):
        def bound():
            return None if src.chance(25) else self.index(src, n)
        return slice(bound(), bound(), src.pick((None, None, None, 1, 2, -1, -2)))

    def step(self, src, e, model):
        c, n = e.children, len(model)
        op = src.pick(("append", "insert", "extend", "iadd", "pop", "pop()", "remove",
                       "set", "setslice", "permute", "clear", "assign", "reassign",
                       "get", "getslice", "index", "eq", "order", "iter", "add", "bad"))
        item = self.new(src)
        items = [self.new(src) for _ in range(src.below(4))]
        bad = src.pick((1, None, 2.5, ["a"], b"x", object))
        i = self.index(src, n)
        if op == "append":
            self.both(op, lambda: c.append(item), lambda: model.append(item), c, model)
            return "append(%r)" % item
        if op == "insert":
            self.both(op, lambda: c.insert(i, item), lambda: model.insert(i, item), c,
                      model)
            return "insert(%d, %r)" % (i, item)
        if op == "extend":
            it = src.pick((list, tuple, iter))
            self.both(op, lambda: c.extend(it(items)), lambda: model.extend(items), c,
                      model)
            return "extend(%r)" % items
        if op == "iadd":
            def add():
                e.children += items
            if src.chance(50):
                def add():
                    d = e.children
                    d += items
            self.both(op, add, lambda: model.extend(items), c, model)
            return "iadd(%r)" % items
        if op == "pop":
            self.both(op, lambda: c.pop(i), lambda: model.pop(i), c, model)
            return "pop(%d)" % i
        if op == "pop()":
            self.both(op, lambda: c.pop(), lambda: model.pop(), c, model)
            return "pop()"
        if op == "remove":
            x = model[src.below(n)] if n and src.chance(80) else Literal("nowhere")
            if src.chance(40):
                x = x.copy()
            # Not list.remove: the model list has to drop the first equal item too.
            self.both(op, lambda: c.remove(x), lambda: model.remove(x), c, model)
            return "remove(%r)" % x
        if op == "set":
            self.both(op, lambda: c.__setitem__(i, item),
                      lambda: model.__setitem__(i, item), c, model)
            return "set(%d, %r)" % (i, item)
        if op == "setslice":
            s = self.slice(src, n)
            if s.step not in (None, 1) and src.chance(80):
                k = len(range(*s.indices(n)))
                items = [self.new(src) for _ in range(k)]
            self.both(op, lambda: c.__setitem__(s, list(items)),
                      lambda: model.__setitem__(s, list(items)), c, model)
            return "setslice(%s, %r)" % (s, items)
        if op == "permute":
            # Some of the children in another order, and new ones.
            s = self.slice(src, n)
            s = slice(s.start, s.stop)
            same = src.shuffle(model[s]) + items[:1]
            if src.chance(30) and same:
                same.pop()
            self.both(op, lambda: c.__setitem__(s, list(same)),
                      lambda: model.__setitem__(s, list(same)), c, model)
            return "permute(%s)" % s
        if op == "clear":
            if src.chance(60):
                return "nothing()"
            self.both(op, lambda: c.clear(), lambda: model.clear(), c, model)
            return "clear()"
        if op in ("assign", "reassign"):
            if op == "reassign":
                items = src.shuffle(model)[:src.below(n + 1)] + items[:1]
            it = src.pick((list, tuple))
            old = list(model)

            def assign():
                e.children = it(items)
            assign()
            model[:] = items
            self.adopt_strings(e.children, model)
            for x in old:
                check(any(x is y for y in model) or x.parent is None, "orphan",
                      "%r was removed but has parent %r", x, x.parent)
            return "%s(%r)" % (op, items)
        if op == "get":
            self.same(op, lambda: c[i], lambda: model[i])
            return "get(%d)" % i
        if op == "getslice":
            s = self.slice(src, n)
            self.same(op, lambda: list(c[s]), lambda: model[s])
            return "getslice(%s)" % s
        if op == "index":
            x = model[src.below(n)] if n and src.chance(80) else Literal("nowhere")
            a = self.index(src, n)
            k = src.below(3)
            if k == 0:
                self.same(op, lambda: c.index(x), lambda: model.index(x))
            elif k == 1:
                self.same(op, lambda: c.index(x, a), lambda: model.index(x, a))
            else:
                self.same(op, lambda: c.index(x, a, i), lambda: model.index(x, a, i))
            return "index(%r)" % x
        if op == "eq":
            other = list(model)
            if other and src.chance(50):
                other.pop()
            if other and src.chance(50):
                other[0] = other[0].copy()
            want = model == other
            check_eq(c == other, want, "eq", "children == %r" % other)
            check_eq(c != other, not want, "ne", "children != %r" % other)
            twin = Sequence(*[x.copy() for x in other])
            check_eq(c == twin.children, want, "eq-list", "children == other children")
            return "eq(%r)" % other
        if op == "order":
            # Lists are ordered by their first different items; expansions have no
            # order, so only prefixes can be compared.
            other = list(model)
            k = src.below(4)
            if other and k == 1:
                other.pop()
            elif k == 2:
                other.append(Literal("more"))
            elif other and k == 3:
                other[-1] = Literal("different")
            right = other if src.chance(60) else \
                Sequence(*[x.copy() for x in other]).children
            for name, f in ORDER:
                self.same("order", lambda: f(c, right), lambda: f(model, other))
                self.same("order", lambda: f(right, c), lambda: f(other, model))
            return "order(%r)" % other
        if op == "iter":
            self.same(op, lambda: list(iter(c)), lambda: list(model))
            self.same(op, lambda: list(reversed(c)), lambda: model[::-1])
            x = model[src.below(n)].copy() if n else item
            check_eq(x in c, x in model, "in", "%r in children" % x)
            check_eq(bool(c), bool(model), "bool", "bool(children)")
            return "iter()"
        if op == "add":
            # Unlike +=, does not change anything.
            self.same(op, lambda: c + [1], lambda: model + [1])
            return "add()"
        # Objects that are no expansions are rejected and change nothing.
        k = src.below(6)
        mixed = src.shuffle(items + model[:src.below(2)] + [bad])
        at, s = src.between(-n, n - 1) if n else 0, self.slice(src, n)
        f = (lambda: c.append(bad), lambda: c.insert(i, bad), lambda: c.extend(mixed),
             lambda: c.__setitem__(slice(s.start, s.stop), mixed),
             lambda: setattr(e, "children", src.pick((bad, mixed))),
             lambda: c.__setitem__(at, bad))[k]
        if k == 4 and bad == ["a"]:
            bad = 3
            mixed = [3]
        if k == 5 and not n:
            return "nothing()"
        r = outcome(f)
        check_eq(r, ("raised", "TypeError"), "bad", "adding %r" % (bad,))
        return "bad(%r)" % (bad,)

    def adopt_strings(self, c, model):
        """Items that were strings are literals with that text now."""
        check_eq(len(c), len(model), "len", "number of children")
        for i, x in enumerate(model):
            if isinstance(x, str):
                check(isinstance(c[i], Literal) and c[i].text == x, "string",
                      "string %r became %r", x, c[i])
                model[i] = c[i]
                self.every.append(c[i])

    def both(self, op, lib, ref, c, model):
        """Do something to the child list and the model; results must be the same."""
        a, b = outcome(lib), outcome(ref)
        check_eq(ident(a), ident(b), op, "outcome of %s" % op)
        self.adopt_strings(c, model)

    def same(self, op, lib, ref):
        check_eq(ident(outcome(lib)), ident(outcome(ref)), op, "result of %s" % op)

    def verify(self, e, model, outer, after):
        check_eq(ident(list(e.children)), ident(model), "contents", "children after %s"
                 % after)
        for x in model:
            check(x.parent is e, "parent", "parent of %r is %r after %s", x, x.parent,
                  after)
            check(x.root_expansion is (outer or e), "root", "root of %r", x)
        for x in self.every:
            if not any(x is y for y in model):
                check(x.parent is None, "orphan", "%r is not a child after %s, but has "
                      "parent %r", x, after, x.parent)
        check(e.parent is outer, "outer", "parent of the expansion is %r", e.parent)
        if model:
            parts = [x.compile() for x in model]
            text = {"Sequence": "%s", "RequiredGrouping": "(%s)",
                    "AlternativeSet": "(%s)"}[type(e).__name__] % \
                ("|" if isinstance(e, AlternativeSet) else " ").join(parts)
            check_eq(e.compile(), text, "compile", "compile() after %s" % after)


PROP = C10()
