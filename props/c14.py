"""
C14: dependencies, dependent rules and reference counts follow the references; a rule
that others depend on is not removed by accident.

Oracle: reachability in an explicit graph, kept in step with the changes.
"""
from .base import *
import jsgf


class C14(Prop):
    id = "C14"

    def case(self, src, rec):
        self.g = src.pick((jsgf.Grammar, jsgf.RootGrammar))(name="gram")
        self.refs = {}          # name -> list of referenced names, by place
        self.libs = {}
        self.order = []
        self.n = 0
        changes = 0
        for _ in range(src.between(1, 3)):
            self.add(src, rec)
        for _ in range(src.between(1, 6)):
            op = src.pick(("add", "add", "remove", "remove", "refuse", "ref", "unref",
                           "expansion", "unknown", "toggle"))
            if getattr(self, op)(src, rec):
                changes += 1
                rec.label(op)
            self.verify(src)
        if changes > 1 and any(self.refs.values()):
            rec.nontrivial(rec.lines)

    def reach(self, name):
        out, todo = set(), list(self.refs[name])
        while todo:
            x = todo.pop()
            if x not in out:
                out.add(x)
                todo += self.refs[x]
        return out

    def tree(self, src, targets):
        """A random tree with exactly the given references."""
        items = []
        for t in targets:
            if src.chance(35):
                e = jsgf.RuleRef(self.libs[t])
            else:
                e = jsgf.NamedRuleRef(t)
            k = src.below(5)
            if k == 1:
                e = jsgf.OptionalGrouping(e)
            elif k == 2:
                e = jsgf.Repeat(jsgf.Sequence(e, "w"))
            elif k == 3:
                e = jsgf.AlternativeSet("v", e)
            elif k == 4:
                e.tag = "t"
            items.append(e)
        items.insert(src.below(len(items) + 1), jsgf.Literal("w%d" % self.n))
        return jsgf.Sequence(*items) if src.chance(70) else jsgf.AlternativeSet(*items)

    def targets(self, src, name=None):
        """Rules that may be referenced without recursion."""
        ok = [n for n in self.order if n != name and (
            name is None or name not in self.reach(n))]
        return [src.pick(ok) for _ in range(src.weighted(
            [(3, 1), (3, 0), (2, 2), (1, 3)]))] if ok else []

    def add(self, src, rec):
        name = "r%d" % self.n
        self.n += 1
        t = self.targets(src)
        rule = jsgf.Rule(name, src.chance(60), self.tree(src, t))
        self.g.add_rule(rule)
        self.refs[name], self.libs[name] = t, rule
        self.order.append(name)
        rec.show("add %s -> %s" % (name, t))
        return True

    def dependents(self, name):
        return [n for n in self.order if name in self.reach(n)]

    def how(self, src, name):
        """A way to specify a rule of the grammar."""
        rule = self.libs[name]
        k = src.below(3)
        if k == 0:
            return name
        if k == 1:
            return rule
        return jsgf.Rule(name, rule.visible, rule.expansion.copy(),
                         rule.case_sensitive)

    def remove(self, src, rec):
        free = [n for n in self.order if not self.dependents(n)]
        name = src.pick(free)
        rule = self.libs[name]
        self.g.remove_rule(self.how(src, name), src.chance(20))
        rec.show("remove %s" % name)
        self.forget(name)
        check(rule.grammar is None, "grammar", "grammar of the removed rule")
        check_eq(rule.dependent_rules, set(), "removed-dependents",
                 "dependent rules of a removed rule")
        check_eq(rule.reference_count, 0, "removed-count", "reference count of a "
                 "removed rule")
        if not self.order:
            self.add(src, rec)
        return True

    def forget(self, name):
        self.order.remove(name)
        del self.refs[name], self.libs[name]

    def refuse(self, src, rec):
        """Removing a referenced rule."""
        used = [n for n in self.order if self.dependents(n)]
        if not used:
            return False
        name = src.pick(used)
        rec.show("try to remove %s" % name)
        before = self.g.compile()
        check_raises(jsgf.GrammarError, lambda: self.g.remove_rule(
            self.how(src, name)), "refuse", "removing %s" % name)
        check_eq(self.g.compile(), before, "refuse-changed", "grammar")
        check(self.libs[name].grammar is self.g, "refuse-grammar", "rule.grammar")
        if src.chance(50):
            return True
        rec.show("remove it anyway")
        rule = self.libs[name]
        at = self.g.rules.index(rule)
        self.g.remove_rule(self.how(src, name), ignore_dependent=True)
        check_eq([r.name for r in self.g.rules],
                 [n for n in self.order if n != name], "ignored", "rules")
        direct = [n for n in self.order if name in self.refs[n]]
        named = [x for n in direct for x in tree_nodes(self.libs[n].expansion)
                 if type(x) is jsgf.NamedRuleRef and x.name == name]
        for x in named:
            check_raises(jsgf.GrammarError, lambda: x.referenced_rule, "dangling",
                         "resolving a reference to the removed rule %s" % name)
        # Back again, at the end.
        self.g.add_rule(rule)
        self.order.remove(name)
        self.order.append(name)
        for x in named:
            check(x.referenced_rule is rule, "resolved", "reference to the rule that "
                  "was added again")
        return True

    def ref(self, src, rec):
        """Add a reference somewhere in a rule's tree."""
        name = src.pick(self.order)
        t = self.targets(src, name)[:1]
        e = self.libs[name].expansion
        if not t or not hasattr(e, "children") or not len(e.children):
            return False
        new = self.tree(src, t)
        i = src.below(len(e.children) + 1)
        e.children.insert(i, new)
        self.refs[name] = self.refs[name] + t
        rec.show("reference from %s to %s" % (name, t))
        return True

    def unref(self, src, rec):
        name = src.pick(self.order)
        e = self.libs[name].expansion
        if len(e.children) < 2:
            return False
        x = e.children.pop(src.below(len(e.children)))
        gone = [y.name for y in tree_nodes(x) if isinstance(y, jsgf.NamedRuleRef)]
        refs = list(self.refs[name])
        for y in gone:
            refs.remove(y)
        self.refs[name] = refs
        rec.show("removed %r from %s" % (x, name))
        return True

    def expansion(self, src, rec):
        name = src.pick(self.order)
        t = self.targets(src, name)
        self.libs[name].expansion = self.tree(src, t)
        self.refs[name] = t
        rec.show("new expansion of %s -> %s" % (name, t))
        return True

    def toggle(self, src, rec):
        """Disabled and hidden rules are still dependent rules."""
        name = src.pick(self.order)
        rule = self.libs[name]
        k = src.below(3)
        if k == 0:
            rule.visible = not rule.visible
            rec.show("visible of %s: %r" % (name, rule.visible))
        elif k == 1:
            self.g.disable_rule(name)
            rec.show("disabled %s" % name)
        else:
            self.g.enable_rule(name)
            rec.show("enabled %s" % name)
        return True

    def unknown(self, src, rec):
        before = self.g.compile()
        stranger = jsgf.Rule(src.pick(("nobody", self.order[0])), True, "never")
        f = src.pick((lambda: self.g.remove_rule("nobody"),
                      lambda: self.g.remove_rule(stranger),
                      lambda: self.g.remove_rule("nobody", True),
                      lambda: self.g.remove_rule(stranger, ignore_dependent=True)))
        check_raises(jsgf.GrammarError, f, "unknown", "removing an unknown rule")
        check_eq(self.g.compile(), before, "unknown-changed", "grammar")
        return False

    def verify(self, src):
        check_eq([r.name for r in self.g.rules], self.order, "order", "rules")
        for name in self.order:
            rule = self.libs[name]
            deps = rule.dependencies
            check_eq(sorted(r.name for r in deps), sorted(self.reach(name)),
                     "dependencies", "dependencies of %s" % name)
            check(all(any(r is self.libs[n] for n in self.order) for r in deps),
                  "objects", "dependencies are not the grammar's rules")
            want = self.dependents(name)
            check_eq(sorted(r.name for r in rule.dependent_rules), sorted(want),
                     "dependents", "rules depending on %s" % name)
            check_eq(rule.reference_count, len(want), "count", "reference_count")


PROP = C14()
