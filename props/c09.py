"""
C09: a grammar that was changed behaves like one built that way from the start.

Oracle: the model is changed in step with the library objects (between matches, so that
matcher elements have been made); then a second grammar is built from the changed model
and both are compared: compiled text, and results and data of further matches.
"""
from .base import *
from .c08 import snapshot
import jsgf
from jsgf.expansions import JointTreeContext

LISTS = ("seq", "req", "alt")


def acyclic(rules):
    done, path = set(), set()

    def visit(name):
        if name in done:
            return True
        if name in path or name not in rules:
            return False
        path.add(name)
        for x in rules[name].walk():
            if x.kind == "ref" and not visit(x.name):
                return False
        path.discard(name)
        done.add(name)
        return True
    return all(visit(n) for n in rules)


def weights_ok(rules):
    for r in rules.values():
        for x in r.walk():
            if x.weights is not None:
                s = [repr(M.shape(k, cs=False)) for k in x.kids]
                if len(set(s)) != len(s) or not any(x.weights) or not x.kids:
                    return False
    return True


class State:
    def __init__(self, src, rec):
        self.src, self.rec = src, rec
        self.cfg = M.Cfg(empty_groups=60, wide=3, chain=2, depth=2, width=3, weights=25, case=15, tags=15, tag_rep=True,
                         unique=src.chance(70), words=M.WORDS[:src.pick((13, 4))])
        self.model, self.names = M.gen_rules(src, self.cfg)
        self.rules = self.model.rules
        self.objs = {}
        self.libs = {}
        for name in reversed(self.names):
            self.libs[name] = jsgf.Rule(name, src.chance(70), self.build(
                self.rules[name]))
        self.visible = {n: self.libs[n].visible for n in self.names}
        self.grammar = jsgf.Grammar("gram")
        for name in self.names:
            self.grammar.add_rule(self.libs[name])
            self.set_case(self.rules[name])
            rec.show("%s = %s" % (name, M.show(self.rules[name])))
        self.spare = 0

    def ref(self, name):
        if self.src.chance(40) and name in self.libs:
            return jsgf.RuleRef(self.libs[name])
        return jsgf.NamedRuleRef(name)

    def build(self, n):
        return M.build(n, self.objs, self.ref)

    def set_case(self, n):
        for x in n.walk():
            if x.kind == "lit":
                self.objs[id(x)].case_sensitive = x.cs

    def obj(self, n):
        return self.objs[id(n)]

    def fresh(self):
        g = jsgf.Grammar("gram")
        for name in self.names:
            g.add_rule(jsgf.Rule(name, self.visible[name], M.build(self.rules[name])))
            # Literals have their own case sensitivity.
        for name in self.names:
            for e, n in zip(tree_nodes(g.get_rule_from_name(name).expansion),
                            self.rules[name].walk()):
                if n.kind == "lit":
                    e.case_sensitive = n.cs
        return g

    def new(self, name, depth=1):
        """A new subtree that may be put in the named rule."""
        self.cfg.refs = tuple(n for n in self.names if n != name and
                              self.names.index(n) > self.names.index(name))
        n = M.gen(self.src, self.cfg, depth)
        return n

    def attempt(self, nodes, change):
        """Change the model; False (and nothing changed) if it isn't valid then."""
        saved = [(x, list(x.kids), list(x.words), x.tag,
                  None if x.weights is None else list(x.weights), x.name, x.cs)
                 for x in nodes]
        rules = dict(self.rules)
        change()
        if acyclic(self.rules) and weights_ok(self.rules):
            return True
        for x, kids, words, tag, weights, name, cs in saved:
            x.kids, x.words, x.tag, x.weights, x.name, x.cs = \
                kids, words, tag, weights, name, cs
        self.rules.clear()
        self.rules.update(rules)
        return False

    # -- changes: each returns a description, or None if it did not apply

    def change(self):
        src = self.src
        name = src.pick(self.names)
        nodes = list(self.rules[name].walk())
        x = src.pick(nodes)
        op = src.pick(("literal", "children", "children", "children", "replace",
                       "expansion", "weight", "tag", "move", "rule", "visible", "case",
                       "reference", "rename"))
        return getattr(self, "do_" + op)(name, x, nodes)

    def pick_kind(self, nodes, *kinds):
        nodes = [n for n in nodes if n.kind in kinds]
        return self.src.pick(nodes) if nodes else None

    def do_literal(self, name, x, nodes):
        x = self.pick_kind(nodes, "lit")
        if x is None:
            return None
        if self.src.chance(30):
            cs = not x.cs
            if not self.attempt([x], lambda: setattr(x, "cs", cs)):
                return None
            self.obj(x).case_sensitive = cs
            return "%s: case_sensitive = %s" % (M.show(x), cs)
        words = M.gen_words(self.src, self.cfg)
        old = M.show(x)
        if not self.attempt([x], lambda: setattr(x, "words", words)):
            return None
        self.obj(x).text = " ".join(words)
        return "%s: text = %r" % (old, " ".join(words))

    def do_children(self, name, x, nodes):
        x = self.pick_kind(nodes, *LISTS)
        if x is None:
            return None
        src, n = self.src, len(x.kids)
        op = src.pick(("append", "insert", "pop", "remove", "set", "slice", "extend",
                       "iadd", "assign", "clear"))
        weighted = x.weights is not None
        new = [self.new(name) for _ in range(src.between(1, 2))]
        ws = [M.gen_weight(src) for _ in new] if weighted else []
        i = src.below(n + 1) if op == "insert" else src.below(n) if n else 0
        if op in ("pop", "remove", "set") and not n:
            return None
        if op in ("pop", "remove") and n < 2 and (weighted or src.chance(60)):
            return None
        if op == "remove" and any(M.shape(k) == M.shape(x.kids[i])
                                  for k in x.kids[:i]):
            # remove() takes the first comparable child.
            op = "pop"
        j = min(n, i + src.below(3))
        if op in ("slice", "clear", "assign") and not weighted and src.chance(20):
            del new[:]

        def change():
            if op in ("append", "insert", "set"):
                del new[1:], ws[1:]
            at = {"append": (n, n), "extend": (n, n), "iadd": (n, n), "insert": (i, i),
                  "pop": (i, i + 1), "remove": (i, i + 1), "set": (i, i + 1),
                  "slice": (i, j), "assign": (0, n), "clear": (0, n)}[op]
            if op in ("pop", "remove"):
                del new[:], ws[:]
            x.kids[at[0]:at[1]] = new
            if weighted:
                x.weights[at[0]:at[1]] = ws
        if not self.attempt([x], change):
            return None
        es = [self.build(k) for k in new]
        c = self.obj(x).children
        if op == "append":
            c.append(es[0])
        elif op == "insert":
            c.insert(i, es[0])
        elif op == "pop":
            c.pop(i - n if src.chance(50) else i)
        elif op == "remove":
            c.remove(c[i])
        elif op == "set":
            c[i - n if src.chance(50) else i] = es[0]
        elif op == "slice":
            c[i:j] = es
        elif op == "extend":
            c.extend(es)
        elif op == "iadd":
            c += es
        elif op == "assign":
            self.obj(x).children = es
        elif op == "clear":
            c.clear()
            c.extend(es)
        for k, w in zip(new, ws):
            self.obj(x).set_weight(self.obj(k), w)
        for k in new:
            self.set_case(k)
        return "children.%s at %d in %s rule" % (op, i, name)

    def do_replace(self, name, x, nodes):
        """Replace the child of an optional or repeat."""
        x = self.pick_kind(nodes, "opt", "rep", "star")
        if x is None:
            return None
        new = self.new(name)
        if not self.attempt([x], lambda: setattr(x, "kids", [new])):
            return None
        e = self.build(new)
        if self.src.chance(50):
            self.obj(x).children[0] = e
        else:
            self.obj(x).children = [e]
        self.set_case(new)
        return "child of %s replaced in %s" % (x.kind, name)

    def do_expansion(self, name, x, nodes):
        new = self.new(name, 2)
        if not self.attempt([], lambda: self.rules.update({name: new})):
            return None
        self.libs[name].expansion = self.build(new)
        self.set_case(new)
        return "%s.expansion = %s" % (name, M.show(new))

    def do_weight(self, name, x, nodes):
        x = self.pick_kind(nodes, "alt")
        if x is None or not x.kids:
            return None
        src = self.src
        if x.weights is not None:
            i, w = src.below(len(x.kids)), M.gen_weight(src)

            def change():
                x.weights[i] = w
            if not self.attempt([x], change):
                return None
            self.obj(x).set_weight(src.pick((i, self.obj(x.kids[i]))), w)
            return "weight %d = %s in %s" % (i, w, name)
        ws = [M.gen_weight(src) for _ in x.kids]
        if not self.attempt([x], lambda: setattr(x, "weights", ws)):
            return None
        if src.chance(50):
            self.obj(x).weights = {self.obj(k): w for k, w in zip(x.kids, ws)}
        else:
            for i, w in enumerate(ws):
                self.obj(x).set_weight(i, w)
        return "weights of an alternative set in %s" % name

    def do_tag(self, name, x, nodes):
        t = self.src.pick(("", "t7", "t8"))
        x.tag = t
        self.obj(x).tag = t
        return "tag = %r in %s" % (t, name)

    def do_move(self, name, x, nodes):
        """Move a child to another place of the same tree."""
        a = self.pick_kind(nodes, *LISTS)
        b = self.pick_kind(nodes, *LISTS)
        if a is None or b is None or len(a.kids) < 1 or a.weights or b.weights:
            return None
        i = self.src.below(len(a.kids))
        k = a.kids[i]
        if any(y is b for y in k.walk()):
            return None
        at = self.src.below(len(b.kids) + 1)
        if a is b:
            at = min(at, len(a.kids) - 1)

        def change():
            del a.kids[i]
            b.kids.insert(at, k)
        if not self.attempt([a, b], change):
            return None
        e = self.obj(a).children.pop(i)
        check(e is self.obj(k), "pop", "pop(%d) returned %r", i, e)
        self.obj(b).children.insert(at, e)
        return "child moved in %s" % name

    def do_rule(self, name, x, nodes):
        src = self.src
        used = any(y.kind == "ref" and y.name == name for r in self.rules.values()
                   for y in r.walk())
        if src.chance(50) and len(self.names) > 1:
            if used:
                # Replace the rule by another one of that name.
                if any(isinstance(y, jsgf.RuleRef) and y.name == name
                       for n in self.names for y in tree_nodes(
                           self.libs[n].expansion)):
                    return None
                new = self.new(name, 2)
                if not self.attempt([], lambda: self.rules.update({name: new})):
                    return None
                self.grammar.remove_rule(src.pick((name, self.libs[name])), True)
                self.libs[name] = jsgf.Rule(name, self.visible[name], self.build(new))
                self.grammar.add_rule(self.libs[name])
                self.set_case_after_add(new)
                self.names.remove(name)
                self.names.append(name)
                # References to other rules from it have to go to later ones only when
                # they are generated; the order does not matter otherwise.
                return "%s replaced by a new rule %s" % (name, M.show(new))
            self.grammar.remove_rule(src.pick((name, self.libs[name])))
            self.names.remove(name)
            del self.rules[name], self.libs[name]
            return "%s removed" % name
        new_name = "new%d" % self.spare
        self.spare += 1
        self.names.append(new_name)
        self.cfg.refs = tuple(self.names[:-1])
        n = M.gen(src, self.cfg, 2)
        self.rules[new_name] = n
        self.visible[new_name] = src.chance(60)
        self.libs[new_name] = jsgf.Rule(new_name, self.visible[new_name], self.build(n))
        self.grammar.add_rule(self.libs[new_name])
        self.set_case_after_add(n)
        return "added %s = %s" % (new_name, M.show(n))

    def set_case_after_add(self, n):
        # Adding a rule sets the case sensitivity of referenced rules, too.
        for r in self.rules.values():
            self.set_case(r)

    def do_rename(self, name, x, nodes):
        """Rename a rule; a new rule takes the old name if there are references."""
        src = self.src
        if any(isinstance(y, jsgf.RuleRef) and y.name == name for n in self.names
               for y in tree_nodes(self.libs[n].expansion)):
            return None
        used = any(y.kind == "ref" and y.name == name for r in self.rules.values()
                   for y in r.walk())
        new_name = "new%d" % self.spare
        self.spare += 1
        rule = self.libs.pop(name)
        rule.name = new_name
        self.names[self.names.index(name)] = new_name
        self.rules[new_name] = self.rules.pop(name)
        self.libs[new_name] = rule
        self.visible[new_name] = self.visible[name]
        if not used:
            return "%s renamed to %s" % (name, new_name)
        n = M.gen(src, self.cfg_leaf(), 1)
        self.names.append(name)
        self.rules[name] = n
        self.libs[name] = jsgf.Rule(name, self.visible[name], self.build(n))
        self.grammar.add_rule(self.libs[name])
        self.set_case_after_add(n)
        return "%s renamed to %s, added %s = %s" % (name, new_name, name, M.show(n))

    def cfg_leaf(self):
        self.cfg.refs = ()
        return self.cfg

    def do_visible(self, name, x, nodes):
        self.visible[name] = self.libs[name].visible = not self.visible[name]
        return "%s.visible = %s" % (name, self.visible[name])

    def do_case(self, name, x, nodes):
        cs = self.src.chance(50)
        lits = [y for r in self.rules.values() for y in r.walk() if y.kind == "lit"]

        def change():
            for y in lits:
                y.cs = cs
        if not self.attempt(lits, change):
            return None
        self.grammar.case_sensitive = cs
        return "grammar.case_sensitive = %s" % cs

    def do_reference(self, name, x, nodes):
        """Make a reference refer to another rule."""
        x = self.pick_kind(nodes, "ref")
        if x is None or isinstance(self.obj(x), jsgf.RuleRef):
            return None
        new = self.src.pick(self.names)
        if not self.attempt([x], lambda: setattr(x, "name", new)):
            return None
        self.obj(x).name = new
        return "reference changed to %s in %s" % (new, name)


class C09(Prop):
    id = "C09"

    def case(self, src, rec):
        s = State(src, rec)
        changes = 0
        for _ in range(src.between(1, 5)):
            if src.chance(75):
                self.match(src, s, rec)
            d = s.change()
            if d:
                changes += 1
                rec.show(d)
                rec.label(d.split()[0] if d[0] == "c" else "change")
            if src.chance(30):
                self.compare(src, s, rec)
        matched = self.compare(src, s, rec)
        if changes and matched:
            rec.nontrivial([M.show(s.rules[n]) for n in s.names])

    def speech(self, src, s, name):
        words = M.gen_speech(src, s.rules[name], s.model)
        return M.render_speech(src, words, spaces=False, case=True)

    def match(self, src, s, rec):
        for _ in range(src.between(1, 2)):
            name = src.pick(s.names)
            speech = self.speech(src, s, name)
            rule = s.grammar.get_rule_from_name(name)
            op = src.below(5)
            if op == 4:
                # Joined trees are only looked at or matched.
                rec.show("JointTreeContext of %s" % name)
                with JointTreeContext(rule.expansion):
                    if src.chance(50):
                        rule.matches(speech)
                    else:
                        [x.is_optional for x in rule.expansion.leaves]
            elif op == 3:
                s.grammar.find_matching_rules(speech)
            elif op == 2:
                rule.find_matching_part(speech)
            else:
                rule.matches(speech)
            rec.show("%s matched with %r" % (name, speech))

    def compare(self, src, s, rec):
        fresh = s.fresh()
        for name in s.names:
            rule = s.libs[name]
            check(s.grammar.get_rule_from_name(name) is rule, "rule",
                  "get_rule_from_name(%r)", name)
            for x in s.rules[name].walk():
                for k in x.kids:
                    check(s.obj(k).parent is s.obj(x), "parent", "parent of %s",
                          M.show(k))
            check(s.obj(s.rules[name]).parent is None, "root", "parent of the root "
                  "of %s", name)
        check_eq([r.name for r in s.grammar.rules], s.names, "names", "rule order")
        check_eq(s.grammar.compile(), fresh.compile(), "compile", "compiled grammar")
        check_eq(s.grammar.compile_as_root_grammar(), fresh.compile_as_root_grammar(),
                 "compile-root", "grammar compiled as root grammar")
        matched = False
        for _ in range(src.between(1, 3)):
            name = src.pick(s.names)
            speech = self.speech(src, s, name)
            rec.show("%s.matches(%r), changed and fresh" % (name, speech))
            r1 = s.grammar.get_rule_from_name(name).matches(speech)
            r2 = fresh.get_rule_from_name(name).matches(speech)
            check_eq(r1, r2, "matches", "%s.matches(%r) after changes (fresh: expected)"
                     % (name, speech))
            matched = matched or r2
            reach, todo = [], [name]
            while todo:
                n = todo.pop()
                if n not in reach:
                    reach.append(n)
                    todo += [x.name for x in s.rules[n].walk() if x.kind == "ref"]
            a, b = snapshot(s.grammar, reach), snapshot(fresh, reach)
            for n in reach:
                check_eq(a[n], b[n], "data", "match data of %s" % n)
        return matched


PROP = C09()
