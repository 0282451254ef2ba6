"""
C17: case sensitivity set on a grammar, a rule or a literal reaches exactly the
literals it should and decides matching and compiled text.

Oracle: a flag per literal and rule of the model, changed by the documented rules.
"""
from .base import *
import jsgf

WORDS = ("Ape", "bAt", "CAT", "dog", "Élan", "mÜs", "O'x", "Straße")


class C17(Prop):
    id = "C17"

    def case(self, src, rec):
        cfg = M.Cfg(depth=src.between(1, 2), width=3, tags=10, weights=10, words=WORDS,
                    null=False, void=False)
        self.rules, names = M.gen_rules(src, cfg, 3)
        self.objs, self.flag = {}, {}
        self.g = jsgf.Grammar("gram", case_sensitive=src.chance(40))
        self.gcs = self.g.case_sensitive
        # Rules are added in any order; references can only be followed if the rule
        # is already there.
        self.added, self.rule = [], {}
        waiting = src.shuffle(names) if src.chance(50) else list(names)
        objref = src.chance(30)
        for name in reversed(names):
            def ref(n):
                return jsgf.RuleRef(self.rule[n]) if objref else jsgf.NamedRuleRef(n)
            e = M.build(self.rules[name], self.objs, ref)
            cs = src.chance(40)
            self.rule[name] = jsgf.Rule(name, True, e, cs)
            self.objref = objref
            self.set_rule(name, cs)
        rec.show("Grammar(case_sensitive=%s)" % self.gcs, "RuleRef" * objref)
        for n in names:
            rec.show("%s = %s" % (n, self.rules[n]))
        steps = src.between(1, 5)
        while waiting or steps:
            if waiting and (not steps or src.chance(60)):
                name = waiting.pop()
                self.g.add_rule(self.rule[name])
                # Named references cannot be followed before the rule is in the grammar.
                self.set_rule(name, self.gcs)
                self.added.append(name)
                rec.show("add %s" % name)
            else:
                steps -= 1
                rec.show(self.step(src, names))
            self.flags(names)
            if not waiting:
                self.matching(src, rec, names)
                for n in names:
                    check_eq(self.rule[n].compile(), "public <%s> = %s;" % (
                        n, self.text(self.rules[n])), "compile", n)

    def set_rule(self, name, v, seen=()):
        self.flag[name] = v
        for x in self.rules[name].walk():
            if x.kind == "lit":
                x.cs = v
            elif x.kind == "ref" and (self.objref or (
                    name in self.added and x.name in self.added)):
                self.set_rule(x.name, v)

    def step(self, src, names):
        v = src.chance(50)
        k = src.below(4)
        if k == 0:
            self.g.case_sensitive = self.gcs = v
            for n in self.added:
                self.set_rule(n, v)
            return "grammar: %s" % v
        if k == 1:
            n = src.pick(names)
            self.rule[n].case_sensitive = v
            self.set_rule(n, v)
            return "%s: %s" % (n, v)
        lits = [x for n in names for x in self.rules[n].walk() if x.kind == "lit"]
        if not lits:
            return "-"
        x = src.pick(lits)
        if k == 2:
            self.objs[id(x)].case_sensitive = v
            x.cs = v
            return "%s: %s" % (x, v)
        w = src.pick(WORDS)
        w = src.pick((w, w.upper(), w.lower())).replace("STRASSE", "STRAßE")
        self.objs[id(x)].text = w
        x.words = [w]
        return "text %s" % x

    def text(self, n):
        """The expected compiled expansion (weights and tags as in the library)."""
        e = self.objs[id(n)]
        tag = e.compiled_tag
        if n.kind == "lit":
            s = " ".join(n.words)
            return (s if n.cs else s.lower()) + tag
        if n.kind == "ref":
            return "<%s>%s" % (n.name, tag)
        kids = [self.text(k) for k in n.kids]
        if n.kind == "seq":
            s = " ".join(kids)
            if tag and (len(kids) > 1 or n.kids[0].kind != "lit"):
                s = "(%s)" % s
            return s + tag
        if n.kind == "alt" and n.weights:
            kids = ["/%.4f/ %s" % p for p in zip(n.weights, kids)]
        sep = {"alt": "|"}.get(n.kind, " ")
        op, end = {"opt": "[]", "rep": ("(", ")+"), "star": ("(", ")*")}.get(
            n.kind, "()")
        return op + sep.join(kids) + end + tag

    def flags(self, names):
        check_eq(self.g.case_sensitive, self.gcs, "grammar", "the grammar's flag")
        for n in names:
            check_eq(self.rule[n].case_sensitive, self.flag[n], "rule",
                     "flag of rule %s" % n)
            for x in self.rules[n].walk():
                if x.kind == "lit":
                    e, s = self.objs[id(x)], " ".join(x.words)
                    check_eq(e.case_sensitive, x.cs, "literal", "flag of %s" % x)
                    check_eq(e.text, s if x.cs else s.lower(), "text",
                             "text of %s" % x)
                    check_eq(e.generate(), e.text, "generate", "generate() of %s" % x)

    def matching(self, src, rec, names):
        # Weights belong to alternatives by comparison.
        for n in names:
            for x in self.rules[n].walk():
                if x.weights:
                    shapes = [repr(M.shape(k, cs=False)) for k in x.kids]
                    if len(set(shapes)) != len(shapes):
                        raise Discard()
        n = src.pick(names)
        words = M.gen_speech(src, self.rules[n], self.rules)
        words = [src.pick((w, w, w.lower(), w.upper().replace("STRASSE", "STRAßE")))
                 for w in words]
        lang = M.Lang(self.rules, words)
        want = lang.accepts(self.rules[n])
        if want and not lang.greedy_accepts(self.rules[n]):
            return
        speech = M.render_speech(src, words)
        rec.show("%s: %r" % (n, speech))
        r = self.rule[n]
        check_eq(r.matches(speech), want, "match", "%s matching %r" % (n, speech))
        if want and words:
            m = r.expansion.current_match
            check_eq(m.lower(), " ".join(words).lower(), "current_match", speech)
            rec.nontrivial(rec.lines)


PROP = C17()
