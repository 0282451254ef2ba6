"""
C15: a grammar is an ordered collection of rules and imports with unique rule names.

Oracle: a plain model (ordered lists of entries) operated in parallel.
"""
import os
import shutil
import tempfile

from .base import *
import jsgf

WORDS = ("ape", "bat", "cat", "dog")


class Entry:
    def __init__(self, rule, name, visible, e):
        self.rule, self.name, self.visible, self.e = rule, name, visible, e
        self.active = True


class C15(Prop):
    id = "C15"

    def case(self, src, rec):
        name = src.pick(("default", "gram", "com.example.g"))
        cs = src.chance(30)
        self.root = src.chance(25)
        cls = jsgf.RootGrammar if self.root else jsgf.Grammar
        self.g = cls(name=name, case_sensitive=cs)
        self.name, self.cs = name, cs
        self.header = ["1.0", "", ""]
        self.rules, self.imports = [], []
        rec.show("%s(%r, case_sensitive=%s)" % (cls.__name__, name, cs))
        done = set()
        for _ in range(src.between(2, 9)):
            op = src.weighted([(5, "add"), (3, "add_again"), (2, "add_many"),
                               (2, "remove"), (3, "toggle"), (2, "visible"),
                               (2, "change_imports"), (1, "set_header"), (1, "set_case"),
                               (1, "bad"), (1, "rename"), (1, "expansion"),
                               (1, "root_rule")])
            d = getattr(self, op)(src)
            if d:
                rec.show(d)
                done.add(op)
            self.verify(src, rec)
        rec.label(*done)
        if len(done) > 2 and self.rules:
            rec.nontrivial(rec.lines)

    def new(self, src, name=None):
        name = name or "r%d" % src.below(6)
        cfg = M.Cfg(depth=1, width=2, words=WORDS, tags=25, null=False, void=False,
                    case=20, tag_texts=("t1", "t2"))
        n = M.gen(src, cfg)
        vis = src.chance(65)
        e = M.build(n)
        rule = src.pick((
            lambda: jsgf.Rule(name, vis, e, src.chance(20)),
            lambda: (jsgf.PublicRule if vis else jsgf.PrivateRule)(name, e)))()
        return Entry(rule, name, vis, n)

    def find(self, name):
        return next((x for x in self.rules if x.name == name), None)

    def accept(self, x):
        self.rules.append(x)
        for y in x.e.walk():
            y.cs = self.cs

    def add(self, src):
        x = self.new(src)
        old = self.find(x.name)
        if old is None:
            self.g.add_rule(x.rule)
            self.accept(x)
            return "add_rule(%r)" % x.rule
        if old.rule == x.rule:
            self.g.add_rule(x.rule)
        else:
            check_raises(jsgf.GrammarError, lambda: self.g.add_rule(x.rule), "duplicate",
                         "adding another rule %s" % x.name)
            check(x.rule.grammar is None, "rejected", "grammar of the rejected rule")
        return "add_rule(%r) again" % x.rule

    def add_again(self, src):
        """The same or a comparable rule is ignored."""
        if not self.rules:
            return None
        x = src.pick(self.rules)
        if src.chance(50):
            self.g.add_rule(x.rule)
            return "same rule %s added" % x.name
        twin = jsgf.Rule(x.name, x.visible, x.rule.expansion.copy(),
                         x.rule.case_sensitive)
        # What is compared does not include whether it is enabled.
        if src.chance(30):
            twin.disable()
        self.g.add_rule(twin)
        check(twin.grammar is None, "twin", "grammar of the ignored rule")
        return "comparable rule %s added" % x.name

    def add_many(self, src):
        xs = [self.new(src) for _ in range(3)]
        names = [x.name for x in self.rules]
        bad = None
        for x in xs:
            if x.name in names:
                old = self.find(x.name)
                if old is None or old.rule != x.rule:
                    bad = x
                    break
            else:
                names.append(x.name)
        if any(x is not y and x.name == y.name for x in xs for y in xs):
            return None
        if bad is None:
            self.g.add_rules(*[x.rule for x in xs])
        else:
            check_raises(jsgf.GrammarError, lambda: self.g.add_rules(
                *[x.rule for x in xs]), "add_rules", "adding a duplicate")
        # Rules before the rejected one have been added.
        for x in xs:
            if x is bad:
                break
            if self.find(x.name) is None:
                self.accept(x)
        return "add_rules(%s)" % [x.name for x in xs]

    def spec(self, src, x):
        k = src.below(3)
        if k == 0:
            return x.name
        if k == 1:
            return x.rule
        return jsgf.Rule(x.name, x.visible, x.rule.expansion.copy(),
                         x.rule.case_sensitive)

    def remove(self, src):
        if not self.rules:
            return None
        x = src.pick(self.rules)
        self.g.remove_rule(self.spec(src, x))
        self.rules.remove(x)
        check(x.rule.grammar is None, "removed", "grammar of the removed rule")
        return "remove_rule(%s)" % x.name

    def toggle(self, src):
        if not self.rules or src.chance(10):
            stranger = src.pick(("nobody", jsgf.Rule("nobody", True, "x")))
            for f in (self.g.enable_rule, self.g.disable_rule):
                check_raises(jsgf.GrammarError, lambda: f(stranger), "unknown",
                             "enabling an unknown rule")
            return None
        x = src.pick(self.rules)
        on = src.chance(40)
        spec = self.spec(src, x)
        k = src.below(3)
        if k == 0 and on:
            x.rule.enable()
        elif k == 0:
            x.rule.disable()
        else:
            (self.g.enable_rule if on else self.g.disable_rule)(spec)
        x.active = on
        return "%s %s" % ("enable" if on else "disable", x.name)

    def visible(self, src):
        if not self.rules:
            return None
        x = src.pick(self.rules)
        x.visible = x.rule.visible = not x.visible
        return "%s.visible = %s" % (x.name, x.visible)

    def rename(self, src):
        if not self.rules:
            return None
        x = src.pick(self.rules)
        name = "n%d" % src.below(3)
        if self.find(name) not in (None, x):
            check_raises(jsgf.GrammarError, lambda: setattr(x.rule, "name", name),
                         "rename", "a name of another rule")
            return "%s not renamed to %s" % (x.name, name)
        x.rule.name = name
        old, x.name = x.name, name
        return "%s renamed to %s" % (old, name)

    def expansion(self, src):
        if not self.rules:
            return None
        x = src.pick(self.rules)
        words = [src.pick(WORDS) for _ in range(2)]
        x.rule.expansion = jsgf.Sequence(*words)
        # The case sensitivity of new literals is not set otherwise.
        x.rule.case_sensitive = self.cs
        x.e = M.N("seq", [M.N("lit", words=[w]) for w in words])
        return "%s.expansion = %s" % (x.name, words)

    def change_imports(self, src):
        name = src.pick(("a.b", "a.*", "x.y.z", "a.b"))
        imp = jsgf.Import(name)
        k = src.below(4)
        if k <= 1:
            if k == 0:
                self.g.add_import(imp)
            else:
                self.g.add_imports(imp, jsgf.Import(name))
            if name not in self.imports:
                self.imports.append(name)
            return "add_import(%s)" % name
        f = self.g.remove_import if k == 2 else self.g.remove_imports
        if name in self.imports:
            f(imp)
            self.imports.remove(name)
            return "remove_import(%s)" % name
        check_raises(jsgf.GrammarError, lambda: f(imp), "import", "removing %s" % name)
        return None

    def set_header(self, src):
        self.header = ["1.0", src.pick(("", "utf-8")), src.pick(("", "en-GB"))]
        (self.g.jsgf_version, self.g.charset_name, self.g.language_name) = self.header
        return "header %s" % self.header

    def bad(self, src):
        x = src.pick((None, 3, "rule", jsgf.Literal("a"), ["r"]))
        check_raises(TypeError, lambda: self.g.add_rule(x), "bad-rule",
                     "adding %r" % (x,))
        check_raises(TypeError, lambda: self.g.add_import(x), "bad-import",
                     "importing %r" % (x,))
        check_raises(TypeError, lambda: self.g.remove_import(x), "bad-import",
                     "removing import %r" % (x,))
        if not isinstance(x, str):
            check_raises(TypeError, lambda: self.g.get_rule_from_name(x), "bad-name",
                         "get_rule_from_name(%r)" % (x,))
        for y in ("", "no body", "<r0>", "a..b", "."):
            check_raises(jsgf.GrammarError, lambda: self.g.get_rule_from_name(y),
                         "bad-name", "get_rule_from_name(%r)" % y)
        return None

    def root_rule(self, src):
        if not self.root:
            return None
        check_raises(jsgf.GrammarError, lambda: self.g.add_rule(
            jsgf.Rule("root", True, "x")), "root", "adding a rule named root")
        return None

    def set_case(self, src):
        self.cs = src.chance(50)
        self.g.case_sensitive = self.cs
        for x in self.rules:
            for y in x.e.walk():
                y.cs = self.cs
        return "case_sensitive = %s" % self.cs

    def verify(self, src, rec):
        g = self.g
        names = [x.name for x in self.rules]
        check_eq([id(r) for r in g.rules], [id(x.rule) for x in self.rules], "rules",
                 "rules")
        g.rules.append("not in the grammar")
        g.imports.append("not in the grammar")
        check_eq(len(g.rules), len(names), "copy", "changing the list of rules")
        check_eq(g.rule_names, names, "names", "rule_names")
        shown = [x for x in self.rules if x.visible]
        check_eq([id(r) for r in g.visible_rules], [id(x.rule) for x in shown],
                 "visible", "visible_rules")
        check_eq([id(r) for r in g.match_rules], [id(x.rule) for x in shown],
                 "match_rules", "match_rules")
        check_eq(g.import_names, self.imports, "imports", "import_names")
        check_eq([i.name for i in g.imports], self.imports, "imports", "imports")
        check_eq((g.name, g.case_sensitive), (self.name, self.cs), "attributes",
                 "name and case sensitivity")
        for x in self.rules:
            check(g.get_rule_from_name(x.name) is x.rule, "get", "rule %s", x.name)
            check(g.get_rule(x.name) is x.rule, "get", "rule %s", x.name)
            check(x.rule.grammar is g, "grammar", "grammar of %s", x.name)
            check_eq(x.rule.active, x.active, "active", "active of %s" % x.name)
            check_eq(x.rule.fully_qualified_name, "%s.%s" % (self.name, x.name),
                     "fully_qualified_name", x.name)
            check_eq(x.rule.qualified_name, "%s.%s" % (self.name.split(".")[-1],
                                                       x.name),
                     "qualified_name", x.name)
        some = src.subset(names)
        check_eq([id(r) for r in g.get_rules_from_names(*some)],
                 [id(self.find(n).rule) for n in some], "get_rules", "%s" % some)
        if not self.imports:
            for f in (g.get_rule_from_name, g.get_rules):
                check_raises(jsgf.GrammarError, lambda: f("nobody"), "get-unknown",
                             "getting an unknown rule")
        # Compiled text
        head = "#JSGF V" + " ".join(x for x in self.header if x) + ";\n"
        check_eq(g.jsgf_header, head, "header", "jsgf_header")
        head += "grammar %s;\n" % self.name
        head += "".join("import <%s>;\n" % i for i in self.imports)
        lines = [("public " if x.visible else "") + "<%s> = %s;\n" % (
            x.name, x.rule.expansion.compile()) for x in self.rules if x.active]
        hidden = ["<%s> = %s;\n" % (x.name, x.rule.expansion.compile())
                  for x in self.rules if x.active]
        plain = head + "".join(lines)
        refs = ["<%s>" % x.name for x in self.rules if x.active and x.visible]
        root = head
        if refs:
            root += "public <root> = (%s);\n%s" % ("|".join(refs), "".join(hidden))
        check_eq(g.compile(), root if self.root else plain, "compile", "compile()")
        check_eq(g.compile_as_root_grammar(), root, "compile-root",
                 "compile_as_root_grammar()")
        if src.chance(5):
            self.file(src, root, plain)
        # Matching
        words = [src.pick(WORDS) for _ in range(src.between(1, 3))]
        if self.rules and src.chance(70):
            words = []
            M.sample(src, src.pick(self.rules).e, None, words)
        if src.chance(20):
            words = [w.upper() for w in words]
        want = []
        for x in self.rules:
            # Case sensitivity of a new expansion has not been set.
            for y, e in zip(x.e.walk(), tree_nodes(x.rule.expansion)):
                if y.kind == "lit":
                    y.cs = e.case_sensitive
            lang = M.Lang(M.RuleSet(), words)
            if x.visible and x.active and lang.accepts(x.e):
                if not lang.greedy_accepts(x.e):
                    return
                want.append(x.rule)
        speech = " ".join(words)
        check_eq([id(r) for r in g.find_matching_rules(speech)],
                 [id(r) for r in want], "matching", "rules matching %r" % speech)
        # Tags
        tag = src.pick(("t1", "t2", " t1 ", "t3", ""))
        has = [x for x in self.rules
               if any(y.tag == tag.strip() and y.tag for y in x.e.walk())]
        check_eq([id(r) for r in g.find_tagged_rules(tag)],
                 [id(x.rule) for x in has if x.visible], "tagged", "tagged rules")
        check_eq([id(r) for r in g.find_tagged_rules(tag, include_hidden=True)],
                 [id(x.rule) for x in has], "tagged-hidden", "tagged rules")

    def file(self, src, root, plain):
        tmp = tempfile.mkdtemp(prefix="vc15-")
        try:
            path = os.path.join(tmp, "g.jsgf")
            with open(path, "w") as f:
                f.write("old content " * 500)
            k = src.below(3)
            if k == 0:
                self.g.compile_to_file(path)
                want = root if self.root else plain
            else:
                self.g.compile_to_file(path, compile_as_root_grammar=k == 1)
                want = root if k == 1 or self.root else plain
            with open(path) as f:
                check_eq(f.read(), want, "file", "compile_to_file()")
        finally:
            shutil.rmtree(tmp)


PROP = C15()
