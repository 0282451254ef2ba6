"""
C18: names are resolved through imports as documented, and a grammar with imports
matches as if everything were in one grammar.

Oracle: a model of the grammar files and of name resolution; the reference language of
the flattened rules.
"""
import os
import shutil
import tempfile

from .base import *
from vlib import text as T
import jsgf
from jsgf import Import, JSGFImportError, GrammarError
from jsgf.parser import parse_grammar_file, parse_grammar_string

GRAMMARS = ("com.example.alpha", "com.example.beta", "lib.gamma", "delta", "lib.beta",
            "x.y.z.alpha")
RULES = ("one", "two", "three", "digit")


class G:
    def __init__(self, name):
        self.name = name
        self.rules = {}         # name -> (visible, key)
        self.imports = []

    def public(self):
        return [r for r, v in self.rules.items() if v]


class C18(Prop):
    id = "C18"

    def case(self, src, rec):
        d = tempfile.mkdtemp(prefix="vp18")
        cwd = os.getcwd()
        os.chdir(d)
        try:
            self.run(src, rec)
        finally:
            os.chdir(cwd)
            shutil.rmtree(d)

    # -- the model
    def gen(self, src):
        names = src.shuffle(GRAMMARS)[:src.between(2, 4)]
        self.gs = {}
        for name in names:
            g = self.gs[name] = G(name)
            for r in src.shuffle(RULES)[:src.between(1, 3)]:
                g.rules[r] = src.chance(75)
        for i, name in enumerate(names):
            g = self.gs[name]
            for other in names:
                # Mostly imports of later grammars; cycles are allowed.
                if other == name or not src.chance(70 if names.index(other) > i
                                                   else 15):
                    continue
                o = self.gs[other]
                if src.chance(40):
                    g.imports.append(other + ".*")
                for r in o.public():
                    if src.chance(40):
                        g.imports.append("%s.%s" % (other, r))
            if src.chance(4):
                g.imports.append(self.bad_import(src))
            g.imports = src.shuffle(g.imports)
        self.names = names
        self.rules = {}
        self.refs = {}          # id(node) -> spelling
        keys = [(n, r) for n in names for r in self.gs[n].rules]
        for i in reversed(range(len(keys))):
            gname, rname = keys[i]
            g = self.gs[gname]
            spell = {}
            for o, r in keys[i + 1:]:
                full = "%s::%s" % (o, r)
                options = (r, "%s.%s" % (o.split(".")[-1], r), "%s.%s" % (o, r))
                options = [s for s in options
                           if self.resolve(g, s) == full]
                if options:
                    spell[full] = options
            cfg = M.Cfg(depth=src.between(0, 2), width=3, tags=15, weights=10,
                        words=M.WORDS[:6], refs=tuple(spell), null=False, void=False)
            n = M.gen(src, cfg)
            for x in n.walk():
                if x.kind == "ref":
                    self.refs[id(x)] = src.pick(spell[x.name])
                if x.weights and len(x.kids) < 2:
                    x.weights = None
            self.rules["%s::%s" % (gname, rname)] = n
        self.rs = M.RuleSet(self.rules)

    def bad_import(self, src):
        private = ["%s.%s" % (g.name, r) for g in self.gs.values()
                   for r, v in g.rules.items() if not v]
        return src.pick(["no.such.grammar.x", "nothing.*",
                         "%s.unknown" % src.pick(list(self.gs))] + private)

    def resolve_import(self, name):
        """Keys of the rules an import statement imports, or None."""
        gname, _, rname = name.rpartition(".")
        if gname not in self.gs:
            return None
        g = self.gs[gname]
        if rname == "*":
            return ["%s::%s" % (gname, r) for r in g.public()]
        if rname in g.public():
            return ["%s::%s" % (gname, rname)]
        return None

    def resolve(self, g, name):
        """Key of the rule a name refers to in g, or None (error)."""
        if name in g.rules:
            return "%s::%s" % (g.name, name)
        found = set()
        for i in g.imports:
            keys = self.resolve_import(i)
            if keys is None:
                return None
            for k in keys:
                o, r = k.split("::")
                if name in (r, "%s.%s" % (o.split(".")[-1], r), "%s.%s" % (o, r)):
                    found.add(k)
        if len(found) == 1:
            return found.pop()
        if found:
            return None
        if "." in name and not name.endswith(".*"):
            keys = self.resolve_import(name)
            return keys[0] if keys else None
        return None

    # -- text
    def text(self, src, g):
        out = "#JSGF V1.0;\ngrammar %s;\n" % g.name
        for i in g.imports:
            out += "import <%s>;\n" % i
        for r, v in g.rules.items():
            n = self.rules["%s::%s" % (g.name, r)]
            named = n.copy()
            for x, y in zip(n.walk(), named.walk()):
                if x.kind == "ref":
                    y.name = self.refs[id(x)]
            out += "%s<%s> = %s;\n" % ("public " if v else "", r,
                                       T.layout(src, T.render(src, named)))
        return out

    def write(self, src, rec, g):
        text = self.text(src, g)
        flat, sub = g.name, os.path.join(*g.name.split("."))
        # Candidates from the highest to the lowest priority.
        paths = [flat + ".jsgf", sub + ".jsgf", flat + ".jgram", sub + ".jgram"]
        i = src.weighted([(4, 1), (3, 0), (2, 3), (2, 2)])
        if os.path.dirname(sub):
            os.makedirs(os.path.dirname(sub), exist_ok=True)
        with open(paths[i], "w") as f:
            f.write(text)
        rec.show("%s: %s" % (paths[i], text[len("#JSGF V1.0;\n"):]))
        if src.chance(20):
            # A file with a lower priority is not used.
            for p in paths[i + 1:]:
                if p not in paths[:i + 1]:
                    with open(p, "w") as f:
                        f.write("#JSGF V1.0; grammar %s; public <wrong> = wrong;"
                                % g.name)

    def run(self, src, rec):
        self.gen(src)
        for g in self.gs.values():
            self.write(src, rec, g)
        main = self.gs[self.names[0]]
        if src.chance(50):
            lib = parse_grammar_string(self.text(src, main))
        else:
            lib = self.load(main.name)
        for _ in range(src.between(2, 5)):
            op = src.weighted([(4, "lookup"), (4, "matching"), (2, "statement"),
                               (1, "resolve_all"), (1, "exts"), (1, "depends")])
            if op == "lookup":
                self.lookup(src, rec, main, lib)
            elif op == "matching":
                self.matching(src, rec, main, lib)
            elif op == "statement":
                self.statement(src, rec)
            elif op == "resolve_all":
                self.resolve_all(src, rec, main, lib)
            elif op == "depends":
                self.depends(src, rec, main, lib)
            else:
                self.exts(src, rec)

    def load(self, name):
        for base in (name, os.path.join(*name.split("."))):
            for ext in (".jsgf", ".jgram"):
                if os.path.isfile(base + ext):
                    with open(base + ext) as f:
                        if "<wrong>" not in f.read():
                            return parse_grammar_file(base + ext)
        raise HarnessError("no file for %s" % name)

    def same(self, rule, key, what):
        check(isinstance(rule, jsgf.Rule), "rule", "%s: got %r", what, rule)
        check_eq("%s::%s" % (rule.grammar.name, rule.name), key, "rule", what)
        g, r = key.split("::")
        check_eq(rule.fully_qualified_name, "%s.%s" % (g, r), "fq-name", what)
        check_eq(bool(rule.visible), self.gs[g].rules[r], "visible", what)

    def lookup(self, src, rec, main, lib):
        o = src.pick(list(self.gs))
        r = src.pick(list(self.gs[o].rules) + ["nobody"])
        name = src.pick((r, "%s.%s" % (o.split(".")[-1], r), "%s.%s" % (o, r)))
        rec.show("get_rule(%r)" % name)
        if self.clash(main, name):
            return
        want = self.resolve(main, name)
        if want is None:
            check_raises((GrammarError, JSGFImportError), lambda: lib.get_rule(name),
                         "unresolved", "get_rule(%r)" % name)
        else:
            rule = lib.get_rule(name)
            self.same(rule, want, "get_rule(%r)" % name)
            check(lib.get_rule(name) is rule, "again", "get_rule(%r) again", name)
            rec.nontrivial(rec.lines)

    def clash(self, g, name):
        """
        A fully qualified name that is also a qualified name: it is unspecified which
        one is meant.
        """
        hits = set()
        for o in self.gs.values():
            for r in o.rules:
                if name == "%s.%s" % (o.name, r) and "." not in o.name:
                    hits.add(o.name)
                elif name == "%s.%s" % (o.name.split(".")[-1], r):
                    hits.add(o.name)
        return len(hits) > 1 and name.count(".") == 1 and any(
            "." not in h for h in hits)

    def ok(self, key, seen=None):
        """Whether every reference below a rule can be resolved."""
        g, _ = key.split("::")
        for x in self.rules[key].walk():
            if x.kind == "ref":
                if self.clash(self.gs[g], self.refs[id(x)]):
                    return False
                if not self.ok(x.name):
                    return False
        return True

    def matching(self, src, rec, main, lib):
        r = src.pick(list(main.rules))
        key = "%s::%s" % (main.name, r)
        if not self.ok(key):
            return
        n = self.rules[key]
        words = M.gen_speech(src, n, self.rs)
        lang = M.Lang(self.rs, words)
        want = []
        for m in main.public():
            k = "%s::%s" % (main.name, m)
            if not self.ok(k):
                return
            if lang.accepts(self.rules[k]):
                if not lang.greedy_accepts(self.rules[k]):
                    return
                want.append(m)
        speech = M.render_speech(src, words)
        rec.show("find_matching_rules(%r)" % speech)
        got = [x.name for x in lib.find_matching_rules(speech)]
        check_eq(got, want, "match", "rules matching %r" % speech)
        if want and words and any(x.kind == "ref" and not x.name.startswith(
                main.name + "::") for x in self.rules["%s::%s" % (
                    main.name, want[0])].walk()):
            rec.nontrivial(rec.lines)
            rec.label("imported match")

    def statement(self, src, rec):
        o = src.pick(list(self.gs))
        name = src.pick([o + ".*"] + ["%s.%s" % (o, r) for r in self.gs[o].rules] +
                        [self.bad_import(src)])
        rec.show("Import(%r)" % name)
        imp = Import(name)
        gname, _, rname = name.rpartition(".")
        check_eq((imp.grammar_name, imp.rule_name, imp.wildcard_import),
                 (gname, rname, rname == "*"), "parts", "parts of %r" % name)
        want = self.resolve_import(name)
        memo = {}
        if want is None:
            check_raises((GrammarError, JSGFImportError), lambda: imp.resolve(memo),
                         "unresolved", "Import(%r).resolve()" % name)
            return
        got = imp.resolve(memo) if src.chance(70) else imp.resolve()
        rules = got if rname == "*" else [got]
        check(isinstance(rules, list), "type", "resolved %r", got)
        check_eq(len(rules), len(want), "count", "rules of %r: %r" % (name, rules))
        for x, k in zip(rules, want):
            self.same(x, k, "Import(%r)" % name)
        if memo:
            check(imp.resolve(memo) is got, "memo", "%r resolved again", name)
            for x in rules:
                check(memo.get(x.fully_qualified_name) is x, "memo",
                      "%s in the dictionary", x.fully_qualified_name)
                check(memo.get(gname) is x.grammar, "memo", "%s in the dictionary",
                      gname)
            if rname == "*" and rules:
                k = rules[0].fully_qualified_name
                check(Import(k).resolve(memo) is rules[0], "memo",
                      "%s after its wildcard", k)

    def resolve_all(self, src, rec, main, lib):
        rec.show("resolve_imports()")
        if any(self.resolve_import(i) is None for i in main.imports):
            check_raises((GrammarError, JSGFImportError), lib.resolve_imports,
                         "unresolved", "resolve_imports()")
            return
        memo = lib.resolve_imports()
        for i in main.imports:
            got = memo.get(i)
            rules = got if i.endswith(".*") else [got]
            check_eq(len(rules), len(self.resolve_import(i)), "count", i)
            for x, k in zip(rules, self.resolve_import(i)):
                self.same(x, k, i)
            check(lib.import_environment.get(i) is got, "environment", "import %s", i)
        check(memo.get(main.name) is lib, "self", "the grammar in the dictionary")

    def depends(self, src, rec, main, lib):
        r = src.pick(list(main.rules))
        key = "%s::%s" % (main.name, r)
        if not self.ok(key):
            return
        want = set()

        def collect(k):
            for x in self.rules[k].walk():
                if x.kind == "ref" and x.name not in want:
                    want.add(x.name)
                    collect(x.name)
        collect(key)
        rec.show("dependencies of %s" % r)
        got = {"%s::%s" % (x.grammar.name, x.name)
               for x in lib.get_rule(r).dependencies}
        # Comparable rules of different grammars are one member of the set.
        check(got <= want, "dependencies", "%s: %s is not in %s", r, got, want)
        check_eq({k.split("::")[1] for k in got}, {k.split("::")[1] for k in want},
                 "dependencies", r)

    def exts(self, src, rec):
        exts = src.shuffle(["jsgf", "jgram", "jgrammar", "txt"])
        there = src.subset(exts)
        name = "extra.test"
        os.makedirs("extra", exist_ok=True)
        for e in there:
            with open(os.path.join("extra", "test." + e), "w") as f:
                f.write("#JSGF V1.0; grammar %s; public <r> = %s;" % (name, e))
        order = src.shuffle(exts)[:src.between(1, 4)]
        first = next((e for e in order if e in there), None)
        arg = [("." + e if src.chance(50) else e) for e in order]
        arg = src.pick((arg, tuple(arg)))
        rec.show("files %s, extensions %s" % (there, arg))

        def resolve():
            if src.chance(50):
                return Import(name + ".r").resolve({}, arg)
            g = jsgf.Grammar("g")
            g.add_import(Import(name + ".r"))
            return g.resolve_imports(file_exts=arg)[name + ".r"]
        if first is None:
            check_raises((GrammarError, JSGFImportError), resolve, "exts",
                         "no file for %s" % (arg,))
        else:
            check_eq(resolve().expansion.text, first, "exts", "used extension")
        shutil.rmtree("extra")


PROP = C18()
