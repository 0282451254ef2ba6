"""
C23: which names are valid, for rules, grammars, imports and references.

Oracle: names split at the dots, decided character by character.
"""
import pickle

from .base import *
import jsgf
from jsgf import GrammarError, references
from jsgf.ext import (DictationGrammar, PrivateSequenceRule, PublicSequenceRule,
                      SequenceRule)
from vlib import text as T

SPECIAL = u"+-:,=|/\\()[]@#%!^&~$"
# What no name can contain anywhere, and what only some names can.
BAD = u" \t\n<>{}*\"'?`\u00a0\u20ac\u2028\u0301\x00\x7f"


def base(n, semicolons=True):
    return bool(n) and all(c.isalnum() or c == "_" or c in SPECIAL or
                           c == ";" and semicolons for c in n)


def reserved(n):
    return n in ("NULL", "VOID")


def parts_ok(n, semicolons=True):
    return all(base(p, semicolons) for p in n.split("."))


def rule_ok(n):
    return base(n) and not reserved(n)


def grammar_ok(n):
    return parts_ok(n, False) and not reserved(n)


def ref_ok(n):
    return parts_ok(n) and not reserved(n)


def import_ok(n):
    if n.endswith(".*"):
        return parts_ok(n[:-2])
    return "." in n and parts_ok(n)


def gen_any(src):
    """A name that can be valid for some things only, or for nothing."""
    k = src.weighted([(5, "simple"), (4, "special"), (3, "dots"), (2, "reserved"),
                      (2, "wild")])
    if k == "simple":
        n = src.pick(("a", "rule", "Z\u00fcrich", "n_1", "null", "42", u"\u4e2d\u6587"))
    elif k == "special":
        n = T.gen_chars(src, T.NAME_CHARS, 1, 5)
    elif k == "dots":
        n = ".".join(T.gen_chars(src, src.pick((T.NAME_CHARS, T.LETTERS)), 1, 3)
                     for _ in range(src.between(2, 4)))
    elif k == "wild":
        n = ".".join(["a", "b", "c"][:src.between(1, 3)]) + src.pick((".*", "*", ".*.*",
                                                                       ".**", ".*.b"))
    else:
        n = src.pick(("NULL", "VOID"))
        return src.pick((n, n, n + "s", "a" + n, n.lower(), "x." + n, n + ".x", n + " ",
                         " " + n, n + ".*", n + n, "NULLVOID"))
    m = src.weighted([(8, "none"), (3, "char"), (1, "dot"), (1, "edge"), (1, "empty"),
                      (1, "comment")])
    if m == "comment":
        # Comments are for parsers, not part of names.
        c = src.pick(("/*c*/", "/**/", "//", "//c", "//c\n", "/* c */", "/*"))
        return src.pick((c + n, n + c, n + " " + c, c + " " + n, c))
    if m == "char":
        i = src.below(len(n) + 1)
        n = n[:i] + src.pick(BAD) + n[i:]
    elif m == "dot":
        i = src.below(len(n) + 1)
        n = n[:i] + "." + n[i:]
    elif m == "edge":
        n = src.pick((" %s", "%s ", "%s\n", ".%s", "%s.", "\t%s", "%s;", "<%s>")) % n
    elif m == "empty":
        n = src.pick(("", " ", ".", "..", "\n"))
    return n


MAKERS = [
    ("Rule", lambda n: jsgf.Rule(n, True, "a"), rule_ok),
    ("PublicRule", lambda n: jsgf.PublicRule(n, "a"), rule_ok),
    ("PrivateRule", lambda n: jsgf.PrivateRule(n, "a"), rule_ok),
    ("SequenceRule", lambda n: SequenceRule(n, True, "a"), rule_ok),
    ("PublicSequenceRule", lambda n: PublicSequenceRule(n, "a"), rule_ok),
    ("PrivateSequenceRule", lambda n: PrivateSequenceRule(n, "a"), rule_ok),
    ("BaseRef", references.BaseRef, rule_ok),
    ("Grammar", jsgf.Grammar, grammar_ok),
    ("RootGrammar", lambda n: jsgf.RootGrammar(name=n), grammar_ok),
    ("DictationGrammar", lambda n: DictationGrammar(name=n), grammar_ok),
    ("Import", jsgf.Import, import_ok),
    ("NamedRuleRef", jsgf.NamedRuleRef, ref_ok),
]
STATIC = {"Rule": jsgf.Rule, "Grammar": jsgf.Grammar, "Import": jsgf.Import,
          "NamedRuleRef": jsgf.NamedRuleRef, "BaseRef": references.BaseRef,
          "SequenceRule": SequenceRule, "RootGrammar": jsgf.RootGrammar}


class C23(Prop):
    id = "C23"

    def case(self, src, rec):
        names = [gen_any(src) for _ in range(src.between(2, 5))]
        seen = set()
        for n in names:
            rec.show(repr(n))
            for label, make, ok in MAKERS:
                want = ok(n)
                if label in STATIC:
                    check_eq(bool(STATIC[label].valid(n)), want, "valid",
                             "%s.valid(%r)" % (label, n))
                if want:
                    x = make(n)
                    check_eq(x.name, n, "name", "name of a %s" % label)
                else:
                    check_raises(GrammarError, lambda: make(n), "invalid",
                                 "%s with name %r" % (label, n))
                seen.add(want)
                # Assigned to an existing one.
                x = make("com.old" if ok is import_ok else "old")
                before = x.name
                if want:
                    x.name = n
                    check_eq(x.name, n, "name", "new name of a %s" % label)
                    y = make(n)
                    check(x == y and hash_of(x) == hash_of(y), "equal",
                          "renamed %s and a new one", label)
                    x = pickle.loads(pickle.dumps(x))
                    check_eq(x.name, n, "name", "name of an unpickled %s" % label)
                else:
                    check_raises(GrammarError, lambda: setattr(x, "name", n), "invalid",
                                 "name %r assigned to a %s" % (n, label))
                    check_eq(x.name, before, "kept", "name of a %s" % label)
            if import_ok(n):
                i = jsgf.Import(n)
                check_eq((i.grammar_name, i.rule_name, i.wildcard_import,
                          i.compile()),
                         (n.rpartition(".")[0], n.rpartition(".")[2], n.endswith(".*"),
                          "import <%s>;" % n), "import", "parts of import %r" % n)
            if ref_ok(n):
                r = jsgf.NamedRuleRef(n)
                check_eq(r.compile(), "<%s>" % n, "ref", "reference %r" % n)
            self.parsed(n)
        self.used(src, rec, names)
        if len(seen) == 2:
            rec.nontrivial(names)

    def parsed(self, n):
        """The parser accepts the same names."""
        comment = "//" in n or "/*" in n
        for text, ok, what in (
                ("public <%s> = a;", rule_ok, lambda s: jsgf.parse_rule_string(s).name),
                ("a <%s>", ref_ok, lambda s: [
                    x.name for x in tree_nodes(jsgf.parse_expansion_string(s))
                    if isinstance(x, jsgf.NamedRuleRef)][0]),
                ("#JSGF V1.0;\ngrammar g;\nimport <%s>;\n<a> = b;\n", import_ok,
                 lambda s: jsgf.parse_grammar_string(s).imports[0].name),
                ("#JSGF V1.0;\ngrammar %s;\n<a> = b;\n", grammar_ok,
                 lambda s: jsgf.parse_grammar_string(s).name)):
            text = text % n
            if ok(n) and not comment:
                check_eq(what(text), n, "parse", "name parsed from %r" % text)
            elif not comment and not (ok is grammar_ok and (";" in n or not n.strip())):
                # Whitespace around a name is not part of it.
                if n != n.strip(" \t\r\n"):
                    continue
                try:
                    got = what(text)
                except (GrammarError, jsgf.parser.ParseException, IndexError):
                    continue
                except TypeError:
                    raise
                if reserved(n) and ok is ref_ok:
                    check_eq(got, n, "parse", "special reference")
                    continue
                raise Violation("parse", "name %r parsed from %r" % (got, text))

    def used(self, src, rec, names):
        """Names of rules in a grammar, changed while they are used."""
        one, two, top = "one", "two", "top"
        g = jsgf.Grammar("g.h")
        r1 = jsgf.Rule(one, False, "ape")
        ref = jsgf.RuleRef(r1)
        r2 = jsgf.Rule(two, True, jsgf.Sequence(ref, "bat"))
        g.add_rules(r1, r2)
        if src.chance(50):
            # Use it first.
            check(r2.matches("ape bat"), "used", "grammar before renaming")
        for n in names:
            old = r1.name
            if rule_ok(n) and n not in (two, "g.h", "h", top):
                r1.name = n
                ref.name = n
            elif not rule_ok(n):
                check_raises(GrammarError, lambda: setattr(r1, "name", n), "invalid",
                             "name %r of a rule in a grammar" % n)
                check_raises(GrammarError, lambda: setattr(ref, "name", "a b"),
                             "invalid", "name of a RuleRef")
            want = r1.name
            check_eq(ref.name, want, "ref", "name of the RuleRef")
            check_eq((r1.qualified_name, r1.fully_qualified_name),
                     ("h." + want, "g.h." + want), "qualified", "qualified names")
            check_eq(g.compile(), "#JSGF V1.0;\ngrammar g.h;\n<%s> = ape;\n"
                     "public <two> = <%s> bat;\n" % (want, want), "compile",
                     "compiled grammar")
            check(g.get_rule(want) is r1, "get_rule", "get_rule(%r)", want)
            if old != want:
                check_raises(GrammarError, lambda: g.get_rule(old), "get_rule",
                             "get_rule(%r)" % old)
            check(r2.matches("ape bat"), "matches", "after renaming to %r", want)
            check(not r2.matches("bat"), "matches", "after renaming to %r", want)
            if "//" not in want and "/*" not in want:
                p = jsgf.parse_grammar_string(g.compile())
                check_eq(p.compile(), g.compile(), "round-trip", "parsed grammar")
                check_eq(p.rule_names, [want, two], "round-trip", "names of rules")
                check(p.find_matching_rules("ape bat")[0].name == two, "round-trip",
                      "match of the parsed grammar")


def hash_of(x):
    try:
        return hash(x)
    except TypeError:
        return None


PROP = C23()
