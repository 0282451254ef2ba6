"""
C02: grammars and rules survive being compiled (to text or to a file) and parsed.
"""
import os
import shutil
import tempfile

from .base import *
from .c01 import gen_expansion, check_links
from vlib import text as T
import jsgf
from jsgf import (parse_grammar_string, parse_grammar_file, parse_rule_string,
                  valid_grammar, Grammar, Rule, Import)

VERSIONS = ("1.0", "2.0", "1.", ".5", "10.25")


def gen_import(src):
    k = src.below(3)
    if k == 0:
        return T.gen_qname(src, 2, 4)
    return T.gen_qname(src, 1, 3) + ".*" if k == 1 else T.gen_qname(src, 2, 2)


def gen_header(src):
    charset = language = ""
    if src.chance(60):
        charset = src.pick(("UTF-8", "ISO8859-5", "utf8", "x", "US-ASCII", "u8", "L1", "GBK", "j-s",
                            u"\u00fcx", "1"))
        if src.chance(60) or len(charset) == 2:
            language = src.pick(("en", "en-US", u"fran\u00e7ais", "english"))
    return src.pick(VERSIONS), charset, language


def observe_rule(r):
    return (r.name, bool(r.visible), T.nf_lib(r.expansion, cs=True))


def observe(g):
    return {"version": g.jsgf_version, "charset": g.charset_name,
            "language": g.language_name, "name": g.name,
            "imports": [i.name for i in g.imports],
            "rules": [observe_rule(r) for r in g.rules]}


class C02(Prop):
    id = "C02"

    def case(self, src, rec):
        version, charset, language = gen_header(src)
        name = T.gen_qname(src, 1, 3, semicolons=False)
        g = Grammar(name, case_sensitive=src.chance(50))
        g.jsgf_version, g.charset_name, g.language_name = version, charset, language
        imports = []
        for _ in range(src.below(3)):
            i = gen_import(src)
            if i not in imports:
                imports.append(i)
            g.add_import(Import(i))
        names, rules = [], []
        for _ in range(src.between(1, 4)):
            rname = T.gen_name(src)
            if rname not in names:
                names.append(rname)
        for rname in names:
            n = gen_expansion(src)
            for x in n.walk():
                # No recursion.
                while x.kind == "ref" and (x.name in names + [name] or
                                           x.name.startswith(name + ".")):
                    x.name = "Z" + x.name
                if x.kind == "lit":
                    x.cs = g.case_sensitive
            visible = src.chance(50)
            cls = src.pick((None, jsgf.PublicRule, jsgf.PrivateRule))
            e = M.build(n)
            if cls is None:
                r = Rule(rname, visible, e)
            else:
                r = cls(rname, e)
                visible = cls is jsgf.PublicRule
            g.add_rule(r)
            active = not src.chance(15)
            if not active:
                g.disable_rule(src.pick((r, rname)))
            rules.append((rname, visible, n, active))
            rec.show("%s<%s> = %s%s" % ("public " if visible else "", rname, M.show(n),
                                        "" if active else " (disabled)"))
        rec.show("grammar %r header %r imports %r" % (name, (version, charset, language),
                                                      imports))
        if charset and not language and len(charset) == 2:
            raise HarnessError("two-letter character set")
        want_rules = [(a, b, T.nf_model(n)) for a, b, n, act in rules if act]
        want = {"version": version, "charset": charset, "language": language,
                "name": name, "imports": imports, "rules": want_rules}
        # Rules by themselves.
        for r, (rname, visible, n, active) in zip(g.rules, rules):
            text = r.compile()
            if not active:
                check_eq(text, "", "disabled", "compile() of a disabled rule")
                continue
            p = parse_rule_string(text)
            check_eq(observe_rule(p), (rname, visible, T.nf_model(n)), "rule",
                     "parse_rule_string(%r)" % text)
            check_links(p.expansion)
            p = parse_rule_string(r.compile(ignore_tags=True))
            check_eq(observe_rule(p), (rname, visible, T.nf_model(n, tags=False)),
                     "rule-ignore-tags", "parse_rule_string(compile(ignore_tags))")
        text = g.compile()
        rec.show("compiled: %r" % text)
        if not want_rules:
            check(not valid_grammar(text), "valid", "a grammar without rules is valid")
            return
        check(valid_grammar(text), "valid", "valid_grammar(%r) is False", text)
        parsed = parse_grammar_string(text)
        check_eq(observe(parsed), want, "grammar", "parse_grammar_string(%r)" % text)
        for r in parsed.rules:
            check(r.grammar is parsed, "grammar-link", "rule %s of the parsed grammar "
                  "has grammar %r", r.name, r.grammar)
        # The parsed grammar compiles to an equivalent grammar and, if it is built from
        # the same text again, to an equal one.
        again = parse_grammar_string(text)
        check(again == parsed, "parse-equal", "grammars parsed from %r are not equal",
              text)
        if not any(T.tag_after_word(n) for _, _, n in want_rules):
            if g.case_sensitive:
                parsed.case_sensitive = True
            third = parse_grammar_string(parsed.compile())
            check_eq(observe(third), want, "grammar-2", "second round through %r"
                     % parsed.compile())
        if src.chance(15):
            d = tempfile.mkdtemp(prefix="verif-c02-")
            try:
                path = os.path.join(d, "g.jsgf")
                if src.chance(50):
                    with open(path, "w") as f:
                        f.write("old content" * 100)
                g.compile_to_file(path)
                with open(path) as f:
                    check_eq(f.read(), text, "file-text", "content of the file")
                check_eq(observe(parse_grammar_file(path)), want, "file",
                         "parse_grammar_file of %r" % text)
                rec.label("file")
            finally:
                shutil.rmtree(d)
        if src.chance(15):
            v, c, l = gen_header(src)
            t2 = g.compile_grammar(charset_name=c, language_name=l, jsgf_version=v)
            check_eq(observe(parse_grammar_string(t2)),
                     dict(want, version=v, charset=c, language=l), "compile_grammar",
                     "parse_grammar_string(%r)" % t2)
        if len(want_rules) > 1 or imports:
            rec.nontrivial(text)


PROP = C02()
