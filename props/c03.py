"""
C03: text written according to the documented grammar is parsed as it says.

Concrete syntax is rendered from a syntax tree with minimal or redundant parentheses
(precedence), random whitespace, comments and line delimiters; the parsed objects'
normal form must be that of the tree.
"""
from .base import *
from .c01 import gen_expansion, check_links
from .c02 import gen_import, gen_header, observe
from vlib import text as T
import jsgf
from jsgf import (parse_expansion_string, parse_rule_string, parse_grammar_string,
                  valid_grammar)


def want_nf(n):
    """The library's literals are case-insensitive after parsing; cs=True reads them."""
    for x in n.walk():
        if x.kind == "lit":
            x.cs = True
    return T.nf_model(n)


def gen_text(src):
    n = gen_expansion(src, dictation=False)
    want = want_nf(n)
    tokens = T.render(src, n)
    # The renderer is checked against the recogniser, so both must be wrong to agree.
    try:
        if T.Recogniser(tokens).parse() != want:
            raise HarnessError("renderer and recogniser disagree on %r" % (tokens,))
    except (T.Reject, T.Unspecified):
        raise HarnessError("recogniser rejects %r" % (tokens,))
    return n, tokens, want


def line_end(src, comments, newline=True):
    s = src.pick((";", ";\n", "\n", " ; ", "\n\n", ";;", " \n", "\t;\n\n", ";\r\n")
                 if newline else (";", ";\n", " ; ", ";;", ";\r\n"))
    if comments and src.chance(30):
        # A line ending that is only a newline is not recognised if an in-line comment
        # follows it (known finding), so the comment is put before it in that case.
        c = src.pick(T.COMMENTS)
        if ";" in s and src.chance(50):
            s += c + ("\n" if c.startswith("//") else " ")
        elif c.startswith("//") and not c.endswith("\n"):
            s = " " + c + "\n" + s
        else:
            s = " " + c + s
    return s


class C03(Prop):
    id = "C03"

    def case(self, src, rec):
        kind = src.weighted([(5, "expansion"), (2, "rule"), (3, "grammar")])
        rec.label(kind)
        comments = 25 if src.chance(40) else 0
        if kind == "expansion":
            n, tokens, want = gen_text(src)
            text = T.layout(src, tokens, comments)
            if src.chance(20):
                text = src.pick((" ", "\n", "\t")) + text + src.pick((" ", "\n", ""))
            rec.show(repr(text))
            e = parse_expansion_string(text)
            check_links(e)
            check_eq(T.nf_lib(e, cs=True), want, "expansion", "parse(%r)" % text)
            # Multiple tags and groupings keep the order of tags.
            if len(tokens) > 2:
                rec.nontrivial(text)
            return
        if kind == "rule":
            name, visible, text, want = self.rule(src, comments, last=True)
            rec.show(repr(text))
            r = parse_rule_string(text)
            check_eq((r.name, bool(r.visible), T.nf_lib(r.expansion, cs=True)),
                     (name, visible, want), "rule", "parse_rule_string(%r)" % text)
            check(r.expansion.rule is r, "rule-link", "expansion.rule is %r",
                  r.expansion.rule)
            check_links(r.expansion)
            rec.nontrivial(text)
            return
        version, charset, language = gen_header(src)
        if src.chance(20) and not language:
            charset, language = "", src.pick(("en", "de", "fr"))
            header_words = [language]
        else:
            header_words = [w for w in (charset, language) if w]
        text = src.pick(("#JSGF", "#jsgf", "#JSGF")) + src.pick((" ", "  ", "\t", "")) \
            + src.pick(("V", "v")) + version
        for w in header_words:
            text += src.pick((" ", "  ", "\t")) + w
        text += line_end(src, 0)
        if comments and src.chance(30):
            text += src.pick(T.COMMENTS) + "\n"
        name = T.gen_qname(src, 1, 3, semicolons=False)
        sep = lambda: src.pick((" ", "  ", "\t")) + (
            src.pick(("/* x */ ", "")) if comments else "")
        text += "grammar" + sep() + name + line_end(src, comments)
        imports = []
        for _ in range(src.below(3)):
            i = gen_import(src)
            if i in imports:
                continue
            imports.append(i)
            kw = src.pick(("import", "import", "Import"))
            text += kw + sep() + "<" + i + ">" + line_end(src, comments)
        rules, names = [], []
        for _ in range(src.between(1, 4)):
            rname, visible, rtext, want = self.rule(src, comments)
            if rname in names:
                continue
            names.append(rname)
            rules.append((rname, visible, want))
            text += rtext
        if comments and text.rstrip().endswith(";") and src.chance(50):
            text += src.pick(T.COMMENTS)
        rec.show(repr(text))
        check(valid_grammar(text), "valid", "valid_grammar(%r) is False", text)
        g = parse_grammar_string(text)
        check_eq(observe(g), {"version": version, "charset": charset,
                              "language": language, "name": name, "imports": imports,
                              "rules": rules}, "grammar",
                 "parse_grammar_string(%r)" % text)
        for r in g.rules:
            check_links(r.expansion)
            check(r.grammar is g, "grammar-link", "rule %s has grammar %r", r.name,
                  r.grammar)
        rec.nontrivial(text)

    def rule(self, src, comments, last=False):
        n, tokens, want = gen_text(src)
        name = T.gen_name(src)
        visible = src.chance(50)
        pub = src.pick(("public", "public", "PUBLIC", "Public"))
        cm = lambda: src.pick(("/* x */", "")) if comments else ""
        text = ""
        if visible:
            text += pub + src.pick((" ", "", "\n", "\t")) + cm()
        sp = src.pick(("", " "))
        text += "<%s%s%s>" % (sp, name, sp) + src.pick((" ", "")) + cm() + "=" + \
            src.pick((" ", "", "\n  ")) + cm()
        if text.endswith("/") or tokens[0][0] == "/":
            text += " "
        text += T.layout(src, tokens, comments)
        text += line_end(src, comments)
        return name, visible, text, want

    def known(self, kid):
        if kid == "newline-before-inline-comment":
            return not valid_grammar("#JSGF V1.0;\ngrammar g;\n<a> = x\n/* c */ <b> = y;")
        return super().known(kid)


PROP = C03()
