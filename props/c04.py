"""
C04: text is accepted exactly if it follows the documented syntax, and parsing always
ends with an object or one of the documented errors.

Oracles: a hand-written recogniser of the documented EBNF for token sequences that are
random or near valid ones; grammars broken in ways that are certainly invalid;
agreement of valid_grammar and parse_grammar_string, and the compile/parse round trip of
whatever is accepted, for arbitrary text.
"""
from .base import *
from .c02 import gen_import, gen_header
from .c03 import gen_text
from vlib import text as T
from pyparsing import ParseException
from jsgf import (parse_expansion_string, parse_rule_string, parse_grammar_string,
                  valid_grammar, GrammarError)
from jsgf import Literal

ERRORS = (ParseException, GrammarError)

SOUP = ("(", ")", "[", "]", "|", "*", "+")
FUZZ = ("a", "b", "<x>", "<", ">", "(", ")", "[", "]", "|", "*", "+", "{", "}", "{t}",
        "/", "/1/", "/2.5/", "-", "'", "\\", "\\{", "\\}", ";", "=", ".", " ", "\n",
        "\t", "//", "/*", "*/", "\"", "#JSGF", " V1.0", ";\n", "grammar g;", "import ",
        "<x.*>", "public ", "<r> = ", "NULL", "<NULL>", "<VOID>", "1", u"\u00e9", "\0",
        u"\U0001F600", "#", "$", "%", "^", "&", "~", "`", "?", "!", "@", ",", ":")


def soup_token(src):
    k = src.below(10)
    if k < 5:
        return src.pick(SOUP)
    if k < 7:
        return ("w", src.pick(("a", "b", "c", "42")))
    if k == 7:
        return ("<", src.pick(("x", "y.z", "NULL", "VOID")))
    if k == 8:
        return ("{", src.pick(("t", "u v", "}")))
    return ("/", src.pick(("1", "2.5", "0", "-1", "10")))


def parse_result(func, text):
    """The result, or the documented error as a string."""
    try:
        return func(text)
    except ERRORS as e:
        return "%s: %s" % (type(e).__name__, e)
    except TypeError as e:
        check("negative number" in str(e), "error-type", "parsing %r raised %r", text, e)
        return "TypeError: %s" % e


def reparse(e, what):
    """Compile and parse an accepted expansion again."""
    want = T.nf_lib(e, cs=True)
    if T.tag_after_word(want):
        return
    for x in tree_nodes(e):
        if isinstance(x, Literal):
            x.case_sensitive = True
    text = e.compile()
    check_eq(T.nf_lib(parse_expansion_string(text), cs=True), want, "reparse",
             "%s, compiled as %r and parsed" % (what, text))


class C04(Prop):
    id = "C04"

    def case(self, src, rec):
        kind = src.weighted([(4, "tokens"), (3, "near"), (2, "grammar"), (2, "chars")])
        rec.label(kind)
        getattr(self, kind)(src, rec)

    def tokens(self, src, rec):
        self.decide(src, rec, [soup_token(src) for _ in range(src.between(1, 8))])

    def near(self, src, rec):
        _, tokens, _ = gen_text(src)
        for _ in range(src.between(1, 2)):
            i = src.below(len(tokens) + 1)
            op = src.below(4)
            if op == 0:
                tokens.insert(i, soup_token(src))
            elif op == 1 and i < len(tokens):
                del tokens[i]
            elif op == 2 and i < len(tokens):
                tokens[i] = soup_token(src)
            elif i + 1 < len(tokens):
                tokens[i], tokens[i + 1] = tokens[i + 1], tokens[i]
        if tokens:
            self.decide(src, rec, tokens)

    def decide(self, src, rec, tokens):
        for a, b in zip(tokens, tokens[1:]):
            if a == ("w", "public") and b[0] == "<":
                return
        text = T.layout(src, tokens)
        rec.show("text: %r" % text)
        try:
            want = T.Recogniser(tokens).parse()
        except T.Reject as e:
            rec.show("invalid: %s" % e)
            rec.label("invalid")
            r = parse_result(parse_expansion_string, text)
            check(isinstance(r, str), "accepted", "%r is not valid, but was parsed as "
                  "%s", text, r)
            grammar = "#JSGF V1.0;\ngrammar g;\npublic <r> = %s;\n" % text
            check(not valid_grammar(grammar), "valid", "%r is a valid grammar", grammar)
            check(isinstance(parse_result(parse_rule_string, "<r> = %s;" % text), str),
                  "accepted-rule", "rule with %r was parsed", text)
            if len(tokens) > 3:
                rec.nontrivial(text)
            return
        except T.Unspecified:
            rec.label("unspecified")
            parse_result(parse_expansion_string, text)
            return
        rec.show("valid: %r" % (want,))
        rec.label("valid")
        if T.dup_alternatives(want):
            parse_result(parse_expansion_string, text)
            return
        try:
            e = parse_expansion_string(text)
        except (ParseException, GrammarError, TypeError) as ex:
            raise Violation("rejected", "%r is valid, but %s: %s" % (
                text, type(ex).__name__, ex))
        check_eq(T.nf_lib(e, cs=True), want, "structure", "parse(%r)" % text)
        reparse(e, "parse(%r)" % text)
        grammar = "#JSGF V1.0;\ngrammar g;\npublic <r> = %s;\n" % text
        check(valid_grammar(grammar), "valid", "%r is not a valid grammar", grammar)
        if len(tokens) > 3:
            rec.nontrivial(text)

    def grammar(self, src, rec):
        """A valid grammar, broken in one way."""
        version, charset, language = gen_header(src)
        header = "#JSGF V%s%s;\n" % (version, "".join(
            " " + w for w in (charset, language) if w))
        decl = "grammar %s;\n" % T.gen_qname(src, 1, 2, semicolons=False)
        imports = ["import <%s>;\n" % gen_import(src) for _ in range(src.below(3))]
        rules = []
        for name in ("r1", "r2", "r3")[:src.between(1, 3)]:
            _, tokens, _ = gen_text(src)
            rules.append(("public " if src.chance(50) else "") + "<%s> = %s;\n"
                         % (name, T.layout(src, tokens)))
        i = src.below(len(rules))
        r = rules[i]
        parts = {"header": header, "decl": decl}
        how = src.pick((
            "nothing", "no header", "no declaration", "no rules", "import after rule",
            "import of a name", "no name", "no equals", "no brackets", "two names",
            "public twice", "garbage", "garbage before", "open comment", "version",
            "double header", "double declaration", "open group", "no expansion",
            "duplicate rule", "reserved name", "long header", "empty import",
            "unquoted import", "bad character", "declaration first",
            "name with space", "grammar name", "weight", "negative weight"))
        extra = ""
        if how == "no header":
            parts["header"] = ""
        elif how == "no declaration":
            parts["decl"] = ""
        elif how == "no rules":
            rules = []
        elif how == "import after rule":
            rules.append("import <%s>;\n" % gen_import(src))
        elif how == "import of a name":
            imports.append("import <%s>;\n" % T.gen_name(src, simple=100))
        elif how == "no name":
            rules[i] = "<> = a;\n"
        elif how == "no equals":
            rules[i] = r.replace("=", " ", 1) if "=" in r else r
            rules[i] = "<r> a b;\n"
        elif how == "no brackets":
            rules[i] = "r = a b;\n"
        elif how == "two names":
            rules[i] = "<a> <b> = a b;\n"
        elif how == "public twice":
            rules[i] = "public public <b> = a b;\n"
        elif how == "garbage":
            extra = src.pick(("= a", "<a>", "public", ")", "%%", "<a> = ", "<a> = (",
                              "grammar", "#JSGF V1.0;"))
        elif how == "garbage before":
            parts["header"] = src.pick(("x ", "= ", "<a> = b; ", "JSGF ")) + header
        elif how == "open comment":
            extra = "/* never closed\n<a> = b;\n"
        elif how == "version":
            parts["header"] = "#JSGF %s;\n" % src.pick(("", "V", "1.0", "V1", "Vx.y",
                                                        "V1,0", "X1.0"))
        elif how == "double header":
            parts["header"] = header + header
        elif how == "double declaration":
            parts["decl"] = decl + decl
        elif how == "open group":
            rules[i] = "<r> = %s;\n" % src.pick(("(a", "a)", "[a", "a]", "(a]", "[a)",
                                                 "((a) b", "a { t", "a }", "a <b",
                                                 "/1/ a | /2 b"))
        elif how == "no expansion":
            rules[i] = "<r> =%s;\n" % src.pick(("", " ", "\n"))
        elif how == "duplicate rule":
            rules += ["<d> = a;\n", "<d> = b;\n"]
        elif how == "reserved name":
            rules[i] = "<%s> = a;\n" % src.pick(("NULL", "VOID"))
        elif how == "long header":
            parts["header"] = "#JSGF V1.0 a b c;\n"
        elif how == "empty import":
            imports.append("import <>;\n")
        elif how == "unquoted import":
            imports.append("import a.b;\n")
        elif how == "bad character":
            rules[i] = "<r> = a %s b;\n" % src.pick(("%", "$", "^", "~", "\"", "?", "@",
                                                     ":", ",", "=", "#"))
        elif how == "declaration first":
            parts["header"], parts["decl"] = parts["decl"], parts["header"]
        elif how == "name with space":
            rules[i] = "<a b> = c;\n"
        elif how == "grammar name":
            parts["decl"] = "grammar %s;\n" % src.pick(("", "a b", "a..b", ".a", "a.",
                                                       "*", "a.*", "\"a\"", "<a>"))
        elif how == "weight":
            rules[i] = "<r> = %s;\n" % src.pick((
                "/1/ a", "a | /1/ b c | (/2/ d)", "a /1/ b", "/1/ /2/ a | /3/ b",
                "/x/ a | /y/ b", "(/1/ a)+", "a+ /1/"))
        elif how == "negative weight":
            rules[i] = "<r> = /-1/ a | /%s/ b;\n" % src.pick(("1", "-2"))
        text = parts["header"] + parts["decl"] + "".join(imports) + "".join(rules) + \
            extra
        rec.show("%s: %r" % (how, text))
        r = parse_result(parse_grammar_string, text)
        v = valid_grammar(text)
        if how == "nothing":
            check(not isinstance(r, str), "rejected", "valid grammar rejected: %s", r)
            check(v is True, "valid", "valid_grammar is %r", v)
        else:
            check(isinstance(r, str), "accepted-grammar", "invalid grammar (%s) was "
                  "parsed", how)
            check(v is False, "valid", "valid_grammar is %r", v)
            rec.nontrivial(text)

    def chars(self, src, rec):
        text = "".join(src.pick(FUZZ) for _ in range(src.between(0, 14)))
        func = src.pick((parse_expansion_string, parse_rule_string,
                         parse_grammar_string))
        if func is parse_rule_string and src.chance(70):
            text = "<r> = " + text + src.pick((";", "", "\n"))
        if func is parse_grammar_string and src.chance(80):
            text = "#JSGF V1.0;\ngrammar g;\n" + text + src.pick((";", "", "<r> = a;"))
        rec.show("%s(%r)" % (func.__name__, text))
        r = parse_result(func, text)
        r2 = parse_result(func, text)
        check_eq(isinstance(r2, str), isinstance(r, str), "again", "parsing again")
        if func is parse_grammar_string:
            v = valid_grammar(text)
            check_eq(v, not isinstance(r, str), "valid", "valid_grammar(%r)" % text)
        if isinstance(r, str):
            rec.label("chars-rejected")
            return
        rec.label("chars-accepted")
        if func is parse_expansion_string:
            es = [r]
        elif func is parse_rule_string:
            es = [r.expansion]
        else:
            es = [x.expansion for x in r.rules]
        for e in es:
            nf = T.nf_lib(e, cs=True)
            if not T.dup_alternatives(nf) and not partial(nf):
                reparse(e, "parse(%r)" % text)
        rec.nontrivial(text)


def partial(x):
    if x[0] == "alt":
        ws = [w is None for w, _ in x[1]]
        if any(ws) and not all(ws):
            return True
    return any(partial(c) for c in T.children(x))


PROP = C04()
