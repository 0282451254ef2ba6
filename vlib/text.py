"""
JSGF text, independently of the library's parser: a normal form of expansions, a
renderer of model trees to concrete syntax (minimal or redundant parentheses, random
layout), and a recogniser for token sequences following the documented EBNF.

Normal form: ("w", word), ("ref", name), ("null",), ("void",), ("seq", items),
("alt", ((weight or None, item), ...)), ("opt"|"rep"|"star", x), ("tag", text, x).
Groupings disappear: only structure that has a meaning is left.
"""
import re

from . import model as M

NULL = ("null",)


def mk_seq(items):
    out = []
    for x in items:
        if x[0] == "seq":
            out.extend(x[1])
        else:
            out.append(x)
    if not out:
        return NULL
    return out[0] if len(out) == 1 else ("seq", tuple(out))


def mk_alt(pairs):
    pairs = tuple(pairs)
    if not pairs:
        return NULL
    if len(pairs) == 1 and pairs[0][0] is None:
        return pairs[0][1]
    return ("alt", pairs)


def mk_tag(tag, x):
    return ("tag", tag, x) if tag else x


def rnd(w):
    return None if w is None else round(float(w), 4)


def nf_model(n, tags=True):
    """Normal form of a model tree."""
    k = n.kind
    if k == "lit":
        x = mk_seq([("w", w if n.cs else w.lower()) for w in n.words])
    elif k in ("seq", "req"):
        x = mk_seq([nf_model(c, tags) for c in n.kids])
    elif k == "alt":
        ws = n.weights or [None] * len(n.kids)
        x = mk_alt((rnd(w), nf_model(c, tags)) for w, c in zip(ws, n.kids))
    elif k in ("opt", "rep", "star"):
        x = (k, nf_model(n.kids[0], tags))
    elif k == "ref":
        x = ("ref", n.name)
    elif k == "dict":
        x = ("ref", "DICTATION")
    else:
        x = (k,)
    return mk_tag(n.tag, x) if tags else x


def nf_lib(e, tags=True, cs=None):
    """
    Normal form of a library expansion.  With cs=True, literal text is read with its
    letter case although the literals are case-insensitive.
    """
    import jsgf
    from jsgf.ext import Dictation
    if isinstance(e, jsgf.NullRef):
        x = NULL
    elif isinstance(e, jsgf.VoidRef):
        x = ("void",)
    elif isinstance(e, jsgf.NamedRuleRef):
        x = ("ref", e.name)
    elif isinstance(e, Dictation):
        x = ("ref", "DICTATION")
    elif isinstance(e, jsgf.Literal):
        text = e.text
        if cs and not e.case_sensitive:
            e.case_sensitive = True
            text = e.text
            e.case_sensitive = False
        x = mk_seq([("w", w) for w in text.split()])
    elif isinstance(e, jsgf.KleeneStar):
        x = ("star", nf_lib(e.child, tags, cs))
    elif isinstance(e, jsgf.Repeat):
        x = ("rep", nf_lib(e.child, tags, cs))
    elif isinstance(e, jsgf.OptionalGrouping):
        x = ("opt", nf_lib(e.child, tags, cs))
    elif isinstance(e, jsgf.AlternativeSet):
        w = e.weights
        x = mk_alt((rnd(w.get(c)) if w else None, nf_lib(c, tags, cs))
                   for c in e.children)
    elif isinstance(e, jsgf.Sequence):
        x = mk_seq([nf_lib(c, tags, cs) for c in e.children])
    else:
        raise AssertionError("unexpected expansion %r" % e)
    return mk_tag(e.tag, x) if tags else x


# ---------------------------------------------------------------- names and words

LETTERS = u"abcdefgkxyzABCZ0123456789_\u00e9\u00fc\u0436\u042f\u03b1\u03a9\u4e2d\u6587\u0905\u05d0"
WORD_CHARS = LETTERS + u"-'"
NAME_CHARS = LETTERS + u"+-;:,=|/\\()[]@#%!^&~$"
SPECIAL = u"+-;:,=|/\\()[]@#%!^&~$"


def gen_chars(src, chars, lo=1, hi=5):
    return "".join(src.pick(chars) for _ in range(src.between(lo, hi)))


def gen_word(src):
    if src.chance(60):
        return src.pick(("a", "b", "hello", "don't", "x-y", "publicly", "imported",
                         "grammars", "null", "NULL", "VOID", "42", u"z\u00fcrich", "Cat",
                         "CAT", u"\u043f\u0440\u0438\u0432\u0435\u0442"))
    return gen_chars(src, WORD_CHARS)


def gen_name(src, semicolons=True, simple=60):
    """A rule or grammar name without dots."""
    if src.chance(simple):
        return src.pick(("rule", "a", "Hello", "n1", "null", "NULLs", "public",
                         "import", "x_y", u"Z\u00fcrich", "$100", "1+2=3", "DICT"))
    while True:
        s = gen_chars(src, NAME_CHARS, 1, 6)
        if not semicolons:
            s = s.replace(";", "s")
        # "//" and "/*" start comments.
        s = s.replace("//", "/").replace("/*", "/").strip("/") or "q"
        if s not in ("NULL", "VOID"):
            return s


def gen_qname(src, lo=1, hi=3, semicolons=True):
    return ".".join(gen_name(src, semicolons) for _ in range(src.between(lo, hi)))


TAG_CHARS = LETTERS + "-'{}\\"


def gen_tag(src):
    if src.chance(50):
        return src.pick(("t", "tag", "t2", "multi word", "a{b}", "x\\y", "don't"))
    return " ".join(gen_chars(src, TAG_CHARS, 1, 4) for _ in range(src.between(1, 3)))


def escape_tag(t):
    return re.sub(r"([\\{}])", r"\\\1", t)


# ---------------------------------------------------------------- rendering

# Tokens: ("w", text), ("<", name), ("{", text), ("/", number text), or a symbol.

def fmt_weight(src, w):
    if w == int(w) and src.chance(60):
        return str(int(w))
    s = ("%.4f" % w).rstrip("0")
    if s.endswith("."):
        s += "0"
    return s


def render(src, n, top=True):
    """Tokens of a model tree in concrete JSGF."""
    if top:
        return alt_tokens(src, n)
    raise AssertionError


def group(tokens):
    return ["("] + tokens + [")"]


def alt_tokens(src, n):
    """n where an alternative set is allowed."""
    if n.kind == "alt" and not n.tag and len(n.kids) > 1:
        out = []
        for i, c in enumerate(n.kids):
            if i:
                out.append("|")
            if n.weights:
                out.append(("/", fmt_weight(src, n.weights[i])))
            out += seq_tokens(src, c)
        return out
    return seq_tokens(src, n)


def seq_tokens(src, n):
    """n where a sequence is allowed."""
    if n.kind == "seq" and not n.tag and n.kids:
        out = []
        for c in n.kids:
            if c.kind in ("seq",) and not c.tag and c.kids and src.chance(50):
                part = seq_tokens(src, c)
            else:
                part = item_tokens(src, c)
            if out and out[-1][0] == "w" and part[0][0] == "w" and \
                    first_has_suffix(part):
                # "a b+" is a repeat of "a b".
                end = 0
                while end < len(part) and part[end][0] == "w":
                    end += 1
                part = group(part[:end]) + part[end:]
            out += part
        return out
    return item_tokens(src, n)


def first_has_suffix(part):
    for t in part:
        if t[0] == "w":
            continue
        return t[0] == "{" or t in ("+", "*")
    return False


def core_tokens(src, n):
    """n without its tag, as a single atom."""
    k = n.kind
    if k == "lit":
        out = [("w", w) for w in n.words]
        return group(out) if src.chance(10) else out
    if k == "ref":
        out = [("<", n.name)]
    elif k == "dict":
        out = [("<", "DICTATION")]
    elif k == "null":
        out = [("<", "NULL")]
    elif k == "void":
        out = [("<", "VOID")]
    elif k == "opt":
        out = ["["] + alt_tokens(src, n.kids[0]) + ["]"]
    elif k in ("rep", "star"):
        out = group(rep_tokens(src, n))
    elif k in ("seq", "req", "alt") and not n.kids:
        out = [("<", "NULL")]
    else:
        if len(n.kids) == 1:
            m = n.kids[0]
        else:
            m = M.N("seq" if k == "req" else k, n.kids, weights=n.weights)
        out = group(alt_tokens(src, m))
    return group(out) if src.chance(8) else out


def rep_tokens(src, n):
    c = n.kids[0]
    if c.kind in ("rep", "star"):
        out = group(item_tokens(src, c))
    else:
        out = tagged_tokens(src, c)
    return out + ["+" if n.kind == "rep" else "*"]


def tagged_tokens(src, n):
    if n.tag and n.kind == "req" and len(n.kids) == 1 and n.kids[0].tag and \
            n.kids[0].kind not in ("rep", "star") and src.chance(60):
        # Several tags.
        return tagged_tokens(src, n.kids[0]) + [("{", n.tag)]
    out = core_tokens(src, n)
    if n.tag:
        out = out + [("{", n.tag)]
    return out


def item_tokens(src, n):
    if n.kind in ("rep", "star") and not n.tag:
        return rep_tokens(src, n)
    return tagged_tokens(src, n)


COMMENTS = ("/* c */", "/* x ; y\n| <z> = ( */", "// c ; \"} \n", "//\n", "/**/",
            "/* public <p> = q; */")


def gap(src, need_space, comments, newlines=True):
    s = ""
    if src.chance(20):
        s += src.pick(("\n", "\r\n", "\n\t") if newlines and src.chance(40)
                      else (" ", "\t", "  "))
    if comments and src.chance(comments):
        # A comment is separated from what could be a weight's slash.
        s += " " + src.pick(COMMENTS)
        if not newlines:
            s = s.replace("\n", " ").replace("//", "")
        if src.chance(30):
            s += " "
        return s
    if need_space and not s:
        s = " "
    elif not need_space and not s and src.chance(50):
        s = " "
    return s


def token_text(src, t):
    if isinstance(t, str):
        return t
    sp = " " if src.chance(15) else ""
    if t[0] == "w":
        return t[1]
    if t[0] == "<":
        return "<%s%s%s>" % (sp, t[1], sp)
    if t[0] == "{":
        text = escape_tag(t[1])
        if " " in text and src.chance(30):
            text = text.replace(" ", "  ")
        return "{%s%s%s}" % (sp, text, sp)
    if t[0] == "/":
        return "/%s%s%s/" % (sp, t[1], sp)
    raise AssertionError(t)


def layout(src, tokens, comments=0):
    """Text of a list of tokens with random whitespace and comments."""
    out = ""
    prev = None
    for t in tokens:
        if prev is not None:
            need = prev[0] in ("w", "/") and t[0] in ("w", "/")
            out += gap(src, need, comments)
        out += token_text(src, t)
        prev = t
    return out


# ---------------------------------------------------------------- recogniser

class Reject(Exception):
    pass


class Unspecified(Exception):
    pass


class Recogniser:
    """
    Decides a token list by the documented EBNF and gives its normal form.  Weights
    for only some of the alternatives: Unspecified.
    """

    def __init__(self, tokens):
        self.toks = list(tokens)
        self.i = 0
        self.partial = False

    def peek(self):
        return self.toks[self.i] if self.i < len(self.toks) else ("end",)

    def next(self):
        t = self.peek()
        self.i += 1
        return t

    def parse(self):
        x = self.alt()
        if self.i != len(self.toks):
            raise Reject("trailing tokens")
        if self.partial:
            raise Unspecified()
        return x

    def alt(self):
        pairs = []
        while True:
            w = None
            if self.peek()[0] == "/":
                w = float(self.next()[1])
                if w < 0:
                    raise Reject("negative weight")
            pairs.append((rnd(w), self.seq()))
            if self.peek() != "|":
                break
            self.next()
        weighted = [w for w, _ in pairs if w is not None]
        if weighted and len(pairs) == 1:
            raise Reject("weight outside of an alternative set")
        if weighted and len(weighted) != len(pairs):
            self.partial = True
        return mk_alt(pairs)

    def seq(self):
        items = []
        while True:
            t = self.peek()
            if t[0] == "/":
                raise Reject("weight in a sequence")
            if t in ("+", "*") or t[0] == "{":
                raise Reject("misplaced unary operator or tag")
            if t[0] in ("w", "<", "(", "["):
                items.append(self.item())
            else:
                break
        if not items:
            raise Reject("nothing")
        return mk_seq(items)

    def item(self):
        x = self.atom()
        while self.peek()[0] == "{":
            x = ("tag", self.next()[1], x)
        if self.peek() in ("+", "*"):
            x = ("rep" if self.next() == "+" else "star", x)
        return x

    def atom(self):
        t = self.next()
        if t[0] == "w":
            words = [t]
            while self.peek()[0] == "w":
                words.append(self.next())
            return mk_seq(words)
        if t[0] == "<":
            return {"NULL": NULL, "VOID": ("void",)}.get(t[1], ("ref", t[1]))
        close = ")" if t == "(" else "]"
        x = self.alt()
        if self.next() != close:
            raise Reject("unbalanced")
        return x if t == "(" else ("opt", x)


def dup_alternatives(x):
    """Whether a weighted alternative set has alternatives that are alike."""
    if x[0] == "alt" and any(w is not None for w, _ in x[1]):
        seen = set()
        for _, c in x[1]:
            s = repr(strip_tags(c)).lower()
            if s in seen:
                return True
            seen.add(s)
    for c in children(x):
        if dup_alternatives(c):
            return True
    return False


def children(x):
    if x[0] == "seq":
        return list(x[1])
    if x[0] == "alt":
        return [c for _, c in x[1]]
    if x[0] in ("opt", "rep", "star"):
        return [x[1]]
    if x[0] == "tag":
        return [x[2]]
    return []


def strip_tags(x):
    if x[0] == "tag":
        return strip_tags(x[2])
    if x[0] == "seq":
        return mk_seq([strip_tags(c) for c in x[1]])
    if x[0] == "alt":
        return mk_alt((w, strip_tags(c)) for w, c in x[1])
    if x[0] in ("opt", "rep", "star"):
        return (x[0], strip_tags(x[1]))
    return x


def only_words(x):
    if x[0] == "tag":
        return only_words(x[2])
    if x[0] == "seq":
        return all(c[0] == "w" for c in x[1])
    return x[0] == "w"


def tag_after_word(x):
    """Whether a tagged literal follows a word directly, apart from groupings."""
    if x[0] == "seq":
        for a, b in zip(x[1], x[1][1:]):
            if a[0] == "w" and b[0] == "tag" and only_words(b):
                return True
    return any(tag_after_word(c) for c in children(x))
