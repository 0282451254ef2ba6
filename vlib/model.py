"""
Reference model of rule expansions: a plain tree, a generator for it, its language
(as sets of word sequences, decided by exhaustive position sets), a reference for
greedy left-to-right matching, derivations, and translation to jsgf objects.

Nothing in this module uses the library, except ``build``.
"""

KINDS = ("lit", "seq", "req", "alt", "opt", "rep", "star", "ref", "null", "void",
         "dict")

# Some words begin or end with another one.
WORDS = ("ape", "bat", "apes", "dog", "at", "bat's", "gnu", "hen", "o'x", "a-b",
         "zo\u00e9", "m\u00fcs", "42x")
NOISE = ("yak", "owl")
EMPTY_GROUPS = ("Sequence", "RequiredGrouping", "AlternativeSet")


class N:
    """A node of the reference tree."""
    __slots__ = ("kind", "kids", "words", "tag", "weights", "name", "cs")

    def __init__(self, kind, kids=(), words=(), tag="", weights=None, name=None,
                 cs=False):
        self.kind = kind
        self.kids = list(kids)
        self.words = list(words)
        self.tag = tag
        self.weights = weights
        self.name = name
        self.cs = cs

    def __repr__(self):
        return show(self)

    def walk(self):
        yield self
        for k in self.kids:
            for x in k.walk():
                yield x

    def copy(self):
        return N(self.kind, [k.copy() for k in self.kids], self.words, self.tag,
                 list(self.weights) if self.weights is not None else None,
                 self.name, self.cs)


def show(n):
    """Text of a node in an unambiguous notation of our own (not JSGF)."""
    if n.kind == "lit":
        s = "'%s'%s" % (" ".join(n.words), "!" if n.cs else "")
    elif n.kind == "ref":
        s = "<%s>" % n.name
    elif n.kind in ("null", "void", "dict"):
        s = "%s()" % n.name if n.name else n.kind.upper()
    else:
        parts = [show(k) for k in n.kids]
        if n.weights is not None:
            parts = ["%r/%s" % (w, p) for w, p in zip(n.weights, parts)]
        s = "%s(%s)" % (n.kind, ", ".join(parts))
        if n.name:
            s = "<%s = %s>" % (n.name, s)
    if n.tag:
        s += "{%s}" % n.tag
    return s


class Cfg:
    """What the generator may use."""

    def __init__(self, depth=3, width=3, words=WORDS, refs=(), tags=0, weights=0,
                 case=0, dictation=False, null=True, void=True, empty_groups=False,
                 tag_texts=("t1", "t2", "t3"), unary=True, max_words=2,
                 unique=False, tag_rep=False, tag_seq=True, opt=True, wide=0, chain=0,
                 long=False):
        self.__dict__.update(locals())
        del self.__dict__["self"]
        self.used = set()


def gen_words(src, cfg):
    n = 1 if cfg.max_words == 1 or not src.chance(25) else \
        src.between(2, cfg.max_words)
    out = []
    for _ in range(n):
        words = cfg.words
        if cfg.unique:
            free = [w for w in words if w not in cfg.used]
            if not free:
                base = "w%02d" % len(cfg.used)
                free = [base]
            words = free[:12]
        w = src.pick(words)
        cfg.used.add(w)
        out.append(w)
    return out


def gen_leaf(src, cfg):
    opts = [(10, "lit")]
    if cfg.refs:
        opts.append((4, "ref"))
    if cfg.dictation:
        opts.append((4, "dict"))
    if cfg.null:
        opts.append((1, "null"))
    if cfg.void:
        opts.append((1, "void"))
    kind = src.weighted(opts)
    if kind == "lit":
        return N("lit", words=gen_words(src, cfg),
                 cs=bool(cfg.case and src.chance(cfg.case)))
    if kind == "ref":
        return N("ref", name=src.pick(cfg.refs))
    if kind == "null" and cfg.empty_groups and src.chance(cfg.empty_groups):
        # Groups without children are the same as NULL.
        return N("null", name=src.pick(EMPTY_GROUPS))
    return N(kind)


def gen_wide(src, cfg, depth):
    """A sequence or set with many small parts."""
    saved, cfg.wide, cfg.chain = (cfg.wide, cfg.chain), 0, 0
    kind = src.pick(("seq", "alt", "req"))
    n = N(kind, [gen(src, cfg, src.pick((0, 0, min(depth, 1))))
                 for _ in range(src.between(4, 12))])
    if kind == "alt" and cfg.weights and src.chance(cfg.weights):
        n.weights = [gen_weight(src) for _ in n.kids]
        dedupe(n)
    cfg.wide, cfg.chain = saved
    return n


def gen_chain(src, cfg, depth):
    """Something small below many levels."""
    saved, cfg.wide, cfg.chain = (cfg.wide, cfg.chain), 0, 0
    n = gen(src, cfg, min(depth, 1))
    # Matching takes too long below many levels, and so do hashes, which weights need.
    long = cfg.long and not cfg.weights and src.chance(40)
    kinds = ("opt", "req", "seq", "alt", "rep", "star") if cfg.unary else \
        ("opt", "req", "seq", "alt")
    if long and src.chance(30):
        kinds = (src.pick(kinds),)
    for _ in range(src.between(12, 30) if long else src.between(4, 7)):
        kind = src.pick(kinds)
        if kind in ("seq", "alt") or kind == "req" and src.chance(30):
            kids = [n, gen_leaf(src, cfg)]
            n = N(kind, kids[::-1] if src.chance(40) else kids)
        elif kind == "opt" and not cfg.opt:
            n = N("req", [n])
        elif kind in ("rep", "star") and not long and any(x.kind in ("rep", "star")
                                             for x in n.walk()):
            n = N("req", [n])
        else:
            n = N(kind, [n])
    cfg.wide, cfg.chain = saved
    return n


def gen(src, cfg, depth=None):
    depth = cfg.depth if depth is None else depth
    if cfg.wide and depth > 0 and src.chance(cfg.wide):
        return gen_wide(src, cfg, depth)
    if cfg.chain and depth > 0 and src.chance(cfg.chain):
        return gen_chain(src, cfg, depth)
    if depth <= 0 or src.chance(25):
        n = gen_leaf(src, cfg)
    else:
        opts = [(5, "seq"), (5, "alt"), (2, "req")]
        if cfg.opt:
            opts.append((4, "opt"))
        if cfg.unary:
            opts += [(3, "rep"), (3, "star")]
        kind = src.weighted(opts)
        if kind in ("seq", "alt", "req"):
            width = src.between(1 if src.chance(12) else 2, cfg.width)
            if kind == "req" and src.chance(60):
                width = 1
            if kind == "seq" and width == 1:
                width = 2 if not src.chance(40) else 1
            kids = [gen(src, cfg, depth - 1) for _ in range(width)]
            n = N(kind, kids)
            if kind == "alt" and cfg.weights and src.chance(cfg.weights):
                n.weights = [gen_weight(src) for _ in kids]
                if not any(n.weights):
                    n.weights[0] = 1.0
                dedupe(n)
        else:
            n = N(kind, [gen(src, cfg, depth - 1)])
    if cfg.tags and src.chance(cfg.tags) and (
            cfg.tag_rep or n.kind not in ("rep", "star")) and (
            cfg.tag_seq or n.kind not in ("seq",)):
        n.tag = src.pick(cfg.tag_texts)
    return n


def gen_weight(src):
    return src.weighted([(3, 1.0), (2, 2.0), (2, 0.5), (1, 10.0), (1, 0.25),
                         (1, 0.0), (1, 3.1416), (1, 100.0)])


def shape(n, cs=True):
    """Structure without tags: equal shapes are 'comparable' library expansions."""
    if n.kind == "lit":
        if not cs:
            return ("lit", " ".join(n.words).lower())
        return ("lit", " ".join(n.words) if n.cs else " ".join(n.words).lower(), n.cs)
    if n.kind in ("ref", "null", "void", "dict"):
        return (n.kind, n.name)
    kids = tuple(shape(k, cs) for k in n.kids)
    if n.kind == "alt":
        w = n.weights or [None] * len(kids)
        # Neither their order nor how often each is there counts, but their number does.
        kids = (len(kids),) + tuple(sorted(set(zip(map(repr, kids), map(repr, w)))))
    return (n.kind, kids)


def dedupe(n):
    """
    Weights belong to alternatives by comparison, so alternatives of a weighted set
    are made pairwise different.
    """
    seen, kids, weights = set(), [], []
    for k, w in zip(n.kids, n.weights):
        s = repr(shape(k, cs=False))
        if s not in seen:
            seen.add(s)
            kids.append(k)
            weights.append(w)
    n.kids, n.weights = kids, weights
    if not any(weights):
        weights[0] = 1.0


class RuleSet:
    """Rules by name; references only go to later rules, so there is no recursion."""

    def __init__(self, rules=None):
        self.rules = dict(rules or {})   # name -> N

    def __getitem__(self, name):
        return self.rules[name]


NAMES = ("alpha", "beta", "gamma", "delta", "eps")


def gen_rules(src, cfg, max_rules=3):
    """Generate a RuleSet; the first rule is the main one."""
    n = src.between(1, max_rules)
    if cfg.wide and src.chance(4):
        n = src.between(4, len(NAMES))
    names = list(NAMES[:n])
    rules = {}
    for i in reversed(range(n)):
        cfg.refs = tuple(names[i + 1:])
        depth = cfg.depth if i == 0 else max(1, cfg.depth - 1)
        rules[names[i]] = gen(src, cfg, depth)
    return RuleSet({k: rules[k] for k in names}), names


def add_traps(src, rules, cfg, percent=25, refs=True):
    """
    Put parts that begin like what follows or competes with them before or beside some
    parts, e.g. [a b] a for a, so that matching has to give up what it began.
    """
    for name in list(rules.rules):
        if not src.chance(percent):
            continue
        places = [(x, i) for x in rules[name].walk() for i in range(len(x.kids))]
        if not places:
            continue
        x, i = src.pick(places)
        part = x.kids[i]
        if len(list(part.walk())) > 4:
            continue
        if not refs and any(y.kind == "ref" for y in part.walk()):
            continue
        begun = N("seq", [part.copy(), N("lit", words=gen_words(src, cfg))])
        kind = src.pick(("opt", "star", "alt", "rep"))
        if kind == "alt":
            new = N("alt", [begun, part])
        elif kind == "rep":
            new = N("seq", [N("rep", [begun]), N("opt", [part])])
        else:
            new = N("seq", [N(kind, [begun]), part])
        x.kids[i] = new


# ---------------------------------------------------------------- the language

def same_word(a, b, cs):
    return a == b if cs else a.lower() == b.lower()


def active_alts(n):
    """Indices of the alternatives that can be spoken."""
    if n.weights is None:
        return list(range(len(n.kids)))
    return [i for i, w in enumerate(n.weights) if w > 0]


class Lang:
    """Language questions about one speech (a list of words)."""

    def __init__(self, rules, words):
        self.rules = rules
        self.words = words
        self.memo = {}

    def ends(self, n, i):
        key = (id(n), i)
        if key not in self.memo:
            self.memo[key] = self._ends(n, i)
        return self.memo[key]

    def _seq(self, kids, starts):
        for k in kids:
            nxt = set()
            for s in starts:
                nxt |= self.ends(k, s)
            starts = nxt
        return starts

    def _ends(self, n, i):
        kind = n.kind
        if kind == "lit":
            j = i + len(n.words)
            if j <= len(self.words) and all(
                    same_word(a, b, n.cs)
                    for a, b in zip(n.words, self.words[i:j])):
                return frozenset([j])
            return frozenset()
        if kind in ("seq", "req"):
            return frozenset(self._seq(n.kids, {i}))
        if kind == "alt":
            out = set() if n.kids else {i}
            for k in active_alts(n):
                out |= self.ends(n.kids[k], i)
            return frozenset(out)
        if kind == "opt":
            return frozenset({i}) | self.ends(n.kids[0], i)
        if kind in ("rep", "star"):
            seen = set(self.ends(n.kids[0], i))
            todo = list(seen)
            while todo:
                for j in self.ends(n.kids[0], todo.pop()):
                    if j not in seen:
                        seen.add(j)
                        todo.append(j)
            if kind == "star":
                seen.add(i)
            return frozenset(seen)
        if kind == "ref":
            return self.ends(self.rules[n.name], i)
        if kind == "null":
            return frozenset([i])
        if kind == "void":
            return frozenset()
        if kind == "dict":
            return frozenset(range(i + 1, len(self.words) + 1))
        raise AssertionError(kind)

    def accepts(self, n):
        return len(self.words) in self.ends(n, 0)

    # -- greedy left-to-right matching without backtracking: the longest
    #    alternative, as many repetitions as possible, optionals if possible.
    def greedy(self, n, i):
        kind = n.kind
        if kind == "lit":
            e = self.ends(n, i)
            return min(e) if e else None
        if kind in ("seq", "req"):
            for k in n.kids:
                i = self.greedy(k, i)
                if i is None:
                    return None
            return i
        if kind == "alt":
            if not n.kids:
                return i
            found = [self.greedy(n.kids[k], i) for k in active_alts(n)]
            found = [f for f in found if f is not None]
            return max(found) if found else None
        if kind == "opt":
            j = self.greedy(n.kids[0], i)
            return i if j is None else j
        if kind in ("rep", "star"):
            j, count = i, 0
            while True:
                k = self.greedy(n.kids[0], j)
                if k is None or k == j:
                    if count == 0 and kind == "rep" and k is None:
                        return None
                    return j
                j = k
                count += 1
        if kind == "ref":
            return self.greedy(self.rules[n.name], i)
        if kind == "null":
            return i
        if kind == "void":
            return None
        raise AssertionError(kind)

    def greedy_accepts(self, n):
        return self.greedy(n, 0) == len(self.words)


class TooMany(Exception):
    pass


class Derivations:
    """
    All derivations of words[i:j] from a node, up to a limit.  A derivation is
    (node, i, j, children derivations).  Repetitions are of non-empty matches only,
    apart from a single empty one if there are no others.
    """

    def __init__(self, rules, words, limit=40):
        self.rules, self.words, self.limit = rules, words, limit
        self.lang = Lang(rules, words)
        self.memo = {}

    def of(self, n, i):
        key = (id(n), i)
        if key not in self.memo:
            out = self._of(n, i)
            if len(out) > self.limit:
                raise TooMany()
            self.memo[key] = out
        return self.memo[key]

    def _chain(self, kids, i):
        out = [(i, ())]
        for k in kids:
            nxt = []
            for e, ds in out:
                for d in self.of(k, e):
                    nxt.append((d[2], ds + (d,)))
            out = nxt
            if len(out) > self.limit:
                raise TooMany()
        return out

    def _of(self, n, i):
        kind = n.kind
        if kind in ("lit", "null", "void", "dict"):
            return [(n, i, j, ()) for j in sorted(self.lang.ends(n, i))]
        if kind in ("seq", "req"):
            return [(n, i, e, ds) for e, ds in self._chain(n.kids, i)]
        if kind == "alt":
            if not n.kids:
                return [(n, i, i, ())]
            return [(n, i, d[2], (d,)) for k in active_alts(n)
                    for d in self.of(n.kids[k], i)]
        if kind == "opt":
            return [(n, i, i, ())] + [(n, i, d[2], (d,))
                                      for d in self.of(n.kids[0], i)]
        if kind in ("rep", "star"):
            out = []
            todo = [(i, ())]
            while todo:
                e, ds = todo.pop()
                if ds:
                    out.append((n, i, e, ds))
                for d in self.of(n.kids[0], e):
                    if d[2] > e:
                        todo.append((d[2], ds + (d,)))
                    elif not ds and kind == "rep":
                        out.append((n, i, e, (d,)))
                if len(out) + len(todo) > 4 * self.limit:
                    raise TooMany()
            if kind == "star":
                out.append((n, i, i, ()))
            return out
        if kind == "ref":
            return [(n, i, d[2], (d,)) for d in self.of(self.rules[n.name], i)]
        raise AssertionError(kind)

    def full(self, n):
        return [d for d in self.of(n, 0) if d[2] == len(self.words)]


def nullable(n, rules):
    return Lang(rules, []).accepts(n)


def matchable(n, rules, _memo=None):
    """Whether the language of n is not empty."""
    k = n.kind
    if k == "void":
        return False
    if k in ("seq", "req", "rep"):
        return all(matchable(c, rules) for c in n.kids)
    if k == "alt":
        return not n.kids or any(matchable(n.kids[i], rules) for i in active_alts(n))
    if k == "ref":
        return matchable(rules[n.name], rules)
    return True


# ---------------------------------------------------------------- speech

def sample(src, n, rules, out, budget=14, noise=NOISE):
    """Append a random sentence of n to out; False if there is none (VOID)."""
    k = n.kind
    if k == "lit":
        out.extend(n.words)
        return True
    if k in ("seq", "req"):
        return all([sample(src, c, rules, out, budget, noise) for c in n.kids])
    if k == "alt" and n.kids:
        ok = [i for i in active_alts(n) if matchable(n.kids[i], rules)]
        if not ok:
            return False
        return sample(src, n.kids[src.pick(ok)], rules, out, budget, noise)
    if k == "opt":
        if matchable(n.kids[0], rules) and src.chance(60):
            sample(src, n.kids[0], rules, out, budget, noise)
        return True
    if k in ("rep", "star"):
        if not matchable(n.kids[0], rules):
            return k == "star"
        count = src.weighted([(4, 1), (3, 2), (2, 3)])
        if k == "star" and src.chance(30):
            count = 0
        for _ in range(count):
            sample(src, n.kids[0], rules, out, budget, noise)
            if len(out) > budget:
                break
        return True
    if k == "ref":
        return sample(src, rules[n.name], rules, out, budget, noise)
    if k in ("null", "alt"):
        return True
    if k == "dict":
        for _ in range(src.between(1, 3)):
            out.append(src.pick(noise))
        return True
    return False


def mutate_words(src, words, vocab):
    words = list(words)
    for _ in range(src.between(1, 2)):
        op = src.below(6)
        if op == 4:
            # Words glued together, split, or longer than they are.
            i = src.below(len(words)) if words else 0
            if len(words) > i + 1 and src.chance(50):
                words[i:i + 2] = [words[i] + words[i + 1]]
            elif words and len(words[i]) > 1 and src.chance(50):
                j = src.between(1, len(words[i]) - 1)
                words[i:i + 1] = [words[i][:j], words[i][j:]]
            elif words:
                words[i] = src.pick((words[i] + "s", "b" + words[i], words[i] + ",",
                                     words[i] + words[i]))
        elif op == 0 and words:
            del words[src.below(len(words))]
        elif op in (1, 5):
            words.insert(src.below(len(words) + 1), src.pick(vocab))
        elif op == 2 and words:
            words[src.below(len(words))] = src.pick(vocab)
        elif op == 3 and len(words) > 1:
            i = src.below(len(words) - 1)
            words[i], words[i + 1] = words[i + 1], words[i]
    return words


def vocab_of(n, rules):
    out = []

    def add(x):
        for y in x.walk():
            for w in y.words:
                if w not in out:
                    out.append(w)
    add(n)
    for r in rules.rules.values():
        add(r)
    return out or ["ape"]


def gen_speech(src, n, rules, max_words=14):
    """A list of words: in the language, near it, or noise."""
    vocab = vocab_of(n, rules)
    kind = src.weighted([(6, "in"), (4, "near"), (1, "noise"), (1, "empty")])
    if kind == "empty":
        return []
    if kind == "noise":
        pool = vocab + [NOISE[0]]
        return [src.pick(pool) for _ in range(src.between(1, 5))]
    out = []
    sample(src, n, rules, out)
    if kind == "near":
        out = mutate_words(src, out, vocab + [NOISE[0]])
    return out[:max_words]


def render_speech(src, words, spaces=True, case=False):
    """Join words with random whitespace and (if allowed) letter case."""
    out = []
    for w in words:
        if case and src.chance(30):
            w = src.pick([w.upper(), w.capitalize(), w])
        out.append(w)
    if not spaces or not src.chance(25):
        return " ".join(out)
    gaps = ("  ", "\t", " ", "   ", "\n", "\r\n", u"\u2003", u"\xa0", "\x0b", "\x0c ")
    s = src.pick(gaps) if src.chance(40) else ""
    for i, w in enumerate(out):
        if i:
            s += src.pick(gaps)
        s += w
    return s + (src.pick(gaps) if src.chance(40) else "")


# ---------------------------------------------------------------- library objects

def build(n, objs=None, ref=None):
    """
    Build the library expansion for n.  objs (if given) maps id(node) to the object.
    ref(name) makes the expansion for a reference (default: NamedRuleRef).  Sequences
    with a name become rules of their own with a RuleRef in their place.
    """
    import jsgf
    k = n.kind
    if k == "lit":
        e = jsgf.Literal(" ".join(n.words), case_sensitive=n.cs)
    elif k == "ref":
        e = ref(n.name) if ref else jsgf.NamedRuleRef(n.name)
    elif k == "null":
        e = getattr(jsgf, n.name)() if n.name else jsgf.NullRef()
    elif k == "void":
        e = jsgf.VoidRef()
    elif k == "dict":
        from jsgf.ext import Dictation
        e = Dictation()
    else:
        kids = [build(c, objs, ref) for c in n.kids]
        cls = {"seq": jsgf.Sequence, "req": jsgf.RequiredGrouping,
               "alt": jsgf.AlternativeSet, "opt": jsgf.OptionalGrouping,
               "rep": jsgf.Repeat, "star": jsgf.KleeneStar}[k]
        e = cls(*kids)
        if n.weights is not None:
            for c, w in zip(kids, n.weights):
                e.set_weight(c, w)
        if n.name:
            e = jsgf.RuleRef(jsgf.Rule(n.name, False, e))
    if n.tag:
        e.tag = n.tag
    if objs is not None:
        objs[id(n)] = e
    return e


def build_grammar(rules, names, objs=None, visible=None, grammar=None,
                  case_sensitive=None):
    """
    Build a Grammar with the rules.  Adding a rule sets its case sensitivity, so that
    of literals is restored afterwards unless case_sensitive is given.
    """
    import jsgf
    if grammar is None:
        grammar = jsgf.Grammar("gram")
    objs = {} if objs is None else objs
    for name in names:
        e = build(rules[name], objs)
        vis = True if visible is None else visible[name]
        grammar.add_rule(jsgf.Rule(name, vis, e))
    if case_sensitive is None:
        for name in names:
            for x in rules[name].walk():
                if x.kind == "lit" and id(x) in objs and x.cs:
                    objs[id(x)].case_sensitive = True
    return grammar
