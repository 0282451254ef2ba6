"""
C19: tags of a rule and tags of a match.

Oracle: post-order walk of the model (through references), and the unique derivation of
the speech.
"""
from .base import *
from .c06 import ref_counts
from vlib import text as T
import jsgf

BAD_TAGS = (3, 1.5, ["t"], object(), b"t", ("t",))


def postorder(n, rules, out):
    """Nodes in post-order, through references."""
    for k in n.kids:
        postorder(k, rules, out)
    if n.kind == "ref":
        postorder(rules[n.name], rules, out)
    out.append(n)
    return out


def occurrences(d, out):
    """Occurrences of every node, in every repetition."""
    n, i, j, ds = d
    out.setdefault(id(n), []).append((i, j))
    for c in ds:
        occurrences(c, out)


def below_repeat(n, inside=False):
    """Names of rules referenced inside repetitions."""
    if n.kind == "ref" and inside:
        yield n.name
    for k in n.kids:
        for x in below_repeat(k, inside or n.kind in ("rep", "star")):
            yield x


class C19(Prop):
    id = "C19"

    def case(self, src, rec):
        texts = ["t1", "t2", "two words", "  t3 ", T.gen_tag(src)]
        texts.append(src.pick(("\nt4", "t4\t", " \r\n t4\n\n", "\tt4 ", "t4\u3000")))
        cfg = M.Cfg(wide=3, chain=2, depth=src.between(1, 3), width=3, tags=45, weights=10, tag_rep=True,
                    tag_texts=texts, unique=src.chance(80))
        rules, names = M.gen_rules(src, cfg)
        M.add_traps(src, rules, cfg)
        visible = {n: src.chance(70) for n in names}
        objs = {}
        g = M.build_grammar(rules, names, objs, visible)
        for n in names:
            rec.show("%s%s = %s" % ("public " * visible[n], n, rules[n]))
        self.rules, self.names, self.visible, self.g = rules, names, visible, g
        self.static(src, rec, texts)
        for _ in range(src.between(1, 4)):
            if src.chance(30):
                # Change a tag.
                n = src.pick(names)
                x = src.pick(list(rules[n].walk()))
                t = src.pick(("", None, " ", "\n", "\t ") + tuple(texts))
                objs[id(x)].tag = t
                x.tag = t if t and t.strip() else ""
                rec.show("tag of %s in %s: %r" % (x.kind, n, t))
                check_eq(objs[id(x)].tag, x.tag.strip(), "tag", "tag %r" % t)
                self.static(src, rec, texts)
            elif src.chance(10):
                self.disabled(src, rec)
            elif src.chance(5):
                x = src.pick(list(rules[names[0]].walk()))
                bad = src.pick(BAD_TAGS)

                def f():
                    objs[id(x)].tag = bad
                check_raises(TypeError, f, "bad-tag", "tag = %r" % (bad,))
                check_eq(objs[id(x)].tag, x.tag.strip(), "tag", "tag after an error")
            else:
                self.matched(src, rec, objs)

    def static(self, src, rec, texts):
        rules = self.rules
        want = {}
        for n in self.names:
            want[n] = [x.tag.strip() for x in postorder(rules[n], rules, []) if x.tag]
            r = self.g.get_rule(n)
            check_eq(r.tags, want[n], "tags", "tags of %s" % n)
        t = src.pick(texts + ["other", "", "  ", "t1 "])
        for n in self.names:
            check_eq(self.g.get_rule(n).has_tag(t), bool(t.strip()) and
                     t.strip() in want[n], "has_tag", "%s.has_tag(%r)" % (n, t))
        for hidden in (False, True):
            got = [r.name for r in (self.g.find_tagged_rules(t, hidden) if hidden
                                    else self.g.find_tagged_rules(t))]
            check_eq(got, [n for n in self.names if (hidden or self.visible[n]) and
                           t.strip() and t.strip() in want[n]], "find_tagged_rules",
                     "find_tagged_rules(%r, %s)" % (t, hidden))

    def disabled(self, src, rec):
        """A disabled rule doesn't match, so no tags are those of its match."""
        name = src.pick(self.names)
        r = self.g.get_rule(name)
        words = M.gen_speech(src, self.rules[name], self.rules)
        speech = M.render_speech(src, words, case=True)
        if src.chance(70):
            rec.show("%s.matches(%r)" % (name, speech))
            r.matches(speech)
        self.g.disable_rule(name)
        rec.show("%s disabled, get_tags_matching(%r)" % (name, speech))
        check_eq(r.get_tags_matching(speech), [], "disabled", "tags of a disabled rule")
        check_eq(r.matched_tags, [], "disabled", "matched_tags of a disabled rule")
        check(not r.was_matched, "disabled", "was_matched of a disabled rule")
        self.g.enable_rule(name)

    def matched(self, src, rec, objs):
        rules = self.rules
        name = self.names[0]
        r = self.g.get_rule(name)
        root = rules[name]
        spoken = M.gen_speech(src, root, rules)
        speech = M.render_speech(src, spoken, case=True)
        rec.show("get_tags_matching(%r)" % speech)
        got = r.get_tags_matching(speech)
        check_eq(r.matched_tags, got, "matched_tags", "matched_tags after matching")
        check(r.matches(speech) == r.was_matched, "was_matched", "was_matched")
        check_eq(r.matched_tags, got, "again", "matched_tags after matching again")
        if not r.was_matched:
            check_eq(got, [], "failed", "tags after a failed match")
            return
        words = speech.split()
        lang = M.Lang(rules, words)
        if not lang.greedy_accepts(root):
            return
        counts = ref_counts(rules)
        reach = postorder(root, rules, [])
        if any(counts.get(x.name, 0) > 1 for x in reach if x.kind == "ref"):
            rec.label("shared_rule")
            return
        for m in [name] + [x.name for x in reach if x.kind == "ref"]:
            if list(below_repeat(rules[m])):
                rec.label("reference_repeated")
                return
        try:
            ds = M.Derivations(rules, words).full(root)
        except M.TooMany:
            return
        if len(ds) != 1:
            rec.label("many_derivations")
            return
        occ = {}
        occurrences(ds[0], occ)
        want = [x.tag.strip() for x in reach if x.tag and any(
            i < j for i, j in occ.get(id(x), []))]
        check_eq(got, want, "matched", "tags matching %r" % speech)
        if want:
            rec.nontrivial(rec.lines)
            rec.label("tags matched")


PROP = C19()
