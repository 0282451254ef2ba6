"""
C29: match data can be saved, set, reset and restored.

Oracle: a dictionary with the match data of each expansion of a rule and of the rules
that it references.
"""
from .base import *
import jsgf
from jsgf import restore_current_matches, save_current_matches


class C29(Prop):
    id = "C29"

    def case(self, src, rec):
        cfg = M.Cfg(empty_groups=60, wide=3, chain=2, depth=src.between(1, 3), width=3, unique=True, tags=15, weights=20,
                    null=False, void=False)
        rules, names = M.gen_rules(src, cfg)
        shapes = [repr(M.shape(x, cs=False)) for k in names for x in rules[k].walk()]
        if len(set(shapes)) != len(shapes):
            raise Discard()
        g = M.build_grammar(rules, names)
        rule = g.get_rule(names[0])
        for name in names:
            rec.show("%s = %s" % (name, M.show(rules[name])))
        nodes = self.nodes(rules, names[0], g)
        for x in nodes:
            x.reset_for_new_match()
        e = rule.expansion
        part = src.chance(25) and src.pick(tree_nodes(e))
        if part:
            e = part
            nodes = [x for x in nodes if x is e or self.below(x, e)]
        saved = []
        now = self.read(nodes)
        wins = 0
        for _ in range(src.between(3, 9)):
            op = src.weighted([(4, "match"), (3, "save"), (3, "restore"), (2, "set"),
                               (1, "slice"), (1, "reset"), (1, "merge"), (1, "copy"),
                               (1, "wrong")])
            if op == "match":
                speech = M.render_speech(src, M.gen_speech(src, rules[names[0]], rules))
                rec.show("matches(%r)" % speech)
                if rule.matches(speech):
                    wins += 1
                now = self.read(nodes)
            elif op == "save":
                values = save_current_matches(e)
                rec.show("save")
                check_eq(len(values), len(nodes), "save", "number of saved expansions")
                for x in nodes:
                    check_eq(values[x], {"current_match": x.current_match,
                                         "matching_slice": x.matching_slice},
                             "save", "saved data of %s" % x)
                saved.append((values, list(now)))
            elif op in ("restore", "merge") and saved:
                values, then = src.pick(saved)
                rec.show(op)
                if op == "restore":
                    src.pick((lambda: restore_current_matches(e, values),
                              lambda: restore_current_matches(e, values, True)))()
                    now = [(a or ("" if x.is_optional else None), s)
                           for x, (a, s) in zip(nodes, then)]
                    rec.label("restored")
                else:
                    restore_current_matches(e, values, override_none=False)
                    now = [(a or ("" if x.is_optional else None)
                            if a is not None else b, s if s is not None else t)
                           for x, (a, s), (b, t) in zip(nodes, then, now)]
                    rec.label("merged")
                if any(a for a, _ in now):
                    wins += 1
            elif op == "set":
                i = src.below(len(nodes))
                x = nodes[i]
                value = src.pick((None, "", "  ", "ape", " ape\t bat  ", "APE",
                                  u"zo\u00e9\n x", u"ape\u2003bat", u"a\xa0 b\x0bc",
                                  u"\u3000"))
                rec.show("current_match of %s = %r" % (x, value))
                x.current_match = value
                value = norm(value) if value else value
                now[i] = (value or ("" if x.is_optional else None), now[i][1])
            elif op == "slice":
                i = src.below(len(nodes))
                value = src.pick((None, slice(0, 3), slice(2, 2)))
                rec.show("matching_slice of %s = %r" % (nodes[i], value))
                nodes[i].matching_slice = value
                now[i] = (now[i][0], value)
            elif op == "reset":
                rec.show("reset")
                e.reset_for_new_match()
                now = [("" if x.is_optional else None, None) for x in nodes]
                for x in nodes:
                    check(part or not x.had_match, "reset", "%s had a match", x)
            elif op == "copy" and saved and not any(
                    isinstance(x, jsgf.NamedRuleRef) for x in tree_nodes(e)):
                # Data are saved for comparable expansions.
                values, then = src.pick(saved)
                c = e.copy()
                rec.show("restore the data of a copy")
                restore_current_matches(c, values)
                for x, old, (m, s) in zip(tree_nodes(c), tree_nodes(e), then):
                    if m or x.is_optional == old.is_optional:
                        m = m or ("" if x.is_optional else None)
                        check_eq((x.current_match, x.matching_slice), (m, s), "copy",
                                 "data of the copy of %s" % x)
            elif op == "wrong":
                x = src.pick(nodes)
                for value in (1, ["ape"], object(), b"ape" if str is not bytes else 2):
                    check_raises(TypeError, lambda: setattr(x, "current_match", value),
                                 "wrong", "current_match = %r" % (value,))
                for value in (1, "a", (0, 1)):
                    check_raises(TypeError, lambda: setattr(x, "matching_slice", value),
                                 "wrong", "matching_slice = %r" % (value,))
            check_eq(self.read(nodes), now, "data", "match data after %s" % op)
        if wins and saved:
            rec.nontrivial(rec.lines)

    def nodes(self, rules, name, g, seen=None):
        """The expansions of a rule and of those it references, each once."""
        out, seen = [], seen if seen is not None else []
        if name in seen:
            return out
        seen.append(name)
        for x in tree_nodes(g.get_rule(name).expansion):
            out.append(x)
            if isinstance(x, jsgf.NamedRuleRef):
                out += self.nodes(rules, x.name, g, seen)
        return out

    def below(self, x, e):
        """Whether x is in the tree of e, or in that of a rule referenced there."""
        todo, seen = [e], []
        while todo:
            for y in tree_nodes(todo.pop()):
                if y is x:
                    return True
                if isinstance(y, jsgf.NamedRuleRef) and y.name not in seen:
                    seen.append(y.name)
                    todo.append(y.referenced_rule.expansion)
        return False

    def read(self, nodes):
        return [(x.current_match, x.matching_slice) for x in nodes]


PROP = C29()
