"""
C08: a match depends on the rule and the speech only, not on what was done before.

Oracle: a second grammar, built identically, that only ever matches the last speech.
"""
from .base import *


def snapshot(grammar, names):
    out = {}
    for n in names:
        rule = grammar.get_rule_from_name(n)
        out[n] = (rule.was_matched, rule.matched_tags,
                  match_snapshot(tree_nodes(rule.expansion)))
    return out


def reached(rules, name):
    """Names of the rules used by a rule, along with its own."""
    reach, todo = [], [name]
    while todo:
        n = todo.pop()
        if n not in reach:
            reach.append(n)
            todo += [x.name for x in rules[n].walk() if x.kind == "ref"]
    return reach


class C08(Prop):
    id = "C08"

    def case(self, src, rec):
        cfg = M.Cfg(empty_groups=60, wide=3, chain=2, depth=src.between(1, 3), width=src.between(2, 3), weights=15,
                    case=10, tags=30, tag_rep=True, unique=src.chance(40),
                    words=M.WORDS[:src.pick((13, 3))])
        rules, names = M.gen_rules(src, cfg)
        M.add_traps(src, rules, cfg)
        used = M.build_grammar(rules, names)
        for name in names:
            rec.show("%s = %s" % (name, M.show(rules[name])))
        history = []
        for step in range(src.between(1, 5)):
            name = names[0] if src.chance(70) else src.pick(names)
            speech = M.render_speech(src, M.gen_speech(src, rules[name], rules),
                                     case=True)
            op = src.weighted([(6, "matches"), (1, "find_matching_part"),
                               (1, "find_matching_rules"), (1, "get_tags_matching"),
                               (1, "expansion"), (1, "toggle"), (1, "generate"),
                               (1, "compile")])
            rule = used.get_rule_from_name(name)
            rec.show("%s.%s(%r)" % (name, op, speech))
            if op == "find_matching_part":
                rule.find_matching_part(speech)
            elif op == "find_matching_rules":
                used.find_matching_rules(speech)
            elif op == "expansion":
                rule.expansion.matches(speech)
            elif op == "toggle":
                used.disable_rule(name)
                check(not rule.matches(speech), "disabled", "a disabled rule matched")
                check(not rule.was_matched, "disabled", "was_matched if disabled")
                check_eq(rule.matched_tags, [], "disabled", "matched_tags if disabled")
                used.enable_rule(name)
            elif op == "generate":
                try:
                    rule.generate()
                except RecursionError:
                    pass
            elif op == "compile":
                used.compile()
            elif op == "get_tags_matching":
                rule.get_tags_matching(speech)
            else:
                rule.matches(speech)
            history.append((name, op, speech))

        if src.chance(20):
            self.last_part(src, rec, rules, names, used)
            return

        # The last match, compared with that of a fresh grammar.
        speech = M.render_speech(src, M.gen_speech(src, rules[names[0]], rules),
                                 case=True)
        rec.show("last: %s.matches(%r)" % (names[0], speech))
        fresh = M.build_grammar(rules, names)
        r1 = used.get_rule_from_name(names[0]).matches(speech)
        r2 = fresh.get_rule_from_name(names[0]).matches(speech)
        check_eq(used.get_rule_from_name(names[0]).was_matched, r1, "was_matched",
                 "was_matched after matches(%r)" % speech)
        check_eq(r1, r2, "result", "matches(%r) after earlier calls (fresh: expected)"
                 % speech)
        # Only rules the matched one uses have been reset by the match.
        reach = reached(rules, names[0])
        s1, s2 = snapshot(used, reach), snapshot(fresh, reach)
        for n in reach:
            check_eq(s1[n][1], s2[n][1], "tags", "matched tags of %s" % n)
            check_eq(s1[n][2], s2[n][2], "data", "match data of %s" % n)
        check_eq(s1[names[0]][0], s2[names[0]][0], "was_matched", "was_matched")
        # Matching the same thing again changes nothing.
        r3 = used.get_rule_from_name(names[0]).matches(speech)
        check_eq(r3, r1, "again", "second matches(%r)" % speech)
        check_eq(snapshot(used, reach), s1, "again-data", "match data after matching "
                 "again")
        rec.label("matched" if r2 else "not_matched")
        if r2 and speech.strip():
            rec.nontrivial([M.show(r) for r in rules.rules.values()] + [history, speech])

    def last_part(self, src, rec, rules, names, used):
        """The last call searches for a part of the speech."""
        rec.label("part")
        words = M.gen_speech(src, rules[names[0]], rules)
        for _ in range(src.below(3)):
            words.insert(src.pick((0, len(words))), src.pick(M.NOISE))
        speech = M.render_speech(src, words, case=True)
        rec.show("last: %s.find_matching_part(%r)" % (names[0], speech))
        fresh = M.build_grammar(rules, names)
        r1 = used.get_rule_from_name(names[0]).find_matching_part(speech)
        r2 = fresh.get_rule_from_name(names[0]).find_matching_part(speech)
        check_eq(r1, r2, "part", "find_matching_part(%r) after earlier calls" % speech)
        if not r2:
            return
        reach = reached(rules, names[0])
        s1, s2 = snapshot(used, reach), snapshot(fresh, reach)
        for n in reach:
            check_eq(s1[n], s2[n], "part-data", "match data of %s" % n)
        rec.nontrivial(rec.lines)


PROP = C08()
