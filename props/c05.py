"""
C05: matching decides the language of a rule.

Oracle: exhaustive position sets (``Lang.accepts``) give the language; a reference for
greedy left-to-right matching (``Lang.greedy_accepts``) gives the sentences that need
no backtracking.  Not in the language -> must not match; matched without backtracking
-> must match; between the two (documented unsupported, ambiguous) -> either.
"""
from .base import *


class C05(Prop):
    id = "C05"

    def case(self, src, rec):
        unique = src.chance(35)
        cfg = M.Cfg(empty_groups=60, wide=3, chain=2, depth=src.between(1, 3), width=src.between(2, 4), weights=25,
                    case=20, unique=unique, words=M.WORDS[:src.pick((13, 4, 2))])
        rules, names = M.gen_rules(src, cfg)
        M.add_traps(src, rules, cfg)
        objs = {}
        grammar = M.build_grammar(rules, names, objs)
        for name in names:
            rec.show("%s = %s" % (name, M.show(rules[name])))
        for _ in range(src.between(1, 4)):
            name = names[0] if src.chance(80) else src.pick(names)
            root = rules[name]
            words = M.gen_speech(src, root, rules)
            speech = M.render_speech(src, words, case=True)
            # Words as spoken, with their letter case.
            lang = M.Lang(rules, speech.split())
            in_lang, greedy = lang.accepts(root), lang.greedy_accepts(root)
            rec.show("%s.matches(%r) in_language=%s greedy=%s"
                     % (name, speech, in_lang, greedy))
            if greedy and not in_lang:
                raise HarnessError("greedy match outside of the language")
            rule = grammar.get_rule_from_name(name)
            if src.chance(85):
                got = rule.matches(speech)
                check(got is True or got is False, "type", "matches() returned %r", got)
            else:
                found = grammar.find_matching_rules(speech)
                got = any(r is rule for r in found)
                for other in names:
                    o = M.Lang(rules, speech.split())
                    r2 = grammar.get_rule_from_name(other)
                    hit = any(r is r2 for r in found)
                    if not o.accepts(rules[other]):
                        check(not hit, "unsound", "find_matching_rules(%r) returned "
                              "%s, which does not accept it", speech, other)
                    elif o.greedy_accepts(rules[other]):
                        check(hit, "incomplete", "find_matching_rules(%r) did not "
                              "return %s", speech, other)
            if not in_lang:
                check(not got, "unsound", "%s matched %r, which is not in its language",
                      name, speech)
                rec.label("reject")
            elif greedy:
                check(got, "incomplete", "%s did not match %r", name, speech)
                rec.label("accept")
            else:
                rec.label("ambiguous")
            if src.chance(30):
                check_eq(rule.was_matched, got, "was_matched",
                         "was_matched after matches(%r)" % speech)
            if words and in_lang:
                rec.nontrivial([M.show(r) for r in rules.rules.values()] + words)


PROP = C05()
