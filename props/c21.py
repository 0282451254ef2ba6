"""
C21: find_matching_part returns the first part of the speech that matches the rule.

Oracle: greedy matching by the model from every word on.
"""
from .base import *
import jsgf

# No vocabulary word occurs within these.
NOISE = ("yuk", "owl", "zip", "hum")


class C21(Prop):
    id = "C21"

    def case(self, src, rec):
        cfg = M.Cfg(wide=3, chain=2, depth=src.between(0, 3), width=3, weights=15, tags=10, case=20,
                    words=M.WORDS[:src.pick((4, 13))])
        rules, names = M.gen_rules(src, cfg)
        M.add_traps(src, rules, cfg)
        g = M.build_grammar(rules, names)
        for n in names:
            rec.show("%s = %s" % (n, rules[n]))
        name = names[0]
        n, r = rules[name], g.get_rule(name)
        # A rule that matches nothing has a matching part anywhere.
        if M.nullable(n, rules):
            raise Discard()
        for _ in range(src.between(1, 4)):
            words = []
            for _ in range(src.between(1, 3)):
                if src.chance(60):
                    words += M.gen_speech(src, n, rules, max_words=5)
                for _ in range(src.below(3)):
                    words.append(src.pick(NOISE))
                if src.chance(20):
                    words.append(src.pick(M.vocab_of(n, rules)))
            words = [src.pick((w, w, w, w.upper(), w.capitalize())) for w in words]
            lang = M.Lang(rules, words)
            want = None
            for i in range(len(words)):
                j = lang.greedy(n, i)
                if j is not None:
                    if j == i:
                        raise HarnessError("empty match of a rule that is not nullable")
                    want = " ".join(words[i:j])
                    break
            speech = M.render_speech(src, words)
            if src.chance(10):
                r.disable()
                check(r.find_matching_part(speech) is None, "disabled", "disabled rule")
                r.enable()
            got = r.find_matching_part(speech)
            rec.show("find_matching_part(%r) = %r" % (speech, got))
            check_eq(got, want, "part", "find_matching_part(%r)" % speech)
            if got is not None:
                # The part matches, and the rule's match data is about it (unless an
                # ambiguous rule doesn't match the part on its own).
                if M.Lang(rules, got.split()).greedy_accepts(n):
                    check_eq(norm(r.expansion.current_match or "").lower(), got.lower(),
                             "current_match", "current_match after find_matching_part")
                    check(r.matches(got), "matches", "%r does not match", got)
                rec.nontrivial(rec.lines)
                rec.label("found")
            else:
                rec.label("not found")


PROP = C21()
