"""
A small property-based testing engine.

* ``Src`` is a source of recorded choices (one int per choice, 0 is the simplest
  choice).  All generated data comes from it, so a case is a pure function of its
  choice list: replaying the list replays the case, shrinking the list shrinks the
  case (as in Hypothesis / minithesis).
* ``run_shard`` runs a fixed number of generated cases of a property, stops at the
  first violation, shrinks it and returns what it covered.

Nothing here reads the clock to decide whether a property holds, with one exception:
a case that uses more than ``HANG_CPU_S`` seconds of *CPU* time of its own process
(cases normally take milliseconds) is reported as not terminating.
"""
import hashlib
import os
import random
import signal
import sys
import time
import traceback

HANG_CPU_S = 40
REPO = "/repo"


class Violation(Exception):
    """The property does not hold on this case."""

    def __init__(self, key, message):
        super().__init__(message)
        self.key = key


class HarnessError(Exception):
    """The checking machinery itself is broken."""


class Hang(BaseException):
    pass


class Discard(Exception):
    """The case is outside the property's domain (counted)."""


class Src:
    def __init__(self, rng=None, choices=None):
        self.rng = rng
        self.forced = choices
        self.choices = []

    def below(self, n):
        """An int in [0, n)."""
        if n <= 1:
            return 0
        if self.forced is not None:
            i = len(self.choices)
            v = self.forced[i] if i < len(self.forced) else 0
            if v >= n:
                v = n - 1
        else:
            v = self.rng.randrange(n)
        self.choices.append(v)
        return v

    def chance(self, num, den=100):
        """True with probability num/den; False is the simplest outcome."""
        return self.below(den) >= den - num

    def pick(self, seq):
        return seq[self.below(len(seq))]

    def weighted(self, pairs):
        """pairs: [(weight, value)], the first value is the simplest."""
        total = sum(w for w, _ in pairs)
        x = self.below(total)
        for w, v in pairs:
            if x < w:
                return v
            x -= w
        raise HarnessError("weighted")

    def between(self, a, b):
        return a + self.below(b - a + 1)

    def shuffle(self, seq):
        seq = list(seq)
        out = []
        while seq:
            out.append(seq.pop(self.below(len(seq))))
        return out

    def subset(self, seq, num=50, den=100):
        return [x for x in seq if self.chance(num, den)]


class Rec:
    """What one case reports about itself."""

    def __init__(self):
        self.labels = []
        self.key = None
        self.lines = []

    def label(self, *names):
        self.labels.extend(names)

    def nontrivial(self, key):
        """Mark the case as non-trivial; key identifies it."""
        self.key = key

    def show(self, *args):
        self.lines.append(" ".join(str(a) for a in args))


def _jsgf_frames(tb):
    frames = traceback.extract_tb(tb)
    return [f for f in frames if f.filename.startswith(REPO + "/")]


def _innermost_is_machinery(tb):
    """Whether the innermost frame is generator/model code of this harness."""
    frames = traceback.extract_tb(tb)
    here = os.path.dirname(os.path.abspath(__file__))
    return bool(frames) and frames[-1].filename.startswith(here + os.sep) \
        and not _jsgf_frames(tb)


def _on_alarm(signum, frame):
    raise Hang()


def run_case(prop, src):
    """
    Run one case.  Returns (rec, failure) with failure None or (key, message, trace).
    """
    rec = Rec()
    signal.signal(signal.SIGVTALRM, _on_alarm)
    signal.setitimer(signal.ITIMER_VIRTUAL, HANG_CPU_S)
    try:
        try:
            prop.case(src, rec)
        finally:
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)
    except Violation as v:
        return rec, (v.key, str(v), "")
    except Discard:
        rec.label("discarded")
        rec.key = None
        return rec, None
    except Hang as h:
        if not _jsgf_frames(h.__traceback__):
            raise HarnessError("the harness did not terminate:\n%s"
                               % traceback.format_exc())
        return rec, ("hang", "did not terminate: used more than %d s of CPU time"
                     % HANG_CPU_S, traceback.format_exc())
    except (HarnessError, MemoryError):
        raise
    except Exception as e:
        if _innermost_is_machinery(e.__traceback__):
            raise
        return rec, ("exception:%s" % type(e).__name__,
                     "unexpected %s: %s" % (type(e).__name__, e),
                     traceback.format_exc())
    return rec, None


def shrink(prop, choices, key, budget=1500, wall_s=90):
    """Greedily simplify a failing choice list, keeping the same kind of failure."""
    best = list(choices)
    state = {"left": budget}
    end = time.monotonic() + wall_s
    seen = set()

    def fails(cand):
        t = tuple(cand)
        if t in seen or state["left"] <= 0 or time.monotonic() > end:
            return None
        seen.add(t)
        state["left"] -= 1
        src = Src(choices=cand)
        try:
            _, failure = run_case(prop, src)
        except Exception:
            return None
        if failure and failure[0] == key:
            used = src.choices
            while used and used[-1] == 0:
                used = used[:-1]
            return used
        return None

    def better(a, b):
        return (len(a), a) < (len(b), b)

    improved = True
    while improved and state["left"] > 0 and time.monotonic() < end:
        improved = False
        for size in (64, 16, 8, 4, 3, 2, 1):
            i = len(best) - size
            while i >= 0:
                r = fails(best[:i] + best[i + size:])
                if r is not None and better(r, best):
                    best = r
                    improved = True
                    i = min(i, len(best) - size)
                else:
                    i -= 1 if size <= 4 else size // 2
        for size in (8, 2):
            i = 0
            while i < len(best):
                if any(best[i:i + size]):
                    c = best[:i] + [0] * len(best[i:i + size]) + best[i + size:]
                    r = fails(c)
                    if r is not None and better(r, best):
                        best = r
                        improved = True
                i += size
        i = 0
        while i < len(best):
            for v in (0, best[i] // 2, best[i] - 1):
                if i < len(best) and 0 <= v < best[i]:
                    r = fails(best[:i] + [v] + best[i + 1:])
                    if r is not None and better(r, best):
                        best = r
                        improved = True
                        break
            i += 1
    return best


def seed_for(*parts):
    return int.from_bytes(
        hashlib.sha256("/".join(str(p) for p in parts).encode()).digest()[:8], "big")


def digest(key):
    if not isinstance(key, str):
        key = repr(key)
    return hashlib.sha1(key.encode("utf-8", "surrogatepass")).hexdigest()[:12]


def run_shard(prop, seed, shard, count, wall_s, n_samples=2):
    out = {"evaluations": 0, "discarded": 0, "keys": [], "labels": {}, "samples": [],
           "failure": None, "truncated": False}
    keys = set()
    end = time.monotonic() + wall_s
    for n in range(count):
        if n % 16 == 0 and time.monotonic() > end:
            out["truncated"] = True
            break
        rng = random.Random(seed_for(seed, prop.id, shard, n))
        src = Src(rng=rng)
        random.seed(0)
        rec, failure = run_case(prop, src)
        out["evaluations"] += 1
        for name in set(rec.labels):
            out["labels"][name] = out["labels"].get(name, 0) + 1
        if rec.key is not None:
            k = digest(rec.key)
            if k not in keys:
                keys.add(k)
                if len(out["samples"]) < n_samples and rec.lines and n > 5:
                    out["samples"].append("; ".join(rec.lines)[:1500])
        if failure:
            key = failure[0]
            choices = src.choices
            if key != "hang":
                choices = shrink(prop, choices, key)
            src = Src(choices=list(choices))
            rec2, failure2 = run_case(prop, src)
            if not failure2:
                # Not reproducible from its choices: report the original.
                rec2, failure2, choices = rec, failure, src.choices
            out["failure"] = {"key": failure2[0], "message": failure2[1],
                              "trace": failure2[2], "choices": list(choices),
                              "case": rec2.lines, "shard": shard, "n": n}
            break
    out["keys"] = sorted(keys)
    return out


def check(cond, key, message, *args):
    if not cond:
        raise Violation(key, message % args if args else message)


def check_eq(actual, expected, key, what):
    if actual != expected:
        raise Violation(key, "%s: got %r, expected %r" % (what, actual, expected))


def check_raises(excs, func, key, what):
    try:
        r = func()
    except excs:
        return
    raise Violation(key, "%s: expected %s, got result %r" % (
        what, getattr(excs, "__name__", excs), r))
