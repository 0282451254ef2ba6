#!/usr/bin/env python3
"""
usage: check.py PROPERTY [--tier quick|thorough] [--replay FILE] [--count N]

Runs the generated cases of one property against /repo's working tree.
"""
import importlib
import json
import os
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/venv/bin/python"
REPO = "/repo"
SHARDS = 8


def clean_env():
    env = dict(os.environ)
    env["PYTHONHASHSEED"] = "0"
    env["PYTHONDONTWRITEBYTECODE"] = "1"
    env["PYTHONPYCACHEPREFIX"] = os.path.join(HERE, "evidence", "no-pycache")
    env["PYTHONPATH"] = ""
    env["PYTHONWARNINGS"] = "ignore"
    env["PYTHONIOENCODING"] = "utf-8"
    env["PYTHONUTF8"] = "1"
    env["VERIF_CHILD"] = "1"
    return env


def load(pid):
    sys.path.insert(0, HERE)
    sys.path.insert(0, REPO)
    import jsgf
    if not os.path.abspath(jsgf.__file__).startswith(REPO + "/"):
        raise SystemExit("jsgf was not imported from %s: %s" % (REPO, jsgf.__file__))
    sys.setrecursionlimit(3000)
    mod = importlib.import_module("props.%s" % pid.lower())
    return mod.PROP


def read_known(pid):
    path = os.path.join(HERE, "known_findings.json")
    with open(path) as f:
        data = json.load(f)
    return [k for k in data["known"] if k["property"] == pid]


def child(pid, argv):
    prop = load(pid)
    from vlib import engine
    opts = dict(zip(argv[::2], argv[1::2]))
    if "--shard" in opts:
        out = engine.run_shard(prop, int(opts["--seed"]), int(opts["--shard"]),
                               int(opts["--count"]), float(opts["--wall"]))
        with open(opts["--out"], "w") as f:
            json.dump(out, f)
        return 0
    if "--known" in opts:
        # Try each listed finding's own input again.
        still = []
        for k in read_known(pid):
            if prop.known(k["id"]):
                still.append(k["id"])
        with open(opts["--out"], "w") as f:
            json.dump(still, f)
        return 0
    if "--replay" in opts:
        with open(opts["--replay"]) as f:
            rep = json.load(f)
        rec, failure = engine.run_case(prop, engine.Src(choices=rep["choices"]))
        for line in rec.lines:
            print(line)
        if failure:
            print(failure[1])
            print(failure[2])
            print("VIOLATION property=%s replay=%s" % (pid, opts["--replay"]))
            return 1
        print("no violation")
        return 0
    raise SystemExit("bad arguments")


def main():
    args = sys.argv[1:]
    pid = args[0]
    if os.environ.get("VERIF_CHILD"):
        sys.exit(child(pid, args[1:]))

    opts = dict(zip(args[1::2], args[2::2]))
    tier = opts.get("--tier") or os.environ.get("VERIF_TIER") or "quick"
    seed = int(os.environ.get("VERIF_SEED") or "1")
    me = [PY, "-B", os.path.join(HERE, "check.py"), pid]
    if "--replay" in opts:
        sys.exit(subprocess.call(me + ["--replay", opts["--replay"]], env=clean_env()))

    t0 = time.time()
    evdir = os.path.join(HERE, "evidence")
    work = os.path.join(evdir, "work-%s-%d" % (pid, os.getpid()))
    os.makedirs(work, exist_ok=True)
    rc = 2
    try:
        rc = run(pid, tier, seed, opts, me, evdir, work, t0)
    finally:
        for name in os.listdir(work):
            os.unlink(os.path.join(work, name))
        os.rmdir(work)
    sys.exit(rc)


def run(pid, tier, seed, opts, me, evdir, work, t0):
    sys.path.insert(0, HERE)
    from props_meta import META
    meta = META[pid]
    total = int(opts.get("--count") or meta[tier])
    wall = 420 if tier == "quick" else 3 * 3600
    procs = []
    for i in range(SHARDS):
        count = total // SHARDS + (1 if i < total % SHARDS else 0)
        out = os.path.join(work, "shard%d.json" % i)
        procs.append((out, subprocess.Popen(
            me + ["--shard", str(i), "--seed", str(seed), "--count", str(count),
                  "--wall", str(wall), "--out", out],
            env=clean_env(), stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)))
    kout = os.path.join(work, "known.json")
    kproc = subprocess.Popen(me + ["--known", "1", "--out", kout], env=clean_env(),
                             stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)
    results, errors = [], []
    for out, p in procs + [(kout, kproc)]:
        _, err = p.communicate()
        if p.returncode != 0:
            errors.append("%s exited with %d\n%s" % (
                os.path.basename(out), p.returncode,
                err.decode("utf-8", "replace")[-4000:]))
        else:
            with open(out) as f:
                results.append(json.load(f))
    still = []
    if not errors:
        still = results.pop()
    else:
        results = [r for r in results if isinstance(r, dict)]
    known = {k["id"]: k for k in read_known(pid)}

    keys, labels, samples = set(), {}, []
    for r in results:
        keys.update(r["keys"])
        for k, v in r["labels"].items():
            labels[k] = labels.get(k, 0) + v
    for i in range(2):
        for r in results:
            if i < len(r["samples"]) and len(samples) < 6:
                samples.append(r["samples"][i])
    failures = [r["failure"] for r in results if r["failure"]]
    evidence = {
        "property": pid, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": sum(r["evaluations"] for r in results),
            "distinct_nontrivial": len(keys),
            "rule": meta["rule"],
            "samples": samples or ["(no sample)"],
            "classes": dict(sorted(labels.items())),
            "stopped_early": any(r["truncated"] for r in results),
            "known_findings_reproduced": still,
        },
        "assumptions": meta.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(failures),
    }
    tmp = os.path.join(evdir, "%s.json.tmp" % pid)
    with open(tmp, "w") as f:
        json.dump(evidence, f, indent=1)
    os.replace(tmp, os.path.join(evdir, "%s.json" % pid))

    for kid in still:
        print("KNOWN-FINDING: property=%s %s" % (pid, known[kid]["what"]))
    if failures:
        # The simplest one first.
        failures.sort(key=lambda f: (f["key"] == "hang", len(f["choices"]),
                                     f["choices"]))
        f = failures[0]
        rdir = os.path.join(evdir, "replays")
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, "%s-%d-%d-%d.json" % (pid, seed, f["shard"], f["n"]))
        with open(path, "w") as fh:
            json.dump(dict(f, property=pid, seed=seed), fh, indent=1)
        for line in f["case"]:
            print("  " + line)
        print("  " + f["message"])
        if f["trace"]:
            lines = f["trace"].splitlines()
            print("\n".join(lines if len(lines) < 30 else
                            lines[:16] + ["    ..."] + lines[-10:]))
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    if errors:
        print("\n".join(errors))
        return 2
    print("%s: held on %d cases (%d distinct non-trivial), %.1f s" % (
        pid, evidence["coverage"]["evaluations"], len(keys), time.time() - t0))
    return 0


if __name__ == "__main__":
    main()
