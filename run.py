#!/usr/bin/env python3
"""Decides one property:  run.py PROPERTY   (VERIF_SEED, VERIF_TIER from the environment)
   run.py --replay FILE    replays a saved case
   run.py --setup          builds everything the quick checks need

Exit 0: held on everything explored.  Exit 1 + VIOLATION line: broken.  Exit 2: error of the check.
"""
import glob
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

import vbuild
from checks import CHECKS

VERIF = os.path.dirname(os.path.abspath(__file__))
EVID = os.environ.get("VERIF_EVIDENCE", os.path.join(VERIF, "evidence"))
REPLAYS = os.path.join(EVID, "replays")
KNOWN = os.path.join(VERIF, "known-findings.txt")


class CheckError(Exception):
    pass


def known_findings(prop):
    """Lines `known: property=<id> case=<path> kind=<kind> <text>`; `fixed:` lines suppress nothing."""
    out = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            if not line.startswith("known: "):
                continue
            f = line.split(" ", 4)
            kv = dict(x.split("=", 1) for x in f[1:4])
            if kv["property"] == prop:
                out.append(dict(case=os.path.join(VERIF, kv["case"]), kind=kv["kind"], text=f[4]))
    return out


def harness(stage):
    """Builds the binary a stage needs and returns its path."""
    with vbuild.Lock():
        return vbuild.build(stage["bin"])


def header(path):
    for line in open(path, errors="replace"):
        if line.startswith("# bin "):
            return line.split()[2]
    return None


def replay_once(binary, prop, path, timeout=600):
    r = subprocess.run([binary, "--prop", prop, "--replay", path], capture_output=True, timeout=timeout)
    text = r.stdout.decode("utf-8", "replace").strip().splitlines()
    try:
        return r.returncode, json.loads(text[-1])
    except (IndexError, ValueError):
        return r.returncode, {}


def run_stage(prop, stage, seed, tier, work):
    binary = harness(stage)
    out = os.path.join(work, stage["bin"])
    os.makedirs(out)
    cap = stage.get("cap", 500 if tier == "quick" else 3000)
    cmd = [binary, "--prop", prop, "--seed", str(seed), "--cases", str(stage["cases"]), "--first", str(stage.get("first", 0)),
           "--out", out, "--time", str(cap), "--maxbad", "3"] + stage.get("args", [])
    r = subprocess.run(cmd, capture_output=True, timeout=cap + 400)
    if r.returncode not in (0, 1):
        raise CheckError("%s ended with %d: %s" % (" ".join(cmd), r.returncode, r.stderr.decode("utf-8", "replace")[-1500:]))
    summary = json.load(open(os.path.join(out, "summary.json")))
    rows, bad = [], []
    for w in sorted(glob.glob(os.path.join(out, "w*.txt"))):
        for line in open(w):
            f = line.split()
            if f and f[0] == "BAD":
                bad.append(f[1])
            elif f:
                rows.append(f)
    show = subprocess.run([binary, "--prop", prop, "--seed", str(seed), "--show", str(stage.get("first", 0))], capture_output=True)
    if not rows:
        raise CheckError("no case was run by " + " ".join(cmd))
    return dict(binary=binary, summary=summary, rows=rows, bad=sorted(bad), sample=show.stdout.decode("utf-8", "replace"))


def confirm(prop, stage, binary, raw, work, tier):
    """Replays a failing case three times, shrinks it, stores the replay file."""
    kinds = set()
    last = {}
    for _ in range(3):
        rc, j = replay_once(binary, prop, raw)
        if rc != 1:
            return None
        kinds.add(j.get("kind"))
        last = j
    small = os.path.join(work, "small.case")
    budget = 60 if tier == "quick" else 240
    try:
        r = subprocess.run([binary, "--prop", prop, "--shrink", raw, "--out", small, "--budget", str(budget)],
                           capture_output=True, timeout=budget + 200)
        if r.returncode == 0 and os.path.exists(small):
            rc, j = replay_once(binary, prop, small)
            if rc == 1 and j.get("kind") == last.get("kind"):
                raw, last = small, j
    except subprocess.TimeoutExpired:
        pass
    os.makedirs(REPLAYS, exist_ok=True)
    text = open(raw, errors="replace").read().rstrip("\n")
    name = "%s-%s-%s.case" % (prop, stage["bin"], os.path.basename(os.environ.get("VERIF_SEED", "1")))
    k = 0
    while os.path.exists(os.path.join(REPLAYS, name)):
        k += 1
        name = "%s-%s-%s.%d.case" % (prop, stage["bin"], os.environ.get("VERIF_SEED", "1"), k)
    path = os.path.join(REPLAYS, name)
    with open(path, "w") as f:
        f.write(text + "\n# bin %s\n# prop %s\n# %s: %s\n" % (stage["bin"], prop, last.get("kind"), " ".join(str(last.get("msg", "")).split())))
    return path, last


def run_property(prop):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    chk = CHECKS[prop]
    os.makedirs(EVID, exist_ok=True)
    for f in glob.glob(os.path.join(REPLAYS, prop + "-*.case")):
        os.unlink(f)
    work = tempfile.mkdtemp(prefix="verif-%s-" % prop)
    violations, evals, hashes, samples, totals, per, unconfirmed = [], 0, set(), [], {}, {}, 0
    known = known_findings(prop)
    try:
        for k in known:
            b = header(k["case"])
            with vbuild.Lock():
                binary = vbuild.build(b)
            rc, j = replay_once(binary, prop, k["case"])
            if rc == 1 and j.get("kind") == k["kind"]:
                print("KNOWN-FINDING: property=%s %s" % (prop, k["text"]))
            elif rc == 0:
                print("note: the listed finding no longer shows: %s" % k["text"])
            elif rc == 1:
                violations.append((k["case"], j))
            else:
                raise CheckError("known finding %s: replay ended with %d" % (k["case"], rc))
        for stage in chk["stages"][tier]:
            if violations and tier == "quick":
                break
            res = run_stage(prop, stage, seed, tier, work)
            evals += len(res["rows"])
            for f in res["rows"]:
                if f[5] == "1":
                    hashes.add(f[4])
            per[stage["bin"]] = res["summary"]
            for key, v in res["summary"].items():
                if isinstance(v, int):
                    totals[key] = totals.get(key, 0) + v
            if len(samples) < 2:
                samples.append(dict(harness=stage["bin"], case=res["sample"][:6000]))
            for raw in res["bad"]:
                c = confirm(prop, stage, res["binary"], raw, work, tier)
                if c:
                    violations.append(c)
                    break
                unconfirmed += 1
        if unconfirmed and not violations:
            raise CheckError("%d failing cases did not fail again on replay" % unconfirmed)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    for drop in ("cases", "nontrivial", "bad"):
        totals.pop(drop, None)
    cov = dict(evaluations=evals, distinct_nontrivial=len(hashes), rule=chk["rule"], samples=samples, measured=totals,
               per_harness={b: {k: v for k, v in s.items() if k in ("cases", "nontrivial", "domain", "wall")} for b, s in per.items()})
    ev = dict(property=prop, tier=tier, seed=seed, level=chk.get("level", "exploration"), coverage=cov, assumptions=chk.get("assumptions", []),
              wall_s=round(time.time() - t0, 2), violations=len(violations))
    with open(os.path.join(EVID, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    print("%s %s seed=%d: %d cases, %d distinct non-trivial, %.1f s" % (prop, tier, seed, evals, len(hashes), time.time() - t0))
    for path, j in violations:
        print("%s: %s" % (j.get("kind"), j.get("msg")))
        print("VIOLATION property=%s replay=%s" % (prop, path))
    return 1 if violations else 0


def main(argv):
    if argv[:1] == ["--setup"]:
        names = []
        for c in CHECKS.values():
            for s in c["stages"]["quick"]:
                if s["bin"] not in names:
                    names.append(s["bin"])
        with vbuild.Lock():
            for n in names:
                print(vbuild.build(n), flush=True)
        return 0
    if argv[:1] == ["--replay"]:
        b = header(argv[1])
        p = [l.split()[2] for l in open(argv[1], errors="replace") if l.startswith("# prop ")]
        with vbuild.Lock():
            binary = vbuild.build(b)
        rc, j = replay_once(binary, p[0] if p else "C01", argv[1])
        print(json.dumps(j))
        return rc
    if len(argv) != 1 or argv[0] not in CHECKS:
        print("usage: run.py PROPERTY | --replay FILE | --setup", file=sys.stderr)
        return 2
    return run_property(argv[0])


if __name__ == "__main__":
    try:
        sys.exit(main(sys.argv[1:]))
    except (CheckError, vbuild.BuildError, OSError, ValueError, subprocess.SubprocessError) as e:
        print("error: %s" % e, file=sys.stderr)
        sys.exit(2)
