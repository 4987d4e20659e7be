#!/usr/bin/env python3
"""Sensitivity survey: plants random one-token changes in a copy of the repository and
lists those no check notices.  A development tool; no check uses it.

   mutate.py WORKDIR SEED COUNT [path-regex]
"""
import os, random, re, subprocess, sys, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
work, seed, count = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
only = re.compile(sys.argv[4] if len(sys.argv) > 4 else ".")
repo = os.path.join(work, "repo")
os.environ["VERIF_REPO"] = repo
os.environ["VERIF_BUILD"] = os.path.join(work, "vb")
if not os.path.isdir(repo):
    subprocess.check_call(["git", "clone", "-q", os.environ.get("MUTATE_FROM", "/repo"), repo])
sys.path.insert(0, V)
import vbuild
from checks import CHECKS
vbuild.FLAGS = ["-O2", "-march=native", "-std=c++2a", "-DNDEBUG", "-w"]
rng = random.Random(seed)
files = [f for f in subprocess.check_output(["git", "-C", repo, "ls-files"], text=True).split("\n")
         if re.match(r"(back-end|MemSubSystem|front-end|diff|main\.cpp|rv_simu)", f) and f.endswith((".cpp", ".h"))
         and not re.search(r"fadd\.h|fmul\.h|BPU_configs|host_profile|stats|DeadlockDebug|train_IO|PerfCount|Perf\.cpp|config|oracle|wire_types|PeripheralAxi", f) and only.search(f)]
SKIP = re.compile(r"^\s*(//|\*|/\*|#)|[Aa]ssert|printf|perf|LOG|BE_|cout|cerr|debug|Debug|DEBUG|trace|dump|static_assert|constexpr|template|include|DPRINT|dbg|diag")
OPS = [(r"(?<![=!<>])==(?!=)", "!="), (r"!=", "=="), (r"&&", "||"), (r"\|\|", "&&"), (r"(?<=[\w\)\]]) < (?=[\w\(])", " <= "), (r" <= ", " < "), (r" > (?=[\w\(])", " >= "), (r" >= ", " > "),
       (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"\+ 1\b", "+ 2"), (r"- 1\b", "- 0"), (r"(?<=[\(\s&|])!(?=[\w\(])", ""), (r"0x[0-9A-Fa-f]{2,8}", "HEX"), (r"\bbreak;", ";"), (r"\bcontinue;", ";"),
       (r"^(\s*)[\w\.\->\[\]]+ (=|\|=|&=|\+=) [^;{}]*;\s*$", "DEL"), (r"&= ~", "|= "), (r"\bstd::min\b", "std::max"), (r" \| ", " & "), (r" & (?=[\w\(])", " | "), (r" \+ ", " - "), (r" << ", " >> ")]


def candidates():
    out = []
    for f in files:
        lines = open(os.path.join(repo, f), errors="surrogateescape").read().split("\n")
        for n, l in enumerate(lines):
            code = l.split("//")[0]
            if SKIP.search(l) or not code.strip():
                continue
            for k, (pat, rep) in enumerate(OPS):
                for m in re.finditer(pat, code):
                    out.append((f, n, k, m.start(), m.end()))
    return out


def mutate(c):
    f, n, k, a, b = c
    p = os.path.join(repo, f)
    t = open(p, errors="surrogateescape").read().split("\n")
    l = t[n]
    rep = OPS[k][1]
    if rep == "HEX":
        v = int(l[a:b], 16)
        rep = "0x%x" % (v ^ (1 << rng.randrange(max(1, v.bit_length()))))
    if rep == "DEL":
        rep = ";"
    t[n] = l[:a] + rep + l[b:]
    open(p, "w", errors="surrogateescape").write("\n".join(t))
    return l.strip(), t[n].strip()


def plan(f):
    if f.startswith("diff/ref"):
        return [(p, "ref", 20000) for p in ("R01", "R02", "R03", "R04", "R05", "R06")]
    if f.startswith("diff/") or f == "main.cpp":
        return [("D01", "diff", 1500), ("D02", "diff", 1500), ("X01", "main", 200), ("X02", "main", 60), ("X03", "main", 250)]
    core = [("C10", "be", 500), ("C03", "be", 1200), ("C02", "be", 500), ("C05", "be", 700), ("C06", "be", 700), ("C04", "be", 500), ("C07", "be", 900), ("C09", "be", 900), ("C12", "be", 1200), ("C01", "be", 1500), ("C11", "be", 1500), ("C08", "be", 300), ("T01", "be", 800), ("T03", "be", 300)]
    full = [("C08", "full", 200), ("C10", "full", 250), ("C02", "full", 200), ("C05", "full", 200), ("C07", "full", 200), ("T02", "full", 200), ("T03", "full", 120)]
    if "BPU" in f:
        return [("T02", "full", 300), ("C02", "full", 60), ("P02", "full", 20)]
    if f.startswith("front-end"):
        return full
    return core + full + [("X02", "main", 60)] if "BackTop" in f or "rv_simu" in f else core + full


all_ = candidates()
print(len(files), "files,", len(all_), "places", flush=True)
by = {}
for c in all_:
    by.setdefault(c[0], []).append(c)
done = 0
killed = 0
while done < count:
    f = rng.choices(list(by), weights=[min(len(x), 400) for x in by.values()])[0]
    c = rng.choice(by[f])
    subprocess.check_call(["git", "-C", repo, "checkout", "-q", "--", "."])
    old, new = mutate(c)
    vbuild._cache.clear()
    how = None
    for prop, b, n in plan(f):
        try:
            binary = vbuild.build(b)
        except vbuild.BuildError:
            how = "build"
            break
        out = os.path.join(work, "out")
        shutil.rmtree(out, ignore_errors=True)
        r = subprocess.run([binary, "--prop", prop, "--seed", "7", "--cases", str(n), "--out", out, "--time", "120", "--maxbad", "1", "--jobs", os.environ.get("J", "5")], capture_output=True)
        if r.returncode:
            how = prop + "/" + b
            break
    if how == "build":
        continue
    done += 1
    killed += how is not None
    print("%s %s:%d\n   - %s\n   + %s" % ("caught by " + how if how else "SURVIVED", f, c[1] + 1, old, new), flush=True)
subprocess.check_call(["git", "-C", repo, "checkout", "-q", "--", "."])
print("caught %d of %d" % (killed, done))
