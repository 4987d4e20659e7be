#!/usr/bin/env python3
"""Helper for planting bugs: works on a scratch copy of /repo, never on /repo itself.
   mkseed.py ID PROPERTY FILE OLD NEW NEEDS BREAKS [--bin B]   (OLD must occur exactly once)
Runs the property's quick check on the changed copy and, when it reports a violation, writes
seeded/ID with the patch, the shrunk case, a self-contained demo and meta.json."""
import json, os, re, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
COPY, VB, VE = "/tmp/rs", "/tmp/vb", "/tmp/ve"
SRC = os.environ.get("SEED_FROM", "/repo")

DEMO = r'''#!/bin/bash
# Builds the simulator from the current directory with the harness beside this file and runs one
# program on it, comparing every committed instruction with an independent model. Exit 0: correct.
here=$(cd "$(dirname "$0")" && pwd)
work=$(mktemp -d) || exit 2
trap 'rm -rf "$work"' EXIT
kit=$here/kit
synth=@SYNTH@
profile=@PROFILE@
more="@MORE@"
for d in back-end MemSubSystem front-end include libs diff rv_simu_mmu_v2.cpp; do cp -r "$PWD/$d" "$work/" || exit 2; done
cd "$work"
if [ -n "$profile" ]; then
  cp include/config.h.$profile include/config.h && cp front-end/config/frontend_feature_config.h.$profile front-end/config/frontend_feature_config.h || exit 2
fi
flags="-O1 -march=native -std=c++2a -DNDEBUG -w -I$kit/standin $more"
for d in include libs/include back-end/include back-end/Exu/include back-end/Lsu/include MemSubSystem/include diff/include front-end .; do flags="$flags -I$work/$d"; done
dirs="back-end MemSubSystem"
if [ $synth = 1 ]; then flags="$flags -DVERIF_SYNTH_FRONT"; else dirs="$dirs front-end"; fi
{ find $dirs -name '*.cpp'; @EXTRA@echo rv_simu_mmu_v2.cpp; echo "$kit/standin/AXI_Interconnect.cpp"; echo "$kit/sys/sysfuzz.cpp"; } |
  xargs -P 8 -I{} sh -c 'f={}; g++ '"$flags"' $([ "$f" = main.cpp ] && echo -Dmain=vp_sim_main) -I"$(dirname "$f")" -c "$f" -o "'"$work"'/$(echo "$f" | tr / _).o" || exit 255' || exit 2
g++ "$work"/*.o @WRAP@libs/softfloat.a -lz -o "$work/sim" || exit 2
"$work/sim" --prop @PROP@ --replay "$here/case"
'''

REFDEMO = r'''#!/bin/bash
# Builds the reference interpreter of the current directory with the harness beside this file and
# runs one program on it, comparing every step with an independent model. Exit 0: correct.
here=$(cd "$(dirname "$0")" && pwd)
work=$(mktemp -d) || exit 2
trap 'rm -rf "$work"' EXIT
kit=$here/kit
for d in back-end MemSubSystem front-end include libs diff; do cp -r "$PWD/$d" "$work/" || exit 2; done
cd "$work"
flags="@FLAGS@ -w -I$work/diff/include -I$kit/standin"
for d in include libs/include back-end/include back-end/Exu/include back-end/Lsu/include MemSubSystem/include diff/include front-end .; do flags="$flags -I$work/$d"; done
@CXX@ $flags diff/ref.cpp "$kit/ref/reffuzz.cpp" libs/softfloat.a -lz -o "$work/sim" || exit 2
"$work/sim" --prop @PROP@ --replay "$here/case"
'''

UNITDEMO = r'''#!/bin/bash
# Builds modules of the current directory with the harness beside this file and replays one
# sequence of operations on them, compared with an independent model. Exit 0: correct.
here=$(cd "$(dirname "$0")" && pwd)
work=$(mktemp -d) || exit 2
trap 'rm -rf "$work"' EXIT
kit=$here/kit
for d in back-end MemSubSystem front-end include libs diff; do cp -r "$PWD/$d" "$work/" || exit 2; done
cd "$work"
flags="-O1 -march=native -std=c++2a -DNDEBUG -w -I$kit/standin"
for d in include libs/include back-end/include back-end/Exu/include back-end/Lsu/include MemSubSystem/include diff/include front-end .; do flags="$flags -I$work/$d"; done
g++ $flags "$kit/unit/@UNIT@.cpp" @SRCS@libs/softfloat.a -lz -o "$work/sim" || exit 2
"$work/sim" --prop @PROP@ --replay "$here/case"
'''
UNITS = {"fu": ("fufuzz", ""), "front": ("frontfuzz", "front-end/fifo/*.cpp front-end/predecode*.cpp "), "front-large": ("frontfuzz", "front-end/fifo/*.cpp front-end/predecode*.cpp ")}

def sh(*a, **k):
    return subprocess.run(a, check=True, **k)

def reset():
    if not os.path.isdir(COPY):
        sh("git", "clone", "-q", SRC, COPY)
    sh("git", "-C", COPY, "fetch", "-q", SRC)
    sh("git", "-C", COPY, "reset", "-q", "--hard", subprocess.check_output(["git", "-C", SRC, "rev-parse", "HEAD"], text=True).strip())

def kit(dst, dirs=("golden", "sys", "standin")):
    for d in dirs:
        shutil.copytree(os.path.join(V, d), os.path.join(dst, "kit", d))

def main(a):
    ident, prop, file, old, new, needs, breaks = a[:7]
    tier = "quick"
    reset()
    p = os.path.join(COPY, file)
    s = open(p, encoding="utf-8").read()
    if s.count(old) != 1:
        print(ident, "OLD occurs", s.count(old), "times"); return 2
    open(p, "w", encoding="utf-8").write(s.replace(old, new))
    diff = subprocess.check_output(["git", "-C", COPY, "diff"])
    env = dict(os.environ, VERIF_REPO=COPY, VERIF_BUILD=VB, VERIF_EVIDENCE=VE, VERIF_SEED=os.environ.get("VERIF_SEED", "1"), VERIF_TIER=tier)
    r = subprocess.run([sys.executable, os.path.join(V, "run.py"), prop], env=env, capture_output=True, text=True)
    out = r.stdout.strip().splitlines()
    m = re.search(r"VIOLATION property=\S+ replay=(\S+)", r.stdout)
    print(ident, prop, "exit", r.returncode, "|", (out[-2] if m else (out[-1] if out else r.stderr[-800:]))[:260])
    d = os.path.join(V, "seeded", ident)
    if os.path.isdir(d):
        shutil.rmtree(d)
    os.makedirs(d)
    open(os.path.join(d, "patch.diff"), "wb").write(diff)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(os.path.join(d, "meta.json"), "w"), indent=1)
    if m:
        case = m.group(1)
        b = [l.split()[2] for l in open(case) if l.startswith("# bin ")][0]
        shutil.copy(case, os.path.join(d, "case"))
        demo = None
        if b.startswith("ref"):
            kit(d, ("golden", "standin", "common", "ref"))
            os.makedirs(os.path.join(d, "kit", "sys"))
            shutil.copy(os.path.join(V, "sys", "profiles.h"), os.path.join(d, "kit", "sys"))
            san = b.endswith("-san")
            demo = REFDEMO.replace("@CXX@", "clang++" if san else "g++").replace("@PROP@", prop).replace("@FLAGS@",
                "-O1 -march=native -std=c++20 -fsanitize=address,undefined -fno-sanitize-recover=undefined" if san else "-O1 -march=native -std=c++2a -DNDEBUG")
        if b.split("-")[0] in ("be", "full", "medium", "large", "default"):
            kit(d)
            demo = (DEMO.replace("@SYNTH@", "1" if b.startswith("be") else "0").replace("@PROP@", prop).replace("@PROFILE@", b[3:] if b.startswith("be-") else "" if b in ("be", "full") else b))
        if b in UNITS:
            kit(d, ("golden", "standin", "common", "unit"))
            os.makedirs(os.path.join(d, "kit", "sys"))
            shutil.copy(os.path.join(V, "sys", "profiles.h"), os.path.join(d, "kit", "sys"))
            demo = UNITDEMO.replace("@UNIT@", UNITS[b][0]).replace("@SRCS@", UNITS[b][1]).replace("@PROP@", prop)
        if b == "diff":
            kit(d)
            demo = DEMO.replace("@SYNTH@", "1").replace("@PROP@", prop).replace("@PROFILE@", "")
        if b.startswith("main"):
            kit(d)
            demo = DEMO.replace("@SYNTH@", "0").replace("@PROP@", prop).replace("@PROFILE@", "").replace("libs diff rv_simu", "libs diff main.cpp rv_simu")
        if demo:
            df = b in ("diff", "main", "main-oracle")
            if b == "main-oracle":
                demo = demo.replace("dirs=\"back-end", "sed -i 's|^#define CONFIG_BPU$||' include/config.h\ndirs=\"back-end").replace("$([ \"$f\" = main.cpp ]", "$([ \"$f\" = diff/br_oracle.cpp ] && echo -Drefcpu_init=refcpu_init_oracle) $([ \"$f\" = main.cpp ]")
            demo = demo.replace("@MORE@", "-DVERIF_DIFF -DVERIF_MAIN" + (" -DVERIF_ORACLE" if b == "main-oracle" else "") if b.startswith("main") else "-DVERIF_DIFF" if df else "").replace("@EXTRA@", ('echo main.cpp; ' if b.startswith("main") else '') + ('echo diff/br_oracle.cpp; ' if b == "main-oracle" else '') + 'echo diff/diff.cpp; echo diff/ref.cpp; echo "$kit/standin/refcpu_shim.cpp"; ' if df else "")
            demo = demo.replace("@WRAP@", "-Wl,--wrap=_Z13difftest_stepb,--wrap=_Z22difftest_sync_from_duth,--wrap=exit,--wrap=abort " if df else "")
            open(os.path.join(d, "demo.sh"), "w").write(demo)
            os.chmod(os.path.join(d, "demo.sh"), 0o755)
            if os.environ.get("VERIFY_DEMO", "1") == "1":
                bad = subprocess.run(["bash", os.path.join(d, "demo.sh")], cwd=COPY, capture_output=True).returncode
                reset()
                good = subprocess.run(["bash", os.path.join(d, "demo.sh")], cwd=COPY, capture_output=True).returncode
                print("  demo: changed", bad, "unchanged", good)
    reset()
    return 0

sys.exit(main(sys.argv[1:]))
