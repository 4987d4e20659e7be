"""Incremental build of /repo's current working tree into /verif/build.

An object is rebuilt when the content of its source, of any header it included
last time, or its command line changed; modification times are not used.
"""
import concurrent.futures as cf
import fcntl
import hashlib
import json
import os
import re
import subprocess
import sys

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
COPY_DIRS = ["back-end", "MemSubSystem", "front-end", "include", "libs", "diff"]
COPY_FILES = ["rv_simu_mmu_v2.cpp", "main.cpp"]
INC = ["include", "libs/include", "back-end/include", "back-end/Exu/include",
       "back-end/Lsu/include", "MemSubSystem/include", "diff/include", "front-end", "."]
_cache = {}


class BuildError(Exception):
    pass


def content_hash(path):
    h = _cache.get(path)
    if h is None:
        try:
            with open(path, "rb") as f:
                h = hashlib.sha1(f.read()).hexdigest()
        except OSError:
            h = "-"
        _cache[path] = h
    return h


def write_if_changed(path, data):
    try:
        with open(path, "rb") as f:
            if f.read() == data:
                return
    except OSError:
        pass
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "wb") as f:
        f.write(data)
    _cache.pop(path, None)


# ---- variants: how the copied configuration differs from the committed one
def _no_bpu(text):
    return re.sub(r"(?m)^(\s*)#define\s+CONFIG_BPU\b.*$", r"\1// front end replaced by the generator", text)


def _profile(name):
    def f(src):
        pairs = [("include/config.h", "include/config.h." + name),
                 ("front-end/config/frontend_feature_config.h", "front-end/config/frontend_feature_config.h." + name)]
        for dst, frm in pairs:
            with open(os.path.join(REPO, frm), "rb") as fh:
                write_if_changed(os.path.join(src, dst), fh.read())
    return f


def _edit(path, fn):
    def f(src):
        p = os.path.join(src, path)
        with open(p, encoding="utf-8", errors="surrogateescape") as fh:
            t = fh.read()
        write_if_changed(p, fn(t).encode("utf-8", "surrogateescape"))
    return f


VARIANTS = {
    "full": [],
    "be": [],
    "medium": [_profile("medium")],
    "large": [_profile("large")],
    "default": [_profile("default")],
    "be-default": [_profile("default")],
    "be-large": [_profile("large")],
    "be-medium": [_profile("medium")],
    "oracle": [_edit("include/config.h", _no_bpu)],
}


def sync_tree(variant):
    src = os.path.join(BUILD, "src-" + variant)
    want = {}
    for d in COPY_DIRS:
        for root, dirs, files in os.walk(os.path.join(REPO, d)):
            dirs[:] = [x for x in dirs if not x.startswith(".")]
            for f in files:
                p = os.path.join(root, f)
                want[os.path.relpath(p, REPO)] = p
    for f in COPY_FILES:
        want[f] = os.path.join(REPO, f)
    edits = VARIANTS[variant]
    overlay = {}
    if edits:
        # compute edited files first in a staging area so unchanged results do not churn
        stage = os.path.join(BUILD, "stage-" + variant)
        for rel in ("include/config.h", "front-end/config/frontend_feature_config.h"):
            with open(want[rel], "rb") as fh:
                write_if_changed(os.path.join(stage, rel), fh.read())
        for e in edits:
            e(stage)
        for rel in ("include/config.h", "front-end/config/frontend_feature_config.h"):
            overlay[rel] = os.path.join(stage, rel)
    for rel, p in want.items():
        with open(overlay.get(rel, p), "rb") as fh:
            write_if_changed(os.path.join(src, rel), fh.read())
    for root, _, files in os.walk(src):
        for f in files:
            rel = os.path.relpath(os.path.join(root, f), src)
            if rel not in want:
                os.unlink(os.path.join(root, f))
    return src


def compile_all(jobs):
    """jobs: list of (source, object, cmd list). Returns objects; raises BuildError."""
    todo = []
    for src, obj, cmd in jobs:
        meta = obj + ".json"
        ok = False
        if os.path.exists(obj) and os.path.exists(meta):
            try:
                m = json.load(open(meta))
                ok = m["cmd"] == cmd and all(content_hash(p) == h for p, h in m["deps"].items())
            except (ValueError, KeyError):
                ok = False
        if not ok:
            todo.append((src, obj, cmd))

    def one(j):
        src, obj, cmd = j
        os.makedirs(os.path.dirname(obj), exist_ok=True)
        dep = obj + ".d"
        r = subprocess.run(cmd + ["-MD", "-MF", dep, "-c", src, "-o", obj], capture_output=True, text=True)
        if r.returncode:
            return src + "\n" + r.stderr[-4000:]
        t = open(dep).read().replace("\\\n", " ")
        deps = t.split(":", 1)[1].split()
        deps = [d for d in deps if not d.startswith("/usr/")]
        json.dump({"cmd": cmd, "deps": {d: content_hash(d) for d in deps}}, open(obj + ".json", "w"))
        return None

    with cf.ThreadPoolExecutor(max_workers=min(8, os.cpu_count() or 4)) as ex:
        errs = [e for e in ex.map(one, todo) if e]
    if errs:
        raise BuildError("\n".join(errs[:3]))
    return [o for _, o, _ in jobs], bool(todo)


def link(out, objs, flags, cxx="g++"):
    key = hashlib.sha1(("%s|%s|" % (cxx, flags) + "|".join(o + content_hash(o) for o in objs)).encode()).hexdigest()
    kf = out + ".key"
    if os.path.exists(out) and os.path.exists(kf) and open(kf).read() == key:
        return out
    os.makedirs(os.path.dirname(out), exist_ok=True)
    r = subprocess.run([cxx] + objs + flags + ["-o", out], capture_output=True, text=True)
    if r.returncode:
        raise BuildError("link %s\n%s" % (out, r.stderr[-4000:]))
    open(kf, "w").write(key)
    return out


FLAGS = ["-O3", "-march=native", "-funroll-loops", "-std=c++2a", "-DNDEBUG", "-w"]


def includes(src):
    return ["-I" + os.path.join(VERIF, "standin")] + ["-I" + os.path.join(src, d) for d in INC]


def core_objects(variant, extra=(), flags=None, cxx="g++", tag=""):
    """Every translation unit of the simulator except main.cpp and diff/."""
    src = sync_tree(variant)
    fl = list(flags or FLAGS) + list(extra)
    od = os.path.join(BUILD, "obj-" + variant + tag)
    jobs = []
    synth = variant.startswith("be")
    if synth:
        fl.append("-DVERIF_SYNTH_FRONT")
    for d in ("back-end", "MemSubSystem") + (() if synth else ("front-end",)):
        for root, _, files in sorted(os.walk(os.path.join(src, d))):
            for f in sorted(files):
                if f.endswith(".cpp"):
                    p = os.path.join(root, f)
                    rel = os.path.relpath(p, src)
                    jobs.append((p, os.path.join(od, rel[:-4] + ".o"), [cxx] + fl + ["-I" + root] + includes(src)))
    p = os.path.join(src, "rv_simu_mmu_v2.cpp")
    jobs.append((p, os.path.join(od, "rv_simu_mmu_v2.o"), [cxx] + fl + includes(src)))
    p = os.path.join(VERIF, "standin", "AXI_Interconnect.cpp")
    jobs.append((p, os.path.join(od, "axi.o"), [cxx] + fl + includes(src)))
    return src, od, jobs, fl


def build_sys(variant, extra=(), tag=""):
    src, od, jobs, fl = core_objects(variant, extra, tag=tag)
    h = os.path.join(VERIF, "sys", "sysfuzz.cpp")
    jobs = jobs + [(h, os.path.join(od, "sysfuzz.o"), ["g++"] + fl + includes(src))]
    objs, _ = compile_all(jobs)
    for o in objs:
        _cache.pop(o, None)
    return link(os.path.join(BUILD, "bin", "sysfuzz-" + variant + tag), objs, [os.path.join(src, "libs", "softfloat.a"), "-lz"])


class Lock:
    def __enter__(self):
        os.makedirs(BUILD, exist_ok=True)
        self.f = open(os.path.join(BUILD, ".lock"), "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def build(name):
    return BUILDERS[name]() if name in BUILDERS else build_sys(name)


def build_ref(san=False):
    """The reference interpreter alone (diff/ref.cpp) with its harness."""
    src = sync_tree("full")
    tag = "-san" if san else ""
    od = os.path.join(BUILD, "obj-ref" + tag)
    fl = SAN if san else FLAGS
    cxx = "clang++" if san else "g++"
    fl = fl + ["-I" + os.path.join(src, "diff", "include")]
    objs, _ = compile_all([
        (os.path.join(src, "diff", "ref.cpp"), os.path.join(od, "ref.o"), [cxx] + fl + includes(src)),
        (os.path.join(VERIF, "ref", "reffuzz.cpp"), os.path.join(od, "reffuzz.o"), [cxx] + fl + includes(src))])
    for o in objs:
        _cache.pop(o, None)
    lf = [os.path.join(src, "libs", "softfloat.a"), "-lz"]
    return link(os.path.join(BUILD, "bin", "reffuzz" + tag), objs, lf + (["-fsanitize=address,undefined"] if san else []), cxx=cxx)


def build_unit(name, part=None, variant="full", tag=""):
    """A module harness unit/<name>.cpp over the repository's headers and, as a library, the sources of one part of it."""
    src = sync_tree(variant)
    od = os.path.join(BUILD, "obj-unit" + tag)
    jobs = [(os.path.join(VERIF, "unit", name + ".cpp"), os.path.join(od, name + ".o"), ["g++"] + UNIT + includes(src))]
    for root, _, files in sorted(os.walk(os.path.join(src, part))) if part else ():
        for f in sorted(files):
            if f.endswith(".cpp"):
                p = os.path.join(root, f)
                jobs.append((p, os.path.join(od, os.path.relpath(p, src)[:-4] + ".o"), ["g++"] + UNIT + ["-I" + root] + includes(src)))
    objs, _ = compile_all(jobs)
    for o in objs:
        _cache.pop(o, None)
    if part:
        lib = os.path.join(od, "lib%s.a" % part)
        if os.path.exists(lib):
            os.unlink(lib)
        r = subprocess.run(["ar", "rcsD", lib] + objs[1:], capture_output=True, text=True)
        if r.returncode:
            raise BuildError("ar %s\n%s" % (lib, r.stderr[-2000:]))
        objs = [objs[0], lib]
        _cache.pop(lib, None)
    return link(os.path.join(BUILD, "bin", name + tag), objs, [os.path.join(src, "libs", "softfloat.a"), "-lz"])


UNIT = ["-O2", "-march=native", "-std=c++2a", "-DNDEBUG", "-w"]
SAN = ["-O1", "-g", "-march=native", "-std=c++20", "-w", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-fno-omit-frame-pointer"]
def build_diff(variant="be", main=False, name="sysfuzz-diff", oracle=False):
    """The simulator with its own checker (diff/diff.cpp over diff/ref.cpp); optionally started through main.cpp."""
    src, od, jobs, fl = core_objects(variant, ["-DVERIF_DIFF"] + (["-DVERIF_MAIN"] if main else []) + (["-DVERIF_ORACLE"] if oracle else []), tag="-main" if main else "-diff")
    if main:
        jobs.append((os.path.join(src, "main.cpp"), os.path.join(od, "main.o"), ["g++"] + fl + ["-Dmain=vp_sim_main"] + includes(src)))
    jobs = jobs + [(os.path.join(VERIF, "sys", "sysfuzz.cpp"), os.path.join(od, "sysfuzz.o"), ["g++"] + fl + includes(src)),
                   (os.path.join(VERIF, "standin", "refcpu_shim.cpp"), os.path.join(od, "shim.o"), ["g++"] + fl + includes(src))]
    jobs += [(os.path.join(src, "diff", f), os.path.join(od, "diff", f[:-4] + ".o"), ["g++"] + fl + includes(src)) for f in ("diff.cpp", "ref.cpp")]
    if oracle:
        jobs.append((os.path.join(src, "diff", "br_oracle.cpp"), os.path.join(od, "diff", "br_oracle.o"), ["g++"] + fl + ["-Drefcpu_init=refcpu_init_oracle"] + includes(src)))
    objs, _ = compile_all(jobs)
    for o in objs:
        _cache.pop(o, None)
    wraps = ["-Wl,--wrap=" + s for s in ("_Z13difftest_stepb", "_Z22difftest_sync_from_duth", "exit", "abort")]
    return link(os.path.join(BUILD, "bin", name), objs, wraps + [os.path.join(src, "libs", "softfloat.a"), "-lz"])


BUILDERS = {"fu": lambda: build_unit("fufuzz"), "front": lambda: build_unit("frontfuzz", "front-end"), "front-large": lambda: build_unit("frontfuzz", "front-end", "large", "-large"), "diff": build_diff, "main": lambda: build_diff("full", True, "sysfuzz-main"), "main-oracle": lambda: build_diff("oracle", True, "sysfuzz-main-oracle", True), "ref": build_ref, "ref-san": lambda: build_ref(True)}


if __name__ == "__main__":
    with Lock():
        for v in sys.argv[1:] or ["full"]:
            print(build(v))
