#!/usr/bin/env python3
"""Build the full engine from /repo's working tree with the stand-ins.

Objects are cached by the hash of (flags, preprocessed dependency contents), so
a rebuild after a change compiles only what it affects.
"""
import concurrent.futures as cf
import fcntl
import glob
import hashlib
import json
import os
import re
import subprocess
import sys

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
OUT = os.path.join(VERIF, "build")

DEFS = {
    "SHIRAKAMI_LINUX": None, "INDEX_YAKUSHIMA": None, "YAKUSHIMA_EPOCH_TIME": 40,
    "PWAL": None, "HAVE_LIMESTONE_CONFIG_CTOR_NONE": 1,
    "HAVE_LIMESTONE_CONFIG_SET_DATA_LOCATION_STDFSPATH": 1,
    "HAVE_LIMESTONE_DATASTORE_CREATE_CHANNEL_NONE": 1,
    "KVS_MAX_PARALLEL_THREADS": 16, "YAKUSHIMA_MAX_PARALLEL_SESSIONS": 16,
    "PARAM_EPOCH_TIME": 0, "PARAM_RETRY_READ": 0, "PARAM_SNAPSHOT_EPOCH": 25,
    "PARAM_CHECKPOINT_REST_EPOCH": 40, "PARAM_PWAL_LOG_GCOMMIT_THRESHOLD": 1000,
    "PARAM_CPR_DIFF_SET_RESERVE_NUM": 0, "PROJECT_ROOT": "/repo",
}


VARIANTS = {
    # name: (engine flags, harness flags, link flags, compiler, hooks)
    "h1": (["-O1", "-g1"], ["-O1", "-g1"], [], "g++"),
    # the instrumentation calls into harness/sched.cpp, not into the sanitizer
    "h2": (["-O1", "-g1", "-fsanitize=thread", "-include", os.path.join(VERIF, "harness", "pause.h")],
           ["-O1", "-g1", "-DHV_SCHED"], [], "g++"),
    "h3": (["-O1", "-g1", "-fsanitize=address,undefined", "-fno-sanitize=vptr,alignment",
            "-fno-omit-frame-pointer"],
           ["-O1", "-g1", "-fsanitize=address,undefined", "-fno-sanitize=vptr,alignment"],
           ["-fsanitize=address,undefined", "-fno-sanitize=vptr,alignment"], "g++"),
}


class BuildError(RuntimeError):
    """The tree does not compile or link."""


def engine_sources():
    return sorted(glob.glob(os.path.join(REPO, "src", "**", "*.cpp"), recursive=True))


GROUPS = 8
LOCAL = re.compile(r"^(?:\[\[.*?\]\]\s*)?(?:static|inline static|static inline)\b[^;(={]*?\b(\w+)\s*[({=;]", re.M)


def groups(srcs):
    """Sources put together into a few translation units (most of the compile
    time is headers).  Files that define local names alike stay apart; a group
    that still does not compile is compiled file by file."""
    res = [[0, [], set()] for _ in range(GROUPS)]
    for src in sorted(srcs, key=lambda p: (-os.path.getsize(p), p)):
        with open(src, errors="replace") as f:
            names = set(LOCAL.findall(f.read()))
        ok = [g for g in res if not (g[2] & names)]
        if not ok:
            res.append([0, [], set()])
            ok = [res[-1]]
        g = min(ok, key=lambda x: x[0])
        g[0] += os.path.getsize(src) + 4000
        g[1].append(src)
        g[2] |= names
    return [g[1] for g in res if g[1]]


def compile_group(cc, flags, srcs, objdir):
    if len(srcs) > 1:
        text = "".join('#include "%s"\n' % s for s in sorted(srcs))
        u = os.path.join(objdir, "unit-%s.cpp" % hashlib.sha1(text.encode()).hexdigest()[:12])
        if not os.path.exists(u):
            with open(u + ".tmp%d" % os.getpid(), "w") as f:
                f.write(text)
            os.rename(u + ".tmp%d" % os.getpid(), u)
        o, e = compile_one(cc, flags, u, objdir)
        if o is not None:
            return [(o, e)]
    with cf.ThreadPoolExecutor(4) as ex:
        return list(ex.map(lambda s: compile_one(cc, flags, s, objdir), srcs))


def overlay():
    """Headers of the engine that lack an include guard, wrapped in one, so that
    several sources can share a translation unit."""
    ov = os.path.join(OUT, "overlay")
    for root in ("include", "src", "src/include"):
        base = os.path.join(REPO, root)
        for h in sorted(glob.glob(os.path.join(base, "**", "*.h"), recursive=True)):
            with open(h, errors="replace") as f:
                t = f.read()
            w = os.path.join(ov, os.path.relpath(h, base))
            if "#pragma once" in t or re.search(r"^#\s*ifndef", t, re.M):
                if os.path.exists(w):
                    os.unlink(w)
                continue
            text = '#pragma once\n#include "%s"\n' % h
            if not os.path.exists(w) or open(w).read() != text:
                os.makedirs(os.path.dirname(w), exist_ok=True)
                with open(w + ".tmp%d" % os.getpid(), "w") as f:
                    f.write(text)
                os.rename(w + ".tmp%d" % os.getpid(), w)
    os.makedirs(ov, exist_ok=True)
    return ov


def base_flags(defs=None):
    d = dict(DEFS)
    d.update(defs or {})
    f = ["-std=c++17", "-msse4.2", "-mcx16", "-w", "-pthread", "-fno-strict-aliasing"] \
        if False else ["-std=c++17", "-mcx16", "-w", "-pthread"]
    for k, v in d.items():
        f.append("-D%s" % k if v is None else "-D%s=%s" % (k, v))
    f.append("-I%s" % overlay())
    for i in ("include", "src", "src/include", "third_party"):
        f.append("-I%s" % os.path.join(REPO, i))
    f.append("-I%s" % os.path.join(VERIF, "standin"))
    return f


_fh = {}


def file_hash(p):
    if p not in _fh:
        try:
            with open(p, "rb") as f:
                _fh[p] = hashlib.sha1(f.read()).hexdigest()
        except OSError:
            _fh[p] = "missing"
    return _fh[p]


def compile_one(cc, flags, src, objdir):
    fl = hashlib.sha1((cc + "\0" + "\0".join(flags) + "\0" + src).encode()).hexdigest()[:16]
    meta = os.path.join(objdir, fl + ".json")
    if os.path.exists(meta):
        for ent in json.load(open(meta)):
            if os.path.exists(ent["obj"]) and all(file_hash(p) == h for p, h in ent["deps"]):
                return ent["obj"], None
    tmp = os.path.join(objdir, "%s.%d.tmp" % (fl, os.getpid()))
    p = subprocess.run([cc] + flags + ["-MMD", "-MF", tmp + ".d", "-c", src, "-o", tmp],
                       capture_output=True, text=True)
    if p.returncode != 0:
        return None, p.stderr
    with open(tmp + ".d") as f:
        toks = f.read().replace("\\\n", " ").split()
    os.unlink(tmp + ".d")
    deps = [t for t in toks[1:] if t.startswith((REPO, VERIF))]
    deps = [[os.path.normpath(t), file_hash(os.path.normpath(t))] for t in deps]
    key = hashlib.sha1(json.dumps([fl, deps]).encode()).hexdigest()[:20]
    obj = os.path.join(objdir, key + ".o")
    os.rename(tmp, obj)
    ents = json.load(open(meta)) if os.path.exists(meta) else []
    ents = [e for e in ents if e["obj"] != obj][-3:]
    ents.append({"obj": obj, "deps": deps})
    with open(meta + ".tmp", "w") as f:
        json.dump(ents, f)
    os.rename(meta + ".tmp", meta)
    return obj, None


def build(variant, harness_srcs, exe, defs=None, engine_extra=None, libs=None):
    """Returns path of the executable; raises BuildError with the log."""
    eng, har, link, cc = VARIANTS[variant]
    objdir = os.path.join(OUT, "obj-" + variant)
    os.makedirs(objdir, exist_ok=True)
    with open(os.path.join(OUT, "lock-" + variant), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        bf = base_flags(defs)
        jobs = [(cc, bf + har, [s], objdir) for s in harness_srcs]
        jobs += [(cc, bf + eng + (engine_extra or []), g, objdir) for g in groups(engine_sources())]
        with cf.ThreadPoolExecutor(9) as ex:
            res = sum(ex.map(lambda j: compile_group(*j), jobs), [])
        errs = [e for o, e in res if o is None]
        if errs:
            raise BuildError("compile error:\n" + "\n".join(errs)[:6000])
        objs = [o for o, _ in res]
        key = hashlib.sha1(json.dumps([objs, link]).encode()).hexdigest()[:16]
        path = os.path.join(OUT, "%s-%s" % (exe, key))
        if not os.path.exists(path):
            p = subprocess.run([cc, "-pthread", "-rdynamic"] + objs + link + [
                "-o", path + ".tmp", "-lglog", "-lgflags", "-ltbb", "-lboost_filesystem",
                "-latomic", "-ldl"] + (libs or []), capture_output=True, text=True)
            if p.returncode != 0:
                raise BuildError("link error:\n" + p.stderr[:6000])
            os.rename(path + ".tmp", path)
            old = [q for q in glob.glob(os.path.join(OUT, exe + "-*"))
                   if q != path and not q.endswith(".tmp")]
            for q in sorted(old, key=os.path.getmtime)[:-3]:
                os.unlink(q)
        return path


if __name__ == "__main__":
    try:
        print(build(sys.argv[1], [os.path.abspath(a) for a in sys.argv[3:]], sys.argv[2]))
    except BuildError as e:
        print(e, file=sys.stderr)
        sys.exit(2)
