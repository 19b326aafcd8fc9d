#!/usr/bin/env python3
"""Plant a bug: seed.py SEEDS.py [id..]

SEEDS.py defines SEEDS = [dict(id, property, file, old, new, needs, breaks,
[checks], [script])].  Each is applied to the repository, the stable tests are
run, then the check of its property; when the check reports a violation, the
history it found becomes the demonstration under seeded/<id>.
"""
import json
import os
import shutil
import subprocess
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
REPO = "/repo"

RUN = '''#!/usr/bin/env python3
"""Builds the engine of the current directory, runs the scenario, compares what
the client saw with what it has to see."""
import json
import os
import subprocess
import sys

D, OUT = sys.argv[1], sys.argv[2]
os.environ["VERIF_REPO"] = os.getcwd()
sys.path.insert(0, os.path.join(D, "kit"))
sys.dont_write_bytecode = True
import build  # noqa: E402

build.OUT = OUT
exe = build.build("h1", [os.path.join(D, "kit", "harness", "h1.cpp")], "h1")
env = dict(os.environ)
spec = json.load(open(os.path.join(D, "scenario.json")))
env.update(spec.get("env") or {})
sf, tf = os.path.join(OUT, "script"), os.path.join(OUT, "trace")
open(sf, "w").write(spec["script"] + "\\n")
subprocess.run([exe, sf, tf], env=env, timeout=120)
got = [e for e in json.loads(open(tf).readline())["ev"] if e["o"] not in ("durcb", "B")]
want = spec["expect"]
for i in range(max(len(got), len(want))):
    g = got[i] if i < len(got) else None
    w = want[i] if i < len(want) else None
    if g != w:
        print("step %d\\n  expected %s\\n  got      %s" % (i, json.dumps(w), json.dumps(g)))
        sys.exit(1)
print("as expected, %d steps" % len(want))
'''

DEMO = '''#!/bin/bash
# Runs scenario.json against the engine in the current directory.
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
python3 "$d/kit/run.py" "$d" "$t"
'''


def sh(*a, **k):
    return subprocess.run(a, capture_output=True, text=True, **k)


def restore():
    sh("git", "-C", REPO, "checkout", "--", ".")


def original_lines(path, diff):
    """Removed lines must be the repository's own, not ones our commits added."""
    base = sh("git", "-C", REPO, "rev-list", "--max-parents=0", "HEAD").stdout.split()[-1]
    import re
    for m in re.finditer(r"^@@ -(\d+)(?:,(\d+))?", diff, re.M):
        a, n = int(m.group(1)), int(m.group(2) or 1)
        if n == 0:
            continue
        bl = sh("git", "-C", REPO, "blame", "-l", "-s", "-L", "%d,+%d" % (a, n), "HEAD", "--", path).stdout
        mine = set(sh("git", "-C", REPO, "log", "--format=%H", "cd7f89d..HEAD").stdout.split())
        for ln in bl.splitlines():
            if ln.split()[0].lstrip("^") in mine:
                return "line of a commit of ours: " + ln
    return None


def trace(script, env=None):
    import build
    import lib
    build._fh.clear()
    exe = build.build("h1", [os.path.join(V, "harness", "h1.cpp")], "h1")
    tp = lib.replay(exe, [script], "seed", env=env)
    ev = [e for e in lib.load(tp)[0]["ev"] if e["o"] not in ("durcb", "B")]
    os.unlink(tp)
    return ev


def apply(s):
    for f, old, new in s.get("edits") or [(s["file"], s["old"], s["new"])]:
        p = os.path.join(REPO, f)
        t = open(p).read()
        if t.count(old) != 1:
            raise SystemExit("%s: text occurs %d times in %s" % (s["id"], t.count(old), f))
        open(p, "w").write(t.replace(old, new))


def plant(s, only_check=False):
    restore()
    apply(s)
    diff = sh("git", "-C", REPO, "diff", "-U0").stdout
    for f in {e[0] for e in (s.get("edits") or [(s["file"],)])}:
        part = sh("git", "-C", REPO, "diff", "-U0", "--", f).stdout
        bad = original_lines(f, part)
        if bad:
            restore()
            return "REFUSED " + bad
    patch = sh("git", "-C", REPO, "diff").stdout
    try:
        b = sh("bash", "/opt/vp/build.sh")
        if b.returncode:
            return "DOES NOT BUILD " + (b.stdout + b.stderr)[-500:]
        sh("bash", "/opt/vp/test.sh", "/tmp/s/seedtest.json")
        base = json.load(open("/opt/vp/BASELINE.json"))
        lost = set(base["stable"]) - set(json.load(open("/tmp/s/seedtest.json"))["passed"])
        if lost:
            return "TESTS %s" % lost
        outs = []
        for p in s.get("checks") or [s["property"]]:
            r = sh("timeout", "900", "python3", os.path.join(V, "check.py"), p, cwd=V)
            outs.append((p, r.returncode))
            open("/tmp/s/seed-%s-%s.txt" % (s["id"], p), "w").write(r.stdout + r.stderr)
        rc = dict(outs)[s["property"]] if s["property"] in dict(outs) else outs[0][1]
        scen, env = s.get("script"), None
        if not scen:
            if rc != 1:
                return "MISSED %s" % outs
            rec = json.load(open(os.path.join(V, "evidence", "replay", s["property"] + ".json")))
            scen, env = rec["script"], rec.get("env")
        got = trace(scen, env)
    finally:
        restore()
    want = trace(scen, env)
    if trace(scen, env) != want:
        return "CAUGHT %s, scenario not deterministic" % outs
    if got == want:
        return "CAUGHT %s, no difference in the trace" % outs
    d = os.path.join(V, "seeded", s["id"])
    if os.path.isdir(d):
        shutil.rmtree(d)
    os.makedirs(os.path.join(d, "kit"))
    open(os.path.join(d, "patch.diff"), "w").write(patch)
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]},
              open(os.path.join(d, "meta.json"), "w"), indent=1)
    json.dump({"script": scen, "env": env, "expect": want}, open(os.path.join(d, "scenario.json"), "w"), indent=0)
    open(os.path.join(d, "demo.sh"), "w").write(DEMO)
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    open(os.path.join(d, "kit", "run.py"), "w").write(RUN)
    shutil.copy(os.path.join(V, "build.py"), os.path.join(d, "kit", "build.py"))
    shutil.copytree(os.path.join(V, "standin"), os.path.join(d, "kit", "standin"))
    shutil.copytree(os.path.join(V, "harness"), os.path.join(d, "kit", "harness"))
    return ("CAUGHT" if rc == 1 else "MISSED (scenario given)") + " %s: %s" % (outs, scen[:160])


def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    for s in ns["SEEDS"]:
        if len(sys.argv) > 2 and s["id"] not in sys.argv[2:]:
            continue
        try:
            print(s["id"], s["property"], plant(s), flush=True)
        except SystemExit as e:
            restore()
            print(s["id"], "ERROR", e, flush=True)


main()
