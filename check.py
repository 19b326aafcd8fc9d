#!/usr/bin/env python3
"""Decides one property: check.py <property> [--replay FILE]

 1. builds the engine from the repository's working tree;
 2. model checks the specifications the property rests on (plan.MODELS);
 3. has TLC produce client programs (random walks of Gen.tla, exhaustive
    enumerations of Enum.tla), replays them into the engine, and has TLC judge
    every recorded history with the property's specification;
 4. repeats and shrinks what was rejected.

Exit 0: held, 1: VIOLATION line, 2: the check itself failed.
"""
import collections
import concurrent.futures as cf
import json
import os
import sys
import threading
import time
import traceback

import build
import known
import lib
import plan
from lib import ToolError

HERE = os.path.dirname(os.path.abspath(__file__))
T0 = time.time()


def log(*a):
    print("[%6.1f]" % (time.time() - T0), *a, flush=True)


class Run:
    def __init__(self, prop):
        self.prop = prop
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.seed = int(os.environ.get("VERIF_SEED", "1") or "1")
        self.plan = plan.PLAN[prop]
        self.deadline = T0 + (int(os.environ.get("VERIF_TIME", "150")) if self.tier == "quick" else 1500)
        self.lock = threading.Lock()
        self.states = self.trans = self.traces = self.events = self.skipped = 0
        self.seen = collections.Counter()
        self.shapes = set()
        self.samples = []
        self.suspects = []   # (family, script, position)
        self.models = []
        self.flaky = 0
        self.exes = {}
        self.stop = threading.Event()

    def exe(self, variant):
        with self.lock:
            f = self.exes[variant]
        return f.result()

    # ------------------------------------------------------------ jobs
    def model(self, m):
        t = time.time()
        rc, out = lib.tlc(m["spec"], m["cfg"], m.get("args", ()), timeout=800,
                          workers=m.get("workers", 2), heap=m.get("heap", "3g"))
        st = lib.states(out)
        if rc != 0 or st is None or "Error:" in out:
            raise ToolError("model %s/%s failed (%d)\n%s" % (m["spec"], m["cfg"], rc, out[-3000:]))
        with self.lock:
            self.states += st[1]
            self.trans += st[0]
            self.models.append({"spec": m["spec"], "config": m["cfg"], "states": st[1],
                                "transitions": st[0], "wall_s": round(time.time() - t, 1)})

    def scripts_of(self, fam, job):
        if fam["kind"] == "gen":
            p = fam["profile"]
            sd = (self.seed * 1000003 + fam["no"] * 7919 * 1009) % 1000000007 + job[0]
            r = fam.get("schedules", 1)
            sc = lib.gen_one(p, (job[1] + r - 1) // r, sd, p["length"] + 8)
            if "schedules" in fam:
                sc = [getattr(lib, fam["how"])(x, p, (sd * 1000 + i * r + j) % 1000000007) for i, x in enumerate(sc) for j in range(r)]
            return sc[:job[1]]
        if fam["kind"] == "fixed":
            return fam["scripts"][job[0]:job[0] + job[1]]
        raise ToolError("kind")

    def work(self, fam, job, tag):
        if self.stop.is_set() or time.time() > self.deadline:
            with self.lock:
                self.skipped += job[1]
            return
        spec = fam.get("spec", self.plan["spec"])
        sc = self.scripts_of(fam, job)
        exe = self.exe(fam.get("variant", "h1"))
        env = fam.get("env")
        v, tp, st = lib.run_batch(exe, spec, sc, tag, env=env)
        cnt = collections.Counter()
        shapes = set()
        nev = 0
        bad = {}
        for no, tr in enumerate(lib.load(tp)):
            if no in v and not v[no][0]:
                bad[no] = tr["ev"]
            sh = []
            for e in tr["ev"]:
                if e["o"] in ("final", "mkst"):
                    continue
                k = e["o"] + ":" + str(e.get("rc", ""))
                cnt[k] += 1
                sh.append(k)
                nev += 1
            shapes.add(hash(tuple(sh)))
        os.unlink(tp)
        with self.lock:
            self.trans += st[0]
            self.states += st[1]
            self.traces += len(sc)
            self.events += nev
            self.seen += cnt
            self.shapes |= shapes
            if len(self.samples) < 6:
                self.samples.append({"family": fam["name"], "script": sc[len(sc) // 2][:1500]})
            for k in sorted(v):
                if not v[k][0]:
                    self.suspects.append((fam, sc[k], v[k][1], bad.get(k)))

    def one(self, fam, script, tag):
        spec = fam.get("spec", self.plan["spec"])
        v, tp, _ = lib.run_batch(self.exe(fam.get("variant", "h1")), spec, [script], tag, env=fam.get("env"))
        ev = lib.load(tp)[0]["ev"]
        return v[0], ev

    def confirm(self):
        """The first suspect that is rejected again, twice."""
        for n, (fam, sc, pos, ev0) in enumerate(self.suspects[:12]):
            ok = True
            for i in range(2):
                v, ev = self.one(fam, sc, "again%d" % n)
                if v[0]:
                    ok = False
                    break
            if not ok:
                self.flaky += 1
                log("not repeated, rejected at", pos, ":", sc)
                for e in (ev0 or [])[max(0, pos - 12):pos]:
                    log("     ", json.dumps(e))
                continue
            k = known.match(self.prop, ev, v[1])
            if k:
                print("KNOWN-FINDING: property=%s %s" % (self.prop, k), flush=True)
                continue
            return fam, sc, ev, v[1]
        return None

    def violation(self, c):
        fam, sc, ev, pos = c
        d = os.path.join(HERE, "evidence", "replay")
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, "%s.json" % self.prop)
        rec = {"property": self.prop, "spec": fam.get("spec", self.plan["spec"]), "family": fam["name"],
               "variant": fam.get("variant", "h1"), "env": fam.get("env"), "script": sc, "rejected_at": pos, "events": ev}
        with open(p, "w") as f:
            json.dump(rec, f, indent=1)
        try:
            if fam.get("shrink", True):
                limit = time.time() + 60
                small = lib.shrink(self.exe(fam.get("variant", "h1")), rec["spec"], sc, env=fam.get("env"), until=limit)
                v, ev2 = self.one(fam, small, "small")
                if not v[0]:
                    rec.update(script=small, rejected_at=v[1], events=ev2, original=sc)
                    with open(p, "w") as f:
                        json.dump(rec, f, indent=1)
        except ToolError as e:
            log("shrinking stopped:", e)
        log("script:", rec["script"])
        for i, e in enumerate(rec["events"]):
            if e["o"] not in ("durcb", "B"):
                print(("  >>" if i + 1 == rec["rejected_at"] else "    "),
                      " ".join("%s=%s" % kv if kv[0] != "o" else str(kv[1]) for kv in e.items()))
        print("VIOLATION property=%s replay=%s" % (self.prop, p), flush=True)
        return p

    def evidence(self, violations):
        d = os.path.join(HERE, "evidence")
        os.makedirs(d, exist_ok=True)
        ev = {
            "property": self.prop, "tier": self.tier, "seed": self.seed,
            "level": plan.LEVEL,
            "coverage": {
                "states": self.states, "transitions": self.trans,
                "traces_validated_against_impl": self.traces,
                "evaluations": self.traces, "distinct_nontrivial": len(self.shapes),
                "rule": "histories with pairwise different sequences of (operation, status)",
                "events": self.events, "skipped_for_time": self.skipped,
                "models": self.models,
                "statuses": {k: n for k, n in sorted(self.seen.items(), key=lambda x: -x[1])[:60]},
                "rejected_but_not_repeated": self.flaky,
                "samples": self.samples,
                "exhaustive": False,
            },
            "assumptions": plan.ASSUMPTIONS,
            "violations": violations,
            "wall_s": round(time.time() - T0, 1),
        }
        with open(os.path.join(d, "%s.json" % self.prop), "w") as f:
            json.dump(ev, f, indent=1)
            f.write("\n")

    def main(self):
        fams = []
        for no, f in enumerate(self.plan["families"]):
            f = dict(f, no=no)
            if os.environ.get("VERIF_ONLY", "") not in f["name"]:
                continue
            n = f["n"][0 if self.tier == "quick" else 1] * int(os.environ.get("VERIF_SCALE", "1"))
            if f["kind"] == "fixed":
                n = min(n, len(f["scripts"]))
            f["jobs"] = [(i, min(f["chunk"], n - i)) for i in range(0, n, f["chunk"])]
            fams.append(f)
        variants = []
        for f in fams:
            if f.get("variant", "h1") not in variants and f["jobs"]:
                variants.append(f.get("variant", "h1"))
        bp = cf.ThreadPoolExecutor(max(1, len(variants)))
        for x in variants:
            self.exes[x] = bp.submit(plan.build_variant, x)
        with cf.ThreadPoolExecutor(lib.CPUS) as ex:
            js = [ex.submit(self.model, m) for m in self.plan.get("models", ())
                  if self.tier == "thorough" or not m.get("thorough")]
            # interleave the families, so that a deadline cuts all of them alike
            q = [(j / max(1, len(f["jobs"])), i, j) for i, f in enumerate(fams) for j in range(len(f["jobs"]))]
            for _, i, j in sorted(q):
                js.append(ex.submit(self.work, fams[i], fams[i]["jobs"][j], "f%dj%d" % (i, j)))
            for x in js:
                try:
                    x.result()
                except Exception:
                    self.stop.set()
                    raise
                if len(self.suspects) >= 3:
                    self.stop.set()
        log("%d histories, %d events, %d states, %d suspects" % (self.traces, self.events, self.states, len(self.suspects)))
        c = self.confirm() if self.suspects else None
        if c:
            p = self.violation(c)
            self.evidence([p])
            return 1
        self.evidence([])
        log("held")
        return 0


def replay(prop, path):
    r = Run(prop)
    rec = json.load(open(path))
    v = rec.get("variant", "h1")
    bp = cf.ThreadPoolExecutor(1)
    r.exes[v] = bp.submit(plan.build_variant, v)
    fam = {"name": "replay", "spec": rec["spec"], "variant": v, "env": rec.get("env")}
    res, ev = r.one(fam, rec["script"], "replay")
    for i, e in enumerate(ev):
        print(("  >>" if not res[0] and i + 1 == res[1] else "    "), json.dumps(e))
    print("ACCEPTED" if res[0] else "REJECTED at event %d" % res[1])
    return 0 if res[0] else 1


def main():
    try:
        if len(sys.argv) >= 4 and sys.argv[2] == "--replay":
            return replay(sys.argv[1], sys.argv[3])
        return Run(sys.argv[1]).main()
    except (ToolError, build.BuildError) as e:
        print("ERROR: %s" % e, flush=True)
        return 2
    except Exception:
        traceback.print_exc()
        return 2


if __name__ == "__main__":
    sys.exit(main())
