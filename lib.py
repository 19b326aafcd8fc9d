"""Plumbing shared by the checks: generate scripts from Gen.tla, replay them
into the engine, judge the recorded histories with a property spec."""
import concurrent.futures as cf
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
SPEC = os.path.join(HERE, "spec")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
CPUS = max(1, min(8, os.cpu_count() or 1))


class ToolError(Exception):
    """Something of ours failed: exit code 2, never a verdict."""


def sh(cmd, env=None, timeout=900, cwd=None):
    e = dict(os.environ)
    if env:
        e.update(env)
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           env=e, timeout=timeout, cwd=cwd)
    except subprocess.TimeoutExpired:
        raise ToolError("timeout: %s" % " ".join(cmd[:6]))
    return r.returncode, r.stdout.decode("utf-8", "replace")


def tlc(spec, cfg, args=(), env=None, timeout=900, workers=1, heap="1g"):
    """Runs TLC on SPEC/spec.tla with SPEC/cfg; returns its output."""
    md = tempfile.mkdtemp(prefix="tlc-", dir=scratch())
    try:
        cmd = ["java", "-Xmx" + heap, "-XX:+UseSerialGC", "-cp", CP, "tlc2.TLC", "-workers", str(workers), "-config", os.path.join(SPEC, cfg),
               "-metadir", md] + list(args) + [os.path.join(SPEC, spec + ".tla")]
        rc, out = sh(cmd, env=env, timeout=timeout, cwd=md)
        return rc, out
    finally:
        shutil.rmtree(md, ignore_errors=True)


_scratch = None


def scratch():
    global _scratch
    if _scratch is None:
        base = os.path.join(HERE, "build", "run")
        os.makedirs(base, exist_ok=True)
        _scratch = tempfile.mkdtemp(prefix="r%d-" % os.getpid(), dir=base)
        import atexit
        atexit.register(lambda: shutil.rmtree(_scratch, ignore_errors=True))
    return _scratch


# ------------------------------------------------------------ generation

def gen_one(profile, num, seed, depth):
    fd, p = tempfile.mkstemp(prefix="prof-", suffix=".json", dir=scratch())
    with os.fdopen(fd, "w") as f:
        f.write(json.dumps(profile) + "\n")
    rc, out = tlc(profile.get("gen", "Gen"), "Gen.cfg", ["-simulate", "num=%d" % num, "-depth", str(depth),
                                     "-seed", str(seed)], env={"PROFILE": p})
    os.unlink(p)
    r = []
    for l in out.splitlines():
        i = l.find("SCRIPT|")
        if i >= 0:
            r.append(l[i + 7:].rstrip('"').replace('\\"', ''))
    if len(r) < num:
        raise ToolError("Gen produced %d of %d scripts\n%s" % (len(r), num, out[-2000:]))
    return r[:num]


ENVOPS = ("E", "B", "rdseq", "chkh", "relh", "limit", "fuse")


def concurrent(script, profile, seed):
    """The same calls, the sessions being threads that run at once."""
    ops = [o for o in script.split(";") if o.strip()]
    a = 1 + len([o for o in profile["prologue"].split(";") if o.strip()])
    b = len(ops) - len([o for o in profile["epilogue"].split(";") if o.strip()])
    return ";".join(ops[:a] + ["par %d" % seed] + ops[a:b] + ["join"] + ops[b:])


def duel(script, profile, seed):
    """Programs of Duel.tla under another schedule."""
    return script.replace("par 0;", "par %d;" % (1 + seed))


def rendezvous(script, profile, seed):
    """The same calls of every session in the same order, but the sessions meet:
    short pieces of them run at once, often all in their commits."""
    rnd = random.Random(seed)
    ops = [o for o in script.split(";") if o.strip()]
    a = 1 + len([o for o in profile["prologue"].split(";") if o.strip()])
    b = len(ops) - len([o for o in profile["epilogue"].split(";") if o.strip()])
    q = {}
    prev = None
    for o in ops[a:b]:
        f = o.split()
        if profile["onelong"] and f[0] == "begin" and f[2] == "L" and f[1] != "1":
            o = "begin %s S 0 0 0" % f[1]  # the calls of the sessions change places
            f = o.split()
        if f[0] in ENVOPS:
            w = prev[1] if f[0] == "E" and prev and prev[0] == "begin" and prev[2] != "S" else "env"
        else:
            w = f[1]
        q.setdefault(w, []).append(o)
        prev = f
    out = ops[:a]

    def ends(o):
        return o.split()[0] in ("commit", "abort", "leave")

    def reads(o):
        return o.split()[0] in ("search", "exist", "scan", "oscan", "nscan", "rscan")

    # or in rounds: a transaction of each, the last calls of which run at once
    rounds = rnd.random() < 0.5
    while rounds and any(q[w] for w in q if w != "env"):
        live = sorted(w for w in q if q[w] and w != "env")
        team = rnd.sample(live, min(len(live), rnd.choice([2, 2, 2, 3])))
        heads, tails = [], []
        for w in team:
            n = next((i + 1 for i, o in enumerate(q[w]) if ends(o)), len(q[w]))
            k = max(0, n - rnd.choice([1, 1, 1, 2, 2, 3, 99]))
            while k > 0 and q[w][k] == "E":
                k -= 1
            heads.append(q[w][:k])
            tails.append(q[w][k:n])
            del q[w][:n]
        while any(heads):
            out.append(rnd.choice([h for h in heads if h]).pop(0))
        env = q.get("env")
        if env and rnd.random() < 0.7:
            if rnd.random() < 0.5:
                tails.append([env.pop(0)])
            else:
                out.append(env.pop(0))
        out.append("par %d" % rnd.randint(1, 10 ** 9))
        for x in tails:
            out += x
        out.append("join")
    while any(q.values()):
        live = sorted(w for w in q if q[w])
        team = rnd.sample(live, min(len(live), rnd.choice([1, 2, 2, 2, 3, 3, 4])))
        if len(team) == 1:
            n = rnd.randint(1, 3)
            out += q[team[0]][:n]
            del q[team[0]][:n]
            continue
        how = rnd.random()
        for i, w in enumerate(team):
            # up to the end of their transactions, one after the other; or only
            # the first, with the others about to read
            goal = ends if how < 0.4 or (how < 0.75 and i == 0) else reads if how < 0.75 else None
            while goal and w != "env" and len(q[w]) > 1 and not goal(q[w][0]):
                if ends(q[w][0]) and how >= 0.4:
                    break
                out.append(q[w].pop(0))
        out.append("par %d" % rnd.randint(1, 10 ** 9))
        for w in team:
            n = 1 if rnd.random() < 0.6 else rnd.randint(1, 4)
            if w == "env":
                n = 1
            elif q[w][0].startswith("begin") and len(q[w]) > 1 and q[w][1] == "E":
                n = max(n, 2)
            out += q[w][:n]
            del q[w][:n]
        out.append("join")
    return ";".join(out + ops[b:])


POINTS = ("search", "exist", "insert", "update", "upsert", "delete")


def strand(script, profile, seed):
    """The operations of one transaction given to several threads."""
    rnd = random.Random(seed)
    ops = [o for o in script.split(";") if o.strip()]
    a = 1 + len([o for o in profile["prologue"].split(";") if o.strip()])
    b = len(ops) - len([o for o in profile["epilogue"].split(";") if o.strip()])
    own = rnd.random() < 0.5  # every thread keeps to its keys
    n = rnd.choice([2, 2, 3])
    out, sec = ops[:a], []

    def flush():
        if len(sec) > 1:
            out.append("par %d" % rnd.randint(1, 10 ** 9))
            out.extend(sec)
            out.append("join")
        else:
            out.extend(o.split(" ", 1)[1] for o in sec)
        del sec[:]
    for o in ops[a:b]:
        f = o.split()
        together = f[0] in profile["share"]
        if not together or len(sec) >= 6 or rnd.random() < 0.1:
            flush()
        if together:
            t = int(f[3]) % n if own and f[0] in POINTS else rnd.randrange(n)
            sec.append("@%d %s" % (t + 1, o))
        else:
            out.append(o)
    flush()
    return ";".join(out + ops[b:])


def gen(profile, num, seed, pool):
    """num scripts; independent of the number of CPUs."""
    chunk = 500
    depth = profile["length"] + 8
    jobs = []
    i = 0
    while i * chunk < num:
        k = min(chunk, num - i * chunk)
        jobs.append(pool.submit(gen_one, profile, k, seed * 1000 + i, depth))
        i += 1
    r = []
    for j in jobs:
        r += j.result()
    return r


# ------------------------------------------------------------ replay + judge

def replay(exe, scripts, tag, env=None, timeout=900):
    d = scratch()
    sp = os.path.join(d, tag + ".scripts")
    tp = os.path.join(d, tag + ".ndjson")
    with open(sp, "w") as f:
        f.write("\n".join(scripts) + "\n")
    rc, out = sh([exe, sp, tp], env=env, timeout=timeout)
    if rc != 0:
        raise ToolError("driver failed (%d): %s" % (rc, out[-2000:]))
    os.unlink(sp)
    return tp


VERDICT = re.compile(r'<<"(ACC|REJ)", (\d+), (\d+)>>')


def judge(spec, tp, n, env=None, timeout=900):
    """{trace id: (ok, position)}"""
    e = {"TRACES": tp}
    e.update(env or {})
    rc, out = tlc(spec, "Trace.cfg", env=e, timeout=timeout, heap="2g")
    v = {}
    for m in VERDICT.finditer(out):
        v[int(m.group(2))] = (m.group(1) == "ACC", int(m.group(3)))
    if len(v) != n:
        raise ToolError("%s judged %d of %d histories\n%s" % (spec, len(v), n, out[-3000:]))
    return v, states(out) or (0, 0)


def states(out):
    """(generated, distinct) of the last report."""
    m = re.findall(r"([\d,]+) states generated.*?, ([\d,]+) distinct", out)
    return tuple(int(x.replace(",", "")) for x in m[-1]) if m else None


def without_background(ops):
    return [o for o in ops if o[0] != "B"]


def without_readers(ops):
    """The same program without the session that only reads."""
    ro = {o[1] for o in ops if o[0] == "begin" and o[2] == "R"}
    own = {"begin", "commit", "abort", "check", "search", "exist", "scan", "oscan", "rscan", "nscan", "cscan", "size", "insert", "update",
           "upsert", "delete", "result", "txid", "prio", "acqh"}
    return [o for o in ops if not (o[0] in own and o[1] in ro)]


SILENT = {"durcb", "enter", "B", "size", "final"}
NOISE = ("t", "dm", "dur", "dup")


def seen(ev, hide):
    """What the sessions were told, without what may differ."""
    ro = {e["s"] for e in ev if e["o"] == "begin" and e["ty"] == "R"} - {9} if hide else set()
    return [{k: x for k, x in e.items() if k not in NOISE} for e in ev if e["o"] not in SILENT and e.get("s") not in ro]


PAIRS = {"noB": (without_background, False), "noR": (without_readers, True)}


def replay_pair(how, exe, scripts, tag, env=None):
    """Histories of each script and of its variant, side by side."""
    f, hide = PAIRS[how]
    other = [";".join(" ".join(o) for o in f([x.split() for x in sc.split(";") if x.strip()])) for sc in scripts]
    a = replay(exe, scripts, tag + "a", env=env)
    b = replay(exe, other, tag + "b", env=env)
    tp = os.path.join(scratch(), tag + ".ndjson")
    with open(tp, "w") as out:
        for x, y in zip(load(a), load(b)):
            p, q = seen(x["ev"], hide), seen(y["ev"], hide)
            n = max(len(p), len(q))
            p += [{"o": "none"}] * (n - len(p))
            q += [{"o": "none"}] * (n - len(q))
            out.write(json.dumps({"id": x["id"], "ev": [{"o": "pair", "a": i, "b": j} for i, j in zip(p, q)]}) + "\n")
    os.unlink(a)
    os.unlink(b)
    return tp


def run_batch(exe, spec, scripts, tag, env=None):
    """Replay and judge; returns (verdicts, traces path, states)."""
    if spec.startswith("Pair:"):
        tp = replay_pair(spec[5:], exe, scripts, tag, env=env)
        spec = "Pair"
    else:
        tp = replay(exe, scripts, tag, env=env)
    v, st = judge(spec, tp, len(scripts), env=env)
    return v, tp, st


def load(tp):
    return [json.loads(l) for l in open(tp)]


# ------------------------------------------------------------ shrinking

def sequential(ops):
    """No transaction begins while another one is open."""
    busy = None
    for o in ops:
        w = o.split()
        if w[0] == "begin":
            if busy not in (None, w[1]):
                return False
            busy = w[1]
        elif w[0] in ("commit", "abort") and w[1] == busy:
            busy = None
        elif w[0] in ("crash", "shutdown"):
            busy = None
    return True


def shrink(exe, spec, script, env=None, rounds=60, tag="shrink", until=None):
    """Smaller script that is still rejected."""
    cur = [o for o in script.split(";") if o]
    seq = sequential(cur)
    width = max(1, len(cur) // 3)
    for _ in range(rounds):
        if until and time.time() > until:
            break
        cand = []
        for i in range(1, len(cur), max(1, width // 2) if width > 1 else 1):
            c = cur[:i] + cur[i + width:]
            if len(c) < len(cur) and any(x.startswith("final") for x in cur) == any(x.startswith("final") for x in c) \
                    and [x for x in cur if x[:4] in ("par ", "join")] == [x for x in c if x[:4] in ("par ", "join")] and (not seq or sequential(c)):
                cand.append(c)
        best = None
        if cand:
            v, tp, _ = run_batch(exe, spec, [";".join(c) for c in cand], tag, env=env)
            bad = [cand[k] for k in v if not v[k][0]]
            if bad:
                best = min(bad, key=len)
        if best is not None:
            cur = best
        elif width > 1:
            width = width // 2
        else:
            break
    return ";".join(cur)
