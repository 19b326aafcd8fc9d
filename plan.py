"""What each check runs: specification, client program families, models."""
import os

import build

HERE = os.path.dirname(os.path.abspath(__file__))
LEVEL = "model_checking"
ASSUMPTIONS = [
    "the index (yakushima) and the log store (limestone) are in-memory stand-ins with the documented behaviour, see DESIGN.md",
    "histories are judged at the public interface; values carry the identity of the write that made them",
]


def build_variant(v):
    if v in ("h1", "h3"):
        return build.build(v, [os.path.join(HERE, "harness", "h1.cpp")], v)
    if v == "h2":
        return build.build(v, [os.path.join(HERE, "harness", f) for f in ("h1.cpp", "sched.cpp")], v)
    raise build.BuildError("variant " + v)


BASE = dict(
    sessions=3, storages=2, keys=4, length=24, txlen=5, keysets=[0], valsets=[0],
    iter=[0, 1], flags=[0], prologue="", epilogue="final;",
    types=["S", "S", "L", "L", "R"], wpall=40, badwp=0, ra=0, autoE=60, acqh=0,
    txid=0, commit=85, cb=50, result=0,
    ops=["search", "search", "search", "insert", "update", "upsert", "upsert", "delete", "scan"],
    wildwp=5, blob=0, ends=[0, 1, 2], rev=10, limit=10, bulkst=2,
    env=["E", "E", "B"], envp=15, sequential=0, stray=0, rebegin=0, stop=20, onelong=0, ghost=0, reread=0, quietrm=0, rlast=0)


def prof(**kw):
    p = dict(BASE)
    for k in kw:
        assert k in p, k
    p.update(kw)
    return p


def gen(name, quick, thorough, spec=None, chunk=500, variant="h1", sysenv=None, **kw):
    f = dict(kind="gen", name=name, n=(quick, thorough), profile=prof(**kw), chunk=chunk, variant=variant)
    if spec:
        f["spec"] = spec
    if sysenv:
        f["env"] = sysenv
    return f


def conc(name, quick, thorough, schedules=5, **kw):
    """The sessions are threads; each program runs under several schedules."""
    f = gen(name, quick, thorough, variant="h2", **kw)
    f["schedules"] = schedules
    f["how"] = "concurrent"
    return f


def meet(name, quick, thorough, schedules=5, **kw):
    """The same, but only short pieces of the sessions run at once."""
    f = conc(name, quick, thorough, schedules, **kw)
    f["how"] = "rendezvous"
    return f


def duel(name, quick, thorough, schedules=8, reads=("search", "search", "exist", "scan", "scan"),
         writes=("insert", "update", "upsert", "upsert", "delete"), start=("-", "p", "p", "d"), **kw):
    """Programs of Duel.tla, each under several schedules."""
    f = conc(name, quick, thorough, schedules, **kw)
    f["profile"].update(gen="Duel", reads=list(reads), writes=list(writes), start=list(start))
    f["how"] = "duel"
    return f


def strand(name, quick, thorough, schedules=5, share=(), **kw):
    """The operations named in share are given to several threads of one transaction."""
    f = conc(name, quick, thorough, schedules, **kw)
    f["profile"]["share"] = list(share)
    f["how"] = "strand"
    return f


def fixed(name, scripts, spec=None, quick=10 ** 9, thorough=10 ** 9, variant="h1", chunk=500):
    f = dict(kind="fixed", name=name, n=(quick, thorough), scripts=scripts, variant=variant, chunk=chunk)
    if spec:
        f["spec"] = spec
    return f


def fill(n, st=1):
    """commits records 1..n (values 900+) in storage st"""
    return "begin 1 S 0 0 0;" + "".join("upsert 1 %d %d %d 0;" % (st, k, 900 + k) for k in range(1, n + 1)) + "commit 1 0;"


ALLKS = [0, 1, 2, 3]
ENV = ["E", "E", "E", "B", "EB"]

PLAN = {}


# operation mixes
RW = ["search", "search", "search", "insert", "update", "upsert", "upsert", "delete", "scan"]
CURSORS = ["search", "search", "exist", "insert", "update", "upsert", "upsert", "delete", "delete", "scan", "oscan", "nscan", "nscan"]

PLAN["P01"] = dict(spec="P01", families=[
    gen("mixed", 1000, 40000),
    gen("one storage, cursors", 1000, 40000, sessions=4, storages=1, keys=3, length=30, keysets=ALLKS,
        types=["S", "S", "S", "L", "L", "R"], ops=CURSORS, env=ENV, envp=20),
    gen("many keys", 500, 20000, keys=20, length=40, txlen=12, keysets=ALLKS, types=["S", "L", "L"], ra=30,
        ops=["search", "insert", "insert", "insert", "upsert", "upsert", "delete", "scan", "scan"], env=ENV, envp=20),
    gen("long only", 1000, 40000, sessions=4, storages=3, keys=3, length=32, keysets=ALLKS, types=["L"], ra=30,
        ops=["search", "search", "insert", "upsert", "upsert", "update", "delete", "scan", "scan"], env=ENV, envp=20),
    gen("short over a filled storage", 500, 30000, storages=1, keys=12, length=50, txlen=8, keysets=ALLKS,
        prologue=fill(11), types=["S"], rev=5, stop=15,
        ops=["insert", "insert", "upsert", "delete", "delete", "scan", "scan", "search"], env=ENV, envp=20),
])

PLAN["P02"] = dict(spec="P02", families=[
    gen("short", 1500, 40000, types=["S"], storages=1, keys=3, length=30, keysets=ALLKS, ops=CURSORS, env=ENV),
    gen("short, two storages", 1000, 30000, types=["S"], length=30, keysets=ALLKS),
    gen("all kinds", 1500, 40000, types=["S", "S", "S", "L", "R"], storages=1, keys=3, length=30, env=ENV, envp=20),
])

PLAN["P03"] = dict(spec="P03", families=[
    gen("mixed", 1500, 40000, valsets=[0, 1, 2], stop=12),
    gen("one storage, cursors", 1500, 40000, sessions=4, storages=1, keys=3, length=30, keysets=ALLKS, valsets=[0, 1, 2],
        types=["S", "S", "S", "L", "L", "R"], ops=CURSORS, env=ENV, envp=20, commit=60),
    gen("filled", 500, 20000, storages=1, keys=8, length=40, prologue=fill(8), valsets=[0, 1, 2], txlen=8,
        ops=["search", "search", "update", "upsert", "upsert", "scan"], commit=70),
])

OWN = ["search", "exist", "insert", "insert", "update", "update", "upsert", "upsert", "delete", "delete", "delete", "scan", "oscan", "nscan"]
PLAN["P04"] = dict(spec="P04", families=[
    gen("single", 1500, 30000, sessions=1, storages=1, keys=2, length=24, txlen=10, stop=8, types=["S", "L"],
        wpall=100, wildwp=0, autoE=100, ops=OWN, valsets=[0, 1], keysets=ALLKS),
    gen("single, many keys", 700, 20000, sessions=1, storages=1, keys=12, length=40, txlen=20, stop=4, types=["S", "L"],
        wpall=100, wildwp=0, autoE=100, ops=OWN, keysets=ALLKS),
    gen("crowd", 1500, 30000, sessions=3, storages=1, keys=3, length=30, txlen=8, types=["S", "S", "L"], wpall=90,
        ops=OWN, env=ENV, envp=20),
])

SEQ = dict(sequential=1, autoE=100, wpall=100, wildwp=0, types=["S", "S", "L", "R"], valsets=[0, 1, 2], keysets=ALLKS, env=ENV)
PLAN["P05"] = dict(spec="P05", families=[
    gen("few keys", 1200, 30000, storages=2, keys=3, length=40, ops=OWN, **SEQ),
    gen("many keys", 600, 20000, storages=1, keys=20, length=60, txlen=12, stop=8, prologue=fill(10), **SEQ),
    gen("key length", 500, 10000, storages=1, keys=2, length=24,
        ops=["longkey", "longkey", "search", "upsert"], **SEQ),
])

PLAN["P06"] = dict(spec="P06", families=[
    gen("few keys", 1200, 30000, storages=2, keys=4, length=30, limit=25, rev=20,
        ops=["scan", "scan", "scan", "insert", "upsert", "delete", "oscan", "nscan", "nscan", "cscan", "size", "rscan"], **SEQ),
    gen("many keys", 800, 20000, storages=1, keys=24, length=50, txlen=14, stop=6, limit=25, rev=20, prologue=fill(20),
        ops=["scan", "scan", "scan", "insert", "upsert", "delete", "delete", "delete", "oscan", "nscan", "nscan"], **SEQ),
])

SCANS = ["search", "insert", "insert", "upsert", "delete", "delete", "scan", "scan", "scan", "exist"]
PLAN["P07"] = dict(spec="P07", families=[
    gen("short, few keys", 1000, 30000, types=["S"], storages=1, keys=4, length=30, ops=SCANS, keysets=ALLKS, env=ENV),
    gen("short, filled", 800, 20000, types=["S"], storages=1, keys=14, length=40, txlen=7, prologue=fill(12), ops=SCANS,
        keysets=ALLKS, limit=25, env=ENV, envp=20),
    gen("long and short", 1000, 30000, storages=1, keys=4, length=30, types=["S", "S", "L", "L"], ops=SCANS, keysets=ALLKS,
        env=ENV, envp=20),
    gen("long", 1000, 30000, storages=2, keys=5, length=30, sessions=4, types=["L"], ops=SCANS, keysets=ALLKS, env=ENV, envp=20,
        limit=25),
])

PLAN["P08"] = dict(spec="P08", families=[
    gen("readers among writers", 1500, 40000, types=["S", "S", "L", "R", "R"], length=30, ops=CURSORS, env=ENV, envp=20, keysets=ALLKS),
    gen("reader at rest", 1000, 20000, sequential=1, types=["S", "S", "L", "R", "R"], autoE=70, length=30, env=ENV, envp=20, wpall=100),
    gen("short and readers", 1000, 30000, types=["S", "S", "R"], storages=1, keys=3, length=36, ops=CURSORS, env=ENV, envp=25),
    gen("with and without readers", 1000, 30000, spec="Pair:noR", rlast=1, sessions=4, types=["S", "S", "L"], keys=3, length=36, ops=CURSORS,
        env=ENV, envp=20, keysets=ALLKS),
])

PLAN["P09"] = dict(spec="P09", families=[
    gen("one long, shorts", 1500, 40000, types=["L", "S", "S", "S"], onelong=1, autoE=40, length=32, storages=2, keys=3, wpall=0,
        env=ENV, envp=20, keysets=ALLKS, commit=90),
    gen("one long, cursors", 1000, 30000, types=["L", "S", "S", "S"], onelong=1, autoE=70, length=34, storages=2, keys=4, wpall=0,
        ops=CURSORS, env=ENV, envp=20, keysets=ALLKS, txlen=10, stop=12, commit=90),
])

PLAN["P10"] = dict(spec="P10", families=[
    gen("mixed", 1500, 40000, types=["S", "S", "L", "L"], wpall=20, wildwp=30, length=30, env=ENV, envp=20, cb=70, autoE=50),
    gen("three storages", 1500, 30000, storages=3, keys=2, types=["S", "S", "S", "L"], wpall=20, wildwp=30, length=34, sessions=4,
        env=ENV, envp=15, cb=70, ra=20, autoE=50, ops=CURSORS),
])

PLAN["P11"] = dict(spec="P11", families=[
    gen("areas", 2500, 50000, storages=3, keys=2, types=["L", "L", "L", "S", "R"], ra=60, wpall=50, wildwp=20, autoE=85, length=26,
        ops=["search", "exist", "scan", "oscan", "insert", "upsert", "update", "delete"], txlen=4, keysets=ALLKS, env=ENV),
    gen("all lists", 1000, 20000, storages=2, keys=2, types=["L"], ra=90, wpall=80, autoE=95, length=24, sequential=1,
        ops=["search", "exist", "scan", "insert", "upsert", "update", "delete"], txlen=3),
])

PLAN["P12"] = dict(spec="P12", families=[
    gen("long", 1500, 40000, types=["L"], sessions=4, storages=3, keys=2, length=34, wpall=15, env=ENV + ["prio", "check"], envp=30,
        autoE=60),
    gen("long, read areas", 1000, 30000, types=["L", "L", "L", "S"], sessions=4, storages=3, keys=2, length=34, wpall=15, ra=40,
        env=ENV + ["prio", "check"], envp=30, autoE=60),
    gen("all kinds", 1000, 30000, types=["S", "L", "L", "R"], length=30, env=ENV + ["prio", "check"], envp=25, keysets=ALLKS),
])

PLAN["P13"] = dict(spec="P13", families=[
    gen("callbacks", 1500, 40000, cb=90, result=50, length=30, env=ENV + ["check"], envp=25, types=["S", "L", "L", "R"]),
    gen("long", 1500, 40000, cb=85, result=50, length=34, types=["L"], sessions=4, storages=2, env=ENV + ["check"], envp=25, wpall=20),
    gen("short", 800, 20000, cb=85, result=50, length=30, types=["S"], storages=1, keys=3, ops=CURSORS, env=ENV),
    gen("not begun", 300, 5000, cb=85, result=30, length=24, stray=30, ops=["commit", "search", "upsert", "abort"], flags=[16]),
])

PLAN["P14"] = dict(spec="P14", families=[
    gen("misuse", 2000, 40000, types=["S", "L", "R"], badwp=15, autoE=40, stray=35, rebegin=15, ghost=8, txid=20, acqh=20, wildwp=20,
        ops=["search", "exist", "insert", "update", "upsert", "delete", "scan", "oscan", "nscan", "rscan", "cscan", "size",
             "commit", "abort", "longkey", "upseq", "txid", "acqh", "prio"], length=30, keysets=ALLKS, env=ENV + ["prio"], envp=15,
        prologue="mkseq 1;"),
    gen("misuse while waiting", 1500, 30000, types=["L", "L", "S"], flags=[16], sessions=4, storages=2, keys=2, wpall=20, autoE=80, stray=70,
        ops=["search", "exist", "insert", "update", "upsert", "delete", "scan", "oscan", "nscan", "commit", "abort"], length=36,
        env=ENV + ["check"], envp=15, rebegin=5),
])

STATE = ["chkh", "chkh", "chkh", "relh", "E", "B"]
PLAN["P15"] = dict(spec="P15", families=[
    gen("mixed", 1500, 40000, acqh=80, env=STATE, envp=40, length=40, txlen=3, cb=70, types=["S", "L", "L", "R"], stop=30,
        ops=RW + ["acqh"], autoE=50),
    gen("long", 1500, 40000, acqh=90, env=STATE, envp=40, length=44, txlen=3, cb=70, types=["L"], sessions=4, stop=30, wpall=20,
        autoE=60, ops=RW),
    gen("late durability", 800, 20000, acqh=90, env=STATE + ["limit"], envp=45, length=40, txlen=3, cb=90, types=["S", "L"], stop=30),
])

LEAVE = ["E", "B", "leave", "leave", "leave"]
PLAN["P16"] = dict(spec="P16", families=[
    gen("come and go", 1500, 40000, env=LEAVE, envp=25, length=40, stray=15, rebegin=5, txlen=4,
        ops=RW + ["oscan", "nscan", "acqh", "txid"], acqh=20, autoE=50),
    gen("limit", 500, 20000, env=LEAVE + ["enterx"] * 5 + ["leavex"] * 3, envp=75, length=60, stray=15,
        prologue="".join("enter %d;" % i for i in range(10, 22))),
    gen("sequential", 1200, 30000, spec="P05", sequential=1, types=["S", "S", "L", "R"], env=LEAVE, envp=15, autoE=100,
        wpall=100, wildwp=0, length=40, storages=2, keys=3, ops=OWN),
])

TABLE = ["mkst", "mkst", "mkst", "rmst", "getst", "optst", "optst", "setopt", "lstor", "E", "B"]
PLAN["P17"] = dict(spec="P17", families=[
    gen("table", 1200, 30000, storages=4, keys=2, length=44, flags=[1], env=TABLE, envp=60, sequential=1, sessions=2, txlen=3, stop=30,
        types=["S", "S", "L", "R"], autoE=100, wpall=30, wildwp=10, valsets=[0, 1, 2], epilogue="lstor;final;lstor;"),
    gen("contents", 1200, 30000, storages=4, keys=2, length=44, flags=[1], env=TABLE, envp=35, sequential=1, sessions=2, txlen=4, stop=25,
        types=["S"], commit=95, prologue="mkst 1 0 0;mkst 2 7 501;mkst 3 0 502;", epilogue="lstor;final;",
        ops=["search", "insert", "upsert", "upsert", "delete", "scan"]),
])

SEQS = ["rdseq", "rdseq", "rdseq", "E", "E", "B"]
PLAN["P18"] = dict(spec="P18", families=[
    gen("mixed", 1500, 40000, sessions=4, storages=1, keys=2, length=44, types=["S", "S", "L"], env=SEQS, envp=35, stop=35, commit=80,
        autoE=50, ops=["upseq", "upseq", "upseq", "upsert", "search"], prologue="mkseq 1;mkseq 2;",
        epilogue="rdseq 1;rdseq 2;final;rdseq 1;rdseq 2;", wpall=30),
    gen("create and delete", 800, 20000, sessions=2, sequential=1, storages=1, keys=2, length=44, types=["S", "S", "L"],
        env=SEQS + ["mkseq", "rmseq", "rmseq"], envp=55, stop=40, commit=80, ops=["upseq", "upseq", "upsert"],
        prologue="mkseq 1;", epilogue="rdseq 1;rdseq 2;final;"),
    gen("restart", 600, 20000, sessions=3, storages=1, keys=2, length=40, types=["S", "S", "L"], env=SEQS * 2 + ["shutdown"], envp=40,
        stop=35, commit=85, autoE=60, ops=["upseq", "upseq", "upseq", "upsert"], prologue="mkseq 1;mkseq 2;",
        epilogue="rdseq 1;rdseq 2;shutdown 0;rdseq 1;rdseq 2;"),
])

PLAN["P23"] = dict(spec="P23", families=[
    gen("ids", 1500, 40000, txid=70, ops=RW + ["txid", "txid"], length=40, txlen=3, stop=30, stray=15, env=LEAVE, envp=15, autoE=50),
    gen("many sessions", 500, 10000, txid=90, ops=["txid", "upsert"], length=60, txlen=2, stop=50, sessions=8, stray=10, env=LEAVE, envp=20,
        autoE=50),
])

PLAN["P24"] = dict(spec="P24", families=[
    gen("mixed", 1500, 40000, result=100, length=34, commit=90, env=ENV, envp=20, keysets=ALLKS, wpall=20),
    gen("short", 1200, 30000, result=100, length=34, types=["S"], storages=2, keys=3, ops=CURSORS + ["insert", "delete"], env=ENV, keysets=ALLKS),
    gen("long", 1200, 30000, result=100, length=34, types=["L"], sessions=4, storages=2, keys=3, ra=20, wpall=20, env=ENV, envp=20,
        ops=["search", "search", "insert", "insert", "upsert", "update", "delete", "scan"]),
    gen("read areas", 500, 10000, result=100, length=30, storages=3, keys=2, types=["L", "L", "S"], ra=60, wpall=50, autoE=85,
        ops=["search", "exist", "scan", "insert", "upsert", "update", "delete"], txlen=4),
])

BUF = {"SHIRAKAMI_ENABLE_OCC_EPOCH_LOG_BUFFERING": "1"}
CRASH = ["E", "E", "E", "EB", "B", "crash"]
FUSE = ["E", "E", "E", "EB", "fuse", "fuse"]
WRITES = ["search", "search", "insert", "update", "upsert", "upsert", "upsert", "delete", "scan"]
DUR = dict(cb=100, ops=WRITES, commit=90, stop=30, keys=3, keysets=ALLKS, valsets=[0, 1])
PLAN["P19"] = dict(spec="P19", families=[
    gen("crash between calls", 1000, 30000, length=40, types=["S", "S", "L"], env=CRASH, envp=30, **DUR),
    gen("crash inside calls", 1500, 40000, length=34, types=["S", "S", "S", "L"], env=FUSE, envp=30,
        epilogue="crash 2;finalr 0;begin 1 S 0 0 0;upsert 1 1 1 880 0;commit 1 1;E;E;crash 0;finalr 0;final;", **DUR),
    gen("slow disk", 800, 20000, length=40, types=["S", "S", "L"], env=CRASH + ["limit", "limit", "E"], envp=35, **DUR),
    gen("long", 700, 20000, length=40, types=["L", "L", "S"], sessions=4, env=CRASH + ["fuse"], envp=30,
        epilogue="crash 0;finalr 0;final;", wpall=20, **DUR),
    # the log of a commit stays in the session's buffer until the epoch changes
    gen("buffered logs", 1000, 30000, sessions=2, storages=1, length=40, types=["S", "S", "S", "L"], env=CRASH + ["E", "fuse"], envp=35,
        epilogue="crash 0;finalr 0;final;", sysenv=BUF, **DUR),
    gen("long then short", 1000, 30000, sessions=2, storages=2, length=40, types=["S", "L"], env=["E", "E", "E", "E", "crash"], envp=30,
        epilogue="crash 0;finalr 0;final;", txlen=3, autoE=100, wpall=0, **dict(DUR, keys=2, stop=40)),
])

PLAN["P20"] = dict(spec="P20", families=[
    gen("markers", 1200, 30000, length=44, types=["S", "S", "L"], acqh=60, env=CRASH + ["chkh"] * 3 + ["limit", "E"], envp=40, **DUR),
    gen("just reported", 1500, 40000, length=30, types=["S", "S", "L"], acqh=60, env=["E", "EB", "chkh", "chkh", "fuse"], envp=40,
        epilogue="E;chkh 1;chkh 2;chkh 3;chkh 4;crash 0;finalr 0;E;B;E;final;", **DUR),
    gen("many sessions", 700, 20000, sessions=6, length=50, txlen=3, types=["S"], acqh=40,
        env=["E", "E", "EB", "chkh", "chkh", "fuse", "crash"], envp=35, **DUR),
])

PLAN["P21"] = dict(spec="P21", families=[
    gen("restarts", 1200, 30000, length=40, types=["S", "S", "L", "R"], env=["E", "E", "EB", "B", "shutdown"], envp=25, reread=1,
        epilogue="shutdown 0;finalr 0;E;E;shutdown 2;finalr 0;final;", **DUR),
    gen("many keys", 500, 10000, length=44, txlen=12, storages=3, types=["S", "L"], env=["E", "EB", "shutdown"], envp=15, reread=1,
        epilogue="shutdown 3;finalr 0;final;", **dict(DUR, keys=20, stop=8)),
    gen("storages", 1000, 20000, spec="P17", storages=4, keys=2, length=44, flags=[1], env=TABLE + ["shutdown"] * 2, envp=55, sequential=1,
        quietrm=1, sessions=2, txlen=3, stop=30, types=["S", "S", "L"], autoE=100, wpall=30, wildwp=10, valsets=[0, 1, 2], commit=95,
        epilogue="shutdown 0;lstor;optst 1;optst 2;optst 3;optst 4;final;shutdown 2;lstor;final;"),
    # listed in known-findings.txt
    fixed("deleted in the epoch of its last write", spec="P17", scripts=[
        "cfg 0 0 2 4 1 1;mkst 1 9 0;begin 2 S 0 0 0;insert 2 1 1 2 0;commit 2 1;rmst 1;mkst 4 9 501;shutdown 0;final"]),
    gen("sequences", 800, 20000, spec="P18", sessions=3, storages=1, keys=2, length=40, types=["S", "S", "L"],
        env=SEQS * 2 + ["shutdown"], envp=40, stop=35, commit=85, autoE=60, ops=["upseq", "upseq", "upseq", "upsert"],
        prologue="mkseq 1;mkseq 2;", epilogue="rdseq 1;rdseq 2;shutdown 2;rdseq 1;rdseq 2;shutdown 0;rdseq 1;rdseq 2;"),
])

SETTLE = "E;B;" * 6
MEASURE = ("begin 8 S 0 0 0;upsert 8 1 1 990 0;upsert 8 2 1 991 0;commit 8 0;" + SETTLE +
           "begin 8 S 0 0 0;oscan 8 1 1 2 1 2 0 0 1;size 8 1;oscan 8 2 1 2 1 2 0 0 2;size 8 2;commit 8 0;")
BUSY = ["E", "B", "EB", "EB", "EBEB"]
PLAN["P22"] = dict(spec="P22", families=[
    gen("mixed", 1000, 30000, types=["S", "S", "L", "L", "R"], keys=3, length=36, env=BUSY, envp=40, keysets=ALLKS, iter=[0, 0, 1],
        ops=["search", "search", "insert", "upsert", "delete", "delete", "scan", "oscan", "nscan"], epilogue="final;" + SETTLE + MEASURE),
    gen("many keys", 500, 15000, types=["S", "L"], keys=16, length=44, txlen=8, env=BUSY, envp=25, keysets=ALLKS, iter=[0],
        prologue=fill(16), commit=75, stop=10,
        ops=["search", "insert", "insert", "upsert", "delete", "delete", "delete", "scan"], epilogue="final;" + SETTLE + MEASURE),
    gen("with and without", 1000, 30000, spec="Pair:noB", onelong=1, types=["S", "S", "S", "L", "R"], keys=4, length=36, env=BUSY,
        envp=35, keysets=ALLKS, ops=CURSORS),
    gen("memory", 300, 8000, variant="h3", chunk=100, types=["S", "S", "L", "R"], keys=3, length=40, env=BUSY, envp=40, keysets=ALLKS,
        flags=[4], ops=["search", "search", "insert", "upsert", "delete", "delete", "scan", "oscan", "nscan"],
        epilogue="final;" + SETTLE),
])

def alone(nst, nk):
    """every operation on every key, one transaction at a time"""
    r = ""
    v = 800
    for ty in "SL":
        for p in range(1, nst + 1):
            for k in range(1, nk + 1):
                for ops in ("search;insert;update", "exist;update;delete", "insert;search", "upsert;delete", "delete;insert"):
                    r += "begin 7 %s %d 0 0;" % (ty, 2 ** (p) if ty == "L" else 0) + ("E;" if ty == "L" else "")
                    for o in ops.split(";"):
                        v += 1
                        r += "%s 7 %d %d%s;" % (o, p, k, " %d 0" % v if o in ("insert", "update", "upsert") else "")
                    r += "commit 7 1;"
    return r + "final;"


PLAN["P25"] = dict(spec="P25", families=[
    gen("user aborts", 900, 30000, types=["S", "S", "L"], storages=1, keys=2, length=24, commit=35, env=ENV, envp=20, keysets=ALLKS,
        ops=CURSORS, epilogue="final;" + alone(1, 2) + "E;B;E;B;log;"),
    gen("conflicts", 900, 30000, types=["S", "S", "L", "L"], sessions=4, storages=1, keys=2, length=30, commit=80, env=ENV, envp=20, wpall=60,
        ops=CURSORS, epilogue="final;" + alone(1, 2) + "E;B;E;B;log;"),
    gen("leaving", 500, 20000, types=["S", "S", "L"], storages=1, keys=2, length=30, commit=60, env=["E", "B", "leave", "leave"], envp=25,
        ops=CURSORS, epilogue="final;" + alone(1, 2)),
    gen("beside a long one", 1000, 30000, types=["L", "S", "S"], onelong=1, commit=30, length=30, storages=2, keys=3, autoE=100, wpall=0,
        env=ENV, envp=15, ops=CURSORS, epilogue="final;"),
    gen("one at a time", 900, 30000, spec="P05", sequential=1, autoE=100, wpall=100, wildwp=0, types=["S", "S", "L", "R"], commit=45,
        storages=2, keys=3, length=40, ops=OWN, keysets=ALLKS, env=ENV),
])

PLAN["P26"] = dict(spec="P26", families=[
    gen("mixed", 1200, 40000, types=["S", "S", "L", "R"], blob=30, commit=80, length=34, env=ENV, envp=20, keysets=ALLKS, valsets=[0, 1, 2],
        cb=50, epilogue="final;E;B;E;B;log;"),
    gen("own deletes", 1000, 30000, types=["S", "L"], storages=1, keys=2, blob=30, commit=85, length=34, txlen=8, stop=12, ops=OWN, env=ENV,
        epilogue="final;E;B;E;B;log;"),
    gen("long", 900, 30000, types=["L", "L", "S"], sessions=4, storages=2, keys=2, wpall=30, blob=20, length=36, env=ENV, envp=20,
        epilogue="final;E;B;E;B;log;", ops=["search", "insert", "upsert", "upsert", "update", "delete"]),
    gen("buffered logs", 700, 20000, types=["S", "S", "L"], blob=20, length=34, env=ENV, envp=20, sysenv=BUF,
        epilogue="final;E;B;E;B;log;"),
])

# the same kinds of programs with every session a thread of its own; calls overlap
SMALL = dict(sessions=3, storages=1, keys=3, length=16, txlen=4, env=ENV, envp=15, autoE=100)


def threads(prop, *families):
    PLAN[prop]["families"] += families


threads("P01",
        conc("threads", 250, 40000, ops=CURSORS, **SMALL),
        conc("threads, short", 250, 40000, types=["S"], **dict(SMALL, keys=2)),
        conc("threads, long", 250, 30000, types=["L", "L", "S"], ra=20, **dict(SMALL, storages=2)),
        conc("threads, scans", 250, 30000, types=["S", "S", "L"], prologue=fill(6), ops=SCANS, keysets=ALLKS, **dict(SMALL, keys=8)))
DUEL = dict(storages=1, keys=2, length=34, txlen=2, stop=40, commit=95, prologue=fill(2), env=ENV, envp=8, autoE=100)
threads("P01",
        meet("meeting, short", 1500, 40000, sessions=3, types=["S"], ops=["search", "search", "upsert", "update", "upsert", "scan"], **DUEL),
        meet("meeting, presence", 1000, 40000, sessions=3, types=["S"], ops=["search", "insert", "insert", "delete", "delete", "upsert", "scan"], **DUEL),
        meet("meeting, all", 1000, 40000, sessions=4, types=["S", "S", "L", "R"], ops=["search", "search", "insert", "delete", "upsert", "scan"], **DUEL))
threads("P02", conc("threads", 266, 40000, types=["S"], ops=CURSORS, **dict(SMALL, length=20, keys=2)))
threads("P03", conc("threads", 266, 40000, valsets=[0, 1, 2], commit=70, **SMALL),
        conc("threads, short", 250, 30000, types=["S"], valsets=[0, 1, 2], commit=70, **SMALL))
threads("P07", conc("threads, short", 266, 40000, types=["S"], ops=SCANS, **SMALL),
        conc("threads, long", 250, 30000, types=["S", "L", "L"], ops=SCANS, **SMALL))
threads("P08", conc("threads", 266, 40000, types=["S", "S", "L", "R", "R"], **SMALL))
threads("P12", conc("threads", 266, 40000, types=["L", "L", "S"], wpall=20, **dict(SMALL, storages=2, keys=2)))
threads("P16", conc("threads", 266, 40000, **dict(SMALL, sessions=5, length=24, env=LEAVE, envp=25)))
threads("P18", conc("threads", 266, 40000, sessions=4, storages=1, keys=2, length=24, types=["S", "S", "L"], env=SEQS, envp=30, stop=35, commit=80,
                    autoE=100, ops=["upseq", "upseq", "upseq", "upsert"], prologue="mkseq 1;mkseq 2;", wpall=30,
                    epilogue="rdseq 1;rdseq 2;final;rdseq 1;rdseq 2;"))
threads("P19", conc("threads", 266, 40000, sessions=3, storages=1, length=22, types=["S", "S", "L"], env=["E", "E", "EB", "fuse"], envp=25,
                    epilogue="crash 0;finalr 0;final;", autoE=100, **DUR),
        conc("threads, buffered logs", 250, 30000, sessions=3, storages=1, length=22, types=["S", "S", "L"], env=["E", "E", "EB", "fuse"], envp=25,
             epilogue="crash 0;finalr 0;final;", autoE=100, sysenv=BUF, **DUR))
threads("P20", conc("threads", 266, 40000, sessions=3, storages=1, length=22, types=["S", "S", "L"], acqh=60,
                    env=["E", "E", "EB", "chkh", "chkh", "fuse"], envp=35, autoE=100, epilogue="E;chkh 1;chkh 2;chkh 3;crash 0;finalr 0;final;", **DUR))
threads("P22", conc("threads", 266, 40000, types=["S", "S", "L", "R"], ops=["search", "search", "insert", "upsert", "delete", "delete", "scan"],
                    epilogue="final;" + SETTLE + MEASURE, **dict(SMALL, env=BUSY, envp=40, length=24, storages=2)))
threads("P23", conc("threads", 250, 30000, txid=70, ops=RW + ["txid", "txid"], **dict(SMALL, sessions=4, length=24, txlen=3, env=LEAVE)))
threads("P25", conc("threads", 250, 40000, types=["S", "S", "L"], commit=50, ops=CURSORS, epilogue="final;" + alone(1, 2) + "E;B;E;B;log;",
                    **dict(SMALL, keys=2)))
threads("P26", conc("threads", 266, 40000, types=["S", "S", "L"], blob=20, epilogue="final;E;B;E;B;log;", **SMALL),
        conc("threads, buffered logs", 250, 40000, types=["S", "S", "L"], blob=20, sysenv=BUF, epilogue="final;E;B;E;B;log;", **SMALL))

MIX = ["search", "search", "insert", "delete", "upsert", "scan"]
MEETDUR = dict(DUEL, cb=100, commit=90, keys=3, prologue="", valsets=[0, 1])
FRESH = dict(DUEL, length=20, keys=3, prologue="")
threads("P01",
        meet("meeting, fresh", 1500, 40000, sessions=3, types=["S"], ops=["search", "insert", "upsert", "upsert", "delete", "scan", "scan"], **FRESH),
        meet("meeting, fresh, all kinds", 800, 30000, sessions=3, types=["S", "S", "L"], ops=["search", "insert", "upsert", "upsert", "scan", "scan"], **FRESH))
threads("P03", meet("meeting, fresh", 1000, 40000, sessions=3, types=["S", "S", "L", "R"], ops=["search", "insert", "upsert", "upsert", "scan", "scan"], valsets=[0, 1, 2], **FRESH))
threads("P07", meet("meeting, fresh", 1000, 40000, sessions=3, types=["S"], ops=["search", "insert", "upsert", "scan", "scan"], **FRESH))
threads("P02", meet("meeting", 1200, 40000, sessions=3, types=["S"], ops=MIX, **DUEL),
        meet("meeting, all kinds", 600, 30000, sessions=4, types=["S", "S", "L"], ops=MIX, **DUEL))
threads("P03", meet("meeting, short", 1000, 40000, sessions=3, types=["S"], valsets=[0, 1, 2], ops=["search", "search", "upsert", "update", "scan"],
                    **dict(DUEL, txlen=3, commit=80)),
        meet("meeting, all kinds", 1000, 40000, sessions=4, types=["S", "S", "L", "R"], valsets=[0, 1, 2],
             ops=["search", "search", "upsert", "upsert", "update", "scan"], **dict(DUEL, commit=80)))
threads("P04", meet("meeting", 800, 30000, sessions=3, types=["S", "S", "L"], ops=OWN, **dict(DUEL, txlen=6, stop=20)))
threads("P07", meet("meeting, short", 1200, 40000, sessions=3, types=["S"], ops=SCANS, **dict(DUEL, keys=4)),
        meet("meeting, all kinds", 800, 30000, sessions=4, types=["S", "S", "L"], ops=SCANS, **dict(DUEL, keys=3)))
threads("P08", meet("meeting", 1500, 40000, sessions=4, types=["S", "S", "L", "R", "R"], ops=["search", "search", "upsert", "insert", "delete", "scan", "scan"],
                    **dict(DUEL, envp=20)))
threads("P09", meet("meeting", 1200, 40000, sessions=4, types=["L", "S", "S", "S"], onelong=1, wpall=0,
                    ops=["search", "search", "upsert", "insert", "delete", "scan"], **dict(DUEL, envp=20, txlen=3)))
threads("P10", meet("meeting", 1200, 40000, sessions=4, types=["L", "S", "S"], wpall=20, wildwp=30, ops=MIX, **dict(DUEL, storages=2, envp=20)))
threads("P12", meet("meeting", 1000, 40000, sessions=4, types=["L", "L", "L", "S"], wpall=20, ops=MIX, **dict(DUEL, storages=2, envp=20)))
threads("P13", meet("meeting", 1000, 40000, sessions=4, cb=90, result=50, types=["L", "L", "S"], ops=MIX, **dict(DUEL, envp=20)))
threads("P15", meet("meeting", 1000, 40000, sessions=4, acqh=80, cb=70, types=["L", "L", "S"], ops=MIX, **dict(DUEL, env=STATE, envp=40)))
threads("P16", meet("meeting", 1000, 40000, sessions=5, ops=MIX, **dict(DUEL, env=LEAVE, envp=25)))
threads("P18", meet("meeting", 1200, 40000, sessions=4, types=["S", "S", "L"], ops=["upseq", "upseq", "upseq", "upsert"], wpall=30,
                    **dict(DUEL, env=SEQS, envp=25, commit=85, prologue="mkseq 1;mkseq 2;", epilogue="rdseq 1;rdseq 2;final;rdseq 1;rdseq 2;")))
threads("P19", meet("meeting", 1200, 40000, sessions=4, types=["S", "S", "L"], ops=WRITES, epilogue="crash 0;finalr 0;final;",
                    **dict(MEETDUR, env=["E", "E", "EB", "fuse"], envp=30)),
        meet("meeting, buffered logs", 1000, 40000, sessions=3, types=["S", "S", "L"], ops=WRITES, epilogue="crash 0;finalr 0;final;", sysenv=BUF,
             **dict(MEETDUR, env=["E", "E", "EB", "fuse"], envp=30)))
threads("P20", meet("meeting", 1200, 40000, sessions=4, types=["S", "S", "L"], ops=WRITES, acqh=60,
                    epilogue="E;chkh 1;chkh 2;chkh 3;crash 0;finalr 0;final;",
                    **dict(MEETDUR, env=["E", "E", "EB", "chkh", "chkh", "fuse"], envp=35)),
        meet("meeting, buffered logs", 800, 40000, sessions=3, types=["S", "S", "L"], ops=WRITES, acqh=60, sysenv=BUF,
             epilogue="E;chkh 1;chkh 2;chkh 3;crash 0;finalr 0;final;",
             **dict(MEETDUR, env=["E", "E", "EB", "chkh", "chkh", "fuse"], envp=35)))
threads("P22", meet("meeting", 1000, 40000, sessions=4, types=["S", "S", "L", "R"], ops=["search", "search", "insert", "upsert", "delete", "delete", "scan"],
                    epilogue="final;" + SETTLE + MEASURE, **dict(DUEL, env=BUSY, envp=40)))
threads("P23", meet("meeting", 600, 30000, sessions=4, txid=70, ops=["txid", "txid", "upsert"], **dict(DUEL, env=LEAVE, envp=15)))
threads("P24", meet("meeting", 1000, 40000, sessions=4, result=100, types=["S", "S", "L"], ops=MIX, **DUEL))
threads("P25", meet("meeting", 800, 40000, sessions=4, types=["S", "S", "L"], ops=CURSORS, epilogue="final;" + alone(1, 2) + "E;B;E;B;log;",
                    **dict(DUEL, commit=50)))
threads("P26", meet("meeting", 1000, 40000, sessions=4, types=["S", "S", "L"], blob=20, ops=WRITES, epilogue="final;E;B;E;B;log;", **DUEL),
        meet("meeting, buffered logs", 800, 40000, sessions=3, types=["S", "S", "L"], blob=20, ops=WRITES, sysenv=BUF,
             epilogue="final;E;B;E;B;log;", **DUEL))

STRAND = dict(sessions=1, sequential=1, autoE=100, wpall=100, wildwp=0, types=["S", "L"], storages=1, keys=3, length=22, txlen=7, stop=10,
              flags=[32], prologue=fill(2), env=ENV, envp=5)
POINTS = ["search", "exist", "insert", "insert", "update", "upsert", "upsert", "delete", "delete"]
PLAN["P27"] = dict(spec="P27", families=[
    strand("shared", 1500, 40000, share=POINTS, ops=POINTS, **STRAND),
    strand("shared, fresh", 1500, 40000, share=POINTS, ops=POINTS, **dict(STRAND, prologue="", length=14)),
    strand("shared scans", 800, 30000, spec="P06", share=["scan", "search", "exist"], ops=["scan", "scan", "search", "exist", "upsert", "insert", "delete"],
           **dict(STRAND, types=["S", "L", "R"], keys=6, prologue=fill(5))),
])

SHARP = dict(storages=1, length=4, commit=95, env=["E"], envp=30)
threads("P01", duel("duels, short", 4000, 20000, types=["S"], **SHARP),
        duel("duels, long", 2500, 20000, types=["S", "L", "L"], **SHARP),
        duel("duels, two storages", 1500, 10000, types=["S", "S", "L", "R"], **dict(SHARP, storages=2)))
ALLW = ("insert", "update", "upsert", "upsert", "delete")
threads("P02", duel("duels", 2500, 30000, types=["S"], **SHARP),
        duel("duels, all kinds", 1000, 20000, types=["S", "S", "L", "R"], **SHARP))
threads("P03", duel("duels", 2500, 30000, types=["S", "S", "S", "L", "R"], **dict(SHARP, commit=75, valsets=[0, 1, 2])))
threads("P07", duel("duels", 2500, 30000, types=["S"], reads=("scan", "scan", "scan", "search"), writes=("insert", "insert", "upsert", "delete"),
                    start=("-", "-", "p", "d"), **SHARP),
        duel("duels, long", 1500, 20000, types=["S", "L", "L"], reads=("scan", "scan", "scan", "search"), writes=("insert", "insert", "upsert", "delete"),
             start=("-", "-", "p", "d"), **SHARP))
threads("P08", duel("duels", 2500, 30000, types=["S", "S", "L", "R", "R"], **dict(SHARP, envp=60)))
threads("P09", duel("duels", 2500, 30000, types=["L", "S"], onelong=1, **dict(SHARP, envp=40, wpall=0)))
threads("P10", duel("duels", 2500, 30000, types=["L", "L", "S"], **dict(SHARP, storages=2, envp=40, wpall=20)))
threads("P12", duel("duels", 2500, 30000, types=["L", "L", "L", "S"], **dict(SHARP, storages=2, envp=40, wpall=20)))
threads("P13", duel("duels", 2000, 30000, types=["L", "L", "S", "R"], **dict(SHARP, envp=40, cb=90, result=50)))
threads("P15", duel("duels", 2000, 30000, types=["L", "L", "S"], **dict(SHARP, envp=70, cb=70, acqh=80, env=["E", "B", "chkh", "chkh", "chkh"])))
threads("P18", duel("duels", 2500, 30000, types=["S", "S", "L"], reads=("search",), writes=("upseq", "upseq", "upseq", "upsert"),
                    **dict(SHARP, envp=60, env=["E", "B", "EB", "rdseq", "rdseq"], commit=85, prologue="mkseq 1;mkseq 2;",
                           epilogue="rdseq 1;rdseq 2;final;rdseq 1;rdseq 2;")))
SHARPDUR = dict(SHARP, cb=100, envp=70, env=["E", "E", "EB", "B", "fuse"])
for _e, _n in ((None, "duels"), (BUF, "duels, buffered logs")):
    threads("P19", duel(_n, 2500, 30000, types=["S", "S", "L"], sysenv=_e, epilogue="crash 0;finalr 0;final;", **SHARPDUR))
    threads("P20", duel(_n, 2500, 30000, types=["S", "S", "L"], sysenv=_e, acqh=60, epilogue="chkh 1;chkh 2;crash 0;finalr 0;final;",
                        **dict(SHARPDUR, env=["E", "E", "EB", "B", "chkh", "fuse"])))
    threads("P26", duel(_n, 1500, 20000, types=["S", "S", "L"], sysenv=_e, blob=20, epilogue="final;E;B;E;B;log;", **dict(SHARP, envp=50, commit=80)))
SEQCRASH = dict(reads=("search",), writes=("upseq", "upseq", "upsert"), prologue="mkseq 1;mkseq 2;", epilogue="crash 0;rdseq 1;rdseq 2;finalr 0;final;")
threads("P19", gen("sequences", 800, 20000, sessions=3, storages=1, length=36, types=["S", "S", "L"], env=CRASH + ["fuse", "E", "rdseq"], envp=35,
                   prologue="mkseq 1;mkseq 2;E;E;", epilogue="crash 0;rdseq 1;rdseq 2;finalr 0;final;",
                   **dict(DUR, ops=["upseq", "upseq", "upsert", "upsert", "search"])),
        duel("duels, sequences", 5000, 30000, types=["S", "S", "L"], **dict(SHARPDUR, **SEQCRASH)))
threads("P22", duel("duels", 2000, 30000, types=["S", "S", "L", "R"], epilogue="final;" + SETTLE + MEASURE, writes=("insert", "upsert", "delete", "delete"),
                    **dict(SHARP, envp=80, env=["B", "EB", "E"])))
threads("P24", duel("duels", 2000, 30000, types=["S", "S", "L"], result=100, **SHARP))
threads("P25", duel("duels", 2000, 30000, types=["S", "S", "L"], epilogue="final;" + alone(1, 3) + "E;B;E;B;log;", **dict(SHARP, commit=50)))
