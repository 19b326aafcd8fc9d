"""Genuine defects that are listed rather than repaired: known-findings.txt.

Lines `open: property=<id> key=<key> <what fails>` name a predicate below; a
rejected history that satisfies it is reported as known.  `fixed:` lines are a
record only and suppress nothing."""
import os
import re

HERE = os.path.dirname(os.path.abspath(__file__))


def same_epoch_removal(ev, pos):
    """What was read after a restart was written to another storage of the same
    id, which was deleted in the epoch in which that write was committed."""
    e = ev[pos - 1]
    before = ev[:pos]
    if not any(x["o"] == "shutdown" for x in before):
        return False
    if e["o"] == "commit":
        reads = [x for x in before if x["o"] == "rscan" and x["t"] == e["t"]]
    else:
        reads = [e] if e["o"] == "rscan" else []
    foreign = [w for w in (came_from(before, x) for x in reads if x.get("rc2") == "OK") if w]
    return bool(foreign) and all(w == "removed" for w in foreign)


def came_from(before, e):
    """None: written in the storage it was read from; "removed": in another one
    of the same id, deleted in the epoch of that write; "elsewhere"."""
    opened = [x for x in before if x["o"] == "oscan" and x["s"] == e["s"] and x["h"] == e["h"]]
    ids = {x["p"]: x["id"] for x in before if x["o"] == "mkst" and x["rc"] == "OK"}
    here = opened[-1]["p"] if opened else 0
    writes = [(i, w) for i, w in enumerate(before) if w["o"] in ("insert", "update", "upsert") and w["v"] == e["v"]]
    if any(w["p"] == here for _, w in writes):
        return None
    for i, w in writes:
        if here not in ids or ids.get(w["p"]) != ids[here]:
            continue
        done = [j for j in range(i, len(before)) if before[j]["o"] == "commit" and before[j]["t"] == w["t"]]
        gone = [j for j in range(i, len(before)) if before[j]["o"] == "rmst" and before[j]["p"] == w["p"] and before[j]["rc"] == "OK"]
        if done and gone and not any(x["o"] in ("E", "shutdown", "crash") for x in before[done[0]:gone[0]]):
            return "removed"
    return "elsewhere"


# key -> predicate(events, position of the rejection)
PREDICATES = {"same-epoch-removal": same_epoch_removal}


def entries():
    p = os.path.join(HERE, "known-findings.txt")
    if not os.path.exists(p):
        return []
    return [m.groups() for m in (re.match(r"open: property=(\S+) key=(\S+) (.*)", l) for l in open(p)) if m]


def match(prop, ev, pos):
    for p, key, text in entries():
        if p == prop and key in PREDICATES and PREDICATES[key](ev, pos):
            return text
    return None
