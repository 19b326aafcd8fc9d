-------------------------------- MODULE Obs --------------------------------
(***************************************************************************)
(* What a client can observe of shirakami, as a state machine over API     *)
(* events.  The state is a table of transactions (mode, phase, its own     *)
(* writes, what it read from the database) plus the cursors that are open. *)
(* Step(st, e) is the effect of one event.  The property modules P*.tla    *)
(* put their conditions on top of it; the same conditions are checked on   *)
(* histories of the protocol model (Engine.tla) and on histories recorded  *)
(* from the real engine.                                                   *)
(*                                                                         *)
(* Events are records with the field o (operation) and, per operation:     *)
(*   s session, t transaction number, p storage, k key, v value id,        *)
(*   rc the status returned ... (see harness/h1.cpp and Engine.tla).       *)
(* A value id identifies the write that produced the value; 0 = no record, *)
(* -1 = bytes nobody wrote.                                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

EmptyF == [x \in {} |-> 0]
Put(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]
Drop(f, x) == [y \in DOMAIN f \ {x} |-> f[y]]
Get(f, x) == IF x \in DOMAIN f THEN f[x] ELSE 0
Range(f) == {f[x] : x \in DOMAIN f}

Cancelled == -5   \* own write withdrawn by "cancel previous upsert"

Errs == {"ERR_CC", "ERR_KVS", "ERR_READ_AREA_VIOLATION", "ERR_FATAL", "ERR_FATAL_INDEX"}
IsErr(rc) == rc \in Errs

ReadOps == {"search", "exist"}
WriteOps == {"insert", "update", "upsert", "delete"}
DataOps == ReadOps \cup WriteOps

NoTx == [ty |-> "-", s |-> 0, ph |-> "none", own |-> EmptyF, first |-> EmptyF,
         facts |-> {}, scans |-> {}, b |-> 0, be |-> 0, cq |-> 0, cqe |-> 0,
         ce |-> 0, wp |-> 0, rp |-> 0, rn |-> 0, sts |-> {}, live |-> {},
         nops |-> 0, why |-> "-"]

Init0 == [txs |-> EmptyF, act |-> EmptyF, cur |-> EmptyF, wr |-> EmptyF,
          ep |-> 0, n |-> 0, died |-> FALSE, hang |-> FALSE, stuck |-> {},
          finals |-> {}, crashes |-> 0]

Tx(st, t) == IF t \in DOMAIN st.txs THEN st.txs[t] ELSE NoTx
SetTx(st, t, r) == [st EXCEPT !.txs = Put(st.txs, t, r)]
IsActive(st, t) == Tx(st, t).ph = "act"
Committed(st) == {t \in DOMAIN st.txs : st.txs[t].ph = "com"}
LiveLong(st) == {t \in DOMAIN st.txs : st.txs[t].ty = "L" /\ st.txs[t].ph \in {"act", "wait"}}

\* bit b (1..) of mask m
RECURSIVE Pow2(_)
Pow2(n) == IF n = 0 THEN 1 ELSE 2 * Pow2(n - 1)
Bit(m, b) == (m \div Pow2(b)) % 2 = 1
Mask(m) == {b \in 1..10 : Bit(m, b)}

InRange(k, sc) ==
    /\ CASE sc.le = 0 -> k > sc.lk [] sc.le = 1 -> k >= sc.lk [] OTHER -> TRUE
    /\ CASE sc.re = 0 -> k < sc.rk [] sc.re = 1 -> k <= sc.rk [] OTHER -> TRUE

----------------------------------------------------------------------------
(* effect of the single events *)

EndTx(st, t, ph, why) ==
    LET r == Tx(st, t) IN
    IF r.ph \in {"act", "wait"}
    THEN [SetTx(st, t, [r EXCEPT !.ph = ph, !.ce = st.n, !.why = why])
            EXCEPT !.cur = [c \in {d \in DOMAIN st.cur : d[1] # t} |-> st.cur[c]]]
    ELSE st

OnBegin(st, e) ==
    IF e.rc = "OK"
    THEN SetTx([st EXCEPT !.act = Put(st.act, e.s, e.t), !.ep = e.e], e.t,
               [NoTx EXCEPT !.ty = e.ty, !.s = e.s, !.ph = "act", !.b = st.n,
                            \* (the epoch may be changing while threads run)
                            !.be = e.e + (IF "th" \in DOMAIN e THEN 1 ELSE 0), !.wp = e.wp, !.rp = e.rp, !.rn = e.rn,
                            !.live = LiveLong(st)])
    ELSE st

\* external read: the tx learns something about x not covered by its own writes
Learn(r, x, f) == IF x \in DOMAIN r.own THEN r ELSE [r EXCEPT !.facts = @ \cup {f}]

OnRead(st, e) ==
    LET r == Tx(st, e.t)
        x == <<e.p, e.k>>
        r1 == [r EXCEPT !.nops = @ + 1, !.sts = @ \cup {e.p}]
    IN CASE r.ph # "act" -> st
         [] e.rc = "OK" /\ e.o = "search" ->
              SetTx(st, e.t, Learn(r1, x, <<"v", e.p, e.k, e.v, st.n>>))
         [] e.rc = "OK" /\ e.o = "exist" ->
              SetTx(st, e.t, Learn(r1, x, <<"p", e.p, e.k, 0, st.n>>))
         [] e.rc = "WARN_NOT_FOUND" ->
              SetTx(st, e.t, Learn(r1, x, <<"v", e.p, e.k, 0, st.n>>))
         [] IsErr(e.rc) -> EndTx(st, e.t, "abt", e.rc)
         [] OTHER -> SetTx(st, e.t, r1)

OnWrite(st, e) ==
    LET r == Tx(st, e.t)
        x == <<e.p, e.k>>
        r1 == [r EXCEPT !.nops = @ + 1, !.sts = @ \cup {e.p}]
        w == [st EXCEPT !.wr = Put(st.wr, e.v, e.t)]
    IN CASE r.ph # "act" -> st
         [] e.rc = "OK" /\ e.o = "insert" ->
              SetTx(w, e.t, [Learn(r1, x, <<"i", e.p, e.k, 0, st.n>>) EXCEPT !.own = Put(r.own, x, e.v)])
         [] e.rc = "OK" /\ e.o = "update" ->
              SetTx(w, e.t, [Learn(r1, x, <<"p", e.p, e.k, 0, st.n>>) EXCEPT !.own = Put(r.own, x, e.v)])
         [] e.rc = "OK" /\ e.o = "upsert" ->
              SetTx(w, e.t, [r1 EXCEPT !.own = Put(r.own, x, e.v)])
         [] e.rc = "OK" /\ e.o = "delete" ->
              SetTx(st, e.t, [Learn(r1, x, <<"p", e.p, e.k, 0, st.n>>) EXCEPT !.own = Put(r.own, x, 0)])
         [] e.rc = "WARN_CANCEL_PREVIOUS_INSERT" ->
              \* the insert never happened; a short transaction no longer
              \* answers for the absence it had relied on
              SetTx(st, e.t, [r1 EXCEPT !.own = Drop(r.own, x),
                    !.facts = IF r.ty = "S" THEN {f \in @ : ~(f[1] = "i" /\ <<f[2], f[3]>> = x)} ELSE @])
         [] e.rc = "WARN_CANCEL_PREVIOUS_UPSERT" ->
              SetTx(st, e.t, [r1 EXCEPT !.own = Put(r.own, x, Cancelled)])
         [] e.rc = "WARN_ALREADY_EXISTS" ->
              SetTx(st, e.t, Learn(r1, x, <<"p", e.p, e.k, 0, st.n>>))
         [] e.rc = "WARN_NOT_FOUND" ->
              \* said by update / delete.  Only a long transaction turns it into
              \* a read it answers for.
              IF r.ty = "L" THEN SetTx(st, e.t, Learn(r1, x, <<"v", e.p, e.k, 0, st.n>>))
              ELSE SetTx(st, e.t, r1)
         [] IsErr(e.rc) -> EndTx(st, e.t, "abt", e.rc)
         [] OTHER -> SetTx(st, e.t, r1)

\* A cursor: the range, what it returned so far, own writes when it was opened.
OnOpen(st, e) ==
    LET r == Tx(st, e.t)
        sc == [t |-> e.t, p |-> e.p, lk |-> e.lk, le |-> e.le, rk |-> e.rk, re |-> e.re,
               mx |-> e.mx, rev |-> e.rev, got |-> <<>>, end |-> FALSE, fuzzy |-> FALSE,
               own |-> r.own, ch |-> {}, at |-> st.n, upto |-> st.n]
        r1 == [r EXCEPT !.nops = @ + 1, !.sts = @ \cup {e.p}]
    IN CASE r.ph # "act" -> st
         [] e.rc = "OK" -> [SetTx(st, e.t, r1) EXCEPT !.cur = Put(st.cur, <<e.t, e.h>>, sc)]
         [] e.rc = "WARN_NOT_FOUND" ->
              SetTx(st, e.t, [r1 EXCEPT !.scans = @ \cup {[sc EXCEPT !.end = (e.mx = 0)]}])
         [] IsErr(e.rc) -> EndTx(st, e.t, "abt", e.rc)
         [] OTHER -> SetTx(st, e.t, r1)

\* a storage that is not there has no records
OnNoStorage(st, e) ==
    LET r == Tx(st, e.t)
        sc == [t |-> e.t, p |-> e.p, lk |-> 0, le |-> 2, rk |-> 0, re |-> 2,
               mx |-> 0, rev |-> 0, got |-> <<>>, end |-> TRUE, fuzzy |-> FALSE,
               own |-> r.own, ch |-> {}, at |-> st.n, upto |-> st.n]
    IN IF r.ph = "act" THEN SetTx(st, e.t, [r EXCEPT !.scans = @ \cup {sc}]) ELSE st

OnCursorRead(st, e) ==
    LET c == <<e.t, e.h>>
        r == Tx(st, e.t)
    IN IF IsErr(e.rc) \/ IsErr(e.rc2) THEN EndTx(st, e.t, "abt", IF IsErr(e.rc) THEN e.rc ELSE e.rc2)
       ELSE IF c \notin DOMAIN st.cur \/ r.ph # "act" THEN st
       ELSE LET sc == st.cur[c] IN
            IF e.rc = "OK" /\ e.rc2 = "OK"
            THEN [st EXCEPT !.cur = Put(st.cur, c,
                    IF sc.got # <<>> /\ sc.got[Len(sc.got)][1] = e.k
                    THEN [sc EXCEPT !.fuzzy = @ \/ sc.got[Len(sc.got)][2] # e.v, !.upto = st.n]
                    ELSE [sc EXCEPT !.got = Append(@, <<e.k, e.v>>), !.upto = st.n])]
            ELSE IF e.rc = "WARN_NOT_FOUND" /\ e.rc2 = "WARN_NOT_FOUND"
            THEN [st EXCEPT !.cur = Put(st.cur, c, [sc EXCEPT !.upto = st.n])]
            ELSE [st EXCEPT !.cur = Put(st.cur, c, [sc EXCEPT !.fuzzy = TRUE])]

\* What the cursor has returned becomes a fact of the transaction.  Whether a
\* cursor shows writes the transaction made after opening it is left open (ch).
Flush(st, c) ==
    LET sc == st.cur[c]
        r == Tx(st, sc.t)
        ch == {x \in DOMAIN r.own \cup DOMAIN sc.own :
                  x \notin DOMAIN r.own \/ x \notin DOMAIN sc.own \/ r.own[x] # sc.own[x]}
    IN SetTx(st, sc.t, [r EXCEPT !.scans = @ \cup {[sc EXCEPT !.ch = ch]}])

OnNext(st, e) ==
    LET c == <<e.t, e.h>> IN
    IF IsErr(e.rc) THEN EndTx(st, e.t, "abt", e.rc)
    ELSE IF c \notin DOMAIN st.cur \/ Tx(st, e.t).ph # "act" THEN st
    ELSE IF e.rc = "WARN_SCAN_LIMIT"
    THEN LET sc == st.cur[c]
             s2 == [st EXCEPT !.cur = Put(st.cur, c,
                        [sc EXCEPT !.end = (sc.mx = 0), !.upto = st.n])]
         IN [Flush(s2, c) EXCEPT !.cur = Drop(st.cur, c)]
    ELSE st

OnClose(st, e) ==
    LET c == <<e.t, e.h>> IN
    IF c \notin DOMAIN st.cur \/ Tx(st, e.t).ph # "act" THEN st
    ELSE [Flush(st, c) EXCEPT !.cur = Drop(st.cur, c)]

\* cursors still open when commit is asked for count as well
RECURSIVE FlushAll(_, _)
FlushAll(st, cs) ==
    IF cs = {} THEN st
    ELSE LET c == CHOOSE x \in cs : TRUE
         IN FlushAll([Flush(st, c) EXCEPT !.cur = Drop(st.cur, c)], cs \ {c})

OnCommitReq(st, e) ==
    LET r == Tx(st, e.t) IN
    IF r.ph = "act"
    THEN FlushAll(SetTx(st, e.t, [r EXCEPT !.cq = st.n, !.cqe = st.ep]),
                  {c \in DOMAIN st.cur : c[1] = e.t})
    ELSE st

OnOutcome(st, e) ==   \* commit / ccb / check
    LET r == Tx(st, e.t) IN
    CASE e.rc = "OK" /\ e.o = "check" /\ r.ph # "wait" -> st
      [] e.rc = "OK" -> EndTx(st, e.t, "com", "OK")
      [] IsErr(e.rc) -> EndTx(st, e.t, "abt", e.rc)
      [] e.rc \in {"WARN_WAITING_FOR_OTHER_TX", "FALSE"} /\ r.ph = "act" ->
            SetTx(st, e.t, [r EXCEPT !.ph = "wait"])
      [] OTHER -> st

OnLeave(st, e) ==
    IF e.rc = "OK" /\ e.s \in DOMAIN st.act
    THEN [EndTx(st, st.act[e.s], "abt", "leave") EXCEPT !.act = Drop(st.act, e.s)]
    ELSE st

\* everything in flight is gone
RECURSIVE EndAll(_, _)
EndAll(st, ts) ==
    IF ts = {} THEN st
    ELSE LET t == CHOOSE x \in ts : TRUE IN EndAll(EndTx(st, t, "lost", "crash"), ts \ {t})

Step(st0, e) ==
    LET st == [st0 EXCEPT !.n = @ + 1] IN
    CASE e.o = "begin" -> OnBegin(st, e)
      [] e.o \in ReadOps -> OnRead(st, e)
      [] e.o \in WriteOps -> OnWrite(st, e)
      [] e.o = "oscan" -> OnOpen(st, e)
      [] e.o = "nost" -> OnNoStorage(st, e)
      [] e.o = "rscan" -> OnCursorRead(st, e)
      [] e.o = "nscan" -> OnNext(st, e)
      [] e.o = "cscan" -> OnClose(st, e)
      [] e.o = "creq" -> OnCommitReq(st, e)
      [] e.o \in {"commit", "ccb", "check"} -> OnOutcome(st, e)
      [] e.o = "abort" /\ e.rc = "OK" -> EndTx(st, e.t, "abt", "user")
      [] e.o = "leave" -> OnLeave(st, e)
      [] e.o = "E" -> [st EXCEPT !.ep = e.e]
      [] e.o \in {"crash", "shutdown"} ->
            [EndAll(st, {t \in DOMAIN st.txs : st.txs[t].ph \in {"act", "wait"}})
               EXCEPT !.act = EmptyF, !.crashes = @ + 1]
      [] e.o = "final" -> [st EXCEPT !.finals = @ \cup {e.t}]
      [] e.o = "died" -> [st EXCEPT !.died = TRUE]
      [] e.o = "hang" -> [st EXCEPT !.hang = TRUE]
      [] e.o = "stuck" -> [st EXCEPT !.stuck = @ \cup {e.t}]
      [] OTHER -> st

----------------------------------------------------------------------------
(* Do the things transaction r saw hold in database state db, given what it *)
(* had written itself at the time?                                          *)

PointHolds(f, db) ==
    LET v == Get(db, <<f[2], f[3]>>) IN
    IF f[1] \in {"v", "i"} THEN v = f[4] ELSE v # 0

Overlay(own, db) ==
    [x \in DOMAIN own \cup DOMAIN db |->
        IF x \in DOMAIN own /\ own[x] # Cancelled THEN own[x] ELSE Get(db, x)]

(* A cursor answers for every key between where it started and the last    *)
(* record it returned, and for the whole range if it ran to the end.       *)
Covered(sc, k) ==
    /\ InRange(k, sc)
    /\ \/ sc.end
       \/ /\ sc.got # <<>>
          /\ LET last == sc.got[Len(sc.got)][1]
             IN IF sc.rev = 1 THEN k >= last ELSE k <= last

ScanHolds(sc, db) ==
    LET v == Overlay(sc.own, db)
        gotk == {sc.got[j][1] : j \in 1..Len(sc.got)}
        val(k) == (CHOOSE g \in Range(sc.got) : g[1] = k)[2]
    IN /\ \A k \in gotk : InRange(k, sc) /\ (<<sc.p, k>> \in sc.ch \/ Get(v, <<sc.p, k>>) = val(k))
       /\ sc.fuzzy \/ \A x \in DOMAIN v :
            (x[1] = sc.p /\ Covered(sc, x[2]) /\ v[x] # 0 /\ x \notin sc.ch
                /\ ~(x \in DOMAIN sc.own /\ sc.own[x] = Cancelled)) => x[2] \in gotk

Holds(r, db) ==
    /\ \A f \in r.facts : PointHolds(f, db)
    /\ \A sc \in r.scans : ScanHolds(sc, db)

\* database states after r ran on db (a withdrawn upsert deletes or does nothing)
Effects(r, db) ==
    LET c == {x \in DOMAIN r.own : r.own[x] = Cancelled /\ Get(db, x) # 0}
    IN {[x \in DOMAIN r.own \cup DOMAIN db |->
            IF x \in DOMAIN r.own
            THEN IF r.own[x] = Cancelled
                 THEN IF x \in z THEN 0 ELSE Get(db, x)
                 ELSE r.own[x]
            ELSE Get(db, x)] : z \in SUBSET c}

IsReader(r) == DOMAIN r.own = {}

(* Is there a serial order of ts, starting in db, in which everything each *)
(* of them saw holds?  before(t) must precede t.                           *)
RECURSIVE Serial(_, _, _, _)
Serial(txs, ts, before, db) ==
    IF ts = {} THEN TRUE
    ELSE LET ready == {t \in ts : before[t] \cap ts = {} /\ Holds(txs[t], db)}
             rd == {t \in ready : IsReader(txs[t])}
         IN IF rd # {} THEN Serial(txs, ts \ rd, before, db)
            ELSE \E t \in ready : \E d \in Effects(txs[t], db) :
                    Serial(txs, ts \ {t}, before, d)

(* Transactions known to have finished before a short transaction started  *)
(* come first; nothing is known about the others.                          *)
RealTime(txs, ts) ==
    [t \in ts |-> IF txs[t].ty = "S"
                  THEN {u \in ts : txs[u].ce < txs[t].b /\ txs[u].ce > 0}
                  ELSE {}]
NoOrder(ts) == [t \in ts |-> {}]
=============================================================================
