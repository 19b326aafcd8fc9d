-------------------------------- MODULE P08 --------------------------------
(* A read-only transaction reads one committed snapshot and never fails.    *)
EXTENDS TraceRun
A0 == {}   \* read-only transactions that began while nothing else was running

Running(st) == {t \in DOMAIN st.txs : st.txs[t].ph \in {"act", "wait"}}
AA(s1, s2, a, e) ==
    IF e.o = "begin" /\ e.rc = "OK" /\ e.ty = "R" /\ "th" \notin DOMAIN e /\ Running(s1) = {} THEN a \cup {e.t} ELSE a

\* ready to read; in an overlap a short transaction may be in its commit, and is waited for
Active(st, r, e) == st.ep > r.be /\ "th" \notin DOMAIN e

JJ(s1, s2, a, e) ==
    LET t == IF "t" \in DOMAIN e THEN e.t ELSE 0
        r == Tx(s1, t)
    IN IF r.ty # "R" \/ r.ph # "act" THEN TRUE
       ELSE CASE e.o \in ReadOps ->
                   IF Active(s1, r, e) THEN e.rc \in {"OK", "WARN_NOT_FOUND"}
                   ELSE e.rc \in {"OK", "WARN_NOT_FOUND", "WARN_PREMATURE"}
              [] e.o = "oscan" ->
                   IF Active(s1, r, e) THEN e.rc \in {"OK", "WARN_NOT_FOUND"}
                   ELSE e.rc \in {"OK", "WARN_NOT_FOUND", "WARN_PREMATURE"}
              [] e.o = "rscan" -> ~IsErr(e.rc) /\ ~IsErr(e.rc2)
              [] e.o = "nscan" -> ~IsErr(e.rc)
              [] e.o = "ccb" -> e.rc = "OK" \/ (e.rc = "WARN_PREMATURE" /\ ~Active(s1, r, e))
              [] e.o = "commit" -> \/ e.rc = (IF e.cb = 1 THEN "TRUE" ELSE "OK")
                                   \/ e.rc = "WARN_PREMATURE" /\ ~Active(s1, r, e)
              [] e.o = "abort" -> e.rc = "OK"
              [] OTHER -> TRUE

FF(s, a) ==
    LET c == Committed(s)
        rs == {t \in DOMAIN s.txs : s.txs[t].ty = "R"}
        ts == c \cup rs
        bf(rt) == [t \in ts |-> (IF t \in s.finals THEN ts \ (s.finals \cup rs) ELSE rt[t]) \cup
                            (IF t \in a THEN {u \in c : s.txs[u].ce < s.txs[t].b} ELSE {})]
        none == [t \in ts |-> {}]
    IN \/ Serial(s.txs, ts, bf(RealTime(s.txs, ts)), EmptyF)
       \/ Serial(s.txs, ts, bf(none), EmptyF)
       \* not even the writers alone: P01's business
       \/ ~Serial(s.txs, c \ rs, [t \in c \ rs |-> IF t \in s.finals THEN c \ s.finals ELSE {}], EmptyF)
=============================================================================
