-------------------------------- MODULE P16 --------------------------------
(* Sessions: handed out once, up to the limit, clean when handed out again. *)
EXTENDS TraceRun
A0 == [held |-> {}, had |-> {}, lim |-> 0]   \* held now; held at some time

AA(s1, s2, a, e) ==
    CASE e.o = "init" -> [held |-> {}, had |-> {}, lim |-> e.lim]
      [] e.o = "enter" /\ e.rc = "OK" -> [a EXCEPT !.held = @ \cup {e.s}, !.had = @ \cup {e.s}]
      [] e.o = "leave" /\ e.rc = "OK" -> [a EXCEPT !.held = @ \ {e.s}]
      [] OTHER -> a

\* nothing of an earlier transaction is left in the session
Bare(s1, e) == LET r == Tx(s1, e.t) IN r.ph \notin {"act", "wait"}
TxOps == DataOps \cup {"oscan", "rscan", "nscan", "cscan", "size", "abort", "txid", "acqh", "upseq"}

JJ(s1, s2, a, e) ==
    CASE e.o = "enter" ->
            IF Cardinality(a.held) < a.lim THEN e.rc = "OK" /\ e.dup = 0
            ELSE e.rc = "ERR_SESSION_LIMIT"
      [] e.o = "leave" -> e.rc = (IF e.s \in a.held THEN "OK"
                                ELSE IF e.s \in a.had THEN "WARN_NOT_IN_A_SESSION" ELSE "WARN_INVALID_ARGS")
      [] e.o = "begin" /\ e.wp = 0 ->
            LET r == IF e.s \in DOMAIN s1.act THEN Tx(s1, s1.act[e.s]) ELSE NoTx IN
            CASE r.ph = "act" -> e.rc = "WARN_ALREADY_BEGIN"
              [] r.ph = "wait" -> TRUE
              [] OTHER -> e.rc = "OK"
      [] e.o \in TxOps /\ Bare(s1, e) -> e.rc = "WARN_NOT_BEGIN"
      [] e.o = "acqh" /\ Tx(s1, e.t).ph = "act" -> e.rc \in {"OK", "WARN_ALREADY_EXISTS"} /\ e.dup = 0
      [] e.o = "commit" /\ e.cb = 0 /\ Bare(s1, e) -> e.rc = "WARN_NOT_BEGIN"
      [] OTHER -> TRUE

\* what was done in sessions left behind has no effect
FinalLast(ts, fs) == [t \in ts |-> IF t \in fs THEN ts \ fs ELSE {}]
FF(s, a) == LET c == Committed(s) IN
    \/ Serial(s.txs, c, RealTime(s.txs, c), EmptyF)
    \/ Serial(s.txs, c, FinalLast(c, s.finals), EmptyF)
=============================================================================
