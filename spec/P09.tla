-------------------------------- MODULE P09 --------------------------------
(* A long transaction reads the snapshot of its start.  The histories have  *)
(* one long transaction at a time, so its snapshot is exactly the state     *)
(* after the transactions committed before the epoch change that made it    *)
(* active.                                                                  *)
EXTENDS TraceRun
\* long transaction -> transactions in its snapshot, and those that may be: they
\* committed while the epoch changed; par is what was committed when calls began
\* to overlap
A0 == [l |-> EmptyF, par |-> {}, fz |-> {}]

Going(st) == Committed(st) \cup {t \in DOMAIN st.txs : st.txs[t].ty = "S" /\ st.txs[t].ph = "act" /\ st.txs[t].cq > 0}
Over(e) == "th" \in DOMAIN e
Put1(a, t, m) == [a.l[t] EXCEPT !.may = (@ \cup m) \ a.l[t].sure]
AA(s1, s2, a, e) ==
    CASE e.o = "par" -> [a EXCEPT !.par = Committed(s1)]
      [] e.o = "begin" /\ e.rc = "OK" /\ e.ty = "L" /\ Over(e) -> [a EXCEPT !.fz = @ \cup {e.t}]
      [] e.o = "E" /\ e.adv > 0 ->
           LET new == {t \in DOMAIN s1.txs : s1.txs[t].ty = "L" /\ t \notin DOMAIN a.l}
               one == [sure |-> IF Over(e) THEN a.par ELSE Committed(s1), may |-> IF Over(e) THEN Going(s1) \ a.par ELSE {}]
           IN [a EXCEPT !.l = [t \in DOMAIN a.l \cup new |->
                 IF t \in new THEN one
                 \* begun while the epoch changed: it may become active only now
                 ELSE IF t \in a.fz /\ s1.ep <= s1.txs[t].be THEN Put1(a, t, Going(s1)) ELSE a.l[t]]]
      [] e.o = "join" ->
           [a EXCEPT !.l = [t \in DOMAIN a.l |-> IF t \in a.fz /\ a.l[t].sure = a.par THEN Put1(a, t, Committed(s1)) ELSE a.l[t]]]
      [] OTHER -> a

JJ(s1, s2, a, e) == TRUE

Fits(s, t, c) ==
    LET ts == c \cup {t}
        txs == [s.txs EXCEPT ![t].own = EmptyF]
    IN \/ Serial(txs, ts, [RealTime(txs, ts) EXCEPT ![t] = c], EmptyF)
       \/ Serial(txs, ts, [u \in ts |-> IF u = t THEN c ELSE {}], EmptyF)
       \/ ~Serial(s.txs, c, NoOrder(c), EmptyF)   \* P01's business

FF(s, a) ==
    \A t \in DOMAIN a.l :
        \/ s.txs[t].facts = {} /\ s.txs[t].scans = {}
        \/ \E m \in SUBSET ((a.l[t].may \cap Committed(s)) \ {t}) : Fits(s, t, a.l[t].sure \cup m)
=============================================================================
