-------------------------------- MODULE P25 --------------------------------
(* An aborted transaction leaves no trace.  After the transactions of the   *)
(* history have ended, the contents are read once; from then on every       *)
(* transaction runs alone and must answer as on an ordered map with these   *)
(* contents, and commit.  While others run: a long transaction beside which *)
(* only transactions ran that have been aborted behaves as if alone.        *)
EXTENDS TraceRun, OrdMap
A0 == [on |-> FALSE, db |-> EmptyF, log |-> {}]

ContentsOf(r) ==
    LET all == UNION {{<<sc.p, g[1], g[2]>> : g \in Range(sc.got)} : sc \in r.scans}
    IN [x \in {<<y[1], y[2]>> : y \in all} |-> (CHOOSE y \in all : <<y[1], y[2]>> = x)[3]]

AA(s1, s2, a, e) ==
    LET new == Committed(s2) \ Committed(s1) IN
    CASE e.o = "final" /\ ~a.on /\ Tx(s1, e.t).ph = "com" ->
            [a EXCEPT !.on = TRUE, !.db = ContentsOf(s1.txs[e.t])]
      [] a.on /\ new # {} -> [a EXCEPT !.db = Apply(@, s2.txs[CHOOSE t \in new : TRUE].own)]
      [] e.o = "log" /\ e.kind = "put" /\ e.p # 0 -> [a EXCEPT !.log = @ \cup {e.v}]
      [] OTHER -> a

\* others whose life overlaps that of t
Beside(st, t) ==
    {u \in DOMAIN st.txs \ {t} : st.txs[u].ph \in {"act", "wait"} \/ st.txs[u].ce >= st.txs[t].b}
LoneLong(st, t) ==
    /\ st.txs[t].ty = "L" /\ st.txs[t].ph \in {"act", "wait"}
    /\ \A u \in Beside(st, t) : st.txs[u].ph = "abt" \/ st.txs[u].ty = "R"

JJ(s1, s2, a, e) ==
    LET t == IF "t" \in DOMAIN e THEN e.t ELSE 0
        r == Tx(s1, t)
    IN CASE r.ph \notin {"act", "wait"} \/ Premature(s1, r) -> TRUE
         [] a.on /\ e.o \in DataOps /\ (e.o \in ReadOps \/ MayWrite(r, e.p)) ->
              Predict(r, View(r, a.db, <<e.p, e.k>>), e)
         [] a.on /\ e.o = "commit" -> e.rc = (IF e.cb = 1 THEN "TRUE" ELSE "OK")
         [] a.on /\ e.o = "ccb" -> e.rc = "OK"
         [] e.o \in {"commit", "ccb"} /\ LoneLong(s1, t) -> e.rc \in {"OK", "TRUE"}
         [] OTHER -> TRUE

FF(s, a) ==
    /\ a.on => \A t \in DOMAIN s.txs : (s.txs[t].ph = "com") => TRUE
    /\ \A v \in a.log : v \in DOMAIN s.wr => s.txs[s.wr[v]].ph = "com"
    /\ \A t \in DOMAIN s.txs : s.txs[t].ph = "com" =>
         \A sc \in s.txs[t].scans : \A g \in Range(sc.got) :
            g[2] \in DOMAIN s.wr => s.txs[s.wr[g[2]]].ph = "com" \/ s.wr[g[2]] = t
=============================================================================
