-------------------------------- MODULE P02 --------------------------------
(* A commit is visible to every short transaction started after it.         *)
EXTENDS TraceRun
A0 == 0
AA(s1, s2, a, e) == a

Writes(r, x) == x \in DOMAIN r.own /\ r.own[x] # Cancelled

\* short t, begun after u was reported committed, found value v (0: none) at x
Stale(st, t, x, v) ==
    LET r == Tx(st, t)
        done == {u \in Committed(st) : Writes(st.txs[u], x) /\ st.txs[u].ce < r.b}
    IN IF v > 0
       THEN /\ v \in DOMAIN st.wr
            /\ LET w == st.wr[v] IN
               \E u \in done : /\ u # w /\ st.txs[u].ty = "S"
                               /\ Tx(st, w).ph = "com" /\ Tx(st, w).ce < st.txs[u].b
       ELSE /\ \E u \in done : st.txs[u].own[x] > 0
            /\ \A u \in DOMAIN st.txs : x \notin DOMAIN st.txs[u].own \/ st.txs[u].own[x] > 0

JJ(s1, s2, a, e) ==
    LET t == IF "t" \in DOMAIN e THEN e.t ELSE 0
        own == Tx(s1, t).own
    IN CASE Tx(s1, t).ph # "act" \/ Tx(s1, t).ty # "S" -> TRUE
         [] e.o = "search" /\ e.rc \in {"OK", "WARN_NOT_FOUND"} ->
              <<e.p, e.k>> \in DOMAIN own \/ ~Stale(s1, t, <<e.p, e.k>>, e.v)
         [] e.o = "exist" /\ e.rc = "WARN_NOT_FOUND" ->
              <<e.p, e.k>> \in DOMAIN own \/ ~Stale(s1, t, <<e.p, e.k>>, 0)
         [] e.o = "insert" /\ e.rc = "OK" ->
              <<e.p, e.k>> \in DOMAIN own \/ ~Stale(s1, t, <<e.p, e.k>>, 0)
         [] e.o = "rscan" /\ e.rc = "OK" /\ e.rc2 = "OK" /\ <<t, e.h>> \in DOMAIN s1.cur ->
              LET x == <<s1.cur[<<t, e.h>>].p, e.k>> IN
              x \in DOMAIN own \/ ~Stale(s1, t, x, e.v)
         [] OTHER -> TRUE

FF(s, a) ==
    LET c == Committed(s) IN
    \* short transactions in the order they ran, or the history is not
    \* serializable at all (which is P01's business)
    \/ Serial(s.txs, c, RealTime(s.txs, c), EmptyF)
    \/ ~Serial(s.txs, c, [t \in c |-> IF t \in s.finals THEN c \ s.finals ELSE {}], EmptyF)
=============================================================================
