-------------------------------- MODULE P22 --------------------------------
(* Background work is invisible: the committed transactions stay            *)
(* serializable whenever it runs, and once nothing is running the index     *)
(* holds the live records and no others.                                    *)
EXTENDS TraceRun
\* live: storage -> keys there, as read at the end; k: number of E since
A0 == [live |-> EmptyF, n |-> 0]

KeysOf(r, p) == UNION {{g[1] : g \in Range(sc.got)} : sc \in {q \in r.scans : q.p = p}}
AA(s1, s2, a, e) ==
    LET new == Committed(s2) \ Committed(s1) IN
    CASE e.o = "final" /\ e.ty = "S" /\ Tx(s1, e.t).ph = "com" ->
            [live |-> [p \in 1..4 |-> KeysOf(s1.txs[e.t], p)], n |-> 0]
      [] e.o = "B" -> [a EXCEPT !.n = @ + 1]
      [] a.live # EmptyF /\ new # {} ->
            LET own == s2.txs[CHOOSE t \in new : TRUE].own
                put(p) == {x[2] : x \in {y \in DOMAIN own : y[1] = p /\ own[y] > 0}}
                del(p) == {x[2] : x \in {y \in DOMAIN own : y[1] = p /\ own[y] <= 0}}
            IN IF own = EmptyF THEN a
               ELSE [live |-> [p \in 1..4 |-> (a.live[p] \cup put(p)) \ del(p)], n |-> 0]
      [] OTHER -> a

JJ(s1, s2, a, e) ==
    (e.o = "size" /\ e.rc = "OK" /\ e.n >= 0 /\ a.live # EmptyF /\ a.n >= 4 /\ <<e.t, e.h>> \in DOMAIN s1.cur) =>
        e.n = Cardinality(a.live[s1.cur[<<e.t, e.h>>].p])

FF(s, a) ==
    LET c == {t \in Committed(s) : s.txs[t].s # 8} IN    \* session 8 only measures
    Serial(s.txs, c, RealTime(s.txs, c), EmptyF)
=============================================================================
