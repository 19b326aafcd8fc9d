-------------------------------- MODULE P26 --------------------------------
(* The log holds exactly the writes of the committed transactions.          *)
EXTENDS TraceRun
\* log: entries of user storages in the order they were sent; bl: value ->
\* number of large objects; perr: calls out of order (session protocol)
A0 == [log |-> <<>>, bl |-> EmptyF, perr |-> 0, seen |-> FALSE]
AA(s1, s2, a, e) ==
    CASE e.o \in {"insert", "update", "upsert"} /\ e.rc = "OK" -> [a EXCEPT !.bl = Put(@, e.v, e.bl)]
      [] e.o = "log" /\ e.p # 0 -> [a EXCEPT !.log = Append(@, e)]
      [] e.o = "logend" -> [a EXCEPT !.perr = e.perr, !.seen = TRUE]
      [] OTHER -> a
JJ(s1, s2, a, e) == TRUE

Idx(a, kind) == {i \in 1..Len(a.log) : a.log[i].kind = kind}
Owner(s, v) == IF v \in DOMAIN s.wr THEN s.wr[v] ELSE 0
Entries(a, x) == {i \in Idx(a, "put") \cup Idx(a, "remove") : <<a.log[i].p, a.log[i].k>> = x}

\* every value in the log is the last write of a committed transaction
Justified(s, a) ==
    \A i \in Idx(a, "put") :
        LET g == a.log[i] t == Owner(s, g.v) IN
        /\ t \in Committed(s)
        /\ Get(s.txs[t].own, <<g.p, g.k>>) = g.v
        /\ g.nl = a.bl[g.v] /\ g.lok = 1 /\ g.end = 1
Complete(s, a) ==
    \A t \in Committed(s) :
        LET own == s.txs[t].own
            mine(x) == {i \in Entries(a, x) : a.log[i].kind = "put" /\ a.log[i].v = own[x]}
            ws == {x \in DOMAIN own : own[x] > 0}
            \* a long transaction may commit a write that is superseded already
            late(x) == s.txs[t].ty = "L" /\ \E u \in Committed(s) :
                           u # t /\ s.txs[u].cq < s.txs[t].ce /\ x \in DOMAIN s.txs[u].own
        IN /\ \A x \in ws : Cardinality(mine(x)) = 1 \/ (mine(x) = {} /\ late(x))
           /\ Cardinality({a.log[i].ses : i \in UNION {mine(x) : x \in ws}}) <= 1
Removals(s, a) ==
    \A x \in UNION {DOMAIN s.txs[t].own : t \in DOMAIN s.txs} :
        LET n == Cardinality({i \in Entries(a, x) : a.log[i].kind = "remove"})
            d == Cardinality({t \in Committed(s) : x \in DOMAIN s.txs[t].own /\ s.txs[t].own[x] = 0})
            c == Cardinality({t \in Committed(s) : x \in DOMAIN s.txs[t].own /\ s.txs[t].own[x] = Cancelled})
            l == Cardinality({t \in Committed(s) : s.txs[t].ty = "L" /\ x \in DOMAIN s.txs[t].own /\ s.txs[t].own[x] = 0
                                 /\ \E u \in Committed(s) : u # t /\ s.txs[u].cq < s.txs[t].ce /\ x \in DOMAIN s.txs[u].own})
        IN n >= d - l /\ n <= d + c
\* removals belong to some transaction that deleted the key, in its group
Grouped(s, a) ==
    \A i \in Idx(a, "remove") :
        \E t \in Committed(s) :
            LET own == s.txs[t].own g == a.log[i] IN
            /\ <<g.p, g.k>> \in DOMAIN own
            /\ own[<<g.p, g.k>>] \in {0, Cancelled}
            /\ \A y \in DOMAIN own : own[y] > 0 =>
                   \/ \E j \in Entries(a, y) : a.log[j].v = own[y] /\ a.log[j].ses = g.ses
                   \/ ~\E j \in Entries(a, y) : a.log[j].v = own[y]
\* versions order the writes of a key as they took effect
Ordered(s, a) ==
    /\ \A x \in {<<a.log[i].p, a.log[i].k>> : i \in Idx(a, "put") \cup Idx(a, "remove")} :
         LET es == Entries(a, x) IN
         /\ \A i, j \in es : i # j => a.log[i].wv # a.log[j].wv
         /\ LET m == CHOOSE i \in es : \A j \in es : a.log[j].wv <= a.log[i].wv
                v == IF a.log[m].kind = "put" THEN a.log[m].v ELSE 0
            IN \A f \in {u \in s.finals : s.txs[u].ph = "com"} :
                 LET got == UNION {{g[2] : g \in {h \in Range(sc.got) : <<sc.p, h[1]>> = x}} : sc \in s.txs[f].scans}
                 IN got = (IF v = 0 THEN {} ELSE {v})
         /\ \A i, j \in es : (a.log[i].kind = "put" /\ a.log[j].kind = "put") =>
              LET t == s.txs[Owner(s, a.log[i].v)]
                  u == s.txs[Owner(s, a.log[j].v)]
              IN (u.ty = "S" /\ t.ce < u.b) => a.log[i].wv < a.log[j].wv

FF(s, a) ==
    a.seen => /\ a.perr = 0
              /\ Justified(s, a) /\ Complete(s, a) /\ Removals(s, a)
              /\ Grouped(s, a) /\ Ordered(s, a)
=============================================================================
