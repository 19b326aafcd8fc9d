-------------------------------- MODULE P03 --------------------------------
(* Nobody reads uncommitted, intermediate or mixed values.                  *)
EXTENDS TraceRun
A0 == {}   \* <<reader, storage, key, value>> read from others

\* (value, key) returned by this event, if any
Got(s1, e) ==
    IF e.o = "search" /\ e.rc = "OK" THEN {<<e.p, e.k, e.v>>}
    ELSE IF e.o = "rscan" /\ e.rc = "OK" /\ e.rc2 = "OK" /\ <<e.t, e.h>> \in DOMAIN s1.cur
    THEN {<<s1.cur[<<e.t, e.h>>].p, e.k, e.v>>}
    ELSE {}

Own(s1, t, v) == v \in DOMAIN s1.wr /\ s1.wr[v] = t

AA(s1, s2, a, e) == a \cup {<<e.t, g[1], g[2], g[3]>> : g \in {h \in Got(s1, e) : ~Own(s1, e.t, h[3])}}

JJ(s1, s2, a, e) ==
    \A g \in Got(s1, e) :
        /\ g[3] > 0 /\ g[3] \in DOMAIN s1.wr
        \* the writer is done, or its commit is under way
        /\ LET w == s1.wr[g[3]] r == s1.txs[w] IN
           w = e.t \/ r.ph \in {"com", "wait"} \/ (r.ph = "act" /\ r.cq > 0)

\* u certainly took effect before w: both short, one after the other
Older(s, u, w) == /\ s.txs[u].ty = "S" /\ s.txs[w].ty = "S"
                  /\ s.txs[u].ph = "com" /\ s.txs[w].ph = "com"
                  /\ s.txs[u].ce < s.txs[w].b

NeverDeleted(s, x) == \A u \in DOMAIN s.txs : x \notin DOMAIN s.txs[u].own \/ s.txs[u].own[x] > 0

FF(s, a) ==
    /\ \A g \in a :
         LET r == s.txs[s.wr[g[4]]] x == <<g[2], g[3]>> IN
         /\ r.ph = "com"
         /\ x \in DOMAIN r.own /\ r.own[x] = g[4]
    \* whole transactions: t saw a write of w, so it does not see what was
    \* there before at the other keys of w
    /\ \A t \in Committed(s) :
         LET seen == {g \in a : g[1] = t}
         IN \A g \in seen :
              LET w == s.wr[g[4]] ow == s.txs[w].own IN
              /\ \A h \in seen :
                    LET u == s.wr[h[4]] x == <<h[2], h[3]>> IN
                    ~(x \in DOMAIN ow /\ u # w /\ Older(s, u, w))
              /\ \A f \in s.txs[t].facts :
                    LET x == <<f[2], f[3]>> IN
                    ~(f[1] \in {"v", "i"} /\ f[4] = 0 /\ x \in DOMAIN ow /\ ow[x] > 0 /\ NeverDeleted(s, x))
              /\ \A sc \in s.txs[t].scans : \A x \in DOMAIN ow :
                    ~(/\ x[1] = sc.p /\ ow[x] > 0 /\ Covered(sc, x[2]) /\ ~sc.fuzzy
                      /\ x \notin DOMAIN s.txs[t].own
                      /\ \A j \in 1..Len(sc.got) : sc.got[j][1] # x[2]
                      /\ NeverDeleted(s, x))
=============================================================================
