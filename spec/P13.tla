-------------------------------- MODULE P13 --------------------------------
(* The commit callback runs exactly once, with the true outcome.            *)
EXTENDS TraceRun
\* session -> [t, n: calls so far, out: its status, was: phase at the request]
A0 == EmptyF
None == [t |-> 0, n |-> 0, out |-> "-", r |-> "-", was |-> "none", cb |-> 0, done |-> TRUE]
At(a, s) == IF s \in DOMAIN a THEN a[s] ELSE None

AA(s1, s2, a, e) ==
    CASE e.o = "creq" -> Put(a, e.s, [t |-> e.t, n |-> 0, out |-> "-", r |-> "-", was |-> Tx(s1, e.t).ph, cb |-> e.cb, done |-> FALSE])
      [] e.o = "ccb" -> Put(a, e.s, [At(a, e.s) EXCEPT !.n = @ + 1, !.out = e.rc, !.r = e.r, !.done = TRUE])
      [] e.o = "commit" /\ e.cb = 0 /\ e.rc # "WARN_WAITING_FOR_OTHER_TX" -> Put(a, e.s, [At(a, e.s) EXCEPT !.done = TRUE])
      [] e.o = "check" /\ At(a, e.s).cb = 0 /\ e.rc # "WARN_WAITING_FOR_OTHER_TX" -> Put(a, e.s, [At(a, e.s) EXCEPT !.done = TRUE])
      [] OTHER -> a

CC == {"CC_LTX_PHANTOM_AVOIDANCE", "CC_LTX_READ_UPPER_BOUND_VIOLATION", "CC_LTX_WRITE_COMMITTED_READ_PROTECTION",
       "CC_OCC_WP_VERIFY", "CC_OCC_READ_VERIFY", "CC_OCC_PHANTOM_AVOIDANCE"}
KVS == {"KVS_DELETE", "KVS_INSERT", "KVS_UPDATE"}

JJ(s1, s2, a, e) ==
    CASE e.o = "ccb" ->
            LET q == At(a, e.s) r == Tx(s1, e.t) IN
            /\ q.t = e.t /\ q.n = 0 /\ q.cb = 1
            /\ e.rc = "OK" => e.r = "UNKNOWN" /\ e.dm > 0 /\ (e.dm <= s1.ep + 1 \/ "th" \in DOMAIN e)
            /\ e.rc = "ERR_CC" => e.r \in CC \cup KVS
            /\ e.rc = "ERR_KVS" => e.r \in KVS
            /\ e.rc # "OK" => e.dm = 0
            /\ r.ph \notin {"act", "wait"} => e.rc = "WARN_NOT_BEGIN"
            /\ r.ph \in {"act", "wait"} => e.rc # "WARN_NOT_BEGIN"
      [] e.o = "commit" /\ e.cb = 1 ->
            LET q == At(a, e.s) IN (e.rc = "TRUE") <=> (q.n = 1)
      \* the outcome of a transaction is one and the same, however asked
      [] e.o = "check" /\ At(a, e.s).t = e.t /\ At(a, e.s).cb = 1 /\ Tx(s1, e.t).ty = "L" ->
            LET q == At(a, e.s) IN
            /\ (q.n = 0 /\ q.was = "act") => e.rc = "WARN_WAITING_FOR_OTHER_TX"
            /\ (q.n = 1 /\ q.was = "act") => e.rc = q.out \/ e.rc = "WARN_NOT_BEGIN" \/ e.rc = "WARN_ILLEGAL_OPERATION"
      [] e.o = "result" /\ At(a, e.s).t = e.t /\ At(a, e.s).n = 1 /\ At(a, e.s).out \in Errs \cup {"OK"} -> e.r = At(a, e.s).r
      [] OTHER -> TRUE

\* what the final reader sees agrees with the outcomes
Seen(s, t, x) ==
    UNION {{g[2] : g \in {h \in Range(sc.got) : <<sc.p, h[1]>> = x}} : sc \in s.txs[t].scans}
Only(s, t, x) == \A u \in DOMAIN s.txs \ {t} : x \notin DOMAIN s.txs[u].own
FF(s, a) ==
    /\ \A q \in Range(a) : q.done
    /\ \A f \in {u \in s.finals : s.txs[u].ph = "com"} : \A t \in DOMAIN s.txs :
         \A x \in DOMAIN s.txs[t].own :
            LET r == s.txs[t] IN
            /\ (r.ph = "abt" /\ r.own[x] > 0) => r.own[x] \notin Seen(s, f, x)
            /\ (r.ph = "com" /\ r.own[x] > 0 /\ Only(s, t, x)) => r.own[x] \in Seen(s, f, x)
=============================================================================
