-------------------------------- MODULE P23 --------------------------------
(* Transaction ids: one per transaction, never the same twice in a run.     *)
EXTENDS TraceRun
A0 == EmptyF       \* transaction -> its id (numbered)

AA(s1, s2, a, e) ==
    CASE e.o = "txid" /\ e.rc = "OK" -> Put(a, e.t, e.n)
      [] e.o = "init" -> EmptyF
      [] OTHER -> a

JJ(s1, s2, a, e) ==
    e.o = "txid" =>
        LET r == Tx(s1, e.t) IN
        CASE r.ph = "wait" -> TRUE
          [] r.ph # "act" -> e.rc = "WARN_NOT_BEGIN"
          [] e.t \in DOMAIN a -> e.rc = "OK" /\ e.n = a[e.t]
          [] OTHER -> e.rc = "OK" /\ e.n \notin Range(a) /\ e.len > 0
FF(s, a) == TRUE
=============================================================================
