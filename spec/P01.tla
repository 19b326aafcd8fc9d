-------------------------------- MODULE P01 --------------------------------
(* Committed transactions are serializable.  The transactions that read the *)
(* final contents come last; apart from that any order will do.             *)
EXTENDS TraceRun
A0 == 0
JJ(s1, s2, a, e) == TRUE
AA(s1, s2, a, e) == a
FinalLast(ts, fs) == [t \in ts |-> IF t \in fs THEN ts \ fs ELSE {}]
FF(s, a) ==
    LET c == Committed(s) IN
    \/ Serial(s.txs, c, RealTime(s.txs, c), EmptyF)     \* usually found at once
    \/ Serial(s.txs, c, FinalLast(c, s.finals), EmptyF)
=============================================================================
