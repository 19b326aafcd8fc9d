-------------------------------- MODULE P24 --------------------------------
(* The reason given for an abort fits what happened.                        *)
EXTENDS TraceRun
\* op: transaction -> successful data operations <<op, storage, key>>
\* bad: transaction -> the event that ended it in an error
A0 == [op |-> EmptyF, bad |-> EmptyF]
Ops(a, t) == IF t \in DOMAIN a.op THEN a.op[t] ELSE {}

AA(s1, s2, a, e) ==
    LET t == IF "t" \in DOMAIN e THEN e.t ELSE 0
        b == IF e.o \in DataOps /\ Tx(s1, t).ph = "act"
             THEN [a EXCEPT !.op = Put(@, t, Ops(a, t) \cup {<<e.o, e.p, e.k>>})] ELSE a
    IN IF t # 0 /\ Tx(s1, t).ph \in {"act", "wait"} /\ Tx(s2, t).ph = "abt"
       THEN [b EXCEPT !.bad = Put(@, t, e)] ELSE b

Others(s, t) == {u \in DOMAIN s.txs : u # t}
\* could have become visible while t ran
Recent(s, t) == {u \in Others(s, t) : s.txs[u].ph \in {"com", "wait"} /\ (s.txs[u].ph = "wait" \/ s.txs[u].ce > s.txs[t].b)}
Wrote(s, u, x) == x \in DOMAIN s.txs[u].own
\* what t looked at or relied on in storage p
Touched(s, a, t, p) == p \in s.txs[t].sts
DidOp(a, t, o, p, k) == <<o, p, k>> \in Ops(a, t)
Looked(s, a, t, p, k) ==
    \/ \E o \in DataOps : DidOp(a, t, o, p, k)
    \/ \E sc \in s.txs[t].scans \cup {s.cur[c] : c \in {d \in DOMAIN s.cur : d[1] = t}} : sc.p = p
    \/ p \in s.txs[t].sts     \* cursors not flushed when the transaction was cut short
Named(e) == e.hk = 1 /\ e.hp = 1

\* the operation that failed counts
Sts(s, a, t) == s.txs[t].sts \cup
    (IF t \in DOMAIN a.bad /\ "p" \in DOMAIN a.bad[t] THEN {a.bad[t].p} ELSE {})

Fits(s, a, t, e) ==
    LET r == [s.txs[t] EXCEPT !.sts = Sts(s, a, t)]
        short == r.ty = "S" IN
    CASE e.r = "KVS_INSERT" -> Named(e) /\ (DidOp(a, t, "insert", e.p, e.k) \/ DidOp(a, t, "upsert", e.p, e.k))
      [] e.r = "KVS_UPDATE" -> Named(e) /\ DidOp(a, t, "update", e.p, e.k)
      [] e.r = "KVS_DELETE" -> Named(e) /\ DidOp(a, t, "delete", e.p, e.k)
      [] e.r = "CC_OCC_READ_VERIFY" ->
            /\ short /\ Named(e) /\ Looked(s, a, t, e.p, e.k)
            /\ \E u \in Recent(s, t) : Wrote(s, u, <<e.p, e.k>>)
      [] e.r = "CC_OCC_WP_VERIFY" ->
            /\ short
            /\ e.hp = 1 => e.p \in r.sts
            /\ \E u \in Others(s, t) : s.txs[u].ty = "L" /\ Mask(s.txs[u].wp) \cap r.sts # {}
                                       /\ e.hp = 1 => Bit(s.txs[u].wp, e.p)
                                       /\ (s.txs[u].ce = 0 \/ s.txs[u].ce > r.b)
      [] e.r = "CC_OCC_PHANTOM_AVOIDANCE" ->
            /\ short
            /\ e.hp = 1 => e.p \in r.sts
            /\ \E u \in Others(s, t) : (s.txs[u].ce = 0 \/ s.txs[u].ce > r.b)
                                       /\ \E x \in Ops(a, u) : x[1] \in WriteOps /\ x[2] \in r.sts
      [] e.r = "CC_LTX_READ_AREA_VIOLATION" ->
            r.why = "ERR_READ_AREA_VIOLATION" /\ e.hp = 1 /\ e.p = a.bad[t].p
      [] e.r = "CC_LTX_READ_UPPER_BOUND_VIOLATION" ->
            /\ r.ty = "L"
            /\ \E u \in Others(s, t) : s.txs[u].ty = "L" /\ u < t /\ (s.txs[u].ce = 0 \/ s.txs[u].ce > r.b)
                                       /\ Mask(s.txs[u].wp) \cap r.sts # {}
      [] e.r = "CC_LTX_WRITE_COMMITTED_READ_PROTECTION" ->
            /\ r.ty = "L" /\ Named(e) /\ <<e.p, e.k>> \in DOMAIN r.own
            /\ \E u \in Recent(s, t) : e.p \in s.txs[u].sts
      [] e.r = "CC_LTX_PHANTOM_AVOIDANCE" ->
            /\ r.ty = "L" /\ Named(e) /\ <<e.p, e.k>> \in DOMAIN r.own
            /\ \E u \in Recent(s, t) : e.p \in s.txs[u].sts
      [] OTHER -> FALSE

JJ(s1, s2, a, e) ==
    e.o = "result" =>
        LET r == Tx(s1, e.t) IN
        CASE r.ph = "com" -> e.r \in {"UNKNOWN", "NULL"}
          [] r.ph = "abt" /\ r.why = "user" -> e.r = "USER_ABORT"
          [] r.ph = "abt" /\ r.why \in Errs -> e.r # "NULL" /\ ("th" \in DOMAIN e \/ Fits(s1, a, e.t, e))
          [] OTHER -> TRUE
FF(s, a) == TRUE
=============================================================================
