-------------------------------- MODULE P05 --------------------------------
(* One transaction at a time: the database is an ordered map.  The model    *)
(* knows its contents and predicts every status and value.                  *)
EXTENDS TraceRun, OrdMap
A0 == EmptyF            \* the map: <<storage, key>> -> value

AA(s1, s2, a, e) ==
    LET new == Committed(s2) \ Committed(s1)
    IN IF new = {} THEN a ELSE Apply(a, s2.txs[CHOOSE t \in new : TRUE].own)

JJ(s1, s2, a, e) ==
    LET t == IF "t" \in DOMAIN e THEN e.t ELSE 0
        r == Tx(s1, t)
    IN CASE r.ph # "act" \/ Premature(s1, r) -> TRUE
         [] e.o \in DataOps /\ e.k > 1000000 + 30720 -> e.rc = "WARN_INVALID_KEY_LENGTH"
         [] e.o \in DataOps /\ (e.o \in ReadOps \/ MayWrite(r, e.p)) ->
              LET v == View(r, a, <<e.p, e.k>>) IN
              Predict(r, v, e)
         [] e.o = "commit" -> e.rc = (IF e.cb = 1 THEN "TRUE" ELSE "OK")
         [] e.o = "ccb" -> e.rc = "OK"
         [] e.o = "abort" -> e.rc = "OK"
         [] OTHER -> TRUE
FF(s, a) == TRUE
=============================================================================
