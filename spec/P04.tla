-------------------------------- MODULE P04 --------------------------------
(* A transaction sees its own writes.                                       *)
EXTENDS TraceRun
A0 == 0
AA(s1, s2, a, e) == a

\* refusals that say nothing about the record
Other == Errs \cup {"WARN_CONFLICT_ON_WRITE_PRESERVE", "WARN_ILLEGAL_OPERATION", "WARN_INVALID_KEY_LENGTH"}

Expect(v, e) ==   \* v: own value, 0 = own delete
    CASE e.o = "search" -> IF v > 0 THEN e.rc = "OK" /\ e.v = v ELSE e.rc = "WARN_NOT_FOUND"
      [] e.o = "exist"  -> e.rc = (IF v > 0 THEN "OK" ELSE "WARN_NOT_FOUND")
      [] e.o = "insert" -> e.rc = (IF v > 0 THEN "WARN_ALREADY_EXISTS" ELSE "OK")
      [] e.o = "update" -> e.rc = (IF v > 0 THEN "OK" ELSE "WARN_NOT_FOUND")
      [] e.o = "upsert" -> e.rc = "OK"
      [] e.o = "delete" -> IF v > 0 THEN e.rc \in {"OK", "WARN_CANCEL_PREVIOUS_INSERT", "WARN_CANCEL_PREVIOUS_UPSERT"}
                           ELSE e.rc = "WARN_NOT_FOUND"

ScanOwn(sc) ==
    \A x \in DOMAIN sc.own :
        (x[1] = sc.p /\ sc.own[x] # Cancelled /\ x \notin sc.ch) =>
        LET got == {g \in Range(sc.got) : g[1] = x[2]} IN
        /\ \A g \in got : g[2] = sc.own[x]
        /\ (~sc.fuzzy /\ Covered(sc, x[2]) /\ sc.own[x] > 0) => got # {}

JJ(s1, s2, a, e) ==
    LET t == IF "t" \in DOMAIN e THEN e.t ELSE 0
        r == Tx(s1, t)
    IN IF r.ph # "act" THEN TRUE
       ELSE /\ e.o \in DataOps =>
                 LET x == <<e.p, e.k>> IN
                 \/ x \notin DOMAIN r.own \/ r.own[x] = Cancelled
                 \/ e.rc \in Other
                 \/ Expect(r.own[x], e)
            /\ \A sc \in Tx(s2, t).scans \ r.scans : ScanOwn(sc)

(* and what was written last is what the commit leaves behind *)
FF(s, a) == TRUE
=============================================================================
