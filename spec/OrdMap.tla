------------------------------- MODULE OrdMap -------------------------------
(* The database as an ordered map, and what an operation of a transaction   *)
(* that runs alone must answer on it.                                       *)
EXTENDS Obs

\* an upsert withdrawn by a delete leaves no record
Eff(v) == IF v = Cancelled THEN 0 ELSE v
View(r, db, x) == IF x \in DOMAIN r.own THEN Eff(r.own[x]) ELSE Get(db, x)
Apply(db, own) == [x \in DOMAIN db \cup DOMAIN own |->
                      IF x \in DOMAIN own THEN Eff(own[x]) ELSE db[x]]

Premature(st, r) == r.ty \in {"L", "R"} /\ st.ep <= r.be
MayWrite(r, p) == r.ty = "S" \/ (r.ty = "L" /\ Bit(r.wp, p))

Predict(r, v, e) ==
    CASE e.o = "search" -> IF v > 0 THEN e.rc = "OK" /\ e.v = v ELSE e.rc = "WARN_NOT_FOUND"
      [] e.o = "exist"  -> e.rc = (IF v > 0 THEN "OK" ELSE "WARN_NOT_FOUND")
      [] e.o = "insert" -> e.rc = (IF v > 0 THEN "WARN_ALREADY_EXISTS" ELSE "OK")
      [] e.o = "update" -> e.rc = (IF v > 0 THEN "OK" ELSE "WARN_NOT_FOUND")
      [] e.o = "upsert" -> e.rc = "OK"
      [] e.o = "delete" ->
            IF v = 0 THEN e.rc = "WARN_NOT_FOUND"
            ELSE IF <<e.p, e.k>> \in DOMAIN r.own
            THEN e.rc \in {"OK", "WARN_CANCEL_PREVIOUS_INSERT", "WARN_CANCEL_PREVIOUS_UPSERT"}
            ELSE e.rc = "OK"
=============================================================================
