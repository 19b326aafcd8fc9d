-------------------------------- MODULE P06 --------------------------------
(* A scan returns exactly the records of its range, in key order, once.     *)
(* One transaction at a time, so the contents are known (as in P05).        *)
EXTENDS TraceRun
A0 == [db |-> EmptyF, opn |-> {}]   \* contents, cursors not yet closed

Eff(v) == IF v = Cancelled THEN 0 ELSE v
Apply(db, own) == [x \in DOMAIN db \cup DOMAIN own |->
                      IF x \in DOMAIN own THEN Eff(own[x]) ELSE Get(db, x)]
AA(s1, s2, a, e) ==
    LET new == Committed(s2) \ Committed(s1)
        db == IF new = {} THEN a.db ELSE Apply(a.db, s2.txs[CHOOSE t \in new : TRUE].own)
        c == IF "h" \in DOMAIN e /\ "t" \in DOMAIN e THEN <<e.t, e.h>> ELSE <<0, 0>>
        opn == CASE e.o = "oscan" /\ e.rc = "OK" -> a.opn \cup {c}
                 [] e.o = "cscan" /\ e.rc = "OK" -> a.opn \ {c}
                 [] OTHER -> a.opn
    IN [db |-> db, opn |-> opn]

Premature(st, r) == r.ty \in {"L", "R"} /\ st.ep <= r.be

\* live keys of the range, ignoring those the transaction touched later
Live(sc, db) == {k \in {x[2] : x \in {y \in DOMAIN db : y[1] = sc.p /\ db[y] # 0}} :
                    InRange(k, sc) /\ <<sc.p, k>> \notin sc.ch}
Got(sc) == {k \in {sc.got[j][1] : j \in 1..Len(sc.got)} : <<sc.p, k>> \notin sc.ch}

Exact(sc, db0) ==
    LET db == Apply(db0, sc.own)
        live == Live(sc, db)
        got == Got(sc)
    IN /\ \A j \in 1..Len(sc.got) :
            /\ InRange(sc.got[j][1], sc)
            /\ <<sc.p, sc.got[j][1]>> \in sc.ch \/ Get(db, <<sc.p, sc.got[j][1]>>) = sc.got[j][2]
       /\ \A j \in 1..Len(sc.got) - 1 :
            IF sc.rev = 1 THEN sc.got[j][1] > sc.got[j + 1][1] ELSE sc.got[j][1] < sc.got[j + 1][1]
       /\ sc.fuzzy \/ \A k \in live : Covered(sc, k) => k \in got
       /\ sc.mx = 0 \/ Len(sc.got) <= sc.mx

JJ(s1, s2, a, e) ==
    LET t == IF "t" \in DOMAIN e THEN e.t ELSE 0
        r == Tx(s1, t)
        c == IF "h" \in DOMAIN e THEN <<t, e.h>> ELSE <<0, 0>>
    IN IF r.ph # "act" \/ Premature(s1, r) THEN TRUE
       ELSE /\ \A sc \in Tx(s2, t).scans \ r.scans : Exact(sc, a.db)
            /\ e.o = "oscan" =>
                 \/ e.rc \in {"OK", "WARN_NOT_FOUND"}
                 \/ e.rev = 1 /\ (e.mx # 1 \/ e.re # 2) /\ e.rc = "ERR_FATAL"
                 \/ e.rc \in {"WARN_MAX_OPEN_SCAN", "WARN_STORAGE_NOT_FOUND"}
            \* a cursor works until it is closed and not afterwards; a short
            \* transaction that writes under its own open cursor may lose to
            \* itself (the index cannot tell its insertion from another's)
            /\ e.o \in {"rscan", "nscan", "cscan", "size"} =>
                 IF c \in a.opn
                 THEN CASE r.ty = "S" /\ DOMAIN r.own # {} /\ e.rc = "ERR_CC" -> TRUE
                        [] e.o = "rscan" -> /\ e.rc \in {"OK", "WARN_NOT_FOUND", "WARN_SCAN_LIMIT"}
                                            /\ e.rc2 = e.rc
                        [] e.o = "nscan" -> e.rc \in {"OK", "WARN_SCAN_LIMIT"}
                        [] e.o = "cscan" -> e.rc = "OK"
                        [] OTHER -> e.rc = "OK" \/ e.rc = "WARN_NOT_INIT" \/ e.rc = "ERR_NOT_IMPLEMENTED"
                 ELSE e.rc = "WARN_INVALID_HANDLE"
FF(s, a) == TRUE
=============================================================================
