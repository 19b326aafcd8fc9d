-------------------------------- MODULE P17 --------------------------------
(* Storages: names, ids, options, and contents kept apart.  One transaction *)
(* at a time, none while a storage is deleted.                              *)
EXTENDS TraceRun, OrdMap
\* tab: storage -> [h: id asked for at creation, id, pl: options now]
A0 == [tab |-> EmptyF, db |-> EmptyF]

AA(s1, s2, a, e) ==
    LET new == Committed(s2) \ Committed(s1) IN
    CASE e.o = "mkst" /\ e.rc = "OK" ->
            [a EXCEPT !.tab = Put(@, e.p, [h |-> e.id, id |-> e.id, pl |-> e.pl])]
      [] e.o = "setopt" /\ e.rc = "OK" ->
            [a EXCEPT !.tab[e.p].id = e.id, !.tab[e.p].pl = e.pl]
      [] e.o = "rmst" /\ e.rc = "OK" ->
            [tab |-> Drop(a.tab, e.p), db |-> [x \in {y \in DOMAIN a.db : y[1] # e.p} |-> a.db[x]]]
      [] new # {} -> [a EXCEPT !.db = Apply(@, s2.txs[CHOOSE t \in new : TRUE].own)]
      [] OTHER -> a

Used(a, id) == \E p \in DOMAIN a.tab : a.tab[p].h = id
SetOf(q) == {q[i] : i \in DOMAIN q}

JJ(s1, s2, a, e) ==
    LET t == IF "t" \in DOMAIN e THEN e.t ELSE 0
        r == Tx(s1, t)
        new == Committed(s2) \ Committed(s1)
        live == "p" \in DOMAIN e /\ e.p \in DOMAIN a.tab
    IN /\ CASE e.o = "mkst" ->
                 IF live \/ (e.id > 0 /\ Used(a, e.id)) THEN e.rc = "WARN_ALREADY_EXISTS"
                 ELSE e.rc = "OK" /\ e.dup = 0
            [] e.o = "rmst" -> e.rc = (IF live THEN "OK" ELSE "WARN_INVALID_HANDLE")
            [] e.o = "getst" -> IF live THEN e.rc = "OK" /\ e.same = 1 ELSE e.rc = "WARN_NOT_FOUND"
            [] e.o = "optst" -> IF live THEN e.rc = "OK" /\ e.id = a.tab[e.p].id /\ e.pl = a.tab[e.p].pl
                                ELSE e.rc = "WARN_NOT_FOUND"
            [] e.o = "setopt" -> e.rc = (IF live THEN "OK" ELSE "WARN_NOT_FOUND")
            [] e.o = "lstor" -> /\ e.rc = "OK" /\ e.other = 0
                                /\ Len(e.l) = Cardinality(DOMAIN a.tab)
                                /\ SetOf(e.l) = DOMAIN a.tab
            [] r.ph = "act" /\ ~Premature(s1, r) /\ e.o \in DataOps /\ ~live ->
                 e.rc \in {"WARN_STORAGE_NOT_FOUND", "WARN_ILLEGAL_OPERATION"}
            [] r.ph = "act" /\ ~Premature(s1, r) /\ e.o = "oscan" /\ ~live -> e.rc = "WARN_STORAGE_NOT_FOUND"
            [] r.ph = "act" /\ ~Premature(s1, r) /\ e.o \in DataOps /\ (e.o \in ReadOps \/ MayWrite(r, e.p)) ->
                 Predict(r, View(r, a.db, <<e.p, e.k>>), e)
            [] e.o = "begin" /\ Mask(e.wp) \subseteq DOMAIN a.tab ->
                 e.rc = "OK" \/ (e.s \in DOMAIN s1.act /\ Tx(s1, s1.act[e.s]).ph = "act")
            [] OTHER -> TRUE
       /\ \A u \in new : Holds(s2.txs[u], a.db)
FF(s, a) == TRUE
=============================================================================
