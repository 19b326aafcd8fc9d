-------------------------------- MODULE P27 --------------------------------
(* One transaction driven by several threads: between par and join its      *)
(* operations overlap.  What they answer is what some order of them answers *)
(* that respects the order of calls that did not overlap; and the           *)
(* transaction has, from then on, the writes of such an order.  One         *)
(* transaction at a time, so the contents are known (as in P05).            *)
EXTENDS TraceRun, OrdMap
\* st: possible <<contents, own writes>>; sec: overlapping calls [e, from, to];
\* call: thread -> where its call began; par: inside a section
A0 == [st |-> {<<EmptyF, EmptyF>>}, sec |-> {}, call |-> EmptyF, par |-> FALSE]

NewOwn(own, e) ==
    LET x == <<e.p, e.k>> IN
    CASE e.rc = "OK" /\ e.o \in {"insert", "update", "upsert"} -> Put(own, x, e.v)
      [] e.rc = "OK" /\ e.o = "delete" -> Put(own, x, 0)
      [] e.rc = "WARN_CANCEL_PREVIOUS_INSERT" -> Drop(own, x)
      [] e.rc = "WARN_CANCEL_PREVIOUS_UPSERT" -> Put(own, x, Cancelled)
      [] OTHER -> own

RECURSIVE Orders(_, _, _)
Orders(ops, db, own) ==
    IF ops = {} THEN {own}
    ELSE UNION {Orders(ops \ {c}, db, NewOwn(own, c.e)) :
                    c \in {d \in ops : /\ \A u \in ops \ {d} : ~(u.to < d.from)
                                       /\ Predict([own |-> own], View([own |-> own], db, <<d.e.p, d.e.k>>), d.e)}}
After(a, ops) == UNION {{<<s[1], o>> : o \in Orders(ops, s[1], s[2])} : s \in a.st}

Point(s1, e) == e.o \in DataOps /\ Tx(s1, e.t).ph = "act" /\ ~Premature(s1, Tx(s1, e.t)) /\ (e.o \in ReadOps \/ MayWrite(Tx(s1, e.t), e.p))

AA(s1, s2, a, e) ==
    LET new == Committed(s2) \ Committed(s1)
        gone == {t \in DOMAIN s1.txs : s1.txs[t].ph = "act" /\ s2.txs[t].ph = "abt"}
    IN CASE gone # {} -> [a EXCEPT !.st = {<<s[1], EmptyF>> : s \in a.st}, !.sec = {}]
         [] e.o = "par" -> [a EXCEPT !.par = TRUE, !.sec = {}, !.call = EmptyF]
         [] e.o = "join" -> [a EXCEPT !.par = FALSE, !.sec = {}, !.st = After(a, a.sec)]
         [] e.o = "inv" -> [a EXCEPT !.call = Put(@, e.th, s1.n)]
         [] Point(s1, e) /\ a.par -> [a EXCEPT !.sec = @ \cup {[e |-> e, from |-> a.call[e.th], to |-> s1.n]}]
         [] Point(s1, e) -> [a EXCEPT !.st = After(a, {[e |-> e, from |-> 0, to |-> 0]})]
         [] new # {} -> [a EXCEPT !.st = {<<Apply(s[1], s[2]), EmptyF>> : s \in a.st}]
         [] OTHER -> a

JJ(s1, s2, a, e) ==
    LET t == IF "t" \in DOMAIN e THEN e.t ELSE 0
        r == Tx(s1, t)
    IN CASE e.o = "join" -> After(a, a.sec) # {}
         [] Point(s1, e) /\ ~a.par -> After(a, {[e |-> e, from |-> 0, to |-> 0]}) # {}
         [] r.ph # "act" \/ Premature(s1, r) -> TRUE
         [] e.o = "commit" -> e.rc = (IF e.cb = 1 THEN "TRUE" ELSE "OK")
         [] e.o \in {"ccb", "abort"} -> e.rc = "OK"
         [] OTHER -> TRUE

\* the readers at the end see the contents
FF(s, a) == \E x \in a.st : \A f \in {u \in s.finals : s.txs[u].ph = "com"} : Holds(s.txs[f], x[1])
=============================================================================
