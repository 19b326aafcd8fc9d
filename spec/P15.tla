-------------------------------- MODULE P15 --------------------------------
(* A transaction state handle tells the true state of its transaction.      *)
EXTENDS TraceRun
\* held: transactions whose handle we hold; last: last state reported;
\* dm: durability marker given at commit; par: begun while other calls ran
A0 == [held |-> {}, last |-> EmptyF, dm |-> EmptyF, par |-> {}]

AA(s1, s2, a, e) ==
    CASE e.o = "acqh" /\ e.rc = "OK" -> [a EXCEPT !.held = @ \cup {e.t}, !.last = Put(@, e.t, "UNKNOWN")]
      [] e.o = "relh" /\ e.rc = "OK" -> [a EXCEPT !.held = @ \ {e.t}]
      [] e.o = "chkh" /\ e.rc = "OK" /\ e.t \in a.held -> [a EXCEPT !.last = Put(@, e.t, e.k)]
      [] e.o = "ccb" /\ e.rc = "OK" -> [a EXCEPT !.dm = Put(@, e.t, e.dm)]
      [] e.o = "begin" /\ e.rc = "OK" /\ "th" \in DOMAIN e -> [a EXCEPT !.par = @ \cup {e.t}]
      [] e.o \in {"crash", "shutdown"} -> [a EXCEPT !.held = {}]
      [] OTHER -> a

Rank(k) == CASE k = "UNKNOWN" -> 0 [] k = "WAITING_START" -> 1 [] k = "STARTED" -> 2
             [] k = "WAITING_CC_COMMIT" -> 3 [] k = "WAITING_DURABLE" -> 4 [] OTHER -> 5
\* reachable from one another
May(k1, k2) == k1 = k2 \/ (Rank(k1) < Rank(k2) /\ ~(k1 = "WAITING_DURABLE" /\ k2 = "ABORTED"))

States(st, r, par) ==
    CASE r.ph = "act" /\ r.ty = "S" -> {"STARTED"}
      [] r.ph = "act" /\ st.ep > r.be -> {"STARTED"}
      [] r.ph = "act" /\ r.ty = "L" /\ ~par -> {"WAITING_START"}
      [] r.ph = "act" -> {"WAITING_START", "STARTED"}
      [] r.ph = "wait" -> {"WAITING_CC_COMMIT", "WAITING_DURABLE", "DURABLE", "ABORTED"}
      [] r.ph = "com" -> {"WAITING_DURABLE", "DURABLE"}
      [] OTHER -> {"ABORTED"}

JJ(s1, s2, a, e) ==
    CASE e.o = "chkh" ->
            \* while calls overlap only the order of the states is known
            IF "th" \in DOMAIN e THEN e.rc = "OK" /\ e.t \in a.held => May(a.last[e.t], e.k)
            ELSE IF e.t \notin a.held THEN e.rc = "WARN_INVALID_HANDLE"
            ELSE /\ e.rc = "OK"
                 /\ e.k \in States(s1, Tx(s1, e.t), e.t \in a.par)
                 /\ May(a.last[e.t], e.k)
                 /\ (e.t \in DOMAIN a.dm /\ e.k = "DURABLE") => e.dur >= a.dm[e.t]
                 /\ (e.t \in DOMAIN a.dm /\ e.k = "WAITING_DURABLE") => e.dur < a.dm[e.t]
      [] e.o = "relh" /\ "th" \notin DOMAIN e -> e.rc = (IF e.t \in a.held THEN "OK" ELSE "WARN_INVALID_HANDLE")
      [] e.o = "acqh" /\ "th" \notin DOMAIN e ->
            LET r == Tx(s1, e.t) IN
            CASE r.ph = "wait" -> TRUE
              [] r.ph # "act" -> e.rc = "WARN_NOT_BEGIN"
              [] e.t \in a.held -> e.rc = "WARN_ALREADY_EXISTS" /\ e.same = 1
              [] OTHER -> e.rc = "OK" /\ e.dup = 0 /\ e.undef = 0
      [] OTHER -> TRUE
FF(s, a) == TRUE
=============================================================================
