-------------------------------- MODULE P18 --------------------------------
(* Sequences: the newest version among the committed updates.              *)
EXTENDS TraceRun
\* cur: sequence -> possible <<version, value>> (one, unless two overlapping
\*      commits gave the same version); pend: transaction -> sequence -> <<version, value>>
\* was: what cur has been while a read is under way
A0 == [cur |-> EmptyF, pend |-> EmptyF, was |-> {}, par |-> FALSE]

PendOf(a, t) == IF t \in DOMAIN a.pend THEN a.pend[t] ELSE EmptyF
Newer1(c, u, par) == IF u[1] > c[1] THEN {u} ELSE IF u[1] = c[1] /\ par THEN {c, u} ELSE {c}
Newer(cur, upd, par) ==
    [q \in DOMAIN cur |-> IF q \in DOMAIN upd THEN UNION {Newer1(c, upd[q], par) : c \in cur[q]} ELSE cur[q]]
RECURSIVE ApplyAll(_, _, _)
ApplyAll(cur, a, ts) ==
    IF ts = {} THEN cur
    ELSE LET t == CHOOSE x \in ts : TRUE IN ApplyAll(Newer(cur, PendOf(a, t), a.par), a, ts \ {t})

Values(cur) == UNION {{<<q, c>> : c \in cur[q]} : q \in DOMAIN cur}

AA(s1, s2, a, e) ==
    LET new == Committed(s2) \ Committed(s1) IN
    CASE e.o = "par" -> [a EXCEPT !.par = TRUE]
      [] e.o = "join" -> [a EXCEPT !.par = FALSE, !.was = {}]
      [] e.o = "mkseq" /\ e.rc = "OK" -> [a EXCEPT !.cur = Put(@, e.q, {<<0, 0>>})]
      [] e.o = "rmseq" /\ e.rc = "OK" -> [a EXCEPT !.cur = Drop(@, e.q)]
      [] e.o = "upseq" /\ e.rc = "OK" -> [a EXCEPT !.pend = Put(@, e.t, Put(PendOf(a, e.t), e.q, <<e.ver, e.v>>))]
      [] new # {} -> LET c == ApplyAll(a.cur, a, new) IN
                     [a EXCEPT !.cur = c, !.was = IF a.par THEN @ \cup Values(c) ELSE {}]
      [] e.o = "rreq" -> [a EXCEPT !.was = Values(a.cur)]
      [] OTHER -> a

\* a commit whose outcome has not been asked for, or that is under way, may or
\* may not have happened
Waiting(st) == {t \in DOMAIN st.txs : st.txs[t].ph = "wait" \/ (st.txs[t].ph = "act" /\ st.txs[t].cq > 0)}

JJ(s1, s2, a, e) ==
    CASE e.o = "mkseq" -> e.rc = "OK" /\ e.dup = 0
      [] e.o = "rmseq" -> e.rc = (IF e.q \in DOMAIN a.cur THEN "OK" ELSE "WARN_NOT_FOUND")
      [] e.o = "rdseq" ->
            IF e.q \notin DOMAIN a.cur THEN e.rc = "WARN_NOT_FOUND"
            ELSE /\ e.rc = "OK"
                 /\ \/ <<e.ver, e.v>> \in a.cur[e.q]
                    \/ <<e.q, <<e.ver, e.v>>>> \in a.was
                    \/ \E t \in Waiting(s1) : <<e.ver, e.v>> \in Newer(a.cur, PendOf(a, t), a.par)[e.q]
      [] e.o = "upseq" ->
            LET r == Tx(s1, e.t)
                p == PendOf(a, e.t) IN
            CASE r.ph = "wait" -> TRUE
              [] r.ph # "act" -> e.rc = "WARN_NOT_BEGIN"
              [] e.q \in DOMAIN p /\ e.ver <= p[e.q][1] -> e.rc = "WARN_ALREADY_EXISTS"
              [] OTHER -> e.rc = "OK"
      [] OTHER -> TRUE
FF(s, a) == TRUE
=============================================================================
