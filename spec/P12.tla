-------------------------------- MODULE P12 --------------------------------
(* Waiting commits are always decided; the oldest long transaction never    *)
(* waits; one that meets nobody commits.                                    *)
EXTENDS TraceRun
\* with: transaction -> transactions that ran at the same time
\* elder: transaction -> long transactions that may have begun before it
\* pend: session that is beginning one -> transactions that ran meanwhile
\* asked: transaction -> long transactions running since its commit was asked for
\* par: calls of several threads overlap
A0 == [with |-> EmptyF, elder |-> EmptyF, pend |-> EmptyF, asked |-> EmptyF, par |-> FALSE]

Running(st) == {t \in DOMAIN st.txs : st.txs[t].ph \in {"act", "wait"}}
AA(s1, s2, a, e) ==
    CASE e.o = "par" -> [a EXCEPT !.par = TRUE]
      [] e.o = "join" -> [a EXCEPT !.par = FALSE]
      [] e.o = "breq" -> [a EXCEPT !.pend = Put(@, e.s, Running(s1))]
      [] e.o = "creq" -> [a EXCEPT !.asked = Put(@, e.t, LiveLong(s1))]
      [] e.o = "begin" /\ e.rc = "OK" ->
         LET o == (Running(s1) \ {e.t}) \cup (IF e.s \in DOMAIN a.pend THEN a.pend[e.s] ELSE {})
             \* those whose begin overlapped this one
             over == IF e.s \in DOMAIN a.pend THEN {t \in o : t \notin a.pend[e.s]} ELSE {}
             p == Drop(a.pend, e.s)
             L == {t \in DOMAIN s1.txs : s1.txs[t].ty = "L"}
         IN [a EXCEPT !.with = Put([t \in DOMAIN a.with |-> IF t \in Running(s1) THEN a.with[t] \cup {e.t} ELSE a.with[t]], e.t, o),
             !.elder = Put([t \in DOMAIN a.elder |-> IF e.ty = "L" /\ t \in over THEN a.elder[t] \cup {e.t} ELSE a.elder[t]],
                           e.t, o \cap L),
             !.pend = p,
             !.asked = [t \in DOMAIN a.asked |-> IF e.ty = "L" THEN a.asked[t] \cup {e.t} ELSE a.asked[t]]]
      [] e.o = "begin" -> [a EXCEPT !.pend = Drop(@, e.s)]
      [] OTHER -> a

Older(st, t) == Tx(st, t).live \cap LiveLong(st)
MaybeOlder(st, a, t) == a.elder[t] \cap LiveLong(st)
Touches(r) == r.sts \cup (IF r.ty = "L" THEN Mask(r.wp) ELSE {})

JJ(s1, s2, a, e) ==
    LET t == IF "t" \in DOMAIN e THEN e.t ELSE 0
        r == Tx(s1, t)
    IN CASE r.ph = "act" /\ e.o = "commit" /\ e.rc \in {"FALSE", "WARN_WAITING_FOR_OTHER_TX"} ->
              r.ty = "L" /\ (a.elder[t] \cap a.asked[t] # {} \/ DOMAIN a.pend # {})
         [] r.ph \in {"act", "wait"} /\ r.ty = "L" /\ e.o \in {"commit", "ccb", "check"} /\ e.rc = "ERR_CC" ->
              \/ a.par /\ (a.with[t] # {} \/ DOMAIN a.pend # {})
              \/ \E u \in a.with[t] : Touches(s1.txs[u]) \cap Touches(r) # {}
         [] r.ph = "act" /\ r.ty = "L" /\ e.o = "prio" ->
              /\ e.rc = "OK"
              \* (an older read-only transaction may count as well)
              /\ (MaybeOlder(s1, a, t) = {} /\ \A u \in a.with[t] : s1.txs[u].ty # "R" \/ s1.txs[u].ph # "act") => e.b = 1
              /\ (\E u \in Older(s1, t) : s1.txs[u].ph = "act") => e.b = 0
         [] r.ph = "act" /\ r.ty # "L" /\ e.o = "prio" -> e.rc = "WARN_INVALID_ARGS"
         [] e.o = "stuck" -> FALSE
         [] OTHER -> TRUE
FF(s, a) == TRUE
=============================================================================
