-------------------------------- MODULE P10 --------------------------------
(* A write preserve reserves the storage for its long transaction.          *)
EXTENDS TraceRun
A0 == EmptyF   \* transaction -> storages it has read

Done == {"OK", "WARN_CANCEL_PREVIOUS_INSERT", "WARN_CANCEL_PREVIOUS_UPSERT"}
Holders(st, p, ph) == {u \in DOMAIN st.txs : st.txs[u].ty = "L" /\ st.txs[u].ph \in ph /\ Bit(st.txs[u].wp, p)}
Valid(st, u) == st.ep > st.txs[u].be

Reads(s1, e) ==
    IF e.o \in ReadOps /\ e.rc \in {"OK", "WARN_NOT_FOUND"} /\ <<e.p, e.k>> \notin DOMAIN Tx(s1, e.t).own THEN {e.p}
    ELSE IF e.o = "rscan" /\ e.rc = "OK" /\ <<e.t, e.h>> \in DOMAIN s1.cur
            /\ <<s1.cur[<<e.t, e.h>>].p, e.k>> \notin DOMAIN Tx(s1, e.t).own THEN {s1.cur[<<e.t, e.h>>].p}
    ELSE {}
AA(s1, s2, a, e) ==
    IF "t" \in DOMAIN e /\ Tx(s1, e.t).ph = "act" /\ Reads(s1, e) # {}
    THEN Put(a, e.t, Reads(s1, e) \cup (IF e.t \in DOMAIN a THEN a[e.t] ELSE {}))
    ELSE a

JJ(s1, s2, a, e) ==
    LET t == IF "t" \in DOMAIN e THEN e.t ELSE 0
        r == Tx(s1, t)
        rd == IF t \in DOMAIN a THEN a[t] ELSE {}
        held == \E p \in rd : \E u \in Holders(s1, p, {"act"}) \ {t} : Valid(s1, u)
        apart == "th" \notin DOMAIN e    \* no other call overlaps this one
    IN IF r.ph \notin {"act", "wait"} THEN TRUE
       ELSE /\ (e.o \in WriteOps /\ r.ty = "L" /\ ~Bit(r.wp, e.p)) => e.rc \notin Done
            /\ (e.o \in WriteOps /\ r.ty = "L" /\ Bit(r.wp, e.p)) =>
                    e.rc \notin {"WARN_WRITE_WITHOUT_WP", "WARN_CONFLICT_ON_WRITE_PRESERVE"}
            \* reserved
            /\ (/\ e.o \in {"insert", "update", "delete"} /\ r.ty = "S"
                /\ <<e.p, e.k>> \notin DOMAIN r.own
                /\ apart /\ Holders(s1, e.p, {"act"}) # {}) => e.rc \notin Done
            \* released
            /\ (/\ e.o \in WriteOps /\ r.ty = "S" /\ apart /\ Holders(s1, e.p, {"act", "wait"}) = {}) =>
                    e.rc # "WARN_CONFLICT_ON_WRITE_PRESERVE"
            \* a short reader of a reserved storage cannot commit
            /\ (r.ty = "S" /\ held /\ apart /\ e.o \in {"commit", "ccb"}) => e.rc # "OK"
            /\ (e.o = "ccb" /\ apart /\ r.ty = "S" /\ e.r = "CC_OCC_WP_VERIFY") =>
                    \E p \in r.sts : Holders(s1, p, {"act", "wait"}) # {}
FF(s, a) == TRUE
=============================================================================
