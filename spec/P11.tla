-------------------------------- MODULE P11 --------------------------------
(* A long transaction reads only inside its declared read area.             *)
EXTENDS TraceRun
A0 == {}        \* transactions ended by a violation
AA(s1, s2, a, e) == IF "rc" \in DOMAIN e /\ e.rc = "ERR_READ_AREA_VIOLATION" THEN a \cup {e.t} ELSE a

May(r, p) == (r.rp = 0 \/ Bit(r.rp, p)) /\ ~Bit(r.rn, p)
V == "ERR_READ_AREA_VIOLATION"

JJ(s1, s2, a, e) ==
    LET t == IF "t" \in DOMAIN e THEN e.t ELSE 0
        r == Tx(s1, t)
    IN CASE t \in a /\ e.o # "begin" /\ "rc" \in DOMAIN e /\ e.o \notin {"check", "chkh", "relh", "acqh", "final", "leave", "result"} ->
              e.rc \in {"WARN_NOT_BEGIN", "WARN_INVALID_KEY_LENGTH", "TRUE"}
         [] r.ph # "act" -> TRUE
         [] r.ty # "L" -> IF "rc" \in DOMAIN e THEN e.rc # V ELSE TRUE
         [] s1.ep <= r.be -> TRUE       \* not active yet
         [] e.o \in ReadOps \cup {"oscan"} -> (e.rc = V) <=> ~May(r, e.p)
         [] e.o \in {"insert", "update", "delete"} /\ Bit(r.wp, e.p) -> (e.rc = V) <=> ~May(r, e.p)
         [] OTHER -> IF "rc" \in DOMAIN e THEN e.rc # V ELSE TRUE
FF(s, a) == \A t \in a : s.txs[t].ph = "abt"
=============================================================================
