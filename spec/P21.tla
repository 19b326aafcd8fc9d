-------------------------------- MODULE P21 --------------------------------
(* A clean restart reproduces the committed database.                       *)
EXTENDS Recover
A0 == R0
AA(s1, s2, a, e) == RStep(s1, s2, a, e)
JJ(s1, s2, a, e) ==
    CASE e.o = "init" -> e.rc = "OK"
      [] e.o = "reopen" -> e.lost = 0 /\ e.moved = 0 /\ e.extra = 0
      [] OTHER -> TRUE
FF(s, a) == Recovered(s, a)
=============================================================================
