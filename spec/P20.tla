-------------------------------- MODULE P20 --------------------------------
(* What is reported durable is durable, and the durability marker only      *)
(* grows, also over restarts.                                               *)
EXTENDS Recover
A0 == R0
AA(s1, s2, a, e) == RStep(s1, s2, a, e)
JJ(s1, s2, a, e) ==
    CASE e.o = "durcb" -> e.m >= a.mk
      [] e.o = "init" -> e.rc = "OK"
      [] e.o = "ccb" /\ e.rc = "OK" -> e.dm > 0
      [] OTHER -> TRUE
FF(s, a) == Recovered(s, a)
=============================================================================
