-------------------------------- MODULE P19 --------------------------------
(* Crash recovery yields the state of a prefix of the committed             *)
(* transactions.                                                            *)
EXTENDS Recover
A0 == R0
AA(s1, s2, a, e) == RStep(s1, s2, a, e)
JJ(s1, s2, a, e) == e.o = "init" => e.rc = "OK"
FF(s, a) == Recovered(s, a)
=============================================================================
