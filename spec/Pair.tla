------------------------------- MODULE Pair --------------------------------
(* Two runs of one program, the second without the part that must not make  *)
(* a difference (background work, read only transactions): every call has   *)
(* to answer the same in both.                                              *)
EXTENDS TraceRun
A0 == 0
AA(s1, s2, a, e) == a
JJ(s1, s2, a, e) == e.a = e.b
FF(s, a) == TRUE
=============================================================================
