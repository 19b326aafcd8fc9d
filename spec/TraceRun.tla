------------------------------ MODULE TraceRun ------------------------------
(***************************************************************************)
(* Runs recorded histories, one event per step, through Obs!Step and a     *)
(* property's Judge.  One TLC run takes a file of many histories; every    *)
(* history ends in exactly one verdict line, ACC or REJ.                   *)
(***************************************************************************)
EXTENDS Obs, Json, IOUtils

CONSTANTS Aux0,                 \* initial auxiliary state of the property
          Judge(_, _, _, _),    \* (st before, st after, aux, event) -> BOOLEAN
          AuxStep(_, _, _, _),  \* (st before, st after, aux, event) -> aux
          Final(_, _)           \* (st, aux) -> BOOLEAN, at the end

VARIABLES hTr, hI, hSt, hAux, hVerdict
vars == <<hTr, hI, hSt, hAux, hVerdict>>

Batch == ndJsonDeserialize(IOEnv.TRACES)
Ev(n) == Batch[n].ev

TInit ==
    /\ hTr \in 1..Len(Batch)
    /\ hI = 0
    /\ hSt = Init0
    /\ hAux = Aux0
    /\ hVerdict = "run"

Say(v, at) == PrintT(<<v, Batch[hTr].id, at>>)

TNext ==
    /\ hVerdict = "run"
    /\ IF hI < Len(Ev(hTr))
       THEN LET e == Ev(hTr)[hI + 1]
                s2 == Step(hSt, e)
            IN /\ hI' = hI + 1
               /\ hSt' = s2
               /\ hAux' = AuxStep(hSt, s2, hAux, e)
               /\ IF e.o \notin {"died", "hang"} /\ Judge(hSt, s2, hAux, e)
                  THEN hVerdict' = "run"
                  ELSE hVerdict' = "rej" /\ Say("REJ", hI + 1)
               /\ UNCHANGED hTr
       ELSE /\ IF Final(hSt, hAux)
               THEN hVerdict' = "acc" /\ Say("ACC", hI)
               ELSE hVerdict' = "rej" /\ Say("REJ", hI)
            /\ UNCHANGED <<hTr, hI, hSt, hAux>>

TSpec == TInit /\ [][TNext]_vars
=============================================================================
