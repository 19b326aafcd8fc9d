-------------------------------- MODULE Gen --------------------------------
(***************************************************************************)
(* The client side of the system: sessions issuing API calls, and the      *)
(* environment ticking epochs (E) and background work (B).  Used with      *)
(* TLC -simulate to produce scripts, which the drivers replay into the     *)
(* real engine.  A profile (read from the environment) weighs the choices. *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, IOUtils, Json

Prof == ndJsonDeserialize(IOEnv.PROFILE)[1]

VARIABLES ses,    \* session -> [ty, n, wp, open]
          txt,    \* the script so far
          n,      \* number of operations
          vctr,   \* next value id
          cfg     \* configuration line of the script
vars == <<ses, txt, n, vctr, cfg>>

Pick(seq) == seq[RandomElement(1..(Len(seq) + 0 * n))]
Str(x) == ToString(x)
RECURSIVE Join(_)
Join(q) == IF q = <<>> THEN "" ELSE " " \o Str(Head(q)) \o Join(Tail(q))
Op(name, args) == name \o Join(args) \o ";"

Idle == [ty |-> "-", n |-> 0, wp |-> 0, open |-> {}, w |-> {}]

GInit ==
    /\ ses = [s \in 1..Prof.sessions |-> Idle]
    /\ txt = ""
    /\ n = 0
    /\ vctr = 1
    /\ cfg = <<>>

Start ==
    /\ cfg = <<>>
    /\ cfg' = <<Pick(Prof.keysets), Pick(Prof.valsets), Prof.storages, Pick(Prof.iter), Pick(Prof.flags)>>
    /\ txt' = Prof.prologue
    /\ UNCHANGED <<ses, n, vctr>>

Pow2(b) == IF b = 1 THEN 2 ELSE IF b = 2 THEN 4 ELSE IF b = 3 THEN 8 ELSE 16
RECURSIVE MaskOf(_)
MaskOf(S) == IF S = {} THEN 0 ELSE LET b == CHOOSE x \in S : TRUE IN Pow2(b) + MaskOf(S \ {b})
\* the argument only keeps TLC from treating these as constants
AnyMask(z) == MaskOf(RandomElement(SUBSET (1..(Prof.storages + 0 * z))))
Chance(pc) == RandomElement(1..(100 + 0 * n)) <= pc

Emit(s) == /\ txt' = txt \o s
           /\ n' = n + 1

Begin(s) ==
    \E ty \in {IF Prof.rlast = 1 /\ s = Prof.sessions THEN "R" ELSE IF Prof.onelong = 1 /\ \E q \in DOMAIN ses : q # s /\ ses[q].ty = "L" THEN "S" ELSE Pick(Prof.types)} :
    \E wp \in {IF Chance(Prof.ghost) THEN Pow2(Prof.storages + 1) ELSE IF ty = "L" THEN (IF Chance(Prof.wpall) THEN MaskOf(1..Prof.storages) ELSE AnyMask(n))
               ELSE IF Chance(Prof.badwp) THEN 2 ELSE 0} :
    \E rp \in {IF ty = "L" /\ Chance(Prof.ra) THEN AnyMask(n) ELSE 0} :
    \E rn \in {IF ty = "L" /\ Chance(Prof.ra) THEN AnyMask(n) ELSE 0} :
        /\ Emit(Op("begin", <<s, ty, wp, rp, rn>>) \o
                (IF ty # "S" /\ Chance(Prof.autoE) THEN "E;" ELSE "") \o
                (IF Chance(Prof.acqh) THEN Op("acqh", <<s>>) ELSE "") \o
                (IF Chance(Prof.txid) THEN Op("txid", <<s>>) ELSE ""))
        /\ ses' = [ses EXCEPT ![s] = [Idle EXCEPT !.ty = ty, !.wp = wp]]
        /\ UNCHANGED vctr

End(s) ==
    \E c \in {Chance(Prof.commit)} :
    \E cb \in {IF Chance(Prof.cb) THEN 1 ELSE 0} :
        /\ Emit((IF c THEN Op("commit", <<s, cb>>) ELSE Op("abort", <<s>>)) \o
                (IF Chance(Prof.result) THEN Op("result", <<s>>) ELSE ""))
        /\ ses' = [ses EXCEPT ![s] = Idle]
        /\ UNCHANGED vctr

RSt(z) == IF Chance(Prof.ghost) THEN Prof.storages + 1 ELSE RandomElement(1..(Prof.storages + 0 * z))
RK(z) == RandomElement(1..(Prof.keys + 0 * z))

\* storages a long transaction may write (mostly respects its preserve)
WSt(s) == IF ses[s].ty = "L" /\ ses[s].wp # 0 /\ ~Chance(Prof.wildwp)
          THEN LET ok == {b \in 1..Prof.storages : (ses[s].wp \div Pow2(b)) % 2 = 1}
               IN IF ok = {} THEN RSt(n) ELSE RandomElement(ok)
          ELSE RSt(n)

Work(s) ==
    \E o \in {Pick(Prof.ops)} :
        /\ CASE o = "search" \/ o = "exist" ->
                  Emit(Op(o, <<s, RSt(n), RK(n)>>)) /\ UNCHANGED vctr
             [] o \in {"insert", "update", "upsert"} ->
                  /\ Emit(Op(o, <<s, WSt(s), RK(n), vctr, IF Chance(Prof.blob) THEN 2 ELSE 0>>))
                  /\ vctr' = vctr + 1
             [] o = "delete" -> Emit(Op(o, <<s, WSt(s), RK(n)>>)) /\ UNCHANGED vctr
             [] o = "scan" ->
                  \E le \in {Pick(Prof.ends)} : \E re \in {Pick(Prof.ends)} :
                  \E rev \in {IF Chance(Prof.rev) THEN 1 ELSE 0} :
                  \E mx \in {IF rev = 1 THEN 1 ELSE IF Chance(Prof.limit) THEN RandomElement(1..(3 + 0 * n)) ELSE 0} :
                  Emit(Op(o, <<s, RSt(n), RK(n), le, RK(n), IF rev = 1 THEN 2 ELSE re, mx, rev>>)) /\ UNCHANGED vctr
             [] o = "oscan" ->
                  \E le \in {Pick(Prof.ends)} : \E re \in {Pick(Prof.ends)} : \E h \in {RandomElement(1..(2 + 0 * n))} :
                  /\ Emit(Op(o, <<s, RSt(n), RK(n), le, RK(n), re, 0, 0, h>>) \o Op("rscan", <<s, h>>))
                  /\ UNCHANGED vctr
             [] o = "nscan" ->
                  \E h \in {RandomElement(1..(2 + 0 * n))} :
                  Emit(Op("nscan", <<s, h>>) \o Op("rscan", <<s, h>>)) /\ UNCHANGED vctr
             [] o \in {"cscan", "size", "rscan"} ->
                  \E h \in {RandomElement(1..(2 + 0 * n))} : Emit(Op(o, <<s, h>>)) /\ UNCHANGED vctr
             [] o = "bulk" ->
                  /\ Emit(Op(o, <<s, Prof.bulkst, RandomElement(90..(120 + 0 * n)), vctr>>))
                  /\ vctr' = vctr + 1
             [] o = "upseq" ->
                  /\ Emit(Op(o, <<s, RandomElement(1..(2 + 0 * n)), 1 + ((vctr * 37) % 127), vctr>>))
                  /\ vctr' = vctr + 1
             [] o = "longkey" ->
                  /\ Emit(Op(o, <<s, Pick(<<"insert", "upsert", "update", "delete", "search", "exist">>), 1,
                                  Pick(<<30719, 30720, 30721, 40000>>), vctr>>))
                  /\ vctr' = vctr + 1
             [] OTHER -> Emit(Op(o, <<s>>)) /\ UNCHANGED vctr
        /\ ses' = [ses EXCEPT ![s].n = @ + 1]

Env ==
    \E o \in {Pick(Prof.env)} :
        /\ Emit(CASE o = "E" -> "E;"
                  [] o = "B" -> "B;"
                  [] o = "EB" -> "E;B;"
                  [] o = "EBEB" -> "E;B;E;B;"
                  [] o = "chkh" -> Op("chkh", <<RandomElement(1..(6 + 0 * n))>>)
                  [] o = "relh" -> Op("relh", <<RandomElement(1..(6 + 0 * n))>>)
                  [] o = "check" -> Op("check", <<RandomElement(1..(Prof.sessions + 0 * n))>>)
                  [] o = "rdseq" -> Op("rdseq", <<RandomElement(1..(2 + 0 * n))>>)
                  [] o = "mkseq" -> IF \E q \in DOMAIN ses : ses[q].ty # "-" THEN "E;" ELSE Op("mkseq", <<RandomElement(1..(2 + 0 * n))>>)
                  [] o = "rmseq" -> IF \E q \in DOMAIN ses : ses[q].ty # "-" THEN "B;" ELSE Op("rmseq", <<RandomElement(1..(3 + 0 * n))>>)
                  [] o = "mkst" -> Op("mkst", <<RandomElement(1..(4 + 0 * n)), Pick(<<0, 0, 7, 8, 9>>), Pick(<<0, 501, 502>>)>>)
                  [] o = "rmst" -> IF \E q \in DOMAIN ses : ses[q].ty # "-" THEN "E;" ELSE (IF Prof.quietrm = 1 THEN "E;" ELSE "") \o Op("rmst", <<RandomElement(1..(4 + 0 * n))>>) \o (IF Prof.quietrm = 1 THEN "E;" ELSE "")
                  [] o = "getst" -> Op("getst", <<RandomElement(1..(5 + 0 * n))>>)
                  [] o = "optst" -> Op("optst", <<RandomElement(1..(4 + 0 * n))>>)
                  [] o = "setopt" -> Op("setopt", <<RandomElement(1..(4 + 0 * n)), Pick(<<0, 7, 11>>), Pick(<<0, 503, 504>>)>>)
                  [] o = "leave" -> Op("leave", <<RandomElement(1..(Prof.sessions + 0 * n))>>)
                  [] o = "enterx" -> Op("enter", <<RandomElement(10..(29 + 0 * n))>>)
                  [] o = "leavex" -> Op("leave", <<RandomElement(10..(29 + 0 * n))>>)
                  [] o = "limit" -> Op("limit", <<Pick(<<0, 1, -1>>)>>)
                  [] o = "crash" -> Op("crash", <<Pick(<<0, 0, 2>>)>>) \o "finalr 0;"
                  [] o = "fuse" -> Op("fuse", <<RandomElement(1..(14 + 0 * n))>>)
                  [] o = "shutdown" -> Op("shutdown", <<Pick(<<0, 0, 2>>)>>) \o (IF Prof.reread = 1 THEN "finalr 0;" ELSE "")
                  [] o = "prio" -> Op("prio", <<RandomElement(1..(Prof.sessions + 0 * n))>>)
                  [] OTHER -> o \o ";")
        /\ ses' = IF o \in {"crash", "shutdown", "leaveall"} THEN [s \in 1..Prof.sessions |-> Idle] ELSE ses
        /\ UNCHANGED vctr

Busy == {s \in DOMAIN ses : ses[s].ty # "-"}

Tick ==
    /\ cfg # <<>>
    /\ n < Prof.length
    /\ IF Chance(Prof.envp) THEN Env
       ELSE \E s \in {IF Prof.sequential = 1 /\ Busy # {} THEN RandomElement(Busy)
                      ELSE RandomElement(1..(Prof.sessions + 0 * n))} :
            IF ses[s].ty = "-"
            THEN IF Chance(Prof.stray) THEN Work(s) ELSE Begin(s)
            ELSE IF Chance(Prof.rebegin) THEN Begin(s)
            ELSE IF ses[s].n >= Prof.txlen \/ Chance(Prof.stop) THEN End(s)
            ELSE Work(s)
    /\ UNCHANGED cfg

Done ==
    /\ n >= Prof.length
    /\ n < 1000
    /\ n' = 1000
    /\ PrintT("SCRIPT|cfg 0" \o Join(cfg) \o ";" \o txt \o Prof.epilogue)
    /\ UNCHANGED <<ses, txt, vctr, cfg>>

GNext == Start \/ Tick \/ Done
GSpec == GInit /\ [][GNext]_vars
=============================================================================
