-------------------------------- MODULE Duel --------------------------------
(***************************************************************************)
(* Two or three transactions in one of the shapes in which isolation can   *)
(* fail, the last calls of which run at once.  A shape says what each      *)
(* transaction reads and writes; the kinds of the transactions, the calls  *)
(* used to read and write, the state the records start in and how much of  *)
(* each transaction overlaps are chosen freely.  Like Gen, run with TLC    *)
(* -simulate; each behaviour is one program.                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, IOUtils, Json

Prof == ndJsonDeserialize(IOEnv.PROFILE)[1]

VARIABLES n, txt
vars == <<n, txt>>

\* the argument only keeps TLC from treating these as constants
One(S, z) == RandomElement(IF z < 0 THEN {} ELSE S)
Pick(q, z) == q[One(1..Len(q), z)]
Chance(pc, z) == One(1..100, z) <= pc
Str(x) == ToString(x)
RECURSIVE Join(_)
Join(q) == IF q = <<>> THEN "" ELSE " " \o Str(Head(q)) \o Join(Tail(q))
Op(name, args) == name \o Join(args) \o ";"
RECURSIVE Flat(_)
Flat(q) == IF q = <<>> THEN "" ELSE Head(q) \o Flat(Tail(q))
Pow2(b) == IF b = 1 THEN 2 ELSE IF b = 2 THEN 4 ELSE IF b = 3 THEN 8 ELSE 16
RECURSIVE MaskOf(_)
MaskOf(S) == IF S = {} THEN 0 ELSE LET b == CHOOSE x \in S : TRUE IN Pow2(b) + MaskOf(S \ {b})

R(k) == [a |-> "r", k |-> k]
W(k) == [a |-> "w", k |-> k]
Shapes == <<
    << <<R(1), W(2)>>, <<R(2), W(1)>> >>,                         \* write skew
    << <<R(1), W(1)>>, <<R(1), W(1)>> >>,                         \* lost update
    << <<R(1), W(1)>>, <<R(1), W(1)>>, <<R(1), W(1)>> >>,
    << <<W(1), W(2)>>, <<R(1), R(2)>> >>,                         \* half of a transaction
    << <<W(1), W(2)>>, <<R(1), R(2)>>, <<R(2), R(1)>> >>,
    << <<W(1), W(2)>>, <<W(2), W(1)>> >>,                         \* crossed writes
    << <<W(1), W(2)>>, <<W(2), W(1)>>, <<R(1), R(2)>> >>,
    << <<W(1)>>, <<W(2)>>, <<R(1), R(2)>>, <<R(2), R(1)>> >>,     \* order of two writes
    << <<R(1), W(2)>>, <<R(2), W(3)>>, <<R(3), W(1)>> >>,         \* a ring of three
    << <<R(1), W(2)>>, <<W(1)>>, <<R(1), R(2)>> >>,               \* the reader's anomaly
    << <<W(1)>>, <<R(1), W(1)>> >>,
    << <<W(1)>>, <<W(1)>>, <<R(1)>> >>,
    << <<W(1), W(1)>>, <<R(1), W(1)>> >>,
    << <<R(1), R(1)>>, <<W(1)>> >>,                               \* repeated read
    << <<R(1), R(2), W(1)>>, <<R(1), R(2), W(2)>> >> >>

Mod(a, b) == a - b * (a \div b)
St(k) == 1 + Mod(k - 1, Prof.storages)

Access(s, x, i, z) ==
    IF x.a = "r"
    THEN LET o == TLCEval(Pick(Prof.reads, z)) IN
         IF o = "scan"
         THEN LET e == Pick(<<<<1, 2, 1, 2, 0, 0>>, <<1, 2, 1, 2, 0, 0>>, <<x.k, 1, x.k, 1, 0, 0>>, <<x.k, 1, 1, 2, 0, 0>>, <<1, 2, x.k, 1, 0, 0>>,
                             <<1, 2, 1, 2, 1, 1>>, <<1, 2, 1, 2, 1, 0>>>>, z)
              IN Op("scan", <<s, St(x.k)>> \o e)
         ELSE Op(o, <<s, St(x.k), x.k>>)
    ELSE LET o == TLCEval(Pick(Prof.writes, z)) IN
         CASE o = "delete" -> Op(o, <<s, St(x.k), x.k>>)
           [] o = "upseq" -> Op(o, <<s, 1 + Mod(x.k - 1, 2), One(1..100, z), 10 * s + i>>)
           [] OTHER -> Op(o, <<s, St(x.k), x.k, 10 * s + i, IF Chance(Prof.blob, z) THEN 2 ELSE 0>>)

Kind(s, z) == IF s = 1 \/ Prof.onelong = 0 THEN Pick(Prof.types, z) ELSE Pick(SelectSeq(Prof.types, LAMBDA t : t # "L"), z)

\* the calls of a transaction: begin, its accesses, end
Calls(s, ty, acc, z) ==
    LET wp == MaskOf({St(x.k) : x \in {y \in {acc[i] : i \in DOMAIN acc} : y.a = "w"}})
        sw == TLCEval(Len(acc) = 2 /\ Chance(IF acc[1].a = acc[2].a THEN 40 ELSE 15, z))
        ord == IF sw THEN <<acc[2], acc[1]>> ELSE acc
        slow == TLCEval(Chance(35, z))
        use == IF ty = "R" THEN [i \in DOMAIN ord |-> R(ord[i].k)] ELSE ord
    \* a long or read-only transaction becomes active with the next epoch,
    \* waited for right away or in its own time
    IN << Op("begin", <<s, ty, IF ty = "L" THEN (IF Chance(Prof.wpall, z) THEN MaskOf(1..Prof.storages) ELSE wp) ELSE 0, 0, 0>>)
            \o (IF ty # "S" /\ ~slow THEN "E;" ELSE "")
            \o (IF Chance(Prof.acqh, z) THEN Op("acqh", <<s>>) ELSE "") >>
       \o (IF ty # "S" /\ slow THEN <<"E;">> ELSE <<>>)
       \o TLCEval([i \in DOMAIN use |-> Access(s, use[i], i, z)])
       \o << (IF Chance(Prof.commit, z) THEN Op("commit", <<s, IF Chance(Prof.cb, z) THEN 1 ELSE 0>>) ELSE Op("abort", <<s>>))
             \o (IF Chance(Prof.result, z) THEN Op("result", <<s>>) ELSE "") >>

Setup(z) ==
    LET st == TLCEval([k \in 1..3 |-> Pick(Prof.start, z)])
        some == {k \in 1..3 : st[k] # "-"}
        gone == {k \in 1..3 : st[k] = "d"}
        each(S, f(_)) == Flat([k \in 1..3 |-> IF k \in S THEN f(k) ELSE ""])
        up(k) == Op("upsert", <<1, St(k), k, 90 + k, 0>>)
        rm(k) == Op("delete", <<1, St(k), k>>)
    IN (IF some = {} THEN "" ELSE "begin 1 S 0 0 0;" \o each(some, up) \o "commit 1 0;")
       \o (IF Chance(50, z) THEN "E;" ELSE "")
       \o (IF gone = {} THEN "" ELSE "begin 1 S 0 0 0;" \o each(gone, rm) \o "commit 1 0;")
       \o Pick(<<"", "E;", "E;E;", "E;B;", "E;E;B;">>, z)

Env(z) == LET o == TLCEval(Pick(Prof.env, z)) IN
          CASE o = "EB" -> "E;B;"
            [] o = "chkh" -> Op("chkh", <<One(1..3, z)>>)
            [] o = "rdseq" -> Op("rdseq", <<One(1..2, z)>>)
            [] o = "fuse" -> Op("fuse", <<One(1..14, z)>>)
            [] OTHER -> o \o ";"

Min(a, b) == IF a < b THEN a ELSE b
Program(z) ==
    LET sh == TLCEval(Pick(Shapes, z))
        m == Len(sh)
        kinds == TLCEval([s \in 1..m |-> Kind(s, z)])
        calls == TLCEval([s \in 1..m |-> Calls(s, kinds[s], sh[s], z)])
        cut == TLCEval([s \in 1..m |-> Len(calls[s]) - Min(Len(calls[s]), Pick(<<1, 1, 1, 2, 2, 3, 4, 4, 9, 9>>, z))])
        head(s) == Flat(SubSeq(calls[s], 1, cut[s]))
        \* where the overlap ends, usually with the transaction
        stop == TLCEval([s \in 1..m |-> IF Chance(80, z) THEN Len(calls[s]) ELSE One(cut[s]..Len(calls[s]), z)])
        call(s, i) == IF calls[s][i] = "E;" THEN "@" \o Str(s) \o " E;" ELSE calls[s][i]
        tail(s) == Flat([i \in 1..(stop[s] - cut[s]) |-> call(s, cut[s] + i)])
        rest(s) == Flat(SubSeq(calls[s], stop[s] + 1, Len(calls[s])))
        first == TLCEval(One(1..m, z))
        order == [i \in 1..m |-> 1 + Mod(first + i, m)]
    IN Prof.prologue \o Setup(z)
       \o Flat([i \in 1..m |-> head(order[i])])
       \o (IF Chance(Prof.envp, z) THEN Env(z) ELSE "")
       \o "par 0;"
       \o Flat([s \in 1..m |-> tail(s)])
       \o (IF Chance(Prof.envp, z) THEN Env(z) ELSE "")
       \o (IF Chance(Prof.envp \div 2, z) THEN Env(z) ELSE "")
       \o "join;"
       \o Flat([i \in 1..m |-> rest(order[i])])
       \o Prof.epilogue

Config(z) == <<Pick(Prof.keysets, z), Pick(Prof.valsets, z), Prof.storages, Pick(Prof.iter, z), Pick(Prof.flags, z)>>

Init == n = 0 /\ txt = ""
Next == \/ n = 0 /\ n' = 1 /\ txt' = "cfg 0" \o Join(Config(n)) \o ";" \o Program(n)
        \/ n = 1 /\ n' = 2 /\ UNCHANGED txt /\ PrintT("SCRIPT|" \o txt)
GSpec == Init /\ [][Next]_vars
=============================================================================
