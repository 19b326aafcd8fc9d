------------------------------ MODULE Recover ------------------------------
(***************************************************************************)
(* What must and what may be left of the committed transactions after      *)
(* crashes and restarts.  A transaction that was committed, or had asked   *)
(* for commit when the process ended, may have survived; one whose marker  *)
(* had been reported durable, or that was there at an orderly shutdown,    *)
(* must have.  Everything read afterwards has to fit one serial run of the *)
(* survivors.                                                              *)
(***************************************************************************)
EXTENDS TraceRun

\* dm: durability marker of committed transactions; must: transactions that
\* have to survive; cuts: the moments of crash and shutdown; mk: last marker;
\* sq: updates of sequences; rd: what was read from sequences since the last cut
R0 == [dm |-> EmptyF, must |-> {}, cuts |-> {}, mk |-> 0, sq |-> {}, rd |-> {}]

RStep(s1, s2, a, e) ==
    CASE e.o = "ccb" /\ e.rc = "OK" -> [a EXCEPT !.dm = Put(@, e.t, e.dm)]
      [] e.o = "chkh" /\ e.rc = "OK" /\ e.k = "DURABLE" -> [a EXCEPT !.must = @ \cup {e.t}]
      [] e.o = "durcb" -> [a EXCEPT !.mk = e.m]
      [] e.o = "final" /\ Tx(s1, e.t).ph = "com" -> [a EXCEPT !.must = @ \cup {e.t}]
      [] e.o = "crash" ->
            [a EXCEPT !.must = @ \cup {t \in DOMAIN a.dm : a.dm[t] <= e.reported /\ Tx(s1, t).ph = "com"},
                      !.dm = EmptyF, !.cuts = @ \cup {s2.n}, !.rd = {}]
      [] e.o = "shutdown" ->
            [a EXCEPT !.must = @ \cup {t \in Committed(s1) : ~\E c \in a.cuts : s1.txs[t].b <= c},
                      !.dm = EmptyF, !.cuts = @ \cup {s2.n}, !.rd = {}]
      [] e.o = "upseq" /\ e.rc = "OK" -> [a EXCEPT !.sq = @ \cup {<<e.t, e.q, e.ver, e.v>>}]
      [] e.o = "rdseq" /\ "th" \notin DOMAIN e -> [a EXCEPT !.rd = @ \cup {<<s2.n, e>>}]
      [] OTHER -> a

\* committed since the last crash
Late(s, a) == {t \in Committed(s) : \A c \in a.cuts : s.txs[t].b > c}
Sequencers(a) == {u[1] : u \in a.sq}
May(s, a) == {t \in DOMAIN s.txs : /\ (s.txs[t].ph = "com" \/ (s.txs[t].ph = "lost" /\ s.txs[t].cq > 0))
                                   /\ (~IsReader(s.txs[t]) \/ t \in Sequencers(a))}

SeenBy(r) ==
    {f[4] : f \in {g \in r.facts : g[1] = "v"}} \cup
    UNION {{g[2] : g \in Range(sc.got)} : sc \in r.scans}

\* the writers of everything seen by survivors are survivors
RECURSIVE Grow(_, _)
Grow(s, ts) ==
    LET vs == UNION {SeenBy(s.txs[t]) : t \in ts}
        more == ({s.wr[v] : v \in vs \cap DOMAIN s.wr} \ ts)
    IN IF more = {} THEN ts ELSE Grow(s, ts \cup more)

\* short transactions come after what was reported before they began, and
\* everything after a restart comes after everything before it
After(s, a, ts) ==
    [t \in ts |-> {u \in ts : /\ s.txs[u].ce > 0
                              /\ \/ s.txs[t].ty = "S" /\ s.txs[u].ce < s.txs[t].b
                                 \/ \E c \in a.cuts : s.txs[u].ce <= c /\ c < s.txs[t].b}]

\* a sequence read after the last crash or restart has the newest version the
\* survivors, and those committed since, gave it; an update that came too late
\* against one that is lost may be lost with it
SeqFits(s, a, ts) ==
    \A x \in a.rd :
        LET e == x[2]
            upd == {u \in a.sq : u[2] = e.q /\ u[1] \in ts /\ s.txs[u[1]].cq < x[1]}
            late(w) == \E y \in a.sq : /\ y[2] = e.q /\ y[3] >= w[3] /\ y[1] \notin ts
                                       /\ s.txs[y[1]].cq > 0 /\ (s.txs[y[1]].cq < s.txs[w[1]].ce \/ s.txs[w[1]].ce = 0)
        IN e.rc = "OK" => /\ \/ e.ver = 0
                             \/ \E u \in upd : e.ver = u[3] /\ e.v = u[4]
                          /\ \A w \in upd : w[3] > e.ver => late(w)

Recovered(s, a) ==
    LET must == Grow(s, a.must \cup Late(s, a))
        rest == May(s, a) \ must
    IN /\ \A t \in must : s.txs[t].ph = "com" \/ (s.txs[t].ph = "lost" /\ s.txs[t].cq > 0)
       /\ \E z \in SUBSET rest : SeqFits(s, a, must \cup z) /\ Serial(s.txs, must \cup z, After(s, a, must \cup z), EmptyF)
=============================================================================
