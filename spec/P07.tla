-------------------------------- MODULE P07 --------------------------------
(* No phantoms.  A history is rejected if it cannot be ordered because of   *)
(* what scans and failed lookups saw: either these alone contradict every   *)
(* order, or dropping them makes an order possible.                         *)
EXTENDS TraceRun
A0 == 0
JJ(s1, s2, a, e) == TRUE
AA(s1, s2, a, e) == a

Absence(f) == f[1] = "i" \/ (f[1] = "v" /\ f[4] = 0)
Sign(v) == IF v > 0 THEN 1 ELSE v
\* only which keys are there: absences and scanned keys
Keys(r) == [r EXCEPT
    !.facts = {f \in @ : Absence(f)},
    !.own = [x \in DOMAIN @ |-> Sign(@[x])],
    !.scans = {[sc EXCEPT !.own = [x \in DOMAIN @ |-> Sign(@[x])],
                          !.got = [j \in DOMAIN @ |-> <<@[j][1], 1>>]] : sc \in @}]
\* only the records actually returned
Records(r) == [r EXCEPT
    !.facts = {f \in @ : ~Absence(f)} \cup
              UNION {{<<"v", sc.p, sc.got[j][1], sc.got[j][2], 0>> :
                        j \in {i \in DOMAIN sc.got : /\ <<sc.p, sc.got[i][1]>> \notin DOMAIN sc.own
                                                     /\ <<sc.p, sc.got[i][1]>> \notin sc.ch}} : sc \in @.scans},
    !.scans = {}]
FinalLast(ts, fs) == [t \in ts |-> IF t \in fs THEN ts \ fs ELSE {}]
Map(Op(_), txs) == [t \in DOMAIN txs |-> Op(txs[t])]

FF(s, a) ==
    LET c == Committed(s) fl == FinalLast(c, s.finals) IN
    \/ Serial(s.txs, c, RealTime(s.txs, c), EmptyF)
    \/ Serial(s.txs, c, fl, EmptyF)
    \/ /\ Serial(Map(Keys, s.txs), c, fl, EmptyF)
       /\ ~Serial(Map(Records, s.txs), c, fl, EmptyF)
=============================================================================
