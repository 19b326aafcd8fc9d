-------------------------------- MODULE P14 --------------------------------
(* Misuse is refused with the documented status and changes nothing.        *)
EXTENDS TraceRun
A0 == [st |-> {}, opn |-> {}, held |-> EmptyF]   \* storages, cursors not closed, handles taken

AA(s1, s2, a, e) ==
    LET c == IF "h" \in DOMAIN e /\ "t" \in DOMAIN e THEN <<e.t, e.h>> ELSE <<0, 0>> IN
    CASE e.o = "mkst" /\ e.rc = "OK" -> [a EXCEPT !.st = @ \cup {e.p}]
      [] e.o = "rmst" /\ e.rc = "OK" -> [a EXCEPT !.st = @ \ {e.p}]
      [] e.o = "oscan" /\ e.rc = "OK" -> [a EXCEPT !.opn = @ \cup {c}]
      [] e.o = "cscan" /\ e.rc = "OK" -> [a EXCEPT !.opn = @ \ {c}]
      [] e.o = "acqh" /\ e.rc = "OK" -> [a EXCEPT !.held = Put(@, e.t, 1)]
      [] OTHER -> a

CursorOps == {"rscan", "nscan", "cscan", "size"}
Tx1Ops == DataOps \cup CursorOps \cup {"oscan", "commit", "abort", "txid", "acqh", "prio", "upseq"}
\* calls that do something, by their status
Took == {"OK", "WARN_CANCEL_PREVIOUS_INSERT", "WARN_CANCEL_PREVIOUS_UPSERT", "WARN_NOT_FOUND",
         "WARN_ALREADY_EXISTS", "WARN_SCAN_LIMIT"} \cup Errs

Long(e) == "k" \in DOMAIN e /\ e.o \in DataOps /\ e.k > 1000000 + 30720

\* reasons to refuse event e of transaction r: statuses of which one is due
Refusals(s1, a, r, e) ==
    LET act == r.ph = "act"
        pre == act /\ r.ty = "L" /\ s1.ep <= r.be
        c == IF "h" \in DOMAIN e THEN <<e.t, e.h>> ELSE <<0, 0>>
    IN (IF Long(e) THEN {"WARN_INVALID_KEY_LENGTH"} ELSE {}) \cup
       (IF ~act THEN {"WARN_NOT_BEGIN"} ELSE {}) \cup
       (IF e.o \in DataOps \cup {"oscan"} /\ e.p \notin a.st THEN {"WARN_STORAGE_NOT_FOUND"} ELSE {}) \cup
       (IF e.o \in WriteOps /\ act /\ r.ty = "R" THEN {"WARN_ILLEGAL_OPERATION"} ELSE {}) \cup
       (IF e.o \in DataOps \cup {"oscan"} /\ pre THEN {"WARN_PREMATURE"} ELSE {}) \cup
       (IF e.o = "commit" /\ pre /\ r.ty = "L" THEN {"WARN_PREMATURE", "TRUE"} ELSE {}) \cup
       (IF e.o \in WriteOps /\ act /\ r.ty = "L" /\ ~Bit(r.wp, e.p) THEN {"WARN_WRITE_WITHOUT_WP"} ELSE {}) \cup
       (IF e.o = "prio" /\ act /\ r.ty # "L" THEN {"WARN_INVALID_ARGS"} ELSE {}) \cup
       (IF e.o = "acqh" /\ act /\ e.t \in DOMAIN a.held THEN {"WARN_ALREADY_EXISTS"} ELSE {}) \cup
       (IF e.o \in CursorOps /\ act /\ c \notin a.opn THEN {"WARN_INVALID_HANDLE"} ELSE {})

BeginRefusals(s1, a, e) ==
    LET old == IF e.s \in DOMAIN s1.act THEN Tx(s1, s1.act[e.s]) ELSE NoTx IN
    (IF old.ph = "act" THEN {"WARN_ALREADY_BEGIN"} ELSE {}) \cup
    (IF e.wp # 0 /\ e.ty # "L" THEN {"WARN_ILLEGAL_OPERATION"} ELSE {}) \cup
    (IF e.ty = "L" /\ Mask(e.wp) \ a.st # {} THEN {"WARN_INVALID_ARGS"} ELSE {})

JJ(s1, s2, a, e) ==
    CASE e.o = "begin" ->
            LET x == BeginRefusals(s1, a, e)
                waiting == e.s \in DOMAIN s1.act /\ Tx(s1, s1.act[e.s]).ph = "wait"
            IN IF waiting THEN e.rc \in x \cup {"OK", "WARN_ALREADY_BEGIN"}
               ELSE IF x = {} THEN e.rc = "OK" ELSE e.rc \in x
      [] e.o \in Tx1Ops ->
            LET r == Tx(s1, e.t)
                x == Refusals(s1, a, r, e)
            IN IF r.ph = "wait"
               THEN \* decided or not, nothing happens any more
                    e.o = "abort" => e.rc \in {"WARN_ILLEGAL_OPERATION", "WARN_NOT_BEGIN"}
               ELSE IF x = {}
               THEN \* a read-only transaction may have to wait for its snapshot
                    /\ e.rc = "WARN_PREMATURE" => r.ty = "R" /\ s1.ep <= r.be
                    /\ e.rc \notin {"WARN_NOT_BEGIN", "WARN_INVALID_HANDLE",
                                    "WARN_STORAGE_NOT_FOUND", "WARN_INVALID_KEY_LENGTH", "WARN_ILLEGAL_OPERATION"}
                    /\ e.o = "abort" => e.rc = "OK"
               ELSE \/ e.rc \in x
                    \/ e.rc = "WARN_PREMATURE" /\ r.ty = "R" /\ s1.ep <= r.be
                    \/ (e.o = "commit" /\ e.cb = 1 /\ e.rc = "TRUE")
      [] e.o = "recommit" -> e.rc \in {"WARN_WAITING_FOR_OTHER_TX", "WARN_NOT_BEGIN"}
      [] e.o = "ccb" ->
            LET r == Tx(s1, e.t) IN
            CASE r.ph \notin {"act", "wait"} -> e.rc = "WARN_NOT_BEGIN"
              [] r.ph = "act" /\ r.ty = "L" /\ s1.ep <= r.be -> e.rc = "WARN_PREMATURE"
              [] OTHER -> e.rc \notin {"WARN_NOT_BEGIN", "WARN_PREMATURE"}
      [] OTHER -> TRUE

FinalLast(ts, fs) == [t \in ts |-> IF t \in fs THEN ts \ fs ELSE {}]
FF(s, a) == LET c == Committed(s) IN
    \/ Serial(s.txs, c, RealTime(s.txs, c), EmptyF)
    \/ Serial(s.txs, c, FinalLast(c, s.finals), EmptyF)
=============================================================================
