----------------------------- MODULE GenHistory -----------------------------
(***************************************************************************)
(* Histories for N03.  First one session per call of a pool, each a fresh  *)
(* process that makes just that call: what the call returns on its own.    *)
(* Then, per operation, a process making all ordered pairs of its calls,   *)
(* and one making very many calls of it;                                   *)
(* and long sessions that make calls of the pool in drawn order, in runs   *)
(* of one operation, with repetitions and with random deviates in between. *)
(***************************************************************************)
EXTENDS History
VARIABLE n
Total == Special + Histories
Init == n = 0
Next == /\ n \leq Total + 1
        /\ n' = n + 1
        /\ IF n = 0 THEN \A j \in 1..Pool : EmitSession(<< PoolCall(j) >>)
           ELSE IF n \leq Total THEN EmitSession([ i \in 1..Length(n) |-> HistoryCall(n, i) ])
           ELSE EmitDone(n)
Spec == Init /\ [][Next]_n
=============================================================================
