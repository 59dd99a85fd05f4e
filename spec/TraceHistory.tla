---------------------------- MODULE TraceHistory ----------------------------
(***************************************************************************)
(* Every call of every history returned exactly what it returns as the     *)
(* only call of a fresh process.                                           *)
(***************************************************************************)
EXTENDS History
VARIABLES s, pos, ok
vars == << s, pos, ok >>
Sessions == LoadTrace(0)
Init == s \in 1..Len(Sessions) /\ pos = 0 /\ ok = TRUE
Next == /\ ok
        /\ pos < Len(Sessions[s])
        /\ pos' = pos + 1
        /\ s' = s
        /\ LET e == Sessions[s][pos + 1] IN
           ok' = (e.ok /\ (s \leq Pool \/ IsNoise(s - Pool, pos + 1) \/ LET ref == Sessions[Chosen(s - Pool, pos + 1)][1] IN ref.op = e.op /\ Same(ref.a, e.a) /\ Same(ref.r, e.r)))
Spec == Init /\ [][Next]_vars
Accepted == ok
=============================================================================
