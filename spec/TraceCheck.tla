----------------------------- MODULE TraceCheck -----------------------------
(***************************************************************************)
(* Validates what the implementation did: every session recorded by the    *)
(* driver must be a behaviour of the specification, i.e. every call's      *)
(* recorded results must be ones the specification accepts.                *)
(***************************************************************************)
EXTENDS Library
VARIABLES s, pos, ok
vars == << s, pos, ok >>

Sessions == LoadTrace(0)

Init == s \in 1..Len(Sessions) /\ pos = 0 /\ ok = TRUE
Next == /\ ok
        /\ pos < Len(Sessions[s])
        /\ pos' = pos + 1
        /\ ok' = LET e == Sessions[s][pos + 1] IN e.ok /\ Accept(e.op, e.a, e.r)
        /\ s' = s
Spec == Init /\ [][Next]_vars
Accepted == ok
=============================================================================
