---------------------------- MODULE TraceSharing ----------------------------
(* The calls of a session agree: sharing storage changes nothing. *)
EXTENDS Sharing
VARIABLES s, pos, ok
vars == << s, pos, ok >>
Sessions == LoadTrace(0)
Init == s \in 1..Len(Sessions) /\ pos = 0 /\ ok = TRUE
Next == /\ ok
        /\ pos < Len(Sessions[s])
        /\ pos' = pos + 1
        /\ s' = s
        /\ LET e == Sessions[s][pos + 1] apart == Sessions[s][1] IN
           ok' = (e.ok /\ (IF Nothing(apart) THEN e.r[1] = FALSE ELSE Same(e.r, apart.r)))
Spec == Init /\ [][Next]_vars
Accepted == ok
=============================================================================
