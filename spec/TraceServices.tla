---------------------------- MODULE TraceServices ---------------------------
EXTENDS Services
VARIABLES s, pos, ok
vars == << s, pos, ok >>
Sessions == LoadTrace(0)
Init == s \in 1..Len(Sessions) /\ pos = 0 /\ ok = TRUE
Next == /\ ok
        /\ pos < Len(Sessions[s])
        /\ pos' = pos + 1
        /\ s' = s
        /\ ok' = LET e == Sessions[s][pos + 1] IN e.ok /\ ServiceAccept(e.op, e.a, e.r)
Spec == Init /\ [][Next]_vars
Accepted == ok
=============================================================================
