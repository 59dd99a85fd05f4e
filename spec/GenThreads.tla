----------------------------- MODULE GenThreads -----------------------------
EXTENDS Threads
VARIABLE n
Init == n = 0
Emitted(h) == EmitSession([ i \in 1..Lines(h) |-> LET l == Line(h, i) IN << Concat(<< Names[l[1]], l[2], l[3][1] >>), l[3][2] >> ])
Next == /\ n \leq NSessions + 1
        /\ n' = n + 1
        /\ IF n = 0 THEN \A j \in 1..NRefs : EmitSession(<< RefCall(j) >>) ELSE IF n \leq NSessions THEN Emitted(n) ELSE EmitDone(n)
Spec == Init /\ [][Next]_n
=============================================================================
