----------------------------- MODULE GenSharing -----------------------------
(* Sessions for N05. *)
EXTENDS Sharing
VARIABLE n
Blocks == Param("blocks")
Init == n = 0
Next == /\ n \leq Blocks
        /\ n' = n + 1
        /\ IF n < Blocks THEN \A j \in 1..NOps : EmitSession(SharingSession(j, 50 * n + j)) ELSE EmitDone(n)
Spec == Init /\ [][Next]_n
=============================================================================
