---------------------------- MODULE EnumeratorsMC ---------------------------
(***************************************************************************)
(* Every history of the two generators for every size up to the bounds,    *)
(* two rounds long: each result well formed, nothing repeated or missed,   *)
(* exhaustion reported exactly when everything has been seen, and the      *)
(* second round identical to the first.                                    *)
(***************************************************************************)
EXTENDS Enumerators, FiniteSets
MaxCand == IF Param("tier") = "thorough" THEN 9 ELSE 7
MaxPerm == IF Param("tier") = "thorough" THEN 6 ELSE 5
VARIABLES kind, n, k, state, status, history, round
vars == << kind, n, k, state, status, history, round >>

RECURSIVE Fact(_)
Fact(x) == IF x \leq 1 THEN 1 ELSE x * Fact(x - 1)
Total == IF kind = "comb" THEN Fact(n) \div (Fact(k) * Fact(n - k)) ELSE Fact(n)
Item == IF kind = "comb" THEN state ELSE PermOrder(n, state)

Init == /\ \/ kind = "comb" /\ n \in 1..MaxCand /\ k \in 1..n
           \/ kind = "perm" /\ n \in 1..MaxPerm /\ k = n
        /\ state = [ i \in 1..k |-> IF i = 1 THEN -1 ELSE 7 ]
        /\ status = CPSOk /\ history = << >> /\ round = 0
Next == /\ round < 2
        /\ LET r == IF kind = "comb" THEN CombStep(k, n, state) ELSE PermStep(n, state) IN
           /\ state' = r[2] /\ status' = r[1]
           /\ round' = IF r[1] = CPSNoMore THEN round + 1 ELSE round
           /\ history' = Append(history, IF kind = "comb" THEN r[2] ELSE PermOrder(n, r[2]))
        /\ UNCHANGED << kind, n, k >>
Spec == Init /\ [][Next]_vars

WellFormed == history # << >> =>
    IF kind = "comb" THEN IsComb(k, n, history[Len(history)]) ELSE IsPerm(n, history[Len(history)]) /\ IsPermState(n, state)
\* before exhaustion everything is new; exhaustion comes exactly when everything has been delivered
NoRepeat == round = 0 => Len(history) \leq Total /\ Cardinality({ history[i] : i \in 1..Len(history) }) = Len(history)
Complete == status = CPSNoMore => Len(history) = round * Total + 1 /\ Cardinality({ history[i] : i \in 1..Len(history) }) = Total
Repeats == Len(history) > Total => history[Len(history)] = history[Len(history) - Total]
Ends == round = 0 /\ history # << >> =>
    /\ Len(history) = 1 => history[1] = (IF kind = "comb" THEN CombFirst(k) ELSE [ i \in 1..n |-> n + 1 - i ])
    /\ Len(history) = Total => history[Total] = (IF kind = "comb" THEN [ i \in 1..k |-> n - k + i ] ELSE [ i \in 1..n |-> i ])
=============================================================================
