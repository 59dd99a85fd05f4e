------------------------------- MODULE Nearby -------------------------------
(***************************************************************************)
(* Near repetitions: the arguments x with one finite real argument changed *)
(***************************************************************************)
EXTENDS Common, FiniteSets
LOCAL Reals(x) == { i \in 1..Len(x) : IsReal(x[i]) /\ Finite(x[i]) }
LOCAL Victim(x, k) == LET s == Reals(x) n == RndInt(k, 0, 78, Cardinality(s)) IN CHOOSE i \in s : Cardinality({ j \in s : j < i }) = n
LOCAL Step(k, lo, hi) == Pow(R("10"), lo + (hi - lo) * Rnd(k, 0, 80))
\* up or down by 10^lo to 10^hi, in absolute or relative terms
Moved(x, k, lo, hi) ==
    IF Reals(x) = {} THEN x
    ELSE LET t == Victim(x, k) d == (IF RndInt(k, 0, 79, 2) = 0 THEN 1 ELSE -1) * Step(k, lo, hi)
         IN [ i \in 1..Len(x) |-> IF i = t THEN x[i] + d * (IF RndInt(k, 0, 81, 2) = 0 THEN 1 ELSE Abs(x[i])) ELSE x[i] ]
\* towards zero by a fraction 10^lo to 10^hi, which keeps latitudes, pressures and the like in their range
Shrunk(x, k, lo, hi) ==
    IF Reals(x) = {} THEN x
    ELSE LET t == Victim(x, k) IN [ i \in 1..Len(x) |-> IF i = t THEN x[i] * (1 - Step(k, lo, hi)) ELSE x[i] ]
=============================================================================
