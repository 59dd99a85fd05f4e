---------------------------- MODULE GenDeviates -----------------------------
(***************************************************************************)
(* Histories for N02.  Session 1 is a long Gaussian stretch and session    *)
(* 1 + i a long uniform stretch for the i-th seed: the references.  The    *)
(* others mix both generators, seeds and deviations as drawn.              *)
(***************************************************************************)
EXTENDS Common
VARIABLE n
Blocks == Param("blocks")
Long == IF Param("tier") = "thorough" THEN 200000 ELSE 40000
Seeds == << R("0"), R("1"), R("-1"), R("0.5"), R("3"), R("10"), R("99"), R("1e-20"), R("12345.6"), R("9999999"), R("-1e10"), R("3e38") >>
Far == IF Param("tier") = "thorough" THEN 200000000 ELSE 4000000
Stdev(k, j) == Pick(k, j, << R("1"), R("2"), R("0.5"), R("100"), R("0.001"), R("0"), R("-3"), R("1e5"), R("1"), R("7.25") >>)
\* the first uniform call decides the stream, in every second history after Gaussian ones; later seeds are arbitrary
Call(k, i, s) ==
    LET c == RndInt(k, i, 1, 8) seed == IF i = 1 THEN Seeds[s] ELSE Pick(k, i, Seeds) IN
    CASE (i = 1 /\ k % 2 = 0) \/ c < 3 -> << "random", << seed >> >>
      [] c < 6 -> << "gresid", << Stdev(k, i) >> >>
      [] c = 6 -> << "random_n", << seed, IntUni(k, i, 1, 60) >> >>
      [] c = 7 -> << "gresid_n", << Stdev(k, i), IntUni(k, i, 1, 61) >> >>
Mixed(k) == LET s == 1 + RndInt(k, 0, 9, Len(Seeds)) IN [ i \in 1..60 |-> Call(k, i, s) ]
Init == n = 0
Next == /\ n \leq Blocks + 1
        /\ n' = n + 1
        /\ IF n = 0 THEN /\ EmitSession(<< << "gresid_n", << R("1"), Long >> >> >>)
                         /\ \A i \in 1..Len(Seeds) : EmitSession(<< << "random_n", << Seeds[i], Long >> >> >>)
                         /\ EmitSession(<< << "gresid_far", << R("1"), Far >> >> >>)
                         /\ \A i \in 1..3 : EmitSession(<< << "random_far", << Seeds[i], Far >> >> >>)
           ELSE IF n \leq Blocks THEN EmitSession(Mixed(n)) ELSE EmitDone(n)
Spec == Init /\ [][Next]_n
=============================================================================
