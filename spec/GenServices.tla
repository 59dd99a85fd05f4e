----------------------------- MODULE GenServices ----------------------------
(***************************************************************************)
(* One call per session: the version, delays around the half seconds, and   *)
(* delays in which signals arrive (a number of them, evenly spaced).        *)
(***************************************************************************)
EXTENDS Common
VARIABLE n
Blocks == Param("blocks")
Fixed == << R("0"), R("0.25"), R("0.49"), R("0.51"), R("0.9"), R("1"), R("1.2"), R("1.49"), R("1.51"), R("1.9"), R("2"), R("2.3"), R("-0.3"), R("-2"), R("-1e6") >>
Disturbed == << << R("1"), 1, R("0.3") >>, << R("2"), 4, R("0.5") >>, << R("3"), 5, R("0.55") >>, << R("0.75"), 2, R("0.2") >>, << R("2.2"), 1, R("1.9") >>, << R("1"), 40, R("0.02") >> >>
Init == n = 0
Next == /\ n \leq Blocks + 1
        /\ n' = n + 1
        /\ IF n = 0 THEN EmitSession(<< << "version", << >> >> >>) /\ \A i \in 1..Len(Fixed) : EmitSession(<< << "wait", << Fixed[i] >> >> >>)
                      /\ \A j \in 1..Len(Disturbed) : EmitSession(<< << "wait_signals", Disturbed[j] >> >>)
           ELSE IF n \leq Blocks /\ n % 4 = 0 THEN EmitSession(<< << "wait_signals", << Pick(n, 1, << 1, 2, 3 >>) + Uni(n, 3, R("-0.4"), R("0.4")), 1 + RndInt(n, 4, 1, 6), Uni(n, 5, R("0.05"), R("0.9")) >> >> >>)
           ELSE IF n \leq Blocks THEN EmitSession(<< << "wait", << Pick(n, 1, << 0, 1, 2, 3 >>) + Pick(n, 2, << Uni(n, 3, R("0"), R("0.48")), Uni(n, 3, R("0.52"), R("0.99")) >>) >> >> >>)
           ELSE EmitDone(n)
Spec == Init /\ [][Next]_n
=============================================================================
