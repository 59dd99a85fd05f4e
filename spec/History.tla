------------------------------- MODULE History ------------------------------
(***************************************************************************)
(* The pool of calls, and which of them a history makes at each step       *)
(* (functions of the run's seed, so that generation and validation agree). *)
(***************************************************************************)
EXTENDS Library, Nearby, Schedules
AllOps == Tup(LET Props == << "C01", "C02", "T01", "T02", "T04", "S01", "S02", "A01", "V01", "V02", "V03", "V04", "H01", "H02", "G01", "E01", "E02", "T03",
                               "F01", "K01", "P01", "P02", "O01", "O02", "O03", "R01", "R02", "L01", "L02", "X01", "X02" >>
                  F[i \in 0..Len(Props)] == IF i = 0 THEN << "combn", "permut", "version" >> ELSE F[i - 1] \o PropOps[Props[i]]
              IN F[Len(Props)])
Depth == IF Param("tier") = "thorough" THEN 24 ELSE 12       \* calls of each operation
Histories == Param("blocks")
Steps == 60
Pool == Len(AllOps) * Depth
(* The calls of one operation come in families of four: a call; the same   *)
(* with one real argument moved a little; the same with one moved further; *)
(* and the same with some arguments of another draw.  So histories contain *)
(* exact repetitions, near repetitions and calls that differ from an       *)
(* earlier one in a single argument.                                       *)
PoolCall(j) ==
    LET op == AllOps[1 + ((j - 1) \div Depth)]
        m == (j - 1) % 4
        k == 3 * (j - m) + 7
        base == Tup(Gen(op, k))
        other == Tup(Gen(op, k - 3))
    IN << op, CASE op = "version" -> << >>
                [] m = 0 \/ (m = 3 /\ (op \in NoMix \/ Len(base) # Len(other))) -> base
                [] m = 1 -> Moved(base, j, R("-12"), R("-2"))
                [] m = 2 -> Moved(base, j, R("-4"), R("2"))
                [] OTHER -> [ i \in 1..Len(base) |-> IF RndInt(k, i, 77, 2) = 0 THEN base[i] ELSE other[i] ] >>

(* Pair histories: for each operation one process that makes every ordered *)
(* pair of its calls in immediate succession (a de Bruijn cycle), and      *)
(* every three of each family.                                             *)
Cycle == Tup(Order(Depth))
Pairs == Len(AllOps)
PairCall(h, i) == (h - 1) * Depth + 1 + Cycle[i]

(* Soak histories: for each operation one process that makes many calls of *)
(* it with other arguments, and its own calls many times over.             *)
SoakOthers == 4
SoakTimes == IF Param("tier") = "thorough" THEN "4000" ELSE "6000"
SoakLength == Depth * (1 + SoakOthers)
SoakOther(i) == i % (1 + SoakOthers) # 0
SoakOp(h) == AllOps[h - Pairs]

(* Drawn histories: mostly short, some through most of the library *)
DrawnSteps(h) == IF h % 6 = 0 THEN 12 * Steps ELSE Steps
Run(i) == (i - 1) \div 4
ChosenOp(h, i) == RndInt(h, Run(i), 31, Len(AllOps))
DrawnCall(h, i) == IF i % 11 = 0 THEN 1 + RndInt(h, i, 33, Pool) ELSE ChosenOp(h, i) * Depth + 1 + RndInt(h, i, 32, Depth)

\* what history h makes at step i
IsPairs(h) == h \leq Pairs
IsSoak(h) == h > Pairs /\ h \leq 2 * Pairs
Special == 2 * Pairs
Length(h) == IF IsPairs(h) THEN Len(Cycle) ELSE IF IsSoak(h) THEN SoakLength ELSE DrawnSteps(h)
Chosen(h, i) == IF IsPairs(h) THEN PairCall(h, i) ELSE IF IsSoak(h) THEN (h - Pairs - 1) * Depth + i \div (1 + SoakOthers) ELSE DrawnCall(h, i)
IsNoise(h, i) == IF IsPairs(h) THEN FALSE ELSE IF IsSoak(h) THEN SoakOther(i) ELSE RndInt(h, i, 34, 25) = 0
NoiseCall(h, i) ==
    IF IsSoak(h) THEN (IF SoakOp(h) = "version" THEN << "random", << R("3") >> >> ELSE << SoakOp(h), Tup(Gen(SoakOp(h), 50000 + i)) >>)
    ELSE IF RndInt(h, i, 35, 2) = 0 THEN << "random", << R("3") >> >> ELSE << "gresid", << R("2") >> >>
\* as it is written for the driver
HistoryCall(h, i) ==
    IF IsNoise(h, i) THEN NoiseCall(h, i)
    ELSE LET c == PoolCall(Chosen(h, i)) IN IF IsSoak(h) THEN << Concat(<< c[1], "*", SoakTimes >>), c[2] >> ELSE c
=============================================================================
