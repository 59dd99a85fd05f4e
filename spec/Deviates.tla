------------------------------ MODULE Deviates ------------------------------
(***************************************************************************)
(* N02: what the random generators promise about any history of calls.     *)
(* Each generator is one endless stream; a call consumes the next element  *)
(* of its stream.  The uniform stream is chosen by the argument of the     *)
(* process's first call and by nothing later; the Gaussian stream is       *)
(* scaled by each call's own argument.                                     *)
(***************************************************************************)
EXTENDS Common

(* distribution of a long stretch; thresholds are beyond 6 standard deviations *)
Count(n, P(_)) == Sum([ i \in 1..n |-> IF P(i) THEN 1 ELSE 0 ])
ChiSq(seen, expected) == Sum([ b \in 1..Len(seen) |-> Sq(seen[b] - expected[b]) / expected[b] ])
UniformRange(u) == \A i \in 1..Len(u) : u[i] \geq 0 /\ u[i] < 1
UniformSpread(u) ==
    LET n == Len(u)
        cells == 20
        hist == Tup([ b \in 1..cells |-> Count(n, LAMBDA i : Floor(cells * u[i]) \doteq (b - 1)) ])
        pairs == Tup([ b \in 1..25 |-> Count(n - 1, LAMBDA i : Floor(5 * u[i]) * 5 + Floor(5 * u[i + 1]) \doteq (b - 1)) ])
    IN /\ ChiSq(hist, [ b \in 1..cells |-> n / cells ]) < 75
       /\ ChiSq(pairs, [ b \in 1..25 |-> (n - 1) / 25 ]) < 95
       /\ Near(Sum(u) / n, R("0.5"), R("1.8") / Sqrt(n))
\* not stuck and not starting over: no three consecutive equal values, and the first three never come back together
Fresh(u) == /\ \A i \in 1..(Len(u) - 2) : ~(u[i] \doteq u[i + 1] /\ u[i + 1] \doteq u[i + 2])
            /\ \A i \in 2..(Len(u) - 2) : ~(u[i] \doteq u[1] /\ u[i + 1] \doteq u[2] /\ u[i + 2] \doteq u[3])

\* upper ends of twelve classes of the standard normal distribution and their probabilities
NormalEnds == << R("-2.5"), R("-2"), R("-1.5"), R("-1"), R("-0.5"), R("0"), R("0.5"), R("1"), R("1.5"), R("2"), R("2.5"), R("1e30") >>
NormalProb == << R("0.006209665"), R("0.016540466"), R("0.044057069"), R("0.091848053"), R("0.149882285"), R("0.191462461"),
                 R("0.191462461"), R("0.149882285"), R("0.091848053"), R("0.044057069"), R("0.016540466"), R("0.006209665") >>
NormalSpread(z) ==
    LET n == Len(z)
        below == Tup([ b \in 1..12 |-> Count(n, LAMBDA i : z[i] < NormalEnds[b]) ])
        hist == [ b \in 1..12 |-> IF b = 1 THEN below[1] ELSE below[b] - below[b - 1] ]
        mean == Sum(z) / n
        var == Sum([ i \in 1..n |-> Sq(z[i] - mean) ]) / n
        lag(d) == Sum([ i \in 1..(n - d) |-> z[i] * z[i + d] ]) / n
    IN /\ ChiSq(hist, [ b \in 1..12 |-> n * NormalProb[b] ]) < 60
       /\ Near(mean, 0, 6 / Sqrt(n)) /\ Near(var, 1, 9 / Sqrt(n))
       /\ \A d \in 1..3 : Near(lag(d), 0, 6 / Sqrt(n))
       /\ MaxAbs(z) < 9

(* a far longer stretch in summary: << non-finite, place of a new start, longest run, counts by eighths from -8 >> *)
FarRun(r) == r[1] = 0 /\ r[2] = 0 /\ r[3] < 4
FarUniform(n, r) ==
    /\ FarRun(r) /\ \A b \in 1..128 : (b < 65 \/ b > 72) => r[3 + b] = 0
    /\ ChiSq([ b \in 1..8 |-> r[67 + b] ], [ b \in 1..8 |-> R(n) / 8 ]) < 60
\* standard normal probabilities: below -4.5, then by eighths up to 0
FarProb == << R("3.397673125e-06"), R("2.673950787e-06"), R("4.616901864e-06"), R("7.848212071e-06"), R("1.313450399e-05"), R("2.164110792e-05"),
              R("3.510493545e-05"), R("5.606344068e-05"), R("8.814835315e-05"), R("1.364493752e-04"), R("2.079465881e-04"), R("3.120002567e-04"),
              R("4.608727325e-04"), R("6.702394583e-04"), R("9.596257451e-04"), R("1.352685128e-03"), R("1.877216963e-03"), R("2.564809770e-03"),
              R("3.449997559e-03"), R("4.568833793e-03"), R("5.956825500e-03"), R("7.646229817e-03"), R("9.662795099e-03"), R("1.202212255e-02"),
              R("1.472592185e-02"), R("1.775852108e-02"), R("2.108405132e-02"), R("2.464474347e-02"), R("2.836073679e-02"), R("3.213169892e-02"),
              R("3.584039952e-02"), R("3.935817667e-02"), R("4.255200968e-02"), R("4.529269460e-02"), R("4.746344099e-02"), R("4.896810085e-02"),
              R("4.973822483e-02") >>
FarNormal(n, r) ==
    LET C(b) == IF b = 1 THEN Sum([ i \in 1..28 |-> r[3 + i] ]) ELSE IF b = 74 THEN Sum([ i \in 1..28 |-> r[103 + i] ]) ELSE r[3 + 27 + b]
    IN FarRun(r) /\ ChiSq([ b \in 1..74 |-> C(b) ], [ b \in 1..74 |-> n * FarProb[IF b < 38 THEN b ELSE 75 - b] ]) < 165
=============================================================================
