----------------------------- MODULE Precession -----------------------------
(***************************************************************************)
(* E01 precession, E02 nutation and T02's equation of the equinoxes.       *)
(***************************************************************************)
EXTENDS Vectors

\* c[1] + c[2] x + c[3] x^2 + ...
RECURSIVE Horner(_, _, _)
Horner(c, x, i) == IF i = Len(c) THEN c[i] ELSE c[i] + x * Horner(c, x, i + 1)
Poly(c, x) == Horner(c, x, 1)
\* a polynomial in x whose coefficients are polynomials in y
Poly2(c, x, y) == Poly([ i \in 1..Len(c) |-> Poly(c[i], y) ], x)

(* the three angles, in arcseconds, as t times a polynomial in t with       *)
(* coefficients depending on the starting epoch                             *)
Iau1976 == [ unit |-> R("100"), origin |-> R("2000"),
    zeta |-> << << R("2306.2181"), R("1.39656"), R("-0.000139") >>, << R("0.30188"), R("-0.000344") >>, << R("0.017998") >> >>,
    z |-> << << R("2306.2181"), R("1.39656"), R("-0.000139") >>, << R("1.09468"), R("0.000066") >>, << R("0.018203") >> >>,
    theta |-> << << R("2004.3109"), R("-0.85330"), R("-0.000217") >>, << R("-0.42665"), R("-0.000217") >>, << R("-0.041833") >> >> ]
Besselian == [ unit |-> R("100"), origin |-> R("1850"),
    zeta |-> << << R("2303.5548"), R("1.39720"), R("0.000059") >>, << R("0.30242"), R("-0.000269") >>, << R("0.017996") >> >>,
    z |-> << << R("2303.5548"), R("1.39720"), R("0.000059") >>, << R("1.09478"), R("0.000387") >>, << R("0.018324") >> >>,
    theta |-> << << R("2005.1125"), R("-0.85294"), R("-0.000365") >>, << R("-0.42647"), R("-0.000365") >>, << R("-0.041802") >> >> ]
LongTerm == [ unit |-> R("1000"), origin |-> R("2000"),
    zeta |-> << << R("23060.9097"), R("139.7459"), R("-0.0038"), R("-0.5918"), R("-0.0037"), R("0.0007") >>,
                << R("30.2226"), R("-0.2523"), R("-0.3840"), R("-0.0014"), R("0.0007") >>,
                << R("18.0183"), R("-0.1326"), R("0.0006"), R("0.0005") >>,
                << R("-0.0583"), R("-0.0001"), R("0.0007") >>, << R("-0.0285") >>, << R("-0.0002") >> >>,
    z |-> << << R("23060.9097"), R("139.7459"), R("-0.0038"), R("-0.5918"), R("-0.0037"), R("0.0007") >>,
             << R("109.5270"), R("0.2446"), R("-1.3913"), R("-0.0134"), R("0.0026") >>,
             << R("18.2667"), R("-1.1400"), R("-0.0173"), R("0.0044") >>,
             << R("-0.2821"), R("-0.0093"), R("0.0032") >>, << R("-0.0301"), R("0.0006") >>, << R("-0.0001") >> >>,
    theta |-> << << R("20042.0207"), R("-85.3131"), R("-0.2111"), R("0.3642"), R("0.0008"), R("-0.0005") >>,
                 << R("-42.6566"), R("-0.2111"), R("0.5463"), R("0.0017"), R("-0.0012") >>,
                 << R("-41.8238"), R("0.0359"), R("0.0027"), R("-0.0001") >>,
                 << R("-0.0731"), R("0.0019"), R("0.0009") >>, << R("-0.0127"), R("0.0011") >>, << R("0.0004") >> >> ]

PrecessionAngles(m, e0, e1) ==
    LET t0 == (e0 - m.origin) / m.unit t == (e1 - e0) / m.unit A(c) == Poly2(c, t, t0) * (t * AS2R)
    IN << A(m.zeta), A(m.theta), A(m.z) >>
\* rotations by -zeta about z, theta about y, -z about z
PrecessionMatrix(m, e0, e1) ==
    LET a == PrecessionAngles(m, e0, e1) IN MatMat(FrameRot(3, -a[3]), MatMat(FrameRot(2, a[2]), FrameRot(3, -a[1])))
PrecessionTol(m, e0, e1) == LET a == PrecessionAngles(m, e0, e1) IN R("4e-15") * (1 + Abs(a[1]) + Abs(a[2]) + Abs(a[3]))
ModelOf(op) == CASE op = "prec" -> Iau1976 [] op = "precl" -> LongTerm [] op = "prebn" -> Besselian
PrecMatrixAccept(op, a, r) ==
    LET m == ModelOf(op) tol == PrecessionTol(m, a[1], a[2]) IN
    /\ Len(r) = 9
    /\ IsRotation(r, R("1e-14"))
    /\ NearSeq(r, PrecessionMatrix(m, a[1], a[2]), tol)
    /\ a[1] \doteq a[2] => NearSeq(r, Identity, 0)
PrecesAccept(a, r) ==
    /\ Len(r) = 2
    /\ IF a[1] \notin { 4, 5 } THEN r[1] \doteq -99 /\ r[2] \doteq -99
       ELSE LET m == IF a[1] = 4 THEN Besselian ELSE Iau1976 IN
            /\ In(r[1], 0, TwoPi) /\ Abs(r[2]) \leq HalfPi
            /\ SameDir(Dir(r[1], r[2]), MatVec(PrecessionMatrix(m, a[2], a[3]), Dir(a[4], a[5])), 2 * PrecessionTol(m, a[2], a[3]))

---------------------------------------------------------------------------
(* nutation *)
Centuries(mjd) == (mjd - R("51544.5")) / R("36525")

\* Shirai & Fukushima 2001; arguments: degrees at J2000 and arcseconds per century^n
NutArgs == <<
    << R("134.96340251"), << R("1717915923.2178"), R("31.8792"), R("0.051635"), R("-0.00024470") >> >>,      \* Moon's mean anomaly
    << R("357.52910918"), << R("129596581.0481"), R("-0.5532"), R("0.000136"), R("-0.00001149") >> >>,       \* Sun's mean anomaly
    << R("93.27209062"), << R("1739527262.8478"), R("-12.7512"), R("-0.001037"), R("0.00000417") >> >>,      \* Moon's argument of latitude
    << R("297.85019547"), << R("1602961601.209"), R("-6.3706"), R("0.006539"), R("-0.00003169") >> >>,       \* Moon's elongation
    << R("125.04455501"), << R("-6962890.5431"), R("7.4722"), R("0.007702"), R("-0.00005939") >> >>,         \* Moon's node
    << R("181.97980085"), << R("210664136.433548") >> >>,                                                    \* Venus
    << R("355.43299958"), << R("68905077.493988") >> >>,                                                     \* Mars
    << R("34.35151874"), << R("10925660.377991") >> >>,                                                      \* Jupiter
    << R("50.07744430"), << R("4399609.855732") >> >> >>                                                     \* Saturn
NutArg(i, t) == NutArgs[i][1] * D2R + Fmod(t * Poly(NutArgs[i][2], t), R("1296000")) * AS2R
NutTable == Table("nutc.tbl")
\* the sum of a row's multiples of the arguments, skipping the zeros
RowAngle(row, args, n) == Sum([ j \in { i \in 1..n : row[i] # 0 } |-> row[j] * args[j] ])
Nutation(mjd) ==
    LET t == Centuries(mjd)
        args == Tup([ i \in 1..9 |-> NutArg(i, t) ])
        terms == Tup([ i \in 1..Len(NutTable) |->
            LET w == NutTable[i] a == RowAngle(w, args, 9) c == Cos(a) s == Sin(a)
            IN << (w[10] + w[12] * t) * c + (w[11] + w[13] * t) * s, (w[14] + w[16] * t) * c + (w[15] + w[17] * t) * s >> ])
        dp == Sum([ i \in 1..Len(terms) |-> terms[i][1] ]) - R("153.1") * Sin(args[2]) - R("1.9") * Sin(2 * args[2])
        de == Sum([ i \in 1..Len(terms) |-> terms[i][2] ])
    IN << (dp * R("1e-6") - R("0.042888") - R("0.29856") * t) * AS2R,
          (de * R("1e-6") - R("0.005171") - R("0.02408") * t) * AS2R,
          Poly(<< R("84381.412"), R("-46.80927"), R("-0.000152"), R("0.0019989"), R("-0.00000051"), R("-0.000000025") >>, t) * AS2R >>

\* IAU 1980; arguments in turns per century and arcseconds
Nut80Args == <<
    << R("485866.733"), 1325, R("715922.633"), R("31.310"), R("0.064") >>,
    << R("1287099.804"), 99, R("1292581.224"), R("-0.577"), R("-0.012") >>,
    << R("335778.877"), 1342, R("295263.137"), R("-13.257"), R("0.011") >>,
    << R("1072261.307"), 1236, R("1105601.328"), R("-6.891"), R("0.019") >>,
    << R("450160.280"), -5, R("-482890.539"), R("7.455"), R("0.008") >> >>
Nut80Arg(i, t) == LET c == Nut80Args[i] IN
    Fmod(c[2] * t, R("1")) * TwoPi + Fmod(c[1] + (c[3] + (c[4] + c[5] * t) * t) * t, R("1296000")) * AS2R
Nut80Table == Table("nutc80.tbl")
Nutation80(mjd) ==
    LET t == Centuries(mjd)
        args == Tup([ i \in 1..5 |-> Nut80Arg(i, t) ])
        terms == Tup([ i \in 1..Len(Nut80Table) |->
            LET w == Nut80Table[i] a == RowAngle(w, args, 5) IN << (w[6] + w[7] * t) * Sin(a), (w[8] + w[9] * t) * Cos(a) >> ])
    IN << Sum([ i \in 1..Len(terms) |-> terms[i][1] ]) * (AS2R / 10000),
          Sum([ i \in 1..Len(terms) |-> terms[i][2] ]) * (AS2R / 10000),
          Poly(<< R("84381.448"), R("-46.8150"), R("-0.00059"), R("0.001813") >>, t) * AS2R >>

NutTol(t) == R("2e-14") * (1 + Abs(t) + t * (t / 50))
NutAngles(want, t, r) == Len(r) = 3 /\ Near(r[1], want[1], NutTol(t)) /\ Near(r[2], want[2], NutTol(t)) /\ Near(r[3], want[3], R("2e-15"))
NutationMatrix(n) == MatMat(FrameRot(1, -(n[3] + n[2])), MatMat(FrameRot(3, -n[1]), FrameRot(1, n[3])))
NutMatrixAccept(mjd, r) ==
    /\ Len(r) = 9 /\ IsRotation(r, R("1e-14"))
    /\ NearSeq(r, NutationMatrix(Tup(Nutation(mjd))), NutTol(Centuries(mjd)) + R("4e-15"))
PrecNutMatrix(je, mjd) == MatMat(NutationMatrix(Tup(Nutation(mjd))), PrecessionMatrix(Iau1976, je, 2000 + (mjd - R("51544.5")) / R("365.25")))
PrecNutAccept(a, r) ==
    LET e == 2000 + (a[2] - R("51544.5")) / R("365.25") IN
    /\ Len(r) = 9 /\ IsRotation(r, R("1e-14"))
    /\ NearSeq(r, PrecNutMatrix(a[1], a[2]), 2 * (NutTol(Centuries(a[2])) + PrecessionTol(Iau1976, a[1], e)))

\* T02: nutation in right ascension with the two complementary node terms
EquationOfEquinoxes(mjd) ==
    LET t == Centuries(mjd) n == Tup(Nutation(mjd)) om == Nut80Arg(5, t)
    IN n[1] * Cos(n[3]) + AS2R * (R("0.00264") * Sin(om) + R("0.000063") * Sin(2 * om))

PrecOps == { "prec", "precl", "prebn", "preces", "nutc", "nutc80", "nut", "prenut", "eqeqx" }
PrecAccept(op, a, r) ==
    CASE op \in { "prec", "precl", "prebn" } -> PrecMatrixAccept(op, a, r)
      [] op = "preces" -> PrecesAccept(a, r)
      [] op = "nutc" -> NutAngles(Tup(Nutation(a[1])), Centuries(a[1]), r)
      [] op = "nutc80" -> NutAngles(Tup(Nutation80(a[1])), Centuries(a[1]), r)
      [] op = "nut" -> NutMatrixAccept(a[1], r)
      [] op = "prenut" -> PrecNutAccept(a, r)
      [] op = "eqeqx" -> Len(r) = 1 /\ Near(r[1], EquationOfEquinoxes(a[1]), NutTol(Centuries(a[1])))

---------------------------------------------------------------------------
\* starting and ending epochs, sometimes equal
EpochPairG(k, j) == LET e == EpochG(k, j) IN << e, IF Chance(k, j, 12) THEN e ELSE EpochG(k, j + 1) >>
PrecGen(op, k) ==
    CASE op \in { "prec", "prebn" } -> EpochPairG(k, 1)
      [] op = "precl" -> IF Chance(k, 9, 3) THEN << Uni(k, 1, R("-4000"), R("8000")), Uni(k, 2, R("-4000"), R("8000")) >> ELSE EpochPairG(k, 1)
      [] op = "preces" -> << Pick(k, 5, << 4, 5, 4, 5, 4, 5, 4, 5, 0, 1, 2, 3, 6, 7 >>) >> \o EpochPairG(k, 1) \o << AngleG(k, 3), LatG(k, 4) >>
      [] op = "prenut" -> << EpochG(k, 1), MjdG(k, 2) >>
      [] OTHER -> << MjdG(k, 1) >>
Epochs == << R("1900"), R("1950"), R("2000"), R("2000.5"), R("2050"), R("2100"), R("1850"), R("1600") >>
PrecDirected(op) ==
    CASE op \in { "prec", "precl", "prebn" } -> [ i \in 1..64 |-> << Epochs[1 + ((i - 1) % 8)], Epochs[1 + ((i - 1) \div 8)] >> ]
      [] op = "preces" -> [ i \in 1..256 |-> << ((i - 1) % 2) + 4, Epochs[1 + ((i - 1) % 8)], Epochs[1 + (((i - 1) \div 8) % 8)],
                                                (((i - 1) \div 64) - 2) * HalfPi, (((i - 1) % 5) - 2) * QuarterPi >> ]
      [] OTHER -> << >>
PrecNoMix == {}
=============================================================================
