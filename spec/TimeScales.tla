----------------------------- MODULE TimeScales -----------------------------
(***************************************************************************)
(* T01 (UTC offsets, delta-T), T02 (sidereal time; the equation of the     *)
(* equinoxes is in Nutation.tla), T04 (Besselian and Julian epochs).       *)
(***************************************************************************)
EXTENDS Common

\* from this MJD on, TAI-UTC = base + (utc - ref) * rate; the first row also serves all earlier dates
LeapTable == Table("leap.tbl")
LeapRow(utc) == IF utc < LeapTable[1][1] THEN LeapTable[1] ELSE
    LeapTable[CHOOSE i \in 1..Len(LeapTable) : utc \geq LeapTable[i][1] /\ (i = Len(LeapTable) \/ utc < LeapTable[i + 1][1])]
TaiMinusUtc(utc) == LET t == LeapRow(utc) IN t[2] + (utc - t[3]) * t[4]

DeltaT(e) == LET c == (e - 1800) / 100 IN
    IF e \geq R("1708.185161980887") THEN R("5.156") + R("13.3066") * Sq(c - R("0.19"))
    ELSE IF e \geq R("979.0258204760233") THEN R("25.5") * Sq(c)
    ELSE R("1360") + R("320") * c + R("44.3") * Sq(c)

\* mean sidereal time of 0h UT1 plus the angle for the time of day; frac = fraction of day, t = centuries since J2000
SiderealSeconds(t) == R("24110.54841") + R("8640184.812866") * t + R("0.093104") * t * t - R("6.2e-6") * t * t * t
Gmst(t, frac) == SiderealSeconds(t) * S2R + frac * TwoPi
GmstAccept(t, frac, r) == /\ Len(r) = 1
                          /\ In(r[1], 0, TwoPi)
                          /\ NearAngle(r[1], Gmst(t, frac), R("1e-12") * (1 + Abs(t) + R("1e-6") * Abs(t * t * t)))

BesselianEpoch(mjd) == R("1900") + (mjd - R("15019.81352")) / R("365.242198781")
JulianEpoch(mjd) == R("2000") + (mjd - R("51544.5")) / R("365.25")
BesselianDate(e) == R("15019.81352") + (e - 1900) * R("365.242198781")
JulianDate(e) == R("51544.5") + (e - 2000) * R("365.25")
EpochKind(c) == IF c \in { "B", "b" } THEN "B" ELSE IF c \in { "J", "j" } THEN "J" ELSE "?"
Close(x, y) == Near(x, y, R("1e-15") * (R("60000") + Abs(x) + Abs(y)))
EpochConvert(want, given, e) ==
    IF EpochKind(want) = "?" \/ EpochKind(given) = "?" THEN R("0")
    ELSE IF EpochKind(want) = EpochKind(given) THEN e
    ELSE IF EpochKind(want) = "B" THEN BesselianEpoch(JulianDate(e))
    ELSE JulianEpoch(BesselianDate(e))

TimeOps == { "dat", "dtt", "dt", "gmst", "gmsta", "epb", "epb2d", "epj", "epj2d", "epco" }
TimeAccept(op, a, r) ==
    CASE op = "dat" -> Len(r) = 1 /\ Near(r[1], TaiMinusUtc(a[1]), R("1e-10") * (1 + R("1e-6") * Abs(a[1])))
      [] op = "dtt" -> Len(r) = 1 /\ Near(r[1], R("32.184") + TaiMinusUtc(a[1]), R("1e-10") * (1 + R("1e-6") * Abs(a[1])))
      [] op = "dt" -> Len(r) = 1 /\ Near(r[1], DeltaT(a[1]), R("1e-11") * (1000 + Sq((a[1] - 1800) / 10)))
      [] op = "gmst" -> GmstAccept((a[1] - R("51544.5")) / 36525, a[1] - Floor(a[1]), r)
      [] op = "gmsta" -> GmstAccept((Min(a[1], a[2]) + (Max(a[1], a[2]) - R("51544.5"))) / 36525, Fmod(a[1], 1) + Fmod(a[2], 1), r)
      [] op = "epb" -> Len(r) = 1 /\ Close(r[1], BesselianEpoch(a[1]))
      [] op = "epj" -> Len(r) = 1 /\ Close(r[1], JulianEpoch(a[1]))
      [] op = "epb2d" -> Len(r) = 1 /\ Close(r[1], BesselianDate(a[1]))
      [] op = "epj2d" -> Len(r) = 1 /\ Close(r[1], JulianDate(a[1]))
      [] op = "epco" -> /\ Len(r) = 1
                        /\ LET w == EpochConvert(a[1], a[2], a[3]) IN
                           IF EpochKind(a[1]) = "?" /\ a[1] = a[2] THEN r[1] \doteq 0 \/ r[1] \doteq a[3]
                           ELSE IF EpochKind(a[1]) = "?" \/ EpochKind(a[2]) = "?" \/ EpochKind(a[1]) = EpochKind(a[2]) THEN r[1] \doteq w
                           ELSE Close(r[1], w)

---------------------------------------------------------------------------
UtcG(k) == LET c == RndInt(k, 1, 1, 8) b == R(LeapTable[1 + RndInt(k, 1, 2, Len(LeapTable))][1]) IN
    CASE c = 0 -> b [] c = 1 -> NextDown(b) [] c = 2 -> b + Uni(k, 2, R("-2"), R("2")) [] c = 3 -> b + IntUni(k, 2, -40, 40)
      [] c = 4 -> NextUp(b) [] c = 5 -> Uni(k, 2, R("-100000"), R("200000")) [] OTHER -> Uni(k, 2, R("36000"), R("61000"))
DtEpochG(k) == LET c == RndInt(k, 1, 1, 6) IN
    CASE c = 0 -> R("1708.185161980887") + TinyG(k, 2) [] c = 1 -> R("979.0258204760233") + TinyG(k, 2)
      [] c = 2 -> R(IntUni(k, 3, -3000, 3000)) [] c = 3 -> Uni(k, 3, R("900"), R("1100")) [] c = 4 -> Uni(k, 3, R("1600"), R("2100"))
      [] OTHER -> Uni(k, 3, R("-4000"), R("4000"))
Splits(k) == LET d == MjdG(k, 2) c == RndInt(k, 1, 1, 9) i == Floor(d) IN
    CASE c = 0 -> << d, R("0") >> [] c = 1 -> << R("0"), d >> [] c = 2 -> << i, d - i >> [] c = 3 -> << d - i, i >>
      [] c = 4 -> << i + 1, d - i - 1 >> [] c = 5 -> << d / 2, d / 2 >> [] c = 6 -> << i, U(k, 7) >>
      [] c = 7 -> << i + R("0.5"), U(k, 7) >> [] OTHER -> << Uni(k, 3, R("-90000"), R("90000")), Uni(k, 4, R("-90000"), R("90000")) >>
TimeGen(op, k) ==
    CASE op \in { "dat", "dtt" } -> << UtcG(k) >>
      [] op = "dt" -> << DtEpochG(k) >>
      [] op \in { "gmst", "epb", "epj" } -> << MjdG(k, 1) >>
      [] op = "gmsta" -> Splits(k)
      [] op \in { "epb2d", "epj2d" } -> << EpochG(k, 1) >>
      [] op = "epco" -> << Pick(k, 1, << "B", "J", "b", "j", "B", "J", "b", "j", "K", "x", "A" >>), Pick(k, 2, << "B", "J", "b", "j", "B", "J", "b", "j", "K", "C" >>), EpochG(k, 3) >>
Letters == << "B", "J", "b", "j", "X" >>
TimeDirected(op) ==
    CASE op \in { "dat", "dtt" } -> [ i \in 1..(4 * Len(LeapTable)) |->
            LET b == R(LeapTable[1 + ((i - 1) \div 4)][1]) j == i % 4 IN
            << IF j = 0 THEN b ELSE IF j = 1 THEN NextDown(b) ELSE IF j = 2 THEN b + R("0.5") ELSE b - 1 >> ]
      [] op = "dt" -> << << R("1708.185161980887") >>, << NextDown(R("1708.185161980887")) >>, << R("979.0258204760233") >>, << NextDown(R("979.0258204760233")) >>,
                         << R("1800") >>, << R("1819") >>, << R("0") >>, << R("-390") >>, << R("948") >>, << R("1600") >>, << R("2000") >> >>
      [] op \in { "gmst", "epb", "epj" } -> << << R("51544.5") >>, << R("51544") >>, << R("0") >>, << R("-0.25") >>, << R("-1") >>, << R("-1000.75") >>, << R("15019.81352") >> >>
      [] op = "gmsta" -> << << R("51544"), R("0.5") >>, << R("0.5"), R("51544") >>, << R("51544.5"), R("0") >>, << R("-1000"), R("0.25") >>, << R("-1000"), R("-0.75") >>,
                            << R("51543"), R("1.5") >>, << R("51544.25"), R("0.25") >>, << R("25772.25"), R("25772.25") >> >>
      [] op \in { "epb2d", "epj2d" } -> << << R("1900") >>, << R("1950") >>, << R("2000") >>, << R("0") >> >>
      [] op = "epco" -> [ i \in 1..50 |-> << Letters[1 + ((i - 1) % 5)], Letters[1 + (((i - 1) \div 5) % 5)], IF i > 25 THEN R("1950") ELSE R("1987.25") >> ]
TimeNoMix == {}
=============================================================================
