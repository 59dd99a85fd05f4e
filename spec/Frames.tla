------------------------------- MODULE Frames -------------------------------
(***************************************************************************)
(* F01 frame conversions and E-terms, K01 space motion.                    *)
(***************************************************************************)
EXTENDS Precession

\* the published definitions; the library uses matrices rounded to 12 decimals
P50 == R("192.25") * D2R
Q50 == R("62.6") * D2R
R50 == R("33") * D2R
Galactic50 == MatMat(FrameRot(3, HalfPi - R50), MatMat(FrameRot(2, Q50), FrameRot(3, P50)))
\* J2000 equatorial to galactic
Galactic2000 == << R("-0.054875539726"), R("-0.873437108010"), R("-0.483834985808"),
                   R("0.494109453312"), R("-0.444829589425"), R("0.746982251810"),
                   R("-0.867666135858"), R("-0.198076386122"), R("0.455983795705") >>
\* supergalactic pole at galactic (47.37, 6.32) degrees, origin at (137.37, 0)
SuperZ == Dir(R("47.37") * D2R, R("6.32") * D2R)
SuperX == Dir(R("137.37") * D2R, R("0"))
SuperY == Cross(SuperZ, SuperX)
Supergalactic == SuperX \o SuperY \o SuperZ

MeanObliquity(mjd) == Poly(<< R("84381.448"), R("-46.8150"), R("-0.00059"), R("0.001813") >>, Centuries(mjd)) * AS2R
FrameEpoch(mjd) == 2000 + (mjd - R("51544.5")) / R("365.25")
Ecliptic(mjd) == MatMat(FrameRot(1, MeanObliquity(mjd)), PrecessionMatrix(Iau1976, R("2000"), FrameEpoch(mjd)))

\* E-terms of aberration for a Besselian epoch
ETerms(be) ==
    LET t == (be - 1950) * R("1.00002135903e-2")
        e == Poly(<< R("0.01673011"), R("-0.00004193"), R("-0.000000126") >>, t)
        ob == Poly(<< R("84404.836"), R("-46.8495"), R("-0.00319"), R("-0.00181") >>, t) * AS2R
        p == Poly(<< R("1015489.951"), R("6190.67"), R("1.65"), R("0.012") >>, t) * AS2R
        k == e * R("20.49552") * AS2R
    IN << k * Sin(p), -(k * Cos(p) * Cos(ob)), -(k * Cos(p) * Sin(ob)) >>
WithETerms(u, be) == Plus3(u, ETerms(be))
WithoutETerms(u, be) == LET e == ETerms(be) IN Minus3(Scaled(1 + Dot(u, e), u), e)

\* a result in the conventional ranges and the given direction
Conventional(r, v, tol) ==
    /\ Len(r) = 2
    /\ In(r[1], 0, TwoPi) /\ Abs(r[2]) \leq HalfPi
    /\ SameDir(Dir(r[1], r[2]), v, tol)
DirOf(a) == Dir(a[1], a[2])
MatrixTol == R("3e-12")
\* longitudes up to 1e4 lose a little in reduction only, which is exact
FrameTol(a) == R("3e-15")
EclTol(mjd) == 2 * PrecessionTol(Iau1976, R("2000"), FrameEpoch(mjd))

(* K01 *)
SpaceMotion(a) ==
    LET u == Dir(a[1], a[2])
        w == ((R("365.25") * 86400) / R("149597870")) * R("4.8481368111e-6") * a[6] * a[5]
        east == << -u[2], u[1], R("0") >>
        north == << -(Cos(a[1]) * Sin(a[2])), -(Sin(a[1]) * Sin(a[2])), Cos(a[2]) >>
        v == Plus3(Scaled(w, u), Plus3(Scaled(a[3], east), Scaled(a[4], north)))
    IN [ start |-> u, path |-> Scaled(a[8] - a[7], v), reach |-> Abs(a[8] - a[7]) * (Abs(w) + Abs(a[3]) + Abs(a[4])) ]
PmAccept(a, r) ==
    LET m == SpaceMotion(a) v == Plus3(m.start, m.path) n == Norm(v) IN
    n > R("1e-6") => Conventional(r, v, R("6e-15") * ((1 + m.reach) / n))

FrameOps == { "eqgal", "galeq", "galsup", "supgal", "ecmat", "eqecl", "ecleq", "eg50", "ge50", "etrms", "addet", "subet", "pm" }
FrameAccept(op, a, r) ==
    CASE op = "eqgal" -> Conventional(r, MatVec(Galactic2000, DirOf(a)), FrameTol(a))
      [] op = "galeq" -> Conventional(r, TMatVec(Galactic2000, DirOf(a)), FrameTol(a))
      [] op = "galsup" -> Conventional(r, MatVec(Supergalactic, DirOf(a)), MatrixTol)
      [] op = "supgal" -> Conventional(r, TMatVec(Supergalactic, DirOf(a)), MatrixTol)
      [] op = "ecmat" -> Len(r) = 9 /\ NearSeq(r, FrameRot(1, MeanObliquity(a[1])), R("1e-15"))
      [] op = "eqecl" -> Conventional(r, MatVec(Ecliptic(a[3]), DirOf(a)), EclTol(a[3]))
      [] op = "ecleq" -> Conventional(r, TMatVec(Ecliptic(a[3]), DirOf(a)), EclTol(a[3]))
      [] op = "eg50" -> Conventional(r, MatVec(Galactic50, WithoutETerms(DirOf(a), R("1950"))), MatrixTol)
      [] op = "ge50" -> Conventional(r, WithETerms(Tup(TMatVec(Galactic50, DirOf(a))), R("1950")), MatrixTol)
      [] op = "etrms" -> Len(r) = 3 /\ NearSeq(r, ETerms(a[1]), R("1e-20") * (1 + Abs(a[1])))
      [] op = "addet" -> Conventional(r, WithETerms(DirOf(a), a[3]), FrameTol(a))
      [] op = "subet" -> Conventional(r, WithoutETerms(DirOf(a), a[3]), FrameTol(a))
      [] op = "pm" -> PmAccept(a, r)

---------------------------------------------------------------------------
\* directions, sometimes at or near a pole of the other frame
OtherPoleG(op, k) ==
    LET m == CASE op = "eqgal" -> Galactic2000 [] op = "galsup" -> Supergalactic [] op = "eg50" -> Galactic50
               [] op = "galeq" -> Transpose(Galactic2000) [] op = "supgal" -> Transpose(Supergalactic) [] op = "ge50" -> Transpose(Galactic50) [] OTHER -> FrameRot(1, R("0.409"))
        v == Scaled(SignG(k, 7), Row(m, IF Chance(k, 8, 2) THEN 3 ELSE 1))
    IN << Atan2(v[2], v[1]), Atan2(v[3], Norm(<< v[1], v[2], 0 >>)) + (IF Chance(k, 9, 2) THEN R("0") ELSE TinyG(k, 9)) >>
SkyG(op, k) == IF Chance(k, 6, 8) THEN OtherPoleG(op, k) ELSE << AngleG(k, 1), LatG(k, 2) >>
PmRateG(k, j) == LET c == RndInt(k, j, 9, 6) IN CASE c = 0 -> R("0") [] c \in 1..3 -> Uni(k, j, R("-5e-5"), R("5e-5")) [] OTHER -> Uni(k, j, R("-1e-3"), R("1e-3"))
FrameGen(op, k) ==
    CASE op \in { "eqgal", "galeq", "galsup", "supgal", "eg50", "ge50" } -> SkyG(op, k)
      [] op \in { "eqecl", "ecleq" } -> SkyG(op, k) \o << MjdG(k, 3) >>
      [] op = "ecmat" -> << MjdG(k, 1) >>
      [] op = "etrms" -> << EpochG(k, 1) >>
      [] op \in { "addet", "subet" } -> << AngleG(k, 1), LatG(k, 2), EpochG(k, 3) >>
      [] op = "pm" -> << AngleG(k, 1), LatG(k, 2), PmRateG(k, 3), PmRateG(k, 4),
                         Pick(k, 5, << R("0"), U(k, 5), U(k, 5) / 10, U(k, 5) / 1000, -U(k, 5), U(k, 5) * 100 >>),
                         Pick(k, 6, << R("0"), Uni(k, 6, R("-500"), R("500")), Uni(k, 6, R("-50"), R("50")), Uni(k, 6, R("-3e5"), R("3e5")) >>) >>
                      \o (LET e == EpochG(k, 7) IN << e, IF Chance(k, 7, 8) THEN e ELSE EpochG(k, 8) >>)
FrameDirected(op) ==
    IF op \in { "ecmat", "etrms" } THEN << >>
    ELSE [ i \in 1..45 |-> LET p == i - 1 d == << ((p % 9) - 4) * QuarterPi, ((p \div 9) - 2) * QuarterPi >> IN
           CASE op \in { "eqecl", "ecleq" } -> d \o << R("51544.5") >>
             [] op \in { "addet", "subet" } -> d \o << R("1950") >>
             [] op = "pm" -> d \o << R("1e-4"), R("-2e-4"), R("0.5"), R("-100"), R("2000"), R("1900") >>
             [] OTHER -> d ]
FrameNoMix == {}
=============================================================================
