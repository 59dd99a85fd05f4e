---------------------------- MODULE TangentPlane ----------------------------
(***************************************************************************)
(* G01: gnomonic projection, deprojection and tangent-point recovery, as   *)
(* coordinates and as vectors, in both precisions.                         *)
(***************************************************************************)
EXTENDS Vectors

DoubleTp == { "ds2tp", "dv2tp", "dtp2s", "dtp2v", "dtps2c", "dtpv2c" }
TpEps(op) == IF op \in DoubleTp THEN R("7e-16") ELSE R("2.4e-7")

\* a tangent point with its local east and north: from longitude and latitude (any quadrant) ...
FrameAt(ra, dec) == [ t |-> Dir(ra, dec), e |-> << -Sin(ra), Cos(ra), R("0") >>, n |-> << -(Cos(ra) * Sin(dec)), -(Sin(ra) * Sin(dec)), Cos(dec) >> ]
\* ... or from a unit vector; at a pole the longitude is taken as zero
FrameOf(t) == LET r == Norm(<< t[1], t[2], 0 >>) x == IF r \doteq 0 THEN R("1") ELSE t[1] / r y == IF r \doteq 0 THEN R("0") ELSE t[2] / r
              IN [ t |-> t, e |-> << -y, x, R("0") >>, n |-> << -(t[3] * x), -(t[3] * y), r >> ]
\* the direction with given plane coordinates
OnPlane(f, xi, eta) == Plus3(f.t, Plus3(Scaled(xi, f.e), Scaled(eta, f.n)))

(* projection: status 0 fine, 1 too far, 2 antistar on the plane, 3 antistar too far *)
TpTiny == R("1e-6")
ProjectAccept(op, p, f, slack, turn, r) ==
    LET d == Dot(p, f.t)
        x == Dot(p, f.e)
        y == Dot(p, f.n)
        tol == TpEps(op) * (8 + slack)
        \* how well the distance from the plane itself is known: turn is the longitude between the two
        td == IF op \in DoubleTp THEN tol ELSE R("2.4e-7") + R("1.2e-7") * turn
        \* the distance used for the quotient
        q == CASE r[1] \in { 0, 3 } -> d [] r[1] = 1 -> TpTiny [] r[1] = 2 -> -TpTiny
    IN /\ Len(r) = 3 /\ r[1] \in 0..3 /\ AllFinite(r)
       /\ CASE r[1] = 0 -> d > TpTiny - td
            [] r[1] = 1 -> In(d, -td, TpTiny + td)
            [] r[1] = 2 -> In(d, -TpTiny - td, td)
            [] r[1] = 3 -> d < -TpTiny + td
       /\ Near(r[2] * q, x, tol * (1 + Abs(r[2])))
       /\ Near(r[3] * q, y, tol * (1 + Abs(r[3])))

(* deprojection *)
DeprojectAccept(op, a, r) ==
    /\ Len(r) = 2
    /\ In(r[1], 0, TwoPi * (1 + TpEps(op))) /\ Abs(r[2]) \leq HalfPi * (1 + TpEps(op))
    /\ SameDir(Dir(r[1], r[2]), OnPlane(FrameAt(a[3], a[4]), a[1], a[2]), TpEps(op) * (8 + Abs(a[3])))
DeprojectVecAccept(op, a, r) ==
    LET w == OnPlane(FrameOf(V3(a, 3)), a[1], a[2]) IN
    Len(r) = 3 /\ NearSeq(r, Unit(w), 10 * TpEps(op))

(* tangent points.  The solutions are the tangent points, allowing latitudes *)
(* beyond the pole, that put the star at the given coordinates: one on the   *)
(* star's side of the pole's meridian plane and one on the other.            *)
Slant(a) == Sqrt(1 + Sq(a[1]) + Sq(a[2]))
\* square of the cosine-like quantity that must not be negative, for a star with sine s and cosine c of latitude
Room(a, s, c) == Sq(c) * (1 + Sq(a[2])) - Sq(s * a[1])
CountAccept(op, a, s, c, n) ==
    LET m == 16 * TpEps(op) * Sq(Slant(a)) room == Room(a, s, c) sdf == Abs(s) * Slant(a)
    IN /\ n \in 0..2
       /\ room > m => n > 0
       /\ room < -m => n = 0
       /\ (n > 0 /\ sdf > 1 + m) => n = 2
       /\ (n > 0 /\ sdf < 1 - m) => n = 1
RecoverAccept(op, a, r) ==
    LET star == Dir(a[3], a[4])
        \* how clear the two answers are of one another
        apart == Sqrt(Abs(Sq(Cos(a[4])) * (1 + Sq(a[2])) - Sq(Sin(a[4]) * a[1])))
        tol == 16 * TpEps(op) * (Sq(Slant(a)) + Abs(a[3])) + 2 * TpEps(op) * (Sq(Slant(a)) / Max(apart, Sqrt(TpEps(op))))
        Good(ra, dec, side) ==
            /\ In(ra, 0, TwoPi * (1 + TpEps(op))) /\ Abs(dec) \leq Pi * (1 + TpEps(op))
            /\ SameDir(star, OnPlane(FrameAt(ra, dec), a[1], a[2]), tol)
            /\ side * Cos(a[3] - ra) > -tol
    IN /\ Len(r) = 5
       /\ CountAccept(op, a, Sin(a[4]), Cos(a[4]), r[1])
       /\ r[1] > 0 => /\ Good(r[2], r[3], 1)
                      /\ Good(r[4], r[5], -1) \/ (a[1] \doteq 0 /\ Abs(Cos(a[4])) < tol)
RecoverVecAccept(op, a, r) ==
    LET star == V3(a, 3)
        rho == Norm(<< star[1], star[2], 0 >>)
        eps == TpEps(op)
        tol == 16 * eps * (Sq(Slant(a)) + (Sq(a[1]) / Max(rho, Sqrt(eps))))
        \* with its own frame, or with that of the point seen over the pole
        Maps(v, side) == SameDir(star, OnPlane(FrameOf(v), side * a[1], side * a[2]), tol)
        Good(v, side) ==
            LET d == side * (v[1] * star[1] + v[2] * star[2]) m == tol * rho IN
            /\ Near(Norm(v), 1, tol)
            /\ d > m => Maps(v, 1)
            /\ d < -m => Maps(v, -1)
            /\ Maps(v, 1) \/ Maps(v, -1) \/ Norm(<< v[1], v[2], 0 >>) < tol
    IN /\ Len(r) = 7
       /\ CountAccept(op, a, star[3], rho, r[1])
       /\ r[1] > 0 => Good(V3(r, 2), 1) /\ Good(V3(r, 5), -1)

TangentOps == { "s2tp", "ds2tp", "v2tp", "dv2tp", "tp2s", "dtp2s", "tp2v", "dtp2v", "tps2c", "dtps2c", "tpv2c", "dtpv2c" }
TangentAccept(op, a, r) ==
    CASE op \in { "s2tp", "ds2tp" } -> ProjectAccept(op, Dir(a[1], a[2]), FrameAt(a[3], a[4]), Abs(a[1]) + Abs(a[3]), Abs(a[1] - a[3]), r)
      [] op \in { "v2tp", "dv2tp" } -> ProjectAccept(op, V3(a, 1), FrameOf(V3(a, 4)), 0, 0, r)
      [] op \in { "tp2s", "dtp2s" } -> DeprojectAccept(op, a, r)
      [] op \in { "tp2v", "dtp2v" } -> DeprojectVecAccept(op, a, r)
      [] op \in { "tps2c", "dtps2c" } -> RecoverAccept(op, a, r)
      [] op \in { "tpv2c", "dtpv2c" } -> RecoverVecAccept(op, a, r)

---------------------------------------------------------------------------
\* plane coordinates
PlaneG(k, j) ==
    LET c == RndInt(k, j, 9, 12) IN
    CASE c = 0 -> R("0") [] c = 1 -> TinyG(k, j) [] c = 2 -> Uni(k, j, R("-10"), R("10")) [] c = 3 -> SignG(k, j) * R("1")
      [] c \in 4..6 -> Uni(k, j, R("-2"), R("2")) [] OTHER -> Uni(k, j, R("-0.1"), R("0.1"))
\* a star and a tangent point: near each other, a right angle apart, opposite, or anywhere
PairG(k) ==
    LET ra == AngleG(k, 3) dec == LatG(k, 4) c == RndInt(k, 1, 9, 16) f == FrameAt(ra, dec) z == R("0")
        At(v) == LET q == Norm(<< v[1], v[2], 0 >>) IN << Atan2(v[2], v[1]), Atan2(v[3], q) >>
        s == CASE c = 0 -> << ra, dec >>
               [] c = 1 -> << ra + Pi, -dec >>
               [] c = 2 -> At(Plus3(f.e, Scaled(TinyG(k, 5), f.t)))
               [] c = 3 -> At(Plus3(f.n, Scaled(TinyG(k, 5), f.t)))
               [] c = 4 -> At(Plus3(Scaled(Cos(U(k, 6) * 6), f.e), Plus3(Scaled(Sin(U(k, 6) * 6), f.n), Scaled(TinyG(k, 5), f.t))))
               [] c = 5 -> << ra + HalfPi, z >>
               [] c \in 6..9 -> At(OnPlane(f, PlaneG(k, 5), PlaneG(k, 6)))
               [] c = 10 -> At(Scaled(-1, OnPlane(f, PlaneG(k, 5), PlaneG(k, 6))))
               [] c = 11 -> << ra, dec - Sgn(dec) * (HalfPi - SignG(k, 5) * Uni(k, 6, R("1e-7"), R("1.6e-6"))) >>
               [] OTHER -> << AngleG(k, 1), LatG(k, 2) >>
    IN << s[1], s[2], ra, dec >>
\* latitudes of stars for tangent-point recovery, often near a pole
PolarG(k, j) == LET c == RndInt(k, j, 9, 4) IN
    CASE c = 0 -> PlainLatG(k, j) [] c = 1 -> SignG(k, j) * (HalfPi - Abs(TinyG(k, j))) [] OTHER -> SignG(k, j) * (HalfPi - Sq(U(k, j)) * HalfPi)
UnitG(k, j, Lat(_, _)) == LET c == RndInt(k, j, 8, 12) IN
    CASE c = 0 -> << R("0"), R("0"), R("1") >> [] c = 1 -> << R("0"), R("0"), R("-1") >> [] OTHER -> Dir(AngleG(k, j), Lat(k, j + 1))
TangentGen(op, k) ==
    CASE op \in { "s2tp", "ds2tp" } -> PairG(k)
      [] op \in { "v2tp", "dv2tp" } ->
         LET q == PairG(k) c == RndInt(k, 7, 8, 12) t == IF c = 0 THEN << R("0"), R("0"), R("1") >> ELSE IF c = 1 THEN << R("0"), R("0"), R("-1") >> ELSE Dir(q[3], q[4])
         IN Dir(q[1], q[2]) \o t
      [] op \in { "tp2s", "dtp2s" } -> << PlaneG(k, 1), PlaneG(k, 2), AngleG(k, 3), LatG(k, 4) >>
      [] op \in { "tp2v", "dtp2v" } -> << PlaneG(k, 1), PlaneG(k, 2) >> \o UnitG(k, 3, LatG)
      [] op \in { "tps2c", "dtps2c" } -> << PlaneG(k, 1), PlaneG(k, 2), AngleG(k, 3), PolarG(k, 4) >>
      [] op \in { "tpv2c", "dtpv2c" } -> << PlaneG(k, 1), PlaneG(k, 2) >> \o UnitG(k, 3, PolarG)
TangentDirected(op) ==
    IF op \in { "s2tp", "ds2tp" }
    THEN [ i \in 1..225 |-> LET p == i - 1 IN << ((p % 9) - 4) * QuarterPi, (((p \div 9) % 5) - 2) * QuarterPi, R("0"), ((p \div 45) - 2) * QuarterPi >> ]
    ELSE << >>
TangentNoMix == { "v2tp", "dv2tp", "tp2v", "dtp2v", "tpv2c", "dtpv2c" }
=============================================================================
