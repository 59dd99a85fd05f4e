------------------------------- MODULE Vectors ------------------------------
(***************************************************************************)
(* V01 algebra, V02 rotations, V03 spherical/Cartesian, V04 separations    *)
(* and bearings.  Every operation exists in single and double precision.   *)
(***************************************************************************)
EXTENDS Common

DoubleVec == { "dvdv", "dvxv", "dvn", "dmxv", "dimxv", "dmxm", "dav2m", "dm2av", "deuler", "dcs2c", "dcc2s", "ds2c6", "dc62s",
               "dsep", "dsepv", "dbear", "dpav" }
VEps(op) == IF op \in DoubleVec THEN R("7e-16") ELSE R("2.4e-7")
\* a contiguous part of a sequence of arguments
Part(a, from, n) == SubSeq(a, from, from + n - 1)
V3(a, from) == << a[from], a[from + 1], a[from + 2] >>
Mat(a, from) == Part(a, from, 9)
\* the smallest error that counts at all (single precision underflow)
Tiny(op) == IF op \in DoubleVec THEN R("1e-300") ELSE R("1e-37")
\* a length whose square is not a normal number
Under(op, x) == ~(x \doteq 0) /\ x < (IF op \in DoubleVec THEN R("1e-150") ELSE R("1e-17"))

(* V01 *)
DotAccept(op, a, b, r) == Len(r) = 1 /\ Near(r[1], Dot(a, b), 4 * VEps(op) * AbsDot(a, b) + Tiny(op))
ProductsNear(op, got, want, bound) == \A i \in 1..Len(want) : Near(got[i], want[i], 4 * VEps(op) * bound[i] + Tiny(op))
AbsOf(v) == [ i \in 1..Len(v) |-> Abs(v[i]) ]
CrossAccept(op, a, b, r) ==
    /\ Len(r) = 3
    /\ LET x == AbsOf(a) y == AbsOf(b) IN
       ProductsNear(op, r, Cross(a, b), << x[2] * y[3] + x[3] * y[2], x[3] * y[1] + x[1] * y[3], x[1] * y[2] + x[2] * y[1] >>)
NormAccept(op, v, r) ==
    LET n == Norm(v) IN
    /\ Len(r) = 4 /\ AllFinite(r)
    /\ Under(op, n) \/
       /\ Near(r[1], n, 4 * VEps(op) * n)
       /\ IF n \doteq 0 THEN r[1] \doteq 0 /\ r[2] \doteq 0 /\ r[3] \doteq 0 /\ r[4] \doteq 0
          ELSE \A i \in 1..3 : Near(r[i + 1], v[i] / n, 5 * VEps(op) * Abs(v[i] / n) + Tiny(op))
MatVecAccept(op, m, v, r) == Len(r) = 3 /\ ProductsNear(op, r, MatVec(m, v), Tup(MatVec(AbsOf(m), AbsOf(v))))
MatMatAccept(op, m, n, r) == Len(r) = 9 /\ ProductsNear(op, r, MatMat(m, n), Tup(MatMat(AbsOf(m), AbsOf(n))))
SharedMatMat(op, a, r) ==
    LET m == Mat(a, 2) n == IF a[1] \in { 3, 4 } THEN m ELSE Mat(a, 11) IN MatMatAccept(op, m, n, r)
SharedCross(op, a, r) ==
    LET u == V3(a, 2) v == IF a[1] = 3 THEN u ELSE V3(a, 5) IN CrossAccept(op, u, v, r)

(* V02: rotating the frame by |v| about v takes the components of a fixed  *)
(* vector x to x cos - (n cross x) sin + n (n.x)(1 - cos)                   *)
Turned(v, x) ==
    LET p == Norm(v) IN IF p \doteq 0 THEN x ELSE
    LET n == Unit(v) s == Sin(p) c == Cos(p) h == 2 * Sq(Sin(p / 2)) nx == Cross(n, x) d == Dot(n, x)
    IN << x[1] * c - nx[1] * s + n[1] * d * h, x[2] * c - nx[2] * s + n[2] * d * h, x[3] * c - nx[3] * s + n[3] * d * h >>
AxisRotation(v) ==
    LET a == Turned(v, << 1, 0, 0 >>) b == Turned(v, << 0, 1, 0 >>) c == Turned(v, << 0, 0, 1 >>)
    IN << a[1], b[1], c[1], a[2], b[2], c[2], a[3], b[3], c[3] >>
AxisToMatrix(op, v, r) == LET tol == VEps(op) * (6 + 4 * Norm(v)) IN Len(r) = 9 /\ NearSeq(r, AxisRotation(v), tol) /\ IsRotation(r, 4 * tol)
MatrixToAxis(op, m, r) ==
    LET w == << m[6] - m[8], m[7] - m[3], m[2] - m[4] >>
        s == Norm(w)
        c == m[1] + m[5] + m[9] - 1
    IN /\ Len(r) = 3 /\ AllFinite(r)
       /\ Norm(r) \leq Pi * (1 + 4 * VEps(op)) \/ Under(op, s)
       /\ IF s \doteq 0 THEN c > 0 => MaxAbs(r) \doteq 0          \* no rotation at all (or exactly half a turn: see the property)
          ELSE LET tol == VEps(op) * (IF c > 0 THEN R("20") ELSE 60 / s) IN tol < R("0.1") => NearSeq(AxisRotation(r), m, tol)
AxisOf(ch) == IF ch \in { "X", "x", "1" } THEN 1 ELSE IF ch \in { "Y", "y", "2" } THEN 2 ELSE IF ch \in { "Z", "z", "3" } THEN 3 ELSE 0
\* how many of the (at most three) rotations take place: up to the first unknown axis
RECURSIVE EulerCount(_, _)
EulerCount(cs, n) == IF n \geq 3 \/ n \geq Len(cs) \/ AxisOf(cs[n + 1]) = 0 THEN n ELSE EulerCount(cs, n + 1)
EulerMatrix(order, a) ==
    LET cs == Chars(order) n == EulerCount(cs, 0) m(i) == FrameRot(AxisOf(cs[i]), a[i])
    IN CASE n = 0 -> Identity [] n = 1 -> m(1) [] n = 2 -> MatMat(m(2), m(1)) [] n = 3 -> MatMat(m(3), MatMat(m(2), m(1)))
EulerAccept(op, order, a, r) == Len(r) = 9 /\ NearSeq(r, EulerMatrix(order, a), 8 * VEps(op)) /\ IsRotation(r, 30 * VEps(op))

(* V03 *)
ToVector(op, a, r) == Len(r) = 3 /\ NearSeq(r, Dir(a[1], a[2]), 4 * VEps(op))
ToSpherical(op, v, r) ==
    /\ Len(r) = 2
    /\ In(Abs(r[1]), 0, Pi * (1 + VEps(op))) /\ In(Abs(r[2]), 0, HalfPi * (1 + VEps(op)))
    /\ IF v[1] \doteq 0 /\ v[2] \doteq 0 THEN r[1] \doteq 0
       ELSE Near(r[1], Atan2(v[2], v[1]), 6 * VEps(op)) \/ Under(op, Norm(<< v[1], v[2], 0 >>))
    /\ IF v[3] \doteq 0 THEN r[2] \doteq 0
       ELSE Near(r[2], Atan2(v[3], Norm(<< v[1], v[2], 0 >>)), 6 * VEps(op)) \/ Under(op, Norm(v))
\* position and velocity from longitude, latitude, distance and their rates
PosVel(s) ==
    LET u == Dir(s[1], s[2])
        east == << -Sin(s[1]), Cos(s[1]), R("0") >>
        north == << -(Sin(s[2]) * Cos(s[1])), -(Sin(s[2]) * Sin(s[1])), Cos(s[2]) >>
        ve == s[3] * Cos(s[2]) * s[4]
        vn == s[3] * s[5]
    IN Scaled(s[3], u) \o << ve * east[1] + vn * north[1] + s[6] * u[1], ve * east[2] + vn * north[2] + s[6] * u[2],
                             ve * east[3] + vn * north[3] + s[6] * u[3] >>
ToPosVel(op, s, r) ==
    LET w == PosVel(s) e == VEps(op) IN
    /\ Len(r) = 6
    /\ \A i \in 1..3 : Near(r[i], w[i], 6 * e * Abs(s[3]) + Tiny(op))
    /\ \A i \in 4..6 : Near(r[i], w[i], 12 * e * (Abs(s[3] * s[4]) + Abs(s[3] * s[5]) + Abs(s[6])) + Tiny(op))
\* a length whose cube is not a normal number
Under3(op, x) == ~(x \doteq 0) /\ x < (IF op \in DoubleVec THEN R("1e-90") ELSE R("1e-12"))
FromPosVel(op, a, r) ==
    LET p == V3(a, 1) v == V3(a, 4) e == VEps(op) d == Norm(p) q == Norm(<< p[1], p[2], 0 >>) IN
    /\ Len(r) = 6
    /\ Abs(r[1]) \leq Pi * (1 + e) /\ Abs(r[2]) \leq HalfPi * (1 + e)
    /\ IF Under3(op, d) \/ Under3(op, q) THEN TRUE
       ELSE IF d \doteq 0
       THEN LET qv == Norm(<< v[1], v[2], 0 >>) nv == Norm(v) IN     \* a null position: the direction of motion stands in for its direction
            \/ Under3(op, nv) \/ Under3(op, qv)
            \/ nv \doteq 0 /\ \A i \in 1..6 : r[i] \doteq 0
            \/ /\ ~(nv \doteq 0)
               /\ IF qv \doteq 0 THEN r[1] \doteq 0 ELSE Near(r[1], Atan2(v[2], v[1]), 6 * e)
               /\ Near(r[2], Atan2(v[3], qv), 6 * e)
               /\ Near(r[4], 0, 12 * e) /\ (qv \doteq 0 \/ Near(r[5], 0, (12 * e) * (nv / qv)))
               /\ (r[3] \doteq 0 \/ Near(r[3], nv, 6 * e * nv))
               /\ Near(r[6], nv, 8 * e * nv)
       ELSE /\ AllFinite(r)
            /\ Near(r[3], d, 6 * e * d)
            /\ Near(r[6], Dot(p, v) / d, 8 * e * Norm(v) + Tiny(op))
            /\ IF q \doteq 0 THEN r[1] \doteq 0 /\ r[4] \doteq 0 /\ r[5] \doteq 0 /\ Near(r[2], Sgn(p[3]) * HalfPi, 4 * e)
               ELSE LET w == PosVel(r) IN
                    /\ \A i \in 1..3 : Near(w[i], p[i], 12 * e * d)
                    /\ \A i \in 4..6 : Near(w[i], a[i], 30 * e * Norm(v) * (1 + d / q) + Tiny(op))

(* V04 *)
SepAccept(op, a, b, r) ==
    /\ Len(r) = 1 /\ 0 \leq r[1] /\ r[1] \leq Pi * (1 + VEps(op))
    /\ LET w == Angle(a, b) IN Near(r[1], w, R("8e-15") + (IF op \in DoubleVec THEN R("0") ELSE R("2.5e-7") * w))
\* components of b to the east and to the north as seen from a
EastOf(a, b) == b[2] * a[1] - b[1] * a[2]
NorthOf(a, b) == b[3] * (Sq(a[1]) + Sq(a[2])) - a[3] * (b[1] * a[1] + b[2] * a[2])
\* an angle is determined only as well as the offset is long
BearingNear(got, east, north, tol) ==
    LET rho == Sqrt(Sq(east) + Sq(north)) IN Abs(got) \leq Pi * (1 + R("1.2e-7")) /\ rho * TurnDiff(got, Atan2(east, north)) \leq tol
BearAccept(op, a, r) ==
    /\ Len(r) = 1 /\ Finite(r[1])
    /\ IF a[1] \doteq a[3] /\ a[2] \doteq a[4] THEN r[1] \doteq 0
       ELSE LET da == a[3] - a[1]
                north == Sin(a[4]) * Cos(a[2]) - Cos(a[4]) * Sin(a[2]) * Cos(da)
                east == Sin(da) * Cos(a[4])
                \* what the terms amount to, and how well the difference of longitudes is known
                size == Abs(east) + Abs(Sin(a[4]) * Cos(a[2])) + Abs(Cos(a[4]) * Sin(a[2])) + Abs(Cos(a[4]) * da)
            IN BearingNear(r[1], east, north, 6 * VEps(op) * size)
PavAccept(op, a, b, r) ==
    /\ Len(r) = 1 /\ Finite(r[1])
    /\ IF a = b THEN r[1] \doteq 0
       ELSE IF Norm(a) \doteq 0 \/ Norm(b) \doteq 0 THEN r[1] \doteq 0
       ELSE LET u == Unit(a) v == Unit(b) e == EastOf(u, v) n == NorthOf(u, v) IN
            \* single precision is rounded once, at the end
            BearingNear(r[1], e, n, R("1e-14") + (IF op = "pav" THEN R("4e-7") * Sqrt(Sq(e) + Sq(n)) ELSE R("0")))

VecOps == { "vdv", "dvdv", "vxv", "dvxv", "vn", "dvn", "mxv", "dmxv", "imxv", "dimxv", "mxm", "dmxm", "av2m", "dav2m", "m2av", "dm2av", "euler", "deuler",
            "cs2c", "dcs2c", "cc2s", "dcc2s", "cs2c6", "ds2c6", "cc62s", "dc62s", "sep", "dsep", "sepv", "dsepv", "bear", "dbear", "pav", "dpav" }
VecAccept(op, a, r) ==
    CASE op \in { "vdv", "dvdv" } -> DotAccept(op, V3(a, 1), V3(a, 4), r)
      [] op \in { "vxv", "dvxv" } -> SharedCross(op, a, r)
      [] op \in { "vn", "dvn" } -> NormAccept(op, V3(a, 2), r)
      [] op \in { "mxv", "dmxv" } -> MatVecAccept(op, Mat(a, 2), V3(a, 11), r)
      [] op \in { "imxv", "dimxv" } -> MatVecAccept(op, Transpose(Mat(a, 2)), V3(a, 11), r)
      [] op \in { "mxm", "dmxm" } -> SharedMatMat(op, a, r)
      [] op \in { "av2m", "dav2m" } -> AxisToMatrix(op, V3(a, 1), r)
      [] op \in { "m2av", "dm2av" } -> MatrixToAxis(op, Mat(a, 1), r)
      [] op \in { "euler", "deuler" } -> EulerAccept(op, a[1], V3(a, 2), r)
      [] op \in { "cs2c", "dcs2c" } -> ToVector(op, a, r)
      [] op \in { "cc2s", "dcc2s" } -> ToSpherical(op, V3(a, 1), r)
      [] op \in { "cs2c6", "ds2c6" } -> ToPosVel(op, a, r)
      [] op \in { "cc62s", "dc62s" } -> FromPosVel(op, a, r)
      [] op \in { "sep", "dsep" } -> SepAccept(op, Dir(a[1], a[2]), Dir(a[3], a[4]), r)
      [] op \in { "sepv", "dsepv" } -> SepAccept(op, V3(a, 1), V3(a, 4), r)
      [] op \in { "bear", "dbear" } -> BearAccept(op, a, r)
      [] op \in { "pav", "dpav" } -> PavAccept(op, V3(a, 1), V3(a, 4), r)

---------------------------------------------------------------------------
\* decades of magnitude an operation's arguments may span without overflow or underflow of its intermediate products
Decades(op) == IF op \in { "dvn", "dvdv", "dvxv", "dmxv", "dimxv", "dmxm", "dcc2s" } THEN 60 ELSE IF op \in { "dsepv", "dpav" } THEN 30 ELSE IF op = "dc62s" THEN 20 ELSE 8
MatG(k, j, e) ==
    LET c == RndInt(k, j, 8, 6) IN
    IF c = 0 THEN RotG(k, j) ELSE IF c = 1 THEN Identity
    ELSE LET s == IF c = 2 THEN Abs(MagG(k, j, e)) ELSE R("1") IN [ i \in 1..9 |-> s * Uni(k, j + 20 + i, R("-2"), R("2")) ]
\* a second direction: anywhere, or close to the first, or to its opposite
Dir2G(k, j, v) == LET c == RndInt(k, j, 9, 6) w == Vec3G(k, j + 40, 2) t == Abs(TinyG(k, j + 60)) IN
    IF c = 0 THEN Plus3(v, Scaled(t, w)) ELSE IF c = 1 THEN Scaled(-Abs(MagG(k, j, 2)), Plus3(v, Scaled(t, w))) ELSE IF c = 2 THEN v ELSE w
Sph2G(k) == LET near == RndInt(k, 3, 8, 6) = 0 \* near the origin the small differences are known best
                lo == IF near THEN TinyG(k, 8) ELSE AngleG(k, 1) la == IF near THEN TinyG(k, 9) ELSE LatG(k, 2) c == RndInt(k, 3, 9, 7) IN
    << lo, la >> \o (IF c = 0 THEN << lo + TinyG(k, 4), la + TinyG(k, 5) >> ELSE IF c = 1 THEN << lo + Pi + TinyG(k, 4), -la + TinyG(k, 5) >>
                     ELSE IF c = 2 THEN << lo, la >> ELSE IF c = 3 THEN << lo, LatG(k, 6) >> ELSE IF c = 4 THEN << AngleG(k, 7), la >> ELSE << AngleG(k, 7), LatG(k, 6) >>)
AxialG(k) == LET c == RndInt(k, 1, 9, 8) u == Vec3G(k, 1, 0) n == Norm(u) IN
    IF n \doteq 0 THEN u ELSE Scaled((CASE c = 0 -> Pi [] c = 1 -> Pi - R("1e-4") [] c = 2 -> Abs(TinyG(k, 9)) [] c = 3 -> TwoPi [] c = 4 -> Uni(k, 8, R("0"), R("30")) [] c = 5 -> HalfPi
                                      [] OTHER -> Uni(k, 8, R("0"), Pi)) / n, u)
Orders == << "XYZ", "zyx", "ZXZ", "123", "321", "3X1", "xyx", "YxY", "Z", "y", "X", "2", "zx", "YZ", "", "XQZ", "?XY", "XY ", "XYZX", "zzz", "Xy4Z", "0", "ZYXW", "33", "1y", "121", "yYy" >>
VecGen(op, k) ==
    LET e == Decades(op) IN
    CASE op \in { "vdv", "dvdv" } -> Vec3G(k, 1, e) \o Vec3G(k, 100, e)
      [] op \in { "vxv", "dvxv" } -> << RndInt(k, 0, 1, 4) >> \o Vec3G(k, 1, e) \o Vec3G(k, 100, e)
      [] op \in { "vn", "dvn" } -> << RndInt(k, 0, 1, 2) >> \o Vec3G(k, 1, e)
      [] op \in { "mxv", "dmxv", "imxv", "dimxv" } -> << RndInt(k, 0, 1, 2) >> \o MatG(k, 1, e) \o Vec3G(k, 100, e)
      [] op \in { "mxm", "dmxm" } -> << RndInt(k, 0, 1, 5) >> \o MatG(k, 1, e) \o MatG(k, 100, e)
      [] op \in { "av2m", "dav2m" } -> AxialG(k)
      [] op \in { "m2av", "dm2av" } -> IF RndInt(k, 0, 1, 3) = 0 THEN RotG(k, 1) ELSE AxisRotation(AxialG(k))
      [] op \in { "euler", "deuler" } -> << Pick(k, 1, Orders), AngleG(k, 2), AngleG(k, 3), AngleG(k, 4) >>
      [] op \in { "cs2c", "dcs2c" } -> << AngleG(k, 1), IF RndInt(k, 0, 1, 4) = 0 THEN AngleG(k, 2) ELSE LatG(k, 2) >>
      [] op \in { "cc2s", "dcc2s" } -> Vec3G(k, 1, e)
      [] op \in { "cs2c6", "ds2c6" } -> << AngleG(k, 1), LatG(k, 2), Pick(k, 3, << R("1"), R("0"), MagG(k, 4, 6), U(k, 5) >>), MagG(k, 6, 4), MagG(k, 7, 4), MagG(k, 8, 4) >>
      [] op \in { "cc62s", "dc62s" } -> LET s == IF RndInt(k, 0, 1, 3) = 0 THEN Abs(MagG(k, 9, e \div 2)) ELSE R("1") IN Scaled(s, Vec3G(k, 1, 0)) \o Vec3G(k, 100, e \div 2)
      [] op \in { "sep", "dsep", "bear", "dbear" } -> Sph2G(k)
      [] op \in { "sepv", "dsepv", "pav", "dpav" } -> LET v == Vec3G(k, 1, IF e > 4 THEN e ELSE e) IN v \o Dir2G(k, 100, v)
Axes3 == << << 1, 0, 0 >>, << 0, 1, 0 >>, << 0, 0, 1 >>, << -1, 0, 0 >>, << 0, -1, 0 >>, << 0, 0, -1 >>, << 0, 0, 0 >>, << 1, 1, 0 >>, << R("0.3"), R("0.4"), R("-1.2") >> >>
AxisPairs == [ i \in 1..81 |-> Axes3[1 + ((i - 1) % 9)] \o Axes3[1 + ((i - 1) \div 9)] ]
M9 == << R("1"), R("2"), R("-3"), R("0.5"), R("-0.25"), R("4"), R("7"), R("0"), R("-1.5") >>
N9 == << R("-2"), R("1"), R("0.125"), R("3"), R("5"), R("-1"), R("0.75"), R("2"), R("6") >>
VecDirected(op) ==
    CASE op \in { "vdv", "dvdv", "sepv", "dsepv", "pav", "dpav" } -> AxisPairs
      [] op \in { "vxv", "dvxv" } -> [ i \in 1..(4 * 81) |-> << (i - 1) % 4 >> \o AxisPairs[1 + ((i - 1) \div 4)] ]
      [] op \in { "vn", "dvn" } -> [ i \in 1..18 |-> << (i - 1) % 2 >> \o Axes3[1 + ((i - 1) \div 2)] ]
      [] op \in { "mxv", "dmxv", "imxv", "dimxv" } -> [ i \in 1..18 |-> << (i - 1) % 2 >> \o M9 \o Axes3[1 + ((i - 1) \div 2)] ]
      [] op \in { "mxm", "dmxm" } -> [ i \in 1..10 |-> << (i - 1) % 5 >> \o (IF i > 5 THEN M9 \o N9 ELSE N9 \o M9) ]
      [] op \in { "av2m", "dav2m" } -> [ i \in 1..45 |-> Scaled(Pick(1, 1, << 1 >>) * (<< R("1"), HalfPi, Pi, TwoPi, R("1e-9") >>)[1 + ((i - 1) % 5)], Axes3[1 + ((i - 1) \div 5)]) ]
      [] op \in { "m2av", "dm2av" } -> << Identity >> \o [ i \in 1..27 |-> AxisRotation(Scaled((<< R("1"), HalfPi, R("3") >>)[1 + ((i - 1) % 3)], Axes3[1 + ((i - 1) \div 3)])) ]
      [] op \in { "euler", "deuler" } -> [ i \in 1..Len(Orders) |-> << Orders[i], R("0.3"), R("-1.2"), R("2.1") >> ]
      [] op \in { "cs2c", "dcs2c" } -> [ i \in 1..45 |-> << (((i - 1) \div 5) - 4) * HalfPi, (((i - 1) % 5) - 2) * QuarterPi >> ]
      [] op \in { "cc2s", "dcc2s" } -> Axes3
      [] op \in { "cs2c6", "ds2c6" } -> [ i \in 1..45 |-> << (((i - 1) \div 5) - 4) * HalfPi, (((i - 1) % 5) - 2) * QuarterPi, R("2"), R("0.1"), R("-0.2"), R("0.3") >> ]
      [] op \in { "cc62s", "dc62s" } -> AxisPairs
      [] OTHER -> [ i \in 1..225 |-> LET p == i - 1 IN << ((p % 3) - 1) * HalfPi, (((p \div 3) % 5) - 2) * QuarterPi, (((p \div 15) % 3) - 1) * HalfPi, (((p \div 45) % 5) - 2) * QuarterPi >> ]
VecNoMix == { "m2av", "dm2av" }
=============================================================================
