------------------------------- MODULE Common -------------------------------
(***************************************************************************)
(* Constants, tolerances, 3-vector algebra and input generators shared by  *)
(* all area modules.                                                       *)
(***************************************************************************)
EXTENDS Num, Sequences

Pi == R("3.141592653589793238462643")
TwoPi == R("6.283185307179586476925287")
HalfPi == R("1.570796326794896619231322")
QuarterPi == R("0.785398163397448309615661")
D2R == R("0.0174532925199432957692369")        \* degrees to radians
AS2R == R("4.848136811095359935899141e-6")     \* arcseconds to radians
S2R == R("7.272205216643039903848712e-5")      \* seconds of time to radians

\* the marks the driver leaves in output arguments before a call
DSent == R("-987654321.25")
FSent == R("-98765.25")
ISent == -424242

---------------------------------------------------------------------------
(* comparison *)

Sq(x) == x * x
Sgn(x) == IF x < 0 THEN -1 ELSE 1
Near(x, y, tol) == Abs(x - y) \leq tol
Rel(x, y, tol) == Abs(x - y) \leq tol * Max(Abs(x), Abs(y))
NearSeq(s, t, tol) == Len(s) = Len(t) /\ \A i \in 1..Len(s) : Near(s[i], t[i], tol)
\* difference of two angles, ignoring whole turns
TurnDiff(x, y) == LET d == Abs(Fmod(x - y, TwoPi)) IN Min(d, Abs(TwoPi - d))
NearAngle(x, y, tol) == TurnDiff(x, y) \leq tol
\* a sequence of numbers, none of them NaN or infinite
AllFinite(s) == \A i \in 1..Len(s) : Finite(s[i])
Prec(op, dops) == IF op \in dops THEN R("1e-15") ELSE R("6e-8")

---------------------------------------------------------------------------
(* 3-vectors <<x,y,z>> and 3x3 matrices as sequences of 9, row by row *)

Dot(a, b) == a[1] * b[1] + a[2] * b[2] + a[3] * b[3]
AbsDot(a, b) == Abs(a[1] * b[1]) + Abs(a[2] * b[2]) + Abs(a[3] * b[3])
Cross(a, b) == << a[2] * b[3] - a[3] * b[2], a[3] * b[1] - a[1] * b[3], a[1] * b[2] - a[2] * b[1] >>
Scaled(k, a) == << k * a[1], k * a[2], k * a[3] >>
Plus3(a, b) == << a[1] + b[1], a[2] + b[2], a[3] + b[3] >>
Minus3(a, b) == << a[1] - b[1], a[2] - b[2], a[3] - b[3] >>
\* modulus computed without overflow or underflow of the squares
Norm(a) == LET m == MaxAbs(a) IN
    IF m \doteq 0 THEN R("0") ELSE m * Sqrt(Sq(a[1] / m) + Sq(a[2] / m) + Sq(a[3] / m))
Unit(a) == LET n == Norm(a) IN << a[1] / n, a[2] / n, a[3] / n >>
Row(m, i) == << m[3 * i - 2], m[3 * i - 1], m[3 * i] >>
Col(m, j) == << m[j], m[3 + j], m[6 + j] >>
MatVec(m, v) == << Dot(Row(m, 1), v), Dot(Row(m, 2), v), Dot(Row(m, 3), v) >>
TMatVec(m, v) == << Dot(Col(m, 1), v), Dot(Col(m, 2), v), Dot(Col(m, 3), v) >>
MatMat(a, b) == << Dot(Row(a, 1), Col(b, 1)), Dot(Row(a, 1), Col(b, 2)), Dot(Row(a, 1), Col(b, 3)),
                   Dot(Row(a, 2), Col(b, 1)), Dot(Row(a, 2), Col(b, 2)), Dot(Row(a, 2), Col(b, 3)),
                   Dot(Row(a, 3), Col(b, 1)), Dot(Row(a, 3), Col(b, 2)), Dot(Row(a, 3), Col(b, 3)) >>
Transpose(m) == << m[1], m[4], m[7], m[2], m[5], m[8], m[3], m[6], m[9] >>
Identity == << R("1"), R("0"), R("0"), R("0"), R("1"), R("0"), R("0"), R("0"), R("1") >>
Det3(m) == Dot(Row(m, 1), Cross(Row(m, 2), Row(m, 3)))
\* proper rotation
IsRotation(m, tol) == NearSeq(MatMat(m, Transpose(m)), Identity, tol) /\ Near(Det3(m), 1, tol)
\* rotation of the frame about one axis
FrameRot(axis, t) == LET s == Sin(t) c == Cos(t) z == R("0") u == R("1") IN
    CASE axis = 1 -> << u, z, z, z, c, s, z, -s, c >>
      [] axis = 2 -> << c, z, -s, z, u, z, s, z, c >>
      [] axis = 3 -> << c, s, z, -s, c, z, z, z, u >>
\* unit vector of a direction
Dir(lon, lat) == << Cos(lon) * Cos(lat), Sin(lon) * Cos(lat), Sin(lat) >>
\* angle between two vectors, accurate for all sizes
Angle(a, b) == LET c == Norm(Cross(a, b)) d == Dot(a, b) IN IF c \doteq 0 /\ d \doteq 0 THEN R("0") ELSE Atan2(c, d)
\* the same direction to within tol radians (both non-zero)
SameDir(a, b, tol) == Angle(a, b) \leq tol
In(x, lo, hi) == lo \leq x /\ x \leq hi

---------------------------------------------------------------------------
(* generators: every draw is a function of the run's seed, the call number *)
(* k and the position j of the argument                                    *)

U(k, j) == Rnd(k, j, 0)
Uni(k, j, lo, hi) == lo + (hi - lo) * Rnd(k, j, 0)
IntUni(k, j, lo, hi) == lo + RndInt(k, j, 1, hi - lo + 1)
Pick(k, j, seq) == seq[1 + RndInt(k, j, 2, Len(seq))]
Chance(k, j, n) == RndInt(k, j, 3, n) = 0
SignG(k, j) == IF RndInt(k, j, 4, 2) = 0 THEN 1 ELSE -1

Tinies == << R("1e-16"), R("1e-12"), R("1e-9"), R("3e-8"), R("1e-7"), R("1e-6"), R("1e-5"), R("1e-4"), R("1e-3"), R("0.02") >>
TinyG(k, j) == SignG(k, j + 500) * Pick(k, j + 501, Tinies)

\* any angle
AngleG(k, j) ==
    LET c == RndInt(k, j, 5, 20) IN
    IF c < 5 THEN (RndInt(k, j, 6, 33) - 16) * QuarterPi
    ELSE IF c < 8 THEN (RndInt(k, j, 6, 33) - 16) * QuarterPi + TinyG(k, j)
    ELSE IF c < 17 THEN Uni(k, j, -TwoPi, TwoPi)
    ELSE IF c < 19 THEN Uni(k, j, R("-60"), R("60"))
    ELSE Uni(k, j, R("-1e4"), R("1e4"))
\* any latitude-like angle within +/- pi/2
PlainLatG(k, j) ==
    LET c == RndInt(k, j, 5, 20) IN
    IF c < 5 THEN (RndInt(k, j, 6, 5) - 2) * QuarterPi
    ELSE IF c < 8 THEN LET q == (RndInt(k, j, 6, 5) - 2) * QuarterPi t == TinyG(k, j)
                       IN IF Abs(q + t) > HalfPi THEN q - t ELSE q + t
    ELSE Uni(k, j, -HalfPi, HalfPi)
\* once in a while beyond a pole
LatG(k, j) == IF RndInt(k, j, 11, 25) = 0 THEN Uni(k, j, R("-7"), R("7")) ELSE PlainLatG(k, j)
\* magnitude over many decades, either sign
MagG(k, j, e) == SignG(k, j) * Pow(10, Uni(k, j + 600, -e, e))
\* a single-precision-safe or double vector: scale 10^+-e
Vec3G(k, j, e) ==
    LET c == RndInt(k, j, 5, 24)
        s == IF RndInt(k, j, 7, 3) = 0 THEN Abs(MagG(k, j, e)) ELSE R("1")
        z == R("0")
        d == Dir(AngleG(k, j + 1), LatG(k, j + 2))
        u == Dir(Uni(k, j + 3, z, TwoPi), Asin(Uni(k, j + 4, R("-1"), R("1"))))
    IN CASE c = 0 -> << z, z, z >>
         [] c = 1 -> Scaled(s, << R("1"), z, z >>)
         [] c = 2 -> Scaled(s, << z, R("1"), z >>)
         [] c = 3 -> Scaled(s, << z, z, R("1") >>)
         [] c = 4 -> Scaled(-s, << R("1"), z, z >>)
         [] c = 5 -> Scaled(-s, << z, R("1"), z >>)
         [] c = 6 -> Scaled(-s, << z, z, R("1") >>)
         [] c = 7 -> Scaled(s, << u[1], u[2], z >>)
         [] c = 8 -> Scaled(s, << u[1], z, u[3] >>)
         [] c = 9 -> Scaled(s, << z, u[2], u[3] >>)
         [] c = 10 -> Scaled(s, << R("1e-7") * u[1], R("1e-7") * u[2], u[3] >>)
         [] c \in 11..14 -> Scaled(s, d)
         [] OTHER -> Scaled(s, u)
NonZero3G(k, j, e) == LET v == Vec3G(k, j, e) IN IF Norm(v) \doteq 0 THEN << R("0.3"), R("-0.4"), R("1.2") >> ELSE v
\* a rotation matrix
RotG(k, j) == MatMat(FrameRot(3, AngleG(k, j)), MatMat(FrameRot(1, AngleG(k, j + 1)), FrameRot(3, AngleG(k, j + 2))))
\* a Modified Julian Date
MjdG(k, j) ==
    LET c == RndInt(k, j, 5, 20) IN
    IF c < 1 THEN R("51544.5")
    ELSE IF c < 4 THEN R(IntUni(k, j, 15000, 80000))
    ELSE IF c < 5 THEN R(IntUni(k, j, 15000, 80000)) + TinyG(k, j)
    ELSE IF c < 15 THEN Uni(k, j, R("15000"), R("88000"))
    ELSE IF c < 18 THEN Uni(k, j, R("-60000"), R("160000"))
    ELSE IF c < 19 THEN Uni(k, j, R("-600000"), R("700000"))
    ELSE Uni(k, j, R("-3000000"), R("4000000"))
\* a Julian or Besselian epoch
EpochG(k, j) ==
    LET c == RndInt(k, j, 5, 20) IN
    IF c < 2 THEN R("2000") ELSE IF c < 4 THEN R("1950") ELSE IF c < 5 THEN R("1900")
    ELSE IF c < 8 THEN R(IntUni(k, j, 1800, 2200))
    ELSE IF c < 16 THEN Uni(k, j, R("1800"), R("2200"))
    ELSE IF c < 19 THEN Uni(k, j, R("-200"), R("4000"))
    ELSE Uni(k, j, R("-10000"), R("20000"))
=============================================================================
