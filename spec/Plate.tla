-------------------------------- MODULE Plate -------------------------------
(***************************************************************************)
(* X01: least-squares plate models.  X02: applying, inverting and          *)
(* decomposing them; radial distortion.  Models are << a,b,c,d,e,f >>:     *)
(*    x2 = a + b x1 + c y1      y2 = d + e x1 + f y1                       *)
(***************************************************************************)
EXTENDS Common

PlateEps == R("7e-16")
Applied(m, x, y) == << m[1] + m[2] * x + m[3] * y, m[4] + m[5] * x + m[6] * y >>
AppliedAbs(m, x, y) == << Abs(m[1]) + Abs(m[2] * x) + Abs(m[3] * y), Abs(m[4]) + Abs(m[5] * x) + Abs(m[6] * y) >>

---------------------------------------------------------------------------
(* fitting *)

FITOk == 0
FITInsufficient == 1
FITNone == 2

\* samples: a = << rigid, n, expected (2n), measured (2n) >>
XE(a, i) == a[2 + 2 * i - 1]
YE(a, i) == a[2 + 2 * i]
XM(a, i) == a[2 + 2 * a[2] + 2 * i - 1]
YM(a, i) == a[2 + 2 * a[2] + 2 * i]
Mean(n, F(_)) == Sum([ i \in 1..n |-> F(i) ]) / n
\* sum of products of deviations from the means
Cov(n, F(_), G(_), mf, mg) == Sum([ i \in 1..n |-> (F(i) - mf) * (G(i) - mg) ])

\* all measurements at one place whose coordinates make every step of the elimination exact
ExactPlaces == { R("0"), R("0.5"), R("-0.5"), R("1"), R("-1"), R("2"), R("-2"), R("4"), R("-4") }
Coincident(a) == \A i \in 1..a[2] : XM(a, i) \doteq XM(a, 1) /\ YM(a, i) \doteq YM(a, 1)
MeasuredMax(a) == MaxAbs([ i \in 1..(2 * a[2]) |-> a[2 + 2 * a[2] + i] ])
ExpectedMax(a) == MaxAbs([ i \in 1..(2 * a[2]) |-> a[2 + i] ])
SumSqM(a) == Sum([ i \in 1..(2 * a[2]) |-> Sq(a[2 + 2 * a[2] + i]) ])

FitFull(a, r) ==
    LET n == a[2]
        xe(i) == XE(a, i)  ye(i) == YE(a, i)  xm(i) == XM(a, i)  ym(i) == YM(a, i)
        mxe == Mean(n, xe) mye == Mean(n, ye) mxm == Mean(n, xm) mym == Mean(n, ym)
        sxx == Cov(n, xm, xm, mxm, mxm) sxy == Cov(n, xm, ym, mxm, mym) syy == Cov(n, ym, ym, mym, mym)
        d2 == sxx * syy - sxy * sxy
        \* normal matrix: its size, its determinant and the size of its inverse
        size == n + SumSqM(a)
        det == n * d2
        adj == MaxAbs(<< (sxx + n * mxm * mxm) * (syy + n * mym * mym) - Sq(sxy + n * mxm * mym), n * (syy + Sq(mym)), n * (sxx + Sq(mxm)), n * n * (Abs(mxm) + Abs(mym)) * (Abs(mxm) + Abs(mym) + 1), n * (sxx + syy), n * Abs(sxy) >>)
        kappa == size * (adj / det)
        tol == 20 * PlateEps * kappa
        Coef(f(_), mf) == LET sxf == Cov(n, xm, f, mxm, mf) syf == Cov(n, ym, f, mym, mf)
                              p == (sxf * syy - syf * sxy) / d2 q == (syf * sxx - sxf * sxy) / d2
                          IN << mf - p * mxm - q * mym, p, q >>
        ideal == Coef(xe, mxe) \o Coef(ye, mye)
        well == d2 > R("1e-11") * sxx * syy /\ sxx > R("1e-11") * size /\ syy > R("1e-11") * size /\ tol < R("0.01")
        got == SubSeq(r, 2, 7)
    IN /\ (n * SumSqM(a) * SumSqM(a) < R("1e-21")) => r[1] = FITNone
       /\ well => /\ det > R("1e-18") => r[1] = FITOk
                  /\ r[1] = FITOk =>
                     \A i \in 1..n : LET s == AppliedAbs(ideal, xm(i), ym(i)) IN
                        NearSeq(Applied(got, xm(i), ym(i)), Applied(ideal, xm(i), ym(i)), tol * (s[1] + s[2] + ExpectedMax(a)))

\* rigid model without (s = 1) or with (s = -1) reflection of the expected X
RigidIdeal(a, s) ==
    LET n == a[2]
        xe(i) == s * XE(a, i)  ye(i) == YE(a, i)  xm(i) == XM(a, i)  ym(i) == YM(a, i)
        mxe == Mean(n, xe) mye == Mean(n, ye) mxm == Mean(n, xm) mym == Mean(n, ym)
        ss == Cov(n, xm, xm, mxm, mxm) + Cov(n, ym, ym, mym, mym)
        p == (Cov(n, xe, xm, mxe, mxm) + Cov(n, ye, ym, mye, mym)) / ss
        q == (Cov(n, ye, xm, mye, mxm) - Cov(n, xe, ym, mxe, mym)) / ss
    IN << s * (mxe - p * mxm + q * mym), s * p, -(s * q), mye - q * mxm - p * mym, q, p >>
Residual(a, m) == Sum([ i \in 1..a[2] |-> LET z == Applied(m, XM(a, i), YM(a, i)) IN Sq(z[1] - XE(a, i)) + Sq(z[2] - YE(a, i)) ])
FitRigid(a, r) ==
    LET n == a[2]
        xm(i) == XM(a, i)  ym(i) == YM(a, i)
        mxm == Mean(n, xm) mym == Mean(n, ym)
        ss == Cov(n, xm, xm, mxm, mxm) + Cov(n, ym, ym, mym, mym)
        size == n + SumSqM(a)
        kappa == size * ((n + SumSqM(a)) / (n * ss))
        tol == 20 * PlateEps * kappa
        got == SubSeq(r, 2, 7)
        up == RigidIdeal(a, 1)  dn == RigidIdeal(a, -1)
        ru == Residual(a, up)  rd == Residual(a, dn)
        IsModel(m) == \A i \in 1..n : LET s == AppliedAbs(m, xm(i), ym(i)) IN
                         NearSeq(Applied(got, xm(i), ym(i)), Applied(m, xm(i), ym(i)), tol * (s[1] + s[2] + ExpectedMax(a)))
        slack == R("1e-9") * (ru + rd) + Sq(tol * (1 + ExpectedMax(a)))
    IN /\ (Sq(n * SumSqM(a)) < R("1e-21")) => r[1] = FITNone
       /\ (ss > R("1e-11") * size /\ tol < R("0.01")) =>
          /\ Sq(n * ss) > R("1e-18") => r[1] = FITOk
          /\ r[1] = FITOk =>
             \* two coefficients used twice
             /\ \/ got[2] \doteq got[6] /\ got[3] \doteq -got[5]
                \/ got[2] \doteq -got[6] /\ got[3] \doteq got[5]
             /\ IF n = 2 THEN IsModel(up)
                ELSE \/ ru \leq rd + slack /\ IsModel(up)
                     \/ rd \leq ru + slack /\ IsModel(dn)
FitAccept(a, r) ==
    LET n == a[2] need == IF a[1] THEN 2 ELSE 3 IN
    /\ Len(r) = 7
    /\ r[1] \in { FITOk, FITInsufficient, FITNone }
    /\ (r[1] = FITInsufficient) = (n < need)
    /\ n < need => \A i \in 2..7 : r[i] \doteq DSent
    /\ n \geq need =>
       /\ r[1] = FITOk => AllFinite(Tail(r))
       /\ (Coincident(a) /\ XM(a, 1) \in ExactPlaces /\ YM(a, 1) \in ExactPlaces) => r[1] = FITNone
       /\ ~Coincident(a) => IF a[1] THEN FitRigid(a, r) ELSE FitFull(a, r)

---------------------------------------------------------------------------
(* using a model *)

XyAccept(a, r) == \* x, y, model
    LET m == SubSeq(a, 3, 8) z == Applied(m, a[1], a[2]) s == AppliedAbs(m, a[1], a[2]) IN
    Len(r) = 2 /\ Near(r[1], z[1], 4 * PlateEps * s[1]) /\ Near(r[2], z[2], 4 * PlateEps * s[2])
PxyAccept(a, r) == \* n, expected, measured, model -> x_rms, y_rms, rms, predicted
    LET n == a[1]
        m == SubSeq(a, 2 + 4 * n, 7 + 4 * n)
        ex(i, c) == a[1 + 2 * (i - 1) + c]
        P(i) == Applied(m, a[1 + 2 * n + 2 * i - 1], a[1 + 2 * n + 2 * i])
        S(i) == AppliedAbs(m, a[1 + 2 * n + 2 * i - 1], a[1 + 2 * n + 2 * i])
        Rms(c) == IF n = 0 THEN R("0") ELSE Sqrt(Sum([ i \in 1..n |-> Sq(ex(i, c) - P(i)[c]) ]) / n)
        size == IF n = 0 THEN R("0") ELSE MaxAbs([ i \in 1..n |-> Max(S(i)[1], S(i)[2]) + Abs(ex(i, 1)) + Abs(ex(i, 2)) ])
        tol == 20 * PlateEps * size
    IN /\ Len(r) = 3 + 2 * n
       /\ Near(r[1], Rms(1), tol + R("3e-14") * Rms(1)) /\ Near(r[2], Rms(2), tol + R("3e-14") * Rms(2))
       /\ Near(r[3], Sqrt(Sq(Rms(1)) + Sq(Rms(2))), 2 * tol + R("3e-14") * (Rms(1) + Rms(2)))
       /\ \A i \in 1..n : \A c \in 1..2 : Near(r[3 + 2 * (i - 1) + c], P(i)[c], 4 * PlateEps * S(i)[c])
InvAccept(a, r) == \* shared, model -> invertible, inverse
    LET m == SubSeq(a, 2, 7)
        before == IF a[1] = 1 THEN m ELSE [ i \in 1..6 |-> DSent ]
        det == m[2] * m[6] - m[3] * m[5]
        mag == Abs(m[2] * m[6]) + Abs(m[3] * m[5])
        v == Tail(r)
    IN /\ Len(r) = 7
       \* products that cancel to rounding may be judged either way unless they are exact and cancel
       /\ Abs(det) > 4 * PlateEps * mag => r[1] = TRUE
       /\ ((\A i \in { 2, 3, 5, 6 } : F32(m[i]) \doteq m[i]) /\ (m[2] * m[6]) \doteq (m[3] * m[5])) => r[1] = FALSE
       /\ r[1] = FALSE => \A i \in 1..6 : v[i] \doteq before[i]
       /\ r[1] = TRUE =>
          LET tol == 20 * PlateEps * (mag / Abs(det))
              \* inverse applied to the model applied to (0,0), (1,0), (0,1), with the sizes of the terms
              Through(x, y) == LET z == Applied(m, x, y) IN Applied(v, z[1], z[2])
              Size(x, y) == LET z == AppliedAbs(m, x, y) q == AppliedAbs(v, z[1], z[2]) IN q[1] + q[2]
          IN tol < R("0.1") =>
             \A pt \in { << R("0"), R("0") >>, << R("1"), R("0") >>, << R("0"), R("1") >> } :
                 NearSeq(Through(pt[1], pt[2]), pt, tol * (1 + Size(pt[1], pt[2])))
DcmpAccept(a, r) ==
    LET xz == r[1] yz == r[2] xs == r[3] ys == r[4] hp == r[5] / 2 o == r[6]
        \* the four documented steps, as a linear map
        lin == << xs * Cos(hp), ys * Sin(hp), xs * Sin(hp), ys * Cos(hp) >>
        m2 == Cos(o) * lin[1] + Sin(o) * lin[3]   m3 == Cos(o) * lin[2] + Sin(o) * lin[4]
        m5 == Cos(o) * lin[3] - Sin(o) * lin[1]   m6 == Cos(o) * lin[4] - Sin(o) * lin[2]
        det == a[2] * a[6] - a[3] * a[5]
        sx == Sqrt(Sq(a[2]) + Sq(a[5])) sy == Sqrt(Sq(a[3]) + Sq(a[6]))
        tol == R("3e-15")
        cond == sx * (sy / Abs(det))
    IN /\ Len(r) = 6 /\ AllFinite(r)
       /\ Near(Abs(xs), sx, tol * sx) /\ Near(ys, sy, tol * sy) /\ ys \geq 0
       \* the X scale alone shows the reflection
       /\ Abs(det) > R("1e-14") * sx * sy => (xs < 0) = (det < 0)
       /\ Abs(r[5]) \leq Pi + tol /\ Abs(o) \leq Pi + tol
       /\ (sx > 0 /\ sy > 0) =>
          /\ Near(m2, a[2], tol * (sx + sy)) /\ Near(m5, a[5], tol * (sx + sy))
          /\ Near(m3, a[3], tol * (sx + sy)) /\ Near(m6, a[6], tol * (sx + sy))
       /\ (sx > 0 /\ sy > 0 /\ cond < R("1e10")) =>
          /\ Near(a[2] * xz + a[3] * yz, a[1], 30 * tol * cond * (Abs(a[1]) + Abs(a[4])) * Max(1, (sx + sy) / Min(sx, sy)))
          /\ Near(a[5] * xz + a[6] * yz, a[4], 30 * tol * cond * (Abs(a[1]) + Abs(a[4])) * Max(1, (sx + sy) / Min(sx, sy)))
       \* an axis without extent: no zero points, no orientation, and the other axis alone gives the angle
       /\ (sx \doteq 0 \/ sy \doteq 0) =>
          /\ xz \doteq 0 /\ yz \doteq 0 /\ o \doteq 0
          /\ NearAngle(r[5], IF sx > 0 THEN Atan2(a[5], a[2]) ELSE IF sy > 0 THEN Atan2(a[3], a[6]) ELSE R("0"), tol)

---------------------------------------------------------------------------
(* radial distortion  rp = r (1 + k r^2) *)

PcdAccept(a, r) ==
    LET f == 1 + a[1] * (Sq(a[2]) + Sq(a[3])) s == 1 + Abs(a[1]) * (Sq(a[2]) + Sq(a[3])) IN
    Len(r) = 2 /\ Near(r[1], a[2] * f, 8 * PlateEps * Abs(a[2]) * s) /\ Near(r[2], a[3] * f, 8 * PlateEps * Abs(a[3]) * s)
UnpcdAccept(a, r) ==
    LET k == a[1] rp == Norm(<< a[2], a[3], R("0") >>)
    IN /\ Len(r) = 2 /\ AllFinite(r)
       /\ IF k \doteq 0 \/ rp \doteq 0 THEN r[1] \doteq a[2] /\ r[2] \doteq a[3]
          ELSE LET \* signed distance along the original direction; nothing across it
                   along == (r[1] * a[2] + r[2] * a[3]) / rp
                   across == (r[1] * a[3] - r[2] * a[2]) / rp
                   unit == 1 / Sqrt(Abs(k))
                   err == 20 * PlateEps * (unit + Abs(along) + rp)
                   slope == Abs(1 + 3 * k * Sq(along))
                   back == along * (1 + k * Sq(along))
               IN /\ Near(across, 0, err)
                  /\ Near(back, rp, err * (1 + slope))
                  \* where up to three points share the image, the one that moves least: inside the fold
                  /\ (k < 0 /\ rp < (R("0.6666") * unit) / Sqrt(3)) => In(along, 0, unit / Sqrt(3))

PlateOps == { "fitxy", "xy2xy", "pxy", "invf", "dcmpf", "pcd", "unpcd" }
PlateAccept(op, a, r) ==
    CASE op = "fitxy" -> FitAccept(a, r) [] op = "xy2xy" -> XyAccept(a, r) [] op = "pxy" -> PxyAccept(a, r)
      [] op = "invf" -> InvAccept(a, r) [] op = "dcmpf" -> DcmpAccept(a, r)
      [] op = "pcd" -> PcdAccept(a, r) [] op = "unpcd" -> UnpcdAccept(a, r)

---------------------------------------------------------------------------
(* generation *)

PlainModelG(k, j) ==
    LET c == RndInt(k, j, 9, 12)
        s == Pow(10, Uni(k, j + 1, R("-3"), R("3")))
        t == AngleG(k, j + 2)
        I(i) == R(IntUni(k, j + 10 + i, -3, 3))
        S(i) == Uni(k, j + 10 + i, R("-2"), R("2"))
        z == R("0")
    IN CASE c \in 0..2 -> Tup([ i \in 1..6 |-> S(i) ])
         [] c = 3 -> << S(1), s * Cos(t), s * Sin(t), S(4), -(s * Sin(t)), s * Cos(t) >>
         [] c = 4 -> << S(1), -(s * Cos(t)), s * Sin(t), S(4), s * Sin(t), s * Cos(t) >>
         [] c \in { 5, 6 } -> Tup([ i \in 1..6 |-> I(i) ])                                    \* often singular
         [] c = 7 -> << S(1), I(2), I(3), S(4), 2 * I(2), 2 * I(3) >>                       \* exactly singular
         [] c = 8 -> << I(1), z, I(3), I(4), I(5), z >>
         [] c = 9 -> << 100 * S(1), s * S(2), s * S(3), 100 * S(4), s * S(5), s * S(6) >>
         [] c = 10 -> << S(1), I(2), z, S(4), z, I(6) >>
         [] c = 11 -> << S(1), R("1"), R("1e-3") * S(3), S(4), R("-1e-3") * S(5), IF S(6) > 0 THEN R("1.001") ELSE R("-0.999") >>
\* now and then in other units altogether
ModelG(k, j) ==
    LET m == PlainModelG(k, j) u == Pow(10, Uni(k, j + 30, R("-9"), R("9"))) v == Pow(10, Uni(k, j + 31, R("-9"), R("9"))) c == RndInt(k, j + 32, 9, 12) IN
    CASE c = 0 -> Tup([ i \in 1..6 |-> u * m[i] ])
      [] c = 1 -> << v * m[1], u * m[2], u * m[3], v * m[4], u * m[5], u * m[6] >>
      [] c = 2 -> << m[1], u * m[2], v * m[3], m[4], u * m[5], v * m[6] >>
      [] c = 3 -> << u * m[1], u * m[2], u * m[3], v * m[4], v * m[5], v * m[6] >>
      [] OTHER -> m
PointsG(k, j, n) ==
    LET c == RndInt(k, j, 8, 14)
        s == IF c = 1 THEN Pow(10, Uni(k, j + 1, R("-4"), R("4"))) ELSE IF c = 12 THEN R("2048") ELSE R("1")
        ox == IF c = 12 THEN R("2048") ELSE IF c = 2 THEN Uni(k, j + 2, R("-50"), R("50")) ELSE R("0")
        px == Pick(k, j + 3, << R("0"), R("0.5"), R("-1"), R("2"), R("4") >>)
        py == Pick(k, j + 4, << R("0"), R("-0.5"), R("1"), R("-2"), R("4") >>)
    IN Tup([ q \in 1..(2 * n) |->
          LET i == (q + 1) \div 2 x == Uni(k, j + 20 + i, R("-1"), R("1")) y == Uni(k, j + 60 + i, R("-1"), R("1")) IN
          CASE c = 3 -> IF q % 2 = 1 THEN px ELSE py                                            \* all at one place
            [] c = 4 -> IF q % 2 = 1 THEN x ELSE 1 - R("0.5") * x                               \* on a line
            [] c = 5 -> R(IntUni(k, j + 20 + q, -3, 3))
            [] c = 6 -> IF q % 2 = 1 THEN x ELSE R("1e-3") * y                                  \* nearly on a line
            [] c = 7 -> IF i = 1 THEN (IF q % 2 = 1 THEN px ELSE py) + R("0.25") ELSE IF q % 2 = 1 THEN px ELSE py
            [] c = 8 -> R("1e-8") * (IF q % 2 = 1 THEN x ELSE y)
            [] OTHER -> IF q % 2 = 1 THEN ox + s * x ELSE ox + s * y ])
FitG(k) ==
    LET rigid == RndInt(k, 1, 7, 2) = 0
        n == LET c == RndInt(k, 2, 7, 12) IN IF c < 4 THEN c ELSE IF Chance(k, 4, 60) THEN IntUni(k, 3, 21, 120) ELSE IF c < 10 THEN IntUni(k, 3, 2, 6) ELSE IntUni(k, 3, 5, 20)
        m == PointsG(k, 100, n)
        c == RndInt(k, 4, 7, 6)
        s == Uni(k, 5, R("0.2"), R("3")) t == AngleG(k, 6)
        mod == CASE c = 0 -> ModelG(k, 300)
                 [] c \in { 1, 3 } -> << Uni(k, 7, R("-2"), R("2")), s * Cos(t), s * Sin(t), Uni(k, 8, R("-2"), R("2")), -(s * Sin(t)), s * Cos(t) >>
                 [] OTHER -> << Uni(k, 7, R("-2"), R("2")), -(s * Cos(t)), s * Sin(t), Uni(k, 8, R("-2"), R("2")), s * Sin(t), s * Cos(t) >>
        noise == IF c \in { 3, 4 } THEN R("0.3") ELSE IF c = 5 THEN R("1e-6") ELSE R("0")
        e == IF RndInt(k, 9, 7, 6) = 0 THEN PointsG(k, 500, n)
             ELSE Tup([ q \in 1..(2 * n) |-> LET i == (q + 1) \div 2 z == Applied(mod, m[2 * i - 1], m[2 * i]) IN
                        (IF q % 2 = 1 THEN z[1] ELSE z[2]) + noise * Uni(k, 700 + q, R("-1"), R("1")) ])
    IN << rigid, n >> \o e \o m
PxyG(k) == LET n == IF Chance(k, 1, 8) THEN 0 ELSE IF Chance(k, 3, 30) THEN IntUni(k, 2, 13, 70) ELSE IntUni(k, 2, 1, 12) IN << n >> \o PointsG(k, 100, n) \o PointsG(k, 300, n) \o ModelG(k, 500)
DistG(k) == \* coefficient and an undistorted point within its one-to-one range when there is one
    LET c == RndInt(k, 1, 9, 10)
        q == CASE c = 0 -> R("0") [] c = 1 -> R("-0.3333") [] c = 2 -> R("147.069") [] c = 3 -> R("178.585") [] c = 4 -> R("21.20")
               [] c = 5 -> Abs(MagG(k, 2, 6)) [] c \in { 6, 7 } -> -Abs(MagG(k, 2, 4)) [] c = 8 -> Uni(k, 2, R("-1"), R("1")) [] c = 9 -> Uni(k, 2, R("-200"), R("200"))
        unit == IF q \doteq 0 THEN R("1") ELSE 1 / Sqrt(Abs(q))
        e == RndInt(k, 3, 9, 8)
        rho == CASE e = 0 -> R("0") [] e = 1 -> unit * Uni(k, 4, R("0.5"), R("3")) [] e = 2 -> unit * R("0.57735") * (1 - Pow(10, Uni(k, 4, R("-6"), R("-0.3"))))
                 [] e = 3 -> Pow(10, Uni(k, 4, R("-8"), R("0"))) * unit [] OTHER -> unit * Uni(k, 4, R("0"), R("0.577"))
        t == AngleG(k, 5)
    IN << q, rho * Cos(t), rho * Sin(t) >>
PlateGen(op, k) ==
    CASE op = "fitxy" -> FitG(k)
      [] op = "xy2xy" -> << MagG(k, 1, 3), MagG(k, 2, 3) >> \o ModelG(k, 10)
      [] op = "pxy" -> PxyG(k)
      [] op = "invf" -> << RndInt(k, 1, 5, 2) >> \o ModelG(k, 10)
      [] op = "dcmpf" -> ModelG(k, 10)
      [] op = "pcd" -> DistG(k)
      [] op = "unpcd" -> LET d == DistG(k) f == 1 + d[1] * (Sq(d[2]) + Sq(d[3])) IN IF RndInt(k, 9, 5, 5) = 0 THEN d ELSE << d[1], f * d[2], f * d[3] >>
\* all integer models with entries -1, 0, 1 in the linear part
PlateDirected(op) ==
    LET Lin(q) == LET d(i) == R(((q \div (CASE i = 1 -> 1 [] i = 2 -> 3 [] i = 3 -> 9 [] i = 4 -> 27)) % 3) - 1) IN << R("0.5"), d(1), d(2), R("-2"), d(3), d(4) >> IN
    CASE op = "dcmpf" -> [ q \in 1..81 |-> Lin(q - 1) ]
      [] op = "invf" -> [ q \in 1..162 |-> << q % 2 >> \o Lin((q - 1) \div 2) ]
      [] OTHER -> << >>
PlateNoMix == PlateOps \ { "xy2xy", "pcd" }
=============================================================================
