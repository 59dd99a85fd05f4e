----------------------------- MODULE Refraction -----------------------------
(***************************************************************************)
(* R01: refraction through a two-layer model atmosphere (Hohenkerk and     *)
(* Sinclair; gas and water vapour formulae of Gill, Crane and Rueger), the *)
(* constants A and B of the tangent model, and their adjustment for        *)
(* wavelength.  R02: applying the tangent model, and air mass.             *)
(***************************************************************************)
EXTENDS Vectors

Clamp(x, lo, hi) == Min(Max(x, lo), hi)
(***************************************************************************)
(* the atmosphere: everything that depends on the observer's conditions    *)
(* but not on the direction                                                *)
(***************************************************************************)
EarthR == R("6378120")
TropoH == R("11000")
TopH == R("80000")
Delta == R("18.36")
\* saturation pressure of water vapour and its actual pressure (mb)
Saturation(tk, p) == LET t == tk - R("273.15") IN
    Pow(10, (R("0.7859") + R("0.03477") * t) / (1 + R("0.00412") * t)) * (1 + p * (R("4.5e-6") + R("6e-10") * Sq(t)))
VapourQuotient(tk, p, rh) == 1 - (1 - rh) * (Saturation(tk, p) / p)
Vapour(tk, p, rh) == IF p > 0 THEN rh * (Saturation(tk, p) / VapourQuotient(tk, p, rh)) ELSE R("0")
Atmosphere(h, tk, p, rh, wl, phi, lapse) ==
    LET hm == Clamp(h, R("-1000"), TopH)
        t0 == Clamp(tk, R("100"), R("500"))
        pm == Clamp(p, R("0"), R("10000"))
        rm == Clamp(rh, R("0"), R("1"))
        w2 == Sq(Max(wl, R("0.1")))
        alpha == Clamp(Abs(lapse), R("0.001"), R("0.01"))
        optic == wl \leq 100
        g == R("9.784") * (1 - R("0.0026") * Cos(2 * phi) - R("2.8e-7") * hm)
        a == IF optic THEN (R("287.6155") + (R("1.62887") + R("0.01360") / w2) / w2) * (R("273.15e-6") / R("1013.25")) ELSE R("77.6890e-6")
        gamal == (g * R("28.9644")) / R("8314.32")
        gamma == gamal / alpha
        pw == Vapour(t0, pm, rm)
        w == pw * (1 - R("18.0152") / R("28.9644")) * (gamma / (Delta - gamma))
        c1 == a * ((pm + w) / t0)
        c2 == (a * w + (IF optic THEN R("11.2684e-6") ELSE R("6.3938e-6")) * pw) / t0
        c5 == IF optic THEN R("0") ELSE R("0.375463") * (pw / t0)
    IN [ t0 |-> t0, alpha |-> alpha, gm2 |-> gamma - 2, dm2 |-> Delta - 2, gamal |-> gamal,
         c1 |-> c1, c2 |-> c2, c3 |-> (gamma - 1) * alpha * (c1 / t0), c4 |-> (Delta - 1) * alpha * (c2 / t0),
         c5 |-> c5, c6 |-> (c5 * (Delta - 2) * alpha) / Sq(t0), r0 |-> EarthR + hm, rt |-> EarthR + Max(TropoH, hm) ]
\* <<refractive index, r times its derivative, temperature>> at distance r from the centre of the Earth
Tropo(m, r) ==
    LET t == Clamp(m.t0 - m.alpha * (r - m.r0), R("100"), R("320"))
        q == t / m.t0
        qg == Pow(q, m.gm2)
        qd == Pow(q, m.dm2)
    IN << 1 + (m.c1 * qg - (m.c2 - m.c5 / t) * qd) * q, r * ((m.c4 - m.c6 / q) * qd - m.c3 * qg), t >>
Strato(m, tp, r) ==
    LET b == m.gamal / tp[3] w == (tp[1] - 1) * Exp(-(b * (r - m.rt))) IN << 1 + w, -(r * b * w), tp[3] >>
Integrand(x) == x[2] / (x[1] + x[2])
ZenithAt(sk, r, n) == LET s == sk / (r * n) IN Atan2(s, Sqrt(Max(1 - Sq(s), R("0"))))

(***************************************************************************)
(* Simpson's rule in zenith distance, with 8, 16, 32 ... strips until two  *)
(* successive values agree                                                 *)
(***************************************************************************)
At(m, tp, layer, r) == IF layer = 1 THEN Tropo(m, r) ELSE Strato(m, tp, r)
\* the distance at which n r sin z is the ray's invariant
RECURSIVE Distance(_, _, _, _, _, _)
Distance(m, tp, layer, ww, r, n) ==
    IF n = 0 THEN r ELSE
    LET x == At(m, tp, layer, r) dr == (r * x[1] - ww) / (x[1] + x[2])
    IN IF Abs(dr) > 1 THEN Distance(m, tp, layer, ww, r - dr, n - 1) ELSE r - dr
StripPoint(m, tp, layer, sk, z, r) == LET s == Sin(z) IN IF s > R("1e-20") THEN Distance(m, tp, layer, sk / s, r, 4) ELSE r
RECURSIVE Simpson(_, _, _, _, _, _, _, _, _, _, _, _)
Simpson(m, tp, layer, sk, z0, range, ends, rstart, n, evens, old, tol) ==
    LET h == range / n
        first == n = 8
        points == IF first THEN [ i \in 1..7 |-> i ] ELSE [ i \in 1..(n \div 2) |-> 2 * i - 1 ]
        Step(acc, i) == LET r == StripPoint(m, tp, layer, sk, z0 + h * i, acc[1])
                            f == Integrand(At(m, tp, layer, r))
                        IN IF first /\ i % 2 = 0 THEN << r, acc[2], acc[3] + f >> ELSE << r, acc[2] + f, acc[3] >>
        sums == Fold(Step, << rstart, R("0"), evens >>, points)
        value == h * ((ends + 4 * sums[2] + 2 * sums[3]) / 3)
    IN IF Abs(value - old) > tol /\ n < 16384
       THEN Simpson(m, tp, layer, sk, z0, range, ends, rstart, 2 * n, sums[2] + sums[3], value, tol)
       ELSE value
RefractionIntegral(m, z, eps) ==
    LET tol == Clamp(Abs(eps), R("1e-12"), R("0.1")) / 2
        o == Tropo(m, m.r0)
        sk == o[1] * m.r0 * Sin(z)
        tp == Tropo(m, m.rt)
        zt == ZenithAt(sk, m.rt, tp[1])
        ts == Strato(m, tp, m.rt)
        zts == ZenithAt(sk, m.rt, ts[1])
        rs == EarthR + TopH
        top == Strato(m, tp, rs)
        zs == ZenithAt(sk, rs, top[1])
    IN Simpson(m, tp, 1, sk, z, zt - z, Integrand(o) + Integrand(tp), m.r0, 8, R("0"), R("1"), tol)
       + Simpson(m, tp, 2, sk, zts, zs - zts, Integrand(ts) + Integrand(top), m.rt, 8, R("0"), R("1"), tol)
\* any zenith distance: odd, and held beyond 93 degrees
Wrapped(x) == LET w == Fmod(x, TwoPi) IN IF Abs(w) < Pi THEN w ELSE w - Sgn(x) * TwoPi
RefractionAt(m, zd, eps) == LET z == Wrapped(zd) v == RefractionIntegral(m, Min(Abs(z), R("1.623156204")), eps) IN IF z < 0 THEN -v ELSE v
RefTol(eps, v) == Max(R("1e-12"), Min(Clamp(Abs(eps), R("1e-12"), R("0.1")), R("1e-8")) / 100) + R("1e-11") * Abs(v)
\* a ray that reaches the observer from below the horizon without having passed through the ground
AboveGround(h, zd) == LET z == Min(Abs(Wrapped(zd)), R("1.623156204")) IN z < HalfPi \/ (EarthR + Clamp(h, R("-1000"), TopH)) * Sin(z) > EarthR - 1500
RefroAccept(a, r) ==
    /\ Len(r) = 1
    /\ AboveGround(a[2], a[1]) =>
       LET v == RefractionAt(Atmosphere(a[2], a[3], a[4], a[5], a[6], a[7], a[8]), a[1], a[9]) IN Near(r[1], v, RefTol(a[9], v))
\* perfect agreement where tan Z is 1 and where it is 4
RefcoOf(a) ==
    LET m == Atmosphere(a[1], a[2], a[3], a[4], a[5], a[6], a[7])
        one == RefractionAt(m, Atan2(1, 1), a[8])
        four == RefractionAt(m, Atan2(4, 1), a[8])
    IN << (64 * one - four) / 60, (four - 4 * one) / 60 >>
RefcoAccept(a, r) ==
    LET m == Atmosphere(a[1], a[2], a[3], a[4], a[5], a[6], a[7])
        \* perfect agreement where tan Z is 1 and where it is 4
        one == RefractionAt(m, Atan2(1, 1), a[8])
        four == RefractionAt(m, Atan2(4, 1), a[8])
    IN Len(r) = 2 /\ Near(r[1] + r[2], one, RefTol(a[8], one)) /\ Near(4 * r[1] + 64 * r[2], four, RefTol(a[8], four))

\* << A, B, the size of the terms of A, |beta| >>
RefcoqOf(a) ==
    LET t == Clamp(a[1], R("100"), R("500")) p == Clamp(a[2], R("0"), R("10000")) rh == Clamp(a[3], R("0"), R("1")) w2 == Sq(Max(a[4], R("0.1")))
        optic == a[4] \leq 100
        pw == Vapour(t, p, rh)
        gamma == IF optic THEN ((R("77.53484e-6") + (R("4.39108e-7") + R("3.666e-9") / w2) / w2) * p - R("11.2684e-6") * pw) / t
                 ELSE (R("77.6890e-6") * p - (R("6.3938e-6") - R("0.375463") / t) * pw) / t
        beta == R("4.4474e-6") * t * (IF optic THEN R("1") ELSE 1 - R("0.0074") * pw)
        big == (R("77.7e-6") + R("4.4e-7") / w2 + R("3.7e-9") / Sq(w2)) * (p / t) + R("2e-3") * (Abs(pw) / t)
    IN << gamma * (1 - beta), -(gamma * (beta - gamma / 2)), big, Abs(beta) >>
RefcoqAccept(a, r) ==
    LET w == Tup(RefcoqOf(a)) IN
    /\ Len(r) = 2
    /\ Near(r[1], w[1], R("1e-14") * w[3] * (1 + w[4]))
    /\ Near(r[2], w[2], R("1e-14") * w[3] * (w[4] + w[3]))
\* the refractivity at the observer
Refractivity(t, p, pw, wl) == LET w2 == Sq(Max(wl, R("0.1"))) IN ((R("77.5317e-6") + (R("0.43909e-6") + R("0.00367e-6") / w2) / w2) * p - R("11.2684e-6") * pw) / t
\* << A, B >> at the second wavelength, and how well they can be computed
AtmdspOf(a) ==
    LET same == << a[5], a[6], R("0"), R("0") >>
        t == Clamp(a[1], R("100"), R("500")) p == Clamp(a[2], R("0"), R("10000")) rh == Clamp(a[3], R("0"), R("1"))
        pw == rh * Pow(10, R("0.03477") * t - R("8.7115"))
        one == Refractivity(t, p, pw, a[4])
        two == Refractivity(t, p, pw, a[7])
    IN IF a[4] > 100 \/ a[7] > 100 \/ one \doteq 0 THEN same
       ELSE LET f == two / one
                \* the correction of B, singular where A is exactly the refractivity
                c == IF one \doteq a[5] THEN R("1") ELSE 1 + (one * (one - two)) / (2 * (one - a[5]))
                loss == 1 + (Abs(pw) + p) * (R("1e-4") / (t * Abs(one)))
            IN << a[5] * f, a[6] * f * c, R("1e-14") * loss * Abs(a[5] * f),
                  R("1e-14") * loss * Abs(a[6] * f) * (1 + Abs(c)) * (1 + Abs(one) / Max(Abs(one - a[5]), R("1e-300"))) >>
AtmdspAccept(a, r) == LET w == Tup(AtmdspOf(a)) IN Len(r) = 2 /\ Near(r[1], w[1], w[3]) /\ Near(r[2], w[2], w[4])

(* R02 *)
Deg83 == 83 * D2R
\* observed zenith distance z with z + A tan z + B tan^3 z = zu
RECURSIVE Observed(_, _, _, _, _)
Observed(zu, ra, rb, z, n) ==
    IF n = 0 THEN z ELSE
    LET t == Tan(z) f == z + ra * t + rb * t * Sq(t) - zu d == 1 + (ra + 3 * rb * Sq(t)) * (1 + Sq(t)) IN Observed(zu, ra, rb, z - f / d, n - 1)
LowModel(e) == (R("0.55445") - R("0.01133") * e + R("0.00202") * Sq(e)) / (1 + R("0.28385") * e + R("0.02390") * Sq(e))
\* the refraction, for a place in vacuo
RefzOf(a) ==
    LET zu == a[1]
        z1 == Min(zu, Deg83)
        ref == z1 - Observed(z1, a[2], a[3], z1, 3)
    IN IF zu > Deg83 THEN (ref / LowModel(R("7"))) * LowModel(90 - Min(R("93"), zu / D2R)) ELSE ref
RefzAccept(a, r) ==
    LET full == RefzOf(a)
        t == Tan(Min(a[1], Deg83))
    IN Len(r) = 1 /\ Near(r[1], a[1] - full, R("2e-15") + R("1e-13") * Abs(full) + Pow(Abs(a[2] * t) + Abs(a[3] * t * Sq(t)), 4) * 20 * (1 + Pow(Abs(t), 3)))
\* one Newton step in Cartesian coordinates; the height is not allowed below 0.05
RefvOf(a) ==
    LET x == a[2] y == a[3] z == Max(a[4], R("0.05")) q == Sqrt(Sq(x) + Sq(y)) t == q / z
        wb == a[6] * Sq(t)
        wt == (a[5] + wb) / (1 + (a[5] + 3 * wb) * (1 + Sq(t)))
        d == wt * t
        cd == 1 - Sq(d) / 2
    IN << x * cd * (1 - wt), y * cd * (1 - wt), cd * (z + d * q) + (a[4] - z) >>
RefvAccept(a, r) == Len(r) = 3 /\ NearSeq(r, RefvOf(a), R("1e-15"))
AirmassOf(z) == LET s == 1 / Cos(Min(Abs(z), R("1.52"))) - 1 IN 1 + R("0.9981833") * s - R("0.002875") * Sq(s) - R("0.0008083") * s * Sq(s)
AirmassAccept(a, r) == Len(r) = 1 /\ Near(r[1], AirmassOf(a[1]), R("2e-13"))

RefrOps == { "refro", "refco", "refcoq", "atmdsp", "refz", "refv", "airmas" }
RefrAccept(op, a, r) ==
    CASE op = "refro" -> RefroAccept(a, r)
      [] op = "refco" -> RefcoAccept(a, r)
      [] op = "refcoq" -> RefcoqAccept(a, r)
      [] op = "atmdsp" -> AtmdspAccept(a, r)
      [] op = "refz" -> RefzAccept(a, r)
      [] op = "refv" -> RefvAccept(a, r)
      [] op = "airmas" -> AirmassAccept(a, r)

---------------------------------------------------------------------------
\* a value inside [lo, hi], at either end, or outside
BoundG(k, j, lo, hi) ==
    LET c == RndInt(k, j, 9, 20) IN
    CASE c = 0 -> lo [] c = 1 -> hi [] c = 2 -> lo - (hi - lo) * U(k, j) [] c = 3 -> hi + (hi - lo) * U(k, j) [] OTHER -> Uni(k, j, lo, hi)
ZdG(k, j) ==
    LET c == RndInt(k, j, 9, 20) s == SignG(k, j) IN
    CASE c = 0 -> R("0") [] c = 1 -> s * R("1.623156204") [] c = 2 -> s * Uni(k, j, R("1.623156204"), Pi) [] c = 3 -> Uni(k, j, R("-20"), R("20"))
      [] c \in 4..6 -> s * Uni(k, j, R("1.5"), R("1.63")) [] c = 7 -> s * HalfPi [] c = 8 -> s * TinyG(k, j) [] OTHER -> s * Uni(k, j, R("0"), R("1.6"))
TempG(k, j) == LET c == RndInt(k, j, 8, 8) IN
    CASE c = 0 -> BoundG(k, j, R("100"), R("500")) [] c = 1 -> Uni(k, j, R("100"), R("500")) [] OTHER -> Uni(k, j, R("215"), R("318"))
\* pressure: not so low that the vapour formula has a pole nearby
PressG(k, j) == LET c == RndInt(k, j, 8, 10) IN
    CASE c = 0 -> R("0") [] c = 1 -> Uni(k, j, R("-500"), R("0")) [] c = 2 -> Uni(k, j, R("2000"), R("20000")) [] c = 3 -> IF Chance(k, j + 90, 2) THEN Uni(k, j, R("100"), R("500")) ELSE Pow(10, Uni(k, j, R("-1"), R("2"))) [] OTHER -> Uni(k, j, R("500"), R("1080"))
HumidG(k, j) == LET c == RndInt(k, j, 8, 8) IN CASE c = 0 -> R("0") [] c = 1 -> R("1") [] c = 2 -> BoundG(k, j, R("0"), R("1")) [] OTHER -> U(k, j)
WaveG(k, j) == LET c == RndInt(k, j, 8, 14) IN
    CASE c = 0 -> R("100") [] c = 1 -> NextUp(R("100")) [] c = 2 -> R("0.1") [] c = 3 -> Uni(k, j, R("-1"), R("0.1")) [] c = 4 -> Uni(k, j, R("2"), R("100"))
      [] c \in 5..7 -> 100 * Pow(10, 4 * U(k, j)) [] c = 8 -> Uni(k, j, R("1e6"), R("1e8")) [] OTHER -> Uni(k, j, R("0.2"), R("2.5"))
SiteHG(k, j) == LET c == RndInt(k, j, 8, 12) IN
    CASE c = 0 -> BoundG(k, j, R("-1000"), R("80000")) [] c = 1 -> R("0") [] c = 2 -> Uni(k, j, R("11000"), R("25000")) [] c = 3 -> Pick(k, j, << R("11000"), R("-1000"), R("80000"), R("1e6"), R("-5000") >>) [] OTHER -> Uni(k, j, R("-100"), R("5500"))
\* lapse rate: clear of the value where water vapour and dry air have the same exponent
LapseG(k, j) == LET c == RndInt(k, j, 8, 10) v == CASE c = 0 -> BoundG(k, j, R("0.001"), R("0.01")) [] c = 1 -> -Uni(k, j, R("0.002"), R("0.01")) [] c = 2 -> Uni(k, j, R("0.001"), R("0.01")) [] OTHER -> Uni(k, j, R("0.005"), R("0.008"))
    IN IF Near(Abs(v), R("0.00186"), R("0.0002")) THEN R("0.0065") ELSE v
EpsG(k, j, smooth) == LET c == RndInt(k, j, 8, 20) IN
    CASE c = 0 -> R("-1e-8") [] c = 1 -> R("1") [] c = 2 -> R("0.001") [] c = 3 -> R("1e-6") [] c = 4 -> R("1e-5") [] c = 5 /\ smooth -> R("1e-10") [] OTHER -> R("1e-8")
\* conditions for which the vapour formula is well conditioned
Steady(tk, p, rh) == LET t == Clamp(tk, R("100"), R("500")) q == Clamp(p, R("0"), R("10000")) h == Clamp(rh, R("0"), R("1")) IN q \doteq 0 \/ VapourQuotient(t, q, h) > R("0.05")
\* ... and the air is not so dense or humid that its index falls faster than the Earth curves (rays would be trapped)
DensityLimit(tk) == R("0.015") * Sq(Clamp(tk, R("100"), R("500")))
ConditionsG(k) ==
    LET t == TempG(k, 3)
        p0 == PressG(k, 4)
        p == IF p0 > DensityLimit(t) /\ ~(p0 > 10000 /\ t > 490 /\ WaveG(k, 6) > R("0.3")) THEN DensityLimit(t) * U(k, 14) ELSE p0
        h0 == HumidG(k, 5)
        pc == Clamp(p, R("0"), R("10000"))
        h == IF pc \doteq 0 \/ (p \leq 10000 /\ t < 320 /\ Steady(t, p, h0) /\ Vapour(Clamp(t, R("100"), R("500")), pc, Clamp(h0, R("0"), R("1"))) < 35) THEN h0 ELSE R("0")
    IN << SiteHG(k, 2), t, p, h, WaveG(k, 6), LatG(k, 7), LapseG(k, 8) >>
\* the closed formulae take any density: also dry air beyond the pressure limit
SurfaceG(k) == LET c == ConditionsG(k) IN IF RndInt(k, 15, 9, 8) = 0 THEN << c[1], c[2], Uni(k, 15, R("9990"), R("20000")), R("0"), c[5] >> ELSE c
AbG(k) == LET c == RndInt(k, 2, 9, 8) ra == IF c = 0 THEN R("0") ELSE Uni(k, 2, R("1e-5"), R("4e-4")) IN
    << ra, IF c = 1 THEN R("0") ELSE -ra * Uni(k, 3, R("5e-4"), R("2e-3")) >>
RefrGen(op, k) ==
    CASE op = "refro" ->
            LET z == ZdG(k, 1) c == ConditionsG(k)
                \* below the horizon: a standard atmosphere at a height from which the ray clears the ground
                low == Min(Abs(Wrapped(z)), R("1.623156204")) > HalfPi
                h == IF AboveGround(c[1], z) /\ In(c[1], 0, 25000) THEN c[1] ELSE Uni(k, 10, R("8000"), R("11000"))
                t == 288 - R("0.0065") * Min(h, R("11000")) + Uni(k, 11, R("-10"), R("10"))
                d == << h, t, R("1013") * Exp(-(h / 7600)) * Uni(k, 12, R("0.9"), R("1")), U(k, 13) * R("0.3"), c[5], c[6], R("0.0065") >>
            IN << z >> \o (IF low THEN d ELSE c) \o << EpsG(k, 9, TRUE) >>
      [] op = "refco" -> ConditionsG(k) \o << EpsG(k, 9, TRUE) >>
      [] op = "refcoq" -> LET c == SurfaceG(k) IN << c[2], c[3], c[4], c[5] >>
      [] op = "atmdsp" -> LET c == SurfaceG(k) ab == AbG(k) IN << c[2], c[3], c[4], c[5], ab[1], ab[2], IF RndInt(k, 9, 9, 4) = 0 THEN c[5] ELSE WaveG(k, 9) >>
      [] op = "refz" -> LET c == RndInt(k, 1, 9, 16) IN
            << (CASE c = 0 -> R("0") [] c = 1 -> Deg83 [] c = 2 -> NextUp(Deg83) [] c = 3 -> NextDown(Deg83) [] c = 4 -> 93 * D2R [] c = 5 -> 90 * D2R
                  [] c = 6 -> Deg83 + TinyG(k, 1) [] c = 7 -> 93 * D2R + TinyG(k, 1) [] c = 8 -> -Uni(k, 1, R("0"), Deg83) [] c = 9 -> Uni(k, 1, 93 * D2R, Pi)
                  [] c \in 10..12 -> Uni(k, 1, Deg83, 94 * D2R) [] OTHER -> Uni(k, 1, R("0"), Deg83)) >> \o AbG(k)
      [] op = "refv" -> << RndInt(k, 0, 9, 2) >> \o (LET c == RndInt(k, 1, 9, 6) az == AngleG(k, 4) IN
            CASE c = 0 -> Dir(az, HalfPi) [] c = 1 -> Dir(az, Asin(R("0.05")) + TinyG(k, 5)) [] c = 2 -> Dir(az, Uni(k, 5, R("-0.3"), R("0.1"))) [] c = 3 -> IF Chance(k, 6, 3) THEN Dir(az, R("0")) ELSE Dir(az, Uni(k, 5, -HalfPi, R("0"))) [] OTHER -> Dir(az, Uni(k, 5, R("0"), HalfPi))) \o AbG(k)
      [] op = "airmas" -> << LET c == RndInt(k, 1, 9, 8) s == SignG(k, 1) IN
            CASE c = 0 -> R("0") [] c = 1 -> s * R("1.52") [] c = 2 -> s * (R("1.52") + TinyG(k, 1)) [] c = 3 -> s * Uni(k, 1, R("1.52"), R("10")) [] c = 4 -> s * HalfPi [] OTHER -> s * Uni(k, 1, R("0"), R("1.6")) >>
RefrDirected(op) ==
    CASE op = "airmas" -> [ i \in 1..41 |-> << (i - 21) * R("0.08") >> ]
      [] op = "refz" -> [ i \in 1..60 |-> << (i + 38) * D2R + (IF i > 56 THEN R("0.3") ELSE R("0")), R("2.9e-4"), R("-3.3e-7") >> ]
      [] op = "refv" -> [ i \in 1..60 |-> << i % 2 >> \o Dir(i * R("0.7"), (i - 8) * R("0.028")) \o << R("2.9e-4"), R("-3.3e-7") >> ]
      [] op = "refro" -> [ i \in 1..40 |-> << (i - 2) * R("0.0425"), R("2000"), R("280"), R("790"), R("0.5"), IF i % 2 = 0 THEN R("0.55") ELSE R("3000"), R("0.5"), R("0.0065"), R("1e-9") >> ]
      [] OTHER -> << >>
RefrNoMix == { "refv", "refco", "refro", "refcoq", "atmdsp" }
=============================================================================
