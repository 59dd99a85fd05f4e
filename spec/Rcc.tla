--------------------------------- MODULE Rcc --------------------------------
(***************************************************************************)
(* T03: TDB - TT after Fairhead & Bretagnon, Moyer and Murray.             *)
(***************************************************************************)
EXTENDS Common

\* amplitude (s), frequency (radians per millennium), phase, power of t
FbTable == Table("rcc.tbl")
Power(t, n) == CASE n = 0 -> R("1") [] n = 1 -> t [] n = 2 -> t * t [] n = 3 -> t * t * t [] n = 4 -> t * t * t * t
Fairhead(t) ==
    LET p == Tup([ n \in 1..5 |-> Power(t, n - 1) ])
    IN Sum([ i \in 1..Len(FbTable) |-> LET w == FbTable[i] IN w[1] * p[w[4] + 1] * Sin(w[2] * t + w[3]) ])
MassTerms(t) == R("0.00065e-6") * Sin(R("6069.776754") * t + R("4.021194")) + R("0.00033e-6") * Sin(R("213.299095") * t + R("5.543132"))
    - R("0.00196e-6") * Sin(R("6208.294251") * t + R("5.696701")) - R("0.00173e-6") * Sin(R("74.781599") * t + R("2.435900"))
    + R("0.03638e-6") * t * t
\* mean longitudes and anomalies: degrees, and arcseconds per millennium
MeanAngle(deg, rate, t) == Fmod(deg + rate * (t / 3600), R("360")) * D2R
Topocentric(t, ut, wl, u, v) ==
    LET h == Fmod(ut, R("1")) * TwoPi - wl
        sun == MeanAngle(R("280.46645683"), R("1296027711.03429"), t)
        anom == MeanAngle(R("357.52910918"), R("1295965810.481"), t)
        moon == MeanAngle(R("297.85019547"), R("16029616012.09"), t)
        jup == MeanAngle(R("34.35151874"), R("109306899.89453"), t)
        sat == MeanAngle(R("50.0774443"), R("44046398.47038"), t)
    IN R("1e-10") * (u * (R("0.00029") * Sin(h + sun - sat) + R("0.001") * Sin(h - 2 * anom) + R("0.00133") * Sin(h - moon)
                          + R("0.00133") * Sin(h + sun - jup) - R("0.00229") * Sin(h + 2 * sun + anom) + R("0.05312") * Sin(h - anom)
                          - R("0.13677") * Sin(h + 2 * sun) + R("3.17679") * Sin(h))
                     - v * (R("0.022") * Cos(sun + anom) + R("1.3184") * Cos(sun)))
RccAccept(op, a, r) ==
    LET t == (a[1] - R("51544.5")) / R("365250")
        s == Abs(t)
        tol == R("2e-15") * (1 + 5 * s) * (1 + s / 10 + Sq(Sq(s / 4))) + (Abs(a[4]) + Abs(a[5])) * (R("4e-24") + R("2e-20") * s) + R("1e-22") * Abs(a[3])
    IN Len(r) = 1 /\ Near(r[1], Fairhead(t) + MassTerms(t) + Topocentric(t, a[2], a[3], a[4], a[5]), tol)

RccOps == { "rcc" }
---------------------------------------------------------------------------
RccGen(op, k) ==
    LET c == RndInt(k, 1, 9, 4) IN
    << IF c = 0 THEN Uni(k, 1, R("-1.8e6"), R("1.9e6")) ELSE MjdG(k, 1),
       Pick(k, 2, << U(k, 2), R("0"), R("0.5"), U(k, 2) * 5 - 2, MjdG(k, 2) >>), AngleG(k, 3),
       Pick(k, 4, << R("0"), U(k, 4) * R("6379"), U(k, 4) * R("6379") >>), Pick(k, 5, << R("0"), Uni(k, 5, R("-6358"), R("6358")), Uni(k, 5, R("-6358"), R("6358")) >>) >>
RccDirected(op) == [ i \in 1..40 |-> << R(40000 + 600 * i), R("0.25"), R("1"), R("5000"), R("3000") >> ]
RccNoMix == {}
=============================================================================
