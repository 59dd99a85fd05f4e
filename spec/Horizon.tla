------------------------------- MODULE Horizon ------------------------------
(***************************************************************************)
(* H01 equatorial/horizon coordinates, H02 mount rates and hour-angle      *)
(* solutions.                                                              *)
(***************************************************************************)
EXTENDS Vectors

\* north, east, up components of the direction with the given hour angle and declination at latitude f
Horizon(h, d, f) == << Sin(d) * Cos(f) - Cos(d) * Cos(h) * Sin(f), -(Cos(d) * Sin(h)), Sin(d) * Sin(f) + Cos(d) * Cos(h) * Cos(f) >>
HorizonD1(h, d, f) == << Cos(d) * Sin(h) * Sin(f), -(Cos(d) * Cos(h)), -(Cos(d) * Sin(h) * Cos(f)) >>
HorizonD2(h, d, f) == << Cos(d) * Cos(h) * Sin(f), Cos(d) * Sin(h), -(Cos(d) * Cos(h) * Cos(f)) >>
\* the zenith as seen from the star: east (increasing hour angle reversed) and north components
Vertical(h, d, f) == << Sin(h) * Cos(f), Cos(d) * Sin(f) - Cos(h) * Sin(d) * Cos(f) >>
VerticalD1(h, d, f) == << Cos(h) * Cos(f), Sin(h) * Sin(d) * Cos(f) >>
VerticalD2(h, d, f) == << -(Sin(h) * Cos(f)), Cos(h) * Sin(d) * Cos(f) >>

HzTol(op) == IF op \in { "e2h", "h2e" } THEN R("2e-6") ELSE R("6e-15")
HzEps(op) == IF op \in { "e2h", "h2e" } THEN R("2.4e-7") ELSE R("7e-16")
AzElAccept(op, a, az, el) ==
    LET w == Horizon(a[1], a[2], a[3]) IN
    /\ In(az, 0, TwoPi * (1 + HzEps(op))) /\ Abs(el) \leq HalfPi * (1 + HzEps(op))
    /\ SameDir(Dir(az, el), w, HzTol(op))
    \* on the meridian, in the zenith or nadir too: north is 0
    /\ (a[1] \doteq 0) => Near(az, 0, HzTol(op)) \/ Near(az, Pi, HzTol(op))
HaDecAccept(op, a, r) ==
    /\ Len(r) = 2
    /\ Abs(r[1]) \leq Pi * (1 + HzEps(op)) /\ Abs(r[2]) \leq HalfPi * (1 + HzEps(op))
    \* seen from the other side: the horizon direction of the answer is the given one
    /\ SameDir(Horizon(r[1], r[2], a[3]), Dir(a[1], a[2]), 2 * HzTol(op))
    \* on the meridian, at the poles too
    /\ (a[1] \doteq 0) => Near(r[1], 0, HzTol(op)) \/ Near(Abs(r[1]), Pi, HzTol(op))
ZdAccept(a, r) == Len(r) = 1 /\ In(r[1], 0, Pi) /\ Near(r[1], Angle(Horizon(a[1], a[2], a[3]), << 0, 0, 1 >>), R("6e-15"))
PaAccept(a, r) == /\ Len(r) = 1 /\ Abs(r[1]) \leq Pi
                  /\ LET v == Vertical(a[1], a[2], a[3]) IN
                     IF v[1] \doteq 0 /\ v[2] \doteq 0 THEN r[1] \doteq 0 ELSE BearingNear(r[1], v[1], v[2], R("6e-15"))

\* first and second derivatives of atan2(y, x), given those of x and y
AngleRate(y, x, y1, x1) == (x * y1 - y * x1) / (x * x + y * y)
AngleAccel(y, x, y1, x1, y2, x2) ==
    LET q == x * x + y * y IN ((x * y2 - y * x2) / q) - 2 * (x * y1 - y * x1) * ((x * x1 + y * y1) / (q * q))
MountAccept(a, r) ==
    LET p == Horizon(a[1], a[2], a[3]) p1 == HorizonD1(a[1], a[2], a[3]) p2 == HorizonD2(a[1], a[2], a[3])
        v == Vertical(a[1], a[2], a[3]) v1 == VerticalD1(a[1], a[2], a[3]) v2 == VerticalD2(a[1], a[2], a[3])
        c2 == Sq(p[1]) + Sq(p[2])
        c == Sqrt(c2)
        t1 == R("6e-14") / c2
        t2 == R("3e-13") / (c2 * c2)
    IN /\ Len(r) = 9 /\ AllFinite(r)
       /\ AzElAccept("altaz", a, r[1], r[4])
       /\ IF v[1] \doteq 0 /\ v[2] \doteq 0 THEN Near(r[7], 0, R("6e-15")) \/ Near(Abs(r[7]), Pi - a[1], R("6e-15"))     \* in the zenith: as reached along the meridian
          ELSE BearingNear(r[7], v[1], v[2], R("6e-15"))
       /\ c > R("1e-13") =>
          /\ Near(r[2], AngleRate(p[2], p[1], p1[2], p1[1]), t1)
          /\ Near(r[5], p1[3] / c, t1)
          /\ Near(r[8], AngleRate(v[1], v[2], v1[1], v1[2]), t1)
          /\ Near(r[3], AngleAccel(p[2], p[1], p1[2], p1[1], p2[2], p2[1]), t2)
          /\ Near(r[6], (p2[3] / c) + p[3] * (Sq(p1[3]) / (c * c2)), t2)
          /\ Near(r[9], AngleAccel(v[1], v[2], v1[1], v1[2], v2[1], v2[2]), t2)

(* hour angles h with  s sin h + t cos h = u  that also satisfy G(h) > 0    *)
SolutionsAccept(s, t, u, Ahead(_), Across(_), r) ==
    LET rr == Sqrt(s * s + t * t)
        g == Sqrt(Max(0, rr * rr - u * u))         \* how fast the condition changes at a solution
        p == Atan2(g, u)                            \* cos(h - d) = u / rr, with d the direction of (t, s)
        d == Atan2(s, t)
        sols == << d + p, d - p >>
        given == << << r[1], r[2] >>, << r[3], r[4] >> >>
        tol == R("2e-11") / g + R("1e-12")
        Found(h) == \E i \in 1..2 : given[i][2] /\ NearAngle(given[i][1], h, tol)
        \* on the meridian, the zenith and nadir are not clear within 3 degrees
        Clear(h) == IF Abs(Sin(h)) < R("1e-9") THEN R("0.05") ELSE R("1e-5")
    IN /\ Len(r) = 4 /\ Finite(r[1]) /\ Finite(r[3])
       \* what is returned as valid is a solution
       /\ \A i \in 1..2 : given[i][2] => /\ Abs(given[i][1]) \leq Pi * (1 + R("1e-15"))
                                         /\ Abs(Across(given[i][1])) \leq R("2e-11")
                                         /\ Ahead(given[i][1]) > -Clear(given[i][1])
       \* no solutions, none returned
       /\ Abs(u) > rr + R("1e-10") => ~r[2] /\ ~r[4]
       \* clear solutions are returned
       /\ (Abs(u) < rr /\ g > R("1e-5")) =>
          \A i \in 1..2 : Ahead(sols[i]) > Clear(sols[i]) => Found(sols[i])
AzimuthAccept(f, d, z, r) ==
    LET Ahead(h) == LET w == Horizon(h, d, f) IN w[1] * Cos(z) + w[2] * Sin(z)
        Across(h) == LET w == Horizon(h, d, f) IN w[1] * Sin(z) - w[2] * Cos(z)
    IN SolutionsAccept(Cos(d) * Cos(z), -(Cos(d) * Sin(f) * Sin(z)), -(Sin(d) * Cos(f) * Sin(z)), Ahead, Across, r)
ParallacticAccept(f, d, q, r) ==
    LET Ahead(h) == LET w == Vertical(h, d, f) IN w[2] * Cos(q) + w[1] * Sin(q)
        Across(h) == LET w == Vertical(h, d, f) IN w[2] * Sin(q) - w[1] * Cos(q)
    IN SolutionsAccept(Cos(f) * Cos(q), Sin(d) * Cos(f) * Sin(q), Cos(d) * Sin(f) * Sin(q), Ahead, Across, r)

HorizonOps == { "e2h", "de2h", "h2e", "dh2e", "zd", "pa", "altaz", "pda2h", "pdq2h" }
HorizonAccept(op, a, r) ==
    CASE op \in { "e2h", "de2h" } -> Len(r) = 2 /\ AzElAccept(op, a, r[1], r[2])
      [] op \in { "h2e", "dh2e" } -> HaDecAccept(op, a, r)
      [] op = "zd" -> ZdAccept(a, r)
      [] op = "pa" -> PaAccept(a, r)
      [] op = "altaz" -> MountAccept(a, r)
      [] op = "pda2h" -> AzimuthAccept(a[1], a[2], a[3], r)
      [] op = "pdq2h" -> ParallacticAccept(a[1], a[2], a[3], r)

---------------------------------------------------------------------------
\* hour angle, declination, latitude; sometimes at or near the zenith, the nadir or a pole
HdfG(k) == LET f == LatG(k, 3) c == RndInt(k, 1, 9, 10) IN
    CASE c = 0 -> << R("0"), f, f >> [] c = 1 -> << TinyG(k, 1), f + TinyG(k, 2), f >> [] c = 2 -> << Pi, -f, f >> [] c = 3 -> << AngleG(k, 1), SignG(k, 4) * HalfPi, f >>
      [] c = 4 -> << AngleG(k, 1), LatG(k, 2), SignG(k, 4) * HalfPi >> [] c = 5 -> << (RndInt(k, 5, 5, 5) - 2) * HalfPi, LatG(k, 2), f >>
      [] OTHER -> << AngleG(k, 1), LatG(k, 2), f >>
\* latitude, declination and an azimuth or parallactic angle that usually has solutions
FdzG(op, k) == LET f == PlainLatG(k, 1) d == Pick(k, 4, << PlainLatG(k, 2), PlainLatG(k, 2), f, -f, PlainLatG(k, 2) / 4 >>) c == RndInt(k, 1, 9, 4) h == AngleG(k, 5) IN
    << f, IF RndInt(k, 1, 12, 12) = 0 /\ Abs(d) < R("1.4") THEN d + SignG(k, 12) * TwoPi ELSE d, IF c < 2 THEN AngleG(k, 3)
             ELSE IF op = "pda2h" THEN LET w == Horizon(h, d, f) IN Atan2(w[2], w[1])
             ELSE LET w == Vertical(h, d, f) IN Atan2(w[1], w[2]) >>
HorizonGen(op, k) ==
    CASE op \in { "h2e", "dh2e" } -> << AngleG(k, 1), LatG(k, 2), LatG(k, 3) >>
      [] op \in { "pda2h", "pdq2h" } -> FdzG(op, k)
      [] OTHER -> HdfG(k)
HorizonDirected(op) ==
    IF op \in { "pda2h", "pdq2h" }
    THEN [ i \in 1..405 |-> LET p == i - 1 IN << ((p % 5) - 2) * (HalfPi / 2), (((p \div 5) % 9) - 4) * (Pi / 8), (((p \div 45) % 9) - 4) * QuarterPi >> ]
    ELSE [ i \in 1..225 |-> LET p == i - 1 IN << (((p \div 25) % 9) - 4) * QuarterPi, ((p % 5) - 2) * QuarterPi, (((p \div 5) % 5) - 2) * QuarterPi >> ]
HorizonNoMix == {}
=============================================================================
