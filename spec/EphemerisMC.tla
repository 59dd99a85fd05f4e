----------------------------- MODULE EphemerisMC ----------------------------
(***************************************************************************)
(* The Earth and the Moon followed from date to date.  Each series is      *)
(* evaluated on its own; here the quantities it gives are held against     *)
(* each other: velocities against the changes of the positions, the three  *)
(* Earths and the two Moons against one another within the accuracies      *)
(* their documentation states, and all of them against the shapes of the   *)
(* orbits.                                                                 *)
(***************************************************************************)
EXTENDS Moon, Calendar
VARIABLES c, n          \* civil date at 0h; steps taken
vars == << c, n >>
Deep == Param("tier") = "thorough"
Years == IF Deep THEN 1950..2049 ELSE { 1950 + 11 * k : k \in 0..9 }
Stride == IF Deep THEN 5 ELSE 7
RECURSIVE After(_, _)
After(x, k) == IF k = 0 THEN x ELSE After(Tomorrow(x), k - 1)
Init == \E y \in Years : c = [y |-> y, m |-> 1, d |-> 1] /\ n = 0
Next == n < 365 \div Stride /\ n' = n + 1 /\ c' = After(c, Stride)
Spec == Init /\ [][Next]_vars
mjd == R(DayNumber(c.y, c.m, c.d))
DayInYear == 1 + DayNumber(c.y, c.m, c.d) - DayNumber(c.y, 1, 1)
H == R("0.01")
Rate(F(_), i) == LET a == F(mjd + H) b == F(mjd - H) IN Tup([ k \in 1..3 |-> (a[i][k] - b[i][k]) / (2 * H) ])
Diff(a, b) == Norm(Minus3(a, b))
Day == R("86400")
AU == R("149597870.66")       \* km
ToFK5 == PrecessionMatrix(Iau1976, 2000 + (mjd - R("51544.5")) / R("365.25"), R("2000"))
\* the Moon's two forms as << position, velocity (per second) >>
Full(t) == LET w == FullMoon(t) IN << V3(w, 1), V3(w, 4) >>
Short(t) == LET w == ShortMoon(c.y, DayInYear, t - mjd) IN << V3(w, 1), V3(w, 4) >>
Rough(t) == LET w == RoughEarth(c.y, DayInYear, t - mjd) IN << V3(w, 1), V3(w, 4) >>

Earth1 == LET p == Tup(PreciseEarth(mjd)) s == Tup(StumpffEarth(mjd)) r == Tup(Rough(mjd)) IN
    \* velocities are the changes of the positions
    /\ Diff(Rate(PreciseEarth, 1), p[2]) < R("1e-9") /\ Diff(Rate(PreciseEarth, 3), p[4]) < R("1e-9")
    /\ Diff(Rate(StumpffEarth, 2), Scaled(Day, s[1])) < R("1e-6") /\ Diff(Rate(StumpffEarth, 4), Scaled(Day, s[3])) < R("1e-6")
    /\ Diff(Rate(Rough, 1), Scaled(Day, r[2])) < R("1e-6")
    \* the orbit: distance, speed, the Sun near the barycentre, the Earth near the ecliptic
    /\ In(Norm(p[1]), R("0.983"), R("1.017")) /\ In(Norm(p[2]), R("0.0169"), R("0.0175"))
    /\ Diff(p[1], p[3]) < R("0.0102") /\ Diff(p[2], p[4]) < R("1e-5")
    /\ Abs(Dot(p[1], << R("0"), R("-0.397777"), R("0.917482") >>)) < R("2e-4")
    \* the simpler forms: their documented accuracies (stated against other theories, so a little more here)
    /\ Diff(MatVec(ToFK5, s[2]), p[3]) < R("10500") / AU /\ Diff(MatVec(ToFK5, s[4]), p[1]) < R("2200") / AU
    /\ Diff(Scaled(Day, MatVec(ToFK5, s[1])), p[4]) < (R("5.5e-4") * Day) / AU /\ Diff(Scaled(Day, MatVec(ToFK5, s[3])), p[2]) < (R("5.5e-4") * Day) / AU
    /\ Diff(MatVec(ToFK5, r[1]), p[1]) < R("14e-5") /\ Diff(MatVec(ToFK5, r[2]), Scaled(1 / Day, p[2])) < R("48e-10")
Moon1 == LET f == Tup(Full(mjd)) s == Tup(Short(mjd)) IN
    /\ Diff(Rate(Full, 1), Scaled(Day, f[2])) < R("1e-9") /\ Diff(Rate(Short, 1), Scaled(Day, s[2])) < R("1e-9")
    /\ In(Norm(f[1]) * AU, R("356000"), R("407000"))
    /\ Angle(f[1], s[1]) < R("45") * AS2R /\ Abs(Norm(f[1]) - Norm(s[1])) * AU < 1300
    /\ Diff(f[2], s[2]) * AU < R("0.008")
    \* within five and a half degrees of the ecliptic
    /\ Abs(Dot(Unit(f[1]), << R("0"), R("-0.3978"), R("0.9175") >>)) < R("0.094")
    /\ Diff(f[1], s[1]) * AU < 1300
=============================================================================
