----------------------------- MODULE NutationMC ----------------------------
(***************************************************************************)
(* The pole and the clocks followed day after day for decades.  Nutation   *)
(* stays within its bounds and moves steadily, its two models agree, its   *)
(* main term is that of the node; the difference between the coordinate    *)
(* and the terrestrial time is the annual term and little else, repeats    *)
(* with the day for a site, and vanishes in part at the geocentre.  What   *)
(* the acceptance relations of E02 and T03 admit is this and no other.     *)
(***************************************************************************)
EXTENDS Precession, Rcc
VARIABLES start, day, was
vars == << start, day, was >>
Deep == Param("tier") = "thorough"
Steps == IF Deep THEN 370 ELSE 50
Stride == IF Deep THEN 5 ELSE 8
\* where histories of five years begin
Begins == { 15020 + 1826 * k : k \in 0..(IF Deep THEN 39 ELSE 19) }
Mjd(d) == R(start + d) + R("0.25")
TdbTt(mjd, ut, wl, u, v) == LET t == (mjd - R("51544.5")) / R("365250") IN Fairhead(t) + MassTerms(t) + Topocentric(t, ut, wl, u, v)
Look(d) == LET n == Nutation(Mjd(d)) IN << n[1], n[2], TdbTt(Mjd(d), R("0.25"), 0, 0, 0) >>
Seen(x) == [ i \in 1..3 |-> Floor(x[i] * (IF i = 3 THEN R("1e9") ELSE R("1e6") / AS2R)) ]        \* microarcseconds and nanoseconds
Init == start \in Begins /\ day = 0 /\ was = Seen(Look(0))
Next == day < Steps /\ day' = day + 1 /\ was' = Seen(Look((day + 1) * Stride)) /\ UNCHANGED start
Spec == Init /\ [][Next]_vars
mjd == Mjd(day * Stride)
t == Centuries(mjd)
n == Nutation(mjd)
o == Nutation80(mjd)
as(x) == x / AS2R
node == Nut80Arg(5, t)
sun == Nut80Arg(3, t) + node - Nut80Arg(4, t)
Bounds == LET a == Tup(n) IN
    /\ Abs(as(a[1])) < R("19.5") + R("0.3") * Abs(t) /\ Abs(as(a[2])) < R("10.4") + R("0.03") * Abs(t)
    \* the node, the year and the half month
    /\ Abs(as(a[1]) + R("17.2") * Sin(node) + R("1.32") * Sin(2 * sun)) < R("0.75") + R("0.3") * Abs(t)
    /\ Abs(as(a[2]) - R("9.2") * Cos(node) - R("0.57") * Cos(2 * sun)) < R("0.3") + R("0.03") * Abs(t)
Models == LET a == Tup(n) b == Tup(o) IN
    \* corrected for what precession has of the observed offsets
    /\ Abs(as(a[1]) - as(b[1]) + R("0.042888") + R("0.29856") * t) < R("0.02")
    /\ Abs(as(a[2]) - as(b[2]) + R("0.005171") + R("0.02408") * t) < R("0.008")
    /\ Abs(as(a[3]) - as(b[3]) + R("0.036")) < R("0.02")
Steady == [][ Abs(was'[1] - was[1]) < 160000 * Stride /\ Abs(was'[2] - was[2]) < 85000 * Stride /\ Abs(was'[3] - was[3]) < 30500 * Stride ]_vars
Matrix == LET a == Tup(n) m == Tup(NutationMatrix(a)) c == Cos(a[3]) s == Sin(a[3]) second == R("1e-8") IN
    /\ IsRotation(m, R("1e-15"))
    \* small angles: the true frame is turned by the nutation about the ecliptic's pole, and in obliquity about the equinox
    /\ NearSeq(m, << R("1"), -(a[1] * c), -(a[1] * s), a[1] * c, R("1"), -a[2], a[1] * s, a[2], R("1") >>, second)
    \* the pole of the ecliptic keeps its distance from the equinox; the new obliquity
    /\ Near(MatVec(m, << 0, -s, c >>)[1], 0, R("1e-15")) /\ Near(Atan2(-MatVec(m, << 0, -s, c >>)[2], MatVec(m, << 0, -s, c >>)[3]), a[3] + a[2], R("1e-15"))
    /\ NutMatrixAccept(mjd, m) /\ ~NutMatrixAccept(mjd, Transpose(m)) /\ ~NutMatrixAccept(mjd, MatMat(FrameRot(3, R("1e-12")), m))
    /\ LET p == PrecNutMatrix(R("2000"), mjd) IN
       /\ PrecNutAccept(<< R("2000"), mjd >>, p)
       /\ ~PrecNutAccept(<< R("2000"), mjd >>, MatMat(FrameRot(1, R("1e-11")), p)) /\ ~PrecNutAccept(<< R("2000"), mjd >>, Transpose(p))
       /\ NearSeq(MatMat(p, PrecessionMatrix(Iau1976, R("1950"), R("2000"))), PrecNutMatrix(R("1950"), mjd), R("2e-9"))
Angles == LET a == Tup(n) b == Tup(o) IN
    /\ PrecAccept("nutc", << mjd >>, a) /\ PrecAccept("nutc80", << mjd >>, b)
    /\ \A i \in 1..3 : ~PrecAccept("nutc", << mjd >>, [ a EXCEPT ![i] = @ + R("1e-12") ]) /\ ~PrecAccept("nutc80", << mjd >>, [ b EXCEPT ![i] = @ + R("1e-12") ])
    /\ ~PrecAccept("nutc", << mjd >>, b)
    /\ Near(EquationOfEquinoxes(mjd), a[1] * Cos(a[3]), R("0.0028") * AS2R)
    /\ PrecAccept("eqeqx", << mjd >>, << EquationOfEquinoxes(mjd) >>) /\ ~PrecAccept("eqeqx", << mjd >>, << a[1] * Cos(a[3]) + R("0.0028") * AS2R >>)
Clocks == LET x == TdbTt(mjd, R("0.3"), R("0.5"), R("5000"), R("4000")) y == TdbTt(mjd, 0, 0, 0, 0) g == Nut80Arg(2, t)
              m == t / 10 args == << mjd, R("0.3"), R("0.5"), R("5000"), R("4000") >> IN
    /\ Abs(y - R("0.001657") * Sin(g)) < R("8e-5") /\ Abs(y) < R("0.0018")
    /\ Abs(x - y) < R("2.8e-6")
    /\ Near(x, TdbTt(mjd, R("7.3"), R("0.5"), R("5000"), R("4000")), R("1e-18"))                                       \* a week of days
    /\ Near(x, TdbTt(mjd, R("0.3") - R("0.5") / TwoPi, 0, R("5000"), R("4000")), R("1e-18"))                            \* the same local time
    /\ Near(Topocentric(m, R("0.1"), 0, R("5000"), 0) + Topocentric(m, R("0.6"), 0, R("5000"), 0), 0, R("1e-15"))       \* half a day apart
    /\ RccAccept("rcc", args, << x >>) /\ ~RccAccept("rcc", args, << y >>) /\ ~RccAccept("rcc", args, << x + R("1e-13") >>)
    /\ ~RccAccept("rcc", [ args EXCEPT ![2] = R("0.31") ], << x >>) /\ ~RccAccept("rcc", [ args EXCEPT ![3] = R("0.51") ], << x >>)
=============================================================================
