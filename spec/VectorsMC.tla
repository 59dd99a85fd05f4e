------------------------------ MODULE VectorsMC -----------------------------
(***************************************************************************)
(* A body turns by the rotations of Vectors.tla, one after the other, and  *)
(* a traveller walks along a great circle.  Axial vectors, matrices and    *)
(* Euler angles describe the same orientation whatever the path; spherical *)
(* and Cartesian positions with their rates describe the same motion; the  *)
(* separation and bearings of the traveller are the distance walked and    *)
(* the heading.  The acceptance relations admit these and nothing else.    *)
(***************************************************************************)
EXTENDS Vectors
VARIABLES mode, seed, path
vars == << mode, seed, path >>
Deep == Param("tier") = "thorough"
MaxTurns == IF Deep THEN 4 ELSE 3
MaxSteps == IF Deep THEN 36 ELSE 12
\* turns about the three axes and about one that is none of them (degrees)
Moves == { << "X", 90 >>, << "Y", 90 >>, << "Z", -90 >>, << "Z", 31 >>, << "x", -17 >>, << "2", 140 >>, << "A", 1 >>, << "A", -2 >> }
Starts == { << lo, la, az >> : lo \in { 0, 63, 180, 302 }, la \in { -90, -71, 0, 40, 90 }, az \in { -150, -90, 0, 25, 90, 180 } }
Init == \/ mode = "turn" /\ seed = << 0, 0, 0 >> /\ path = << >>
        \/ mode = "walk" /\ seed \in Starts /\ path = << 0 >>
Next == /\ UNCHANGED << mode, seed >>
        /\ \/ mode = "turn" /\ Len(path) < MaxTurns /\ \E m \in Moves : path' = Append(path, m)
           \/ mode = "walk" /\ path[1] < MaxSteps /\ path' = << path[1] + 1 >>
Spec == Init /\ [][Next]_vars
---------------------------------------------------------------------------
(* turning *)
SkewAxis == << R("0.9"), R("-0.4"), R("0.7") >>
Axial(m) == IF m[1] = "A" THEN Scaled(R(m[2]), SkewAxis) ELSE LET k == AxisOf(m[1]) IN [ i \in 1..3 |-> IF i = k THEN m[2] * D2R ELSE R("0") ]
RECURSIVE Turns(_)
Turns(n) == IF n = 0 THEN Identity ELSE Tup(MatMat(AxisRotation(Axial(path[n])), Turns(n - 1)))
here == Turns(Len(path))
\* the same vectors with the components of the body
Fixed == << R("0.6"), R("-1.1"), R("0.35") >>
Reorient == mode = "turn" =>
    /\ IsRotation(here, R("1e-14"))
    \* lengths, angles and handedness stay
    /\ LET a == Tup(MatVec(here, Fixed)) b == Tup(MatVec(here, SkewAxis)) IN
       /\ Near(Dot(a, b), Dot(Fixed, SkewAxis), R("1e-14")) /\ NearSeq(Cross(a, b), MatVec(here, Cross(Fixed, SkewAxis)), R("1e-14"))
       /\ NearSeq(TMatVec(here, a), Fixed, R("1e-14"))
       /\ SepAccept("dsepv", a, b, << Angle(Fixed, SkewAxis) >>) /\ ~SepAccept("dsepv", a, b, << Angle(Fixed, SkewAxis) + R("1e-13") >>)
    \* a turn about an axis the body has turned along with it: conjugation
    /\ \A m \in Moves : NearSeq(MatMat(here, MatMat(AxisRotation(Axial(m)), Transpose(here))), AxisRotation(MatVec(here, Axial(m))), R("2e-14"))
    \* going back by the same turns in reverse
    /\ Len(path) > 0 => NearSeq(MatMat(AxisRotation(Scaled(-1, Axial(path[Len(path)]))), here), Turns(Len(path) - 1), R("1e-14"))
Letters == \A i \in 1..Len(path) : path[i][1] # "A"
RECURSIVE Word(_), Back(_)
Word(n) == IF n = 0 THEN "" ELSE Word(n - 1) \o path[n][1]
Back(n) == IF n = 0 THEN "" ELSE path[n][1] \o Back(n - 1)       \* the same from the last
Ang(n) == IF n > Len(path) THEN R("0.77") ELSE path[n][2] * D2R        \* an unused angle is without effect
Euler == (mode = "turn" /\ Letters /\ Len(path) \leq 3) =>
    LET n == Len(path) a == << Ang(1), Ang(2), Ang(3) >>
        b == << IF n < 1 THEN R("1") ELSE -Ang(n), IF n < 2 THEN R("2") ELSE -Ang(n - 1), IF n < 3 THEN R("3") ELSE -Ang(n - 2) >>
    IN /\ NearSeq(EulerMatrix(Word(n), a), here, R("1e-14"))
       /\ EulerAccept("deuler", Word(n), a, here)
       /\ \A rest \in { "?X", " Z" } : EulerAccept("deuler", Word(n) \o rest, a, here)
       \* axes taken in reverse, by the opposite angles: the inverse
       /\ NearSeq(EulerMatrix(Back(n), b), Transpose(here), R("1e-14"))
       /\ n > 0 => ~EulerAccept("deuler", Word(n), [ a EXCEPT ![n] = @ + R("1e-9") ], here)
\* the axial vector of an orientation: the axis that does not turn, by the angle of the trace; unless (nearly) half a turn
Kept == << here[6] - here[8], here[7] - here[3], here[2] - here[4] >>
Amount == Atan2(Norm(Kept), here[1] + here[5] + here[9] - 1)
AxialOf == mode = "turn" =>
    LET s == Norm(Kept) IN
    IF s < R("1e-3") THEN TRUE
    ELSE LET v == Tup(Scaled(Amount / s, Kept)) IN
         /\ NearSeq(MatVec(here, v), v, R("2e-14") / Min(s, 1))
         /\ NearSeq(AxisRotation(v), here, R("1e-13") / Min(s, 1))
         /\ AxisToMatrix("dav2m", v, AxisRotation(v)) /\ MatrixToAxis("dm2av", AxisRotation(v), v)
         /\ ~MatrixToAxis("dm2av", AxisRotation(v), Scaled(-1, v))
         /\ ~MatrixToAxis("dm2av", AxisRotation(v), Scaled(1 + TwoPi / Norm(v), v))                      \* a whole turn more
         /\ ~AxisToMatrix("dav2m", v, Transpose(AxisRotation(v)))
         /\ ~AxisToMatrix("dav2m", v, [ AxisRotation(v) EXCEPT ![1] = @ + R("1e-13") ])
         /\ \A k \in 2..3 : NearSeq(MatMat(AxisRotation(v), AxisRotation(Scaled(k - 1, v))), AxisRotation(Scaled(k, v)), R("2e-14"))
---------------------------------------------------------------------------
(* walking: seed = longitude, latitude, heading of the start; half a turn in all *)
lon0 == seed[1] * D2R
lat0 == seed[2] * D2R
az == seed[3] * D2R
from == Dir(lon0, lat0)
east == << -Sin(lon0), Cos(lon0), R("0") >>
north == << -(Sin(lat0) * Cos(lon0)), -(Sin(lat0) * Sin(lon0)), Cos(lat0) >>
Ahead == Plus3(Scaled(Sin(az), east), Scaled(Cos(az), north))
Gone == (path[1] * Pi) / MaxSteps
At(d) == Tup(Plus3(Scaled(Cos(d), from), Scaled(Sin(d), Ahead)))
Lon(v) == Atan2(v[2], v[1])
Lat(v) == Atan2(v[3], Norm(<< v[1], v[2], 0 >>))
OffPole(v) == Norm(<< v[1], v[2], 0 >>) > R("1e-3")
Middle == path[1] > 0 /\ path[1] < MaxSteps
Walk == mode = "walk" =>
    LET v == At(Gone) s == << lon0, lat0, Lon(v), Lat(v) >> IN
    /\ SepAccept("dsepv", from, v, << Gone >>) /\ SepAccept("dsep", Dir(s[1], s[2]), Dir(s[3], s[4]), << Gone >>)
    /\ Middle => ~SepAccept("dsep", from, v, << Gone + R("2e-14") >>) /\ ~SepAccept("dsep", from, v, << TwoPi - Gone >>)
    /\ (Middle /\ OffPole(from)) =>
         /\ BearAccept("dbear", s, << az >>) /\ PavAccept("dpav", from, v, << az >>) /\ PavAccept("pav", from, v, << az >>)
         /\ ~BearAccept("dbear", s, << az + R("1e-12") >>) /\ ~BearAccept("dbear", s, << -az + R("0.01") >>) /\ ~PavAccept("dpav", from, v, << az + R("1e-12") >>)
         /\ PavAccept("dpav", Scaled(R("1e20"), from), Scaled(R("1e-20"), v), << az >>)
    \* looking back: half a turn from the heading, and (Clairaut) sin(heading) cos(latitude) is kept
    /\ (Middle /\ OffPole(v)) =>
         LET back == Atan2(EastOf(v, from), NorthOf(v, from)) IN
         /\ Near(-(Sin(back) * Cos(Lat(v))), Sin(az) * Cos(lat0), R("1e-14"))
         /\ BearAccept("dbear", << s[3], s[4], s[1], s[2] >>, << back >>)
    /\ ToVector("dcs2c", << Lon(v), Lat(v) >>, v) /\ ToSpherical("dcc2s", v, << Lon(v), IF Abs(v[3]) < R("1e-16") THEN v[3] ELSE Lat(v) >>)
    /\ OffPole(v) => ~ToSpherical("dcc2s", v, << Lon(v) + TwoPi, Lat(v) >>) /\ ~ToSpherical("dcc2s", v, << Lon(v), Lat(v) + R("1e-14") >>)
\* the traveller rising at a rate while walking at unit speed: position and velocity against finite differences
Height(t) == R("2.5") + R("0.3") * t
Pos(t) == Tup(Scaled(Height(t), At(Gone + t)))
Step == R("1e-4")
Rate(f(_)) == (8 * (f(Step) - f(-Step)) - (f(2 * Step) - f(-(2 * Step)))) / (12 * Step)
Vel == LET x(t) == Pos(t)[1] y(t) == Pos(t)[2] z(t) == Pos(t)[3] IN << Rate(x), Rate(y), Rate(z) >>
\* in spherical terms: the longitude's rate without its jumps
DLon == LET f(t) == LET w == At(Gone + t) c == At(Gone) IN Atan2(c[1] * w[2] - c[2] * w[1], c[1] * w[1] + c[2] * w[2]) IN Rate(f)
DLat == LET f(t) == Lat(At(Gone + t)) IN Rate(f)
Motion == mode = "walk" =>
    LET v == At(Gone) h == Height(0) tangent == Plus3(Scaled(-Sin(Gone), from), Scaled(Cos(Gone), Ahead))
        exact == Tup(Plus3(Scaled(h, tangent), Scaled(R("0.3"), v)))
    IN /\ NearSeq(Vel, exact, R("1e-10"))
       /\ Norm(<< v[1], v[2], 0 >>) > R("0.05") =>
          LET east1 == << -Sin(Lon(v)), Cos(Lon(v)), R("0") >>
              north1 == << -(Sin(Lat(v)) * Cos(Lon(v))), -(Sin(Lat(v)) * Sin(Lon(v))), Cos(Lat(v)) >>
              s == << Lon(v), Lat(v), h, Dot(tangent, east1) / Cos(Lat(v)), Dot(tangent, north1), R("0.3") >>
          IN /\ Near(s[4], DLon, R("1e-7")) /\ Near(s[5], DLat, R("1e-7"))
             /\ NearSeq(PosVel(s), Scaled(h, v) \o exact, R("2e-14"))
             /\ ToPosVel("ds2c6", s, Scaled(h, v) \o exact)
             /\ FromPosVel("dc62s", Scaled(h, v) \o exact, s)
             /\ \A i \in 1..6 : ~FromPosVel("dc62s", Scaled(h, v) \o exact, [ s EXCEPT ![i] = @ + R("1e-11") ])
             /\ \A i \in 1..6 : ~ToPosVel("ds2c6", s, [ (Scaled(h, v) \o exact) EXCEPT ![i] = @ + R("1e-11") ])
=============================================================================
