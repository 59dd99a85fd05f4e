------------------------------ MODULE MotionMC ------------------------------
(***************************************************************************)
(* A star moves in a straight line through space and is observed at one    *)
(* epoch after another.  What an observer derives at each epoch (place,    *)
(* proper motions, parallax, radial velocity, from the Cartesian state) is *)
(* carried on to the next by K01's space motion: however the epochs are    *)
(* visited the star is on its line, and back at the first epoch it is      *)
(* where it was.                                                           *)
(***************************************************************************)
EXTENDS Frames
VARIABLES star, visited
vars == << star, visited >>
Deep == Param("tier") = "thorough"
Nights == IF Deep THEN { 1850, 1950, 1984, 2000, 2100, 2600 } ELSE { 1850, 1984, 2000, 2600 }
Visits == IF Deep THEN 4 ELSE 3
\* longitude, latitude (degrees), motion east and north (arcsec a year), parallax (arcsec / 1000), km/s
Stars == { << lo, la, m, px, rv >> : lo \in { 0, 133, 359 }, la \in { -88, 0, 41 }, m \in { << 0, 0 >>, << 10, -3 >>, << -200, 1000 >> }, px \in { 1, 750 }, rv \in { -300, 0, 80 } }
Init == star \in Stars /\ visited = << 2000 >>
Next == /\ Len(visited) < Visits
        /\ \E e \in Nights \ { visited[Len(visited)] } : visited' = Append(visited, e)
        /\ UNCHANGED star
Spec == Init /\ [][Next]_vars
\* AU (of the definition the library uses) a year in one km/s
Ratio == ((R("365.25") * 86400) / R("149597870")) * (R("4.8481368111e-6") / AS2R)
lo == R(star[1]) * D2R
la == R(star[2]) * D2R
px == R(star[4]) / 1000
\* Cartesian state at 2000, AU and AU a year
Start ==
    LET u == Dir(lo, la) d == 1 / (px * AS2R)
        east == << -Sin(lo), Cos(lo), R("0") >>
        north == << -(Sin(la) * Cos(lo)), -(Sin(la) * Sin(lo)), Cos(la) >>
    IN [ p |-> Tup(Scaled(d, u)),
         v |-> Tup(Plus3(Scaled(Ratio * star[5], u), Plus3(Scaled(d * star[3][1] * AS2R, east), Scaled(d * star[3][2] * AS2R, north)))) ]
At(e) == Tup(Plus3(Start.p, Scaled(R(e - 2000), Start.v)))
Lon(x) == LET a == Atan2(x[2], x[1]) IN IF a < 0 THEN a + TwoPi ELSE a
Lat(x) == Atan2(x[3], Norm(<< x[1], x[2], 0 >>))
\* what is derived at an epoch: the arguments of K01 up to the starting epoch
Derived(e) ==
    LET p == At(e) d == Norm(p) f == Lon(p) g == Lat(p)
        east == << -Sin(f), Cos(f), R("0") >>
        north == << -(Sin(g) * Cos(f)), -(Sin(g) * Sin(f)), Cos(g) >>
    IN << f, g, (Dot(Start.v, east) / d) / Cos(g), Dot(Start.v, north) / d, (1 / d) / AS2R, Dot(Start.v, Unit(p)) / Ratio, R(e) >>
Place(e) == << Lon(At(e)), Lat(At(e)) >>
\* one hop with what was derived at its start
Hop(from, to) == Derived(from) \o << R(to) >>
Last == visited[Len(visited)]
Before == visited[Len(visited) - 1]
OnItsLine == Len(visited) > 1 =>
    LET a == Tup(Derived(Before)) b == a \o << R(Last) >>
        \* K01 takes the motion in right ascension itself, not its extent on the sky
        m == SpaceMotion(b) w == Plus3(m.start, m.path)
    IN /\ Angle(w, At(Last)) < R("2e-13")
       /\ PmAccept(b, Place(Last))
       /\ ~PmAccept(b, [ Place(Last) EXCEPT ![2] = IF @ > 0 THEN @ - R("1e-11") ELSE @ + R("1e-11") ])
       /\ ~(Place(Last)[1] < TwoPi - 1) \/ ~PmAccept(b, << Place(Last)[1] + R("1e-7"), Place(Last)[2] >>)
       /\ ~PmAccept(b, << Place(Last)[1] - TwoPi, Place(Last)[2] >>)
\* perspective: the distance changes the apparent motion with the square of the parallax; the sum of both motions is kept
Perspective == Len(visited) > 1 =>
    LET a == Tup(Derived(Before)) b == Tup(Derived(Last))
        mu(s) == Norm(<< s[3] * Cos(s[2]), s[4], 0 >>)
        area(s) == mu(s) / Sq(s[5])
        speed(s) == Sq(mu(s) / (s[5] * AS2R)) + Sq(s[6] * Ratio)
    IN /\ Near(area(a), area(b), R("1e-12") * (area(a) + R("1e-3")))                       \* equal areas in equal times
       /\ Near(speed(a), speed(b), R("1e-12") * (speed(a) + R("1e-6")))
       /\ star[3] = << 0, 0 >> => Angle(At(Before), At(Last)) < R("1e-14")                 \* straight at us or away
\* without a change of epoch, or at rest, the place stays
Stays == Len(visited) = 1 =>
    LET a == Tup(Derived(2000)) IN
    /\ PmAccept(a \o << R("2000") >>, Place(2000))
    /\ PmAccept(<< lo, la, 0, 0, R("0.5"), 0, R("1900"), R("2100") >>, Place(2000))
    /\ Near(a[5], px, R("1e-14")) /\ Near(a[6], star[5], R("1e-9"))
=============================================================================
