------------------------------ MODULE TangentMC -----------------------------
(***************************************************************************)
(* A tangent point is drawn along a meridian, over the poles and back, and *)
(* the latitudes are recorded at which a star of given latitude would have *)
(* the given plane coordinates; its longitude then follows.  After a whole *)
(* turn these are the tangent points that TangentPlane.tla asks for, in    *)
(* number and in place; and wherever the tangent point stops, projection   *)
(* and deprojection are inverse to each other.                             *)
(***************************************************************************)
EXTENDS TangentPlane
VARIABLES xi, eta, lat, i, found
vars == << xi, eta, lat, i, found >>
Deep == Param("tier") = "thorough"
N == IF Deep THEN 180 ELSE 60
Xis == IF Deep THEN { -150, -40, 0, 3, 25, 90, 200 } ELSE { -40, 0, 3, 90 }         \* hundredths
Etas == IF Deep THEN { -170, -30, -2, 0, 12, 60, 210 } ELSE { -30, 0, 12, 210 }
Lats == IF Deep THEN { -88, -80, -61, -33, -4, 0, 17, 49, 72, 84, 89 } ELSE { -80, -33, 0, 49, 72, 89 }
x0 == R(xi) / 100
y0 == R(eta) / 100
Size == Sqrt(1 + Sq(x0) + Sq(y0))
s0 == Sin(lat * D2R)
c0 == Cos(lat * D2R)
Phi(j) == -Pi + TwoPi * ((R(j) + R("0.37")) / N)
\* latitude of the star less that wanted, as sines, with the tangent point at phi
Off(phi) == Sin(phi) + y0 * Cos(phi) - Size * s0
RECURSIVE Root(_, _, _)
Root(a, b, n) == LET c == (a + b) / 2 IN IF n = 0 THEN c ELSE IF (Off(a) < 0) = (Off(c) < 0) THEN Root(c, b, n - 1) ELSE Root(a, c, n - 1)
Init == xi \in Xis /\ eta \in Etas /\ lat \in Lats /\ i = 0 /\ found = << >>
Next == /\ i < N /\ i' = i + 1 /\ UNCHANGED << xi, eta, lat >>
        /\ found' = IF (Off(Phi(i)) < 0) # (Off(Phi(i + 1)) < 0) THEN Append(found, Root(Phi(i), Phi(i + 1), 50)) ELSE found
Spec == Init /\ [][Next]_vars
Ops == { "tps2c", "dtps2c" }
Plus(x) == IF x < 0 THEN x + TwoPi ELSE x
\* the longitude of the tangent point for which the star is at the given one
RaStar == R("1.1")
East(phi) == Cos(phi) - y0 * Sin(phi)
RaOf(phi) == Plus(Fmod(RaStar - Atan2(x0, East(phi)) + 4 * Pi, TwoPi))
Args == << x0, y0, RaStar, lat * D2R >>
Clear == Abs(Room(Args, s0, c0)) > R("0.001") /\ \A k \in 1..Len(found) : Abs(Abs(found[k]) - HalfPi) > R("1e-6")
Useful == Len(SelectSeq(found, LAMBDA p : Abs(p) < HalfPi))
Ahead == SelectSeq(found, LAMBDA p : East(p) > 0)
Behind == SelectSeq(found, LAMBDA p : East(p) < 0)
\* the latitude as the library gives it: within half a turn
Answer(n) == << n, RaOf(Ahead[1]), IF Ahead[1] > Pi THEN Ahead[1] - TwoPi ELSE Ahead[1], RaOf(Behind[1]), IF Behind[1] > Pi THEN Behind[1] - TwoPi ELSE Behind[1] >>
Places == \A k \in 1..Len(found) : SameDir(OnPlane(FrameAt(RaOf(found[k]), found[k]), x0, y0), Dir(RaStar, lat * D2R), R("1e-12"))
Numbers == (i = N /\ Clear) =>
    /\ Len(found) \in { 0, 2 } /\ (Len(found) = 2) = (Room(Args, s0, c0) > 0)
    /\ Len(found) = 0 => \A op \in Ops : CountAccept(op, Args, s0, c0, 0) /\ ~CountAccept(op, Args, s0, c0, 1) /\ ~CountAccept(op, Args, s0, c0, 2)
    /\ Len(found) = 2 =>
       /\ Len(Ahead) = 1 /\ Len(Behind) = 1
       /\ LET n == IF Useful = 1 THEN 1 ELSE 2 IN     \* (two: on the near side of the poles or, far from the axes, both beyond one)
          /\ \A op \in Ops : RecoverAccept(op, Args, Answer(n)) /\ ~RecoverAccept(op, Args, Answer(3 - n)) /\ ~RecoverAccept(op, Args, Answer(0))
          /\ ~RecoverAccept("dtps2c", Args, [ Answer(n) EXCEPT ![3] = @ + R("1e-10") ])
          /\ ~RecoverAccept("dtps2c", Args, [ Answer(n) EXCEPT ![5] = @ + R("1e-10") ])
          /\ Abs(East(Ahead[1])) > R("0.01") => ~RecoverAccept("dtps2c", Args, LET w == Answer(n) IN << w[1], w[4], w[5], w[2], w[3] >>)
\* there and back: the tangent point now at Phi(i), within the poles
Fine == Abs(Phi(i)) < HalfPi
Star == OnPlane(FrameAt(R("5.3"), Phi(i)), x0, y0)
Coords(v) == << Plus(Atan2(v[2], v[1])), Atan2(v[3], Norm(<< v[1], v[2], 0 >>)) >>
Here == << R("5.3"), Phi(i) >>
ThereAndBack == Fine =>
    LET c == Coords(Star) u == Unit(Star) t == Dir(R("5.3"), Phi(i)) far == Scaled(-1, u) IN
    /\ DeprojectAccept("dtp2s", << x0, y0 >> \o Here, c) /\ ~DeprojectAccept("dtp2s", << x0, y0 >> \o Here, << c[1], c[2] + R("1e-12") >>)
    /\ DeprojectVecAccept("dtp2v", << x0, y0 >> \o t, u)
    /\ TangentAccept("ds2tp", c \o Here, << 0, x0, y0 >>) /\ TangentAccept("dv2tp", u \o t, << 0, x0, y0 >>)
    /\ ~TangentAccept("ds2tp", c \o Here, << 0, x0 + R("1e-12") * Sq(Size), y0 >>) /\ ~TangentAccept("ds2tp", c \o Here, << 0, x0, y0 + R("1e-12") * Sq(Size) >>)
    /\ \A q \in 1..3 : ~TangentAccept("ds2tp", c \o Here, << q, x0, y0 >>)
    \* the antistar, and a star a quarter of a turn away
    /\ TangentAccept("dv2tp", far \o t, << 3, x0, y0 >>) /\ ~TangentAccept("dv2tp", far \o t, << 0, x0, y0 >>) /\ ~TangentAccept("dv2tp", far \o t, << 2, x0, y0 >>)
    /\ LET e == FrameOf(t).e IN \A q \in { 0, 3 } : ~TangentAccept("dv2tp", Tup(Plus3(e, Scaled(R("1e-9"), t))) \o t, << q, R("1e9"), R("0") >>)
=============================================================================
