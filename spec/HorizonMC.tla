------------------------------ MODULE HorizonMC -----------------------------
(***************************************************************************)
(* The sky turns over a site: hour angle advances step by step and the     *)
(* crossings of a vertical circle and of a parallactic angle are recorded. *)
(* Along the way the directions of Horizon.tla stay one rigid sphere, the  *)
(* rates are the changes, and after a whole turn the recorded crossings    *)
(* are exactly the solutions that AzimuthAccept and ParallacticAccept ask  *)
(* for.                                                                    *)
(***************************************************************************)
EXTENDS Horizon
VARIABLES d, f, z, i, az, pq
vars == << d, f, z, i, az, pq >>
N == IF Param("tier") = "thorough" THEN 240 ELSE 72
Lattice(step, off, n) == { off + step * j : j \in 0..n }
Decs == IF Param("tier") = "thorough" THEN Lattice(12, -83, 14) ELSE Lattice(28, -81, 6)
Lats == IF Param("tier") = "thorough" THEN Lattice(14, -83, 12) ELSE Lattice(30, -77, 5)
Dirs == IF Param("tier") = "thorough" THEN Lattice(24, 7, 14) ELSE Lattice(40, 7, 8)
Rad(deg) == deg * D2R
H(j) == -Pi + TwoPi * (R(j) / N)
Dn == Rad(d) Fn == Rad(f) Zn == Rad(z)
W(h) == Horizon(h, Dn, Fn)
V(h) == Vertical(h, Dn, Fn)
AzAcross(h) == LET w == W(h) IN w[1] * Sin(Zn) - w[2] * Cos(Zn)
AzAhead(h) == LET w == W(h) IN w[1] * Cos(Zn) + w[2] * Sin(Zn)
PqAcross(h) == LET w == V(h) IN w[2] * Sin(Zn) - w[1] * Cos(Zn)
PqAhead(h) == LET w == V(h) IN w[2] * Cos(Zn) + w[1] * Sin(Zn)
RECURSIVE Root(_, _, _, _)
Root(F(_), a, b, n) == LET c == (a + b) / 2 IN IF n = 0 THEN c ELSE IF (F(a) < 0) = (F(c) < 0) THEN Root(F, c, b, n - 1) ELSE Root(F, a, c, n - 1)
Crossing(F(_), Ahead(_), a, b, seen) ==
    IF (F(a) < 0) # (F(b) < 0) THEN LET x == Root(F, a, b, 48) IN IF Ahead(x) > 0 THEN Append(seen, x) ELSE seen ELSE seen
Init == d \in Decs /\ f \in Lats /\ z \in Dirs /\ i = 0 /\ az = << >> /\ pq = << >>
Next == /\ i < N /\ i' = i + 1 /\ UNCHANGED << d, f, z >>
        /\ az' = Crossing(AzAcross, AzAhead, H(i), H(i + 1), az)
        /\ pq' = Crossing(PqAcross, PqAhead, H(i), H(i + 1), pq)
Spec == Init /\ [][Next]_vars
h0 == H(i)
Step == R("1e-4")
Quotient(F(_), k) == LET a == F(h0 + Step) b == F(h0 - Step) IN [ j \in 1..k |-> (a[j] - b[j]) / (2 * Step) ]
Rigid == /\ Near(Norm(W(h0)), 1, R("1e-14"))
         /\ Near(Dot(W(h0), << Cos(Fn), 0, Sin(Fn) >>), Sin(Dn), R("1e-14"))             \* the distance from the pole
         /\ Near(Norm(<< V(h0)[1], V(h0)[2], 0 >>), Norm(<< W(h0)[1], W(h0)[2], 0 >>), R("1e-14"))
         /\ Near(V(h0)[1] * Cos(Dn), -(W(h0)[2] * Cos(Fn)), R("1e-14"))                   \* the sine rule
Rates == /\ \A j \in 1..3 : Near(Quotient(LAMBDA h : HorizonD1(h, Dn, Fn), 3)[j], HorizonD2(h0, Dn, Fn)[j], R("1e-8"))
         /\ \A j \in 1..3 : Near(Quotient(W, 3)[j], HorizonD1(h0, Dn, Fn)[j], R("1e-8"))
         /\ \A j \in 1..2 : Near(Quotient(V, 2)[j], VerticalD1(h0, Dn, Fn)[j], R("1e-8"))
         /\ \A j \in 1..2 : Near(Quotient(LAMBDA h : VerticalD1(h, Dn, Fn), 2)[j], VerticalD2(h0, Dn, Fn)[j], R("1e-8"))
\* angles of vectors: their rate and acceleration are the changes, away from the zenith
Mount == LET w == W(h0) c == Sq(w[1]) + Sq(w[2])
             Az(h) == LET x == W(h) IN Atan2(x[2], x[1])
             Rate(h) == LET x == W(h) y == HorizonD1(h, Dn, Fn) IN AngleRate(x[2], x[1], y[2], y[1])
             y1 == HorizonD1(h0, Dn, Fn) y2 == HorizonD2(h0, Dn, Fn)
         IN c > R("0.01") =>
            /\ NearAngle(Az(h0 + Step) - Az(h0 - Step), 2 * Step * Rate(h0), R("1e-8") / c)
            /\ Near((Rate(h0 + Step) - Rate(h0 - Step)) / (2 * Step), AngleAccel(w[2], w[1], y1[2], y1[1], y2[2], y2[1]), R("1e-5") / (c * c))
\* from hour angle and declination to azimuth and elevation and back
RoundTrip == LET w == W(h0) a == Atan2(w[2], w[1]) az0 == IF a < 0 THEN a + TwoPi ELSE a el == Atan2(w[3], Norm(<< w[1], w[2], 0 >>)) IN
             /\ AzElAccept("de2h", << h0, Dn, Fn >>, az0, el)
             /\ HaDecAccept("dh2e", << az0, el, Fn >>, << h0, Dn >>)
             /\ ~AzElAccept("de2h", << h0, Dn, Fn >>, az0, el + R("1e-12"))
             /\ ~HaDecAccept("dh2e", << az0, el, Fn >>, << h0, Dn - R("1e-12") >>)
             /\ ZdAccept(<< h0, Dn, Fn >>, << HalfPi - el >>)
As4(s) == CASE Len(s) = 0 -> << R("0"), FALSE, R("0"), FALSE >>
            [] Len(s) = 1 -> << s[1], TRUE, R("0"), FALSE >>
            [] OTHER -> << s[2], TRUE, s[1], TRUE >>
Dropped(s) == << R("0"), FALSE >> \o SubSeq(As4(s), 3, 4)
\* (a tangency that two steps straddle, or a crossing of the pole itself, is left to the checks of the code)
Complete == i = N =>
    /\ Len(az) \leq 2 /\ Len(pq) \leq 2
    /\ AzimuthAccept(Fn, Dn, Zn, As4(az)) /\ ParallacticAccept(Fn, Dn, Zn, As4(pq))
    /\ (Len(az) > 0 /\ Abs(AzAhead(As4(az)[1])) > R("0.06")) => ~AzimuthAccept(Fn, Dn, Zn, Dropped(az))
    /\ (Len(pq) > 0 /\ Abs(PqAhead(As4(pq)[1])) > R("0.06")) => ~ParallacticAccept(Fn, Dn, Zn, Dropped(pq))
    /\ Len(az) < 2 => ~AzimuthAccept(Fn, Dn, Zn, << R("0.123"), TRUE, R("0.4"), TRUE >>)
=============================================================================
