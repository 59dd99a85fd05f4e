------------------------------- MODULE SiteMC ------------------------------
(***************************************************************************)
(* A site on the ellipsoid is carried round by the Earth, a step at a time *)
(* for a sidereal day, while the pole moves under it.  Its position is on  *)
(* the surface with the normal the latitude says, its velocity is the rate *)
(* of its position, what it sees of a source's recession is that velocity, *)
(* and the corrections for polar motion are those of the published small   *)
(* formulae.  The adopted motions of the Sun are the published ones.       *)
(***************************************************************************)
EXTENDS Frames, Observer
VARIABLES site, hour
vars == << site, hour >>
Deep == Param("tier") = "thorough"
N == IF Deep THEN 48 ELSE 12
Lats == IF Deep THEN { -90, -67, -30, 0, 1, 45, 61, 90 } ELSE { -90, -30, 0, 45, 90 }
Highs == { -400, 0, 4200, 350000 }
Poles == { << 0, 0 >>, << 300, 0 >>, << 0, -250 >>, << -180, 400 >> }        \* thousandths of an arcsecond
Init == site \in { << la, h, p >> : la \in Lats, h \in Highs, p \in Poles } /\ hour = 0
Next == hour < N /\ hour' = hour + 1 /\ UNCHANGED site
Spec == Init /\ [][Next]_vars
lat == site[1] * D2R
high == R(site[2])
theta == (hour * TwoPi) / N
Day == TwoPi / SiderealRate
Spot(h) == Scaled(AuMetres, << Geocentric(lat, h)[1], Geocentric(lat, h)[2], 0 >>)     \* metres from the axis, and to the north
Surface(p) == Sq(p[1] / EarthRadius) + Sq(p[2] / PolarRadius)
Shape == hour = 0 =>
    LET g == Spot(R("0")) w == Spot(high) n == << Cos(lat), Sin(lat), 0 >> IN
    /\ Near(Surface(g), 1, R("4e-15")) /\ Near(EarthRadius - PolarRadius, R("21385"), 1)
    \* the normal of the ellipsoid where the site is, and the height along it
    /\ LET m == << g[1] / Sq(EarthRadius), g[2] / Sq(PolarRadius), 0 >> IN Angle(m, n) < R("1e-15")
    /\ NearSeq(Minus3(w, g), Scaled(high, n), R("2e-8"))
    /\ GeocAccept(<< lat, high >>, Geocentric(lat, high))
    /\ \A k \in 1..2 : ~GeocAccept(<< lat, high >>, [ Geocentric(lat, high) EXCEPT ![k] = @ + R("0.0001") / AuMetres ])
    /\ Near(Geocentric(-lat, high)[2], -Geocentric(lat, high)[2], R("1e-24")) /\ Near(Geocentric(Pi - lat, high)[1], -Geocentric(lat, high)[1], R("1e-18"))
PV(t) == LET g == Geocentric(lat, high) IN << g[1] * Cos(t), g[1] * Sin(t), g[2] >>
Vel(t) == LET g == Geocentric(lat, high) IN << -(g[1] * SiderealRate * Sin(t)), g[1] * SiderealRate * Cos(t), R("0") >>
Carried ==
    LET p == PV(theta) v == Vel(theta) e == R("1e-3") IN
    /\ PvobsAccept(<< lat, high, theta >>, p \o v)
    /\ hour = N => NearSeq(p, PV(R("0")), R("1e-18"))
    \* the difference of positions a little later and earlier
    /\ \A i \in 1..3 : Near((PV(theta + e)[i] - PV(theta - e)[i]) * (SiderealRate / (2 * Sin(e))), v[i], R("1e-20"))
    /\ \A i \in 1..3 : ~PvobsAccept(<< lat, high, theta >>, [ (p \o v) EXCEPT ![i] = @ + R("0.0001") / AuMetres ])
    /\ \A i \in 4..6 : ~PvobsAccept(<< lat, high, theta >>, [ (p \o v) EXCEPT ![i] = @ + R("1e-9") / AuMetres ])
    \* a source at right ascension ra: recession by this velocity, in the rotation speed of a spherical Earth
    /\ high \doteq 0 => \A ra \in { 0, 2, 4 }, de \in { -1, 0, 1 } :
         LET want == -Dot(v, Dir(R(ra), R(de))) * (AuMetres / 1000)
             got == SpinSpeed * Cos(lat) * Cos(R(de)) * Sin(theta - ra) IN
         /\ Near(got, want, R("0.003"))
         /\ RverotAccept(<< lat, R(ra), R(de), theta >>, << got >>)
         /\ ~RverotAccept(<< lat, R(ra), R(de), theta >>, << got + R("1e-5") >>)
\* polar motion: first-order formulae for a site (true less mean), with the longitude of the site as it turns
Small == Abs(site[1]) < 80 =>
    LET lo == theta - Pi x == site[3][1] * (AS2R / 1000) y == site[3][2] * (AS2R / 1000)
        m == MatMat(FrameRot(2, x), FrameRot(1, y))
        w == Tup(MatVec(m, Dir(lo, lat)))
        tl == Atan2(w[2], w[1]) tb == Atan2(w[3], Norm(<< w[1], w[2], 0 >>))
        daz == -((x * Sin(lo) + y * Cos(lo)) / Cos(lat))
        a == << lo, lat, x, y >> second == R("1e-10")
        dl == Fmod(tl - lo + 3 * Pi, TwoPi) - Pi
    IN /\ Near(dl, (x * Sin(lo) + y * Cos(lo)) * Tan(lat), second) /\ Near(tb - lat, x * Cos(lo) - y * Sin(lo), second)
       /\ site[3] = << 0, 0 >> => PolmoAccept(a, << tl, tb, R("0") >>)
       /\ site[3] # << 0, 0 >> =>
            /\ ~PolmoAccept(a, << tl, tb, -daz + second + R("1e-9") * Sgn(-daz) >>) \/ Abs(daz) < R("1e-9")
            /\ ~PolmoAccept(a, << tl + R("1e-13"), tb, daz >>) /\ ~PolmoAccept(a, << tl, tb + R("1e-13"), daz >>)
            \* the exact correction lies within the second order of the formula
            /\ LET exact == -Atan2(m[6] * Cos(tl) - m[3] * Sin(tl), m[9] * Cos(tb) - Sin(tb) * (m[3] * Cos(tl) + m[6] * Sin(tl)))
               IN Near(exact, daz, second) /\ PolmoAccept(a, << tl, tb, exact >>)
\* the Sun's motion: published components towards the galactic centre, the rotation and the pole; and towards 18h +30d (1900)
Away(u, v, w) == Scaled(-1, TMatVec(Galactic2000, << R(u), R(v), R(w) >>))
Basis1900 == MatVec(PrecessionMatrix(Besselian, R("1900"), R("2000")), Scaled(-20, Dir(-HalfPi, 30 * D2R)))
Adopted == hour = 0 =>
    /\ NearSeq(SunAbout.rvgalc, Away(0, 220, 0), R("1e-4")) /\ NearSeq(SunAbout.rvlg, Away(0, 300, 0), R("1e-3"))
    /\ NearSeq(SunAbout.rvlsrd, Away(9, 12, 7), R("3e-5")) /\ NearSeq(SunAbout.rvlsrk, Basis1900, R("0.01"))
    /\ \A op \in { "rvgalc", "rvlg", "rvlsrd", "rvlsrk" } :
         LET v == SunAbout[op] la == Atan2(v[3], Norm(<< v[1], v[2], 0 >>)) lo == Atan2(v[2], v[1]) IN
         /\ ProjectionAccept(op, << lo, la >>, << Norm(v) >>) /\ ProjectionAccept(op, << lo + Pi, -la >>, << -Norm(v) >>)
         /\ ProjectionAccept(op, << lo, la - HalfPi >>, << R("0") >>) /\ ~ProjectionAccept(op, << lo, la >>, << Norm(v) * (1 + R("1e-5")) >>)
=============================================================================
