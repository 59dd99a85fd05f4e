------------------------------ MODULE Observer ------------------------------
(***************************************************************************)
(* O01: the observer on the rotating ellipsoid, and polar motion.          *)
(* O02: line-of-sight components of the adopted motions.                   *)
(***************************************************************************)
EXTENDS Vectors

(* O01: lengths in metres and AU, latitudes geodetic.  The point of the     *)
(* ellipsoid with normal n = (cos, sin) is (a^2 cos, b^2 sin) divided by    *)
(* sqrt(a^2 cos^2 + b^2 sin^2); the observer is h along the normal.         *)
EarthRadius == R("6378140")
PolarRadius == EarthRadius * (1 - 1 / R("298.257"))
AuMetres == R("1.49597870e11")
SiderealRate == R("7.292115855306589e-5")
Geocentric(lat, h) ==
    LET c == Cos(lat) s == Sin(lat) a2 == Sq(EarthRadius) b2 == Sq(PolarRadius) q == Sqrt(a2 * Sq(c) + b2 * Sq(s))
    IN << ((a2 / q) * c + h * c) / AuMetres, ((b2 / q) * s + h * s) / AuMetres >>
SiteScale(h) == (EarthRadius + Abs(h)) / AuMetres
GeocAccept(a, r) == Len(r) = 2 /\ NearSeq(r, Geocentric(a[1], a[2]), R("2e-15") * SiteScale(a[2]))
PvobsAccept(a, r) ==
    LET g == Geocentric(a[1], a[2]) t == R("2e-15") * SiteScale(a[2]) c == Cos(a[3]) s == Sin(a[3]) IN
    /\ Len(r) = 6
    /\ NearSeq(V3(r, 1), << g[1] * c, g[1] * s, g[2] >>, t)
    /\ NearSeq(V3(r, 4), << -(SiderealRate * g[1] * s), SiderealRate * g[1] * c, R("0") >>, t * SiderealRate)

\* arguments: mean longitude and latitude, x and y of the pole; results: true longitude and latitude, azimuth correction
PolmoAccept(a, r) ==
    LET m == MatMat(FrameRot(2, a[3]), FrameRot(1, a[4]))
        site == MatVec(m, Dir(a[1], a[2]))
        pole == MatVec(m, << R("0"), R("0"), R("1") >>)
        rho == Norm(<< site[1], site[2], 0 >>)
        e == R("1e-15")
    IN /\ Len(r) = 3 /\ AllFinite(r)
       /\ Abs(r[1]) \leq Pi * (1 + e) /\ Abs(r[2]) \leq HalfPi * (1 + e)
       /\ SameDir(Dir(r[1], r[2]), site, 2 * e)
       \* the terrestrial pole seen from the site; the returned longitude fixes which way is north at a pole
       /\ LET f == IF rho > R("1e-7") THEN Atan2(site[2], site[1]) ELSE r[1]
              east == pole[2] * Cos(f) - pole[1] * Sin(f)
              north == pole[3] * rho - site[3] * (pole[1] * Cos(f) + pole[2] * Sin(f))
          IN BearingNear(-r[3], east, north, 4 * e * (1 + Norm(<< pole[1], pole[2], 0 >>) / Max(rho, R("1e-7"))))
       \* all in the meridian of Greenwich
       /\ (a[1] \doteq 0 /\ a[4] \doteq 0) => Near(Sin(r[1]), 0, 2 * e) /\ Near(Sin(r[3]), 0, 2 * e)

(* O02, km/s: components toward the apex have the sense of a recession      *)
SunAbout == [ rvgalc |-> << R("-108.70408"), R("97.86251"), R("-164.33610") >>,
              rvlg   |-> << R("-148.23284"), R("133.44888"), R("-224.09467") >>,
              rvlsrd |-> << R("0.63823"), R("14.58542"), R("-7.80116") >>,
              rvlsrk |-> << R("-0.29000"), R("17.31726"), R("-10.00141") >> ]
SpinSpeed == R("0.4655")
ProjectionAccept(op, a, r) == Len(r) = 1 /\ Near(r[1], Dot(SunAbout[op], Dir(a[1], a[2])), R("8e-7") * Norm(SunAbout[op]))
RverotAccept(a, r) ==
    \* a site at local sidereal time st moves towards hour angle -6h
    LET v == Scaled(SpinSpeed * Cos(a[1]), << -Sin(a[4]), Cos(a[4]), R("0") >>)
    IN Len(r) = 1 /\ Near(r[1], -Dot(v, Dir(a[2], a[3])), R("2e-7") * SpinSpeed * (3 + Abs(a[2]) + Abs(a[4])))

ObserverOps == { "geoc", "pvobs", "polmo", "rverot", "rvgalc", "rvlg", "rvlsrd", "rvlsrk" }
ObserverAccept(op, a, r) ==
    CASE op = "geoc" -> GeocAccept(a, r)
      [] op = "pvobs" -> PvobsAccept(a, r)
      [] op = "polmo" -> PolmoAccept(a, r)
      [] op = "rverot" -> RverotAccept(a, r)
      [] OTHER -> ProjectionAccept(op, a, r)

HeightG(k, j) == LET c == RndInt(k, j, 9, 6) IN
    CASE c = 0 -> R("0") [] c = 1 -> Uni(k, j, R("-12000"), R("0")) [] c = 2 -> Uni(k, j, R("0"), R("4e7")) [] c = 3 -> Uni(k, j, R("1e4"), R("4e5")) [] OTHER -> Uni(k, j, R("0"), R("9000"))
PoleG(k, j) == LET c == RndInt(k, j, 9, 6) IN
    CASE c = 0 -> R("0") [] c = 1 -> TinyG(k, j) [] c = 2 -> Uni(k, j, R("-0.5"), R("0.5")) [] c = 3 -> Pick(k, j, << Cos(HalfPi), -Cos(HalfPi) >>) [] OTHER -> Uni(k, j, R("-0.5"), R("0.5")) * AS2R
ObserverGen(op, k) ==
    CASE op = "geoc" -> << LatG(k, 1), HeightG(k, 2) >>
      [] op = "pvobs" -> << LatG(k, 1), HeightG(k, 2), AngleG(k, 3) >>
      [] op = "polmo" -> << AngleG(k, 1), LatG(k, 2), PoleG(k, 3), PoleG(k, 4) >>
      [] op = "rverot" -> << LatG(k, 1), AngleG(k, 2), LatG(k, 3), AngleG(k, 4) >>
      [] OTHER -> << AngleG(k, 1), LatG(k, 2) >>
ObserverDirected(op) ==
    CASE op = "geoc" -> [ i \in 1..10 |-> << (((i - 1) % 5) - 2) * QuarterPi, (i \div 6) * R("2500") >> ]
      [] op = "pvobs" -> [ i \in 1..45 |-> << (((i - 1) % 5) - 2) * QuarterPi, R("0"), (((i - 1) \div 5) - 4) * QuarterPi >> ]
      [] op = "polmo" -> [ i \in 1..225 |-> LET p == i - 1 IN << ((p % 5) - 2) * HalfPi, (((p \div 5) % 5) - 2) * QuarterPi,
                                                                (<< Cos(HalfPi), R("0"), R("1e-6") >>)[1 + ((p \div 25) % 3)], (<< R("0"), R("1e-6"), -Cos(HalfPi) >>)[1 + (p \div 75)] >> ]
      [] op = "rverot" -> [ i \in 1..225 |-> LET p == i - 1 IN << ((p % 5) - 2) * QuarterPi, (((p \div 5) % 9) - 4) * QuarterPi, ((p \div 45) - 2) * QuarterPi, R("0.5") >> ]
      [] OTHER -> [ i \in 1..45 |-> << (((i - 1) \div 5) - 4) * QuarterPi, (((i - 1) % 5) - 2) * QuarterPi >> ]
ObserverNoMix == {}
=============================================================================
