-------------------------------- MODULE Earth -------------------------------
(***************************************************************************)
(* P01: the Earth's position and velocity by three models of different     *)
(* accuracy, and the star-dependent corrections made from the simplest.    *)
(***************************************************************************)
EXTENDS Precession

(* the precise ephemeris: series in the ecliptic frame, then a fixed rotation *)
EpvTable == Table("epv.tbl")
EpvE1 == SelectSeq(EpvTable, LAMBDA w : w[1] = "E" /\ w[3] = 1)
EpvE2 == SelectSeq(EpvTable, LAMBDA w : w[1] = "E" /\ w[3] = 2)
EpvE3 == SelectSeq(EpvTable, LAMBDA w : w[1] = "E" /\ w[3] = 3)
EpvS1 == SelectSeq(EpvTable, LAMBDA w : w[1] = "S" /\ w[3] = 1)
EpvS2 == SelectSeq(EpvTable, LAMBDA w : w[1] = "S" /\ w[3] = 2)
EpvS3 == SelectSeq(EpvTable, LAMBDA w : w[1] = "S" /\ w[3] = 3)
\* value and rate (per year) of  amplitude * t^n * cos(phase + frequency t)  summed over the rows
SeriesAt(rows, t) ==
    LET pw == << R("1"), t, t * t >>
        each == Tup([ i \in 1..Len(rows) |->
            LET w == rows[i] n == w[2] c == Cos(w[5] + w[6] * t) s == Sin(w[5] + w[6] * t)
            IN << w[4] * pw[n + 1] * c, w[4] * ((IF n = 0 THEN R("0") ELSE n * pw[n] * c) - w[6] * pw[n + 1] * s) >> ])
    IN << Sum([ i \in 1..Len(each) |-> each[i][1] ]), Sum([ i \in 1..Len(each) |-> each[i][2] ]) >>
EclipticToIcrs == << R("1"), R("0.000000211284"), R("-0.000000091603"),
                     R("-0.000000230286"), R("0.917482137087"), R("-0.397776982902"),
                     R("0"), R("0.397776982902"), R("0.917482137087") >>
\* heliocentric and barycentric position (AU) and velocity (AU/day)
PreciseEarth(mjd) ==
    LET t == (mjd - R("51544.5")) / R("365.25")
        x == SeriesAt(EpvE1, t) y == SeriesAt(EpvE2, t) z == SeriesAt(EpvE3, t)
        u == SeriesAt(EpvS1, t) v == SeriesAt(EpvS2, t) w == SeriesAt(EpvS3, t)
        Turn(p) == MatVec(EclipticToIcrs, p)
        yr == R("365.25")
    IN << Turn(<< x[1], y[1], z[1] >>), Turn(<< x[2] / yr, y[2] / yr, z[2] / yr >>),
          Turn(<< x[1] + u[1], y[1] + v[1], z[1] + w[1] >>), Turn(<< (x[2] + u[2]) / yr, (y[2] + v[2]) / yr, (z[2] + w[2]) / yr >>) >>
EpvAccept(a, r) ==
    LET w == Tup(PreciseEarth(a[1])) t == Abs(a[1] - R("51544.5")) / R("365.25")
        tol == R("1e-14") + R("5e-15") * t
    IN Len(r) = 12 /\ \A i \in 1..4 : NearSeq(V3(r, 3 * i - 2), w[i], IF i \in { 1, 3 } THEN tol ELSE tol / 20)

---------------------------------------------------------------------------
(* Stumpff's ephemeris *)
EvpTable == Table("evp.tbl")
EvpRows(name) == SelectSeq(EvpTable, LAMBDA w : w[1] = name)
Dcfel == EvpRows("dcfel")
Ccsel == EvpRows("ccsel")
Dcargs == EvpRows("dcargs")
Ccamps == EvpRows("ccamps")
Ccsec == EvpRows("ccsec")
Dcargm == EvpRows("dcargm")
Ccampm == EvpRows("ccampm")
Dceps == EvpRows("dceps")
Ccpamv == EvpRows("ccpamv")
Ccpam == EvpRows("ccpam")
\* the equinox correction from FK4 to FK5, in radians
Fk5Equinox(mjd) == S2R * (R("0.035") + R("0.00085") * (2000 + (mjd - R("51544.5")) / R("365.25") - R("1949.9997904423")))
\* << barycentric velocity, barycentric position, heliocentric velocity, heliocentric position >> (AU/s, AU), equinox of date
StumpffEarth(mjd) ==
    LET t == (mjd - R("15019.5")) / 36525
        Quad(w) == w[2] + w[3] * t + w[4] * t * t
        fast == Tup([ k \in 1..8 |-> Quad(Dcfel[k]) ])          \* mean longitude, then 7 other angles
        slow == Tup([ k \in 1..17 |-> Quad(Ccsel[k]) ])
        eps == Dceps[1][2] + Dceps[2][2] * t + Dceps[3][2] * t * t
        \* perturbations of the Earth-Moon barycentre by the planets
        sec == Sum([ k \in 1..4 |-> (Ccsec[k][2] + (IF k = 3 THEN R("-7.757020e-08") * t ELSE R("0"))) * Sin(Ccsec[k][3] + Ccsec[k][4] * t) ])
        arg == Tup([ k \in 1..15 |-> LET q == Dcargs[k][2] + Dcargs[k][3] * t IN << Cos(q), Sin(q) >> ])
        pl == sec + Sum([ k \in 1..15 |-> Ccamps[k][2] * arg[k][1] + Ccamps[k][3] * arg[k][2] ])
        pr == Sum([ k \in 1..15 |-> Ccamps[k][4] * arg[k][1] + Ccamps[k][5] * arg[k][2] ])
        pld == Sum([ k \in 1..15 |-> (Ccamps[k][3] * arg[k][1] - Ccamps[k][2] * arg[k][2]) * Ccamps[k][6] ])
        prd == Sum([ k \in 1..15 |-> (Ccamps[k][5] * arg[k][1] - Ccamps[k][4] * arg[k][2]) * Ccamps[k][6] ])
        \* elliptic motion
        e == slow[1]
        g == fast[2]
        par == 1 - e * e
        phi == 2 * e * ((1 - e * (e / 8)) * Sin(g) + R("0.625") * e * Sin(2 * g) + R("0.54166667") * e * e * Sin(3 * g))
        f == g + phi
        psi == par / (1 + e * Cos(f))
        rate == R("1.990969e-07")
        phid == 2 * e * rate * ((1 + R("1.5") * e * e) * Cos(f) + e * (R("1.25") - Sq(Sin(f)) / 2))
        psid == rate * e * (Sin(f) / Sqrt(par))
        d1 == 1 + pr
        drd == d1 * (psid + psi * prd)
        drld == d1 * psi * (R("1.990987e-07") + phid + pld)
        lon == fast[1] + phi + pl
        \* the Moon
        marg == Tup([ k \in 1..3 |-> LET q == Dcargm[k][2] + Dcargm[k][3] * t IN << Sin(q), Cos(q) >> ])
        ml == fast[3] + Sum([ k \in 1..3 |-> Ccampm[k][2] * marg[k][1] ])
        mld == R("2.661699e-06") + Sum([ k \in 1..3 |-> Ccampm[k][3] * marg[k][2] ])
        mp == Sum([ k \in 1..3 |-> Ccampm[k][4] * marg[k][2] ])
        mpd == -Sum([ k \in 1..3 |-> Ccampm[k][5] * marg[k][1] ])
        sigma == R("3.122140e-05") / (1 + mp)
        a == sigma * mld
        b == sigma * mpd
        hv == << drd * Cos(lon) - drld * Sin(lon) + a * Sin(ml) + b * Cos(ml),
                 drd * Sin(lon) + drld * Cos(lon) - a * Cos(ml) + b * Sin(ml),
                 -(sigma * R("2.399485e-07") * Cos(fast[4])) >>
        lat == R("8.978749e-2") * Sin(fast[4])
        r == psi * d1
        hp == << r * Cos(lon) - sigma * Cos(lat) * Cos(ml), r * Sin(lon) - sigma * Cos(lat) * Sin(ml), -(sigma * Sin(lat)) >>
        \* the Sun's motion about the barycentre, by the four great planets
        planet == Tup([ k \in 1..4 |->
            LET l == fast[k + 4] peri == slow[k + 1] ecc == slow[k + 9] inc == slow[k + 13] node == slow[k + 5]
                tl == l + 2 * ecc * Sin(l - peri)
                fl == inc * Sin(l - node)
                ra == Ccpam[k][2] * (1 - ecc * Cos(l - peri))
                w == Ccpamv[k][2]
            IN << << w * (Sin(tl) + ecc * Sin(peri)), -(w * (Cos(tl) + ecc * Cos(peri))), -(w * inc * Cos(l - node)) >>,
                  << -(ra * Cos(fl) * Cos(tl)), -(ra * Cos(fl) * Sin(tl)), -(ra * Sin(fl)) >> >> ])
        mass == R("0.99999696")
        bv == [ i \in 1..3 |-> mass * hv[i] + Sum([ k \in 1..4 |-> planet[k][1][i] ]) ]
        bp == [ i \in 1..3 |-> mass * hp[i] + Sum([ k \in 1..4 |-> planet[k][2][i] ]) ]
        q == Fk5Equinox(mjd)
        Equator(v) == LET y == v[2] * Cos(eps) - v[3] * Sin(eps) z == v[2] * Sin(eps) + v[3] * Cos(eps)
                      IN << v[1] - q * y, y + q * v[1], z >>
    IN << Equator(bv), Equator(bp), Equator(hv), Equator(hp) >>
EvpAccept(a, r) ==
    LET w == Tup(StumpffEarth(a[1]))
        m == IF a[2] > 0 THEN Tup(PrecessionMatrix(Iau1976, 2000 + (a[1] - R("51544.5")) / R("365.25"), a[2])) ELSE Identity
        tol == R("4e-8")
    IN Len(r) = 12 /\ \A i \in 1..4 : NearSeq(V3(r, 3 * i - 2), MatVec(m, w[i]), IF i \in { 2, 4 } THEN tol ELSE R("3e-7") * tol)

---------------------------------------------------------------------------
(* the low-precision ephemeris, in a Julian calendar *)
YearFraction(y, d, f) == LET q == ((y % 4) + 4) % 4 IN ((4 * (d - (IF q = 0 THEN 1 ELSE 0)) - q - 2) + 4 * f) / 1461
RoughEarth(y, d, f) ==
    LET yf == YearFraction(y, d, f)
        t == (y - 1900) + yf
        mean == R("4.881628") + TwoPi * yf + R("0.00013420") * t
        peri == R("4.908230") + R("3.0005e-4") * t
        m == mean - peri
        ob == R("0.40931975") - R("2.27e-6") * t
        e == R("0.016751") - R("4.2e-7") * t
        v == m + 2 * e * Sin(m) + R("1.25") * e * e * Sin(2 * m)
        l == v + peri
        r == (1 - e * e) / (1 + e * Cos(v))
        moon == R("4.72") + R("83.9971") * t
        speed == R("1.9913e-7")
        dist == R("3.12e-5")
        ms == R("8.31e-11")
        w == -(r * Sin(l))
        wd == -(speed * (Cos(l) + e * Cos(peri)))
    IN << -(r * Cos(l)) - dist * Cos(moon), (w - dist * Sin(moon)) * Cos(ob), w * Sin(ob),
          speed * (Sin(l) + e * Sin(peri)) + ms * Sin(moon), (wd - ms * Cos(moon)) * Cos(ob), wd * Sin(ob) >>
RoughTol(y, d) == LET t == Abs(y - 1900 + (d / 365)) IN R("4e-6") + R("4e-9") * Abs(d) + R("6e-10") * t
EarthAccept(a, r) ==
    LET w == Tup(RoughEarth(a[1], a[2], a[3])) tol == RoughTol(a[1], a[2])
    IN Len(r) = 6 /\ NearSeq(V3(r, 1), V3(w, 1), tol) /\ NearSeq(V3(r, 4), V3(w, 4), R("2.5e-7") * tol + R("2e-15") * Abs(a[1] - 1900))
EcorAccept(a, r) ==
    LET w == Tup(RoughEarth(a[3], a[4], a[5])) u == Dir(a[1], a[2]) tol == RoughTol(a[3], a[4]) + R("2.5e-7") IN
    /\ Len(r) = 2
    /\ Near(r[1], -(R("1.4959787066e8") * Dot(V3(w, 4), u)), R("60") * tol + R("4e-7") * Abs(a[3] - 1900))
    /\ Near(r[2], R("499.0047837") * Dot(V3(w, 1), u), R("700") * tol)

EarthOps == { "epv", "evp", "earth", "ecor" }
EphEarthAccept(op, a, r) ==
    CASE op = "epv" -> EpvAccept(a, r) [] op = "evp" -> EvpAccept(a, r) [] op = "earth" -> EarthAccept(a, r) [] op = "ecor" -> EcorAccept(a, r)
EphEarthOps == EarthOps
---------------------------------------------------------------------------
\* year, day in year and fraction of day
CalendarDayG(k, j) ==
    << IF Chance(k, j, 4) THEN (IF Chance(k, j + 5, 3) THEN IntUni(k, j, -1000, 4000) ELSE IntUni(k, j, 1600, 2400)) ELSE IntUni(k, j, 1900, 2100),
       Pick(k, j + 1, << IntUni(k, j + 1, 1, 366), IntUni(k, j + 1, 1, 366), IntUni(k, j + 1, 1, 366), 1, 59, 60, 61, 365, 366, IntUni(k, j + 1, -400, 800) >>),
       Pick(k, j + 2, << U(k, j + 2), U(k, j + 2), R("0"), R("0.5") >>) >>
EphEarthGen(op, k) ==
    CASE op = "epv" -> << MjdG(k, 1) >>
      [] op = "evp" -> << MjdG(k, 1), Pick(k, 2, << R("0"), R("-1"), R("2000"), EpochG(k, 2), EpochG(k, 2), Uni(k, 2, R("1900"), R("2100")), R("1") >>) >>
      [] op = "earth" -> CalendarDayG(k, 1)
      [] op = "ecor" -> << AngleG(k, 4), LatG(k, 5) >> \o CalendarDayG(k, 1)
EphEarthDirected(op) ==
    IF op = "earth" THEN [ i \in 1..80 |-> << 1895 + ((i - 1) \div 4), Pick(1, 1, << 1 >>) + 90 * ((i - 1) % 4), R("0.25") >> ] ELSE << >>
EphEarthNoMix == {}
=============================================================================
