-------------------------------- MODULE Moon --------------------------------
(***************************************************************************)
(* P02: the Moon's position and velocity.  Quantities that vary with time  *)
(* are pairs << value, rate >>; the rates follow by the rules of           *)
(* differentiation, independently of how the library writes them out.      *)
(***************************************************************************)
EXTENDS Earth

Const(c) == << c, R("0") >>
Add2(x, y) == << x[1] + y[1], x[2] + y[2] >>
Mul2(x, y) == << x[1] * y[1], x[1] * y[2] + x[2] * y[1] >>
Times(c, x) == << c * x[1], c * x[2] >>
Sin2(x) == << Sin(x[1]), Cos(x[1]) * x[2] >>
Cos2(x) == << Cos(x[1]), -(Sin(x[1]) * x[2]) >>
Div2(x, y) == << x[1] / y[1], (x[2] - (x[1] / y[1]) * y[2]) / y[1] >>
\* a polynomial of time, and its rate
Cubic(c, t) == << c[1] + (c[2] + (c[3] + c[4] * t) * t) * t, c[2] + (2 * c[3] + 3 * c[4] * t) * t >>
Sum2(s) == << Sum([ i \in 1..Len(s) |-> s[i][1] ]), Sum([ i \in 1..Len(s) |-> s[i][2] ]) >>

\* a Cartesian vector of pairs from longitude, latitude and distance, turned about x by the obliquity
Cartesian2(l, b, r) == << Mul2(r, Mul2(Cos2(b), Cos2(l))), Mul2(r, Mul2(Cos2(b), Sin2(l))), Mul2(r, Sin2(b)) >>

(* the full model; time in Julian centuries from 1900 *)
DMoonTable == Table("dmoon.tbl")
DMoonL == SelectSeq(DMoonTable, LAMBDA w : w[1] = "L")
DMoonB == SelectSeq(DMoonTable, LAMBDA w : w[1] = "B")
DMoonP == SelectSeq(DMoonTable, LAMBDA w : w[1] = "P")
\* sum of coefficient * e^n * Fn(multiples of the arguments)
MoonSeries(rows, args, ee, Fn(_)) ==
    Sum2(Tup([ i \in 1..Len(rows) |->
        LET w == rows[i]
            th == << w[3] * args[1][1] + w[4] * args[2][1] + w[5] * args[3][1] + w[6] * args[4][1],
                     w[3] * args[1][2] + w[4] * args[2][2] + w[5] * args[3][2] + w[6] * args[4][2] >>
        IN Times(w[2], Mul2(ee[w[7] + 1], Fn(th))) ]))
\* degrees reduced to one turn, as a pair in radians
Rad2(x) == << D2R * Fmod(x[1], R("360")), D2R * x[2] >>
FullMoon(mjd) ==
    LET t == (mjd - R("15019.5")) / 36525
        one == << t, R("1") >>
        om == Tup(Rad2(Cubic(<< R("259.183275"), R("-1934.1420"), R("0.002078"), R("0.0000022") >>, t)))
        so == Tup(Sin2(om))
        wa == Tup(Sin2(Rad2(Cubic(<< R("51.2"), R("20.2"), 0, 0 >>, t))))
        wb == Tup(Times(R("0.003964"), Sin2(Rad2(Cubic(<< R("346.560"), R("132.870"), R("-0.0091731"), 0 >>, t)))))
        wom == Tup(Add2(om, Rad2(Cubic(<< R("275.05"), R("-2.30"), 0, 0 >>, t))))
        \* a fundamental argument with its periodic variations, in radians
        Arg(c, ka, kb, ko, kw) == Tup(Add2(Rad2(Cubic(c, t)), Times(D2R, Add2(Add2(Times(ka, wa), Times(kb, wb)), Add2(Times(ko, so), Times(kw, Sin2(wom)))))))
        lp == Arg(<< R("270.434164"), R("481267.8831"), R("-0.001133"), R("0.0000019") >>, R("0.000233"), 1, R("0.001964"), 0)
        m == Arg(<< R("358.475833"), R("35999.0498"), R("-0.000150"), R("-0.0000033") >>, R("-0.001778"), 0, 0, 0)
        mp == Arg(<< R("296.104608"), R("477198.8491"), R("0.009192"), R("0.0000144") >>, R("0.000817"), 1, R("0.002541"), 0)
        d == Arg(<< R("350.737486"), R("445267.1142"), R("-0.001436"), R("0.0000019") >>, R("0.002011"), 1, R("0.001964"), 0)
        f == Arg(<< R("11.250889"), R("483202.0251"), R("-0.003211"), R("-0.0000003") >>, 0, 1, R("-0.024691"), R("-0.004328"))
        args == << m, mp, d, f >>
        e == Tup(Cubic(<< 1, R("-0.002495"), R("-0.00000752"), 0 >>, t))
        ee == << Const(1), e, Tup(Mul2(e, e)) >>
        lon == Tup(Add2(lp, Times(D2R, MoonSeries(DMoonL, args, ee, Sin2))))
        bf == Add2(Const(1), Add2(Times(R("-0.0004664"), Cos2(om)), Times(R("-0.0000754"), Cos2(wom))))
        lat == Tup(Times(D2R, Mul2(MoonSeries(DMoonB, args, ee, Sin2), bf)))
        par == Tup(Times(D2R, MoonSeries(DMoonP, args, ee, Cos2)))
        v == Tup(Cartesian2(lon, lat, Div2(Const(R("4.2635212653763e-5")), Sin2(par))))
        \* the equator and equinox do not move at all during differentiation
        q == Fk5Equinox(mjd)
        ob == Poly(<< R("84381.448"), R("-46.8150"), R("-0.00059"), R("0.001813") >>, Centuries(mjd)) * AS2R
        Out(i) == LET x == v[1][i] y == v[2][i] z == v[3][i] IN
            << x - q * Cos(ob) * y + q * Sin(ob) * z, q * x + y * Cos(ob) - z * Sin(ob), y * Sin(ob) + z * Cos(ob) >>
        sec == R("3155760000")
        w == Out(2)
    IN Out(1) \o << w[1] / sec, w[2] / sec, w[3] / sec >>
DMoonAccept(a, r) ==
    LET w == Tup(FullMoon(a[1])) t == Abs(a[1] - R("15019.5")) / 36525
        tol == R("3e-11") * (1 + t)
    IN /\ Len(r) = 6
       /\ NearSeq(V3(r, 1), V3(w, 1), R("2.6e-3") * tol)
       /\ NearSeq(V3(r, 4), V3(w, 4), R("7e-9") * tol)

(* the abridged model; time in years from 1900; angles in degrees, whole turns per year apart *)
MoonTable == Table("moon.tbl")
MoonL == SelectSeq(MoonTable, LAMBDA w : w[1] = "L")
MoonB == SelectSeq(MoonTable, LAMBDA w : w[1] = "B")
MoonP == SelectSeq(MoonTable, LAMBDA w : w[1] = "P")
PlainSeries(rows, args, Fn(_)) ==
    Sum2(Tup([ i \in 1..Len(rows) |->
        LET w == rows[i]
            th == << w[3] * args[1][1] + w[4] * args[2][1] + w[5] * args[3][1] + w[6] * args[4][1],
                     w[3] * args[1][2] + w[4] * args[2][2] + w[5] * args[3][2] + w[6] * args[4][2] >>
        IN Times(w[2], Fn(th)) ]))
ShortMoon(y, d, f) ==
    LET yf == YearFraction(y, d, f)
        t == (y - 1900) + yf
        \* whole turns in a year count from the start of the year only
        Arg(c0, turns, rate) == Rad2(<< c0 + turns * yf + rate * t, turns + rate >>)
        m == Arg(R("358.475833"), 0, R("359.990498"))
        mp == Arg(R("296.104608"), 4680, R("91.988491"))
        dd == Arg(R("350.737486"), 4320, R("132.671142"))
        ff == Arg(R("11.250889"), 4680, R("152.020251"))
        args == << m, mp, dd, ff >>
        lon == Tup(Add2(Arg(R("270.434164"), 4680, R("132.678831")), Times(D2R, PlainSeries(MoonL, args, Sin2))))
        lat == Tup(Times(D2R, PlainSeries(MoonB, args, Sin2)))
        par == Tup(Times(D2R, Add2(Const(R("0.950724")), PlainSeries(MoonP, args, Cos2))))
        v == Tup(Cartesian2(lon, lat, Div2(Const(R("4.2635212653763e-5")), Sin2(par))))
        ob == D2R * (R("23.45229") - R("0.00013") * t)
        Out(i) == LET x == v[1][i] yy == v[2][i] z == v[3][i] IN << x, yy * Cos(ob) - z * Sin(ob), yy * Sin(ob) + z * Cos(ob) >>
        w == Out(2)
        sec == 86400 * R("365.25")
    IN Out(1) \o << w[1] / sec, w[2] / sec, w[3] / sec >>
MoonTol(y, d) == LET t == Abs(y - 1900) + Abs(d / 365) IN R("2e-5") * (1 + 3 * Abs(d / 365)) + R("7e-7") * t + (IF t > 500 THEN R("1e-6") * (t - 500) ELSE 0)
MoonAccept(a, r) ==
    LET w == Tup(ShortMoon(a[1], a[2], a[3])) tol == MoonTol(a[1], a[2])
    IN Len(r) = 6 /\ NearSeq(V3(r, 1), V3(w, 1), R("2.7e-3") * tol) /\ NearSeq(V3(r, 4), V3(w, 4), R("8e-9") * (R("1.5") * tol))

LunarOps == { "moon", "dmoon" }
LunarAccept(op, a, r) == IF op = "moon" THEN MoonAccept(a, r) ELSE DMoonAccept(a, r)
---------------------------------------------------------------------------
LunarGen(op, k) ==
    IF op = "dmoon" THEN << MjdG(k, 1) >>
    ELSE LET c == CalendarDayG(k, 1) IN IF Chance(k, 9, 2) THEN << IntUni(k, 8, 1896, 1904), c[2], c[3] >> ELSE c
LunarDirected(op) == IF op = "moon" THEN [ i \in 1..80 |-> << 1895 + ((i - 1) \div 4), 1 + 90 * ((i - 1) % 4), R("0.25") >> ] ELSE << >>
LunarNoMix == {}
=============================================================================
