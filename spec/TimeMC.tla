------------------------------- MODULE TimeMC -------------------------------
(***************************************************************************)
(* The UTC scale of TimeScales.tla explored in steps of an eighth of a day *)
(* from 1955 to 2035, with the civil calendar running alongside.           *)
(***************************************************************************)
EXTENDS TimeScales, Calendar
VARIABLES c, u       \* civil date; eighths of a day since 0h of 1955 January 1
vars == << c, u >>
Years == 1955..2035
Utc == DayNumber(c.y, c.m, c.d) + R(u) / 8
Init == \E y \in Years : c = [y |-> y, m |-> 1, d |-> 1] /\ u = 0
Next == IF u < 7 THEN u' = u + 1 /\ c' = c
        ELSE u' = 0 /\ c' = Tomorrow(c) /\ c.y = (Tomorrow(c)).y
Spec == Init /\ [][Next]_vars
\* the published introductions of leap seconds
LeapDates == { << y, 1 >> : y \in { 1972, 1973, 1974, 1975, 1976, 1977, 1978, 1979, 1980, 1988, 1990, 1991, 1996, 1999, 2006, 2009, 2017 } }
             \cup { << y, 7 >> : y \in { 1972, 1981, 1982, 1983, 1985, 1992, 1993, 1994, 1997, 2012, 2015 } }
Whole(x) == x \doteq Floor(x)
Eighth == R("0.125")
\* since 1972 a whole number of seconds, one more exactly from 0h of each introduction
Steps == (Utc > 41317) =>
         LET a == TaiMinusUtc(Utc) b == TaiMinusUtc(Utc - Eighth) IN
         /\ Whole(a)
         /\ (a - b) \doteq (IF u = 0 /\ c.d = 1 /\ << c.y, c.m >> \in LeapDates THEN R("1") ELSE R("0"))
FirstLast == /\ (c = [y |-> 1972, m |-> 1, d |-> 1] /\ u = 0) => TaiMinusUtc(Utc) \doteq 10
             /\ (c.y = 2035) => TaiMinusUtc(Utc) \doteq 37
\* before, linear in between, jumping by at most a tenth of a second, and only at 0h of the first of a month
Drifts == (Utc < 41317) =>
          LET a == TaiMinusUtc(Utc) b == TaiMinusUtc(Utc - Eighth) x == TaiMinusUtc(Utc - 2 * Eighth) IN
          /\ Abs(a - b) < R("0.11")
          /\ Abs(a - 2 * b + x) > R("0.0000005") => (u \leq 1 /\ c.d = 1)
          /\ Abs(a - b) > R("0.0004") => (u = 0 /\ c.d = 1)
\* sidereal time: a day of UT1 gains three minutes and fifty-six and a half seconds
Gains == LET t == (Utc - R("51544.5")) / 36525 IN
         NearAngle(Gmst(t + R("1") / 36525, R("0")) - Gmst(t, R("0")), (R("236.55536790872") + R("5.098097e-6") * (t + R("0.5") / 36525)) * S2R, R("1e-12"))
\* epochs: the conversions are inverse to each other, and the kinds agree to about a week over these years
Epochs == /\ Near(BesselianDate(BesselianEpoch(Utc)), Utc, R("1e-9")) /\ Near(JulianDate(JulianEpoch(Utc)), Utc, R("1e-9"))
          /\ \A w \in { "B", "J", "b", "j" } : \A g \in { "B", "J", "b", "j" } :
                LET e == JulianEpoch(Utc) z == EpochConvert(w, g, e) IN Abs(z - e) < R("0.01") /\ Near(EpochConvert(g, w, z), e, R("1e-10"))
          /\ Near(BesselianEpoch(R("33281.92345905")), 1950, R("1e-10")) /\ JulianEpoch(R("15019.5")) \doteq 1900
          /\ EpochConvert("X", "B", JulianEpoch(Utc)) \doteq 0
=============================================================================
