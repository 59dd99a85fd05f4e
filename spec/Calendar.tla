------------------------------ MODULE Calendar ------------------------------
(***************************************************************************)
(* C01, C02: the proleptic Gregorian calendar and day numbers.             *)
(*                                                                         *)
(* The calendar itself is a transition system: Tomorrow takes one civil    *)
(* date to the next.  DayNumber is the closed form the library's answers   *)
(* are compared with; CalendarMC.tla checks by exhaustive exploration of   *)
(* whole 400-year cycles that it counts exactly the steps of Tomorrow.     *)
(***************************************************************************)
EXTENDS Common

IsLeap(y) == y % 4 = 0 /\ (y % 100 # 0 \/ y % 400 = 0)
DaysIn(y, m) == IF m = 2 THEN (IF IsLeap(y) THEN 29 ELSE 28) ELSE IF m \in {4, 6, 9, 11} THEN 30 ELSE 31
IsDate(y, m, d) == m \in 1..12 /\ 1 \leq d /\ d \leq DaysIn(y, m)
Tomorrow(c) ==
    IF c.d < DaysIn(c.y, c.m) THEN [c EXCEPT !.d = @ + 1]
    ELSE IF c.m < 12 THEN [y |-> c.y, m |-> c.m + 1, d |-> 1]
    ELSE [y |-> c.y + 1, m |-> 1, d |-> 1]

\* days before month m in a common year
BeforeMonth == << 0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334 >>
\* leap days in the years 1..y (negative for y < 0)
LeapsTo(y) == (y \div 4) - (y \div 100) + (y \div 400)
\* Modified Julian Date of 0h; any day of the month, even one that does not exist, counts on linearly
DayNumber(y, m, d) == 365 * (y - 2000) + LeapsTo(y - 1) - LeapsTo(1999)
                      + BeforeMonth[m] + (IF m > 2 /\ IsLeap(y) THEN 1 ELSE 0) + (d - 1) + 51544
\* the calendar in which every fourth year is a leap year, aligned with the Gregorian one in 2000
AlignedYearDay(y, m, d) ==
    LET n == DayNumber(y, m, d) - 51544
        l == n % 1461
        y4 == 2000 + 4 * (n \div 1461)
    IN IF l < 366 THEN << y4, l + 1 >> ELSE << y4 + 1 + ((l - 366) \div 365), ((l - 366) % 365) + 1 >>

WithCentury(y) == IF y \in 0..49 THEN y + 2000 ELSE IF y \in 50..99 THEN y + 1900 ELSE y

BAD_YEAR == 1
BAD_MONTH == 2
BAD_DAY == 3

DayAccept(year, m, d, r) ==
    /\ Len(r) = 2
    /\ IF year < -4699 THEN r[1] = BAD_YEAR /\ r[2] \doteq DSent
       ELSE IF m \notin 1..12 THEN r[1] = BAD_MONTH /\ r[2] \doteq DSent
       ELSE r[1] = (IF IsDate(year, m, d) THEN 0 ELSE BAD_DAY) /\ r[2] \doteq DayNumber(year, m, d)
YdAccept(year, m, d, r) ==
    /\ Len(r) = 3
    /\ IF year < -4711 THEN r[1] = BAD_YEAR /\ r[2] = ISent /\ r[3] = ISent
       ELSE IF m \notin 1..12 THEN r[1] = BAD_MONTH /\ r[2] = ISent /\ r[3] = ISent
       ELSE r[1] = (IF IsDate(year, m, d) THEN 0 ELSE BAD_DAY) /\ << r[2], r[3] >> = AlignedYearDay(year, m, d)

\* the supported range of the inverse
MjdSupported(mjd) == mjd > -2395520 /\ mjd < R("1e9")
DateAccept(mjd, r) ==
    /\ Len(r) = 5
    /\ IF ~MjdSupported(mjd) THEN r = << TRUE, ISent, ISent, ISent, r[5] >> /\ r[5] \doteq DSent
       ELSE /\ r[1] = FALSE
            /\ IsDate(r[2], r[3], r[4])
            /\ LET n == DayNumber(r[2], r[3], r[4]) f == mjd - Floor(mjd) IN
               \* a negative date so close to midnight that its fraction is not a number below 1 may be given to the next day
               IF mjd < 0 /\ f \geq 1 THEN n \doteq Floor(mjd) \/ n \doteq Floor(mjd) + 1
               ELSE n \doteq Floor(mjd) /\ 0 \leq r[5] /\ r[5] < 1 /\ Near(r[5], f, R("2e-16"))
RoundedDateAccept(ndp, mjd, r) ==
    /\ Len(r) = 5
    /\ IF ~MjdSupported(mjd) THEN r = << TRUE, ISent, ISent, ISent, ISent >>
       ELSE /\ r[1] = FALSE
            /\ IsDate(r[2], r[3], r[4])
            /\ LET p == IF ndp > 0 THEN ndp ELSE 0
                   fd == Round(Pow(10, p))
                   got == R(DayNumber(r[2], r[3], r[4])) * fd + r[5]
                   want == mjd * fd
               IN /\ 0 \leq r[5] /\ r[5] < fd
                  /\ IF p = 0 THEN got \doteq Round(mjd)
                     ELSE Near(got, want, R("0.5") + R("4e-16") * Abs(want))

CalendarOps == { "cldj", "caldj", "clyd", "calyd", "djcl", "djcal" }
CalendarAccept(op, a, r) ==
    CASE op = "cldj" -> DayAccept(a[1], a[2], a[3], r)
      [] op = "caldj" -> DayAccept(WithCentury(a[1]), a[2], a[3], r)
      [] op = "clyd" -> YdAccept(a[1], a[2], a[3], r)
      [] op = "calyd" -> YdAccept(WithCentury(a[1]), a[2], a[3], r)
      [] op = "djcl" -> DateAccept(a[1], r)
      [] op = "djcal" -> RoundedDateAccept(a[1], a[2], r)

---------------------------------------------------------------------------
YearG(k) == LET c == RndInt(k, 1, 1, 12) IN
    CASE c = 0 -> IntUni(k, 2, 0, 99)
      [] c = 1 -> IntUni(k, 2, -4715, -4690)
      [] c = 2 -> 100 * IntUni(k, 2, -40, 60)
      [] c = 3 -> IntUni(k, 2, -6000, -4700)
      [] c = 4 -> IntUni(k, 2, 9000, 1000000)
      [] c \in 5..7 -> IntUni(k, 2, 1800, 2200)
      [] OTHER -> IntUni(k, 2, -4711, 9999)
DateG(k) == LET y == YearG(k) c == RndInt(k, 1, 3, 10)
                m == IF c = 0 THEN IntUni(k, 3, -3, 16) ELSE IF c < 4 THEN Pick(k, 3, << 1, 2, 3, 12 >>) ELSE IntUni(k, 3, 1, 12)
                n == IF m \in 1..12 THEN DaysIn(y, m) ELSE 31
                e == RndInt(k, 1, 4, 10)
            IN << y, m, CASE e = 0 -> IntUni(k, 4, -40, 70) [] e \in 1..2 -> n [] e = 3 -> n + 1 [] e = 4 -> 1 [] e = 5 -> 0
                          [] OTHER -> IntUni(k, 4, 1, n) >>
DayG(k) == LET c == RndInt(k, 1, 5, 20) f == RndInt(k, 1, 6, 8)
               n == CASE c = 0 -> R(IntUni(k, 5, -2395525, -2395000))
                      [] c = 1 -> R(IntUni(k, 5, 530000000, 536000000))
                      [] c = 2 -> R(IntUni(k, 5, 999999990, 1000000002))
                      [] c = 3 -> Uni(k, 5, R("-2395519"), R("999999999"))
                      [] c \in 4..6 -> Floor(R(DayNumber(YearG(k + 7919), Pick(k, 6, << 1, 2, 3, 12 >>), Pick(k, 7, << 1, 28, 29, 31 >>))))
                      [] c = 7 -> R(IntUni(k, 5, -3, 3))
                      [] OTHER -> R(IntUni(k, 5, -2395519, 3000000))
           IN CASE f = 0 -> n
                [] f = 1 -> n + R("0.5")
                [] f = 2 -> NextDown(n + 1)
                [] f = 3 -> n + Pick(k, 9, << R("0.9999995"), R("0.99995"), R("0.00005"), R("0.49999"), R("0.995"), R("0.95"), R("0.05") >>)
                [] f = 4 -> NextUp(n)
                [] OTHER -> n + U(k, 8)
CalendarGen(op, k) ==
    CASE op \in { "cldj", "caldj", "clyd", "calyd" } -> DateG(k)
      [] op = "djcl" -> << DayG(k) >>
      [] op = "djcal" -> << Pick(k, 10, << -1, 0, 0, 1, 2, 3, 4, 4, 5, 6, 9 >>), DayG(k) >>

\* the first and last day of every month (and the day outside it) of every 100 consecutive years from y
MonthEdges(y) == Tup([ i \in 1..24 |-> << y, 1 + ((i - 1) \div 2), IF i % 2 = 1 THEN 1 ELSE DaysIn(y, 1 + ((i - 1) \div 2)) >> ])
LeapEdges(y) == << << y, 2, 28 >>, << y, 2, 29 >>, << y, 2, 30 >>, << y, 3, 1 >>, << y, 1, 1 >>, << y, 12, 31 >>, << y, 13, 1 >>, << y, 0, 1 >> >>
EdgeYears == << -4713, -4712, -4711, -4710, -4701, -4700, -4699, -4698, -4697, -4696, -4400, -4000, -1, 0, 1, 3, 4, 48, 49, 50, 51, 98, 99,
                100, 101, 400, 1582, 1600, 1700, 1800, 1858, 1899, 1900, 1901, 1904, 1999, 2000, 2001, 2004, 2049, 2050, 2099, 2100, 2400 >>
CalendarDirected(op) ==
    CASE op \in { "cldj", "caldj", "clyd", "calyd" } -> [ i \in 1..(Len(EdgeYears) * 8) |-> LeapEdges(EdgeYears[1 + ((i - 1) \div 8)])[1 + ((i - 1) % 8)] ]
      [] op = "djcl" -> << << R("-2395520") >>, << NextUp(R("-2395520")) >>, << R("-2395519.75") >>, << R("-2395519") >>, << NextDown(R("1e9")) >>,
                           << R("1e9") >>, << R("0") >>, << R("-0.25") >>, << R("-1") >>, << R("-1e-17") >>, << R("-1e-300") >>, << R("2e9") >>, << R("-3e9") >>,
                           << R("534470912") >>, << R("536870911") >>, << R("999999999.5") >> >>
      [] op = "djcal" -> << << 4, R("-2395520") >>, << 4, NextUp(R("-2395520")) >>, << 4, NextDown(R("1e9")) >>, << 4, R("1e9") >>, << 0, R("0.5") >>,
                            << 0, R("-0.5") >>, << 0, R("1.5") >>, << -3, R("2.5") >>, << 4, R("51543.99996") >>, << 4, R("51543.99994") >>, << 4, R("-0.00004") >>,
                            << 4, R("-0.00006") >>, << 1, R("0.95") >>, << 1, R("0.94") >>, << 4, R("536870911.25") >>, << 0, R("536870911.75") >>,
                            << 9, R("51543.9999999999") >>, << 3, R("-2395519.9996") >> >>
CalendarNoMix == {}
=============================================================================
