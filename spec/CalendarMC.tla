----------------------------- MODULE CalendarMC -----------------------------
(***************************************************************************)
(* The calendar of Calendar.tla explored day by day.  Runs start at the    *)
(* first of January of some years and walk through whole 400-year cycles;    *)
(* the runs overlap, so one continuous count of days covers them all.      *)
(***************************************************************************)
EXTENDS Calendar
VARIABLES c, n, left
vars == << c, n, left >>
Starts == IF Param("tier") = "thorough" THEN { -4699 + 50 * i : i \in 0..160 } ELSE { b + 50 * i : b \in { -4699, -299, 1601 }, i \in 0..7 }
Span == 51 * 366
Init == \E y \in Starts : c = [y |-> y, m |-> 1, d |-> 1] /\ n = DayNumber(y, 1, 1) /\ left = Span
Next == left > 0 /\ c' = Tomorrow(c) /\ n' = n + 1 /\ left' = left - 1
Spec == Init /\ [][Next]_vars
\* the closed form counts the steps, for a day that exists
Counts == IsDate(c.y, c.m, c.d) /\ DayNumber(c.y, c.m, c.d) = n
\* known days
Anchors == /\ (c = [y |-> 2000, m |-> 1, d |-> 1]) => n = 51544
           /\ (c = [y |-> 1858, m |-> 11, d |-> 17]) => n = 0
           /\ (c = [y |-> 1970, m |-> 1, d |-> 1]) => n = 40587
\* a day number is accepted for its own date and for no neighbouring one
Answer(x) == << FALSE, x.y, x.m, x.d, R("0.25") >>
Inverse == /\ DateAccept(n + R("0.25"), Answer(c))
           /\ ~DateAccept(n + R("0.25"), Answer(Tomorrow(c)))
           /\ ~DateAccept(n + R("1.25"), Answer(c))
\* rounded to whole days the answer changes at noon
Rounded == /\ RoundedDateAccept(0, n + R("0.25"), << FALSE, c.y, c.m, c.d, 0 >>)
           /\ ~RoundedDateAccept(0, n - R("0.75"), << FALSE, c.y, c.m, c.d, 0 >>)
           /\ RoundedDateAccept(0, n - R("0.25"), << FALSE, c.y, c.m, c.d, 0 >>)
\* in the aligned calendar days follow each other and exactly the years divisible by four are long
Aligned == LET a == AlignedYearDay(c.y, c.m, c.d) b == LET t == Tomorrow(c) IN AlignedYearDay(t.y, t.m, t.d) IN
           /\ a[2] \in 1..(IF a[1] % 4 = 0 THEN 366 ELSE 365)
           /\ b = IF a[2] = (IF a[1] % 4 = 0 THEN 366 ELSE 365) THEN << a[1] + 1, 1 >> ELSE << a[1], a[2] + 1 >>
           /\ (1901 \leq c.y /\ c.y \leq 2099) => a = << c.y, n - DayNumber(c.y, 1, 1) + 1 >>
\* exactly one status, and it depends on the date alone
Status == \A x \in { 0, DaysIn(c.y, c.m) + 1 } :
              /\ DayAccept(c.y, c.m, x, << BAD_DAY, DayNumber(c.y, c.m, x) >>)
              /\ ~DayAccept(c.y, c.m, x, << 0, DayNumber(c.y, c.m, x) >>)
=============================================================================
