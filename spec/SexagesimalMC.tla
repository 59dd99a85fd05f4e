---------------------------- MODULE SexagesimalMC ---------------------------
(***************************************************************************)
(* A clock that counts units of 10^-ndp seconds and carries them into      *)
(* seconds, minutes and hours: what it shows is the one set of fields that *)
(* FieldsAccept admits for the interval it has counted, and the fields     *)
(* combine to that interval.                                               *)
(***************************************************************************)
EXTENDS Sexagesimal
VARIABLES ndp, h, m, s, f, t, left
vars == << ndp, h, m, s, f, t, left >>
Units(n) == CASE n = 0 -> 1 [] n = 1 -> 10 [] n = 2 -> 100 [] n = 3 -> 1000
Span(n) == IF Param("tier") = "thorough" THEN 90000 ELSE 6000
Init == /\ ndp \in 0..3 /\ \E st \in { << 0, 0, 0 >>, << 0, 59, 55 >>, << 22, 58, 30 >>, << 23, 59, 57 >>, << 359, 59, 56 >> } : h = st[1] /\ m = st[2] /\ s = st[3]
        /\ f = 0 /\ t = ((h * 60 + m) * 60 + s) * Units(ndp) /\ left = Span(ndp)
Next == /\ left > 0 /\ left' = left - 1 /\ t' = t + 1 /\ ndp' = ndp
        /\ f' = (f + 1) % Units(ndp)
        /\ s' = IF f' # 0 THEN s ELSE (s + 1) % 60
        /\ m' = IF f' # 0 \/ s' # 0 THEN m ELSE (m + 1) % 60
        /\ h' = IF f' # 0 \/ s' # 0 \/ m' # 0 THEN h ELSE h + 1
Spec == Init /\ [][Next]_vars
Shown(a, b, c, d) == << "+", a, b, c, d >>
Interval(x) == R(x) / Units(ndp)
Admitted == FieldsAccept(ndp, FALSE, Interval(t), DoubleLoss, Shown(h, m, s, f))
\* a little more or less is shown the same, more than half a unit is not
Nearest == /\ FieldsAccept(ndp, FALSE, Interval(t + R("0.49")), DoubleLoss, Shown(h, m, s, f))
           /\ (t > 0) => FieldsAccept(ndp, FALSE, Interval(t - R("0.49")), DoubleLoss, Shown(h, m, s, f))
           /\ ~FieldsAccept(ndp, FALSE, Interval(t + R("0.51")), DoubleLoss, Shown(h, m, s, f))
           /\ ~FieldsAccept(ndp, TRUE, Interval(t), DoubleLoss, Shown(h, m, s, f))
\* no other fields are admitted: neither the uncarried forms nor their neighbours
Unique == /\ ~FieldsAccept(ndp, FALSE, Interval(t), DoubleLoss, Shown(h, m, s, f + 1))
          /\ (s = 0 /\ m > 0) => ~FieldsAccept(ndp, FALSE, Interval(t), DoubleLoss, Shown(h, m - 1, 60, f))
          /\ (m = 0 /\ h > 0) => ~FieldsAccept(ndp, FALSE, Interval(t), DoubleLoss, Shown(h - 1, 60, s, f))
          /\ (f = 0 /\ s > 0) => ~FieldsAccept(ndp, FALSE, Interval(t), DoubleLoss, Shown(h, m, s - 1, Units(ndp)))
\* combining the fields gives the interval back, with status OK just when they are in range
Joined == LET a == << h, m, s + R(f) / Units(ndp) >>
              days == Interval(t) / 86400
          IN /\ CombineAccept(a, T2dStatus(a[1], a[2], a[3]), 1 / R("86400"), JoinLoss64, << T2dStatus(a[1], a[2], a[3]), days >>)
             /\ T2dStatus(a[1], a[2], a[3]) = IF h \leq 23 THEN 0 ELSE 1
             /\ D2rStatus(a[1], a[2], a[3]) = IF h \leq 359 THEN 0 ELSE 1
             /\ T2dStatus(a[1], a[2], R("60")) = 3 /\ T2dStatus(a[1], 60, a[3]) = 2
=============================================================================
