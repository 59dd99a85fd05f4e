---------------------------- MODULE Sexagesimal -----------------------------
(***************************************************************************)
(* S01 (splitting into fields), S02 (combining fields), A01 (normalising). *)
(***************************************************************************)
EXTENDS Common

(* S01: the fields are the digits of a mixed-radix number: whole units of  *)
(* 10^-ndp seconds, of which there are as many as the rounded argument has *)
\* x: size of the interval in seconds; loss: relative rounding permitted in scaling the argument
FieldsAccept(ndp, neg, x, loss, r) ==
    LET rs == Round(Pow(10, IF ndp > 0 THEN ndp ELSE 0))
        got == ((R(r[2]) * 60 + r[3]) * 60 + r[4]) * rs + r[5]
    IN /\ Len(r) = 5
       /\ r[1] = (IF neg THEN "-" ELSE "+")
       /\ r[2] \geq 0
       /\ In(r[3], 0, 59) /\ In(r[4], 0, 59) /\ 0 \leq r[5] /\ r[5] < rs
       /\ Near(got, x * rs, R("0.5") + loss * x * rs)
DoubleLoss == R("1e-15")
SingleLoss == R("3e-7")
JoinLoss64 == R("3e-15")
JoinLoss32 == R("8e-7")

(* S02 *)
D2rStatus(d, m, s) == IF d < 0 \/ d > 359 THEN 1 ELSE IF m < 0 \/ m > 59 THEN 2 ELSE IF s < 0 \/ s \geq 60 THEN 3 ELSE 0
T2dStatus(h, m, s) == IF s < 0 \/ s \geq 60 THEN 3 ELSE IF m < 0 \/ m > 59 THEN 2 ELSE IF h < 0 \/ h > 23 THEN 1 ELSE 0
CombineAccept(a, status, unit, loss, r) ==
    /\ Len(r) = 2
    /\ r[1] = status
    /\ Near(r[2], (R(a[1]) * 3600 + R(a[2]) * 60 + a[3]) * unit, loss * unit * (R(Abs(a[1])) * 3600 + R(Abs(a[2])) * 60 + Abs(a[3])))

(* A01 *)
Turns(x) == Round(x / TwoPi)
SignedAccept(x, eps, r) ==
    /\ Len(r) = 1 /\ Finite(r[1])
    /\ Abs(r[1]) \leq Pi * (1 + eps)
    /\ IF Abs(x) < Pi * (1 - eps) THEN r[1] \doteq x
       ELSE LET d == x - r[1] IN Near(d, Turns(d) * TwoPi, 3 * eps * (Abs(x) + TwoPi))
UnsignedAccept(x, eps, r) ==
    /\ Len(r) = 1 /\ Finite(r[1])
    /\ 0 \leq r[1] /\ r[1] \leq TwoPi * (1 + eps)
    /\ IF 0 \leq x /\ x < TwoPi * (1 - eps) THEN r[1] \doteq x
       ELSE LET d == x - r[1] IN Near(d, Turns(d) * TwoPi, 3 * eps * (Abs(x) + TwoPi))
Eps64 == R("2.3e-16")
Eps32 == R("1.2e-7")

SplitOps == { "dd2tf", "cd2tf", "dr2tf", "cr2tf", "dr2af", "cr2af" }
JoinOps == { "daf2r", "caf2r", "dtf2d", "ctf2d", "dtf2r", "ctf2r" }
RangeOps == { "range", "drange", "ranorm", "dranrm" }
SexOps == SplitOps \cup JoinOps \cup RangeOps
SexAccept(op, a, r) ==
    CASE op \in { "dd2tf", "cd2tf" } -> FieldsAccept(a[1], a[2] < 0, Abs(a[2]) * 86400, DoubleLoss, r)
      [] op = "dr2tf" -> FieldsAccept(a[1], a[2] < 0, Abs(a[2]) / S2R, DoubleLoss, r)
      [] op = "cr2tf" -> FieldsAccept(a[1], a[2] < 0, Abs(a[2]) / S2R, SingleLoss, r)
      [] op = "dr2af" -> FieldsAccept(a[1], a[2] < 0, Abs(a[2]) / AS2R, DoubleLoss, r)
      [] op = "cr2af" -> FieldsAccept(a[1], a[2] < 0, Abs(a[2]) / AS2R, SingleLoss, r)
      [] op = "daf2r" -> CombineAccept(a, D2rStatus(a[1], a[2], a[3]), AS2R, JoinLoss64, r)
      [] op = "caf2r" -> CombineAccept(a, D2rStatus(a[1], a[2], a[3]), AS2R, JoinLoss32, r)
      [] op = "dtf2d" -> CombineAccept(a, T2dStatus(a[1], a[2], a[3]), 1 / 86400, JoinLoss64, r)
      [] op = "ctf2d" -> CombineAccept(a, T2dStatus(a[1], a[2], a[3]), 1 / 86400, JoinLoss32, r)
      [] op = "dtf2r" -> CombineAccept(a, T2dStatus(a[1], a[2], a[3]), S2R, JoinLoss64, r)
      [] op = "ctf2r" -> CombineAccept(a, T2dStatus(a[1], a[2], a[3]), S2R, JoinLoss32, r)
      [] op = "range" -> SignedAccept(a[1], Eps32, r)
      [] op = "drange" -> SignedAccept(a[1], Eps64, r)
      [] op = "ranorm" -> UnsignedAccept(a[1], Eps32, r)
      [] op = "dranrm" -> UnsignedAccept(a[1], Eps64, r)

---------------------------------------------------------------------------
NdpG(k) == Pick(k, 1, << -5, -1, 0, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9 >>)
\* an interval in seconds: close below or above a carry, or anything
SecondsG(k, ndp) ==
    LET c == RndInt(k, 1, 2, 12)
        u == Pow(10, -(IF ndp > 0 THEN ndp ELSE 0))
        h == IntUni(k, 3, 0, 30) m == IntUni(k, 4, 0, 59) s == IntUni(k, 5, 0, 59)
        whole == R((h * 60 + (IF c % 2 = 0 THEN m ELSE 59)) * 60 + (IF c % 3 = 0 THEN s ELSE 59))
    IN CASE c < 4 -> whole + 1 - u * Pick(k, 6, << R("0.5001"), R("0.4999"), R("0.6"), R("0.4"), R("1"), R("0.001"), R("1.4") >>)
         [] c < 6 -> whole + u * IntUni(k, 7, 0, 1000)
         [] c = 6 -> whole
         [] c = 7 -> u * Uni(k, 7, R("0"), R("3"))
         [] c = 8 -> R("86400") - u * Uni(k, 7, R("0"), R("2"))
         [] c = 9 -> IF Chance(k, 8, 2) THEN Pow(10, Uni(k, 7, R("5"), R("12"))) ELSE Uni(k, 7, R("0"), R("1e7"))
         [] OTHER -> Uni(k, 7, R("0"), R("86400"))
SexAngleG(k) == LET c == RndInt(k, 1, 5, 9) IN
    CASE c \in 0..3 -> (IF c = 0 THEN 2 ELSE 1) * IntUni(k, 2, -40, 40) * (IF c = 2 THEN QuarterPi ELSE Pi) + (IF c = 3 THEN TinyG(k, 3) ELSE R("0"))
      [] c = 4 -> TinyG(k, 3)
      [] c = 5 -> IF Chance(k, 6, 3) THEN MagG(k, 4, 12) ELSE Uni(k, 4, R("-1e6"), R("1e6"))
      [] c = 6 -> IntUni(k, 2, -1000, 1000) * TwoPi + TinyG(k, 3)
      [] OTHER -> Uni(k, 4, R("-20"), R("20"))
FieldG(k, j, lim) == LET c == RndInt(k, j, 1, 10) IN
    CASE c = 0 -> -1 [] c = 1 -> lim [] c = 2 -> lim + 1 [] c = 3 -> 0 [] c = 4 -> IntUni(k, j, -3 * lim, 4 * lim) [] c = 5 -> IF Chance(k, j + 50, 4) THEN IntUni(k, j, -1000000000, 1000000000) ELSE IntUni(k, j, -5000, 5000) [] OTHER -> IntUni(k, j, 0, lim)
SecFieldG(k, j) == LET c == RndInt(k, j, 1, 10) IN
    CASE c = 0 -> R("60") [] c = 1 -> R("59.9999") [] c = 2 -> R("0") [] c = 3 -> R("-0.001") [] c = 4 -> Uni(k, j, R("-100"), R("200"))
      [] c = 5 -> R("60.0001") [] OTHER -> Uni(k, j, R("0"), R("60"))
SexGen(op, k) ==
    CASE op \in { "dd2tf", "cd2tf" } -> LET n == NdpG(k) IN << n, SignG(k, 9) * (SecondsG(k, n) / 86400) >>
      [] op \in { "dr2tf", "cr2tf" } -> LET n == NdpG(k) IN << n, SignG(k, 9) * SecondsG(k, n) * S2R >>
      [] op \in { "dr2af", "cr2af" } -> LET n == NdpG(k) IN << n, SignG(k, 9) * SecondsG(k, n) * AS2R >>
      [] op \in { "daf2r", "caf2r" } -> << FieldG(k, 1, 359), FieldG(k, 2, 59), SecFieldG(k, 3) >>
      [] op \in { "dtf2d", "ctf2d", "dtf2r", "ctf2r" } -> << FieldG(k, 1, 23), FieldG(k, 2, 59), SecFieldG(k, 3) >>
      [] OTHER -> << SexAngleG(k) >>
EdgeFields(lim) == << -1, 0, lim, lim + 1 >>
EdgeSecs == << R("-1e-6"), R("0"), R("59.99999"), R("60"), R("30.5") >>
SexDirected(op) ==
    CASE op \in { "dd2tf", "cd2tf" } -> [ i \in 1..33 |-> LET n == ((i - 1) % 11) - 1 IN << n,
            IF i \leq 11 THEN R("0.99999999999999") ELSE IF i \leq 22 THEN R("-0.041666666666666") ELSE R("0") >> ]
      [] op \in { "dr2tf", "cr2tf", "dr2af", "cr2af" } -> [ i \in 1..44 |-> LET n == ((i - 1) % 11) - 1 IN << n,
            IF i \leq 11 THEN TwoPi * R("0.9999999999999") ELSE IF i \leq 22 THEN R("-0.261799387799149") ELSE IF i \leq 33 THEN R("0") ELSE R("-1e-12") >> ]
      [] op \in JoinOps -> LET lim == IF op \in { "daf2r", "caf2r" } THEN 359 ELSE 23 IN
            [ i \in 1..80 |-> << EdgeFields(lim)[1 + ((i - 1) % 4)], EdgeFields(59)[1 + (((i - 1) \div 4) % 4)], EdgeSecs[1 + ((i - 1) \div 16)] >> ]
      [] OTHER -> [ i \in 1..60 |-> << LET q == (((i - 1) \div 3) - 10) * HalfPi IN
            IF i % 3 = 0 THEN q ELSE IF i % 3 = 1 THEN (IF op \in { "range", "ranorm" } THEN q + R("1e-5") ELSE NextUp(q)) ELSE (IF op \in { "range", "ranorm" } THEN q - R("1e-5") ELSE NextDown(q)) >> ]
SexNoMix == {}
=============================================================================
