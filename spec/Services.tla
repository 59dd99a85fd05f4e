------------------------------ MODULE Services ------------------------------
(***************************************************************************)
(* Version and delay services.                                             *)
(***************************************************************************)
EXTENDS Common
\* version string and number agree: M.N-R and M * 1000000 + N * 1000 + R
Digits == << "0", "1", "2", "3", "4", "5", "6", "7", "8", "9" >>
IsDigit(c) == \E d \in 1..10 : Digits[d] = c
Digit(c) == (CHOOSE d \in 1..10 : Digits[d] = c) - 1
Numeral(cs) == Len(cs) > 0 /\ (\A i \in 1..Len(cs) : IsDigit(cs[i])) /\ (Len(cs) > 1 => cs[1] # "0")
Value(cs) == Fold(LAMBDA v, c : 10 * v + Digit(c), 0, cs)
VersionOk(r) ==
    /\ Len(r) = 2
    /\ LET cs == Chars(r[2]) IN
       \E d \in 2..Len(cs) : \E h \in (d + 2)..(Len(cs) - 1) :
          /\ cs[d] = "." /\ cs[h] = "-"
          /\ LET m == Tup(SubSeq(cs, 1, d - 1)) n == Tup(SubSeq(cs, d + 1, h - 1)) p == Tup(SubSeq(cs, h + 1, Len(cs))) IN
             Numeral(m) /\ Numeral(n) /\ Numeral(p) /\ r[1] = 1000000 * Value(m) + 1000 * Value(n) + Value(p)
\* a delay takes the given number of seconds to the nearest whole second, never less,
\* whatever signals the process handles meanwhile; a negative one takes none
Whole(x) == Max(0, Round(x))
WaitOk(x, r) == Len(r) = 1 /\ r[1] \geq Whole(x) - R("0.002") /\ r[1] \leq Whole(x) + R("0.8")
ServiceAccept(op, a, r) == CASE op = "version" -> VersionOk(r) [] op \in { "wait", "wait_signals" } -> WaitOk(a[1], r)
=============================================================================
