---------------------------- MODULE Combinatorics ---------------------------
(***************************************************************************)
(* N01: the implementation's generators against the steps of Enumerators.  *)
(***************************************************************************)
EXTENDS Common, Enumerators

CombnAccept(a, r) == \* nsel, ncand, length, list -> status, list
    LET nsel == a[1] ncand == a[2] len == a[3] IN
    /\ Len(r) = 1 + len
    /\ IF nsel < 1 \/ ncand < 1 \/ nsel > ncand
       THEN r[1] = CPSInvalid /\ \A i \in 1..len : r[1 + i] = a[3 + i]
       ELSE LET s == CombStep(nsel, ncand, SubSeq(a, 4, 3 + len)) IN
            /\ r[1] = s[1]
            /\ \A i \in 1..len : r[1 + i] = IF i > nsel THEN a[3 + i] ELSE s[2][i]
PermutAccept(a, r) == \* n, length, state -> status, state, order
    LET n == a[1] len == a[2] IN
    /\ Len(r) = 1 + 2 * len
    /\ IF n < 1
       THEN r[1] = CPSInvalid /\ \A i \in 1..len : r[1 + i] = a[2 + i] /\ r[1 + len + i] = ISent
       ELSE LET s == PermStep(n, SubSeq(a, 3, 2 + len)) o == PermOrder(n, s[2]) IN
            /\ r[1] = s[1]
            /\ \A i \in 1..len : r[1 + i] = IF i > n THEN a[2 + i] ELSE s[2][i]
            /\ \A i \in 1..len : r[1 + len + i] = IF i > n THEN ISent ELSE o[i]
EnumOps == { "combn", "permut" }
EnumAccept(op, a, r) == IF op = "combn" THEN CombnAccept(a, r) ELSE PermutAccept(a, r)

\* a state in the middle of some enumeration, ends and carries favoured
\* (by gaps up to g: few candidates, or up to hundreds of millions)
GapG(k) == Pick(k, 7, << 4, 4, 4, 4, 30, 200, 3000, 50000, 20000000 >>)
RECURSIVE CombG(_, _, _, _, _)
CombG(k, i, nsel, g, l) == IF i > nsel THEN l ELSE
    CombG(k, i + 1, nsel, g, Append(l, (IF l = << >> THEN 0 ELSE l[Len(l)]) + 1 + (IF RndInt(k, i, 1, 3) = 0 THEN RndInt(k, i, 2, g) ELSE 0)))
CombnG(k) ==
    LET c == RndInt(k, 1, 5, 12) IN
    IF c = 0 THEN << IntUni(k, 3, -2, 6), IntUni(k, 4, -2, 3), 8 >> \o [ i \in 1..8 |-> IF i = 1 /\ IntUni(k, 3, -2, 6) \in 1..IntUni(k, 4, -2, 3) THEN 0 ELSE IntUni(k, 10 + i, -3, 9) ]
    ELSE IF c = 1 THEN LET nsel == IntUni(k, 2, 1, 9) IN << nsel, nsel + IntUni(k, 3, 0, 8), nsel + 1 >> \o [ i \in 1..(nsel + 1) |-> IF i = 1 THEN -IntUni(k, 4, 0, 5) ELSE IntUni(k, 10 + i, -9, 99) ]
    ELSE LET nsel == IF c = 2 THEN IntUni(k, 2, 20, 90) ELSE IF c = 3 THEN IntUni(k, 2, 10, 25) ELSE IntUni(k, 2, 1, 9)
             g == GapG(k)
             l == Tup(CombG(k, 1, nsel, g, << >>))
             ncand == l[nsel] + IF RndInt(k, 3, 5, 2) = 0 THEN 0 ELSE IntUni(k, 4, 0, g + 1)
             pad == RndInt(k, 5, 5, 3)
         IN << nsel, ncand, nsel + pad >> \o l \o [ i \in 1..pad |-> IntUni(k, 60 + i, -9, 9) ]
PermutG(k) ==
    LET c == RndInt(k, 1, 5, 12) IN
    IF c = 0 THEN << -IntUni(k, 2, 0, 4), 5 >> \o [ i \in 1..5 |-> IntUni(k, 10 + i, -3, 4) ]
    ELSE LET n == IF c = 1 /\ RndInt(k, 2, 8, 3) = 0 THEN IntUni(k, 2, 20, 45) ELSE IF c < 3 THEN IntUni(k, 2, 9, 20) ELSE IntUni(k, 2, 1, 8)
             pad == RndInt(k, 5, 5, 3)
             full == IntUni(k, 3, 0, n)      \* this many low digits at their maximum
             s == [ i \in 1..n |-> IF c = 11 /\ i = 1 THEN -IntUni(k, 4, 1, 9) ELSE IF i \leq full THEN i - 1 ELSE IntUni(k, 10 + i, 0, i - 1) ]
         IN << n, n + pad >> \o s \o [ i \in 1..pad |-> IntUni(k, 60 + i, -9, 9) ]
EnumGen(op, k) == IF op = "combn" THEN CombnG(k) ELSE PermutG(k)
EnumDirected(op) == << >>
EnumNoMix == EnumOps
=============================================================================
