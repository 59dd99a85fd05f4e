------------------------------- MODULE GenEnum ------------------------------
(***************************************************************************)
(* Histories for N01: whole enumerations, each call taking the arrays the  *)
(* previous call left, through exhaustion and beyond; several enumerations *)
(* interleaved in one session; and single steps from drawn states.         *)
(***************************************************************************)
EXTENDS Library
VARIABLE n
Blocks == Param("blocks")
MaxC == IF Param("tier") = "thorough" THEN 9 ELSE 8
MaxP == IF Param("tier") = "thorough" THEN 8 ELSE 6
RECURSIVE Fact(_)
Fact(x) == IF x \leq 1 THEN 1 ELSE x * Fact(x - 1)
Binom(a, b) == Fact(a) \div (Fact(b) * Fact(a - b))
\* call number c of a session whose previous call of the same enumeration was p (0: none)
CombCall(nsel, ncand, p) == << "combn", << nsel, ncand, nsel + 1 >> \o [ i \in 1..(nsel + 1) |-> IF p = 0 THEN (IF i = 1 THEN 0 ELSE 50 + i) ELSE Ref(p, 1 + i) ] >>
PermCall(m, p) == << "permut", << m, m + 1 >> \o [ i \in 1..(m + 1) |-> IF p = 0 THEN (IF i = 1 THEN -1 ELSE 50 + i) ELSE Ref(p, 1 + i) ] >>
CombRun(nsel, ncand) == [ c \in 1..(Binom(ncand, nsel) * 2 + 3) |-> CombCall(nsel, ncand, c - 1) ]
PermRun(m) == [ c \in 1..(Fact(m) + Min(Fact(m), 200) + 2) |-> PermCall(m, c - 1) ]
\* three enumerations at once, taking turns as drawn; Last(i, e): the last call before i that belongs to e
Turn(k, i) == RndInt(k, i, 41, 3)
Mixed(k) ==
    LET a == IntUni(k, 1, 1, 5) b == a + IntUni(k, 2, 0, 4) x == IntUni(k, 3, 1, 4) y == x + IntUni(k, 4, 0, 4) m == IntUni(k, 5, 2, 6)
        Last(i, e) == LET s == { j \in 1..(i - 1) : Turn(k, j) = e } IN IF s = {} THEN 0 ELSE CHOOSE j \in s : \A h \in s : h \leq j
    IN [ i \in 1..60 |-> CASE Turn(k, i) = 0 -> CombCall(a, b, Last(i, 0)) [] Turn(k, i) = 1 -> CombCall(x, y, Last(i, 1)) [] Turn(k, i) = 2 -> PermCall(m, Last(i, 2)) ]
Single(op, b) == [ i \in 1..16 |-> << op, Gen(op, b * 16 + i) >> ]
Init == n = 0
Next == /\ n \leq Blocks + 1
        /\ n' = n + 1
        /\ IF n < Blocks THEN EmitSession(Single("combn", 2 * n)) /\ EmitSession(Single("permut", 2 * n + 1)) /\ (n % 4 = 0 => EmitSession(Mixed(n)))
           ELSE IF n = Blocks THEN /\ \A c \in 1..MaxC : \A s \in 1..c : EmitSession(CombRun(s, c))
                                   /\ \A m \in 1..MaxP : EmitSession(PermRun(m))
           ELSE EmitDone(n)
Spec == Init /\ [][Next]_n
=============================================================================
