------------------------------- MODULE RangeMC -----------------------------
(***************************************************************************)
(* A wheel is turned by small steps, forwards and backwards through many   *)
(* turns.  Its position as a signed or an unsigned angle is the one its    *)
(* marks show, whatever the number of turns; of all the marks the          *)
(* normalising functions may answer with that one, and at the edges of the *)
(* range with either.                                                      *)
(***************************************************************************)
EXTENDS Sexagesimal
VARIABLES turned, edge
vars == << turned, edge >>
Deep == Param("tier") = "thorough"
Marks == 24
Most == IF Deep THEN 200 ELSE 40
\* ulps from the mark
Edges == { -2, -1, 0, 1, 2 }
Init == turned = 0 /\ edge \in Edges
Next == \E s \in { -1, 1 } : Abs(turned + s) \leq Most * Marks /\ turned' = turned + s /\ edge' = edge
Spec == Init /\ [][Next]_vars
RECURSIVE Nudge(_, _)
Nudge(x, n) == IF n = 0 THEN x ELSE IF n > 0 THEN Nudge(NextUp(x), n - 1) ELSE Nudge(NextDown(x), n + 1)
x == Nudge(turned * (TwoPi / Marks), edge)
Mark(k) == k * (TwoPi / Marks)
Here == turned % Marks
Signed == IF Here \leq Marks \div 2 THEN Here ELSE Here - Marks
\* what is left of the angle beside a mark once whole turns are removed (Fmod is exact)
Residue(k) == LET f == Fmod(x, TwoPi) d(j) == Abs(f + j * TwoPi - Mark(k)) IN
    CASE d(0) < 1 -> f [] d(1) < 1 -> f + TwoPi [] d(-1) < 1 -> f - TwoPi [] d(2) < 1 -> f + 2 * TwoPi [] OTHER -> f - 2 * TwoPi
Inside(lo, hi) == lo \leq x /\ x \leq hi
Positions ==
    /\ \A k \in -Marks..Marks :
         LET r == Residue(k) fits == (k - turned) % Marks = 0
             s == IF fits THEN r ELSE Mark(k) IN
         /\ SexAccept("drange", << x >>, << s >>) => fits /\ Abs(k) \leq Marks \div 2
         /\ SexAccept("dranrm", << x >>, << s >>) => fits /\ In(k, 0, Marks)
         /\ (fits /\ k = Signed /\ Here # Marks \div 2) => SexAccept("drange", << x >>, << s >>)
         /\ (fits /\ k = Here /\ Here # 0) => SexAccept("dranrm", << x >>, << s >>)
         /\ fits => ~SexAccept("drange", << x >>, << s + R("1e-12") >>)
    \* at the seams one of both sides is accepted
    /\ Here = Marks \div 2 => \E k \in { -(Marks \div 2), Marks \div 2 } : SexAccept("drange", << x >>, << Residue(k) >>)
    /\ Here = 0 => \E k \in { 0, Marks } : SexAccept("dranrm", << x >>, << Max(Residue(k), 0) >>)
    \* inside the range nothing changes
    /\ Inside(R("-3.14"), R("3.14")) => SexAccept("drange", << x >>, << x >>) /\ ~SexAccept("drange", << x >>, << NextUp(x) >>)
    /\ Inside(R("0"), R("6.28")) => SexAccept("dranrm", << x >>, << x >>) /\ ~SexAccept("dranrm", << x >>, << NextUp(x) >>)
=============================================================================
