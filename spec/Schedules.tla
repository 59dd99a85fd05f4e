------------------------------ MODULE Schedules ------------------------------
(***************************************************************************)
(* The orders in which histories make the calls of a pool, and the ways in *)
(* which a result can share storage with what it is computed from.         *)
(***************************************************************************)
EXTENDS Common

\* a de Bruijn cycle of 0..depth-1: every ordered pair in immediate succession
CycleOf(depth) ==
    Tup(LET Walk[a \in 0..depth] ==
              IF a = depth THEN << >>
              ELSE << a >> \o [ i \in 1..(2 * (depth - 1 - a)) |-> IF i % 2 = 1 THEN a ELSE a + (i \div 2) ] \o Walk[a + 1]
        IN Walk[0] \o << 0 >>)

\* every three of 0..3 in immediate succession
Triples == << 0, 0, 0, 3, 3, 3, 2, 3, 3, 1, 3, 3, 0, 3, 2, 2, 3, 2, 1, 3, 2, 0, 3, 1, 2, 3, 1, 1, 3, 1, 0, 3, 0, 2, 3, 0, 1, 3, 0, 0, 2, 2, 2, 1, 2, 2, 0, 2, 1, 1, 2, 1, 0, 2, 0, 1, 2, 0, 0, 1, 1, 1, 0, 1, 0, 0 >>
\* every ordered pair of a pool, and then every three of each family of four in turn
Order(depth) == CycleOf(depth) \o [ i \in 1..((depth \div 4) * 66) |-> 4 * ((i - 1) \div 66) + Triples[1 + ((i - 1) % 66)] ]
=============================================================================
