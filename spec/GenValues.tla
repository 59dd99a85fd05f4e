------------------------------ MODULE GenValues -----------------------------
(***************************************************************************)
(* Histories of value objects for U01: one session per type that writes    *)
(* every setter once with everything observed after each write, and drawn  *)
(* histories over three slots of construction, writes, copies and          *)
(* observations.                                                           *)
(***************************************************************************)
EXTENDS ValueTypes
VARIABLE n
Blocks == Param("blocks")
RealV(k, j) == Pick(k, j + 40, << R("0"), R("1"), R("-1"), R("0.1"), MagG(k, j, 30), Uni(k, j, R("-10"), R("10")), Uni(k, j, R("-10"), R("10")), MagG(k, j, 3) >>)
IntV(k, j) == Pick(k, j + 40, << 0, 1, 23, 59, 60, 359, 99999, -1, 999999999, IntUni(k, j, -100000, 100000) >>)
ValueV(t, name, k, j) ==
    IF name = "signchar" THEN Pick(k, j, << "+", "-", "x", "0" >>)
    ELSE IF name = "sign" THEN RndInt(k, j, 8, 2) = 0
    ELSE IF t = "conv" THEN IntV(k, j) ELSE RealV(k, j)
New(slot, t, k, j) == << "obj_new", << slot, t, IF t = "conv" THEN << IntV(k, j), IntV(k, j + 1), IntV(k, j + 2), IntV(k, j + 3), RndInt(k, j, 9, 2) = 0 >>
                                                ELSE [ i \in 1..Width(t) |-> RealV(k, j + i) ] >> >>
Look(slot) == << "obj_view", << slot >> >>
Each(t) == LET ss == Setters(t) IN
    << New(1, t, 0, 1), Look(1), << "obj_copy", << 2, 1 >> >>, Look(2) >> \o
    [ i \in 1..(3 * Len(ss)) |-> LET f == ss[1 + ((i - 1) \div 3)] IN
        CASE i % 3 = 1 -> << "obj_set", << 1, f[1], ValueV(t, f[1], i, 3) >> >> [] i % 3 = 2 -> Look(1) [] OTHER -> Look(2) ]
Mixed(k) ==
    LET ts == [ s \in 1..3 |-> Pick(k, s, Types) ]
        \* the slot's type at each step: a copy changes it, so it is drawn first
        Step(i) == LET c == RndInt(k, i, 11, 12) IN [ slot |-> 1 + RndInt(k, i, 12, 3), from |-> 1 + RndInt(k, i, 13, 3),
                       kind |-> CASE c < 6 -> "set" [] c < 10 -> "view" [] c = 10 -> "copy" [] c = 11 -> "new" ]
        RECURSIVE Go(_, _, _)
        Go(i, tt, acc) ==
            IF i > 40 THEN acc
            ELSE LET st == Step(i) t == tt[st.slot] IN
                 CASE st.kind = "set" -> LET f == Pick(k, i + 100, Setters(t)) IN Go(i + 1, tt, Append(acc, << "obj_set", << st.slot, f[1], ValueV(t, f[1], k, i) >> >>))
                   [] st.kind = "view" -> Go(i + 1, tt, Append(acc, Look(st.slot)))
                   [] st.kind = "copy" -> Go(i + 1, [ tt EXCEPT ![st.slot] = tt[st.from] ], Append(acc, << "obj_copy", << st.slot, st.from >> >>))
                   [] st.kind = "new" -> LET u == Pick(k, i + 200, Types) IN Go(i + 1, [ tt EXCEPT ![st.slot] = u ], Append(acc, New(st.slot, u, k, i)))
    IN Go(1, ts, [ s \in 1..3 |-> New(s, ts[s], k, 300 + 10 * s) ]) \o << Look(1), Look(2), Look(3) >>
Init == n = 0
Next == /\ n \leq Blocks + 1
        /\ n' = n + 1
        /\ IF n = 0 THEN \A i \in 1..Len(Types) : EmitSession(Each(Types[i])) ELSE IF n \leq Blocks THEN EmitSession(Mixed(n)) ELSE EmitDone(n)
Spec == Init /\ [][Next]_n
=============================================================================
