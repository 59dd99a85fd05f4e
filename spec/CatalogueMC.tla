----------------------------- MODULE CatalogueMC ---------------------------
(***************************************************************************)
(* Someone types the identifier of an observatory letter by letter, or     *)
(* leafs through the catalogue by number.  What is found narrows with each *)
(* letter and is the first that fits; every entry can be found both ways;  *)
(* and what the catalogue says of it is somewhere on the Earth.            *)
(***************************************************************************)
EXTENDS Observatories
VARIABLES typed, entry
vars == << typed, entry >>
Letters == UNION { { SiteNames[i][j] : j \in 1..Len(SiteNames[i]) } : i \in 1..Len(Sites) } \cup { "?", " " }
Deep == Param("tier") = "thorough"
\* (in the quick tier, few letters that never follow)
Apt(j) == { SiteNames[i][j] : i \in { i \in 1..Len(Sites) : Len(SiteNames[i]) \geq j } }
Init == typed = << >> /\ entry \in -1..(Len(Sites) + 1)
\* (no more letters once nothing fits any more)
Found(cs) == IF cs = << >> THEN 1 ELSE SiteFound(-1, Join(cs, Len(cs)))
Next == entry = -1 /\ Found(typed) > 0 /\ \E c \in Letters : (Deep \/ Len(typed) < 2 \/ Found(typed) % 4 = 1 \/ c \in Apt(Len(typed) + 1)) /\ typed' = Append(typed, c) /\ entry' = entry
Spec == Init /\ [][Next]_vars
Fit(cs) == { i \in 1..Len(Sites) : BeginsWith(SiteNames[i], cs) }
Answer(i) == IF i = 0 THEN << FALSE, "?", "?", R("0"), R("0"), R("0") >> ELSE << TRUE, Sites[i][1], Sites[i][2], SiteAngle(Sites[i], 3), SiteAngle(Sites[i], 7), R(Sites[i][11]) >>
ById == (entry = -1 /\ Len(typed) > 0) =>
    LET id == Join(typed, Len(typed)) i == Found(typed) IN
    /\ (i = 0) = (Fit(typed) = {})
    /\ i > 0 => i \in Fit(typed) /\ \A k \in 1..(i - 1) : ~BeginsWith(SiteNames[k], typed)
    /\ SiteAccept("obs", << IF i > 0 THEN -1 ELSE -2000000000, id >>, Answer(i))
    /\ \A k \in { 0, i - 1, i + 1 } \cap 0..Len(Sites) : k # i => ~SiteAccept("obs", << -1, id >>, Answer(k))
    \* a longer word finds the same or a later entry, or none
    /\ Len(typed) > 1 => LET before == Found(SubSeq(typed, 1, Len(typed) - 1)) IN i = 0 \/ i \geq before
ByNumber == entry \geq 0 =>
    LET i == IF entry < Len(Sites) THEN entry + 1 ELSE 0 IN
    /\ \A id \in { "AAT", "?", "" } : SiteAccept("obs", << entry, id >>, Answer(i))                    \* whatever the identifier
    /\ \A k \in 0..Len(Sites) : k # i => ~SiteAccept("obs", << entry, "AAT" >>, Answer(k))
    /\ i > 0 =>
         LET s == Sites[i] lo == SiteAngle(s, 3) la == SiteAngle(s, 7) w == Answer(i) IN
         /\ \A k \in 1..Len(Sites) : k # i => Sites[k][1] # s[1]                                       \* identifiers are unique
         /\ SiteFound(-1, s[1]) = i                                                                    \* and found in full
         /\ Abs(lo) \leq Pi /\ Abs(la) < R("1.46") /\ In(R(s[11]), R("-10"), R("5200"))
         /\ \A q \in { 4, 8 } : In(s[q], 0, 180) /\ In(s[q + 1], 0, 59) /\ 0 \leq s[q + 2] /\ s[q + 2] < 60
         /\ ~SiteAccept("obs", << entry, "" >>, [ w EXCEPT ![4] = @ + R("1e-10") ]) /\ ~SiteAccept("obs", << entry, "" >>, [ w EXCEPT ![5] = -@ ])
         /\ ~SiteAccept("obs", << entry, "" >>, [ w EXCEPT ![6] = @ + R("0.1") ]) /\ ~SiteAccept("obs", << entry, "" >>, [ w EXCEPT ![3] = "?" ])
=============================================================================
