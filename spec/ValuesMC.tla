------------------------------ MODULE ValuesMC ------------------------------
(***************************************************************************)
(* All histories of two objects of one type, up to a bound on writes and   *)
(* copies: a write is seen through every name of its component and through *)
(* nothing else, and never in the other object.                            *)
(***************************************************************************)
EXTENDS ValueTypes
Bound == IF Param("tier") = "thorough" THEN 4 ELSE 3
VARIABLES t, store, last, count
vars == << t, store, last, count >>
Blank(u) == [ type |-> u, comp |-> [ i \in 1..Width(u) |-> IF u = "conv" /\ i = 5 THEN "-" ELSE 0 ] ]
Init == /\ \E i \in 1..Len(Types) : t = Types[i]
        /\ store = << Blank(t), Blank(t) >> /\ last = << >> /\ count = 0
Domain(name) == IF name = "sign" THEN { TRUE, FALSE } ELSE IF name = "signchar" THEN { "+", "-" } ELSE { 0, 1 }
Set(k, i, v) == LET f == Setters(t)[i] IN
    /\ store' = [ store EXCEPT ![k] = Written(@, f[1], v) ]
    /\ last' = << k, i, Kept(t, f[1], v) >>
Copy(k) == store' = [ store EXCEPT ![k] = store[3 - k] ] /\ last' = << >>
Next == /\ count < Bound
        /\ count' = count + 1
        /\ t' = t
        /\ \E k \in 1..2 : Copy(k) \/ \E i \in 1..Len(Setters(t)) : \E v \in Domain(Setters(t)[i][1]) : Set(k, i, v)
Spec == Init /\ [][Next]_vars
Seen == last # << >> => LET c == Setters(t)[last[2]][2] IN
    \A j \in 1..Len(Shown(t)) : Shown(t)[j] = c => View(store[last[1]])[j] = last[3]
\* every component is reachable by a setter and shown by an observation
Complete == \A c \in 1..Width(t) : (\E i \in 1..Len(Setters(t)) : Setters(t)[i][2] = c) /\ (\E j \in 1..Len(Shown(t)) : Shown(t)[j] = c)
OnlyThat == [][ last' # << >> =>
    /\ store'[3 - last'[1]] = store[3 - last'[1]]
    /\ \A c \in 1..Width(t) : c # Setters(t)[last'[2]][2] => store'[last'[1]].comp[c] = store[last'[1]].comp[c] ]_vars
=============================================================================
