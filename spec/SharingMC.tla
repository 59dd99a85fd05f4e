------------------------------ MODULE SharingMC ------------------------------
(***************************************************************************)
(* Results stored over arguments.  A routine computes the three elements   *)
(* of a result C from those of A and of B: it may save elements of either  *)
(* in a frame of its own first, and then works out and stores one element  *)
(* after the other, in some order.  Memory holds, in each place, who wrote *)
(* it last.  An element is right when all it was worked out from was still *)
(* what the caller put there.                                              *)
(*   Apart: with arguments apart every routine is right.                   *)
(*   Noticed: a routine that is wrong in any arrangement of the places,    *)
(* also when all three are the same, is wrong in one of those that the     *)
(* sessions of the check make (C over A, C over B): these two are enough.  *)
(***************************************************************************)
EXTENDS Common
E3 == 1..3
\* what element i is worked out from: of everything, of the others, of its own, of itself and what precedes it
Uses(shape, i) == CASE shape = "product" -> E3 [] shape = "cross" -> E3 \ { i } [] shape = "own" -> { i } [] shape = "running" -> 1..i [] shape = "none" -> {}
Shapes == { "product", "cross", "own", "running", "none" }
Perms == { p \in [ E3 -> E3 ] : \A i \in E3, j \in E3 : i # j => p[i] # p[j] }
\* where the three arrays are
Arrangements == { "apart", "C is A", "C is B", "A is B", "all one" }
Place(arr, x) == CASE arr = "C is A" /\ x = "C" -> "A" [] arr = "C is B" /\ x = "C" -> "B" [] arr = "A is B" /\ x = "B" -> "A" [] arr = "all one" -> "A" [] OTHER -> x
Tested == { "C is A", "C is B" }
Routines == [ a : Shapes, b : Shapes, order : { p \in Perms : Param("tier") = "thorough" \/ p[1] # 2 }, keepA : SUBSET E3, keepB : SUBSET E3 ]

\* the whole run, in one go: is every element right?
RightIn(r, arr) ==
    LET Step[n \in 0..3] == \* << the elements of C stored so far, all right >>
            IF n = 0 THEN << {}, TRUE >>
            ELSE LET i == r.order[n] p == Step[n - 1]
                     Spoilt(x, kept, used) == Place(arr, x) = Place(arr, "C") /\ (used \ kept) \cap p[1] # {}
                 IN << p[1] \cup { i }, p[2] /\ ~Spoilt("A", r.keepA, Uses(r.a, i)) /\ ~Spoilt("B", r.keepB, Uses(r.b, i)) >>
    IN Step[3][2]

(* the same, step by step, in a memory *)
VARIABLES r, arr, written, n, right
vars == << r, arr, written, n, right >>
Init == r \in Routines /\ arr \in Arrangements /\ written = {} /\ n = 0 /\ right = TRUE
Next == /\ n < 3
        /\ LET i == r.order[n + 1] IN
           /\ right' = /\ right
                       /\ \A j \in Uses(r.a, i) \ r.keepA : << Place(arr, "A"), j >> \notin written
                       /\ \A j \in Uses(r.b, i) \ r.keepB : << Place(arr, "B"), j >> \notin written
           /\ written' = written \cup { << Place(arr, "C"), i >> }
        /\ n' = n + 1 /\ UNCHANGED << r, arr >>
Spec == Init /\ [][Next]_vars
Apart == arr \in { "apart", "A is B" } => right
Noticed == n = 3 => /\ right = RightIn(r, arr)
                    /\ right \/ \E t \in Tested : ~RightIn(r, t)
=============================================================================
