----------------------------- MODULE Enumerators ----------------------------
(***************************************************************************)
(* The combination and permutation generators as state machines: the       *)
(* caller's array is the state, a call is a step.  Written over plain      *)
(* integers; EnumeratorsMC checks what a user relies on over whole         *)
(* histories, Combinatorics.tla binds the implementation to these steps.   *)
(***************************************************************************)
EXTENDS Num, Sequences
CPSOk == 0
CPSNoMore == 1
CPSInvalid == 2

(* combinations: ascending lists of nsel numbers from 1..ncand *)
CombFirst(nsel) == [ i \in 1..nsel |-> i ]
IsComb(nsel, ncand, l) == /\ \A i \in 1..nsel : l[i] \geq 1 /\ l[i] \leq ncand
                          /\ \A i \in 1..(nsel - 1) : l[i] < l[i + 1]
\* what item i may grow up to
CombRoom(nsel, ncand, l, i) == IF i = nsel THEN ncand ELSE l[i + 1] - 1
CombStep(nsel, ncand, l) ==     \* << status, list >>
    IF l[1] < 1 THEN << CPSOk, CombFirst(nsel) >>
    ELSE LET movable == { i \in 1..nsel : l[i] < CombRoom(nsel, ncand, l, i) } IN
         IF movable = {} THEN << CPSNoMore, CombFirst(nsel) >>
         ELSE LET i == CHOOSE x \in movable : \A y \in movable : x \leq y IN
              << CPSOk, [ j \in 1..nsel |-> IF j < i THEN j ELSE IF j = i THEN l[i] + 1 ELSE l[j] ] >>

(* permutations: a mixed-radix number, digit j in 0..j-1 *)
PermZero(n) == [ j \in 1..n |-> 0 ]
IsPermState(n, s) == \A j \in 1..n : s[j] \geq 0 /\ s[j] < j
PermStep(n, s) ==               \* << status, state >>
    IF s[1] < 0 THEN << CPSOk, PermZero(n) >>
    ELSE LET free == { j \in 1..n : s[j] < j - 1 } IN
         IF free = {} THEN << CPSNoMore, PermZero(n) >>
         ELSE LET i == CHOOSE x \in free : \A y \in free : x \leq y IN
              << CPSOk, [ j \in 1..n |-> IF j < i THEN 0 ELSE IF j = i THEN s[i] + 1 ELSE s[j] ] >>
\* the order it stands for: number l (from n down to 2) goes to the unfilled slot its digit counts to; 1 takes the last one
RECURSIVE PermFill(_, _, _)
PermFill(l, s, order) ==
    IF l < 2 THEN [ i \in 1..Len(order) |-> IF order[i] = 0 THEN 1 ELSE order[i] ]
    ELSE LET empty(i) == order[i] = 0
             before(i) == Len(SelectSeq([ j \in 1..(i - 1) |-> order[j] ], LAMBDA v : v = 0))
             slot == CHOOSE i \in 1..Len(order) : empty(i) /\ before(i) = s[l]
         IN PermFill(l - 1, s, [ order EXCEPT ![slot] = l ])
PermOrder(n, s) == PermFill(n, s, PermZero(n))
IsPerm(n, o) == Len(o) = n /\ \A v \in 1..n : \E i \in 1..n : o[i] = v
=============================================================================
