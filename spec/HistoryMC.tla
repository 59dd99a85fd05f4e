------------------------------ MODULE HistoryMC ------------------------------
(***************************************************************************)
(* Histories and what libraries may remember.  A computation of two        *)
(* arguments is made by a library that keeps something between calls:      *)
(* nothing, a memo that is keyed on all it depends on (both are allowed),  *)
(* or one of the kinds of memory that would make a result depend on        *)
(* earlier calls.  The library answers the walk through all ordered pairs  *)
(* and triples of a pool of calls, and then many repetitions of each call.             *)
(*   Independent: a library that may keep what it keeps always answers as  *)
(* in a fresh process.  Noticed: any other has answered differently        *)
(* somewhere on the way, whenever there is a short sequence of calls of    *)
(* the pool that makes a difference at all.                                *)
(***************************************************************************)
EXTENDS Schedules, FiniteSets
Allowed == { "nothing", "memo", "table" }
Faulty == { "first argument", "second argument", "near", "once", "leftover", "two back", "half", "table by one", "seventh" }
D == 4
Domain == { 0, 1, 5 } \X { 0, 1 }
F(c) == 10 * c[1] + c[2] + 1
Big == 1000000
NoCall == << Big, Big >>

(* what is kept: the last two calls and the results given, the first call, *)
(* the calls whose results are held, and how many calls there were         *)
Fresh == [ last |-> NoCall, given |-> 0, before |-> NoCall, first |-> NoCall, held |-> << >>, calls |-> 0 ]
Dist(a, b) == IF a < b THEN b - a ELSE a - b
Holder(m, P(_)) == LET I == { i \in 1..Len(m.held) : P(m.held[i]) } IN IF I = {} THEN 0 ELSE CHOOSE i \in I : \A j \in I : i \leq j
Answer(kind, m, c) ==
    CASE kind = "nothing" -> F(c)
      [] kind = "memo" -> IF m.last = c THEN m.given ELSE F(c)
      [] kind = "table" -> LET i == Holder(m, LAMBDA h : h = c) IN IF i = 0 THEN F(c) ELSE F(m.held[i])
      [] kind = "first argument" -> IF m.last[1] = c[1] THEN m.given ELSE F(c)
      [] kind = "second argument" -> IF m.last[2] = c[2] THEN m.given ELSE F(c)
      [] kind = "near" -> IF m.last # NoCall /\ Dist(m.last[1], c[1]) \leq 1 /\ m.last[2] = c[2] THEN m.given ELSE F(c)
      [] kind = "once" -> F(<< IF m.first = NoCall THEN c[1] ELSE m.first[1], c[2] >>)   \* a constant worked out in the first call
      [] kind = "leftover" -> IF c[2] = 0 /\ m.last # NoCall THEN F(c) + m.last[2] ELSE F(c)   \* a sum that is not cleared on one path
      [] kind = "two back" -> IF m.before[1] = c[1] THEN F(<< c[1], m.before[2] >>) ELSE F(c)
      [] kind = "half" -> F(<< c[1], IF m.last[1] = c[1] /\ Dist(m.last[2], c[2]) \leq 1 THEN m.last[2] ELSE c[2] >>)  \* an inner quantity kept too long
      [] kind = "table by one" -> LET i == Holder(m, LAMBDA h : h[1] = c[1]) IN IF i = 0 THEN F(c) ELSE F(m.held[i])
      [] kind = "seventh" -> IF m.calls % 7 = 6 THEN F(c) + 1 ELSE F(c)
After(kind, m, c) ==
    LET r == Answer(kind, m, c) IN
    [ last |-> c, given |-> r, before |-> m.last, first |-> IF m.first = NoCall THEN c ELSE m.first,
      held |-> IF kind \in { "table", "table by one" } /\ ~\E i \in 1..Len(m.held) : m.held[i] = c THEN Append(m.held, c) ELSE m.held, calls |-> IF kind = "seventh" THEN m.calls + 1 ELSE 0 ]

\* does a sequence of up to three calls of the pool make a difference?
Matters(kind, pool) ==
    IF kind = "seventh" THEN TRUE
    ELSE \E a \in 1..D, b \in 1..D :
            LET m1 == After(kind, Fresh, pool[a]) m2 == After(kind, m1, pool[b]) IN
            \/ Answer(kind, m1, pool[b]) # F(pool[b])
            \/ \E c \in 1..D : Answer(kind, m2, pool[c]) # F(pool[c])

Walk == Tup(Order(D))
Repeats == 3
Plan == Walk \o [ i \in 1..(D * Repeats) |-> (i - 1) \div Repeats ]
ASSUME \A a \in 0..(D - 1), b \in 0..(D - 1) : \E i \in 1..(Len(Walk) - 1) : Walk[i] = a /\ Walk[i + 1] = b
ASSUME \A a \in 0..3, b \in 0..3, c \in 0..3 : \E i \in 1..(Len(Walk) - 2) : Walk[i] = a /\ Walk[i + 1] = b /\ Walk[i + 2] = c
ASSUME \A d \in 1..24 : LET w == CycleOf(d) IN Len(w) = d * d + 1 /\ Cardinality({ << w[i], w[i + 1] >> : i \in 1..(d * d) }) = d * d

VARIABLES kind, pool, mem, pos, seen
vars == << kind, pool, mem, pos, seen >>
Init == /\ kind \in Allowed \union Faulty
        /\ pool \in { p \in [ 1..D -> Domain ] : \A i \in 1..D, j \in 1..D : i # j => p[i] # p[j] }
        /\ mem = Fresh /\ pos = 0 /\ seen = FALSE
Next == /\ pos < Len(Plan)
        /\ LET c == pool[Plan[pos + 1] + 1] IN
           /\ mem' = After(kind, mem, c)
           /\ seen' = (seen \/ Answer(kind, mem, c) # F(c))
        /\ pos' = pos + 1
        /\ UNCHANGED << kind, pool >>
Spec == Init /\ [][Next]_vars
Independent == kind \in Allowed => ~seen
Noticed == pos = Len(Plan) /\ Matters(kind, pool) => seen \/ kind \in Allowed
=============================================================================
