------------------------------ MODULE StreamMC -------------------------------
(***************************************************************************)
(* Random streams and what a process may do with them.  A process calls    *)
(* the uniform generator with seeds and the Gaussian one with deviations,  *)
(* in any order.  Its engines count the numbers drawn; a Gaussian deviate  *)
(* is the first or the second of a pair worked out from two accepted       *)
(* numbers, some being turned down (here every third pair of numbers).     *)
(*   The validation of N02 compares each call with the element of a        *)
(* reference stream recorded from the same implementation: a long run of   *)
(* the one generator, with the seed of the first uniform call, or with a   *)
(* deviation of one.  Kept: the right ways agree with their references in  *)
(* every history.  The assumption says that each wrong way differs from    *)
(* its own reference in some history of the kinds the check draws.         *)
(***************************************************************************)
EXTENDS Common
Right == { "own engines", "no spare" }
Wrong == { "one engine", "seed every call", "seed by change", "gauss seeds both", "scaled spare", "spare dropped when the deviation changes", "starts over", "uniform drops the spare", "seed of the latest" }
Calls == { << "u", 1 >>, << "u", 2 >>, << "g", 1 >>, << "g", 3 >> }
L == IF Param("tier") = "thorough" THEN 8 ELSE 6
Cycle == 5 \* after how many numbers a stream that starts over does

(* the state of a process: engines << seed, drawn >>, the spare and the deviation it was made for *)
None == << 0, 0 >>
Start == [ u |-> None, g |-> None, spare |-> FALSE, made |-> 0, lastseed |-> 0 ]
Wrap(v, i) == IF v = "starts over" THEN i % Cycle ELSE i
\* a uniform call: << what it gives, the state after >>
Uniform(v, p, seed) ==
    LET fresh == p.u = None
        e == CASE v = "seed every call" -> << seed, 0 >>
               [] v = "seed by change" /\ p.lastseed # seed -> << seed, 0 >>
               [] v = "seed of the latest" /\ ~fresh -> << seed, p.u[2] >>
               [] OTHER -> IF fresh THEN << seed, 0 >> ELSE p.u
        after == << e[1], Wrap(v, e[2] + 1) >>
    IN << << e[1], e[2] >>, [ p EXCEPT !.u = after, !.lastseed = seed, !.spare = IF v = "uniform drops the spare" THEN FALSE ELSE @ ] >>
\* the engine after the numbers of one accepted pair have been drawn
Accepted(v, e) == LET n == e[2] IN << e[1], Wrap(v, IF (n \div 2) % 3 = 2 THEN n + 4 ELSE n + 2) >>
Gauss(v, p, sd) ==
    LET shared == v = "one engine"
        e0 == IF shared THEN p.u ELSE p.g
        e == IF e0 = None THEN << 9, 0 >> ELSE e0
        have == p.spare /\ v # "no spare" /\ ~(v = "spare dropped when the deviation changes" /\ p.made # sd)
        after == Accepted(v, e)
        \* a spare is the second deviate of the pair last drawn
        value == IF have THEN << e, 2 >> ELSE << after, 1 >>
        scale == IF v = "scaled spare" /\ have THEN p.made ELSE sd
        q == [ p EXCEPT !.spare = ~have, !.made = sd ]
    IN << << value, scale >>,
          IF have THEN q
          ELSE IF shared THEN [ q EXCEPT !.u = after ]
          ELSE IF v = "gauss seeds both" /\ p.u = None THEN [ q EXCEPT !.g = after, !.u = << 9, 0 >> ]
          ELSE [ q EXCEPT !.g = after ] >>
Make(v, p, c) == IF c[1] = "u" THEN Uniform(v, p, c[2]) ELSE Gauss(v, p, c[2])

(* the references of an implementation: n calls of one kind *)
Solo(v, c, n) == LET Run[i \in 0..n] == IF i = 0 THEN << << >>, Start >> ELSE LET m == Make(v, Run[i - 1][2], c) IN << Append(Run[i - 1][1], m[1]), m[2] >> IN Tup(Run[n][1])
RefsOf(v) == << Solo(v, << "u", 1 >>, 12), Solo(v, << "u", 2 >>, 12), Solo(v, << "g", 1 >>, 12) >>
AllRefs == [ v \in Right \cup Wrong |-> RefsOf(v) ]
\* the call fits the reference: nu uniform and ng Gaussian elements were consumed before it
Fits(v, c, got, nu, ng, first) ==
    IF c[1] = "u" THEN got = AllRefs[v][IF nu = 0 THEN c[2] ELSE first][nu + 1]
    ELSE LET w == AllRefs[v][3][ng + 1] IN got[1] = w[1] /\ got[2] = c[2] * w[2]
\* a whole history: does every call fit?
AllFit(v, h) ==
    LET Run[i \in 0..Len(h)] == \* << state, nu, ng, first seed, fits >>
            IF i = 0 THEN << Start, 0, 0, 0, TRUE >>
            ELSE LET r == Run[i - 1] c == h[i] m == Make(v, r[1], c) IN
                 << m[2], r[2] + (IF c[1] = "u" THEN 1 ELSE 0), r[3] + (IF c[1] = "g" THEN 1 ELSE 0),
                    IF c[1] = "u" /\ r[2] = 0 THEN c[2] ELSE r[4], r[5] /\ Fits(v, c, m[1], r[2], r[3], r[4]) >>
    IN Run[Len(h)][5]
\* a reference that starts over is seen in the reference itself
FreshRef(v) == \A k \in 1..3 : \A i \in 1..11 : \A j \in (i + 1)..12 : AllRefs[v][k][i] # AllRefs[v][k][j]
ASSUME \A v \in Wrong : ~FreshRef(v) \/ \E n \in 1..4 : \E h \in [ 1..n -> Calls ] : ~AllFit(v, Tup(h))
ASSUME \A v \in Right : FreshRef(v)

VARIABLES way, proc, nu, ng, first, fits
vars == << way, proc, nu, ng, first, fits >>
Init == way \in Right /\ proc = Start /\ nu = 0 /\ ng = 0 /\ first = 0 /\ fits = TRUE
Next == /\ nu + ng < L
        /\ \E c \in Calls :
              LET m == Make(way, proc, c) IN
              /\ proc' = m[2]
              /\ fits' = (fits /\ Fits(way, c, m[1], nu, ng, first))
              /\ IF c[1] = "u" THEN nu' = nu + 1 /\ ng' = ng /\ first' = (IF nu = 0 THEN c[2] ELSE first)
                 ELSE ng' = ng + 1 /\ UNCHANGED << nu, first >>
        /\ way' = way
Spec == Init /\ [][Next]_vars
Kept == fits
=============================================================================
