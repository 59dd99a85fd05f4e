---------------------------- MODULE EliminationMC ---------------------------
(***************************************************************************)
(* Elimination over the integers, without fractions and with any choice of *)
(* pivot.  Whatever the choices, the end is the same determinant and       *)
(* adjugate; and these, and nothing near them, are what the acceptance     *)
(* relation of LinearSystems.tla admits.                                   *)
(***************************************************************************)
EXTENDS LinearSystems, FiniteSets, TLC
VARIABLES given, m, k, last, sign, todo
vars == << given, m, k, last, sign, todo >>
Deep == Param("tier") = "thorough"
Seqs(S, n) == [ 1..n -> S ]
Two == Seqs(Seqs(-2..2, 2), 2)
Three == IF Deep THEN Seqs(Seqs(-1..1, 3), 3) ELSE { x \in Seqs(Seqs({ -1, 0, 2 }, 3), 3) : x[1][1] + x[1][2] + x[1][3] \in { 1, 2 } /\ x[2][1] \geq 0 }
N == Len(given)
\* columns done, working matrix with the identity beside it, pivot of the step before, parity of the exchanges, 1 while columns remain
Init == /\ given \in Two \cup Three
        /\ m = [ i \in 1..N |-> [ j \in 1..(2 * N) |-> IF j \leq N THEN given[i][j] ELSE IF j - N = i THEN 1 ELSE 0 ] ]
        /\ k = 0 /\ last = 1 /\ sign = 1 /\ todo = TRUE
Exchanged(x, p, q) == [ i \in 1..N |-> x[IF i = p THEN q ELSE IF i = q THEN p ELSE i] ]
Exact(a, b) == IF a % (IF b < 0 THEN -b ELSE b) = 0 THEN (IF b < 0 THEN -(a \div (-b)) ELSE a \div b) ELSE Assert(FALSE, << "not whole", a, b >>)
Step(p) ==
    LET c == k + 1 e == Exchanged(m, c, p) x == e[c][c] IN
    /\ m[p][c] # 0
    /\ m' = [ i \in 1..N |-> IF i = c THEN e[c] ELSE [ j \in 1..(2 * N) |-> Exact(x * e[i][j] - e[i][c] * e[c][j], last) ] ]
    /\ k' = c /\ last' = x /\ sign' = (IF p = c THEN sign ELSE -sign) /\ todo' = (c < N) /\ UNCHANGED given
Next == \/ todo /\ \E p \in (k + 1)..N : Step(p)
        \/ todo /\ (\A p \in (k + 1)..N : m[p][k + 1] = 0) /\ todo' = FALSE /\ UNCHANGED << given, m, k, last, sign >>
Spec == Init /\ [][Next]_vars
\* determinant by permutations
Perms == { p \in Seqs(1..N, N) : Cardinality({ p[i] : i \in 1..N }) = N }
Odd(p) == Cardinality({ ij \in (1..N) \X (1..N) : ij[1] < ij[2] /\ p[ij[1]] > p[ij[2]] }) % 2 = 1
RECURSIVE Times(_, _), Total(_)
Times(p, i) == IF i = 0 THEN 1 ELSE given[i][p[i]] * Times(p, i - 1)
Total(S) == IF S = {} THEN 0 ELSE LET p == CHOOSE p \in S : TRUE IN (IF Odd(p) THEN -1 ELSE 1) * Times(p, N) + Total(S \ { p })
Det == Total(Perms)
Right == << 1, -2, 3 >>
Flat(x) == [ q \in 1..(N * N) |-> R(x[1 + ((q - 1) \div N)][1 + ((q - 1) % N)]) ]
Args == << N >> \o Flat(given) \o [ i \in 1..N |-> R(Right[i]) ]
\* m = [ last * I | last * inverse of given ] with rows in their own places
InverseAt(i, j) == R(m[i][N + j]) / last
Answer(det, flip) ==
    LET inv == [ i \in 1..N |-> [ j \in 1..N |-> IF flip THEN InverseAt(j, i) ELSE InverseAt(i, j) ] ]
        Unk(i) == Sum([ j \in 1..N |-> InverseAt(i, j) * Right[j] ])
    IN << FALSE, det >> \o [ i \in 1..N |-> Unk(i) ] \o [ q \in 1..(N * N) |-> inv[1 + ((q - 1) \div N)][1 + ((q - 1) % N)] ]
Singular == << TRUE, R("0") >> \o [ i \in 1..(N + N * N) |-> R("0") ]
Symmetric == \A i, j \in 1..N : m[i][N + j] = m[j][N + i]
Done == ~todo /\ k = N
Stuck == ~todo /\ k < N
OneEnd == Done => sign * last = Det /\ \A i, j \in 1..N : m[i][j] = (IF i = j THEN last ELSE 0)
NoPivot == Stuck => Det = 0
Agrees == ~todo => Near(Determinant(RowsOf(Args, 2, N)), Det, R("1e-12"))
Admitted == Done => /\ \A op \in { "dmat", "smat" } :
                          /\ LinearAccept(op, N, Args, 2, Answer(R(Det), FALSE))
                          /\ ~LinearAccept(op, N, Args, 2, Answer(-R(Det), FALSE))
                          /\ ~LinearAccept(op, N, Args, 2, Answer(R(Det) + R("0.02"), FALSE))
                          /\ ~Symmetric => ~LinearAccept(op, N, Args, 2, Answer(R(Det), TRUE))
                          /\ ~LinearAccept(op, N, Args, 2, Singular)
                    /\ ~LinearAccept("dmat", N, Args, 2, [ Answer(R(Det), FALSE) EXCEPT ![3] = @ + R("1e-9") ])
AdmittedStuck == Stuck => /\ LinearAccept("dmat", N, Args, 2, Singular)
                          /\ Blank(Args, 2, N) => ~LinearAccept("dmat", N, Args, 2, [ Singular EXCEPT ![1] = FALSE ])
=============================================================================
