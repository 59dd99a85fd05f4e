------------------------------- MODULE SvdMC --------------------------------
(***************************************************************************)
(* Singular values by plane rotations of the columns (Hestenes), a method  *)
(* unlike the library's: pairs of columns are turned until all of them are *)
(* perpendicular.  The invariants of each turn are checked, and the result *)
(* -- decomposition, minimum-norm least-squares solution, covariance -- is *)
(* what Svd.tla admits, unlike its neighbours.                             *)
(***************************************************************************)
EXTENDS Svd
VARIABLES dim, seed, u, v, turn
vars == << dim, seed, u, v, turn >>
Deep == Param("tier") = "thorough"
Shapes == { << 2, 2 >>, << 3, 2 >>, << 3, 3 >>, << 4, 3 >> }
Seeds == IF Deep THEN 0..699 ELSE 0..99
M == dim[1]
N == dim[2]
\* a scatter of whole-number matrices, singular ones among them
Entry(q) == ((seed * (2 * q + 3) + (seed \div 7) * (q * q + 5) + (seed \div 49) * q) % 5) - 2
Given == [ q \in 1..(M * N) |-> R(IF seed % 6 = 0 /\ q % N = 0 THEN Entry(q - 1) ELSE Entry(q)) ]
At(x, i, j) == x[(i - 1) * N + j]
Pairs == IF N = 2 THEN << << 1, 2 >> >> ELSE << << 1, 2 >>, << 1, 3 >>, << 2, 3 >> >>
Turns == 12 * Len(Pairs)
Init == /\ dim \in Shapes /\ seed \in Seeds /\ turn = 0
        /\ u = Given
        /\ v = [ q \in 1..(N * N) |-> IF (q - 1) % (N + 1) = 0 THEN R("1") ELSE R("0") ]
ColDot(x, h, j, k) == Sum([ i \in 1..h |-> At(x, i, j) * At(x, i, k) ])
Turned(x, h, p, q, c, s) ==
    Tup([ e \in 1..(h * N) |-> LET i == 1 + ((e - 1) \div N) j == 1 + ((e - 1) % N) IN
            IF j = p THEN c * At(x, i, p) - s * At(x, i, q) ELSE IF j = q THEN s * At(x, i, p) + c * At(x, i, q) ELSE x[e] ])
Next == /\ turn < Turns
        /\ LET pq == Pairs[1 + (turn % Len(Pairs))] p == pq[1] q == pq[2]
               al == ColDot(u, M, p, p) be == ColDot(u, M, q, q) ga == ColDot(u, M, p, q)
               t == Atan2(2 * ga, be - al) / 2
               c == IF ga \doteq 0 THEN R("1") ELSE Cos(t) s == IF ga \doteq 0 THEN R("0") ELSE Sin(t)
           IN u' = Turned(u, M, p, q, c, s) /\ v' = Turned(v, N, p, q, c, s)
        /\ turn' = turn + 1 /\ UNCHANGED << dim, seed >>
Spec == Init /\ [][Next]_vars
\* every turn: the same matrix as ever, an orthogonal V
Product == \A i \in 1..M : \A j \in 1..N : Near(Sum([ k \in 1..N |-> At(u, i, k) * At(v, j, k) ]), At(Given, i, j), R("1e-13"))
Turning == \A j, k \in 1..N : Near(ColDot(v, N, j, k), IF j = k THEN 1 ELSE 0, R("1e-14"))
---------------------------------------------------------------------------
Done == turn = Turns
W == Tup([ j \in 1..N |-> LET x == Sqrt(ColDot(u, M, j, j)) IN IF x < R("1e-9") THEN R("0") ELSE x ])
Full == \A j \in 1..N : W[j] > 0
Left == Tup([ e \in 1..(M * N) |-> LET j == 1 + ((e - 1) % N) IN u[e] / W[j] ])
Args == << M, N, M, N >> \o Given
Result(l, w, vv) == << 0 >> \o l \o w \o vv
Swap(s, i, j) == [ s EXCEPT ![i] = s[j], ![j] = s[i] ]
Decomposed == (Done /\ Full) =>
    /\ SvdAccept("svd", Args, Result(Left, W, v))
    /\ \A e \in 1..(M * N) : ~SvdAccept("svd", Args, Result([ Left EXCEPT ![e] = @ + R("1e-11") ], W, v))
    /\ \A j \in 1..N : ~SvdAccept("svd", Args, Result(Left, [ W EXCEPT ![j] = @ + R("1e-11") ], v))
    /\ \A j \in 1..N : ~SvdAccept("svd", Args, Result(Left, [ W EXCEPT ![j] = -@ ], v))
    /\ (Abs(W[1] - W[2]) > R("1e-6")) => ~SvdAccept("svd", Args, Result(Left, Swap(W, 1, 2), v))
\* columns that vanish leave that many singular values zero: the matrix has no full rank, and conversely
Gram(i, j) == ColDot(Given, M, i, j)
GramDet == IF N = 2 THEN Gram(1, 1) * Gram(2, 2) - Sq(Gram(1, 2))
           ELSE Gram(1, 1) * (Gram(2, 2) * Gram(3, 3) - Sq(Gram(2, 3))) - Gram(1, 2) * (Gram(1, 2) * Gram(3, 3) - Gram(2, 3) * Gram(1, 3)) + Gram(1, 3) * (Gram(1, 2) * Gram(2, 3) - Gram(2, 2) * Gram(1, 3))
Rank == Done => (Full <=> GramDet > R("0.5"))
---------------------------------------------------------------------------
Rhs == [ i \in 1..M |-> R(((seed * (i + 1)) % 7) - 3) ]
Lefts == IF Full THEN Left ELSE Tup([ e \in 1..(M * N) |-> LET j == 1 + ((e - 1) % N) IN IF W[j] \doteq 0 THEN R("0") ELSE u[e] / W[j] ])
SolArgs == << M, N, M, N >> \o Rhs \o Lefts \o W \o v
\* the solution by its own definition: along each singular direction
X == Tup([ i \in 1..N |-> Sum([ j \in 1..N |-> IF W[j] \doteq 0 THEN R("0") ELSE At(v, i, j) * (Sum([ r \in 1..M |-> At(u, r, j) * Rhs[r] ]) / Sq(W[j])) ]) ])
Misfit(x) == [ r \in 1..M |-> Sum([ j \in 1..N |-> At(Given, r, j) * x[j] ]) - Rhs[r] ]
Weak == MaxAbs([ j \in 1..N |-> IF W[j] \doteq 0 THEN R("0") ELSE 1 / W[j] ])
Solved == Done =>
    LET b == Misfit(X) IN
    /\ SvdAccept("svdsol", SolArgs, X)
    \* no linear combination of the columns would reduce the misfit
    /\ \A j \in 1..N : Near(Sum([ r \in 1..M |-> At(Given, r, j) * b[r] ]), 0, R("1e-11"))
    \* no part of it in the directions that make no difference
    /\ \A j \in 1..N : (W[j] \doteq 0) => Near(Sum([ i \in 1..N |-> At(v, i, j) * X[i] ]), 0, R("1e-11"))
    /\ \A i \in 1..N : ~SvdAccept("svdsol", SolArgs, [ X EXCEPT ![i] = @ + R("1e-9") ])
CovArgs == << N, N, N >> \o W \o v
Cov == Tup([ e \in 1..(N * N) |-> LET i == 1 + ((e - 1) \div N) j == 1 + ((e - 1) % N) IN Sum([ k \in 1..N |-> IF W[k] \doteq 0 THEN R("0") ELSE At(v, i, k) * (At(v, j, k) / Sq(W[k])) ]) ])
Even(s) == Tup([ e \in 1..(N * N) |-> LET i == 1 + ((e - 1) \div N) j == 1 + ((e - 1) % N) IN IF i < j THEN At(s, i, j) ELSE At(s, j, i) ])
Covariance == Done =>
    LET c == Even(Cov) IN
    /\ SvdAccept("svdcov", CovArgs, c)
    /\ \A e \in 1..(N * N) : ~SvdAccept("svdcov", CovArgs, [ c EXCEPT ![e] = @ + R("1e-6") * (1 + Abs(@)) ])
    \* the inverse of the normal matrix
    /\ Full => \A i, j \in 1..N : Near(Sum([ k \in 1..N |-> Gram(i, k) * At(c, k, j) ]), IF i = j THEN 1 ELSE 0, R("1e-9"))
=============================================================================
