--------------------------- MODULE LinearSystems ----------------------------
(***************************************************************************)
(* L01: inverse, solution and determinant of a square system.              *)
(***************************************************************************)
EXTENDS Common

LinGreat(op) == IF op = "smat" THEN R("1e30") ELSE R("1e290")
LinEps(op) == IF op = "smat" THEN R("1.2e-7") ELSE R("2.3e-16")
\* element (i, j) of an n x n matrix stored by rows from position `from`
Elem(a, from, n, i, j) == a[from + (i - 1) * n + j - 1]
RowsOf(a, from, n) == Tup([ i \in 1..n |-> Tup([ j \in 1..n |-> Elem(a, from, n, i, j) ]) ])
\* elimination by the largest element of each column in turn: the determinant, and the least and the greatest of the running products of pivots
RECURSIVE Eliminated(_, _, _, _)
Eliminated(m, product, least, great) ==
    LET n == Len(m) IN
    IF n = 0 THEN << product, least, great >>
    ELSE LET p == CHOOSE i \in 1..n : \A j \in 1..n : Abs(m[j][1]) \leq Abs(m[i][1])
             x == m[p][1]
             now == product * (IF p % 2 = 0 THEN -x ELSE x)
         IN IF x \doteq 0 THEN << R("0"), R("0"), great >>
            ELSE LET rest == [ i \in 1..(n - 1) |-> LET q == m[IF i < p THEN i ELSE i + 1] IN Tup([ j \in 1..(n - 1) |-> q[j + 1] - (q[1] / x) * m[p][j + 1] ]) ]
                 IN Eliminated(Tup(rest), now, Min(least, Abs(now)), Max(great, Abs(now)))
Determinant(m) == Eliminated(m, R("1"), R("1e300"), R("0"))[1]
RowSum(a, from, n, i) == Sum([ j \in 1..n |-> Abs(Elem(a, from, n, i, j)) ])
MatSize(a, from, n) == MaxAbs([ i \in 1..n |-> RowSum(a, from, n, i) ])
\* a row or a column of zeros
Blank(a, from, n) == \/ \E i \in 1..n : \A j \in 1..n : Elem(a, from, n, i, j) \doteq 0
                     \/ \E j \in 1..n : \A i \in 1..n : Elem(a, from, n, i, j) \doteq 0
LinearAccept(op, n, a, f, r) ==
    \* a: matrix from f, then the vector; r: singular flag, determinant, vector, matrix
    LET eps == LinEps(op)
        elim == Eliminated(RowsOf(a, f, n), R("1"), R("1e300"), R("0"))
        det == elim[1]
        least == elim[2]
        size == MatSize(a, f, n)
    IN /\ Len(r) = 2 + n + n * n
       \* singular: certainly without a full set of pivots, and to working precision when a running product of pivots is below 1e-20
       /\ Blank(a, f, n) => r[1] = TRUE
       /\ (least < R("0.8e-20") /\ 40 * n * eps * Pow(size, n) < R("1e-21")) => r[1] = TRUE
       /\ r[1] = TRUE => r[2] \doteq 0 /\ least \leq R("1.2e-20") + 40 * n * eps * Pow(size, n)
       /\ r[1] = FALSE =>
          LET inv == MatSize(r, 3 + n, n)
              tol == 12 * n * eps * size * inv
          IN \/ elim[3] > LinGreat(op)   \* the determinant may not be representable
             \/ AllFinite(Tail(r)) /\ (tol < R("0.05") =>
                /\ Near(r[2], det, tol * Abs(det))
                /\ \A i \in 1..n : Near(Sum([ j \in 1..n |-> Elem(a, f, n, i, j) * r[2 + j] ]), a[f + n * n + i - 1], tol * size * MaxAbs([ j \in 1..n |-> r[2 + j] ]) + R("1e-35"))
                /\ \A i \in 1..n : \A k \in 1..n :
                      Near(Sum([ j \in 1..n |-> Elem(a, f, n, i, j) * Elem(r, 3 + n, n, j, k) ]), IF i = k THEN 1 ELSE 0, tol))
LinOps == { "dmat", "smat", "dmat3" }
LinAccept(op, a, r) == IF op = "dmat3" THEN LinearAccept(op, 3, a, 1, r) ELSE LinearAccept(op, a[1], a, 2, r)

SquareG(k, n) ==
    LET c == RndInt(k, 1, 9, 17)
        shift == RndInt(k, 2, 9, n)
        z == IntUni(k, 3, 1, n)
        S(i, j) == Uni(k, 100 + i * n + j, R("-2"), R("2"))
        I(i, j) == R(IntUni(k, 100 + i * n + j, -2, 2))
        s == IF c = 3 THEN Pow(10, IntUni(k, 4, -1, 2)) ELSE IF c = 13 THEN Pow(10, IntUni(k, 4, -8, -2))
             ELSE IF c > 13 THEN Pow(Pow(10, Uni(k, 4, R("-21"), R("-19"))) / Max(R("1e-3"), Abs(Determinant(Tup([ i \in 1..n |-> [ j \in 1..n |-> S(i, j) ] ])))), R("1") / n)    \* at the limit
             ELSE R("1")
    IN [ p \in 1..(n * n) |-> LET i == 1 + ((p - 1) \div n) j == 1 + ((p - 1) % n) IN
         CASE c = 16 -> Pow(10, IntUni(k, 200 + i, -5, 6)) * S(i, j)                              \* rows of very different sizes
           [] c \in { 0, 1, 2, 3, 13, 14, 15 } -> s * S(i, j)
           [] c \in { 4, 5, 6 } -> I(i, j)                                                        \* often singular, many ties
           [] c = 7 -> IF j = 1 + ((i + shift) % n) THEN S(i, j) + 3 ELSE R("0")                  \* permuted diagonal
           [] c = 8 -> IF j < n + 1 - i THEN R("0") ELSE S(i, j)                                  \* everything needs exchanging
           [] c = 9 -> IF i = z THEN R("0") ELSE S(i, j)
           [] c = 10 -> IF j = z THEN R("0") ELSE S(i, j)
           [] c = 11 -> IF i = j THEN R("0") ELSE S(i, j)
           [] c = 12 -> IF i = j THEN R("1e-13") * S(i, j) ELSE S(i, j) ]                         \* a poor pivot unless rows are exchanged
LinearG(op, k) ==
    LET n == IF op = "dmat3" THEN 3 ELSE IF RndInt(k, 5, 9, 3) = 0 THEN IntUni(k, 6, 1, 3) ELSE IF Chance(k, 8, 40) THEN IntUni(k, 6, 9, 20) ELSE IntUni(k, 6, 1, 8)
        b == [ i \in 1..n |-> IF RndInt(k, 7, 9, 8) = 0 THEN R("0") ELSE Uni(k, 300 + i, R("-3"), R("3")) ]
    IN (IF op = "dmat3" THEN << >> ELSE << n >>) \o SquareG(k, n) \o b
LinGen(op, k) == LinearG(op, k)
\* all row exchanges of order 4: weighted permutation matrices with something above them
Perm4 == Tup(LET F[i \in 0..255] == IF i = 0 THEN << >> ELSE
                    LET q == << i % 4, (i \div 4) % 4, (i \div 16) % 4, i \div 64 >> IN
                    IF \A x, y \in 1..4 : x # y => q[x] # q[y] THEN Append(F[i - 1], q) ELSE F[i - 1] IN F[255])
LinDirected(op) ==
    IF op = "dmat3" THEN << << R("0"), R("2"), R("1"), R("4"), R("0"), R("-1"), R("1"), R("1"), R("0"), R("1"), R("2"), R("3") >> >>
    ELSE [ i \in 1..Len(Perm4) |-> << 4 >> \o [ p \in 1..16 |-> LET r == (p - 1) \div 4 c == (p - 1) % 4 IN IF Perm4[i][r + 1] = c THEN R(r + 2) ELSE IF c > Perm4[i][r + 1] THEN R("0.25") * (r + c) ELSE R("0") ]
                                         \o << R("1"), R("-2"), R("3"), R("0.5") >> ]
         \o << << 1, R("-2.5"), R("5") >>, << 1, R("0"), R("5") >>, << 2, R("0"), R("0"), R("0"), R("0"), R("1"), R("1") >> >>
LinNoMix == LinOps
=============================================================================
