--------------------------------- MODULE Svd --------------------------------
(***************************************************************************)
(* L02: singular value decomposition of an m x n matrix held in the        *)
(* leading part of an mp x np array, the minimum-norm least-squares        *)
(* solution built from it and the covariance matrix.                       *)
(***************************************************************************)
EXTENDS Common

SvdEps == R("2.3e-16")
\* element (i, j) of an array with `cols` columns stored by rows from position f
SvdAt(a, f, cols, i, j) == a[f + (i - 1) * cols + j - 1]
SvdMaxAbs(a, f, cols, m, n) == MaxAbs([ i \in 1..m |-> MaxAbs([ j \in 1..n |-> SvdAt(a, f, cols, i, j) ]) ])

SvdAcceptDecomp(a, r) ==
    LET m == a[1] n == a[2] mp == a[3] np == a[4]
        fu == 2  fw == 2 + mp * np  fv == fw + n
    IN /\ Len(r) = 1 + mp * np + n + np * np
       /\ IF m < n
          THEN r[1] = -1 /\ \A p \in 1..(mp * np) : r[1 + p] \doteq a[4 + p]
          ELSE LET size == SvdMaxAbs(a, 5, np, m, n)
                   tol == 40 * SvdEps * (m + n)
               IN /\ r[1] = 0
                  /\ AllFinite(Tail(r))
                  /\ \A j \in 1..n : r[fw + j - 1] \geq 0
                  /\ \A j \in 1..n : \A k \in 1..j :
                        LET d == IF j = k THEN 1 ELSE 0 IN
                        /\ Near(Sum([ i \in 1..m |-> SvdAt(r, fu, np, i, j) * SvdAt(r, fu, np, i, k) ]), d, tol)
                        /\ Near(Sum([ i \in 1..n |-> SvdAt(r, fv, np, i, j) * SvdAt(r, fv, np, i, k) ]), d, tol)
                  /\ \A i \in 1..m : \A j \in 1..n :
                        Near(Sum([ k \in 1..n |-> (SvdAt(r, fu, np, i, k) * r[fw + k - 1]) * SvdAt(r, fv, np, j, k) ]), SvdAt(a, 5, np, i, j), tol * size)
                  \* nothing outside the logical dimensions is touched
                  /\ \A i \in 1..mp : \A j \in 1..np : (i > m \/ j > n) => SvdAt(r, fu, np, i, j) \doteq SvdAt(a, 5, np, i, j)
                  /\ \A i \in 1..np : \A j \in 1..np : (i > n \/ j > n) => SvdAt(r, fv, np, i, j) \doteq DSent

SvdAcceptSol(a, r) ==
    LET m == a[1] n == a[2] mp == a[3] np == a[4]
        fb == 5  fu == 5 + m  fw == fu + mp * np  fv == fw + n
        c == Tup([ j \in 1..n |-> IF a[fw + j - 1] \doteq 0 THEN R("0") ELSE Sum([ i \in 1..m |-> SvdAt(a, fu, np, i, j) * a[fb + i - 1] ]) / a[fw + j - 1] ])
        g == Tup([ j \in 1..n |-> IF a[fw + j - 1] \doteq 0 THEN R("0") ELSE Sum([ i \in 1..m |-> Abs(SvdAt(a, fu, np, i, j) * a[fb + i - 1]) ]) / Abs(a[fw + j - 1]) ])
    IN /\ Len(r) = n
       /\ \A i \in 1..n : Near(r[i], Sum([ j \in 1..n |-> SvdAt(a, fv, np, i, j) * c[j] ]),
                               10 * SvdEps * (m + n) * Sum([ j \in 1..n |-> Abs(SvdAt(a, fv, np, i, j)) * g[j] ]))

SvdAcceptCov(a, r) ==
    LET n == a[1] np == a[2] nc == a[3]
        fw == 4  fv == 4 + n
        q == Tup([ k \in 1..n |-> IF a[fw + k - 1] \doteq 0 THEN R("0") ELSE 1 / Sq(a[fw + k - 1]) ])
    IN /\ Len(r) = nc * nc
       /\ \A i \in 1..nc : \A j \in 1..nc :
             IF i > n \/ j > n THEN SvdAt(r, 1, nc, i, j) \doteq DSent
             ELSE /\ Near(SvdAt(r, 1, nc, i, j), Sum([ k \in 1..n |-> (SvdAt(a, fv, np, i, k) * SvdAt(a, fv, np, j, k)) * q[k] ]),
                          10 * SvdEps * n * Sum([ k \in 1..n |-> Abs(SvdAt(a, fv, np, i, k) * SvdAt(a, fv, np, j, k)) * q[k] ]))
                  /\ SvdAt(r, 1, nc, i, j) \doteq SvdAt(r, 1, nc, j, i)

SvdOps == { "svd", "svdsol", "svdcov" }
SvdAccept(op, a, r) == CASE op = "svd" -> SvdAcceptDecomp(a, r) [] op = "svdsol" -> SvdAcceptSol(a, r) [] op = "svdcov" -> SvdAcceptCov(a, r)

---------------------------------------------------------------------------
(* generation *)

SvdShape(k) ==
    LET n == IF Chance(k, 11, 6) THEN 1 ELSE IF Chance(k, 9, 50) THEN IntUni(k, 12, 13, 20) ELSE IF Chance(k, 11, 9) THEN IntUni(k, 12, 6, 12) ELSE IntUni(k, 12, 1, 5)
        m == IF Chance(k, 13, 12) /\ n > 1 THEN IntUni(k, 14, 1, n - 1) ELSE IF Chance(k, 15, 3) THEN n ELSE IntUni(k, 16, n, n + 4)
    IN << m, n, m + IF Chance(k, 17, 2) THEN 0 ELSE IntUni(k, 18, 0, 2), n + IF Chance(k, 19, 2) THEN 0 ELSE IntUni(k, 20, 0, 2) >>
\* entries of the logical matrix
SvdEntry(k, c, i, j, n) ==
    LET S(x, y) == Uni(k, 100 + x * 20 + y, R("-2"), R("2"))
        I(x, y) == R(IntUni(k, 100 + x * 20 + y, -2, 2))
        B(x, y) == R(IntUni(k, 100 + x * 20 + y, 0, 2))
    IN CASE c \in { 0, 1 } -> S(i, j)
         [] c = 2 -> Pow(10, IntUni(k, 30, -12, 12)) * S(i, j)
         [] c \in { 3, 4 } -> I(i, j)                                                  \* often rank-deficient
         [] c = 5 -> S(i, 0) * S(0, j)                                                 \* rank one
         [] c \in { 6, 7 } -> IF j = i \/ j = i + 1 THEN B(i, j) ELSE R("0")           \* bidiagonal with zeros on the diagonal
         [] c = 8 -> R("0")
         [] c = 9 -> IF j = 1 + RndInt(k, 31, 1, n) THEN R("0") ELSE S(i, j)           \* an empty column
         [] c = 10 -> S(i, 1 + ((j - 1) % 2))                                          \* equal columns
         [] c = 11 -> IF i = j THEN I(i, j) ELSE R("0")
         [] c = 12 -> S(i, j) * Pow(10, -3 * j)                                        \* widely spread scales
         [] c = 13 -> IF i = 1 + RndInt(k, 32, 1, 3) THEN R("0") ELSE S(i, j)          \* an empty row
         [] c = 14 -> S(i, 0) * S(0, j) + S(i, 1) * S(1, j)                            \* rank two
         [] c = 15 -> IF i > j THEN R("0") ELSE I(i, j)
SvdMatrixG(k, sh) ==
    LET c == RndInt(k, 10, 9, 16) IN
    Tup([ p \in 1..(sh[3] * sh[4]) |-> LET i == 1 + ((p - 1) \div sh[4]) j == 1 + ((p - 1) % sh[4]) IN
          IF i > sh[1] \/ j > sh[2] THEN Uni(k, 700 + p, R("-9"), R("9")) ELSE SvdEntry(k, c, i, j, sh[2]) ])
SvdDecompG(k) == LET sh == SvdShape(k) IN sh \o SvdMatrixG(k, sh)
\* singular values to divide by: some exactly zero (ignored), some tiny
SvdValuesG(k, n) == [ j \in 1..n |-> IF RndInt(k, 800 + j, 1, 4) = 0 THEN R("0") ELSE IF RndInt(k, 800 + j, 1, 4) = 1 THEN Pow(10, Uni(k, 820 + j, R("-30"), R("20"))) ELSE Uni(k, 820 + j, R("0.1"), R("3")) ]
SvdSolG(k) == LET sh == SvdShape(k) IN
    sh \o [ i \in 1..sh[1] |-> Uni(k, 840 + i, R("-3"), R("3")) ] \o SvdMatrixG(k, sh) \o SvdValuesG(k, sh[2]) \o [ p \in 1..(sh[4] * sh[4]) |-> Uni(k, 900 + p, R("-1"), R("1")) ]
SvdCovG(k) == LET n == IntUni(k, 12, 1, 6) np == n + IntUni(k, 13, 0, 2) nc == n + IntUni(k, 14, 0, 2) IN
    << n, np, nc >> \o SvdValuesG(k, n) \o [ p \in 1..(np * np) |-> Uni(k, 900 + p, R("-1"), R("1")) ]
SvdGen(op, k) == CASE op = "svd" -> SvdDecompG(k) [] op = "svdsol" -> SvdSolG(k) [] op = "svdcov" -> SvdCovG(k)
\* every 3 x 3 upper bidiagonal pattern of zeros, ones and twos
SvdBidiag == [ q \in 1..243 |-> LET d(i) == R(((q - 1) \div (CASE i = 1 -> 1 [] i = 2 -> 3 [] i = 3 -> 9 [] i = 4 -> 27 [] i = 5 -> 81)) % 3) z == R("0") IN
    << 3, 3, 3, 3, d(1), d(2), z, z, d(3), d(4), z, z, d(5) >> ]
SvdDirected(op) == IF op = "svd" THEN SvdBidiag ELSE << >>
SvdNoMix == SvdOps
=============================================================================
