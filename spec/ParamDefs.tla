------------------------------ MODULE ParamDefs ------------------------------
(***************************************************************************)
(* Parameterizations of density matrices by real vectors.  Integer vectors *)
(* give integer matrices A (nsize x rank); the state is A A^dag / Tr.      *)
(***************************************************************************)
EXTENDS QMat

NV(param, n, r) == IF param = "standard" THEN n * n
                   ELSE IF param = "overparam" THEN 2 * n * r
                   ELSE r * (r + 1) + 2 * (n - r) * r - r

(* over-parameterization: the entries of A row by row *)
OverA(v, n, r) == Mat(n, r, LAMBDA i, j : LET p == 2 * ((i - 1) * r + (j - 1)) IN <<v[p + 1], v[p + 2]>>)
(* Cholesky: the diagonal first, then the entries below it row by row *)
Below(i, r) == LET k == i - 1 IN IF k <= r THEN (k * (k - 1)) \div 2 ELSE ((r * (r - 1)) \div 2) + (k - r) * r
CholA(v, n, r) == Mat(n, r, LAMBDA i, j :
   IF i = j THEN <<v[i], 0>>
   ELSE IF j > i THEN G0
   ELSE LET p == r + 2 * (Below(i, r) + (j - 1)) IN <<v[p + 1], v[p + 2]>>)
FactorA(param, v, n, r) == IF param = "overparam" THEN OverA(v, n, r) ELSE CholA(v, n, r)
State(a) == MMul(a, MDag(a))

(* Hermitian matrices row by row: the upper triangle, real then imaginary part *)
StdPos(n, i, j) == LET before == (i - 1) * (2 * n - i + 1)\* entries of the rows above
                   IN IF i = j THEN before + 1 ELSE before + 2 + 2 * (j - i - 1)
StdMat(v, n) == Mat(n, n, LAMBDA i, j :
   IF i = j THEN <<v[StdPos(n, i, i)], 0>>
   ELSE IF i < j THEN <<v[StdPos(n, i, j)], v[StdPos(n, i, j) + 1]>>
   ELSE <<v[StdPos(n, j, i)], 0 - v[StdPos(n, j, i) + 1]>>)
=============================================================================
