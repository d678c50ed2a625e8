-------------------------------- MODULE QMat --------------------------------
(***************************************************************************)
(* Matrices of Gaussian integers.  A scalar is <<re, im>>; a matrix is a   *)
(* sequence of rows.  Channels are made exact by clearing denominators:    *)
(* integer operators A_k with sum_k A_k^dag A_k = D * I stand for the      *)
(* Kraus operators A_k / sqrt(D).                                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

G0 == <<0, 0>>
G1 == <<1, 0>>
GAdd(a, b) == <<a[1] + b[1], a[2] + b[2]>>
GMul(a, b) == <<a[1] * b[1] - a[2] * b[2], a[1] * b[2] + a[2] * b[1]>>
GConj(a) == <<a[1], -a[2]>>
GScale(c, a) == <<c * a[1], c * a[2]>>
GNorm(a) == a[1] * a[1] + a[2] * a[2]

RowsN(m) == Len(m)
ColsN(m) == IF Len(m) = 0 THEN 0 ELSE Len(m[1])
IsMat(m, r, c) == Len(m) = r /\ \A i \in 1..Len(m) : Len(m[i]) = c
Square(m, d) == IsMat(m, d, d)

RECURSIVE GSum(_, _, _)
(* sum of f[lo..hi], f a function on integers *)
GSum(f, lo, hi) == IF lo > hi THEN G0
                   ELSE IF lo = hi THEN f[lo]
                   ELSE LET m == (lo + hi) \div 2 IN GAdd(GSum(f, lo, m), GSum(f, m + 1, hi))

Mat(r, c, F(_, _)) == [i \in 1..r |-> [j \in 1..c |-> F(i, j)]]
MMul(a, b) == Mat(RowsN(a), ColsN(b), LAMBDA i, j :
                 GSum([t \in 1..ColsN(a) |-> GMul(a[i][t], b[t][j])], 1, ColsN(a)))
MAdd(a, b) == Mat(RowsN(a), ColsN(a), LAMBDA i, j : GAdd(a[i][j], b[i][j]))
MScale(c, a) == Mat(RowsN(a), ColsN(a), LAMBDA i, j : GScale(c, a[i][j]))
MDag(a) == Mat(ColsN(a), RowsN(a), LAMBDA i, j : GConj(a[j][i]))
MTrans(a) == Mat(ColsN(a), RowsN(a), LAMBDA i, j : a[j][i])
MTr(a) == GSum([i \in 1..RowsN(a) |-> a[i][i]], 1, RowsN(a))
MId(d, c) == Mat(d, d, LAMBDA i, j : IF i = j THEN <<c, 0>> ELSE G0)
MZero(r, c) == Mat(r, c, LAMBDA i, j : G0)
MKron(a, b) == LET r == RowsN(b) c == ColsN(b)
               IN Mat(RowsN(a) * r, ColsN(a) * c, LAMBDA i, j :
                    GMul(a[((i - 1) \div r) + 1][((j - 1) \div c) + 1],
                         b[((i - 1) % r) + 1][((j - 1) % c) + 1]))
Hermitian(a) == \A i, j \in 1..RowsN(a) : a[i][j] = GConj(a[j][i])

RECURSIVE MSumR(_, _)
MSumR(ms, i) == IF i = Len(ms) THEN ms[i] ELSE MAdd(ms[i], MSumR(ms, i + 1))
MSum(ms) == MSumR(ms, 1)

(* digit t (1 = most significant) of index v (0-based) in base d, n digits *)
Digit(v, d, n, t) == (v \div d^(n - t)) % d
=============================================================================
