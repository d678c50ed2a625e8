------------------------------ MODULE ChanDefs ------------------------------
(***************************************************************************)
(* What a quantum channel given by integer Kraus operators is and does.    *)
(* A channel is a sequence ks of dout x din Gaussian integer matrices with *)
(* sum ks^dag ks = D I; all results are scaled by D (per copy).            *)
(***************************************************************************)
EXTENDS QMat

LOCAL INSTANCE SequencesExt

TP(ks, D) == MSum([k \in 1..Len(ks) |-> MMul(MDag(ks[k]), ks[k])]) = MId(ColsN(ks[1]), D)

(* superoperator table S[i][j][r][c] = <r| N(|i><j|) |c>, indices 1-based      *)
Sup(ks) == LET di == ColsN(ks[1]) do == RowsN(ks[1]) IN
   [i \in 1..di |-> [j \in 1..di |-> [r \in 1..do |-> [c \in 1..do |->
      GSum([k \in 1..Len(ks) |-> GMul(ks[k][r][i], GConj(ks[k][c][j]))], 1, Len(ks))]]]]
(* Gram table Gm[p][q] = A_p^dag A_q *)
Gram(ks) == [p \in 1..Len(ks) |-> [q \in 1..Len(ks) |-> MMul(MDag(ks[p]), ks[q])]]

RECURSIVE SupProd(_, _, _, _, _, _, _, _, _)
(* product over the n factors; the indices are 0-based multi-indices *)
SupProd(S, di, do, n, t, i, j, r, c) ==
   LET v == S[Digit(i, di, n, t) + 1][Digit(j, di, n, t) + 1][Digit(r, do, n, t) + 1][Digit(c, do, n, t) + 1]
   IN IF v = G0 THEN G0
      ELSE IF t = n THEN v ELSE GMul(v, SupProd(S, di, do, n, t + 1, i, j, r, c))

(* the positions of the non-zero entries of a matrix (1-based), in some order *)
NonZero(m) == LET P == SetToSeq({<<i, j>> \in (1..RowsN(m)) \X (1..ColsN(m)) : m[i][j] # G0}) IN P

(* (N^{(x)n})(rho) *)
ApplyN(S, di, do, n, rho) ==
   LET b == do^n
       nz == TLCEval(NonZero(rho))
   IN Mat(b, b, LAMBDA r, c :
             GSum([t \in 1..Len(nz) |-> LET i == nz[t][1] j == nz[t][2] IN
                     GMul(rho[i][j], SupProd(S, di, do, n, 1, i - 1, j - 1, r - 1, c - 1))], 1, Len(nz)))

(* adjoint map: A^dag sigma A summed *)
AdjointN(S, di, do, n, sg) ==
   LET a == di^n
       nz == TLCEval(NonZero(sg))
   IN Mat(a, a, LAMBDA x, y :
             GSum([t \in 1..Len(nz) |-> LET r == nz[t][1] c == nz[t][2] IN
                     GMul(sg[r][c], SupProd(S, di, do, n, 1, y - 1, x - 1, c - 1, r - 1))], 1, Len(nz)))

RECURSIVE GramProd(_, _, _, _, _, _, _, _, _)
GramProd(Gm, K, di, n, t, p, q, x, y) ==
   LET v == Gm[Digit(p, K, n, t) + 1][Digit(q, K, n, t) + 1][Digit(x, di, n, t) + 1][Digit(y, di, n, t) + 1]
   IN IF v = G0 THEN G0
      ELSE IF t = n THEN v ELSE GMul(v, GramProd(Gm, K, di, n, t + 1, p, q, x, y))
(* complementary channel: W[p][q] = Tr(A_p rho A_q^dag) = Tr(A_q^dag A_p rho) *)
ExchangeN(Gm, K, di, n, rho) ==
   LET w == K^n
       nz == TLCEval(NonZero(rho))
   IN Mat(w, w, LAMBDA p, q :
             GSum([t \in 1..Len(nz) |-> LET y == nz[t][1] x == nz[t][2] IN
                     GMul(rho[y][x], GramProd(Gm, K, di, n, 1, q - 1, p - 1, x - 1, y - 1))], 1, Len(nz)))
(* its adjoint: sum_{pq} om[p][q] A_p^dag A_q *)
ExchangeAdjN(Gm, K, di, n, om) ==
   LET a == di^n
       nz == TLCEval(NonZero(om))
   IN Mat(a, a, LAMBDA x, y :
             GSum([t \in 1..Len(nz) |-> LET p == nz[t][1] q == nz[t][2] IN
                     GMul(om[p][q], GramProd(Gm, K, di, n, 1, p - 1, q - 1, x - 1, y - 1))], 1, Len(nz)))

(* the p-th Kraus operator of the n-fold channel *)
RECURSIVE KrausProd(_, _, _, _, _, _, _, _)
KrausProd(ks, di, do, n, t, p, r, x) ==
   LET v == ks[Digit(p, Len(ks), n, t) + 1][Digit(r, do, n, t) + 1][Digit(x, di, n, t) + 1]
   IN IF v = G0 THEN G0
      ELSE IF t = n THEN v ELSE GMul(v, KrausProd(ks, di, do, n, t + 1, p, r, x))
KrausN(ks, di, do, n) ==
   [p \in 1..(Len(ks)^n) |-> Mat(do^n, di^n, LAMBDA r, x : KrausProd(ks, di, do, n, 1, p - 1, r - 1, x - 1))]

(* first b then a *)
Serial(a, b) == [p \in 1..(Len(a) * Len(b)) |->
                   MMul(a[((p - 1) \div Len(b)) + 1], b[((p - 1) % Len(b)) + 1])]
Parallel(a, b) == [p \in 1..(Len(a) * Len(b)) |->
                   MKron(a[((p - 1) \div Len(b)) + 1], b[((p - 1) % Len(b)) + 1])]

(* Choi matrix sum_ij E_ij (x) N(E_ij) *)
Choi(S, di, do) == Mat(di * do, di * do, LAMBDA u, v :
                      S[((u - 1) \div do) + 1][((v - 1) \div do) + 1][((u - 1) % do) + 1][((v - 1) % do) + 1])
=============================================================================
