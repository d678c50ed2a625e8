------------------------------ MODULE ParamLife ------------------------------
(***************************************************************************)
(* An optimiser walking through the parameter space: it changes one        *)
(* coordinate at a time.  Every point it can reach is a valid state of at  *)
(* most the requested rank, and the coordinates cover all such states.     *)
(***************************************************************************)
EXTENDS ParamDefs

CONSTANTS Param, N, Rank, Mag, Hi

VARIABLES vec
Len0 == NV(Param, N, Rank)
Low(i) == IF Param = "cholesky" /\ i <= Rank THEN 0 ELSE 0 - Mag
Init == vec = [i \in 1..Len0 |-> IF i = 1 THEN 1 ELSE 0]
Next == \E i \in 1..Len0 : \E x \in Low(i)..Hi : vec' = [vec EXCEPT ![i] = x]
Spec == Init /\ [][Next]_vec

A == FactorA(Param, vec, N, Rank)
Rho == State(A)
Det2(m, i, j, k, l) == GAdd(GMul(m[i][k], m[j][l]), GScale(-1, GMul(m[i][l], m[j][k])))
Valid == /\ Hermitian(Rho)
         /\ \A i \in 1..N : Rho[i][i][1] >= 0
         /\ \A i, j \in 1..N : LET d == Det2(Rho, i, j, i, j) IN d[2] = 0 /\ d[1] >= 0
RankOK == Rank = 1 => \A i, j, k, l \in 1..N : Det2(Rho, i, j, k, l) = G0
(* distinct coordinates of a Cholesky vector with positive diagonal: distinct states *)
Recover == Param = "cholesky" /\ Rank = N /\ (\A i \in 1..Rank : vec[i] > 0) =>
           \A i \in 1..N : Rho[i][1] = GScale(vec[1], A[i][1])
Standard == LET v == [i \in 1..(N * N) |-> i] m == StdMat(v, N) IN
            Hermitian(m) /\ \A p \in 1..(N * N) : \E i, j \in 1..N : v[p] \in {m[i][j][1], m[i][j][2]}
=============================================================================
