------------------------------ MODULE InfoTrace ------------------------------
(***************************************************************************)
(* Validates recorded entropies, coherent informations, fidelities and     *)
(* optimisation results.  Entropic values are recorded in fixed point      *)
(* (1/100000 bit).  Spectra are supplied as witnesses and verified here    *)
(* exactly, by power sums of the integer matrices.                         *)
(***************************************************************************)
EXTENDS ChanDefs, LogTab, Json, IOUtils, TraceVerdict

VARIABLES l, err

R == Trace[l]
If(c, name) == IF c THEN {} ELSE {name}
Abs(x) == IF x < 0 THEN -x ELSE x
Min(a, b) == IF a < b THEN a ELSE b
RECURSIVE Pow(_, _)
Pow(b, e) == IF e = 0 THEN 1 ELSE b * Pow(b, e - 1)
RECURSIVE ISum(_, _, _)
ISum(f, lo, hi) == IF lo > hi THEN 0 ELSE f[lo] + ISum(f, lo + 1, hi)
RECURSIVE MPow(_, _)
MPow(a, e) == IF e = 1 THEN a ELSE MMul(a, MPow(a, e - 1))

(* the (nonnegative integer) spectrum of a Hermitian integer matrix *)
IsDiag(a) == \A i, j \in 1..RowsN(a) : IF i = j THEN a[i][j][2] = 0 ELSE a[i][j] = <<0, 0>>
SpectrumOf(a, s) == /\ Len(s) = RowsN(a)
                    /\ \A i \in 1..Len(s) : s[i] >= 0
                    /\ IF IsDiag(a)
                       THEN \A i \in 1..Len(s) : Cardinality({j \in 1..Len(s) : s[j] = s[i]})
                                                  = Cardinality({j \in 1..Len(s) : a[j][j][1] = s[i]})
                       ELSE \A e \in 1..Len(s) : MTr(MPow(a, e)) = <<ISum([i \in 1..Len(s) |-> Pow(s[i], e)], 1, Len(s)), 0>>
Outer(psi) == Mat(Len(psi), Len(psi), LAMBDA i, j : GMul(psi[i], GConj(psi[j])))
Flat(ss) == LET RECURSIVE F(_)
                F(i) == IF i > Len(ss) THEN <<>> ELSE ss[i] \o F(i + 1) IN F(1)

Tol == 12
(* a recorded value v (1/100000) against a value known as num/M *)
Is(v, num, M) == v # 999983 /\ Abs(M * v - num) <= M * Tol

(* ---- entropy ---------------------------------------------------------------- *)
EntropyBad ==
   IF \E i \in 1..Len(R.blocks) : ~Hermitian(R.blocks[i]) \/ ~SpectrumOf(R.blocks[i], R.specs[i])
   THEN {"witness.entropy"}
   ELSE IF R.exc # "" THEN {"entropy.raised"}
   ELSE LET s == SelectSeq(Flat(R.specs), LAMBDA k : k > R.cutk)
            num == ISum(s, 1, Len(s)) * L2[R.M] - KLogK(s, 1)
        IN IF R.M > 256 THEN If(R.out # 999983 /\ Abs(R.out - Entropy(s, R.M, 1)) <= Tol + 2, "entropy.value")
           ELSE If(Is(R.out, num, R.M), "entropy.value")

(* ---- coherent information --------------------------------------------------- *)
OutOf(ks, n, rho) == ApplyN(Sup(ks), ColsN(ks[1]), RowsN(ks[1]), n, rho)
ExchOf(ks, n, rho) == ExchangeN(Gram(ks), Len(ks), ColsN(ks[1]), n, rho)
All(P(_)) == \A i \in 1..Len(R.outs) : P(R.outs[i])
Raised == \E i \in 1..Len(R.excs) : R.excs[i] # ""

CohBad ==
   LET M == Pow(R.D, R.n) * R.T IN
   IF ~SpectrumOf(OutOf(R.ks, R.n, R.rho), R.sout) \/ ~SpectrumOf(ExchOf(R.ks, R.n, R.rho), R.sw)
   THEN {"witness.coherent"}
   ELSE IF Raised THEN {"coherent.raised"}
   ELSE IF M > 256
   THEN LET val == Entropy(R.sout, M, 1) - Entropy(R.sw, M, 1)
        IN If(All(LAMBDA v : v # 999983 /\ Abs(R.per * v - val) <= Tol + 2), "coherent.value")
           \cup If(\A i \in 1..Len(R.regs) : R.regs[i] # 999983 /\ Abs(R.n * R.regs[i] - val) <= Tol + 2,
                   "coherent.regularized")
   ELSE LET num == MEntropy(R.sout, M) - MEntropy(R.sw, M)
        IN If(All(LAMBDA v : Is(R.per * v, num, M)), "coherent.value")
           \cup If(\A i \in 1..Len(R.regs) : Is(R.n * R.regs[i], num, M), "coherent.regularized")
(* a product state of factors with known values: the sum *)
ProdBad ==
   LET f == R.factors
       ok == \A i \in 1..Len(f) : SpectrumOf(OutOf(R.ks, 1, f[i].rho), f[i].sout)
                                  /\ SpectrumOf(ExchOf(R.ks, 1, f[i].rho), f[i].sw)
       M(i) == R.D * f[i].T
       val == [i \in 1..Len(f) |-> (MEntropy(f[i].sout, M(i)) - MEntropy(f[i].sw, M(i))) \div M(i)]
       total == ISum(val, 1, Len(f))
   IN IF ~ok THEN {"witness.product"} ELSE IF Raised THEN {"coherent.raised"}
      ELSE If(All(LAMBDA v : v # 999983 /\ Abs(v - total) <= 2 * Tol + Len(f)), "coherent.additive")
           \cup If(\A i \in 1..Len(R.regs) : Abs(Len(f) * R.regs[i] - total) <= 3 * Tol + Len(f), "coherent.regularized")
(* a pure state gives no coherent information *)
PureBad == IF Raised THEN {"coherent.raised"} ELSE If(All(LAMBDA v : Abs(v) <= Tol), "coherent.pure_state")
(* a unitary channel: the entropy of the state *)
UnitaryBad == IF Len(R.ks) # 1 \/ ~SpectrumOf(R.rho, R.srho) \/ RowsN(R.ks[1]) # ColsN(R.ks[1])
                 \/ MMul(MDag(R.ks[1]), R.ks[1]) # MId(ColsN(R.ks[1]), R.D) THEN {"witness.unitary"}
              ELSE IF Raised THEN {"coherent.raised"}
              ELSE IF R.T > 256
              THEN If(All(LAMBDA v : v # 999983 /\ Abs(v - Entropy(R.srho, R.T, 1)) <= Tol + 2), "coherent.unitary")
              ELSE If(All(LAMBDA v : Is(v, MEntropy(R.srho, R.T), R.T)), "coherent.unitary")
(* different Kraus operators of one map *)
SameMap(k1, d1, k2, d2) == LET s1 == Sup(k1) s2 == Sup(k2) IN
   \A i, j \in 1..ColsN(k1[1]) : \A r, c \in 1..RowsN(k1[1]) : GScale(d2, s1[i][j][r][c]) = GScale(d1, s2[i][j][r][c])
PairBad == IF ~SameMap(R.ks, R.D, R.ks2, R.D2) THEN {"witness.pair"} ELSE IF Raised THEN {"coherent.raised"}
           ELSE If(\A i, j \in 1..Len(R.outs) : Abs(R.outs[i] - R.outs[j]) <= 2 * Tol /\ R.outs[i] # 999983,
                   "coherent.representation")
(* sending the output through another channel cannot help *)
ProcBad == IF Raised THEN {"coherent.raised"}
           ELSE If(R.outs[1] # 999983 /\ R.outs[2] # 999983 /\ R.outs[2] <= R.outs[1] + 2 * Tol, "coherent.data_processing")

(* ---- fidelity ---------------------------------------------------------------- *)
(* qubit states rho = A/T, sigma = N(rho) = B/(D T):                              *)
(*   (F^2 D T^2 - Tr A B)^2 = 4 det A det B ; R.outs are F^2 D T^2 in tenths      *)
Det2(a) == LET d == GAdd(GMul(a[1][1], a[2][2]), GScale(-1, GMul(a[1][2], a[2][1]))) IN d[1]
FidMixBad ==
   LET B == OutOf(R.ks, 1, R.rho) P == 400 * Det2(R.rho) * Det2(B) t == 10 * MTr(MMul(R.rho, B))[1]
   IN IF Raised THEN {"fidelity.raised"}
      ELSE If(All(LAMBDA v : v # 999983 /\ LET u == v - t IN
                     u >= -1 /\ (u + 2) * (u + 2) >= P /\ (u <= 2 \/ (u - 2) * (u - 2) <= P)), "fidelity.mixed")
(* multiplicative over product states: values in 1/10000 *)
FidProdBad == IF Raised THEN {"fidelity.raised"}
              ELSE If(\A i \in 1..(Len(R.outs) - 1) : R.outs[i] \in 0..10001, "fidelity.range")
                   \cup If(LET n == Len(R.outs) - 1
                               pr == IF n = 1 THEN R.outs[1] * 10000 ELSE R.outs[1] * R.outs[2]
                           IN Abs(R.outs[n + 1] * 10000 - pr) <= 30000, "fidelity.multiplicative")

(* ---- optimisation ------------------------------------------------------------- *)
(* R.val reported value, R.again objective at the reported state, R.svals          *)
(* objective at the supplied samples, all in 1/100000; R.rho the state in 1/10000  *)
Better(a, b, tol) == IF R.objective = "coherent" THEN a >= b - tol ELSE a <= b + tol
Val == IF R.reg = 1 /\ R.val # 999983 THEN R.n * R.val ELSE R.val   \* per use of the channel
OptBad ==
   IF R.exc # "" THEN {"optimize.raised"}
   ELSE LET d == R.dim tr == MTr(R.rho) IN
        If(R.fields = 1, "optimize.fields")
        \cup If(R.kept = 1, "optimize.samples_changed")
        \cup If(R.r_method = R.method /\ R.r_objective = R.objective
                /\ R.r_lipschitz = (IF R.lipschitz > 0 THEN 1 ELSE 0), "optimize.labels")
        \cup If(IsMat(R.rho, d, d), "optimize.state_shape")
        \cup (IF ~IsMat(R.rho, d, d) THEN {} ELSE
              If(Abs(tr[1] - 10000) <= 2 * d /\ Abs(tr[2]) <= d
                 /\ \A i, j \in 1..d : /\ Abs(R.rho[i][j][1] - R.rho[j][i][1]) <= 2
                                       /\ Abs(R.rho[i][j][2] + R.rho[j][i][2]) <= 2
                                       /\ R.rho[i][i][1] >= -2
                                       /\ LET ii == R.rho[i][i][1] jj == R.rho[j][j][1] c == R.rho[i][j]
                                          IN (c[1] \div 10) * (c[1] \div 10) + (c[2] \div 10) * (c[2] \div 10)
                                               <= (ii \div 10 + 2) * (jj \div 10 + 2), "optimize.state_valid")
              \cup (IF R.rank # 1 THEN {} ELSE
                    If(Abs(ISum([i \in 1..d |-> ISum([j \in 1..d |->
                           (R.rho[i][j][1] * R.rho[i][j][1] + R.rho[i][j][2] * R.rho[i][j][2]) \div 10000],
                            1, d)], 1, d) - 10000) <= 10 + 2 * d * d, "optimize.state_rank")))
        \cup If(Val # 999983 /\ R.again # 999983 /\ Abs(Val - R.again) <= 100, "optimize.value_at_state")
        \cup If(\A i \in 1..Len(R.svals) : Better(Val, R.svals[i], R.slack), "optimize.best_of_samples")
        \cup If(IF R.objective = "coherent" THEN Val <= R.n * L2[R.dim1] + Tol ELSE Val \in (-Tol)..(100000 + Tol),
                "optimize.range")
        \cup (IF R.bound = 999983 THEN {}
              ELSE If(IF R.objective = "coherent" THEN Val <= R.bound + 50 ELSE Val >= R.bound - 50,
                      "optimize.exceeds_optimum"))
        \cup (IF R.reach = 999983 THEN {} ELSE If(Better(Val, R.reach, R.slack), "optimize.not_reached"))

Init == l = 1 /\ err = 0
Act(op, bad) == /\ R.op = op
                /\ LET b == bad IN Report(l, R.case, R.op, b) /\ err' = err + Cardinality(b)
                /\ l' = l + 1
Next == /\ l <= Len(Trace)
        /\ \/ Act("crash", {"observe.raised"})
           \/ Act("entropy", EntropyBad) \/ Act("coh", CohBad) \/ Act("prod", ProdBad) \/ Act("pure", PureBad)
           \/ Act("unitary", UnitaryBad) \/ Act("pair", PairBad) \/ Act("proc", ProcBad)
           \/ Act("fidmix", FidMixBad) \/ Act("fidprod", FidProdBad) \/ Act("opt", OptBad)
           \/ Act("optbad", If(R.exc \in {"TypeError", "AssertionError", "ValueError"}, "optimize.bad_argument_accepted"))
vars == <<l, err>>
Spec == Init /\ [][Next]_vars
=============================================================================
