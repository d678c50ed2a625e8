------------------------------ MODULE ParamTrace ------------------------------
(* Validates recorded conversions between vectors and states. *)
EXTENDS ParamDefs, Json, IOUtils, TraceVerdict

VARIABLES l, err
R == Trace[l]
If(c, name) == IF c THEN {} ELSE {name}
RECURSIVE ISum(_, _, _)
ISum(f, lo, hi) == IF lo > hi THEN 0 ELSE f[lo] + ISum(f, lo + 1, hi)

Rk == IF R.rank = 0 THEN R.nsize ELSE R.rank
Fits == IF R.param = "standard" THEN Len(R.vec) = R.nsize * R.nsize
        ELSE Rk <= R.nsize /\ Len(R.vec) = NV(R.param, R.nsize, Rk)
RhoBad == IF ~Fits THEN If(R.exc # "", "rho.bad_vector_accepted")
          ELSE IF R.exc # "" THEN {"rho.raised"}
          ELSE If(R.out = (IF R.param = "standard" THEN StdMat(R.vec, R.nsize)
                           ELSE State(FactorA(R.param, R.vec, R.nsize, Rk))), "rho.value")
VecBad == IF R.exc # "" THEN {"vec.raised"}
          ELSE If(Len(R.out) = R.nsize * R.nsize /\ StdMat(R.out, R.nsize) = R.rho, "vec.standard")
(* bounds are recorded in thousandths *)
NumbBad == IF R.exc # "" THEN {"bounds.raised"}
           ELSE LET nv == NV(R.param, R.nsize, R.rank)
                    zero(i) == R.param = "cholesky" /\ i <= R.rank
                IN If(R.numb = nv, "bounds.count")
                   \cup If(Len(R.bounds) = nv /\ \A i \in 1..Len(R.bounds) :
                             R.bounds[i] = <<IF zero(i) THEN 0 ELSE R.lo, R.hi>>, "bounds.values")
(* random vectors, in 1/100000, rounded down *)
RandBad == IF R.dist = "bad" THEN If(R.exc # "", "random.unknown_distribution_accepted")
           ELSE IF R.exc # "" THEN {"random.raised"}
           ELSE LET nv == NV(R.param, R.nsize, R.rank) IN
                If(\A i \in 1..Len(R.vecs) : Len(R.vecs[i]) = nv, "random.length")
                \cup If(R.dist = "uniform" => \A i \in 1..Len(R.vecs) : \A j \in 1..Len(R.vecs[i]) :
                          R.vecs[i][j] \in (IF R.param = "cholesky" /\ j <= R.rank THEN 0 ELSE 100 * R.lo)..(100 * R.hi),
                        "random.range")
                \cup If(R.dist = "normal" /\ R.param = "cholesky" =>
                          \A i \in 1..Len(R.vecs) : \A j \in 1..R.rank : R.vecs[i][j] \in 0..100000, "random.diagonal")
                \cup If(nv = 1 \/ \A i, j \in 1..Len(R.vecs) : i # j => R.vecs[i] # R.vecs[j], "random.constant")
                \cup If(R.valid = 1, "random.not_a_state")
(* there and back: a state A A^dag / t of rank at most R.rank *)
RoundBad == IF R.exc # "" THEN {"roundtrip.raised"}
            ELSE If(R.len = NV(R.param, R.nsize, Rk), "roundtrip.length")
                 \cup If(R.out = State(R.a), "roundtrip.state")
(* back and there: the Cholesky vector of a full rank state is unique *)
CvecBad == IF R.exc # "" THEN {"roundtrip.raised"} ELSE If(R.out = R.vec, "roundtrip.cholesky_vector")

Init == l = 1 /\ err = 0
Act(op, bad) == /\ R.op = op
                /\ LET b == bad IN Report(l, R.case, R.op, b) /\ err' = err + Cardinality(b)
                /\ l' = l + 1
Next == /\ l <= Len(Trace)
        /\ \/ Act("crash", {"observe.raised"}) \/ Act("rho", RhoBad) \/ Act("vec", VecBad) \/ Act("numb", NumbBad)
           \/ Act("rand", RandBad) \/ Act("round", RoundBad) \/ Act("cvec", CvecBad)
vars == <<l, err>>
Spec == Init /\ [][Next]_vars
=============================================================================
