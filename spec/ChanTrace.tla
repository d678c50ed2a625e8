------------------------------ MODULE ChanTrace ------------------------------
(***************************************************************************)
(* Validates recorded executions of the real channel objects (DenseKraus,  *)
(* SparseKraus, AnalyticQChan, ChoiQutip) against ChanDefs/ChanLife.  A    *)
(* trace keeps a table of objects; every line is one public call.          *)
(***************************************************************************)
EXTENDS ChanDefs, Json, IOUtils, TraceVerdict

VARIABLES l, objs, err

R == Trace[l]
If(c, name) == IF c THEN {} ELSE {name}
RECURSIVE Pow(_, _)
Pow(b, e) == IF e = 0 THEN 1 ELSE b * Pow(b, e - 1)

(* signed operators: only Choi matrices of maps that are not CP have them *)
SgTP(ks, sg, D) == MSum([k \in 1..Len(ks) |-> MScale(sg[k], MMul(MDag(ks[k]), ks[k]))]) = MId(ColsN(ks[1]), D)
Orthogonal(ks) == \A p, q \in 1..Len(ks) : p # q => MTr(MMul(MDag(ks[p]), ks[q])) = G0
AllPos(sg) == \A k \in 1..Len(sg) : sg[k] = 1

ShapeOK(r) == \A k \in 1..Len(r.ks) : IsMat(r.ks[k], Pow(r.dout, r.nout), Pow(r.din, r.nin))
IsChoi(t) == t \in {"choi", "achoi"}
IsAnalytic(t) == t \in {"adense", "asparse", "achoi"}

Obj(r) == [type |-> r.type, ks |-> r.ks, D |-> r.D, nin |-> r.nin, nout |-> r.nout, din |-> r.din,
           dout |-> r.dout, orth |-> r.orth, S |-> Sup(r.ks), Gm |-> Gram(r.ks), n |-> 1]
NoObj == [type |-> "none"]

Rejected(e) == e \in {"AssertionError", "TypeError", "ValueError"}
NewBad ==
   IF R.mismatch = 1                        \* the declared shape is not that of the operators
   THEN If(Rejected(R.exc), "new.bad_shape_accepted")
   ELSE IF ~IsAnalytic(R.type) /\ ~IsChoi(R.type) THEN
        If(R.exc = "", "new.valid_rejected")
        \cup (IF R.exc # "" THEN {} ELSE If((R.tp = 1) <=> TP(R.ks, R.D), "new.trace_preserving_test"))
   ELSE IF ~SgTP(R.ks, R.sg, R.D) THEN If(Rejected(R.exc), "new.not_trace_preserving_accepted")
   ELSE IF ~AllPos(R.sg) THEN (IF Orthogonal(R.ks) THEN If(Rejected(R.exc), "new.not_positive_accepted") ELSE {})
   ELSE If(R.exc = "", "new.valid_rejected")

Di(o) == Pow(o.din, o.nin)
Do(o) == Pow(o.dout, o.nout)

PropsBad(o) ==
   IF R.exc # "" THEN {"props.raised"}
   ELSE If(R.numb = <<o.nin, o.nout>> /\ R.din = o.din /\ R.dout = o.dout, "props.particles")
        \cup If(R.input = Pow(Di(o), R.n) /\ R.output = Pow(Do(o), R.n), "props.dimensions")
        \cup (IF IsChoi(o.type) THEN {} ELSE
              If(R.numb_kraus = Len(o.ks) /\ R.nth_count = Pow(Len(o.ks), R.n), "props.kraus_count"))

ChannelBad(o, pre) ==
   LET want == IF R.adj = 1 THEN AdjointN(o.S, Di(o), Do(o), R.n, R.rho)
                           ELSE ApplyN(o.S, Di(o), Do(o), R.n, R.rho)
   IN IF R.exc # "" THEN {pre \o ".raised"}
      ELSE If(R.out = want, pre \o (IF R.adj = 1 THEN ".adjoint" ELSE ".value"))
BatchBad(o) ==
   IF R.exc # "" THEN {"channel.batch_raised"}
   ELSE If(Len(R.outs) = Len(R.rhos)
           /\ \A i \in 1..Len(R.rhos) :
                 R.outs[i] = (IF R.adj = 1 THEN AdjointN(o.S, Di(o), Do(o), R.n, R.rhos[i])
                                           ELSE ApplyN(o.S, Di(o), Do(o), R.n, R.rhos[i])),
           "channel.batch")

(* block t of the complementary channel of orthogonal sets of operators *)
Bounds(o, nn) == LET K == Len(o.ks) m == Len(o.orth)
                 IN [t \in 1..(m + 2) |-> IF t = 1 THEN 0 ELSE IF t = m + 2 THEN Pow(K, nn)
                                          ELSE o.orth[t - 1] * Pow(K, nn - 1)]
Block(W, lo, hi) == Mat(hi - lo, hi - lo, LAMBDA i, j : W[lo + i][lo + j])
ExchBad(o) ==
   IF R.exc # "" THEN {"exchange.raised"}
   ELSE IF R.adj = 1
        THEN If(R.outs = <<ExchangeAdjN(o.Gm, Len(o.ks), Di(o), R.n, R.rho)>>, "exchange.adjoint")
   ELSE LET W == ExchangeN(o.Gm, Len(o.ks), Di(o), R.n, R.rho)
            bd == Bounds(o, R.n)
        IN If(R.outs = [t \in 1..(Len(o.orth) + 1) |-> Block(W, bd[t], bd[t + 1])], "exchange.value")

NthBad(o) == IF R.exc # "" THEN {"nth.raised"}
             ELSE If(R.outs = KrausN(o.ks, Di(o), Do(o), R.n), "nth.operators")

(* kraus operators (any decomposition of the same map); R.chois = D * sum vec vec^dag *)
KrausBad(o) == IF R.exc # "" THEN {"kraus.raised"}
               ELSE If(R.out = Choi(o.S, Di(o), Do(o)), "kraus.same_map")

(* (sqrt(rho)^T (x) I) J (sqrt(rho)^T (x) I), with sqrt(rho) = B / sqrt(T) *)
CompBad(o) ==
   LET t == MKron([i \in 1..Di(o) |-> [j \in 1..Di(o) |-> R.B[j][i]]], MId(Do(o), 1))
   IN IF R.exc # "" THEN {"complementary.raised"}
      ELSE If(R.out = MMul(MMul(t, Choi(o.S, Di(o), Do(o))), t), "complementary.value")

(* the subsystem that the trace condition speaks about is the output: Tr_out J = (sum K^dag K)^T *)
PtraceBad(o) ==
   IF R.exc # "" THEN {"choi.trace_condition_raised"}
   ELSE If(R.out = [i \in 1..Di(o) |-> [j \in 1..Di(o) |->
                    GSum([p \in 1..Len(o.ks) |-> o.Gm[p][p][j][i]], 1, Len(o.ks))]], "choi.trace_condition")

(* psi^dag N(psi psi^dag) psi *)
Outer(psi) == Mat(Len(psi), Len(psi), LAMBDA i, j : GMul(psi[i], GConj(psi[j])))
FidBad(o) ==
   LET out == ApplyN(o.S, Di(o), Do(o), R.n, Outer(R.psi))
       v == GSum([i \in 1..Len(R.psi) |-> GSum([j \in 1..Len(R.psi) |->
               GMul(GConj(R.psi[i]), GMul(out[i][j], R.psi[j]))], 1, Len(R.psi))], 1, Len(R.psi))
   IN IF R.exc # "" THEN {"fidelity.raised"} ELSE If(<<R.out, 0>> = v, "fidelity.value")
RECURSIVE ISum(_, _, _)
ISum(f, lo, hi) == IF lo > hi THEN 0 ELSE f[lo] + ISum(f, lo + 1, hi)
AefBad(o) ==
   LET term == [i \in 1..Len(R.states) |-> R.probs[i] *
                  ISum([k \in 1..Len(o.ks) |-> GNorm(MTr(MMul(o.ks[k], R.states[i])))], 1, Len(o.ks))]
   IN IF R.exc # "" THEN {"entanglement_fidelity.raised"}
      ELSE If(R.out = ISum(term, 1, Len(term)), "entanglement_fidelity.value")

(* ---- transitions of the object table -------------------------------------- *)
Init == l = 1 /\ objs = <<>> /\ err = 0
Go(bad) == LET b == bad IN Report(l, R.case, R.op, b) /\ err' = err + Cardinality(b) /\ l' = l + 1
Begin == R.op = "begin" /\ Go({}) /\ objs' = <<>>
New == /\ R.op = "new" /\ Go(NewBad)
       /\ objs' = Append(objs, IF R.exc = "" /\ R.mismatch = 0 /\ ShapeOK(R) THEN Obj(R) ELSE NoObj)
O == objs[R.a + 1]
O2 == objs[R.b + 1]
Live == O.type # "none"
Keep == UNCHANGED objs
MkSerial(a, b) == LET k == Serial(a.ks, b.ks) IN
   [type |-> a.type, ks |-> k, D |-> a.D * b.D, nin |-> b.nin, nout |-> a.nout, din |-> b.din, dout |-> a.dout,
    orth |-> <<>>, S |-> Sup(k), Gm |-> Gram(k), n |-> 1]
MkParallel(a, b) == LET k == Parallel(a.ks, b.ks) IN
   [type |-> a.type, ks |-> k, D |-> a.D * b.D, nin |-> 1, nout |-> 1, din |-> Di(a) * Di(b),
    dout |-> Do(a) * Do(b), orth |-> <<>>, S |-> Sup(k), Gm |-> Gram(k), n |-> 1]
SerialOp == /\ R.op = "serial"
            /\ IF Di(O) # Do(O2)
               THEN Go(If(R.exc = "TypeError", "serial.mismatch_accepted")) /\ objs' = Append(objs, NoObj)
               ELSE /\ Go(If(R.exc = "", "serial.raised"))
                    /\ objs' = Append(objs, IF R.exc = "" THEN MkSerial(O, O2) ELSE NoObj)
ParallelOp == /\ R.op = "parallel"
              /\ Go(If(R.exc = "", "parallel.raised"))
              /\ objs' = Append(objs, IF R.exc = "" THEN MkParallel(O, O2) ELSE NoObj)
(* the static functions on sets of operators *)
CatBad ==
   LET serial == R.kind = "serial"
   IN IF serial /\ ColsN(R.ks1[1]) # Len(R.ks2[1]) THEN If(R.exc = "TypeError", "serial.mismatch_accepted")
      ELSE IF R.exc # "" THEN {R.kind \o ".sets_raised"}
      ELSE If(R.outs = (IF serial THEN Serial(R.ks1, R.ks2) ELSE Parallel(R.ks1, R.ks2)), R.kind \o ".sets")
Cat == R.op = "cat" /\ Go(CatBad) /\ UNCHANGED objs
(* choosing the number of uses: only the tensor power changes *)
Uses == R.n
Call(op, bad) == /\ R.op = op /\ Go(IF Live THEN bad ELSE {})
                 /\ objs' = (IF Live THEN [objs EXCEPT ![R.a + 1].n = R.n] ELSE objs)
Refuse == /\ R.op = "choi_n" /\ Keep         \* a Choi matrix has a single use only
          /\ Go(If(R.exc # "", "choi.several_uses_accepted"))
Crash == R.op = "crash" /\ Go({"observe.raised"}) /\ Keep
Next == /\ l <= Len(Trace)
        /\ \/ Begin \/ New \/ SerialOp \/ Cat \/ ParallelOp \/ Refuse \/ Crash
           \/ Call("props", PropsBad(O)) \/ Call("channel", ChannelBad(O, IF IsChoi(O.type) THEN "choi" ELSE "channel"))
           \/ Call("batch", BatchBad(O)) \/ Call("exch", ExchBad(O)) \/ Call("nth", NthBad(O))
           \/ Call("kraus", KrausBad(O)) \/ Call("fid", FidBad(O)) \/ Call("aef", AefBad(O)) \/ Call("comp", CompBad(O))
           \/ Call("ptrace", PtraceBad(O))
vars == <<l, objs, err>>
Spec == Init /\ [][Next]_vars
=============================================================================
