------------------------------ MODULE DeviceTrace ------------------------------
(***************************************************************************)
(* Validates recorded fidelity estimations: one record per trial (the      *)
(* gates before, in and after the channel, the outcomes), one per call.    *)
(* The state acc remembers the trials of the call being read.              *)
(***************************************************************************)
EXTENDS DeviceDefs, Json, IOUtils, TraceVerdict

VARIABLES l, err, acc
R == Trace[l]
If(c, name) == IF c THEN {} ELSE {name}
RangeOf(s) == {s[i] : i \in 1..Len(s)}

GateOK(g, n) == /\ g[1] \in {"H", "X", "R"} /\ \A i \in 1..Len(g[3]) : g[3][i] \in 0..(n - 1)
                /\ Len(g[3]) = Cardinality(RangeOf(g[3])) /\ Len(g[3]) >= 1 /\ g[2] \in 0..5
GatesOK(gs, n) == \A i \in 1..Len(gs) : GateOK(gs[i], n)
Conv(gs) == [i \in 1..Len(gs) |-> IF gs[i][1] = "R" THEN <<"R", gs[i][2], RangeOf(gs[i][3])>>
                                  ELSE <<gs[i][1], gs[i][3][1]>>]
Zeros == \A i \in 1..Len(R.meas) : R.meas[i][2] = 0
OutcomeOf(n) == [q \in 0..(n - 1) |-> (CHOOSE i \in 1..Len(R.meas) : R.meas[i][1] = q)]
RECURSIVE Index(_, _, _)
Index(f, n, q) == IF q = n THEN 0 ELSE R.meas[f[q]][2] * 2^(n - 1 - q) + Index(f, n, q + 1)
NL == Layers(R.n, R.p, R.q)
TrialBad ==
   LET n == R.n IN
   IF R.chans # 1 \/ R.reg # n THEN {"trial.channel_not_applied_once"}
   ELSE LET wellMeas == Len(R.meas) = n /\ {R.meas[i][1] : i \in 1..Len(R.meas)} = 0..(n - 1)
            fresh == R.late = 0 /\ (IF R.cheat = 1 THEN Len(R.reset.wave) = 1 /\ R.reset.wave[1][n + 1] = 0
                                       /\ {R.reset.wave[1][i] : i \in 1..n} = 0..(n - 1)
                                    ELSE RangeOf(R.reset.alloc) = 0..(n - 1) \/
                                         (Len(R.reset.wave) = 1 /\ R.reset.wave[1][n + 1] = 0))
            ok == GatesOK(R.pre, n) /\ GatesOK(R.inn, n) /\ GatesOK(R.post, n)
        IN If(R.same = << <<1, 1>> >>, "trial.channel_arguments")
           \cup If(wellMeas, "trial.not_all_qubits_measured")
           \cup If(fresh, "trial.register_not_reset")
           \cup If(R.after = 0, "trial.gates_after_measurement")
           \cup If(R.stages = R.want, "trial.stages_order")
           \cup (IF ~ok THEN {"trial.gate_outside_the_design"}
                 ELSE LET pre == TLCEval(Conv(R.pre)) inn == TLCEval(Conv(R.inn)) post == TLCEval(Conv(R.post))
                          cn == TLCEval(Canonical(pre, n))
                      IN If(IsDesign(cn, n, NL), "trial.not_a_design_circuit")
                         \cup If(\A i \in 1..Len(pre) : pre[i][1] # "X", "trial.not_a_design_circuit")
                         \cup If(\/ /\ \A i \in 1..Len(post) : post[i][1] # "X"
                                  /\ SameLayers(cn, TLCEval(Canonical(Inverse(post), n)))
                               \/ IsIdentity(TLCEval(pre \o post), n), "trial.inverse")
                         \cup (IF ~wellMeas THEN {}
                               ELSE LET psi == TLCEval(Run(TLCEval(pre \o inn \o post), 1, Basis(n, 0), n))
                                    IN If(psi[Index(OutcomeOf(n), n, 0) + 1] # <<0, 0>>, "trial.impossible_outcome"))
                         \cup (IF R.ident = 1 THEN If(Zeros, "trial.identity_channel_fails") ELSE {}))
TrialAcc == LET n == R.n IN
            IF R.chans = 1 /\ R.reg = n /\ GatesOK(R.pre, n)
            THEN CHOOSE a \in {LET nl == NL IN Append(acc, [z |-> IF Zeros THEN 1 ELSE 0,
                                 s |-> [k \in (0..(nl - 1)) \X (0..(n - 1)) |-> Get(cn.s, k)],
                                 c |-> [k \in (0..(nl - 1)) \X Pairs(n) |-> Get(cn.c, k)]])
                                   : cn \in {Canonical(Conv(R.pre), n)}} : TRUE
            ELSE Append(acc, [z |-> IF Zeros THEN 1 ELSE 0, s |-> <<>>, c |-> <<>>])

RECURSIVE Zs(_), Count(_, _, _)
Zs(s) == IF s = <<>> THEN 0 ELSE Head(s).z + Zs(Tail(s))
(* phases of value v at slot k *)
Count(f, k, v) == Cardinality({i \in 1..Len(acc) : k \in DOMAIN f[i] /\ f[i][k] = v})
RECURSIVE SumOver(_, _)
SumOver(f, ks) == IF ks = {} THEN 0 ELSE LET k == CHOOSE k \in ks : TRUE IN f[k] + SumOver(f, ks \ {k})
FS == [i \in 1..Len(acc) |-> acc[i].s]
FC == [i \in 1..Len(acc) |-> acc[i].c]
(* the phases of a call are random: every value occurs at every place, about equally often, *)
(* and no two places, and no two trials, always agree (only for calls with many trials)     *)
Even(f, vals, name) ==
   LET T == Len(acc) keys == DOMAIN f[1] m == Cardinality(vals) IN
   If(\A i \in 1..T : DOMAIN f[i] = keys, name \o "_shape")
   \cup If(\A k \in keys : \A v \in vals :
             LET d == m * Count(f, k, v) - T IN d * d <= 36 * (m - 1) * T, name \o "_not_uniform")
   \cup If(\A v \in vals :
             LET cnt == [k \in keys |-> Count(f, k, v)]
                 all == T * Cardinality(keys)
                 d == m * SumOver(cnt, keys) - all IN d * d <= 36 * (m - 1) * all, name \o "_not_uniform")
   \cup If(\A k1, k2 \in keys : k1 # k2 => \E i \in 1..T : f[i][k1] # f[i][k2], name \o "_repeated")
CallBad ==
   IF R.exc # "" THEN {"estimate.raised"}
   ELSE If(R.trials = R.ntimes, "estimate.number_of_trials")
        \cup If(R.est = Zs(acc), "estimate.value")
        \cup If(R.isfloat = 1, "estimate.type")
        \cup (IF R.ntimes >= 40 /\ Len(acc) >= 40
              THEN Even(TLCEval(FS), {0, 2, 4}, "design.single_phases")
                   \cup (IF R.n = 1 THEN {} ELSE Even(TLCEval(FC), {0, 3}, "design.pair_phases"))
              ELSE {})

(* optimisation: evaluations [zeros, trials, same parameters, order, lengths, within bounds,  *)
(* register fresh at the encoder and untouched until the decoder]              *)
OptBad ==
   IF R.bad # "" THEN If(R.exc # "", "optimize." \o R.bad \o "_accepted")
   ELSE IF R.exc # "" THEN {"optimize.raised"}
   ELSE LET full == {i \in 1..Len(R.evals) : R.evals[i][2] = R.ntimes} IN
        If(R.fields = 1, "optimize.fields")
        \cup If(R.lens = 1, "optimize.parameter_lengths")
        \cup If(R.inb = 1, "optimize.outside_bounds")
        \cup If(full = 1..Len(R.evals) /\ full # {}, "optimize.number_of_trials")
        \cup If(\A i \in 1..Len(R.evals) : R.evals[i][3] = 1, "optimize.parameters_change_within_evaluation")
        \cup If(\A i \in 1..Len(R.evals) : R.evals[i][4] = 1, "optimize.stages_order")
        \cup If(\A i \in 1..Len(R.evals) : R.evals[i][5] = 1, "optimize.parameters_split")
        \cup If(\A i \in 1..Len(R.evals) : R.evals[i][6] = 1, "optimize.evaluated_outside_bounds")
        \cup If(\A i \in 1..Len(R.evals) : R.evals[i][7] = 1, "optimize.register_not_fresh")
        \cup If(R.at # <<>> /\ R.val \in RangeOf(R.at), "optimize.value_at_parameters")
        \cup If(\A i \in full : R.val >= R.evals[i][1], "optimize.not_best_evaluation")
(* the steps of a trial called one by one; acc holds the circuits not yet undone *)
DirectGates == TLCEval(Conv(R.gates))
DirectBad ==
   LET n == R.n IN
   IF R.exc # "" THEN {"direct.raised"}
   ELSE IF R.reg # n THEN {"direct.register"}
   ELSE IF ~GatesOK(R.gates, n) THEN {"direct.gate_outside_the_design"}
   ELSE CASE R.kind = "zero" -> If(R.zero = 1000, "direct.register_not_reset")
          [] R.kind = "design" ->
               If(IsDesign(TLCEval(Canonical(DirectGates, n)), n, NL), "direct.not_a_design_circuit")
               \cup If(\A i \in 1..Len(R.gates) : R.gates[i][1] # "X", "direct.not_a_design_circuit")
          [] R.kind = "undo" ->
               If(\/ /\ \A i \in 1..Len(R.gates) : R.gates[i][1] # "X"
                     /\ SameLayers(TLCEval(Canonical(acc[Len(acc)], n)),
                                   TLCEval(Canonical(Inverse(DirectGates), n)))
                  \/ IsIdentity(acc[Len(acc)] \o DirectGates, n), "direct.inverse")
               \cup (IF Len(acc) > 1 THEN {} ELSE If(R.zero = 1000, "direct.not_undone"))
          [] OTHER -> {}
DirectAcc == IF R.kind = "zero" \/ R.exc # "" \/ ~GatesOK(R.gates, R.n) THEN <<>>
             ELSE IF R.kind = "design" THEN Append(acc, DirectGates)
             ELSE IF R.kind = "undo" /\ acc # <<>> THEN SubSeq(acc, 1, Len(acc) - 1)
             ELSE acc
DirectSkipped == R.kind = "undo" /\ acc = <<>>      \* an earlier step has already been reported
Init == l = 1 /\ err = 0 /\ acc = <<>>
Act(op, bad, next) == /\ R.op = op
                      /\ LET b == bad IN Report(l, R.case, R.op, b) /\ err' = err + Cardinality(b)
                      /\ l' = l + 1 /\ acc' = next
Next == /\ l <= Len(Trace)
        /\ \/ Act("crash", {"observe.raised"}, <<>>)
           \/ Act("trial", TrialBad, TrialAcc) \/ Act("call", CallBad, <<>>)
           \/ Act("optimize", OptBad, <<>>)
           \/ Act("direct", IF DirectSkipped THEN {} ELSE DirectBad, DirectAcc)
           \/ Act("props", If(R.ok = 1, "device.properties"), <<>>)
vars == <<l, err, acc>>
Spec == Init /\ [][Next]_vars
=============================================================================
