------------------------------- MODULE EffTrace -------------------------------
(* Validates effective channels of codes, and decoders found by optimisation.  *)
EXTENDS EffDefs, Json, IOUtils, TraceVerdict

VARIABLES l, err
R == Trace[l]
If(c, name) == IF c THEN {} ELSE {name}
OFFV == 999983
Abs(v) == IF v < 0 THEN -v ELSE v
RECURSIVE ISum(_, _, _)
ISum(f, lo, hi) == IF lo > hi THEN 0 ELSE f[lo] + ISum(f, lo + 1, hi)

(* a Clifford gate per qubit of a block comes before the errors: the code that *)
(* is used is the given one, conjugated by it                                 *)
Twist(row, tw, nn) ==
   LET G(q) == tw[((q - 1) % Len(tw)) + 1]
       sw(q) == G(q) \in {"H", "SH"}          \* SH: first H, then S
       ph(q) == G(q) \in {"S", "SH"}
       x == [q \in 1..nn |-> IF sw(q) THEN row[nn + q] ELSE row[q]]
       z == [q \in 1..nn |-> IF sw(q) THEN row[q] ELSE row[nn + q]]
   IN [i \in 1..(2 * nn) |-> IF i <= nn THEN x[i]
                              ELSE IF ph(i - nn) THEN (x[i - nn] + z[i - nn]) % 2 ELSE z[i - nn]]
Gens == [i \in 1..Len(R.rows) |-> FromRow(Twist(R.rows[i], R.twist, R.n))]
Ws == Words(R.errs, R.kb, R.n \div R.kb)
Expect == LET M == SumW(Ws, 1)
          IN IF M <= 256 THEN MCoherent(Gens, Ws, R.k) \div M ELSE Coherent(Gens, Ws, R.k)

IsState(rho, d) ==
   /\ Len(rho) = d /\ \A i \in 1..d : Len(rho[i]) = d
   /\ Abs(ISum([i \in 1..d |-> rho[i][i][1]], 1, d) - 10000) <= 2 * d
   /\ \A i, j \in 1..d :
        /\ Abs(rho[i][j][1] - rho[j][i][1]) <= 2 /\ Abs(rho[i][j][2] + rho[j][i][2]) <= 2
        /\ rho[i][i][1] >= -2
        /\ LET a == rho[i][i][1] \div 10 b == rho[j][j][1] \div 10
               p == rho[i][j][1] \div 10 q == rho[i][j][2] \div 10
           IN p * p + q * q <= (a + 2) * (b + 2)
Refused == If(R.exc = "TypeError", "effective.bad_argument_accepted")
EffBad ==
   IF R.bad # "" THEN Refused
   ELSE IF R.exc # "" THEN {"effective.raised"}
   ELSE If(R.fields = 1, "effective.fields")
        \cup If(R.kept = 1, "effective.arguments_changed")
        \cup If(R.r_method = "slsqp" /\ R.r_objective = "coherent"
                /\ R.r_lipschitz = (IF R.lipschitz > 0 THEN 1 ELSE 0), "effective.labels")
        \cup If(IsState(R.rho, R.dim), "effective.state")
        \* the reported value is the coherent information of that state
        \cup If(R.val # OFFV /\ Abs(R.val - R.again) <= 100, "effective.value_at_state")
        \cup If(\A i \in 1..Len(R.svals) : R.val >= R.svals[i] - 200, "effective.best_of_samples")
        \cup If(R.val <= R.k * 100000 + 50, "effective.range")
        \* exact value for the maximally mixed logical state
        \cup (IF R.mixed = 0 THEN {}
              ELSE LET e == Expect
                   IN If(Abs(R.svals[R.mixed] - e) <= 60, "witness.mixed_state_value")
                      \cup If(R.val >= e - 200, "effective.maximally_mixed_not_reached")
                      \* for degradable channels it is the maximum
                      \cup If(R.tight = 1 => R.val <= e + 60, "effective.exceeds_optimum"))
(* One run per iteration budget of the solver.  A run whose recovery operation *)
(* is (within the solver's tolerance) trace preserving and positive never beats *)
(* the best decoder, and some run reaches it.                                   *)
Feasible(r) == r.tp # OFFV /\ r.psd # OFFV /\ r.tp <= 20 /\ r.psd >= -20
DecTol == 700
DecBad ==
   IF R.exc # "" THEN {"decoder.raised"}
   ELSE IF R.fields # 1 THEN {"decoder.fields"}
   ELSE LET M == SumW(Ws, 1) best == (BestFidelity(Gens, Ws) * 100000) \div M
            good == {i \in 1..Len(R.runs) : Feasible(R.runs[i])}
        IN If(\A i \in 1..Len(R.runs) : R.runs[i].shape = 1, "decoder.shape")
           \cup If(good # {}, "decoder.trace_preserving_positive")
           \cup If(\A i \in 1..Len(R.runs) : R.runs[i].val # OFFV /\ Abs(R.runs[i].refit - R.runs[i].val) <= 20,
                   "decoder.value_at_recovery")
           \cup If(\A i \in good : R.runs[i].val <= best + 100, "decoder.exceeds_optimum")
           \cup If(\E i \in good : R.runs[i].val >= best - DecTol, "decoder.optimal_value")
Init == l = 1 /\ err = 0
Act(op, bad) == /\ R.op = op
                /\ LET b == bad IN Report(l, R.case, R.op, b) /\ err' = err + Cardinality(b)
                /\ l' = l + 1
Next == /\ l <= Len(Trace)
        /\ \/ Act("crash", {"observe.raised"}) \/ Act("eff", EffBad) \/ Act("sdp", DecBad)
vars == <<l, err>>
Spec == Init /\ [][Next]_vars
=============================================================================
