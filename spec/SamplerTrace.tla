---------------------------- MODULE SamplerTrace ----------------------------
(***************************************************************************)
(* Validates runs of the real sampler.  The run's draws (state, objective  *)
(* value) were scripted; the recorded events are the draws and evaluations *)
(* in the order in which they happened, and the result returned.           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, TraceVerdict

VARIABLES l, err
R == Trace[l]
If(c, name) == IF c THEN {} ELSE {name}
(* entries are multiples of 1, i or 3+4i (and so on), the recorded distance table is exact *)
RECURSIVE MaxS(_, _)
MaxS(s, i) == IF i = Len(s) THEN s[i] ELSE LET m == MaxS(s, i + 1) IN IF s[i] > m THEN s[i] ELSE m
(* integer square root of a perfect square, checked *)
RECURSIVE ISqrt(_, _)
ISqrt(x, r) == IF r * r = x THEN r ELSE IF r * r > x THEN -1 ELSE ISqrt(x, r + 1)
RECURSIVE SumSeq(_, _)
SumSeq(s, i) == IF i > Len(s) THEN 0 ELSE s[i] + SumSeq(s, i + 1)
Diff(a, b) == [i \in 1..Len(a) |-> ISqrt((a[i][1] - b[i][1]) * (a[i][1] - b[i][1])
                                         + (a[i][2] - b[i][2]) * (a[i][2] - b[i][2]), 0)]
Dist(a, b) == SumSeq(Diff(a, b), 1)
Exact == \A i, j \in 1..Len(R.rhos) : \A k \in 1..Len(R.rhos[i]) : Diff(R.rhos[i], R.rhos[j])[k] >= 0

Accept(ids, x) == LET vals == [i \in 1..Len(ids) |-> R.vals[ids[i]]] best == MaxS(vals, 1)
                  IN \A i \in 1..Len(ids) : best <= vals[i] + Dist(R.rhos[x], R.rhos[ids[i]])
RECURSIVE Walk(_, _)
(* <<accepted draws, number of draws>> *)
Walk(ids, x) == IF Len(ids) >= R.numb \/ x - 1 > R.tries THEN <<ids, x - 1>>
                ELSE Walk(IF Accept(ids, x) THEN Append(ids, x) ELSE ids, x + 1)
SampleBad ==
   IF ~Exact THEN {"witness.distance"}
   ELSE IF R.exc # "" THEN {"sampler.raised"}
   ELSE LET w == Walk(<<1>>, 2) ids == w[1] IN
        If(R.ids = ids, "sampler.accepted")
        \cup If(R.evals = [i \in 1..Len(R.ids) |-> R.vals[R.ids[i]]], "sampler.values")
        \cup If(R.evaluated = ids, "sampler.evaluations")
        \cup If(R.success = (IF Len(ids) = R.numb THEN 1 ELSE 0), "sampler.success")
        \cup If(R.args = 1, "sampler.arguments")
Init == l = 1 /\ err = 0
Act(op, bad) == /\ R.op = op
                /\ LET b == bad IN Report(l, R.case, R.op, b) /\ err' = err + Cardinality(b)
                /\ l' = l + 1
Next == /\ l <= Len(Trace)
        /\ \/ Act("crash", {"observe.raised"}) \/ Act("sample", SampleBad)
vars == <<l, err>>
Spec == Init /\ [][Next]_vars
=============================================================================
