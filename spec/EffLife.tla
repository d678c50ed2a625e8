------------------------------- MODULE EffLife -------------------------------
(***************************************************************************)
(* Design model: a sender encodes, the channel picks an error word, a      *)
(* receiver sees the syndrome and applies the correction its table holds.  *)
(* TLC builds every decoding table for every code and channel of the       *)
(* constants: none succeeds more often than BestFidelity says, some does;  *)
(* and the coherent information formula stays within its bounds.           *)
(***************************************************************************)
EXTENDS EffDefs
CONSTANTS N, K, KB, WMax

VARIABLES gens, es, table, phase
vars == <<gens, es, table, phase>>
Masks == 0..(2^N - 1)
Ops == {P(x, z) : x \in Masks, z \in Masks}
Codes == {g \in [1..(N - K) -> Ops] : /\ \A i \in 1..(N - K) : EvenY(g[i]) /\ g[i] # Id
                                      /\ MutuallyCommute(g) /\ Independent(g)}
BM == 0..(2^KB - 1)
EOps == {e \in [x : BM, z : BM, w : 1..WMax] : TRUE}
Chans == {<<a, b>> : a \in EOps, b \in EOps}
M == N \div KB
Init == /\ gens \in Codes
        /\ es \in {c \in Chans : <<c[1].x, c[1].z>> # <<c[2].x, c[2].z>>}
        /\ table = <<>> /\ phase = "build"
Ws == Words(es, KB, M)
Open == {c[2] : c \in DOMAIN ClassTab(gens, Ws)} \ DOMAIN table
Build == /\ phase = "build" /\ Open # {}
         /\ LET s == CHOOSE s \in Open : TRUE IN
            \E c \in DOMAIN ClassTab(gens, Ws) : c[2] = s /\ table' = table @@ (s :> c)
         /\ UNCHANGED <<gens, es, phase>>
Done == phase = "build" /\ Open = {} /\ phase' = "use" /\ UNCHANGED <<gens, es, table>>
Next == Build \/ Done
Spec == Init /\ [][Next]_vars
RECURSIVE Succ(_)
Succ(i) == IF i > Len(Ws) THEN 0
           ELSE (LET e == Ws[i] s == Syndrome(e, gens)
                 IN IF table[s] = <<Class(e, Echelon(gens)), s>> THEN e.w ELSE 0) + Succ(i + 1)
NoTableBetter == phase = "use" => Succ(1) <= BestFidelity(gens, Ws)
GreedyBest == LET ct == ClassTab(gens, Ws)
              IN phase = "use" /\ (\A s \in DOMAIN table : \A c \in DOMAIN ct : c[2] = s => ct[c] <= ct[table[s]])
                 => Succ(1) = BestFidelity(gens, Ws)
Slack == 4 * SumW(Ws, 1)
InRange == LET m == SumW(Ws, 1) v == MCoherent(gens, Ws, K)
           IN /\ v <= m * K * 100000 + Slack
              /\ v >= -(m * K * 100000) - Slack
              \* perfect correction: nothing is lost, and conversely
              /\ (BestFidelity(gens, Ws) = m) <=> (v >= m * K * 100000 - Slack)
Weights == LET m == SumW(Ws, 1)
           IN BestFidelity(gens, Ws) <= m /\ m = (es[1].w + es[2].w)^M
=============================================================================
