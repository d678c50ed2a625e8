------------------------------ MODULE DeviceDefs ------------------------------
(***************************************************************************)
(* Circuits of the fidelity estimation, over the exact ring Z[zeta] with   *)
(* zeta = exp(i pi / 3): an amplitude <<a, b>> is a + b zeta.  Hadamard    *)
(* gates are not normalised (each one multiplies lengths by sqrt 2).       *)
(* Gates: <<"H", q>>, <<"X", q>>, <<"R", a, qs>> (phase zeta^a when every  *)
(* qubit of the set qs is one).  Qubit 0 is the leftmost bit.              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

ZAdd(u, v) == <<u[1] + v[1], u[2] + v[2]>>
ZSub(u, v) == <<u[1] - v[1], u[2] - v[2]>>
ZRot1(u) == <<-u[2], u[1] + u[2]>>               \* zeta (a + b zeta), zeta^2 = zeta - 1
RECURSIVE ZRot(_, _)
ZRot(u, a) == IF a = 0 THEN u ELSE ZRot(ZRot1(u), a - 1)
ZNorm(u) == u[1] * u[1] + u[1] * u[2] + u[2] * u[2]

QBit(b, n, q) == (b \div 2^(n - 1 - q)) % 2
FlipBit(b, n, q) == IF QBit(b, n, q) = 1 THEN b - 2^(n - 1 - q) ELSE b + 2^(n - 1 - q)
Basis(n, b) == [i \in 1..2^n |-> IF i = b + 1 THEN <<1, 0>> ELSE <<0, 0>>]

Apply(g, psi, n) ==
   CASE g[1] = "H" ->
          [i \in 1..2^n |-> LET b == i - 1 o == psi[FlipBit(b, n, g[2]) + 1]
                            IN IF QBit(b, n, g[2]) = 0 THEN ZAdd(psi[i], o) ELSE ZSub(o, psi[i])]
     [] g[1] = "X" -> [i \in 1..2^n |-> psi[FlipBit(i - 1, n, g[2]) + 1]]
     [] g[1] = "R" -> [i \in 1..2^n |-> IF \A q \in g[3] : QBit(i - 1, n, q) = 1 THEN ZRot(psi[i], g[2] % 6)
                                        ELSE psi[i]]
RECURSIVE Run(_, _, _, _)
Run(gs, i, psi, n) == IF i > Len(gs) THEN psi ELSE LET p == TLCEval(Apply(TLCEval(gs[i]), psi, n)) IN Run(gs, i + 1, p, n)

(* number of repetitions for precision p/q: the least l with 2^(n l) >= q/p *)
RECURSIVE LeastL(_, _, _, _)
LeastL(n, p, q, l) == IF p * 2^(n * l) >= q THEN l ELSE LeastL(n, p, q, l + 1)
Layers(n, p, q) == 2 * LeastL(n, p, q, 0) + 1

(* the circuit of given phases: layer = [s |-> phase of each qubit (0, 2, 4), *)
(* c |-> controlled phase of each pair (0, 3)]                                *)
RECURSIVE SeqOfSet(_)
SeqOfSet(s) == IF s = {} THEN <<>> ELSE LET v == CHOOSE v \in s : TRUE IN <<v>> \o SeqOfSet(s \ {v})
Pairs(n) == {e \in SUBSET (0..(n - 1)) : Cardinality(e) = 2}
LayerGates(ly, n) ==
   LET ps == SeqOfSet(Pairs(n)) IN
   [i \in 1..n |-> <<"R", ly.s[i - 1], {i - 1}>>] \o [i \in 1..Len(ps) |-> <<"R", ly.c[ps[i]], ps[i]>>]
   \o [i \in 1..n |-> <<"H", i - 1>>]
Inverse(gs) == [i \in 1..Len(gs) |-> LET g == gs[Len(gs) + 1 - i]
                                     IN IF g[1] = "R" THEN <<"R", (6 - g[2]) % 6, g[3]>> ELSE g]
AllLayers(n) == [s : [0..(n - 1) -> {0, 2, 4}], c : [Pairs(n) -> {0, 3}]]

(* a circuit takes every basis state to itself, with one common phase *)
IsIdentity(gs, n) ==
   LET c == Run(gs, 1, Basis(n, 0), n)[1]
   IN /\ c # <<0, 0>>
      /\ \A b \in 0..(2^n - 1) : Run(gs, 1, Basis(n, b), n) = [i \in 1..2^n |-> IF i = b + 1 THEN c ELSE <<0, 0>>]

(* the canonical layers of a circuit of phases and Hadamards: phases commute, *)
(* so a phase belongs to the layer given by the Hadamards its qubits have had *)
RECURSIVE Canon(_, _, _, _)
(* acc: [h : count of H per qubit, s : layer/qubit -> phase, c : layer/pair -> phase, ok] *)
Canon(gs, i, n, acc) ==
   IF i > Len(gs) THEN acc
   ELSE LET g == gs[i] IN
        Canon(gs, i + 1, n, TLCEval(
          CASE g[1] = "H" -> [acc EXCEPT !.h = [@ EXCEPT ![g[2]] = @ + 1]]
            [] g[1] = "R" /\ Cardinality(g[3]) = 1 ->
                 LET q == CHOOSE q \in g[3] : TRUE k == <<acc.h[q], q>>
                 IN [acc EXCEPT !.s = IF k \in DOMAIN @ THEN [@ EXCEPT ![k] = (@ + g[2]) % 6] ELSE @ @@ (k :> g[2])]
            [] g[1] = "R" /\ Cardinality(g[3]) = 2 /\ (\A q, r \in g[3] : acc.h[q] = acc.h[r]) ->
                 LET q == CHOOSE q \in g[3] : TRUE k == <<acc.h[q], g[3]>>
                 IN [acc EXCEPT !.c = IF k \in DOMAIN @ THEN [@ EXCEPT ![k] = (@ + g[2]) % 6] ELSE @ @@ (k :> g[2])]
            [] OTHER -> [acc EXCEPT !.ok = FALSE]))
Canonical(gs, n) == Canon(gs, 1, n, [h |-> [q \in 0..(n - 1) |-> 0], s |-> <<>>, c |-> <<>>, ok |-> TRUE])
(* a two design circuit with the right number of layers *)
IsDesign(cn, n, layers) ==
   /\ cn.ok /\ \A q \in 0..(n - 1) : cn.h[q] = layers
   /\ \A k \in DOMAIN cn.s : k[1] < layers /\ cn.s[k] \in {0, 2, 4}
   /\ \A k \in DOMAIN cn.c : k[1] < layers /\ cn.c[k] \in {0, 3}
   /\ {k[1] : k \in DOMAIN cn.s} \subseteq 0..(layers - 1)
(* equal canonical layers: the same circuit up to commuting gates               *)
Phases(f) == {<<k, f[k]>> : k \in {k \in DOMAIN f : f[k] # 0}}
SameLayers(a, b) == /\ a.ok /\ b.ok /\ a.h = b.h
                    /\ Phases(a.s) = Phases(b.s) /\ Phases(a.c) = Phases(b.c)
Get(f, k) == IF k \in DOMAIN f THEN f[k] ELSE 0
=============================================================================
