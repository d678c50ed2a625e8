------------------------------- MODULE EffDefs -------------------------------
(***************************************************************************)
(* A stabilizer code used over a Pauli channel.                            *)
(*                                                                         *)
(* The channel acts on blocks of kb qubits; it is a sequence of weighted   *)
(* Pauli operators [x, z, w] (probability w / W, W the sum of the          *)
(* weights).  A word picks one operator per block.  Words that differ by   *)
(* a stabilizer act alike on the code (a class); classes that anticommute  *)
(* with the same generators are told apart by no decoder (a syndrome).     *)
(***************************************************************************)
EXTENDS Pauli, LogTab

(* a weighted operator on more and more blocks: the first block is leftmost *)
RECURSIVE Words(_, _, _)
Words(es, kb, m) ==
   IF m = 0 THEN <<[x |-> 0, z |-> 0, w |-> 1]>>
   ELSE LET r == Words(es, kb, m - 1) s == 2 ^ ((m - 1) * kb)
        IN [i \in 1..(Len(es) * Len(r)) |->
              LET a == es[((i - 1) \div Len(r)) + 1] b == r[((i - 1) % Len(r)) + 1]
              IN [x |-> a.x * s + b.x, z |-> a.z * s + b.z, w |-> a.w * b.w]]
RECURSIVE SumW(_, _)
SumW(ws, i) == IF i > Len(ws) THEN 0 ELSE ws[i].w + SumW(ws, i + 1)

Class(e, ech) == LET r == Reduce(P(e.x, e.z), ech) IN <<r.x, r.z>>
Syndrome(e, gens) == [i \in 1..Len(gens) |-> SympProd(P(e.x, e.z), gens[i])]

(* the weight of each value of key over the words *)
RECURSIVE Gather(_, _, _, _)
Gather(keys, ws, i, acc) ==
   IF i > Len(ws) THEN acc
   ELSE Gather(keys, ws, i + 1, IF keys[i] \in DOMAIN acc THEN [acc EXCEPT ![keys[i]] = @ + ws[i].w]
                                ELSE acc @@ (keys[i] :> ws[i].w))
RECURSIVE SeqOf(_)
SeqOf(s) == IF s = {} THEN <<>> ELSE LET v == CHOOSE v \in s : TRUE IN <<v>> \o SeqOf(s \ {v})
Dist(f) == LET ks == SeqOf(DOMAIN f) IN [i \in 1..Len(ks) |-> f[ks[i]]]

ClassTab(gens, ws) == LET ech == Echelon(gens)
                      IN Gather([i \in 1..Len(ws) |-> <<Class(ws[i], ech), Syndrome(ws[i], gens)>>], ws, 1, <<>>)
SyndTab(gens, ws) == Gather([i \in 1..Len(ws) |-> Syndrome(ws[i], gens)], ws, 1, <<>>)

MaxOf(s) == CHOOSE m \in s : \A v \in s : v <= m
RECURSIVE SumSet(_, _)
SumSet(f, s) == IF s = {} THEN 0 ELSE LET v == CHOOSE v \in s : TRUE IN f[v] + SumSet(f, s \ {v})

(* W^m times the entanglement fidelity of the best decoder: it guesses the  *)
(* heaviest class of each syndrome                                          *)
BestFidelity(gens, ws) ==
   LET ct == ClassTab(gens, ws)
       ss == {c[2] : c \in DOMAIN ct}
       best == [s \in ss |-> MaxOf({ct[c] : c \in {c \in DOMAIN ct : c[2] = s}})]
   IN SumSet(best, ss)

(* M times the coherent information, in 1/100000 bit, of the code sent      *)
(* through the channel with the maximally mixed logical state:              *)
(*    k + H(syndromes) - H(classes),  M the total weight                    *)
MCoherent(gens, ws, k) ==
   LET M == SumW(ws, 1)
   IN M * k * 100000 + MEntropy(Dist(SyndTab(gens, ws)), M) - MEntropy(Dist(ClassTab(gens, ws)), M)
(* the coherent information itself, for larger total weights *)
Coherent(gens, ws, k) ==
   LET M == SumW(ws, 1)
   IN k * 100000 + Entropy(Dist(SyndTab(gens, ws)), M, 1) - Entropy(Dist(ClassTab(gens, ws)), M, 1)
=============================================================================
