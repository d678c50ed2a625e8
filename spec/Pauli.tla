------------------------------- MODULE Pauli -------------------------------
(***************************************************************************)
(* The Pauli group and GF(2) algebra used by every stabilizer-code spec.   *)
(*                                                                         *)
(* A Pauli operator on n qubits is a record [s, x, z]: s \in {0,1} is the  *)
(* sign bit, x and z are bit masks (qubit j of 0..n-1 is bit n-1-j, so the *)
(* mask read in binary is the string read left to right).  It denotes      *)
(*        (-1)^s  (X)_j X^{x_j} Z^{z_j}                                    *)
(* i.e. the repository's convention "the Pauli Y is exactly XZ".           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Bitwise, TLC

RECURSIVE ParR(_)
ParR(v) == IF v = 0 THEN 0 ELSE ((v % 2) + ParR(v \div 2)) % 2

ParT == [v \in 0..4095 |-> ParR(v)]
Par(v) == IF v < 4096 THEN ParT[v] ELSE (ParT[v % 4096] + ParR(v \div 4096)) % 2

RECURSIVE Weight(_)
Weight(v) == IF v = 0 THEN 0 ELSE (v % 2) + Weight(v \div 2)

(* ---- bit-list <-> mask ------------------------------------------------ *)
RECURSIVE BitsToInt(_)
BitsToInt(q) == IF q = <<>> THEN 0
                ELSE 2 * BitsToInt(SubSeq(q, 1, Len(q) - 1)) + q[Len(q)]

IsBits(q) == \A i \in 1..Len(q) : q[i] \in {0, 1}

Bit(v, n, j) == (v \div 2^(n - 1 - j)) % 2          \* bit of qubit j

(* A binary representation row [x | z] of length 2n *)
FromRow(row) == LET n == Len(row) \div 2
                IN [s |-> 0, x |-> BitsToInt(SubSeq(row, 1, n)),
                             z |-> BitsToInt(SubSeq(row, n + 1, 2 * n))]
ToRow(p, n) == [i \in 1..(2 * n) |-> IF i <= n THEN Bit(p.x, n, i - 1)
                                              ELSE Bit(p.z, n, i - 1 - n)]

(* ---- group operations -------------------------------------------------- *)
Id == [s |-> 0, x |-> 0, z |-> 0]
P(x, z) == [s |-> 0, x |-> x, z |-> z]
Mul(p, q) == [s |-> (p.s + q.s + Par(p.z & q.x)) % 2,
              x |-> p.x ^^ q.x, z |-> p.z ^^ q.z]
Add(p, q) == [s |-> 0, x |-> p.x ^^ q.x, z |-> p.z ^^ q.z]   \* modulo sign
Bare(p) == [p EXCEPT !.s = 0]
SympProd(p, q) == (Par(p.x & q.z) + Par(p.z & q.x)) % 2
Commute(p, q) == SympProd(p, q) = 0
(* an XZ-convention operator squares to +1 iff it has an even number of Ys *)
EvenY(p) == Par(p.x & p.z) = 0
Flip(p, b) == [p EXCEPT !.s = (p.s + b) % 2]

(* ---- sequences of Paulis ------------------------------------------------ *)
MutuallyCommute(gs) == \A i, j \in 1..Len(gs) : Commute(gs[i], gs[j])
CommutesWithAll(p, gs) == \A i \in 1..Len(gs) : Commute(p, gs[i])

RECURSIVE ProdOver(_, _, _)
(* product, in order, of the gs[i] whose bit i-1 is set in the mask m *)
ProdOver(gs, m, i) == IF i > Len(gs) THEN Id
                      ELSE LET rest == ProdOver(gs, m, i + 1)
                           IN IF (m \div 2^(i-1)) % 2 = 1 THEN Mul(gs[i], rest) ELSE rest
Prod(gs, m) == ProdOver(gs, m, 1)

(* Row reduction over GF(2) of a sequence of (x,z) pairs packed as one      *)
(* number x*2^n+z would overflow for n>15, so reduce pairs directly.        *)
RECURSIVE TopBit(_, _)
TopBit(v, b) == IF v < 2 * b THEN b ELSE TopBit(v, 2 * b)
LeadsAt(p, q) ==  \* the highest set bit of p (x part first, then z) is set in q
   IF p.x # 0 THEN (q.x \div TopBit(p.x, 1)) % 2 = 1
              ELSE (q.z \div TopBit(p.z, 1)) % 2 = 1

RECURSIVE Reduce(_, _)
(* reduce p (with signs) by an echelon basis, in order *)
Reduce(p, basis) == IF basis = <<>> THEN p
                    ELSE LET h == Head(basis)
                         IN Reduce(IF LeadsAt(h, p) THEN Mul(p, h) ELSE p, Tail(basis))

RECURSIVE EchelonR(_, _)
EchelonR(gs, basis) ==
   IF gs = <<>> THEN basis
   ELSE LET r == Reduce(Head(gs), basis)
        IN EchelonR(Tail(gs), IF r.x = 0 /\ r.z = 0 THEN basis ELSE Append(basis, r))
Echelon(gs) == EchelonR(gs, <<>>)

Rank(gs) == Len(Echelon(gs))
Independent(gs) == Rank(gs) = Len(gs)
(* membership in the group generated by gs: modulo sign / with sign.        *)
(* Reducing in insertion order clears each leading bit for good because a   *)
(* later basis row was itself reduced by all the earlier ones.              *)
InSpanE(p, ech) == LET r == Reduce(p, ech) IN r.x = 0 /\ r.z = 0
InSpan(p, gs) == InSpanE(p, Echelon(gs))
InGroup(p, gs) == LET r == Reduce(p, Echelon(gs)) IN r.x = 0 /\ r.z = 0 /\ r.s = 0
SameSpan(gs, hs) == LET eg == Echelon(gs) eh == Echelon(hs)
                    IN /\ \A i \in 1..Len(gs) : InSpanE(gs[i], eh)
                       /\ \A i \in 1..Len(hs) : InSpanE(hs[i], eg)

(* ---- exact stabilizer amplitudes ---------------------------------------- *)
(* A (scaled) stabilizer state vector is a sequence of codes 0..4:           *)
(* 0 = zero amplitude, c in 1..4 = i^(c-1).  Index b+1 holds <b|psi>.        *)
Neg(c) == IF c = 0 THEN 0 ELSE ((c + 1) % 4) + 1
(* g psi = psi, with (X^x Z^z)|c> = (-1)^{z.c} |c xor x>                     *)
Stabilizes(g, psi) ==
   \A b \in 0..(Len(psi) - 1) :
      LET c == b ^^ g.x
          a == psi[c + 1]
      IN psi[b + 1] = (IF (g.s + Par(g.z & c)) % 2 = 0 THEN a ELSE Neg(a))
(* same, for a general Gaussian-integer vector <<re, im>> *)
StabilizesG(g, psi) ==
   \A b \in 0..(Len(psi) - 1) :
      LET c == b ^^ g.x
          a == psi[c + 1]
      IN psi[b + 1] = (IF (g.s + Par(g.z & c)) % 2 = 0 THEN a ELSE <<-a[1], -a[2]>>)
WellFormedPsi(psi, n) == /\ Len(psi) = 2^n
                         /\ \A i \in 1..Len(psi) : psi[i] \in 0..4
                         /\ \E i \in 1..Len(psi) : psi[i] # 0

(* tensor with m further qubits on the right / on the left *)
PadRight(p, m) == [p EXCEPT !.x = p.x * 2^m, !.z = p.z * 2^m]

PauliChar(x, z) == IF x = 0 /\ z = 0 THEN "I" ELSE IF x = 1 /\ z = 0 THEN "X"
                   ELSE IF x = 0 THEN "Z" ELSE "Y"
CharBits(c) == CASE c = "I" -> <<0, 0>> [] c = "X" -> <<1, 0>>
                 [] c = "Z" -> <<0, 1>> [] c = "Y" -> <<1, 1>>
                 [] OTHER -> <<2, 2>>
=============================================================================
