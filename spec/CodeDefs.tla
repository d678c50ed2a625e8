------------------------------ MODULE CodeDefs ------------------------------
(***************************************************************************)
(* What a stabilizer code is, what its logical operators are, and what     *)
(* each public operation of a code does to the quantum state.  The state   *)
(* is a tableau: a sequence of n signed, commuting, independent Paulis     *)
(* whose common +1 eigenvector is the state of the register.               *)
(***************************************************************************)
EXTENDS Pauli

ValidCode(gens, n, k) ==
   /\ Len(gens) = n - k
   /\ \A i \in 1..Len(gens) : EvenY(gens[i])
   /\ MutuallyCommute(gens)
   /\ Independent(gens)
   /\ InGroup(Id, gens)                      \* -1 is not in the group

(* X-block rank of a code: how many independent X parts *)
XRank(gens) == Rank([i \in 1..Len(gens) |-> P(gens[i].x, 0)])

LogicalsCommute(gens, ls) == \A i \in 1..Len(ls) : CommutesWithAll(ls[i], gens)
SymplecticBasis(lx, lz, k) ==
   /\ Len(lx) = k /\ Len(lz) = k
   /\ \A i, j \in 1..k : SympProd(lx[i], lz[j]) = (IF i = j THEN 1 ELSE 0)
   /\ \A i, j \in 1..k : Commute(lx[i], lx[j]) /\ Commute(lz[i], lz[j])
ValidLogicals(gens, lx, lz, k) ==
   /\ SymplecticBasis(lx, lz, k)
   /\ LogicalsCommute(gens, lx) /\ LogicalsCommute(gens, lz)
HermitianLogicals(lx, lz) == \A i \in 1..Len(lx) : EvenY(lx[i]) /\ EvenY(lz[i])

(* ---- tableau transitions ------------------------------------------------ *)
EncTab(gens, lz, x) == gens \o [i \in 1..Len(lz) |-> Flip(lz[i], x[i])]
PauliTab(tab, e) == [i \in 1..Len(tab) |-> Flip(tab[i], SympProd(tab[i], e))]

(* measuring p: outcome o projects on the (-1)^o eigenspace of p *)
Deterministic(tab, p) == CommutesWithAll(p, tab)
ForcedOutcome(tab, p) == Reduce(p, Echelon(tab)).s
Outcomes(tab, p) == IF Deterministic(tab, p) THEN {ForcedOutcome(tab, p)} ELSE {0, 1}
MeasTab(tab, p, o) ==
   IF Deterministic(tab, p) THEN tab
   ELSE LET j == CHOOSE j \in 1..Len(tab) :
                    ~Commute(tab[j], p) /\ \A i \in 1..(j-1) : Commute(tab[i], p)
        IN [i \in 1..Len(tab) |->
              IF i = j THEN Flip(p, o)
              ELSE IF Commute(tab[i], p) THEN tab[i] ELSE Mul(tab[i], tab[j])]

TabOK(tab, n) == /\ Len(tab) = n /\ MutuallyCommute(tab) /\ Independent(tab)
                 /\ \A i \in 1..n : EvenY(tab[i])
InCodeSpace(tab, gens) == LET e == Echelon(tab)
                          IN \A i \in 1..Len(gens) :
                               LET r == Reduce(gens[i], e) IN r.x = 0 /\ r.z = 0 /\ r.s = 0
SameState(t1, t2) == LET e == Echelon(t1)
                     IN \A i \in 1..Len(t2) :
                          LET r == Reduce(t2[i], e) IN r.x = 0 /\ r.z = 0 /\ r.s = 0

(* logical operator op in {"X","Y","Z"} on logical qubit i (0-based): the    *)
(* Y logical is the product XZ up to phase                                   *)
LogicalOp(lx, lz, op, i) == CASE op = "X" -> Bare(lx[i+1])
                              [] op = "Z" -> Bare(lz[i+1])
                              [] OTHER -> Add(lx[i+1], lz[i+1])

(* ---- decoding ------------------------------------------------------------ *)
(* The logical content of a tableau element t of a state in the code space:   *)
(* t = (-1)^sg  prod_j LX_j^a_j LZ_j^b_j  (mod the stabilizer group)           *)
RECURSIVE LogProd(_, _, _, _, _)
LogProd(lx, lz, a, b, j) ==
   IF j > Len(lx) THEN Id
   ELSE Mul(Mul(IF a[j] = 1 THEN Bare(lx[j]) ELSE Id, IF b[j] = 1 THEN Bare(lz[j]) ELSE Id),
            LogProd(lx, lz, a, b, j + 1))
RECURSIVE SumSeq(_)
SumSeq(q) == IF q = <<>> THEN 0 ELSE Head(q) + SumSeq(Tail(q))
LogicalContent(t, gens, lx, lz) ==
   LET k == Len(lx)
       a == [j \in 1..k |-> SympProd(t, lz[j])]
       b == [j \in 1..k |-> SympProd(t, lx[j])]
       q == LogProd(lx, lz, a, b, 1)
       \* q*q = (-1)^(its number of Ys), so t = sg q s  <=>  t q = sg q^2 s
       r == Reduce(Mul(t, q), Echelon(gens))
   IN [s |-> (r.s + Par(q.x & q.z)) % 2, x |-> BitsToInt(a), z |-> BitsToInt(b)]

(* After decoding, on n+k qubits: the first n are in the logical zero state  *)
(* and the k last ones hold the unencoded state.                             *)
DecodedTab(tab, gens, lx, lz) ==
   LET k == Len(lx)
   IN [i \in 1..Len(gens) |-> PadRight(gens[i], k)]
      \o [i \in 1..k |-> PadRight(Bare(lz[i]), k)]
      \o [i \in 1..Len(tab) |-> LogicalContent(tab[i], gens, lx, lz)]
=============================================================================
