------------------------------ MODULE ChanLife ------------------------------
(***************************************************************************)
(* Life cycle of a channel object: built from Kraus operators, serially    *)
(* and parallel concatenated with others, and switched between numbers of  *)
(* uses n.  The cached n-fold operators are kept, as the implementation    *)
(* does, as a list built incrementally from the single use operators; the  *)
(* cache is represented by words over the operator indices, its meaning    *)
(* by ChanDefs.                                                            *)
(***************************************************************************)
EXTENDS ChanDefs

CONSTANTS MaxConcat, MaxUpdates, MaxN, MaxDim, MaxKraus

VARIABLES ks, D, n, cache, conj, nconcat, nupd
vars == <<ks, D, n, cache, conj, nconcat, nupd>>

i1 == <<0, 1>>
m1 == <<-1, 0>>
Palette == {
   [ks |-> <<MId(2, 1)>>, D |-> 1],
   [ks |-> <<MId(2, 2), <<<<G0, G1>>, <<G1, G0>>>>>>, D |-> 5],
   [ks |-> <<MId(2, 1), <<<<G0, GConj(i1)>>, <<i1, G0>>>>>>, D |-> 2],
   [ks |-> <<<<<<<<2,0>>, G0>>, <<G0, <<2,0>>>>, <<G0, G0>>>>,
             <<<<G0, G0>>, <<G0, G0>>, <<G1, G0>>>>,
             <<<<G0, G0>>, <<G0, G0>>, <<G0, G1>>>>>>, D |-> 5],
   [ks |-> <<<<<<<<5,0>>, G0>>, <<G0, <<3,0>>>>>>, <<<<G0, <<4,0>>>>, <<G0, G0>>>>>>, D |-> 25],
   [ks |-> <<<<<<G1, G0>>, <<G0, i1>>, <<G1, G0>>, <<G0, i1>>>>>>, D |-> 2] }
Din == ColsN(ks[1])
Dout == RowsN(ks[1])

RECURSIVE Tensor(_, _)
Tensor(a, b) == [p \in 1..(Len(a) * Len(b)) |-> a[((p - 1) \div Len(b)) + 1] \o b[((p - 1) % Len(b)) + 1]]
Base == [k \in 1..Len(ks) |-> <<k>>]
RECURSIVE Grow(_, _)
Grow(c, m) == IF m = 0 THEN c ELSE Grow(Tensor(Base, c), m - 1)

Fresh(a, d) == /\ ks' = a /\ D' = d /\ n' = 1
               /\ cache' = [k \in 1..Len(a) |-> <<k>>] /\ conj' = cache'

Init == /\ \E c \in Palette : ks = c.ks /\ D = c.D
        /\ n = 1 /\ nconcat = 0 /\ nupd = 0
        /\ cache = Base /\ conj = Base

DoSerial(c) == /\ nconcat < MaxConcat
               /\ Din = RowsN(c.ks[1])
               /\ Len(ks) * Len(c.ks) <= MaxKraus
               /\ Fresh(Serial(ks, c.ks), D * c.D)
               /\ nconcat' = nconcat + 1 /\ UNCHANGED nupd
DoParallel(c) == /\ nconcat < MaxConcat
                 /\ Din * ColsN(c.ks[1]) <= MaxDim /\ Dout * RowsN(c.ks[1]) <= 2 * MaxDim
                 /\ Len(ks) * Len(c.ks) <= MaxKraus
                 /\ Fresh(Parallel(ks, c.ks), D * c.D)
                 /\ nconcat' = nconcat + 1 /\ UNCHANGED nupd
Update(m) == /\ nupd < MaxUpdates /\ m # n /\ Len(ks)^m <= 30 /\ Din^m <= 8
             /\ cache' = IF m > n THEN Grow(cache, m - n)
                         ELSE IF m = 1 THEN Base ELSE Grow(Tensor(Base, Base), m - 2)
             /\ conj' = cache'
             /\ n' = m /\ nupd' = nupd + 1
             /\ UNCHANGED <<ks, D, nconcat>>
Next == \/ \E c \in Palette : DoSerial(c) \/ DoParallel(c)
        \/ \E m \in 1..MaxN : Update(m)
Spec == Init /\ [][Next]_vars

(* ------------------------------ properties ------------------------------ *)
AllWords == [p \in 1..(Len(ks)^n) |-> [t \in 1..n |-> Digit(p - 1, Len(ks), n, t) + 1]]
HistoryFree == cache = AllWords /\ conj = AllWords
TracePreserving == TP(ks, D)

Unit(d, a, b) == Mat(d, d, LAMBDA i, j : IF i = a /\ j = b THEN <<1, 1>> ELSE IF i = b /\ j = a THEN <<2, -1>> ELSE G0)
Probe(d) == {Unit(d, 1, 1), Unit(d, 1, d), Unit(d, d, 2)}
Tr2(a, b) == MTr(MMul(a, b))
RECURSIVE Pow(_, _)
Pow(b, e) == IF e = 0 THEN 1 ELSE b * Pow(b, e - 1)
Quantum == LET S == Sup(ks) Gm == Gram(ks) IN
   Din^n <= 4 /\ Dout^n <= 9 /\ Len(ks)^n <= 9 =>
   /\ \A rho \in Probe(Din^n) :
        LET out == ApplyN(S, Din, Dout, n, rho)
            W == ExchangeN(Gm, Len(ks), Din, n, rho)
        IN /\ MTr(out) = GScale(Pow(D, n), MTr(rho))                  \* trace
           /\ MTr(W) = GScale(Pow(D, n), MTr(rho))
           /\ (Hermitian(rho) => Hermitian(out) /\ Hermitian(W))
           /\ \A sg \in Probe(Dout^n) :                                  \* duality
                Tr2(out, sg) = Tr2(rho, AdjointN(S, Din, Dout, n, sg))
           /\ \A om \in Probe(IF Len(ks)^n > 1 THEN Len(ks)^n ELSE 2) :
                Len(ks)^n > 1 => Tr2(W, om) = Tr2(ExchangeAdjN(Gm, Len(ks), Din, n, om), rho)
   /\ AdjointN(S, Din, Dout, n, MId(Dout^n, 1)) = MId(Din^n, Pow(D, n))  \* unital adjoint
   /\ LET kn == KrausN(ks, Din, Dout, n) r == Unit(Din^n, 1, Din^n)     \* the n-fold operators
      IN MSum([p \in 1..Len(kn) |-> MMul(MMul(kn[p], r), MDag(kn[p]))]) = ApplyN(S, Din, Dout, n, r)
=============================================================================
