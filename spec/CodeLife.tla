------------------------------ MODULE CodeLife ------------------------------
(***************************************************************************)
(* The life cycle of a stabilizer code and of one register using it:       *)
(*   build -> encode -> {pauli error | stabilizer circuit | logical op |   *)
(*                       measurement of a Pauli}* -> decode                *)
(***************************************************************************)
EXTENDS CodeDefs

CONSTANTS N, K, MaxSteps

VARIABLES gens, lx, lz,     \* the code, and its logical operators
          phase,            \* "built" | "encoded" | "decoded"
          tab,              \* the state of the register
          frame,            \* the accumulated Pauli applied since encoding
          x,                \* the encoded bits
          pure,             \* no non-deterministic measurement since encoding
          steps
vars == <<gens, lx, lz, phase, tab, frame, x, pure, steps>>

Mask == 0..(2^N - 1)
Paulis == {P(a, b) : a \in Mask, b \in Mask}
HermPaulis == {p \in Paulis : EvenY(p)} \ {Id}

Tuples(S, m) == [1..m -> S]
Codes == {g \in Tuples(HermPaulis, N - K) : ValidCode(g, N, K)}
Normalizer(g) == {p \in Paulis : CommutesWithAll(p, g)}
Logicals(g) == {l \in [lx : Tuples(Normalizer(g), K), lz : Tuples(Normalizer(g), K)] :
                   ValidLogicals(g, l.lx, l.lz, K) /\ HermitianLogicals(l.lx, l.lz)}

Init == /\ gens \in Codes
        /\ \E l \in Logicals(gens) : lx = l.lx /\ lz = l.lz
        /\ phase = "built" /\ tab = <<>> /\ frame = Id /\ pure = TRUE /\ steps = 0
        /\ x = [i \in 1..K |-> 0]

Encode(bits) == /\ phase = "built"
                /\ tab' = EncTab(gens, lz, bits)
                /\ x' = bits /\ phase' = "encoded" /\ frame' = Id
                /\ UNCHANGED <<gens, lx, lz, pure, steps>>

Step == /\ phase = "encoded" /\ steps < MaxSteps /\ steps' = steps + 1

ApplyPauli(e) == /\ Step
                 /\ tab' = PauliTab(tab, e)
                 /\ frame' = Add(frame, e)
                 /\ UNCHANGED <<gens, lx, lz, phase, x, pure>>
ApplyStabilizer(i) == ApplyPauli(gens[i])
Logical(op, i) == ApplyPauli(LogicalOp(lx, lz, op, i))

Measure(p, o) == /\ Step
                 /\ o \in Outcomes(tab, p)
                 /\ tab' = MeasTab(tab, p, o)
                 /\ pure' = (pure /\ Deterministic(tab, p))
                 /\ UNCHANGED <<gens, lx, lz, phase, frame, x>>

Decode == /\ phase = "encoded" /\ InCodeSpace(tab, gens)
          /\ tab' = DecodedTab(tab, gens, lx, lz)
          /\ phase' = "decoded"
          /\ UNCHANGED <<gens, lx, lz, frame, x, pure, steps>>

Next == \/ \E bits \in Tuples({0, 1}, K) : Encode(bits)
        \/ \E e \in Paulis : ApplyPauli(e)
        \/ \E i \in 1..(N - K) : ApplyStabilizer(i)
        \/ \E op \in {"X", "Y", "Z"}, i \in 0..(K - 1) : Logical(op, i)
        \/ \E p \in HermPaulis, o \in {0, 1} : Measure(p, o)
        \/ Decode
Spec == Init /\ [][Next]_vars

(* ------------------------------ properties ------------------------------ *)
TypeOK == phase \in {"built", "encoded", "decoded"} /\ steps \in 0..MaxSteps

TableauOK == phase = "encoded" => TabOK(tab, N)

(* an encoded, untouched register is in the code space with the right bits *)
EncodeCorrect == (phase = "encoded" /\ pure /\ frame = Id) =>
   /\ InCodeSpace(tab, gens)
   /\ \A i \in 1..K : Outcomes(tab, Flip(lz[i], x[i])) = {0}

(* syndrome of the accumulated error = its commutation with the generator *)
SyndromeCorrect == (phase = "encoded" /\ pure) =>
   \A i \in 1..Len(gens) : Outcomes(tab, gens[i]) = {SympProd(gens[i], frame)}

(* an error that commutes with every generator is undetectable; one in the  *)
(* group does nothing; one outside moves some encoded state                  *)
UndetectableIffNormalizer == (phase = "encoded" /\ pure) =>
   (InCodeSpace(tab, gens) <=> CommutesWithAll(frame, gens))
StabilizerTrivial == (phase = "encoded" /\ pure /\ InSpan(frame, gens)) =>
   SameState(tab, EncTab(gens, lz, x))

(* logical X_i flips exactly bit i; logical Z_i flips none *)
LogicalBits == (phase = "encoded" /\ pure /\ CommutesWithAll(frame, gens)) =>
   \A i \in 1..K : Outcomes(tab, lz[i]) = {(x[i] + SympProd(frame, lz[i])) % 2}

(* a measurement leaves the state an eigenstate of what was measured, and a  *)
(* deterministic one leaves the state alone                                  *)
MeasureRepeatable == [][\A p \in HermPaulis, o \in {0, 1} :
                          Measure(p, o) => Outcomes(tab', p) = {o}]_vars
MeasureGentle == [][\A p \in HermPaulis, o \in {0, 1} :
                          (Measure(p, o) /\ Deterministic(tab, p)) => SameState(tab', tab)]_vars

(* decoding returns the k-qubit state: for a pure history the decoded bits   *)
(* are the encoded ones changed by the logical X content of the frame        *)
DecodeCorrect == (phase = "decoded") =>
   /\ MutuallyCommute(tab)
   /\ Rank(tab) = N + K
   /\ InGroup(Id, tab)
   /\ pure => \A i \in 1..K :
        LET zi == P(0, 2^(K - i))
            r == Reduce(zi, Echelon(tab))
        IN r = [s |-> (x[i] + SympProd(frame, lz[i])) % 2, x |-> 0, z |-> 0]
=============================================================================
