------------------------------ MODULE CodeTrace ------------------------------
(***************************************************************************)
(* Validates recorded executions of the real StabilizerCode against        *)
(* CodeDefs/CodeLife.  Each line is one public call; the tableau advances  *)
(* with the specification's own transition, and the recorded state vector, *)
(* outcome and return value must be those the specification allows.  The   *)
(* verdict is total: a failing clause is printed and the trace goes on.    *)
(***************************************************************************)
EXTENDS CodeDefs, Json, IOUtils, TraceVerdict

(* gens: the generators of the working code - the group generated by the     *)
(* normal form, i.e. the given group after the relabelling of the qubits     *)
(* that the library's normal form is allowed to make.                        *)
VARIABLES l, n, k, gens, lx, lz, tab, err

Rows(rs) == [i \in 1..Len(rs) |-> FromRow(rs[i])]

R == Trace[l]

(* Relabelling: qubit j of the result is qubit perm[j+1] of the given code.  *)
IsPerm(p, nn) == Len(p) = nn /\ {p[i] : i \in 1..nn} = 0..(nn - 1)
RowPerm(row, p, nn) == [i \in 1..(2 * nn) |-> IF i <= nn THEN row[p[i] + 1]
                                                        ELSE row[nn + p[i - nn] + 1]]
Relabel(rs, p, nn) == [i \in 1..Len(rs) |-> RowPerm(rs[i], p, nn)]

(* [ I A1 A2 | B C1 C2 ]  the identity blocks of the standard form: X part of *)
(* [ 0 0  0  | D I  E  ]  the first rank rows, Z part of the remaining ones.   *)
StandardForm(nf, rk, nn) ==
   rk \in 0..nn /\ Len(nf) <= nn /\ \A i \in 1..Len(nf) : Len(nf[i]) = 2 * nn
      => IF i <= rk THEN \A q \in 1..rk : nf[i][q] = (IF q = i THEN 1 ELSE 0)
                    ELSE \A q \in (rk + 1)..Len(nf) : nf[i][nn + q] = (IF q = i THEN 1 ELSE 0)

NormalFormBad(r, g) ==
   LET nf == Rows(r.nf)
   IN (IF \A i \in 1..Len(r.nf) : Len(r.nf[i]) = 2 * r.n /\ IsBits(r.nf[i]) THEN {} ELSE {"normalform.shape"})
      \cup (IF Len(nf) = Len(g) THEN {} ELSE {"normalform.count"})
      \cup (IF SameSpan(nf, g) THEN {} ELSE {"normalform.span"})
      \cup (IF MutuallyCommute(nf) THEN {} ELSE {"normalform.commute"})
      \cup (IF Independent(nf) THEN {} ELSE {"normalform.independent"})
      \cup (IF r.rank = XRank(g) THEN {} ELSE {"normalform.rank"})
      \cup (IF \A i \in 1..Len(nf) : (i > r.rank) <=> (nf[i].x = 0) THEN {} ELSE {"normalform.blocks"})
      \cup (IF StandardForm(r.nf, r.rank, r.n) THEN {} ELSE {"normalform.standard_form"})

ShapeBad(rs, nn, kk) == ~(Len(rs) = kk /\ \A i \in 1..Len(rs) : Len(rs[i]) = 2 * nn /\ IsBits(rs[i]))

LogicalBad(r, g) ==
   IF ShapeBad(r.lx, r.n, r.k) \/ ShapeBad(r.lz, r.n, r.k) THEN {"logical.shape"}
   ELSE LET a == Rows(r.lx) b == Rows(r.lz)
        IN (IF LogicalsCommute(g, a) THEN {} ELSE {"logical.x_commutes_with_stabilizers"})
           \cup (IF LogicalsCommute(g, b) THEN {} ELSE {"logical.z_commutes_with_stabilizers"})
           \cup (IF SymplecticBasis(a, b, r.k) THEN {} ELSE {"logical.symplectic"})
           \cup (IF Rank(g \o a \o b) = Len(g) + 2 * r.k THEN {} ELSE {"logical.independent"})

NfShapeOK(r) == \A i \in 1..Len(r.nf) : Len(r.nf[i]) = 2 * r.n /\ IsBits(r.nf[i])
BuildBad(r) ==
   LET g == Rows(Relabel(r.gens, r.perm, r.n))
       nf == Rows(r.nf)
   IN IF r.exc # "" THEN {"build.raised"}
      ELSE IF ~IsPerm(r.perm, r.n) THEN {"build.witness"}
      ELSE (IF r.stab = r.gens THEN {} ELSE {"build.generators"})
           \cup (IF r.got_n = r.n /\ r.got_k = r.k THEN {} ELSE {"build.parameters"})
           \cup NormalFormBad(r, g)
           \cup (IF ~NfShapeOK(r) THEN {} ELSE LogicalBad(r, nf))
           \cup (IF r.strict = 1 /\ NfShapeOK(r)
                 THEN LET gg == Rows(r.gens)
                      IN (IF \A i \in 1..Len(gg) : InGroup(gg[i], nf) THEN {} ELSE {"normalform.given_group"})
                         \cup (IF ShapeBad(r.lx, r.n, r.k) \/ ShapeBad(r.lz, r.n, r.k) THEN {}
                               ELSE IF LogicalsCommute(gg, Rows(r.lx)) /\ LogicalsCommute(gg, Rows(r.lz))
                                    THEN {} ELSE {"logical.given_generators"})
                 ELSE {})
           \cup (IF r.ulx = <<>> THEN {}
                 ELSE IF r.lx = r.ulx /\ r.lz = r.ulz THEN {} ELSE {"logical.user_supplied"})

StabAll(t, psi) == \A i \in 1..Len(t) : Stabilizes(t[i], psi)
(* the system part of a register that also has one measurement ancilla *)
AncClassical(psi) == \E s \in {0, 1} : Stabilizes([s |-> s, x |-> 0, z |-> 1], psi)
(* qubits outside the register are all in state one and stay there *)
SideOK(r) == r.side = <<>> \/ (\A i \in 1..Len(r.side) : (r.side[i] # 0) <=> (i = Len(r.side)))
StateBad(t, r, what) ==
   IF r.exc # "" THEN {what \o ".raised"}
   ELSE IF ~SideOK(r) THEN {what \o ".other_qubits"}
   ELSE IF ~WellFormedPsi(r.psi, n + r.anc) THEN {what \o ".state"}
   ELSE IF r.anc = 0 THEN (IF StabAll(t, r.psi) THEN {} ELSE {what \o ".state"})
   ELSE (IF StabAll([i \in 1..Len(t) |-> PadRight(t[i], 1)], r.psi) THEN {} ELSE {what \o ".state"})
        \cup (IF AncClassical(r.psi) THEN {} ELSE {what \o ".ancilla"})

Outc(r) == IF r.out \in Outcomes(tab, FromRow(r.row)) THEN r.out
           ELSE CHOOSE o \in {0, 1} : o \in Outcomes(tab, FromRow(r.row))

Init == /\ l = 1 /\ n = 0 /\ k = 0 /\ gens = <<>> /\ lx = <<>> /\ lz = <<>> /\ tab = <<>> /\ err = 0

Go(bad, t) == /\ Report(l, R.case, R.op, bad)
              /\ err' = err + Cardinality(bad)
              /\ tab' = t /\ l' = l + 1

Build == /\ R.op = "build"
         /\ LET bad == BuildBad(R) IN
            /\ Go(bad, <<>>)
            /\ n' = R.n /\ k' = R.k /\ gens' = IF R.exc # "" \/ ~NfShapeOK(R) THEN <<>> ELSE Rows(R.nf)
            /\ lx' = IF "logical.shape" \in bad \/ R.exc # "" THEN <<>> ELSE Rows(R.lx)
            /\ lz' = IF "logical.shape" \in bad \/ R.exc # "" THEN <<>> ELSE Rows(R.lz)

Same == UNCHANGED <<n, k, gens, lx, lz>>

Encode == /\ R.op = "encode"
          /\ LET t == EncTab(gens, lz, R.x) IN Go(StateBad(t, R, "encode"), t)
          /\ Same
Pauli == /\ R.op = "pauli"
         /\ LET t == PauliTab(tab, FromRow(R.row)) IN Go(StateBad(t, R, "pauli"), t)
         /\ Same
Stab == /\ R.op = "stab"
        /\ LET t == PauliTab(tab, FromRow(R.row)) IN Go(StateBad(t, R, "stabilizer_circuit"), t)
        /\ Same
Logical == /\ R.op = "logical"
           /\ LET t == PauliTab(tab, LogicalOp(lx, lz, R.which, R.idx))
              IN Go(StateBad(t, R, "logical_circuit"), t)
           /\ Same
Measure == /\ R.op = "measure"
           /\ LET p == FromRow(R.row)
                  o == Outc(R)
                  t == MeasTab(tab, p, o)
                  bad == IF R.exc # "" THEN {"measure.raised"}
                         ELSE (IF R.out \in Outcomes(tab, p) THEN {} ELSE {"measure.outcome"})
                              \cup StateBad(t, R, "measure")
              IN Go(bad, t)
           /\ Same
(* the engine holds neither n nor n + 1 qubits *)
Refuse == /\ R.op = "refuse"
          /\ Go((IF R.exc \in {"TypeError", "ValueError", "AssertionError"} THEN {} ELSE {"measure.register_accepted"})
                \cup StateBad(tab, [R EXCEPT !.exc = ""], "measure"), tab)
          /\ Same
Decode == /\ R.op = "decode"
          /\ LET d == DecodedTab(tab, gens, lx, lz)
                 c == [i \in 1..Len(tab) |-> LogicalContent(tab[i], gens, lx, lz)]
                 bad == IF ~InCodeSpace(tab, gens) THEN {}     \* not a codeword: no obligation
                        ELSE IF R.exc # "" THEN {"decode.raised"}
                        ELSE (IF SideOK(R) THEN {} ELSE {"decode.other_qubits"})
                             \cup (IF R.reglen = (IF R.dealloc = 1 THEN k ELSE n + k) THEN {} ELSE {"decode.register"})
                             \cup (IF R.dealloc = 1
                                   THEN IF WellFormedPsi(R.psi, k) /\ StabAll(c, R.psi) THEN {} ELSE {"decode.state"}
                                   ELSE IF WellFormedPsi(R.psi, n + k) /\ StabAll(d, R.psi) THEN {} ELSE {"decode.state"})
             IN Go(bad, d)
          /\ Same

Crash == R.op = "crash" /\ Go({"observe.raised"}, tab) /\ Same

Next == l <= Len(Trace) /\ (Crash \/ Build \/ Encode \/ Pauli \/ Stab \/ Logical \/ Measure \/ Refuse \/ Decode)
vars == <<l, n, k, gens, lx, lz, tab, err>>
Spec == Init /\ [][Next]_vars
=============================================================================
