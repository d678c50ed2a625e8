---------------------------- MODULE CodeAlgTrace ----------------------------
(***************************************************************************)
(* The algebraic (circuit free) half of the public interface of            *)
(* StabilizerCode: which inputs are codes, the code space projector,       *)
(* conversions, recovery operators, normalizer, concatenation.  Every line *)
(* of the trace is one call of the real code: its inputs, its exception    *)
(* and its projected result; each action is the postcondition of the call. *)
(***************************************************************************)
EXTENDS CodeDefs, Json, IOUtils, TraceVerdict

VARIABLES l, err

R == Trace[l]
Rows(rs) == [i \in 1..Len(rs) |-> FromRow(rs[i])]
Shape(rs, m, w) == Len(rs) = m /\ \A i \in 1..Len(rs) : Len(rs[i]) = w
BitRows(rs, w) == \A i \in 1..Len(rs) : Len(rs[i]) = w /\ IsBits(rs[i])
If(c, name) == IF c THEN {} ELSE {name}

(* ---- construct: exactly the commuting, well shaped sets are codes -------- *)
ConstructBad ==
   LET shape == Shape(R.rows, R.n - R.k, 2 * R.n)
   IN IF R.badchar = 1 THEN If(R.exc # "", "construct.bad_character_accepted")
      ELSE IF ~shape THEN If(R.exc = "AssertionError", "construct.bad_shape_accepted")
      ELSE IF ~MutuallyCommute(Rows(R.rows))
           THEN If(R.exc = "AssertionError", "construct.anticommuting_accepted")
      ELSE IF ~Independent(Rows(R.rows)) THEN {}
      ELSE If(R.exc = "", "construct.valid_rejected")
           \cup (IF R.exc # "" THEN {} ELSE
                   If(R.stab = R.rows, "construct.generators")
                   \cup If(R.strs = [i \in 1..Len(R.rows) |->
                              [j \in 1..R.n |-> PauliChar(R.rows[i][j], R.rows[i][R.n + j])]],
                           "construct.pauli_strings")
                   \cup If(Len(R.dims) = 5 /\ SubSeq(R.dims, 1, 4) = <<R.n, R.k, R.n - R.k, R.k>>, "construct.parameters")
                   \cup If(R.iter = 1, "construct.iteration"))

(* ---- matrices ------------------------------------------------------------- *)
(* entry (b, c) of (-1)^s X^x Z^z *)
Entry(p, b, c) == IF b = c ^^ p.x THEN (IF (p.s + Par(p.z & c)) % 2 = 0 THEN 1 ELSE -1) ELSE 0
SquareM(m, d) == Len(m) = d /\ \A i \in 1..Len(m) : Len(m[i]) = d
IsPauliM(m, p, nn) == /\ SquareM(m, 2^nn)
                      /\ \A b, c \in 0..(2^nn - 1) : m[b+1][c+1] = Entry(p, b, c)
(* the same for a matrix of Gaussian integers and a scalar <<re, im>> *)
IsPauliG(m, p, nn, sc) ==
   /\ SquareM(m, 2^nn)
   /\ \A b, c \in 0..(2^nn - 1) :
         LET e == Entry(p, b, c) IN m[b+1][c+1] = <<e * sc[1], e * sc[2]>>

(* the same, one <<column, value>> per row of a large matrix *)
IsPauliL(m, p, nn) == /\ Len(m) = 2^nn
                      /\ \A b \in 0..(2^nn - 1) : LET c == b ^^ p.x IN m[b+1] = <<c, Entry(p, b, c)>>

ConvertBad ==
   LET p == FromRow(R.row) IN
   IF R.exc # "" THEN {"convert.raised"}
   ELSE If(R.str = [j \in 1..R.n |-> PauliChar(R.row[j], R.row[R.n + j])], "convert.to_string")
        \cup If(R.back = R.row, "convert.from_string")
        \cup (IF R.nomat = 1 THEN {}                 \* too large for matrices
              ELSE IF R.nomat = 2
              THEN If(IsPauliL(R.mat, p, R.n), "convert.matrix") \cup If(IsPauliL(R.smat, p, R.n), "convert.sparse_matrix")
              ELSE If(IsPauliM(R.mat, p, R.n), "convert.matrix")
                   \cup If(R.smat = R.mat, "convert.sparse_matrix"))

OneBad == IF R.exc # "" THEN {"convert.raised"}
          ELSE If(IsPauliM(R.mat, FromRow(R.row), 1), "convert.matrix")
               \cup If(R.smat = R.mat, "convert.sparse_matrix")
               \cup If(R.issparse = 1, "convert.format")
RefuseBad == If(R.exc # "", "convert.bad_" \o R.what \o "_accepted")

InnerBad == IF R.exc # "" THEN {"inner.raised"}
            ELSE If(R.out = SympProd(FromRow(R.row), FromRow(R.row2)), "inner.value")

(* ---- encoder isometry ----------------------------------------------------- *)
(* R.gram = V^dag V,  R.proj = 2^(n-k) V V^dag *)
EncodeBad ==
   LET g == Rows(R.gens) d == 2^R.n m == R.proj IN
   IF R.exc # "" THEN {"encoder.raised"}
   ELSE IF R.shape # <<d, 2^R.k>> THEN {"encoder.shape"}
   ELSE IF ~SquareM(m, d) \/ ~SquareM(R.gram, 2^R.k) THEN {"encoder.shape"}
   ELSE If(\A i, j \in 1..(2^R.k) : R.gram[i][j] = (IF i = j THEN 1 ELSE 0), "encoder.isometry")
        \cup If(\A i \in 1..Len(g) : \A b, c \in 0..(d - 1) :
                   (* (g M)(b,c) = M(b,c) *)
                   LET a == b ^^ g[i].x
                       v == m[a + 1][c + 1]
                   IN m[b+1][c+1] = (IF (g[i].s + Par(g[i].z & a)) % 2 = 0 THEN v ELSE -v),
                "encoder.codespace")
        \cup If(R.sparse = R.issparse, "encoder.format")

(* ---- recovery ------------------------------------------------------------- *)
RecoveryBad ==
   LET g == Rows(R.gens) e == Rows(R.errs) IN
   IF R.exc # "" THEN {"recovery.raised"}
   ELSE IF Len(R.mats) # Len(e) THEN {"recovery.count"}
   ELSE If(\A i \in 1..Len(e) :
             IF CommutesWithAll(e[i], g) THEN IsPauliG(R.mats[i], e[i], R.n, R.scale[i])
             ELSE \E j \in 1..Len(g) : ~Commute(g[j], e[i])
                                        /\ IsPauliG(R.mats[i], Mul(g[j], e[i]), R.n, R.scale[i]),
           "recovery.operator")

(* ---- normalizer minus stabilizer ------------------------------------------- *)
PairOf(p) == <<p.x, p.z>>
NormalizerBad ==
   LET g == Rows(R.gens) e == Echelon(g) M == 0..(2^R.n - 1) IN
   IF R.exc # "" THEN {"normalizer.raised"}
   ELSE IF ~BitRows(R.rows, 2 * R.n) THEN {"normalizer.shape"}
   ELSE LET got == {PairOf(FromRow(R.rows[i])) : i \in 1..Len(R.rows)}
            isOne(q) == CommutesWithAll(P(q[1], q[2]), g) /\ ~InSpanE(P(q[1], q[2]), e)
            ss == {R.strs[i] : i \in 1..Len(R.strs)}
            (* the operators that commute with n-k independent generators are 2^(n+k) in number *)
            count == 2^(2 * R.n - Len(g)) - 2^Len(g)
        IN If(\A q \in got : isOne(q), "normalizer.contains_detectable_or_trivial")
           \cup If(IF R.n <= 4 THEN {q \in M \X M : isOne(q)} \subseteq got
                   ELSE Cardinality(got) >= count, "normalizer.missing")
           \cup If(Len(R.rows) = Cardinality(got), "normalizer.duplicates")
           \cup If(R.exc2 = "" /\ Len(R.strs) = count
                   /\ ss = {[j \in 1..R.n |-> PauliChar(Bit(q[1], R.n, j-1), Bit(q[2], R.n, j-1))] : q \in got},
                   "undetectable.errors")

GensetBad == IF R.exc # "" THEN {"genset.raised"}
             ELSE IF ~BitRows(R.rows, 2 * R.n) THEN {"genset.shape"}
             ELSE If(Rank(Rows(R.rows)) = 2 * R.n /\ Len(R.rows) = 2 * R.n, "genset.generates")

(* ---- concatenation ---------------------------------------------------------- *)
(* qubit j of the outer code is logical qubit j % l of block j \div l; block b   *)
(* owns m consecutive qubits                                                     *)
Embed(p, blk, nb, m) == [p EXCEPT !.x = p.x * 2^((nb - 1 - blk) * m), !.z = p.z * 2^((nb - 1 - blk) * m)]
LogImg(lx, lz, xb, zb, i) == IF xb = 1 /\ zb = 1 THEN Add(lx[i], lz[i])
                             ELSE IF xb = 1 THEN lx[i] ELSE IF zb = 1 THEN lz[i] ELSE Id
RECURSIVE Image(_, _, _, _, _, _, _)
Image(row, nn, m, ll, lx, lz, j) ==
   IF j = nn THEN Id
   ELSE Add(Embed(LogImg(lx, lz, row[j+1], row[nn + j + 1], (j % ll) + 1), j \div ll, nn \div ll, m),
            Image(row, nn, m, ll, lx, lz, j + 1))
ConcatBad ==
   LET nn == R.n1 m == R.n2 ll == R.k2 nb == nn \div ll
       g2 == Rows(R.gens2) lx == Rows(R.lx2) lz == Rows(R.lz2)
   IN IF (nn % ll) # 0 THEN If(R.exc = "ValueError", "concat.indivisible_accepted")
      ELSE IF ~ValidLogicals(g2, lx, lz, ll)
           THEN (IF R.strict = 1 THEN If(R.exc = "", "concat.relabelled_inner") ELSE {})
      ELSE IF R.exc # "" THEN {"concat.raised"}
      ELSE IF R.n # nb * m \/ R.k # R.k1 THEN {"concat.parameters"}
      ELSE IF ~Shape(R.rows, R.n - R.k, 2 * R.n) \/ ~BitRows(R.rows, 2 * R.n) THEN {"concat.shape"}
      ELSE LET blocks == [i \in 1..(nb * Len(g2)) |->
                            Embed(g2[((i - 1) % Len(g2)) + 1], (i - 1) \div Len(g2), nb, m)]
               outer == [i \in 1..Len(R.gens1) |-> Image(R.gens1[i], nn, m, ll, lx, lz, 0)]
               got == Rows(R.rows)
           IN If(\A i \in 1..Len(blocks) : InSpan(blocks[i], got), "concat.inner_generators")
              \cup If(\A i \in 1..Len(outer) : InSpan(outer[i], got), "concat.outer_generators")
              \cup If(SameSpan(got, blocks \o outer), "concat.span")
              \cup If(MutuallyCommute(got), "concat.commute")

Init == l = 1 /\ err = 0
Act(op, bad) == /\ R.op = op
                /\ LET b == bad IN Report(l, R.case, R.op, b) /\ err' = err + Cardinality(b)
                /\ l' = l + 1
Next == /\ l <= Len(Trace)
        /\ \/ Act("crash", {"observe.raised"})
           \/ Act("construct", ConstructBad)
           \/ Act("convert", ConvertBad)
           \/ Act("inner", InnerBad)
           \/ Act("one", OneBad)
           \/ Act("refuse", RefuseBad)
           \/ Act("encoder", EncodeBad)
           \/ Act("recovery", RecoveryBad)
           \/ Act("normalizer", NormalizerBad)
           \/ Act("genset", GensetBad)
           \/ Act("concat", ConcatBad)
vars == <<l, err>>
Spec == Init /\ [][Next]_vars
=============================================================================
