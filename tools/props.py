"""The property list: properties.jsonl and MANIFEST.json are written from here (python3 tools/props.py)."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CODES = "PyQCodes/codes.py"
KR, CHO, CHA, COH, PAR = ["PyQCodes/chan/%s.py" % x for x in ("_kraus", "_choi", "channel", "_coherent", "param")]
OPT, DEV, FIND, AVG = "PyQCodes/_optimize.py", "PyQCodes/device_adaptor.py", "PyQCodes/find_codes.py", \
    "PyQCodes/avgfid/avg_fidelity.py"
P = []


def p(pid, title, statement, over, text, why, files, mech, note, level="model_checking", technique=None, obs=(),
      state=()):
    P.append(dict(id=pid, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  note=note, level=level, obs=obs, state=state,
                  technique=technique or "TLA+ specification model checked with TLC; executions of the real code "
                                         "(TLC-generated and enumerated) validated as traces of it"))


CODE_NOTE = ("TLC explores CodeLife exhaustively within its bounds; every recorded execution of the real code on "
             "enumerated small codes and seeded random codes is decided by TLC against the trace specification. "
             "Trusts TLC, ProjectQ's simulator and the driver's projection to integers. ")
CHAN_NOTE = ("TLC explores ChanLife exhaustively within its bounds; recorded calls on exact integer channels are "
             "decided by TLC against ChanDefs (integer arithmetic, no tolerance beyond rounding to the lattice). "
             "Trusts TLC, numpy and the driver's projection. ")

p("C01", "Only consistent, commuting generator sets are accepted as a stabilizer code",
  "A stabilizer code can be created exactly when the generators are well formed Pauli operators on the declared "
  "number of qubits, there are n-k of them, and they commute pairwise. Everything else is refused with an error, "
  "and the verdict is the same whether the generators are given as strings, as lists of strings or as binary rows. "
  "An accepted code reports its generators, its numbers of qubits and generators, and iterates over its normal form.",
  ["inputs"], "every set of generators and every declared pair (n, k), in each accepted input form",
  "The tests construct about ten textbook codes and a handful of bad inputs; one anticommuting pair at a particular "
  "position or one bad letter is not among them.",
  [CODES], [("construction checks, commutation test", "StabilizerCode.__init__, _is_stabilizer_code"),
            ("string parsing", "StabilizerCode.pauli_str_to_binary_representation")],
  CODE_NOTE + "All generator pairs on 2 (thorough: 3) qubits plus random sets up to 7 qubits.")

p("C02", "The normal form describes the same code as the given generators",
  "The normal form of a stabilizer code has as many independent rows as the given generators, has the identity and "
  "zero blocks of the standard form, and generates the same set of operators as the given generators up to a "
  "relabelling of the qubits and up to signs.",
  ["inputs"], "every independent commuting generator set whose members have an even number of Ys",
  "The tests compare the normal form with stored matrices for five codes; Gaussian elimination errors show only for "
  "particular pivot patterns and column swaps.",
  [CODES], [("elimination of the first and second block", "_gaussian_elimination_first_block, "
             "_gaussian_elimination_second_block"), ("block split", "_matrix_blocks_standard_form")],
  CODE_NOTE + "Four named codes whose original labels or signs are lost are known findings.")

p("C03", "Logical operators form a logical Pauli basis of the code",
  "The logical X and Z operators of a code commute with every element of its stabilizer group, each logical X_i "
  "anticommutes with logical Z_i and commutes with all the others, the X_i commute among themselves, as do the Z_i, "
  "and none of them lies in the stabilizer group. Operators the user supplies are used as they are.",
  ["inputs"], "every independent commuting generator set (even numbers of Ys), with derived or supplied operators",
  "The tests check the relations on about eight codes; which block formulas are wrong depends on the rank pattern.",
  [CODES], [("standard-form construction of the logical operators", "StabilizerCode.logical_operators")],
  CODE_NOTE + "Three named codes where the operators are wrong for the given labels are known findings.")

p("C04", "The encoder matrix is an isometry onto the code space",
  "The encoding operator is an isometry from k qubits to n qubits whose range is exactly the joint +1 eigenspace of "
  "the generators, for the dense as for the sparse form.",
  ["inputs", "configurations"], "every independent commuting generator set, dense and sparse",
  "The tests check a few codes against a fixed list of vectors, not isometry and range together on arbitrary codes.",
  [CODES], [("eigenspace intersection", "StabilizerCode.encode_krauss_operators")],
  CODE_NOTE + "Codes up to 5 (6) qubits; generators with an odd number of Ys are a known finding.")

p("C05", "The encoding circuit prepares the requested codeword",
  "Running the encoding circuit on a fresh register with a logical bit string leaves the register in the code state "
  "fixed by that string: stabilized by every element of the code's group, and an eigenstate of each logical Z with "
  "the sign given by the corresponding bit, whatever the order in which the register lists its qubits, and without "
  "touching other qubits of the engine.",
  ["inputs", "histories"], "every code, every logical bit string, derived or supplied logical operators",
  "The tests encode a few strings in four codes; the gates emitted depend on the blocks of the normal form.",
  [CODES], [("circuit emitted from normal form and logical X", "StabilizerCode.encoding_circuit")], CODE_NOTE)

p("C06", "Syndromes report exactly the generators an error anticommutes with",
  "After encoding any logical state and applying any Pauli error, measuring a generator of the code reports -1 "
  "exactly when the error anticommutes with it, whatever the order of the measurements, and a repeated measurement "
  "gives the same answer without changing the encoded state. An engine with any other number of qubits than n or "
  "n + 1 is refused and left as it was.",
  ["inputs", "histories"], "every code, codeword, Pauli error and order of measurements",
  "The tests measure single errors on a few codes in one order.",
  [CODES], [("ancilla controlled Pauli measurement", "StabilizerCode.single_syndrome_measurement")], CODE_NOTE)

p("C07", "Measuring a Pauli operator is a projective measurement of that operator",
  "Measuring any Hermitian Pauli operator on a register in a stabilizer state gives the determined outcome when "
  "there is one, otherwise some outcome, projects the register on the corresponding eigenspace, and leaves no "
  "trace in the ancilla that later measurements reuse.",
  ["inputs", "histories"], "every sequence of encodings, Pauli errors and measurements",
  "The tests never follow one measurement by another of a non-commuting operator and look at the state.",
  [CODES], [("ancilla controlled Pauli measurement and reset", "StabilizerCode.single_syndrome_measurement")],
  CODE_NOTE + "Includes behaviours generated by TLC from CodeGen.")

p("C08", "Logical circuits act as the logical Pauli operators",
  "Applying the logical X, Y or Z of a logical qubit to an encoded state acts as that Pauli operator on that logical "
  "qubit and leaves the other logical qubits and the stabilizer group untouched.",
  ["inputs", "histories"], "every code, logical qubit, and sequence of logical operations after encoding",
  "The tests apply single logical operators to a few codes.",
  [CODES], [("gates from logical operator rows", "StabilizerCode.logical_circuit")], CODE_NOTE)

p("C09", "Decoding returns the logical state that was encoded and processed",
  "Decoding a register in the code space moves the logical state to the k decoded qubits and returns the code's "
  "register to the logical all-zero state, with or without ancillas added by the call and with or without releasing "
  "the code's qubits.",
  ["inputs", "histories", "configurations"], "every code, encoded state, sequence of logical operations and option",
  "The tests decode basis states for three codes with one option combination.",
  [CODES], [("decoding circuit and register handling", "StabilizerCode.decoding_circuit")], CODE_NOTE)

p("C10", "Stabilizer circuits apply exactly the given Pauli operator",
  "The circuit for a Pauli operator, given as a string or as a binary row, applies that operator to the register up "
  "to a global phase; in particular elements of the stabilizer group leave encoded states unchanged.",
  ["inputs", "histories"], "every Pauli operator in either form, on every reachable register state",
  "The tests apply the generators of three codes to one code state.",
  [CODES], [("gates from the binary row", "StabilizerCode.apply_stabilizer_circuit")], CODE_NOTE)

p("C11", "Normalizer and undetectable errors are computed exactly",
  "The undetectable errors of a code are exactly the Pauli operators that commute with every generator without being "
  "in the stabilizer group, each listed once, whether asked for as binary rows or as strings. The elementary "
  "operators they are enumerated from generate every Pauli operator on the code's qubits.",
  ["inputs"], "every code (exhaustive over all 4^n operators for each code tried)",
  "The tests look at the normalizer of two codes.",
  [CODES], [("enumeration of Pauli elements", "normalizer, undetectable_errors, generator_set_pauli_elements")],
  CODE_NOTE + "Codes of up to 4 (5) qubits, all operators.")

p("C12", "Concatenating two codes gives the concatenated code",
  "Concatenating an outer [n1,k1] code with an inner [n2,k2] code gives a valid code on n1*n2/k2 qubits with k1 "
  "logical qubits whose stabilizer group is generated by the inner generators on each block and by the outer "
  "generators rewritten in the logical operators of the inner code.",
  ["inputs"], "every pair of codes with compatible parameters",
  "The tests concatenate two or three pairs of textbook codes.",
  [CODES], [("blockwise construction", "StabilizerCode.concatenate_codes")],
  CODE_NOTE + "Inner codes whose derived logical operators fit their generators; the others are a known finding.")

p("C13", "Corrected error operators: each error is brought back to the code space",
  "For a list of scaled Pauli errors, the correction returns one operator per error in the same order: an error that "
  "commutes with every generator unchanged, any other multiplied from the left by a generator it anticommutes with, "
  "with the error's scalar weight. Dense and sparse errors give the same operators.",
  ["inputs", "configurations"], "every code, every list of scaled Pauli errors, dense and all sparse formats",
  "The tests use one code and single-qubit errors.",
  [CODES], [("generators that anticommute with the error", "StabilizerCode.kraus_operators_correcting_errors")],
  CODE_NOTE)

p("C14", "Pauli strings, binary rows and matrices denote the same operator",
  "Converting a Pauli operator between string, binary and matrix form, dense or sparse, and back gives the same "
  "operator, and the symplectic inner product of two binary rows is zero exactly when the operators commute. "
  "Unknown symbols and values other than bits are refused.",
  ["inputs"], "every Pauli operator on any number of qubits and every pair of them",
  "The tests convert about a dozen strings.",
  [CODES], [("conversions", "binary_rep_to_pauli_str, binary_rep_to_pauli_mat, pauli_str_to_binary_representation, "
             "index_to_qubit_pauli"), ("symplectic product", "StabilizerCode.inner_prod")],
  CODE_NOTE + "Exhaustive for 1-2 (3) qubits, random beyond.")

p("C15", "n uses of a channel do not depend on how often n was changed before",
  "Whatever sequence of numbers of uses a channel object has been asked for, evaluating it for n uses gives the n-fold "
  "tensor power of the channel: its Kraus operators, output, complementary output and dimensions.",
  ["inputs", "histories"], "every channel and every sequence of numbers of uses, dense and sparse, raising or "
  "lowering, skipping values, back to one",
  "The tests change n once or twice for one channel; cached operators, conjugates and exchange tables can go stale "
  "on particular transitions only.",
  [KR, CHA], [("incremental cache of the n-fold operators", "Kraus.update_kraus_operators, _initialize_kraus_ops"),
              ("lazy update", "AnalyticQChan.channel, entropy_exchange")], CHAN_NOTE,
  state=[("current_n", "number of uses the cache stands for", KR), ("nth_kraus_ops", "cached operators", KR)])

p("C16", "Channel evaluation is the Kraus sum, and the adjoint is its dual",
  "Applying a channel to a matrix gives the sum of A rho A^dagger over its Kraus operators and the adjoint gives the "
  "sum of A^dagger sigma A, dense or sparse, for any number of uses; an array of matrices is mapped entry by entry.",
  ["inputs", "configurations"], "every channel (also between different dimensions and numbers of particles), matrix, "
  "number of uses and representation",
  "The tests use Hermitian diagonal-like states and four channels; complex phases, adjoints and batches are not "
  "crossed.",
  [KR, CHA], [("channel and adjoint", "DenseKraus.channel, SparseKraus.channel, AnalyticQChan.channel")], CHAN_NOTE)

p("C17", "The complementary channel is the exchange matrix, block by block",
  "The complementary channel of a state is the matrix Tr(A_i rho A_j^dagger), delivered as its diagonal blocks when "
  "mutually orthogonal groups of Kraus operators are declared, and its adjoint is the dual map; dense and sparse "
  "representations agree for any number of uses.",
  ["inputs", "configurations"], "every channel, grouping of its Kraus operators, matrix and number of uses",
  "The tests use the erasure and dephrasure channels with real states, where a transposition or a block boundary "
  "error is invisible.",
  [KR, CHA], [("exchange table and blocks", "_kraus_operators_exchange, entropy_exchange")], CHAN_NOTE)

p("C18", "Serial concatenation is composition of channels",
  "Adding two channels gives the channel that applies the second and then the first, with the second's input and the "
  "first's output particles and dimensions; channels that do not fit are refused and the operands stay unchanged. "
  "Concatenating two sets of operators directly gives their products in the same order.",
  ["inputs", "histories"], "every pair and chain of channels, dense, sparse and mixed, and further use of the result",
  "The tests compose qubit channels of equal shape.",
  [KR, CHA], [("serial concatenation", "__add__, serial_concatenate")], CHAN_NOTE)

p("C19", "Parallel concatenation is the tensor product of channels",
  "Multiplying two channels gives the channel that applies the first to the left and the second to the right factor, "
  "with the product dimensions, and the result can be used for several uses and concatenated again. Concatenating two "
  "sets of operators directly gives their Kronecker products in the same order.",
  ["inputs", "histories"], "every pair and chain of channels, dense and sparse, and further use of the result",
  "The tests multiply two qubit channels.",
  [KR, CHA], [("parallel concatenation", "__mul__, parallel_concatenate")], CHAN_NOTE)

p("C20", "Only trace preserving (for Choi matrices also positive) maps become channels",
  "A channel object is created exactly when the operators have the declared shape and describe a trace preserving "
  "map, and, given as a Choi matrix, a completely positive one; the trace preservation test of Kraus operators gives "
  "the true answer.",
  ["inputs"], "every operator list or Choi matrix with every declared shape, dense, sparse and Choi",
  "The tests reject a couple of matrices; a missing off-diagonal or one wrong operator is not tried.",
  [KR, CHO, CHA], [("shape and trace checks", "Kraus.__init__, is_trace_perserving, ChoiQutip.__init__")], CHAN_NOTE)

p("C21", "A channel given by its Choi matrix behaves as given by Kraus operators",
  "A channel constructed from its Choi matrix maps every matrix to the same output as the Kraus representation, its "
  "adjoint agrees, the Kraus operators obtained from it describe the same map, its complementary output is right, the subsystem named for the trace condition is its output, several uses are refused rather "
  "than answered wrongly.",
  ["inputs", "configurations"], "every channel, including different numbers and dimensions of input and output "
  "particles, and complex matrices",
  "The tests use qubit to qubit or erasure channels with few states.",
  [CHO, CHA], [("partial trace with transposed input", "ChoiQutip.channel"), ("spectral decomposition",
               "ChoiQutip.kraus_operators")], CHAN_NOTE)

NOT_APPLICABLE = []
exec(open(os.path.join(V, "tools", "props2.py")).read()) if os.path.exists(os.path.join(V, "tools", "props2.py")) \
    else None


def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for q in P + [n for n, _ in NOT_APPLICABLE]:
            assert len(q["title"]) <= 80, q["id"]
            f.write(json.dumps({
                "id": q["id"], "title": q["title"], "statement": q["statement"],
                "quantifier": {"over": q["over"], "text": q["text"]}, "why_tests_cant": q["why"],
                "anchors": {"files": q["files"], "state": [dict(zip(("name", "meaning", "where"), s))
                                                          for s in q["state"]],
                            "mechanism": [dict(zip(("name", "where"), m)) for m in q["mech"]],
                            "observe_at": list(q["obs"]) or ["public API"], "hook_needed": None}}) + "\n")
    man = {"version": 1, "setup_cmd": "python3 tools/setup.py",
           "checks": [{"property": q["id"], "quick_cmd": "python3 check.py %s" % q["id"],
                       "thorough_cmd": "VERIF_TIER=thorough python3 check.py %s" % q["id"],
                       "technique": q["technique"], "level": q["level"], "level_note": q["note"].strip()} for q in P],
           "not_applicable": [{"property": n["id"], "reason": r} for n, r in NOT_APPLICABLE],
           "notes": "No hooks: only the public API of /repo is observed. See DESIGN.md."}
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
