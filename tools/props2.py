INFO_NOTE = ("Spectra of outputs and complementary outputs are integer witnesses that TLC verifies exactly (power sums); "
             "logarithms come from a fixed point table in the specification (1e-5 bit). ")

p("C22", "Entropy and coherent information have their defined values",
  "The entropy of a matrix, or of a list of blocks, is minus the sum of s*log2(s) over its eigenvalues above the "
  "cut-off. The coherent information of a state is the entropy of the output minus that of the complementary output, "
  "divided by n when regularized: it is zero for pure states, the entropy of the state for unitary channels, additive "
  "over product states, the same for all Kraus representations of one map and dense or sparse form, and never "
  "increased by a further channel.",
  ["inputs", "configurations"], "every channel, state, number of uses, block structure and Kraus representation",
  "The tests compare a few closed formulas of dephasing and erasure channels at diagonal states.",
  [CHA], [("entropies", "AnalyticQChan.entropy"), ("coherent information", "AnalyticQChan.coherent_information"),
          ("exchange", "AnalyticQChan.entropy_exchange")],
  INFO_NOTE + "Channels given by Choi matrices raise an error: known finding.")

p("C23", "Fidelity and average entanglement fidelity have their defined values",
  "The fidelity between a state and its channel output is Tr sqrt(sqrt(rho) N(rho) sqrt(rho)): for a pure state its "
  "square is the overlap with the output, it is multiplicative over product states and lies between zero and one. The "
  "average entanglement fidelity of an ensemble is the average of sum_k |Tr(A_k rho)|^2.",
  ["inputs", "configurations"], "every channel with equal input and output, pure states of every dimension, mixed "
  "qubit states, every number of uses, every ensemble",
  "The tests check two channels with one-parameter formulas.",
  [CHA, KR, CHO], [("fidelity", "AnalyticQChan.fidelity_two_states"),
                   ("ensemble fidelity", "average_entanglement_fidelity")],
  CHAN_NOTE + "Ensemble fidelity is wrong for off-diagonal Kraus operators (known finding); it is decided for the "
  "diagonal ones and for Choi matrices.")

p("C24", "Optimisation reports a valid state, its true value, and no worse than samples",
  "An optimisation of coherent information or minimum fidelity returns a valid density matrix of the requested rank "
  "for n uses, the objective's value at exactly that state, the method and settings used, and a value at least as good "
  "as each supplied starting point; the value never passes the known optimum of the channel. The caller's samples are left as they were. Unknown optimizers, parameterizations and missing starting points are refused.",
  ["inputs", "configurations", "histories"], "every channel, objective, method, parameterization, rank, number of uses, "
  "supplied samples, Lipschitz sampling and pool, after any earlier use of the object",
  "The tests run a few optimisations and look at the value only to two decimals for known channels.",
  [CHA, OPT, COH], [("optimisers", "AnalyticQChan.optimize_coherent, optimize_fidelity, _optimize.py"),
                    ("objective and its sign", "_minimize_trust_constr, _minimize_slsqp, "
                     "_differential_evolution")],
  "Recorded results are judged by TLC (state validity, value recomputed by a fresh object, samples, capacities of "
  "channels where the optimum is known). That the value is the global optimum is not claimed.")

PARAM_NOTE = ("Integer vectors stand for all real ones (the maps are polynomial up to normalisation); results are "
              "compared on the integer lattice by TLC. ")

p("C25", "Parameterizations map every vector to a density matrix and back",
  "Every nonzero real vector of the right length is mapped to a density matrix of the requested size and rank, the one "
  "its documented factor or basis defines; every density matrix within the rank is the image of the vector obtained "
  "from it; a vector of the wrong length is refused; bounds, the number of variables and random vectors fit together.",
  ["inputs", "configurations"], "every parameterization, matrix size, rank, vector, density matrix and bound",
  "The tests convert a few random full-rank matrices; rank-deficient states and other sizes are not tried.",
  [PAR], [("vectors and states", "OverParam, CholeskyParam, StandardBasis: rho_from_vec, vec_from_rho"),
          ("bounds and random vectors", "bounds, numb_variables, random_vectors")], PARAM_NOTE)

p("C30", "The Lipschitz sampler keeps exactly the points that could be optimal",
  "The sampler starts from one random state and accepts a further random state exactly when the best value so far does "
  "not exceed value plus distance for every accepted point; it returns the accepted vectors with their objective "
  "values, stops at the requested number or after the allowed tries, and reports which.",
  ["inputs", "histories"], "every sequence of draws, objective, requested number, and limit on tries",
  "The tests only look at the number of returned samples.",
  [COH], [("sampler", "initial_guesses_lipschitz, _coherent.py / _optimize.py")],
  "TLC explores Sampler exhaustively on a bounded line; scripted draws of the real sampler are decided by TLC.")

EFF_NOTE = ("TLC explores EffLife (every decoding table of every code and channel in its bounds); recorded results are "
            "compared by TLC with the exact integer weights of syndromes and error classes. ")

p("C26", "The effective channel of a code has the right coherent information",
  "For a stabilizer code and a Pauli channel the optimisation over the effective channel returns a valid logical "
  "state and the coherent information of channel after encoder at that state; the value is at most k, at least that "
  "of every supplied sample and of the maximally mixed state, k + H(syndromes) - H(error classes), and equals it "
  "where that is the maximum; options are honoured and, like all arguments, left unchanged; bad arguments raise TypeError.",
  ["inputs", "configurations"], "every code with n a multiple of k, every Pauli channel on k qubits with any phases, "
  "dense or sparse, and all options",
  "The tests look at the sign of one value for two repetition codes near one threshold.",
  [FIND, CODES, CHA], [("effective channel", "effective_channel_with_stabilizers"),
                       ("errors and encoder", "kraus_operators_correcting_errors, encode_krauss_operators")],
  EFF_NOTE + "The fidelity objective raises an error: known finding.")

DEV_NOTE = ("TLC explores DeviceLife (exact Eisenstein integer amplitudes); every recorded gate sequence of the real "
            "code is executed by the trace specification. ")

p("C27", "Fidelity estimation runs random circuit, channel and exact inverse per trial",
  "Each of the requested trials starts from all zeros, applies a random two-design circuit of 2l+1 layers with l the "
  "least integer reaching the precision, then the channel once, then the exact inverse of that circuit, and measures "
  "all qubits; all phases are drawn afresh from the documented sets; the estimate is the fraction of all-zero "
  "outcomes, hence exactly one for an identity channel. Reset, random circuit and inverse also do so when called alone.",
  ["inputs", "histories", "configurations"], "every number of qubits, precision, number of trials, channel, reset mode "
  "and sequence of estimations on one device",
  "The tests check the identity and loose averages on four qubits; the layer count and the phases are never looked at.",
  [DEV, FIND], [("circuit and inverse", "approximate_unitary_two_design, inverse_of_unitary_two_design"),
                ("trials", "estimate_average_fidelity, set_register_to_zero")],
  DEV_NOTE + "Randomness is judged by occurrence, balance (6 sigma) and non-repetition.")

p("C28", "Encoders and decoders on a device run in order and are optimised correctly",
  "Estimating a code's fidelity runs encoder, channel and decoder in this order inside each trial. Optimising encoder "
  "and decoder gives the first parameters to the encoder and the rest to the decoder, within the bounds and fixed "
  "during an evaluation; it maximises: the result is the fidelity measured for the returned parameters and no "
  "evaluation was better. Unknown optimizers and bounds of the wrong length are refused.",
  ["inputs", "histories"], "every encoder, channel, decoder, number of parameters, bounds and measurement outcomes",
  "No test runs the optimisation or checks the order of the stages.",
  [FIND], [("composition", "estimate_average_fidelity_error_code"),
           ("optimisation", "optimize_encoder_decoder_average_fidelity")],
  DEV_NOTE + "The optimisation runs against scripted outcomes with a known objective.")

p("C29", "The optimal decoder of a code reaches the maximum likelihood fidelity",
  "The decoder found by semidefinite optimisation is a trace preserving, completely positive map from n to k qubits; "
  "the reported value is the average entanglement fidelity of encoder, channel and that decoder with the maximally "
  "mixed state, and for Pauli channels it equals the fidelity of maximum likelihood decoding: the sum over syndromes "
  "of the weight of the heaviest error class.",
  ["inputs", "configurations"], "every code, every Pauli channel, dense or sparse, and all solver options",
  "The tests only check the trace constraint on one small problem; others are not stable.",
  [AVG, CODES], [("objective and constraints", "_optimize_average_entang_fid, optimize_decoder_stabilizers")],
  EFF_NOTE + "Within solver tolerance; codes of 2 and 3 qubits (larger ones take the solver hours).")
