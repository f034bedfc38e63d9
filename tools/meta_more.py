FT = S + "ft_stateprep/"
prop("P12", "LightsOut decoding is minimum weight; its simulation reports the decoder's rates",
     "For every hexagonal and square-octagon color code and every syndrome the MaxSAT decoder returns a set of qubits with exactly that syndrome and of minimum size, and likewise for arbitrary light/switch problems; unsolvable patterns yield no solution. Repeated use of one instance gives the same results as fresh ones and changes no input. The simulation of the decoder runs exactly the requested number of samples, counts a logical error exactly when the correction differs from the error by a logical operator, and writes these numbers to a valid result file.",
     ["inputs", "histories"], "all syndromes, light patterns and sequences of decodings, all error rates",
     "Tests decode three fixed patterns and compare whole solutions or only that a solution comes out.",
     [S + "cc_decoder/decoder.py", S + "codes/color_code.py"], [("LightsOut", S + "cc_decoder/decoder.py"), ("simulate_error_rate, run", S + "cc_decoder/decoder.py")], ["LightsOut.solve", "simulate_error_rate", "run"],
     "Minimum weight is exact (whole kernel enumerated) for color codes up to distance 7 and random problems; rates are compared with the exact logical error rate of minimum-weight decoding for distance 3.")
prop("P13", "State preparation circuits prepare the logical state; optimal ones are optimal",
     "For every CSS code with checks of both types, the heuristic, gate-optimal and depth-optimal synthesis methods return circuits of Hadamards and CNOTs that prepare exactly the state |0..0>_L (or |+..+>_L): the state is stabilized with sign + by all checks and by all logical Z (X) operators, with the qubits in the code's order. The optimal methods return a circuit with the minimum number of CNOTs (the minimum CNOT depth) whenever their limits allow one and nothing otherwise, and codes without checks of one type are rejected.",
     ["inputs", "configurations"], "all codes, both states, all limits and greedy modes",
     "Tests prepare the state of four or five codes.", [FT + "state_prep.py"],
     [("heuristic_prep_circuit, gate_optimal_prep_circuit, depth_optimal_prep_circuit", FT + "state_prep.py")], ["StatePrepCircuit.circ"],
     "Stabilizer simulation of every circuit; optimality against a breadth-first search over all subspaces for small instances (n times optimum at most 16).")
prop("P14", "Fault sets contain exactly the dangerous propagated errors",
     "The X and Z fault sets of a state preparation circuit for k faults contain, up to stabilizers of the prepared state and each class once, exactly those products of k propagated single faults (a single-qubit error or an error of one CNOT spreading through the rest of the circuit) whose minimal weight exceeds what k errors may cause (k, or more when the code has a larger distance for that type), and no others. Additional faults are combined the same way. The result does not depend on the order in which fault sets are computed or asked for, and set_error_detection changes the number of errors considered.",
     ["programs", "histories"], "all CNOT circuits, all distances, all call histories",
     "Tests count fault sets indirectly through the verification of five circuits.", [FT + "state_prep.py"],
     [("StatePrepCircuit.compute_fault_sets, combine_faults", FT + "state_prep.py")], ["StatePrepCircuit.compute_fault_set / compute_fault_sets / combine_faults"],
     "Independent Pauli-frame propagation and exhaustive coset minimisation for circuits with up to 10 qubits.")
prop("P15", "Flagged stabilizer measurements measure the stabilizer and flag dangerous hooks",
     "measure_flagged appends a circuit that measures the given X or Z stabilizer: its outcome bit is the eigenvalue, the measured state and everything entangled with it are otherwise unchanged and all flags read 0 without faults. It tolerates t faults: any s <= t faults inside the measurement that raise no flag leave an error of weight at most s on the measured qubits, up to the measured stabilizer. Every weight is supported for t = 1 and t = 2, and other t are refused.",
     ["inputs", "fault_sequences"], "all weights, both types, both t, all single faults and pairs of faults",
     "Tests measure fixed weights 4 to 8 or so and count gates.", [FT + "state_prep.py"], [("measure_flagged", FT + "state_prep.py")], ["measure_flagged"],
     "Function on random stabilizer states entangled with references; exhaustive single faults for weights up to 12, pairs of faults for t = 2.")
prop("P16", "Verification stabilizers detect every dangerous error; optimal ones are optimal",
     "The verification stabilizers of a preparation circuit are, per number of errors, stabilizers of the prepared state such that every error in the corresponding fault set (including combinations with additional faults) anticommutes with at least one of them; nothing is measured where the fault set is empty. The optimal method uses the minimum total number of CNOTs and, for it, the minimum number of ancillas within the allowed number, and returns nothing only if no such set exists; a verification circuit for one type of errors measures exactly such a set, one bit each, with no further CNOTs.",
     ["programs", "configurations"], "all preparation circuits, both error types, all additional faults and limits",
     "Tests fix the number of stabilizers for six circuits.", [FT + "state_prep.py"],
     [("gate_optimal_verification_stabilizers, heuristic_verification_stabilizers, verification_stabilizers", FT + "state_prep.py")],
     ["gate_optimal_verification_stabilizers", "heuristic_verification_stabilizers", "gate_optimal_verification_circuit", "heuristic_verification_circuit"],
     "Fault sets are recomputed independently; the optimum is an exact dynamic programme over the stabilizer group for up to 14 error classes.")
prop("P17", "Verified preparation circuits are fault tolerant",
     "The verified preparation circuit built by the naive, heuristic or optimal method never rejects and prepares the logical state when no fault occurs. If s faults (any Pauli error after a gate, a wrong preparation or a flipped measurement outcome) occur, s at most the number of errors the code's distance for the checked types allows, and no verification or flag bit reports 1, then the remaining error on the code's qubits is, up to stabilizers of the state, of weight at most s for each checked error type.",
     ["programs", "fault_sequences"], "all codes, preparation circuits, methods, options and all fault locations up to the tolerated number",
     "Tests count ancillas and CNOTs and sample the simulator at a few noise rates.", [FT + "state_prep.py"],
     [("heuristic_verification_circuit, gate_optimal_verification_circuit, naive_verification_circuit", FT + "state_prep.py")],
     ["heuristic_verification_circuit", "gate_optimal_verification_circuit", "naive_verification_circuit"],
     "All single faults and all or sampled pairs (by dynamic programming over equal symptoms) through a Pauli-frame simulation of the returned circuit.")
prop("P18", "The lookup-table decoder decodes every syndrome with a minimum-weight error",
     "For every CSS code and every syndrome of X or Z errors, decode_x / decode_z and their batch versions return an error with exactly that syndrome and of minimum weight among all such errors, whatever integer type the syndrome has and in whatever order the two tables are generated or used, including codes whose two check matrices are equal or span the same space. Decoding does not change its input.",
     ["inputs", "histories"], "all CSS codes, all syndromes, all orders of calls", "Tests decode with two codes.", [FT + "simulation.py"],
     [("LutDecoder", FT + "simulation.py")], ["LutDecoder.decode_x / decode_z / batch_decode_x / batch_decode_z"],
     "Whole syndrome space enumerated against a full search over all errors for codes up to 9 qubits.")
prop("P19", "The noisy state preparation simulator simulates its circuit and counts what it samples",
     "NoisyNDFTStatePrepSimulator simulates exactly the given preparation or verification circuit under circuit-level depolarizing noise: after every two-qubit gate one of 15 errors with probability p in total, preparation and measurement errors and idling errors with 2p/3, each on the right qubits at the right time, in parallel and serial scheduling, with all ancilla outcomes and data read out in the right basis. The logical error rate is the fraction of accepted shots on which lookup-table decoding fails, the acceptance rate and shot numbers are the true fractions and totals of what was sampled (also as plotted over the error rate), and no single error of an accepted run of a fault-tolerant circuit makes decoding fail.",
     ["programs", "random_draws"], "all preparation and verification circuits, noise rates, schedules and shot numbers",
     "Tests check that logical error rates decrease for three codes.", [FT + "simulation.py"],
     [("NoisyNDFTStatePrepSimulator", FT + "simulation.py")], ["NoisyNDFTStatePrepSimulator.logical_error_rate", "NoisyNDFTStatePrepSimulator.stim_circ"],
     "Error mechanisms compared one by one (symptom and probability) with an independently written noisy circuit; counts by exact bounds and statistical comparison.")
AI = S + "analog_information_decoding/"
prop("P20", "Noise channels, conversions and logical tests of analog decoding follow their definitions",
     "Biased error channels split a physical error rate into X, Y and Z probabilities in the given ratio (summing to the rate). Sampled data errors and syndrome errors, hard or analog, occur independently with exactly the requested probabilities, analog noise being Gaussian of a width that corresponds to the requested syndrome error rate (both conversions are inverse to each other) with residual errors kept; equal seeds give equal samples and results, and different seeds different ones. Analog syndromes are thresholded at zero, converted to log-likelihood ratios and virtual channel probabilities by Bayes' rule. A residual error is judged a logical error exactly if it flips a logical operator (or, where no logical operators are given, lies outside the span of the checks), and reading, converting and padding matrix files (alist) preserves the matrix.",
     ["inputs", "random_draws"], "all noise rates, biases, matrices, residual errors and seeds",
     "Tests check a handful of values and vector lengths.", [AI + "utils/simulation_utils.py"],
     [("simulation_utils", AI + "utils/simulation_utils.py")], ["error_channel_setup", "generate_err", "generate_syndr_err", "get_noisy_analog_syndrome", "get_sigma_from_syndr_er", "get_virtual_check_init_vals", "check_logical_err_h", "is_logical_err", "alistToNumpy"],
     "Formulas are compared with independent computations; sampling by frequency and correlation bounds of 6.5 standard deviations.")
prop("P21", "Stored simulation results are the rates and error bars of the pooled samples",
     "Logical and word error rates and their error bars are those of the counted successes; a simulation stops early only when its precision is reached. Results are written to a file that depends on all settings (different settings never overwrite each other) and contain the settings and numbers given, whatever numeric types they have. Merging result files or data sets of one code and setting yields the total numbers of runs and successes and the rates, error bars and iteration averages of the pooled samples, separately for X and Z, for every setting and in any order, from relative or absolute folders, without changing the sources.",
     ["inputs", "histories"], "all counts, settings, folders and groupings of results", "Tests create two parameter sets and compare a few numbers.",
     [AI + "utils/data_utils.py"], [("data_utils", AI + "utils/data_utils.py")], ["calculate_error_rates", "is_converged", "create_outpath", "merge_datasets", "merge_json_files", "_combine_xyz etc."],
     "Pooled statistics are recomputed independently from randomly split samples.")
prop("P22", "3D and 4D product codes are chain complexes with the homology of the product",
     "For all chain complexes the product constructions return matrices of the right shapes whose consecutive products vanish (so X and Z checks commute and meta checks annihilate the check matrices), with the number of logical qubits and the homology dimensions that the Kuenneth formula predicts; wrong inputs are refused. Logical operators are as many as the homology says, commute with the checks, are independent of them and pair up. Codes are stored so that reading the files (sparse or dense, ranks, parameters) gives back exactly the constructed code, together with the distances its script computes, each under its name.",
     ["inputs"], "all input matrices and chains", "Tests build one 3D and one 4D toric code.",
     [AI + "code_construction/code_constructor.py", AI + "code_construction/sparse_code_constructor.py"],
     [("HD", AI + "code_construction/code_constructor.py"), ("sparse HD", AI + "code_construction/sparse_code_constructor.py")], ["create_3d_hgp / create_4d_hgp", "compute_logicals", "create_code", "save_code"],
     "Random chains with independently computed ranks; the external distance estimation is not part of the repository.")
prop("P23", "Overlapping-window decoding over several rounds corrects what it guarantees",
     "The multi-round check matrix connects every data error of a round to its checks and every measurement error to the two differences it appears in, for any number of repetitions. Decoding a window of noisy syndromes and committing its first half returns a correction with exactly the decoded syndrome and hands the true remaining syndrome to the next window: any sequence of data and measurement errors over any number of rounds whose total weight stays below half the distance ends without a logical error once a perfect round closes it, for hard and analog syndromes, and a decoder used for many samples gives for each what a fresh one gives. The quasi-single-shot simulator simulates the memory experiment of its settings and reports its true number of failures; unsupported settings are refused.",
     ["histories", "fault_sequences", "random_draws"], "all codes, window sizes, numbers of rounds, fault histories and noise rates",
     "Tests decode fixed syndromes of one code and check lengths.", [AI + "utils/simulation_utils.py", AI + "simulators/quasi_single_shot_v2.py", AI + "simulators/memory_experiment_v2.py"],
     [("build_multiround_pcm, decode_multiround", AI + "simulators/memory_experiment_v2.py"), ("QssSimulator", AI + "simulators/quasi_single_shot_v2.py")],
     ["build_multiround_pcm", "decode_multiround", "QssSimulator.run"],
     "Guarantee checked for ring, surface and toric codes where the window is long enough; simulator compared statistically with an independent simulation.")
prop("P24", "Analog Tanner graph decoding and the single-shot simulators decode what they simulate",
     "The analog Tanner graph decoder decodes a soft syndrome with the matrix [H|1], its virtual nodes' probabilities following from every new syndrome (nothing remains from earlier calls), and returns corrections that agree with belief propagation and ordered statistics decoding on that graph. The analog Tanner graph simulator and the single-shot simulator (single- and two-stage, with or without meta checks, hard or analog) simulate exactly the rounds, the X, Y, Z bias and syndrome noise of their settings on each side, judge success by the residual error after the final perfect round, report the true counts and rates, store what they return, and stop early only at the requested precision; noiseless runs have no errors; contradictory settings are refused.",
     ["configurations", "random_draws", "histories"], "all codes, noise rates, biases, decoding modes and seeds",
     "Tests use three fixed settings of one code and compare few counts.", [AI + "simulators/analog_tannergraph_decoding.py", AI + "simulators/simulation.py"],
     [("AnalogTannergraphDecoder, AtdSimulator", AI + "simulators/analog_tannergraph_decoding.py"), ("SingleShotSimulator", AI + "simulators/simulation.py")],
     ["AnalogTannergraphDecoder.decode", "AtdSimulator.run", "SingleShotSimulator.run"],
     "Simulators compared statistically (6.5 standard deviations) with independently written simulations; single-stage soft-information decoding is a known finding and left out.")
prop("P25", "The command-line wrapper encodes, exports and simulates the given circuit under the given noise",
     "The noise model of the Qiskit wrapper applies, after every noisy gate and to each of its qubits, the requested channels (bit flip, phase flip, depolarization, amplitude damping) one after the other with the requested probability; unknown channels are refused. The wrapper reads any OpenQASM 2 circuit (adding measurements to circuits without any), encodes it with the requested code and frequency, and either writes exactly this circuit to the export file or simulates it with the given shots and seed and prints for every outcome of the circuit's register the share of shots with it (all syndrome registers summed out), in order and above the threshold; without noise, these are outcomes with the distribution of the original circuit for every code, and the same seed prints the same.",
     ["inputs", "configurations"], "all circuits, codes, options, noise channels and states",
     "Tests run the wrapper with a handful of options on one circuit and check little more than that it ends.",
     ["src/mqt/qecc/ecc_qiskit_wrapper.py"], [("create_noise_model, print_simulation_results, main", "src/mqt/qecc/ecc_qiskit_wrapper.py")],
     ["create_noise_model", "print_simulation_results", "main"],
     "Noise compared as density matrices with independently composed Kraus operators; circuits executed by an independent simulator.")
EV = S + "ft_stateprep/eval/"
prop("P26", "Stored state preparation circuits and the evaluation script do what their names and options say",
     "Every circuit stored for evaluation (OpenQASM and stim) is valid, prepares exactly the state and code its path names and, where its name says fault tolerant, detects every set of up to (d-1)/2 faults that would otherwise leave a heavier error, accepting always without errors. The evaluation script evaluates the code (with the distance), state, circuit, verification, error rate and gate scheduling its options ask for, in any order (the stored circuit where one is stored under the name for these options), and prints the logical error rate per logical qubit and the acceptance rate of exactly this circuit after at least the requested number of errors; unknown codes are refused.",
     ["inputs", "configurations", "fault_sequences"], "all stored circuits and all combinations of options",
     "No test runs the script or opens the stored circuits.",
     [EV + "estimate_logical_error_rate.py", EV + "circuits/"], [("evaluation script", EV + "estimate_logical_error_rate.py"), ("stored circuits", EV + "circuits")],
     ["main", "circuits/*/*.qasm", "circuits/*/*.stim"],
     "Stored circuits enumerated completely with all fault sets; script's circuit, parameters and numbers compared with an independent simulation (7 standard deviations). Verification circuits with other ancilla numbers are as good; only the guarantee counts.")
CC = S + "cc_decoder/"
prop("P27", "The color code command line runs the decoder asked for, and the plots show the stored results",
     "The command line of the color code decoders simulates exactly the lattice, distance, error rate, number of runs, decoder (MaxSAT with the given solver, or tensor network) of its arguments, in any order and with its documented defaults, and stores the result of this simulation in one file of the results directory, which it creates; unknown decoders, lattices or arguments are refused. The plotting script shows, for whatever set of results is stored, one curve per distance, error rate or solver with exactly the stored rates, error bars and times (in the unit of its axis, sorted, gaps left out), finds the threshold at which data following the fit formula cross, leaves the results unchanged and writes the figure where it is asked to; unknown modes are refused.",
     ["inputs", "configurations"], "all arguments and sets of results", "No test calls the command line or the plotting script.",
     [CC + "cli.py", CC + "comparison/tn_decoder.py", CC + "plots.py"], [("cli", CC + "cli.py"), ("plots", CC + "plots.py"), ("tensor network decoder", CC + "comparison/tn_decoder.py")],
     ["cli", "tn_decoder.run", "generate_plots", "generate_plots_tn", "generate_plots_comp", "calculate_threshold", "plot_ler_vs_distance"],
     "Runs observed at the decoder, rates compared with exact enumeration; curves are read back from the figure. Layout is not judged.")
LH = "scripts/numerics/code_construct/lifted_hgp.py"
prop("P28", "Lifted products of protographs are the codes they are said to be",
     "For all protographs a and b (a with itself if only one is given; entries any polynomials, also zero or with exponents beyond the lift parameter; rectangular too) and all lift parameters, the lifted hypergraph product has exactly the check matrices obtained by replacing every entry of [a x I | I x b^T] and [I x b | a^T x I] by its circulant, with hx1, hx2, hz1, hz2 the blocks of these; the checks commute, N and K are right, and the protograph lifts to its stabilizers. The bias-tailored lifted product is this code with Hadamards on the second block of qubits: its stabilizers commute and N and K are the same. The given protographs are not changed, and the script storing a lifted product stores the checks of the code it names.",
     ["inputs"], "all protographs and lift parameters", "No test uses the lifted products.",
     [LH, "scripts/numerics/code_construct/constructLPcodes.py"], [("LiftedHgp, BiasTailoredLiftedProduct", LH)],
     ["LiftedHgp", "BiasTailoredLiftedProduct"],
     "Protographs up to 3x3, lift parameters up to 9, compared with an independent lifting; distances are not computed.")
