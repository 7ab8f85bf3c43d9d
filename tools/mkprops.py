"""Source of properties.jsonl (kept as a script so that the texts are reviewable)."""
import json, pathlib

P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=False):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            mechanism=[dict(name=n, where=w) for n, w in mech],
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            observe_at=list(observe), hook_needed=hook or None)))

S="src/plaquette/"
prop("Q01","Noise-free memory experiments are silent",
 "A memory experiment generated without any configured error never reports an error: in every shot all stabilizer measurements repeat, so the whole syndrome is zero, and every measured logical operator has the same value before and after. This holds for every code family, size, number of rounds, choice of commuting logical operators (read out directly or through an ancilla) and local backend, whatever the random measurement outcomes turn out to be. Every decoder then proposes a correction that is reported as successful. A code's own validity check and its comparison with other codes tell the truth, also for stabilizers or logical operators that were damaged or dropped, and a choice of logical operators which does not name one existing operator per logical qubit is refused.",
 ["configurations","histories","schedules"],
 "all code families and sizes, rounds, logical operator choices, ancilla mode, backends and every sequence of random measurement outcomes",
 "The tests run one code/operator combination per family for a handful of shots; measuring several logical operators, mixed X/Z operators, unequal operator weights and long repetitions of rounds are never combined.",
 [S+"circuit/generator.py",S+"codes/__init__.py",S+"codes/latticebase.py",S+"codes/latticeinstances.py",S+"device/__init__.py",S+"device/_circuitsim.py",S+"pauli.py"],
 [("circuit generation",S+"circuit/generator.py QECCircuitGenerator.get_circuit"),("raw results to syndrome",S+"device/__init__.py MeasurementSample.from_code_and_raw_results"),("projective measurement on the tableau",S+"pauli.py measure")],
 [("lattice","operators, ancillas, measurement schedule",S+"codes/latticebase.py CodeLattice")],
 ["sample syndrome","sample logical toggles","decoder success verdict"])
prop("Q02","Injected faults appear in the results exactly as stabilizer mechanics says",
 "When faults strike a memory experiment at chosen places - Pauli errors on data qubits between rounds, erasures, readout flips, Pauli errors after individual gates - each round's syndrome, the erasure record and the logical toggles are exactly those that an independent stabilizer calculation of the same fault history gives. A fault is visible in the round it strikes and in no unrelated stabilizer, round, qubit or logical operator, and the noise does not change which ideal gates are executed.",
 ["fault_sequences","inputs","configurations"],
 "all fault histories over all data qubits, stabilizers, gates and rounds of every code, on both local backends",
 "Tests sample random noise at fixed rates and compare aggregate numbers or golden files; no test knows which fault actually struck, so a fault landing in the wrong round, qubit or operator stays unnoticed.",
 [S+"circuit/generator.py",S+"device/_circuitsim.py",S+"device/_stimsim.py",S+"device/__init__.py",S+"codes/latticebase.py",S+"pauli.py"],
 [("placement of error instructions",S+"circuit/generator.py apply_dataqubit_errors / apply_measurement_error / apply_gate_error"),("execution of error instructions",S+"device/_circuitsim.py _handle_gate, "+S+"device/_stimsim.py circuit_to_stim"),("splitting of the results",S+"device/__init__.py MeasurementSample.from_code_and_raw_results")],
 [("raw measurement record","order of measured qubits",S+"device/_circuitsim.py meas_results")],
 ["syndrome array","erasure array","logical toggles"])
prop("Q03","A decoder's correction always explains the observed syndrome",
 "For every decodable syndrome and erasure record, the correction returned by any decoder flips, together with suitable readout flips, exactly the observed syndrome bits: applied to the data qubits it reproduces in every stabilizer the total parity seen over all rounds. An undecodable input is refused with an error and never answered with a wrong correction, and decoding terminates.",
 ["inputs","fault_sequences","configurations"],
 "all fault histories (Pauli, readout, erasure; sparse and saturated), all decoders, weighted and unweighted, all codes, sizes and rounds",
 "Tests decode a few fixed syndromes; cluster growth, peeling and matching have input-dependent control flow whose rare branches (merging clusters over erasures, open boundaries, several components) are reached only by particular patterns.",
 [S+"decoders/decoderbase.py",S+"decoders/unionfind_decoder.py",S+"decoders/unionfind_erasure.py",S+"decoders/matching.py",S+"decoders/fusionblossom.py",S+"decoders/interfaces.py",S+"decoders/unionfind_interfaces.py",S+"syngraph/__init__.py",S+"syngraph/weights.py"],
 [("syndrome graph",S+"syngraph/__init__.py SyndromeGraph"),("cluster growth and peeling",S+"decoders/unionfind_decoder.py, "+S+"decoders/unionfind_erasure.py"),("matching",S+"decoders/matching.py, "+S+"decoders/fusionblossom.py"),("edge selection to Pauli frame",S+"syngraph/__init__.py result_as_pauli_frame")],
 [("syndrome graph","vertices per stabilizer and round, edges per fault",S+"syngraph/__init__.py")],
 ["returned Pauli correction"])
prop("Q04","Correctable fault histories are corrected",
 "If fewer faults strike than the code and decoder can tolerate, decoding succeeds and every logical operator keeps its value: every decoder corrects every history of at most (d-1)/2 data and readout faults in total in a code of distance d, and decoders that accept erasures correct every erasure that hides no logical operator, as long as each single fault in it has a syndrome of its own. With biased error rates the more likely explanation wins. The unweighted matching correction never uses more faults than actually happened.",
 ["fault_sequences","inputs","configurations"],
 "all fault histories below the threshold over all qubits, stabilizers and rounds; all matching-capable codes, sizes and rounds",
 "Tests compare decoding statistics with golden numbers or check single faults in one code; guaranteed correction below half the distance is a statement about every combination of fault positions.",
 [S+"decoders/decoderbase.py",S+"decoders/unionfind_decoder.py",S+"decoders/unionfind_erasure.py",S+"decoders/matching.py",S+"decoders/fusionblossom.py",S+"syngraph/__init__.py",S+"syngraph/weights.py"],
 [("edges and boundaries of the decoding graph",S+"syngraph/__init__.py SyndromeGraph"),("weights",S+"syngraph/weights.py"),("decoders",S+"decoders/")],
 [],["success verdict","size of correction"])
prop("Q05","A decoder's answer does not depend on what it decoded before",
 "A decoder object used for many shots, with fixed weights or with a syndrome graph manager that announces new weights or a new graph between shots, gives for each syndrome and erasure record the same valid answer as a freshly built decoder for the current weights, whatever sequence of shots, refused inputs, announced changes or interrupted decodings came before. Several decoders built from the same code do not influence each other.",
 ["histories","crash_points","schedules"],
 "all sequences of decode calls with and without erasures, refused inputs and interruptions at arbitrary points, interleaved over several decoders",
 "Tests build a fresh decoder per case or decode a stream without comparing with a fresh one; stale weights, erasure marks or solver state after an unusual call only show in particular call histories.",
 [S+"decoders/decoderbase.py",S+"decoders/fusionblossom.py",S+"decoders/unionfind_decoder.py",S+"decoders/unionfind_erasure.py",S+"decoders/unionfind_interfaces.py",S+"syngraph/__init__.py",S+"syngraph/weights.py"],
 [("update of weights per shot",S+"syngraph/__init__.py SyndromeGraphManager.update_for_decoding"),("reset of per-shot state",S+"syngraph/__init__.py set_erasure / set_syndrome, decoders/*")],
 [("per-shot graph state","erasure marks, syndrome bits, weights, results",S+"syngraph/__init__.py")],
 ["decode() result across a history"])
prop("Q06","The success verdict tells the truth",
 "For any fault history, correctable or not, decoding is reported as successful exactly if the faults that really struck combined with the proposed correction leave every measured logical operator unchanged. This holds for every decoder, code, logical operator choice and backend, so a counted logical error is a real one and none is missed.",
 ["fault_sequences","histories","configurations"],
 "all fault histories including uncorrectable ones, all decoders, codes and logical operator choices",
 "Tests check averages of the verdict or single hand-made samples; they never hold the verdict against the faults that actually struck.",
 [S+"decoders/decoderbase.py",S+"device/__init__.py",S+"circuit/generator.py",S+"codes/__init__.py",S+"pauli.py"],
 [("verdict",S+"decoders/decoderbase.py check_success"),("logical readout",S+"device/__init__.py MeasurementSample.from_code_and_raw_results"),("operator selection",S+"codes/__init__.py logical_ops_to_indices")],
 [],["success verdict"])
prop("Q07","Matching decoders answer with a most likely explanation",
 "With error rates or weights given, the correction of a matching decoder belongs to an explanation of syndrome and erasure record that is at least as likely as every other one, X and Z faults counted as independent; a Y fault counts as both, readout flips count with their own rates, and faults without a rate never take part. Without rates the explanation is a smallest one. This holds for every code, every assignment of rates to single qubits and stabilizers and every syndrome, up to the documented rounding of the decoding library.",
 ["fault_sequences","inputs","configurations"],
 "all syndromes, all assignments of rates or weights to qubits and stabilizers, single and repeated rounds",
 "Tests compare logical error rates on average; a wrong weight formula, a lost weight or a wrong choice between duplicate edges shifts only rare decisions.",
 [S+"syngraph/weights.py",S+"syngraph/__init__.py",S+"decoders/matching.py",S+"decoders/fusionblossom.py",S+"decoders/decoderbase.py"],
 [("weights from rates",S+"syngraph/weights.py WeightComputation"),("edges and duplicates",S+"syngraph/__init__.py SyndromeGraph"),("matching",S+"decoders/matching.py, "+S+"decoders/fusionblossom.py")],
 [("edge weights","log-likelihood ratios of the faults",S+"syngraph/__init__.py")],["correction"])
prop("Q08","Decoder backends decode arbitrary graphs",
 "Used through the low-level interface on any connected graph of ordinary and dangling edges, with any weights, every decoder backend answers each decodable syndrome and erasure with a set of edges which explains exactly that syndrome: matching backends with one of least total weight (erased edges cost nothing); union find, also with split edges or chosen growth, with edges from a grown region that contains the erasure, explains the syndrome, and is the erasure itself where that suffices; with its standard growth union find finds the very faults that happened if their total length is less than half of every closed loop (up to the resolution of one growth step). The answer does not depend on earlier or interrupted decodings, earlier weights or graphs of the same backend; weights may be set anew or switched off, and weights which are negative or partly missing are refused.",
 ["inputs","histories","fault_sequences"],
 "all graphs, weights, syndromes, erasures and histories of decodings, weight changes, graph exchanges and interruptions",
 "Tests decode a handful of hand-made graphs once; codes of the library only give regular graphs, so growth, merging and peeling on irregular graphs are never exercised.",
 [S+"decoders/unionfind_decoder.py",S+"decoders/unionfind_erasure.py",S+"decoders/unionfind_interfaces.py",S+"decoders/matching.py",S+"decoders/fusionblossom.py",S+"syngraph/__init__.py SyndromeGraphComponent"],
 [("growth and merging of clusters",S+"decoders/unionfind_decoder.py"),("peeling",S+"decoders/unionfind_erasure.py"),("weights",S+"decoders/unionfind_decoder.py set_weights")],
 [("cluster state","growth of edges, parity and boundary of clusters",S+"decoders/unionfind_decoder.py")],["selected edges"])
prop("Q09","Fewer faults than the code distance never go unnoticed",
 "In a memory experiment on a built-in planar, rotated (also XZZX), toric or repetition code (the latter protecting Z), with the schedule of couplings the library chooses, no combination of fewer faults than the size of the code leaves the syndrome trivial and flips a measured logical operator, where a fault is a Pauli on a data qubit in any round, a readout flip, or any Pauli following any H, R, M, CX or CZ of a noisy stabilizer round. Couplings on a common qubit act in the order the lattice documents or was given, in every round.",
 ["fault_sequences","schedules","configurations"],
 "all combinations of fewer than distance faults at all places and rounds, all sizes, operators and read-out modes",
 "Tests run circuits without gate errors or compare them with stored text for one small code; a schedule which lets one fault of an ancilla spread along a logical operator is silent in every noise-free run and costs half the distance.",
 [S+"codes/latticeinstances.py",S+"codes/latticebase.py assign_stab_edge_order",S+"circuit/generator.py"],
 [("coupling order",S+"codes/latticeinstances.py edge_order, inverted_order"),("parallel rounds",S+"circuit/generator.py measure_stabgens_pl")],
 [("time steps","time step of every coupling",S+"codes/latticebase.py")],["syndrome","logical toggles"])
prop("G01","A syndrome graph describes the faults of its code, whatever was done with it before",
 "The syndrome graph made for any code, also a damaged one, or for any stabilizers in which each X and each Z fault flips at most two (others are refused), contains each X and Z fault of every data qubit in every round and each readout flip between two rounds exactly once, with the syndrome bits it flips as its ends and with the weight given for it. Of several faults with the same ends exactly one lightest takes part, faults of infinite weight never do; the parts of the graph are its connected components by the faults that take part, and numbers, weights, neighbours and statistics agree. Syndromes, erasures and decoding results end up at exactly the faults and syndrome bits they belong to, in the graph and in its parts, whatever was set, refused or interrupted before and whichever decoders share the graph; results read back are the product of exactly the selected faults; results which were not read, ill-shaped input and new weights for a finished graph are refused and change nothing. Graphs do not influence each other, nor later changes of arrays the caller passed in or was given.",
 ["inputs","histories","fault_sequences"],
 "all codes and stabilizers, weights, histories of syndromes, erasures, results, decodings, refused and interrupted operations on one or more graphs",
 "Tests build a few graphs and read some of their numbers once; stale or misplaced bits show only after histories, and duplicate, impossible or unseen faults only for unusual stabilizers and weights.",
 [S+"syngraph/__init__.py",S+"decoders/decoderbase.py ComponentDecoder"],
 [("faults and their ends",S+"syngraph/__init__.py _init_qubit_error_edges, _init_measurement_error_edges"),("which faults take part",S+"syngraph/__init__.py _check_edges_duplicate, _check_edges_infweight"),("results",S+"syngraph/__init__.py update_decoder_results, result_as_pauli_frame")],
 [("graph","syndrome, erasure, weight and result of every vertex and edge",S+"syngraph/__init__.py"),("parts","the same per component",S+"syngraph/__init__.py SyndromeGraphComponent")],["vertices and edges","components","Pauli frame"])
prop("L01","Lattices put together or edited by hand stay consistent and run as codes",
 "A lattice contains exactly the qubits, stabilizers, logical operators and couplings that were put into it, in whatever order, and seen the same from the lattice, its positions, its operators and its qubits, after every history of additions, removals, merged stabilizers (the first one becomes the product of both) and logical operators multiplied with stabilizers. Impossible edits - occupied places, a coupling made twice, an element removed while it is coupled, or twice - and look-ups of what is not there are refused and change nothing. Once indices are assigned, every index and every operator follows from this content, codes made of the lattice have exactly these operators and recognise whether they form a code, and memory experiments and decodings on it see faults as on any other code.",
 ["histories","configurations","fault_sequences"],
 "all lattices of any shape and histories of edits",
 "Tests use the lattices of the library as they were built; stale indices, couplings known to only one side and operators remembered from before an edit need histories.",
 [S+"codes/latticebase.py",S+"codes/__init__.py",S+"circuit/generator.py"],
 [("edits",S+"codes/latticebase.py add_edge, remove_edge, remove_vertex, create_superstab, multiply_logical_with_stab"),("indices",S+"codes/latticebase.py assign_indices"),("operators",S+"codes/latticebase.py _vertices_to_operators")],
 [("lattice","vertices, edges, neighbours, positions, indices",S+"codes/latticebase.py")],
 ["operators","codes","noise-free and faulty samples"])
prop("D01","A device follows its documented lifecycle",
 "In any sequence of runs, resets, single steps, circuit extensions, circuit exchanges and failing runs, a device holds the results of the executions it was last asked to perform: a run starts from a clean state with empty records, a run without reset continues the state and appends to the records, a reset forgets the previous run completely, and stepping through a circuit has the same effect as running it. A run that fails leaves the device usable, and the next run is unaffected by it.",
 ["histories","programs","fault_sequences"],
 "all histories of device calls over all circuits on the local backends",
 "Tests call run once or twice on a fresh device; leftovers of a previous run (error block, instruction position, records, cached batches, compiled circuits) only show in multi-step histories.",
 [S+"device/__init__.py",S+"device/_circuitsim.py",S+"device/_stimsim.py",S+"circuit/__init__.py"],
 [("delegation to the backend",S+"device/__init__.py Device.run"),("reset and stepping",S+"device/_circuitsim.py reset, __iter__, __next__, run"),("recompilation and batches",S+"device/_stimsim.py")],
 [("records","measurement results, erasures, error block, position",S+"device/_circuitsim.py"),("batch","remaining shots of a batch",S+"device/_stimsim.py")],
 ["get_sample()","state"])
prop("D02","Batched sampling delivers every shot exactly once",
 "Shots of the batched backend come out one by one, each exactly once and in order, across batch boundaries and for every batch size; reading a result again without running again returns the same shot. Resetting, reseeding or changing the circuit starts a new stream in which no shot of the old one appears, and the same seed and batch size give the same stream.",
 ["histories","configurations"],
 "all histories of run, read, reset, reseed and circuit change over all batch sizes and several devices side by side",
 "Tests take few shots with the default batch size, so batch boundaries, re-reads and reseeding within a batch are never crossed.",
 [S+"device/_stimsim.py",S+"device/__init__.py"],
 [("batch bookkeeping",S+"device/_stimsim.py run, reset")],
 [("batch","cached shots and remaining count",S+"device/_stimsim.py")],
 ["stream of samples"])
prop("D03","Measurement outcomes are those quantum mechanics allows",
 "Every outcome sequence of any circuit of the supported gates, resets and measurements is possible according to an independent stabilizer calculation: determined measurements always give the determined value, undetermined ones are fair and independent coins, and repeating a measurement repeats its value. Both local backends obey this, and the reported quantum state is the state after the outcomes that were reported.",
 ["programs","schedules","histories"],
 "all circuits over the gate set, all sequences of random outcomes, both backends",
 "Tests use tiny circuits or circuits with deterministic outcomes; phase and update errors of the tableau only show for particular gate and outcome sequences.",
 [S+"pauli.py",S+"device/_circuitsim.py",S+"device/_stimsim.py",S+"device/__init__.py"],
 [("tableau updates and measurement",S+"pauli.py"),("translation to Stim",S+"device/_stimsim.py circuit_to_stim")],
 [("tableau","stabilizers and destabilizers of the state",S+"device/__init__.py QuantumState")],
 ["measurement record","state"])
prop("D04","A seed determines the experiment",
 "With the same seed and the same inputs an experiment - random error rates, circuits, samples, corrections and the logical error rate - comes out identical, in the same process, after unrelated earlier activity of other seeds, and in a fresh process with a different hash seed. Different seeds give different randomness, and nothing draws from randomness other than the seeded source.",
 ["configurations","histories","schedules"],
 "all configurations, both backends, processes and hash seeds, activity before the seeding",
 "Tests fix a seed within one process and compare little; dependence on iteration order of sets, on foreign random sources or on what ran before needs other processes and histories.",
 [S+"__init__.py",S+"errors/__init__.py",S+"frontend/__init__.py",S+"device/_circuitsim.py",S+"device/_stimsim.py",S+"pauli.py",S+"codes/latticebase.py"],
 [("seeded generator",S+"__init__.py rng, "+S+"frontend/__init__.py ExperimentConfig.update_rng"),("uses of the generator","pauli.py, device/, errors/")],
 [("random generator","the only source of randomness",S+"__init__.py rng")],
 ["error tables","samples","logical error rate"])
prop("D05","Interleaved sessions do not influence each other",
 "Several sessions in one process - devices, decoders, generators and error tables, also sharing one code object - give under every interleaving of their steps, including switches in the middle of a library call, the same results as when each runs alone with the same random outcomes.",
 ["schedules","histories"],
 "all interleavings of the steps of several sessions at call and at line granularity, sharing codes and error data",
 "Tests run one session after the other; shared class attributes, aliased defaults and cached state are exposed only by interleaving.",
 [S+"device/_circuitsim.py",S+"device/_stimsim.py",S+"decoders/decoderbase.py",S+"decoders/unionfind_decoder.py",S+"decoders/unionfind_erasure.py",S+"decoders/unionfind_interfaces.py",S+"syngraph/__init__.py",S+"circuit/generator.py",S+"codes/latticebase.py"],
 [("instance state instead of shared state",S+"device/, decoders/, syngraph/, circuit/generator.py")],
 [],["results per session"])
prop("D06","An interrupted operation leaves everything usable",
 "If an operation - running a circuit, decoding, building a decoder, generating a circuit - is interrupted at an arbitrary point by an exception such as a keyboard interrupt or an allocation failure, the interruption reaches the caller, and afterwards the same objects give correct results again for every following operation. Inputs passed in by the caller (code, circuit, syndrome, erasure) are unchanged by it.",
 ["crash_points","histories","fault_sequences"],
 "all interruption points inside library calls, all operations and continuations",
 "No test interrupts a call; the state left behind by a half-finished operation depends on the exact line of the interruption.",
 [S+"device/_circuitsim.py",S+"device/_stimsim.py",S+"decoders/decoderbase.py",S+"decoders/unionfind_decoder.py",S+"decoders/unionfind_erasure.py",S+"decoders/fusionblossom.py",S+"syngraph/__init__.py",S+"circuit/generator.py"],
 [("reset of per-run state at the start of each operation",S+"device/_circuitsim.py reset, "+S+"syngraph/__init__.py set_erasure/set_syndrome")],
 [],["results after the interruption"])
prop("D07","Error instructions fire with their stated probability and as stated blocks",
 "Every error instruction of a circuit strikes with exactly the stated probability and with the stated effect on the stated qubits, independently of other instructions: probability zero never strikes, probability one always does, and the alternatives of one block are mutually exclusive, continued parts striking exactly together with the alternative they continue. Erasures are flagged exactly when they happen and leave the qubit in a fully mixed state.",
 ["programs","fault_sequences","schedules"],
 "all sequences and nestings of error instructions between gates, all branch outcomes",
 "Tests run single blocks with few alternatives on one qubit; leftovers between blocks, branch order and multi-qubit channels need longer random programs.",
 [S+"device/_circuitsim.py",S+"device/_stimsim.py",S+"circuit/__init__.py"],
 [("error blocks",S+"device/_circuitsim.py _handle_error"),("channels",S+"device/_circuitsim.py _handle_gate, "+S+"device/_stimsim.py circuit_to_stim")],
 [("error block state","whether an alternative already struck",S+"device/_circuitsim.py in_error, any_error_applied, apply_branch")],
 ["measurement record","erasure record"])
prop("D08","A stabilizer state stays the right state through any history",
 "States handled with the functions of the Pauli module - gates, measurements of qubits in a basis or of whole operators with random or forced outcomes, destructive read-out, resets, qubits inserted or joined, states written as text and read back with or without destabilisers - are after every history exactly the states quantum mechanics gives for the reported outcomes. A forced outcome is obeyed wherever the outcome is open, a determined one is always reported truly, and copies are independent. Products, tensor products, commutation relations and written forms of operators are those of the Pauli group. A refused operation or inconsistent description of an operator or state raises an error and leaves everything as it was.",
 ["programs","histories","inputs"],
 "all histories of operations, all register sizes, all sequences of random and forced outcomes",
 "Tests apply single operations to simple states; mistakes in signs, in the order of rows or in the destabilisers show only several operations later.",
 [S+"pauli.py"],
 [("gates and measurement",S+"pauli.py measure, measure_z_base, measure_x_base"),("size changes",S+"pauli.py insert_qubit_at, tensor_product, _ptrace"),("text form",S+"pauli.py string_to_state, state_to_stabiliser_string")],
 [("tableau","stabilizers and destabilizers of the state",S+"pauli.py")],["state","measurement outcomes"])
prop("N01","The configured noise is the noise that acts",
 "The error rates a user configures for qubits and gates - as constants, distributions or tables, with errors switched on or off - are exactly the rates at which those errors act in the generated experiment, on exactly those qubits, gates and rounds. Errors that are not configured or switched off never act, and drawn rates are probabilities.",
 ["configurations","fault_sequences"],
 "all error configurations over all channels, qubits, gates, distributions and on/off choices",
 "Tests compare intermediate tables for a few configurations; the path from configuration to circuit has many channels and selections which are never checked end to end.",
 [S+"frontend/__init__.py",S+"errors/__init__.py",S+"circuit/generator.py",S+"codes/latticebase.py"],
 [("selection of simulated errors",S+"frontend/__init__.py simulated_errors"),("tables",S+"errors/__init__.py assimilate_qubit_errors / assimilate_gate_errors"),("dictionaries",S+"errors/__init__.py qubit_errors_dict / gate_errors_dict"),("circuit",S+"circuit/generator.py")],
 [],["error instructions of the circuit","frequencies in samples"])
prop("N02","Error data keep exactly what was entered",
 "After any sequence of adding, updating, merging, overwriting, loading, enabling and disabling errors, the error data contain for every qubit, gate and channel exactly the last value entered for it, unmentioned entries are unchanged, and what is handed to circuits and decoders contains exactly the enabled entries. A refused edit changes nothing, the tables passed in by the caller are left alone, and tables that do not fit the code - unknown errors or channels, qubits of the wrong kind - are refused by whatever they are handed to for checking or decoding.",
 ["histories","inputs"],
 "all edit histories over all qubits, gates and channels, with refused edits in between",
 "Tests perform one edit on a fresh object; column creation, index alignment, row replacement and enabled sets interact over several edits.",
 [S+"errors/__init__.py"],
 [("edits",S+"errors/__init__.py ErrorData.add_* / update* "),("projection",S+"errors/__init__.py error_data_dict")],
 [("tables","qubit and gate error tables and enabled sets",S+"errors/__init__.py ErrorData")],
 ["error dictionaries","tables"])
prop("N03","Saved error data read back unchanged or the failure is reported",
 "Error data saved to files and loaded again, possibly after further rounds of saving and loading, are the same error data up to rounding in the last digit. If a file cannot be written or read completely - no space, missing directory, unreadable file - the operation raises an error instead of pretending success, the object in memory is unchanged and usable, and a later save once the fault is gone succeeds.",
 ["fault_sequences","histories","crash_points"],
 "all error tables, all write and read failures at arbitrary byte positions, histories of saves and loads",
 "Tests load hand-written files; nothing is saved and reloaded, and no test makes a file operation fail.",
 [S+"errors/__init__.py"],
 [("CSV format",S+"errors/__init__.py save_to_csv, from_csv, update_from_csv")],
 [],["files","reloaded tables","raised errors"])
prop("E01","A dumped experiment configuration is the same configuration",
 "Writing an experiment configuration to a file and loading it gives an equal, valid configuration which builds the same experiment, for both file formats and for every valid configuration, also after updates and after the experiment has been built or run. If the file cannot be written completely the failure is raised, and configuration, experiment and the dictionary the user supplied are unchanged. A configuration that breaks the documented rules (missing parts, unknown names, numbers out of range, missing files, parameters that do not fit the distribution) is refused, whether it is loaded, read from a dictionary or set by an update and then validated.",
 ["configurations","histories","fault_sequences"],
 "all valid configurations and update histories, both formats, write failures at arbitrary byte positions",
 "Tests only load two fixed files; dumping is not tested at all, and no test makes writing fail.",
 [S+"frontend/__init__.py",S+"frontend/schemas.py"],
 [("dump and load",S+"frontend/__init__.py ExperimentConfig.as_dict, dump_*, load_*, from_dict"),("validation",S+"frontend/schemas.py")],
 [],["dumped file","reloaded configuration"])
prop("E02","An experiment reports the error rate of exactly its own shots",
 "The logical error rate reported for a configured experiment is the fraction of failed shots among exactly the configured number of shots of that experiment - each shot sampled once, decoded with the matching erasure record and judged on the configured logical operator. Building, rebuilding, updating parts and running again changes nothing but what was updated.",
 ["configurations","histories"],
 "all configurations of code, noise, backend and decoder; histories of build, update, rebuild and run",
 "Tests run one configuration and compare with a loose interval; off-by-one shots, stale objects after updates or a swapped operator stay within statistical error.",
 [S+"frontend/__init__.py",S+"device/__init__.py",S+"decoders/decoderbase.py"],
 [("run loop",S+"frontend/__init__.py ExperimentConfig.run"),("build steps",S+"frontend/__init__.py build_*")],
 [],["reported rate"])
prop("R01","Plug-in backends are driven faithfully even when they fail",
 "For a backend that is not built in, the device hands over circuits, shot counts and options unchanged, exactly once per call, and returns exactly that backend's samples and completion states in whatever order it completes, duplicates or delays them. A failure of the backend reaches the caller unchanged, is not retried or swallowed, and a later call works again on the same connection.",
 ["fault_sequences","schedules","histories"],
 "all histories of submissions and result queries, all delays, failures and partial completions of the backend",
 "Tests mock one successful call; submission and query histories with failures and partial results in between are not covered.",
 [S+"device/__init__.py"],
 [("delegation",S+"device/__init__.py Device.__init__, run, get_sample, is_completed")],
 [("backend object","one connection per device",S+"device/__init__.py")],
 ["calls received by the backend","samples returned"])
prop("F01","Fabrication defects leave a consistent code",
 "After qubits, stabilizers or couplings are lost to fabrication defects, without gauge operators and without joining boundaries, the remaining code is a valid stabilizer code over the remaining qubits: its generators and logical operators commute as they must, describe the lattice they belong to, and act on no lost element. A noise-free experiment on it is silent, remaining faults are seen and decoded as on any other code, and when no logical qubit survives an error is raised. Defects that cannot exist on the code (a stabilizer reported as a data qubit, a coupling between elements that are not coupled, an element outside the lattice) are refused and leave the code as it was.",
 ["fault_sequences","configurations"],
 "all sets of lost qubits, stabilizers and couplings of all supported lattices and sizes",
 "Tests remove single elements from one lattice; clusters of defects, defects at corners and defects that cut a logical operator need many combinations.",
 [S+"codes/latticebase.py",S+"codes/__init__.py",S+"circuit/generator.py",S+"syngraph/__init__.py"],
 [("removal and regeneration",S+"codes/latticebase.py apply_fabrication_errors"),("refresh of operators",S+"codes/__init__.py apply_fabrication_errors")],
 [("lattice","remaining vertices and edges",S+"codes/latticebase.py")],
 ["generators","noise-free and faulty samples"])
prop("A01","Pauli and stabilizer algebra obeys its laws",
 "Products, commutators, conversions and rank of Pauli operators agree with matrix algebra for every operator of every size.",
 ["inputs"],"all Pauli operators and tableaux","Tests use small fixed operators.",
 [S+"pauli.py"],[("bit-packed algebra",S+"pauli.py")])
prop("A02","Circuits keep their meaning as text and as OpenQASM",
 "A circuit written as text and read again - by any receiver, in any layout, with comments and blank lines - is the same circuit: the same instructions, probabilities equal to the last digit, and with the same seed the same results; sender and receiver can extend their circuits independently. A refused instruction leaves a circuit as it was. The OpenQASM export of a circuit is a valid program with the same effect on every input state, result for result, and circuits with error instructions are refused unless leaving these out was asked for.",
 ["programs","histories"],"all circuits, all histories of extending, handing over and refused instructions","Tests convert a few fixed circuits, never continue with a converted one, and compare the export with stored text instead of executing it.",
 [S+"circuit/__init__.py",S+"circuit/openqasm.py"],[("text format",S+"circuit/__init__.py Circuit.append, append_from_str, __str__"),("export",S+"circuit/openqasm.py convert_to_openqasm")])
prop("A03","Pictures show the lattice and the shot that is given, whatever was drawn before",
 "A drawn lattice shows every qubit, stabilizer, logical operator and coupling of the code as it is at that moment, at its place and with its numbers, and the given syndrome, error, correction or error probabilities at the elements they belong to, and nothing else; what the caller leaves out is left out. This holds for every shot of a running experiment and after any history of drawings with one or several visualizers, including grey ones, refused ones, ones whose renderer failed, and losses of qubits in between. A failure of the renderer reaches the caller, and drawing changes neither the lattice nor the drawn data nor the random stream.",
 ["histories","fault_sequences","inputs"],
 "all lattices, shots and highlights, all histories of drawings with failures",
 "Tests of the library do not look at any picture; what one drawing leaves behind, especially a failed one, only shows in a later one.",
 [S+"visualizer/__init__.py"],[("drawing",S+"visualizer/__init__.py LatticeVisualizer.draw_lattice, draw_latticedata, draw_lattice_mpl")],
 [("styles","grey or normal styles of the visualizer",S+"visualizer/__init__.py")],["traces of the figures"])

out=pathlib.Path(__file__).resolve().parent.parent/"properties.jsonl"
out.write_text("".join(json.dumps(p)+"\n" for p in P))
print(len(P))
