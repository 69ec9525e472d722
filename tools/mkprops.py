#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as Python for readable editing)."""
import json, os
P = []
def p(id, title, st, over, q, why, files, mech, obs=None):
    P.append(dict(id=id, title=title, statement=st, quantifier=dict(over=over, text=q), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=obs or ["public API return values"], hook_needed=None)))
TG="qermit/taskgraph/task_graph.py"; MT="qermit/taskgraph/mittask.py"; MR="qermit/taskgraph/mitres.py"; MX="qermit/taskgraph/mitex.py"; UT="qermit/taskgraph/utils.py"; RED="qermit/taskgraph/measurement_reduction.py"

p("T01","A TaskGraph computes exactly the composition its building calls denote",
 "However a TaskGraph is built from append, prepend, parallel, add_wire and add_n_wires calls, with plain tasks or nested TaskGraphs, running it returns in port order exactly the values of the composition those calls denote: append composes after, prepend composes before, parallel and added wires sit to the right of the existing ports, and every task receives its arguments in port order. n_in_wires and n_out_wires always equal the arity of that composition. A task whose wire count does not fit an append or prepend is refused and leaves the graph as it was.",
 ["programs","inputs"],"all finite sequences of building calls over tasks of any arity and nested graphs, all input values",
 "the tests build three or four graphs; a port swap shows only for particular interleavings of parallel, wires and prepend",
 [TG,MT],[("edges keyed by (source port, target port)","TaskGraph.append/prepend/parallel/add_n_wires"),("wires assigned to edges and gathered by port","TaskGraph.run")])
p("T02","Decomposing nested TaskGraphs never changes what a graph computes",
 "After nested TaskGraphs are decomposed (at any nesting depth, any mix of nested and plain tasks, the same nested graph used several times) the graph has no nested graph left and running it returns exactly what it returned before, with every inner task present once per use. Graphs that were nested stay usable and unchanged. A nested graph with a wire from its input straight to its output is refused with a ValueError, and the graph still computes what it did before.",
 ["programs"],"all TaskGraphs with nesting built by the public calls, decomposed at any point of the building history",
 "one test counts nodes after one decomposition; it never runs the decomposed graph",
 [TG],[("edge splicing between outer and inner graph","TaskGraph.decompose_TaskGraph_nodes")])
p("T03","Building with a task or graph never affects that object or other users of it",
 "Using a task or graph as a component of another graph (append, prepend, parallel, from_TaskGraph, or as a component given to one of the library's generator functions for mitigation schemes) never changes the component: its tasks, labels, wire counts, results and characterisation data stay as they were. Afterwards the two are independent: building on, running or characterising one does not change the tasks, results or characterisation of the other.",
 ["histories"],"all interleavings of building, copying, running and characterising several graphs that share component objects",
 "tests use each component in one graph; leaks need two graphs sharing an object and a particular order of calls",
 [TG,MT,RED,"qermit/frame_randomisation/frame_randomisation.py"],[("shallow copy of the component on insertion","TaskGraph.append/prepend/parallel"),("deepcopy","TaskGraph.from_TaskGraph, MitRes.from_TaskGraph, MitEx.from_TaskGraph")])
p("T04","Each run executes every task once, in dependency order, and caches faithfully",
 "Every run of a TaskGraph calls each of its tasks exactly once, after all the tasks whose outputs it consumes, and its result depends only on the inputs of that run and the characterisation, never on data left from earlier runs. With cache=True the cache afterwards holds exactly one entry per task, in execution order, keyed by its label, with the outputs that task produced in this run; if labels are not unique the run is refused before any task is executed. With cache=False the cache is not changed.",
 ["histories","schedules"],"all graphs, all histories of repeated runs with different inputs and cache settings",
 "cache and rerun behaviour is tested on a two task graph with one run each",
 [TG],[("topological order execution","TaskGraph.run"),("label uniqueness check and cache","TaskGraph.run/get_cache")])
p("T05","Characterisation data flows to every later task and never to an earlier one",
 "Characterisation given to a run, set on the graph, or written by a task is visible to exactly the tasks that execute later in that run (including tasks inside nested graphs) and, after the run, in the graph's characterisation; when a key is written again the latest write wins. A run without characterisation starts from what the graph holds from earlier runs, and update and set calls respectively merge into and replace it.",
 ["histories"],"all graphs with nesting, all sequences of runs, updates and replacements of characterisation, any reading and writing pattern of the tasks",
 "the tests only pass dictionaries to an empty graph",
 [TG,MT],[("characterisation dictionaries merged around each task call","TaskGraph.run")])
p("M06","Shot splitting submits every requested shot and returns it to its own circuit",
 "For any list of circuits with any positive shot counts and any maximum, shot splitting submits only jobs of at least one and at most the maximum number of shots, in request order, whose shots per circuit add up to exactly the request. The merged results contain, for every request in order, exactly the shots its own jobs returned, with its own classical bits.",
 ["inputs"],"all lists (also empty) of circuits and shot counts, all maxima, all result contents",
 "tests use a few shot counts, none equal to the maximum, and a simulator whose shots are random",
 [MR,MX],[("split and split index","split_shots_task_gen"),("merge by index","group_shots_task_gen"),("wiring","gen_shot_split_MitRes, gen_compiled_shot_split_MitRes")])
p("M07","Randomised-compilation backend runs every requested shot exactly once",
 "For any circuit, shot count, batching and core count, the transpiler backend runs every requested shot exactly once: the shots of the batches, each transpiled from the original circuit, add up to the request, and the result for a handle is that total for the circuit submitted under that handle, whatever order handles are created and read. The user's circuits are not modified.",
 ["inputs","configurations","histories"],"all shot counts, maximum batch counts, core counts, numbers of circuits and retrieval orders",
 "tests use one batch configuration and only look at the counts of one circuit",
 ["qermit/noise_model/transpiler_backend.py","qermit/noise_model/mock_quantinuum_backend.py","qermit/noise_model/noisy_aer_backend.py"],[("division of shots over batches","TranspilerBackend.run_circuit_single/multi"),("handle to result map","TranspilerBackend.process_circuits/get_result")])
p("M08","A MitEx run returns each string's coefficient times its own measured parity",
 "For any list of experiments, a MitEx run returns one operator per experiment in order, whose strings are exactly those of the experiment's operator and whose values are the coefficient times the parity expectation of that string computed from the results of that string's own measurement circuit, with symbols replaced by that experiment's values and that experiment's shots. The identity string evaluates to its coefficient. Running again, or in another order or grouping, gives the same values for the same results, and qubits missing from the circuit are refused.",
 ["inputs","histories"],"all lists of experiments, operators (any coefficients, identity strings, qubit names), symbols, shots and result contents",
 "tests run a couple of simulated experiments with tolerances, so a swap between experiments or strings of equal value is invisible",
 [MX,UT],[("measurement circuit generation","filter_observable_tracker_task_gen"),("collate and split by sizes","collate_circuit_shots_task_gen, split_results_task_gen"),("parity expectation","ObservableTracker.get_expectations")])
p("M09","An ObservableTracker's bookkeeping stays consistent over any call history",
 "After any sequence of tracker calls (creation, extending the operator, changing coefficients, removing strings, adding measurement circuits, clearing, copying) the tracker reports exactly the strings and coefficients the calls denote, reports as unmeasured exactly those without a circuit, returns for each string exactly the circuits registered for it, and computes each expectation from the registered circuit indices, bits and inversions. A tracker shares no state with any other tracker, with its copies, or with the operator object it was created from or extended with. Unknown strings are refused without any change.",
 ["histories"],"all call sequences on several trackers, copies included",
 "tests call each method once on a fresh tracker",
 [UT],[("string to (index, bits, invert) map","ObservableTracker.add_measurement_circuit/get_expectations"),("copying","ObservableTracker.from_ObservableTracker")])
p("M10","Every measurement circuit really measures the strings it is registered for",
 "For any observable, each non-identity string without a circuit gets one: appending the registered measurement circuit maps that string to the product of Z on exactly the registered bits, with the registered inversion as its sign. This holds both for the default per-string circuits and for the measurement-reduction circuits, where strings sharing a circuit commute; strings that already have a circuit keep it, the ansatz part is unchanged, and symbols are kept.",
 ["inputs"],"all sets of Pauli strings, qubit registers, ansatz circuits and prior registrations",
 "tests compare a few expectation values or gate counts, and a sign error shows only for particular strings",
 [MX,RED],[("basis change gates","get_basic_measurement_circuit"),("measurement_reduction diagonalisation","gen_measurement_reduction_task")])
p("L11","Post-selection keeps exactly the accepted shots, unchanged",
 "Post-selection returns exactly the shots whose post-selected bits all equal the accepted value (zero), with the values of all other bits unchanged, in the other bits' order and with multiplicity; merging instead keeps every shot and only drops the post-selected bits. Results come back in order; if nothing survives an empty result is returned, never another circuit's.",
 ["inputs"],"all count tables, bit register layouts, sets of post-selected bits and circuit groupings",
 "tests cover three small tables with the post-selected bits in one position",
 ["qermit/postselection/postselect_manager.py","qermit/postselection/postselect_mitres.py"],[("bit index split","PostselectMgr.get_postselected_shot, dict_to_result"),("grouping","gen_postselect_task, gen_postselect_mgr_gen_task")])
p("L12","Leakage detection adds one gadget per qubit and leaves kept results unchanged",
 "For any circuit, leakage detection adds one detection gadget for each qubit measured at the end of the circuit (on a device with a qubit to spare) and leaves the circuit's own operations, measurements and bits in place; with no leakage every shot is kept, with leakage on any qubit exactly the shots flagged by a detection bit are discarded. Results come back in request order, on the circuit's own bits only.",
 ["inputs"],"all circuits (register names, mid-circuit and partial measurement, idle qubits), all leakage outcomes",
 "tests run two circuits on a simulator",
 ["qermit/leakage_detection/leakage_detection.py","qermit/postselection/postselect_mitres.py"],[("gadget insertion","get_leakage_detection_mitres / gadget task"),("post-selection on detection bits","gen_postselect_task")])
p("F13","Frame randomisation preserves the circuit and accounts for every shot",
 "For any circuit, each randomised circuit implements the original circuit's operation and measurements for every random choice of frame; there are as many per original as requested, each with its equal share of the shots rounded up. The merged result of each original circuit, in order and on its own bits, is exactly the sum of the results of its own randomised circuits.",
 ["inputs"],"all circuits, sample counts, shot counts, random seeds and result contents",
 "tests check shot totals for one circuit and compare noisy simulations",
 ["qermit/frame_randomisation/frame_randomisation.py"],[("frame insertion","frame_randomisation_circuits_task_gen"),("chunked collation","frame_randomisation_result_task_gen")])
p("S14","SPAM calibration attributes every calibration result to the right basis state",
 "For any choice of correlated qubit subsets, the calibration circuits prepare every basis state of every subset, and the calibration matrix of a subset has in its column for a prepared state exactly the fraction of shots observed in each state of that subset when that state was prepared, whatever else was prepared in parallel. Each column is a probability distribution, and with ideal readout each matrix is the identity.",
 ["inputs","configurations"],"all partitions of qubits into subsets of any sizes and order, all calibration result contents",
 "tests use two or three fixed partitions with near-symmetric noise",
 ["qermit/spam/full_transition_tomography.py","qermit/spam/spam_mitres.py"],[("state preparation circuits and state info","get_full_transition_tomography_circuits"),("counting into matrix columns","calculate_correlation_matrices")])
p("S15","SPAM correction undoes the calibrated readout map for every bit layout",
 "Corrected counts equal the calibrated subset readout maps undone on the observed distribution (inverse: exactly; otherwise: a probability distribution), assigned to the original bits in the original order and total, for any order and sizes of correlated subsets, any mapping of qubits to bits including mid-circuit and partial measurement and results on a subset of the characterised qubits. Undoing an ideal calibration returns the counts unchanged.",
 ["inputs","configurations"],"all subset partitions and orders, qubit to bit maps, calibration matrices and observed count tables",
 "tests correct with subsets given largest first and one bit order",
 ["qermit/spam/full_transition_tomography.py","qermit/spam/full_spam_correction.py"],[("matrix reduction and inversion","correct_transition_noise, reduce_matrices"),("qubit to bit map","full spam correction task")])
p("S16","SPAM characterisation runs exactly when no matching characterisation exists",
 "In any sequence of runs of a SPAM-corrected MitRes, calibration circuits are executed exactly when the graph holds no characterisation for the configured correlated subsets, and every run is corrected with the latest characterisation. The user's circuits are measured in order, exactly once per run, and their results are returned in order, whether or not calibration happened.",
 ["histories"],"all sequences of runs with any batches of circuits, characterisation replaced, cleared or preset between runs",
 "tests perform at most two runs",
 ["qermit/spam/full_spam_correction.py","qermit/spam/spam_mitres.py"],[("characterisation cache key","gen_full_tomography_spam_characterisation_task"),("wiring","gen_UnCorrelated_SPAM_MitRes, gen_FullyCorrelated_SPAM_MitRes")])
p("N17","Pauli propagation through Clifford circuits is exact, including phase",
 "For any Pauli operator and any Clifford circuit over the supported gates, the propagated operator equals the circuit conjugating the operator, exact in phase; pre- and post-multiplication, dagger, equality, qubit reduction, measurability and the plain and controlled circuits generated from an operator agree with Pauli algebra. Gates that are not Clifford are refused.",
 ["programs","inputs"],"all Pauli operators and phases on any named qubits, all sequences of supported gates with Clifford parameters",
 "tests propagate through a handful of gates and compare a few cases numerically",
 ["qermit/noise_model/qermit_pauli.py"],[("per gate update rules","QermitPauli.apply_gate and friends")])
p("N18","Error distributions conserve probability through every operation",
 "Over any history of mixing, scaling (by whole factors), ordering, sampling, serialising and post-selecting, an error distribution's rates are exactly those the operations denote, stay non-negative and together with the error-free rate sum to one; serialisation round-trips, samples are drawn only from the support, and post-selection splits the probability exactly into accepted and rejected errors, with Paulis on post-selected qubits removed and equal remainders merged. Distributions totalling more than one are refused.",
 ["histories","inputs"],"all distributions over Paulis on a few qubits, all operation sequences",
 "tests use two or three distributions",
 ["qermit/noise_model/noise_model.py"],[("rate arithmetic","ErrorDistribution.mixture/scale/to_ptm/to_dict"),("post selection","LogicalErrorDistribution.post_select")])
p("N19","Noise model errors strike exactly the noisy gates and propagate exactly",
 "Randomly propagating errors forwards or backwards through any Clifford circuit yields exactly the product of the errors sampled after each noisy gate, conjugated by the part of the circuit that follows (forwards) or precedes (backwards); counting samples gives that many outcomes. Transpiling errors into a circuit keeps the circuit's operations and bits in order, and inserts after each noisy gate, on that gate's qubits in order, exactly a sampled error.",
 ["programs","inputs"],"all circuits over the supported gates, all noise models and all random choices",
 "tests check means of a few thousand samples on two circuits",
 ["qermit/noise_model/noise_model.py","qermit/noise_model/pauli_error_transpile.py"],[("propagation loop","NoiseModel.random_propagate/counter_propagate"),("insertion","PauliErrorTranspile")])
p("C20","Grouping into Clifford subcircuit boxes preserves the circuit",
 "For any circuit, the monochromatic convex sub-DAGs cover every node once, are monochromatic and convex, contracting them leaves an acyclic graph, and no two of them could still be merged. Boxing Clifford subcircuits yields a circuit with the same operations per qubit and classical bit in the same order, so the same effect once boxes are opened, boxes contain Clifford gates only and every gate of a Clifford type is in a box, and qubits, bits, measurements and barriers keep their place.",
 ["programs"],"all circuits, all coloured DAGs",
 "tests enumerate a few hand-written circuits",
 ["qermit/coherent_pauli_checks/monochromatic_convex_subdag.py","qermit/coherent_pauli_checks/box_clifford_subcircuits.py"],[("subdag merging","get_monochromatic_convex_subdag"),("rebuild","BoxClifford")])
p("C21","Coherent Pauli checks never flag a fault-free circuit and never alter it",
 "For any Clifford box and any choice of checks, the added checks leave the box's action on its own qubits unchanged, every ancilla deterministically reads zero when no error occurs, an error striking inside a box flips exactly the ancillas of its checks it anticommutes with, and there is exactly one ancilla and one new measured bit per check, reported for post-selection. Everything outside the boxes is kept, in order.",
 ["programs","inputs"],"all circuits with Clifford boxes, all check choices and sampler settings",
 "tests check a few fixed circuits",
 ["qermit/coherent_pauli_checks/pauli_sampler.py","qermit/coherent_pauli_checks/coherent_pauli_checks_mitres.py"],[("start check and propagated end check","PauliSampler.add_pauli_checks_to_circbox"),("post-selection wiring","gen_coherent_pauli_check_mitres")])
p("R22","Near-Clifford training circuits differ from the original only in their rotations",
 "Every training circuit generated for Clifford data regression has the original circuit's structure, qubits and measurements with only Rz angles changed: exactly the configured number of non-Clifford rotations (at most one fewer than there are) keep their original angle and the rest become Clifford angles, rotations that were Clifford already stay as they are, and the requested number of circuits is generated for every experiment, in order, the same ones for the device and the simulator. Asking for more pairs than non-Clifford rotations is refused.",
 ["inputs"],"all circuits, numbers of non-Clifford gates and training circuits, random seeds",
 "tests use one circuit and count gates",
 ["qermit/clifford_noise_characterisation/ccl.py"],[("rotation choice","gen_state_circuits, sample_weighted_clifford_angle")])
p("R23","Each experiment is corrected by the fit of its own training data only",
 "In a Clifford data regression run with any number of experiments and strings, each string of each experiment is fitted from exactly the (noisy, noiseless) training pairs of that experiment and string, and its corrected value is that fit evaluated at its own noisy value; strings not in a fit are returned uncorrected. With an exactly linear relation between noisy and noiseless values the corrected value is exact, whatever the number and order of experiments, and training batches are split and rejoined in order.",
 ["inputs","histories"],"all numbers of experiments, strings, training pairs and linear relations",
 "tests use one experiment or compare simulated values with tolerance",
 ["qermit/clifford_noise_characterisation/ccl.py","qermit/clifford_noise_characterisation/cdr_post.py"],[("batching","ccl_result_batching_task_gen"),("characterisation key per experiment","cdr_calibration_task_gen, cdr_correction_task_gen")])
p("R24","Depolarisation factor correction rescales each string by its own factor",
 "For every experiment and string, depolarisation-factor correction returns the noisy value divided by the magnitude of that string's own calibrated factor if that magnitude is above the threshold and unchanged otherwise, where calibration circuits are stabiliser versions of the experiment circuit for which the string has a noiseless value of plus or minus one; circuits with non-Clifford gates other than symbolic ones are refused. Noiseless execution is left unchanged and experiments never mix.",
 ["inputs","histories"],"all experiments, strings, calibration outcomes and thresholds",
 "tests use single experiments and a tolerance on simulated values",
 ["qermit/clifford_noise_characterisation/dfsc.py"],[("preparation by basis of string","DFSC_circuit_task_gen"),("division and threshold","DFSC_correction_task_gen")])
p("Z25","Folding scales gate counts as requested and preserves the circuit",
 "For every folding method, any circuit and any achievable noise scaling, the folded circuit implements the same operation with the same qubits, bits and measurements, and the number of (two-qubit, for the two-qubit method) gates grows by the requested factor, with added gates that survive the removal of redundancies. Scalings a method cannot realise are refused or approximated only with the documented warning.",
 ["programs","inputs"],"all circuits, scalings, random gate choices and tolerances of every folding method",
 "tests fold one or two circuits and compare gate counts",
 ["qermit/zero_noise_extrapolation/zne.py"],[("fold insertion","Folding.circuit/two_qubit_gate/gate/odd_gate/noise_aware")])
p("Z26","Zero-noise extrapolation fits each string on its own scaled results",
 "In a zero-noise extrapolation run with any number of experiments, every experiment is executed once per noise scaling (the unscaled one included) on circuits folded by that scaling with its shots shared equally among them, and each string's returned value is the zero-noise limit of the chosen fit through exactly that string's own (scaling, value) points. Data that follow the fitted form exactly give the exact limit; experiments, strings and scalings never mix and results come back in order on the original qubit names.",
 ["inputs","configurations"],"all experiment lists, scaling lists (any order), fits and measured values",
 "tests use one or two experiments and simulated noise with wide tolerances",
 ["qermit/zero_noise_extrapolation/zne.py"],[("per scaling branch wiring","gen_ZNE_MitEx"),("merging","merge_experiments_task"),("fits","extrapolation_task_gen, Fit"),("qubit relabelling","qpo_node_relabel")])
p("E27","Quasi-probability circuits pair noisy and noiseless runs of the same circuit",
 "For any Clifford-framed circuit, the learning circuits consist of every Clifford training circuit with every single-frame Pauli substitution, plus the original with each of them, numbered alike and each with exactly one frame changed; training circuits have the frames of the original with Clifford gates between, and a non-zero noiseless value of their string. The stored structure lets every result be assigned back to its experiment, training circuit and substitution exactly.",
 ["inputs","programs"],"all circuits, numbers of training circuits and frames, random seeds",
 "tests count circuits for one or two inputs",
 ["qermit/probabilistic_error_cancellation/pec_learning_based.py","qermit/probabilistic_error_cancellation/cliff_circuit_gen.py"],[("frame wrapping and substitution","label_gates, wrap_frame_gates, substitute_pauli_but_one"),("list structure","gen_get_noisy_circuits, collate_results")])
p("E28","Quasi-probability results combine each experiment's own circuits and weights",
 "The mitigated value of each string of each experiment is exactly the sum over that experiment's own substituted circuits of the learnt weight times that circuit's value, for any number of experiments, strings and circuits; learnt weights reproduce the noiseless training values whenever these are exactly reproducible. Results are returned in experiment order.",
 ["inputs"],"all numbers of experiments and frames, all weights and values",
 "tests use one simulated experiment",
 ["qermit/probabilistic_error_cancellation/pec_learning_based.py"],[("slicing and weighting","gen_run_with_quasi_prob"),("least squares","learn_quasi_probs_task_gen")])
p("P29","Spectral filtering evaluates each grid point and transforms it losslessly",
 "A spectral filtering run evaluates every experiment's circuit at every point of its symbol grid with that point's symbol values, arranges the values by grid coordinate and string, and with a filter that changes nothing returns the experiment's value at its own symbol values exactly when these are a grid point. Flattening and reshaping are inverse, experiments and strings never mix, and the small-coefficient filter zeroes exactly the coefficients below its threshold.",
 ["inputs","configurations"],"all numbers of symbols, grid sizes, experiments and strings, all landscapes",
 "tests check each stage on one example and the whole scheme at a single point",
 ["qermit/spectral_filtering/spectral_filtering.py","qermit/spectral_filtering/signal_filter.py"],[("grid generation","gen_obs_exp_grid_gen_task"),("flatten/reshape, dict","gen_flatten_task, gen_reshape_task, gen_ndarray_to_dict_task"),("interpolation","gen_result_extraction_task")])
p("G30","Every mitigation scheme returns one result per request, in order, exact if ideal",
 "Every MitRes and MitEx the library generates, in any valid nesting, returns exactly one result per request in request order, on the request's own bits or strings, for any number of requests including none where meaningful; on a noiseless device circuits with deterministic outcomes give exactly their ideal outcomes and expectations.",
 ["configurations","inputs"],"all generators and compositions, all request lists of deterministic circuits",
 "tests run each scheme alone on one or two circuits with statistical tolerances",
 [MR,MX,"qermit"],[("MitRes/MitEx signatures","MitRes.run, MitEx.run, from_TaskGraph"),("generators","gen_*_MitRes, gen_*_MitEx")])
p("G31","Running any scheme leaves the user's circuits, operators and symbols unmodified",
 "Running any generated MitRes or MitEx, any number of times, never modifies the circuits, operators, symbol values or experiment lists the user passed, and re-running the same request objects on a deterministic device gives the same results.",
 ["histories","configurations"],"all generators, all request lists, repeated runs",
 "tests build fresh inputs for every run",
 ["qermit"],[("circuits copied before modification","every *_task_gen"),("trackers cleared after use","get_expectations_task_gen")])
p("B32","Mock noisy devices run each job exactly and carry only their declared noise",
 "Every circuit submitted to NoisyAerBackend or MockQuantinuumBackend (one at a time, in a list, with one number of shots or one each) gets a handle of its own which, read in any order, any number of times, with or without keyword arguments, returns outcomes of that circuit over its own bits, for its own number of shots: the ideal outcomes when the device has no noise, and every measured bit inverted when readout errors are certain; submitted circuits are not modified. The noise model of NoisyAerBackend(n, p1, p2, pr) is depolarising with p1 on the single qubit gates of every qubit, with p2 on CX for every ordered pair, symmetric readout error pr on every qubit, and nothing else.",
 ["inputs","histories"],"all submission and retrieval orders, all circuits with fixed outcomes, all error rates",
 "tests run one circuit and look at counts of a noisy run with a tolerance",
 ["qermit/noise_model"],[("MockQuantinuumBackend.process_circuit(s)/get_result","qermit/noise_model/mock_quantinuum_backend.py"),("NoisyAerBackend.depolarizing_noise_model","qermit/noise_model/noisy_aer_backend.py")])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
ids=[x["id"] for x in P]; assert len(ids)==len(set(ids))
for x in P: assert len(x["title"])<=80, x["title"]
open(out,"w").write("".join(json.dumps(x)+"\n" for x in P))
print(len(P))
