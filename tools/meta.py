#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below. A property is claimed when its harness exists."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def p(id, title, statement, over, quant, why, files, mech, observe, technique, note, state=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech, observe=observe, technique=technique, note=note, state=state or []))
S="src/"; I="include/lsqecc/"
p("P01","QASM programs are read as the gates they spell",
  "For every OpenQASM program in the supported subset, reading it yields exactly the gates written, in order, each with the operands, angle (fraction of pi and sign), control/target roles, CNOT type annotation and ancilla placement that the text and its annotations state; rz angles are reduced to the named gate they equal. A gate prints as the text that reads back as it. Every index refers to the qubit it names. A program using an unsupported gate, an unknown or second register, a missing, negative or out-of-range index, a wrong operand count or an unsupported angle is refused with an error instead of being read as something else.",
  ["programs","inputs"],"all programs of the documented OpenQASM subset, with any register name, size, spacing, comments and annotations, and single deviations from it",
  "the unit tests parse a dozen fixed lines; they cannot cover combinations of angle forms, signs, register sizes, annotations and ignored lines",
  [S+"gates/parse_gates.cpp",I+"gates/parse_gates.hpp",S+"gates/gates.cpp"],["parse_qasm_gate, GateStreamFromFile::advance_gate"],["GateStreamFromFile::get_next_gate"],
  "property-based testing: programs generated with their meaning, compared gate by gate","generated programs with up to 30 gates against the meaning they were generated from")
p("P02","Any QASM text is either read or refused cleanly",
  "For every byte string given as OpenQASM input, reading it to the end terminates and either yields gates whose qubits all lie inside the declared register or ends with a reported error; it never crashes, hangs, or touches memory it does not own.",
  ["inputs"],"all byte strings","tests feed well-formed lines only; damaged input is unbounded",
  [S+"gates/parse_gates.cpp","external/lstk/lstk.hpp"],["parse_qasm_gate, split_on, parse_index"],["GateStreamFromFile","slicer --printlli"],
  "fuzzing: mutated programs and token soup under address and undefined-behaviour sanitizers","mutation fuzzing with sanitizers and an in-register oracle")
p("P03","LLI text and instructions correspond one to one",
  "For every lattice surgery instruction of the textual format, printing it and reading the text back gives an equal instruction, and reading a line gives exactly the operation, patches, operators, sign and placement it spells. A file yields its instructions in the order of its lines, blank lines ignored, with the declared core patches from its first line (or, failing a declaration, 0..n-1 when the first line says n); a line that is not a valid instruction is refused.",
  ["inputs","programs"],"all instructions and instruction files of the format","tests cover a handful of fixed strings; the correspondence must hold for every operator, id and placement",
  [S+"ls_instructions/ls_instructions.cpp",S+"ls_instructions/ls_instructions_parse.cpp",S+"ls_instructions/ls_instruction_stream.cpp"],["operator<<(LSInstruction), parse_ls_instruction, LSInstructionStreamFromFile"],["parse_ls_instruction","slicer --printlli"],
  "property-based testing: print/parse round trip and generated-with-meaning comparison","round trip over every instruction form, files with meaning")
p("P04","Any LLI text is either read or refused cleanly",
  "For every byte string given as LLI input, reading it to the end terminates and either yields instructions or ends with a reported error; it never crashes, hangs, or touches memory it does not own.",
  ["inputs"],"all byte strings","tests feed well-formed lines only",
  [S+"ls_instructions/ls_instructions_parse.cpp",S+"ls_instructions/parse_utils.cpp",S+"ls_instructions/ls_instruction_stream.cpp"],["parse_ls_instruction"],["LSInstructionStreamFromFile"],
  "fuzzing: mutated instruction files and token soup under sanitizers","mutation fuzzing with sanitizers")
p("P05","Gates are lowered to lattice surgery with the same meaning",
  "For every gate sequence, the produced LLI sequence is, gate by gate and in order, the documented gadget of each gate (Paulis, H, S, T by magic state injection, CX/CZ by an ancilla and two joint measurements or a local Bell-based CNOT, rz by pi/2 and pi/4 multiples with sign, reset), with operands in their roles, patch ids fresh for every generated ancilla, correction terms exactly when requested, and nothing else. The Clifford part, with outcomes taken as 0 up to Pauli corrections, acts on the qubits as the circuit does. Gates with no lowering are refused.",
  ["programs"],"all gate sequences, CNOT annotations, local or not, corrections or not","tests compare a few fixed expansions; freshness and composition are properties of whole sequences",
  [S+"ls_instructions/ls_instructions_from_gates.cpp",S+"ls_instructions/ls_instruction_stream.cpp",I+"ls_instructions/id_generator.hpp"],["LSInstructionStreamFromGateStream, LSTeleportedTGate helpers"],["LSInstructionStreamFromGateStream::get_next_instruction"],
  "property-based testing against a reference lowering and a stabilizer simulation","reference lowering plus stabilizer-group comparison on up to 6 qubits; one recorded known finding")
p("P06","Injected rotations and S gate gadgets preserve the program",
  "For every instruction sequence and layout, the streams that inject patch rotations and S gate gadgets pass every other instruction on unchanged and in order; an S becomes the documented teleported or catalytic gadget on the same patch with fresh ancilla ids; a patch is rotated before a measurement exactly when the needed operator is not exposed and the other is, taking earlier rotations and H gates into account. The command line composes these streams as the chosen layout and options say.",
  ["programs","configurations"],"all instruction sequences over the generated layouts and S gate modes","regression tests pin a few outputs; orientation tracking depends on the whole history of each patch",
  [S+"ls_instructions/boundary_rotation_injection_stream.cpp",S+"ls_instructions/teleported_s_gate_injection_stream.cpp",S+"ls_instructions/catalytic_s_gate_injection_stream.cpp",S+"pipelines/slicer.cpp"],["BoundaryRotationInjectionStream, TeleportedSGateInjectionStream, CatalyticSGateInjectionStream"],["slicer --printlli before"],
  "model-based testing: reference expansion with tracked patch orientation","reference model over generated sequences and the front end's composition")
p("P07","Routes between patches are legal, shortest, and found iff one exists",
  "For every lattice and pair of patch operators, routing succeeds exactly when a path of free cells joins the requested boundary of the source to the requested boundary of the target (directly touching boundaries need no cell), and the returned route is such a path, ordered from target to source, of minimum length, with its internal boundaries joined and no others. Joining two boundaries of the same patch routes a cycle through free cells. Every graph search provider agrees on existence and length, and the cached router returns what the plain router returned for the same query.",
  ["inputs","configurations"],"all occupancy patterns, patch orientations, operator pairs, search providers","the unit tests contain no routing test; regression tests only compare whole outputs on a few layouts",
  [S+"layout/graph_search/custom_graph_search.cpp",S+"layout/graph_search/boost_based_graph_search.cpp",S+"layout/router.cpp"],["do_graph_search_route_ancilla, boost_graph_search::graph_search_route_ancilla, CachedRouter"],["Router::find_routing_ancilla"],
  "property-based differential testing against a breadth-first reference search","random lattices up to 9x9 against an independent BFS, all providers")
p("P08","No slice ever loses, duplicates or overlaps a logical patch",
  "In every slice of every computation, each patch id occurs on at most one cell; layout-fixed cells (dead, distillation) stay what the layout says; routing ancillas occur only on cells that were free. A logical patch stays on its cell with its id from its creation until the instruction that measures it, except while it is being rotated; measured patches are gone in the following slice, and no patch appears without an instruction that creates it.",
  ["programs","configurations","histories"],"all programs on the supported layouts, in every pipeline mode","an invariant over every slice of every schedule; tests only count slices or compare a few outputs",
  [S+"patches/dense_patch_computation.cpp",S+"patches/dense_slice.cpp",S+"scheduler/wave_scheduler.cpp"],["try_apply_instruction_direct_followup, advance_slice, DenseSlice::place_single_cell_sparse_patch"],["slice visitor of run_through_dense_slices","slices JSON"],
  "stateful property-based testing: invariants over every slice of generated computations","slice-by-slice invariants and a history model, four pipelines")
p("P09","Every instruction is executed once, in an order the program allows",
  "For every program that completes, each pipeline applies every input instruction exactly once (plus the documented follow-ups such as the Z correction after an S and the end of a patch rotation), and the order in which the instructions touching any one patch are applied is their program order; no instruction is left out when a program completes. The reported instruction count is the number read (stream pipeline) or applied, follow-ups included (others); the reported slice count is the number of slices produced.",
  ["programs","schedules"],"all programs and pipeline modes","tests cannot enumerate dependency patterns; the wave and dag schedulers reorder freely",
  [S+"scheduler/wave_scheduler.cpp",S+"patches/dense_patch_computation.cpp",I+"dag/dependency_dag.hpp"],["WaveScheduler, run_through_dense_slices_{streamed,dag,wave}"],["instruction visitor of run_through_dense_slices","--printlli sliced"],
  "property-based testing: trace of applied instructions checked against the program's dependency order","generated programs through all pipelines, trace checked per patch")
p("P10","Joint measurements merge exactly the requested operators for one slice",
  "Whenever a two-patch measurement (or an S gate by twist) is applied in a slice, the slice shows the two patches' requested boundaries active and connected through a chain of routing cells joined to each other, with no other boundary of theirs active; the routing cells are free again in the next slice and no other patch's boundary is touched. With operation ids on, all cells of one merge carry one id, different merges carry different ids, and without the option no cell carries one.",
  ["programs","configurations"],"all merges in all computations","tests only look at a handful of merges' effects on slice counts",
  [S+"patches/dense_patch_computation.cpp"],["merge_patches, stitch_boundaries, mark_routing_region, advance_slice"],["slice visitor","slices JSON"],
  "property-based testing: per-slice structural oracle on generated computations","geometry of every merge re-derived from the slice")
p("P11","Magic and Y states appear on schedule and are never used twice",
  "A distillation region offers its first magic state after its (staggered) distillation time and then one each further period, on a free queue cell next to the region if there is one; a reserved cell respawns a state its distillation time after the previous one left. A magic state request binds the free state nearest to the requested patch and no other, waits when there is none, and each state is bound once. Pre-distilled Y states are bound to one user at a time and become available again when released.",
  ["programs","configurations","histories"],"all layouts with regions, distillation times, stagger settings, and request histories","cadence is a property of long histories; tests only run single requests",
  [S+"patches/dense_patch_computation.cpp",S+"layout/ascii_layout_spec.cpp"],["advance_slice, MagicStateRequest and YStateRequest application"],["slice visitor","slices JSON"],
  "model-based testing: reference model of distillation and state binding","step-by-step model of timers, queues and bindings")
p("P12","Patch rotations and single-patch gates act as documented",
  "A patch rotation occupies the patch and one free neighbour for three slices and ends with the same id on the same cell with its rough and smooth boundaries exchanged and the neighbour free; it waits when there is no free neighbour. H exchanges the boundaries of an idle patch for good and marks it for one slice; X, Y and Z leave the lattice as it is; gates wait for a patch that is busy.",
  ["programs","histories"],"all sequences of rotations and single-patch gates among other activity","tests check one rotation",
  [S+"patches/dense_patch_computation.cpp",S+"patches/patches.cpp"],["single_patch_rotation_a_la_litinski, instant_rotate"],["slice visitor"],
  "model-based testing: reference model of one patch's orientation and occupancy","model of orientation over generated histories")
p("P13","ASCII layouts are read as drawn",
  "For every rectangular ASCII layout, the core patches, ancilla locations, dead, Y state and reserved cells are exactly the cells drawn, in row-major order; each connected group of one digit is one distillation region, whose magic states are queued on the routing cells adjacent to it, with the distillation time and stagger configured. A ragged, empty or unknown-character layout, or one mixing factories with reserved cells, is refused.",
  ["inputs","configurations"],"all ASCII grids","no unit test parses layouts; regression tests use a few files",
  [S+"layout/ascii_layout_spec.cpp",I+"layout/ascii_layout_spec.hpp"],["AsciiLayoutSpec, LayoutFromSpec::init_cache"],["Layout accessors","first slice"],
  "property-based testing against a reference reader","random grids against an independent flood fill and scan")
p("P14","Generated layouts fit the program and can route it",
  "For every number of qubits and option set, each layout generator yields a rectangular layout with at least as many core patches as qubits (exactly that many), no cell with two roles, every core patch with a free neighbour at a rough and at a smooth boundary when the layout promises it, the promised ancilla and resource state cells, and all routing cells connected; explicit factories and Y states change what the places along the border of an edpc layout hold, not where they or the core patches are.",
  ["configurations"],"all qubit counts and generator options","regression tests use a few sizes",
  [S+"layout/dynamic_layouts/compact_layout.cpp",S+"layout/dynamic_layouts/edpc_layout.cpp"],["make_compact_layout, make_edpc_layout"],["Layout accessors"],
  "property-based testing: structural invariants over sizes and options","sizes up to 200 qubits, all option combinations")
p("P15","JSON slices say exactly what is on the lattice",
  "The JSON written for a computation is valid JSON: an array with one entry per slice, each a grid of the layout's size, whose entry for a cell is null exactly when the cell is free and otherwise gives the patch type, activity, id text, operation id and edges of the patch there; distillation regions show the time to the next magic state on their first cell.",
  ["programs","configurations"],"all slices of all computations","tests do not look at the JSON except for regression goldens",
  [S+"patches/slices_to_json.cpp",S+"pipelines/slicer.cpp"],["slice_to_json, dense_patch_to_json, the slice visitor of run_slicer_program"],["slicer output"],
  "property-based testing: JSON re-read and compared with the slice","generated slices and whole computations re-read from JSON")
p("P16","Volume statistics account for every cell once",
  "For every computation run with statistics, the totals equal the sums over its slices: the total volume is cells times slices; distillation, unused routing and dead volumes count exactly the cells in those states, each cell once; other active volume is the rest, and the percentages are the shares of the total.",
  ["programs","configurations"],"all computations and layouts","tests do not cover statistics beyond one golden",
  [S+"patches/slice_stats.cpp",S+"pipelines/slicer.cpp"],["compute_volume_counts, operator<<(SliceStats)"],["slicer -f stats"],
  "property-based testing against counts from the JSON slices and from constructed slices","stats recomputed from slices")
p("P17","The dependency DAG tracks its instructions through any history",
  "After any sequence of pushes, expansions, removals of heads and edge or node edits, the graph equals the abstract one: forward and backward edges mirror each other, heads are the nodes without predecessors, topological order lists every node once after all its successors; a new instruction depends on exactly those present it may not commute with; expansion puts the replacement chain in the place of its target. Proximate relations follow their instructions: popping a head makes its proximate successor a proximate head.",
  ["histories"],"all operation histories","tests run a few fixed histories",
  [I+"dag/dependency_dag.hpp",S+"dag/directed_graph.cpp",S+"dag/domain_dags.cpp"],["DirectedGraph, DependencyDag"],["DirectedGraph and DependencyDag accessors","slicer --printdag"],
  "stateful model-based testing against a simple graph model","operation histories against a set-of-edges model")
p("P18","Instructions that are reordered really commute",
  "Two gates or two instructions are declared commuting only if exchanging them cannot change the result: gates declared commuting have commuting unitaries on the qubits they touch, and instructions declared commuting share no patch they operate on. The set of patches an instruction reports includes every patch it reads, measures, creates or places next to; a request for a Y state names the patch it is for through its clients (asking again for a Y state gives it back, and names that state alone). Carrying out a circuit in any order its dependencies allow gives the same result.",
  ["inputs"],"all pairs of gates and of instructions","tests check a few pairs",
  [I+"gates/gates.hpp",I+"ls_instructions/ls_instructions.hpp",S+"ls_instructions/ls_instructions.cpp"],["CommutationTrait, get_operating_patches, get_patch_dependencies"],["CommutationTrait::can_commute"],
  "property-based testing against unitary commutators and a reference set of touched patches","all gate kinds on up to 4 qubits, numeric commutators")
p("P19","EDPC routes CNOTs along edge-disjoint paths with consistent labels",
  "In the edpc pipeline, within every wave the routes of the applied CNOTs share no edge between cells, cross at most two to a cell, and start and end at the control's and target's proper boundaries; labels of edges are consistent where routes cross, and a route is kept out of a wave only if no labels would be; each route's local operations act on neighbouring cells of that route only, consume every temporary patch they create and together implement the CNOT up to Pauli corrections, and every CNOT of the program is completed once with all data patches restored to their cell and orientation; no circuit on the edpc layouts makes routing fail or get stuck, except by the documented refusal of patches that touch and by clogged factories.",
  ["programs","schedules"],"all CNOT programs on the edpc layouts","regression tests run a few circuits",
  [S+"patches/dense_patch_computation.cpp",S+"patches/dense_slice.cpp",S+"scheduler/wave_scheduler.cpp"],["mark_routing_region, mark_boundaries_for_crossing_cell, flip_crossing_chain, WaveScheduler::schedule_wave"],["slice visitor","instruction visitor"],
  "property-based testing: routes and phases of generated CNOT layers checked against an independent oracle","dense CNOT layers on 1-lane layouts")
p("P20","Local compilation produces nearest-neighbour operations that implement the gate",
  "Every local operation compiled for a Bell pair preparation or Bell-based CNOT acts on cells that are neighbours, along one route between the requested boundaries; prepared halves end up next to the requested patches under the requested ids, every intermediate patch is measured, and the whole chain, simulated as a stabilizer circuit, implements a Bell pair or a CNOT up to Pauli corrections. Local operations that cannot be applied yet are retried, not skipped or repeated, and one that can be applied is not put off.",
  ["programs","configurations"],"all routes (lengths, parities, shapes) and interleavings","regression tests cover a few route lengths",
  [S+"patches/dense_patch_computation.cpp"],["compile_long_range_Bell, try_apply_local_instruction, BellPairInit/BellBasedCNOT application"],["instruction visitor","slice visitor"],
  "property-based testing: stabilizer simulation of the compiled local operations","routes of every length up to 12 on generated lattices")
p("P21","The command line does what its options say, reproducibly",
  "Running the slicer twice on the same input and options gives the same output, whether the input comes from a file or standard input, whether the output goes to a file or standard output, in a process of its own or through the in-process interface, and whatever was run before in the same process; neither the order of the options, nor spelling out defaults or long names, nor options for another concern (output format, slices on or off, operation ids, graceful, timeouts that do not expire) change the computed slices. The summary and --printlli (before slicing, and per slice) report exactly the instructions and slices of the computation. Unknown option values, missing files, output files that cannot be written and incompatible options are refused with a message and a non-zero exit code and write no slices; a run whose output cannot all be written (a full disk, at whatever byte) ends with a message and a non-zero exit code, and one that is stopped by its timeout keeps its time limit and leaves the slices so far in valid JSON; no arguments or input make the in-process interface throw or crash.",
  ["inputs","configurations","histories"],"all option combinations and inputs","regression tests run fixed command lines in fresh processes",
  [S+"pipelines/slicer.cpp"],["run_slicer_program, run_slicer_program_from_strings"],["slicer binary","run_slicer_program_from_strings"],
  "metamorphic testing over generated command lines, with write faults at generated offsets","command-line pairs with a stated relation between their outputs")
p("P22","Pandora databases are read layer by layer as stored",
  "For every database content, the gate stream yields exactly the supported gates of layers 1, 2, ... layer by layer up to the last one (in whatever order the database returns the rows of a layer), each on the stored qubits with its stored angle, skipping rows that only mark inputs, outputs, measurements or resets, also where a layer holds nothing else; the register has as many qubits as there are input rows. Unsupported rows and angles, a refused connection and a failing query are reported as errors rather than as the end of the circuit. The slicer connects to the port it is given, and does with a database what it does with the same circuit as OpenQASM.",
  ["inputs"],"all database contents","no test covers Pandora",
  [S+"gates/postgres_gate_stream.cpp","external/pqpp"],["PandoraPostgresGateStream"],["PandoraPostgresGateStream::get_next_gate"],
  "property-based testing with an in-memory stand-in for libpq","generated tables through a fake libpq")
p("P23","The string and container helpers obey their laws",
  "Splitting a text and joining the parts with the same delimiter restores it, replacing a character by a string changes exactly its occurrences, set intersection contains exactly the common elements, joins put the delimiter only between elements, and popping a deque returns and removes its front, for all inputs.",
  ["inputs"],"all strings and containers","tests use a few literals",
  ["external/lstk/lstk.hpp"],["lstk::split_on, join, str_replace, set_intersection, deque_pop"],["the helpers"],
  "property-based testing: algebraic laws","generated strings and containers")
p("P24","Waiting, timeouts and graceful stops are exact",
  "An instruction that cannot be applied (a Bell pair or CNOT in local compilation: be begun) waits one slice per retry for at most its stated number of slices (100 in the dag pipeline), and is then reported as an error naming the cause; one that can be applied is not made to wait nor given up on; with a timeout, slicing stops with an error soon after it expires; with the graceful option any such error ends the slicing normally with all slices produced so far written; Reset and waiting leave all other patches as they were.",
  ["programs","configurations","fault_sequences"],"all programs that block, at any point","tests never exercise blocking programs",
  [S+"patches/dense_patch_computation.cpp",S+"scheduler/wave_scheduler.cpp",S+"pipelines/slicer.cpp"],["wait_at_most_for, timeout and graceful handling in run_through_dense_slices"],["slice visitor","run_through_dense_slices with graceful and timeout"],
  "property-based fault injection: programs that block at a generated point","blocked programs with generated wait bounds")
p("P25","Gate decompositions preserve the unitary",
  "Decomposing a gate into the basic set yields a sequence of already decomposed gates on the same qubits whose unitary equals the original one's up to global phase, within the precision of the rz approximations it is made of (a controlled rz(t) is the controlled phase diag(1, exp(it)), as the RZ struct defines it); controlled gates of the sequence keep the kind of CNOT and the ancilla placement the gate asked for. Gates that are already basic pass unchanged and in order, also through the stream that decomposes a whole program, even when a rotation needs no gates at all; the approximation is asked for with the precision that was set, and where it fails, or an angle cannot be represented, the gate is refused. The slicer does with a program of rotations, at the precision set on its command line (10 unless set), what it does with the program in which their sequences are written out. Row n of the table of rz(pi/2^n) sequences is a rz(pi/2^n).",
  ["inputs"],"all gates, angles and precisions","tests compare a few sequences",
  [S+"gates/gates.cpp",S+"gates/gate_approximator.cpp",S+"gates/decompose_rotation_stream.cpp",S+"pipelines/slicer.cpp",I+"gates/pi_over_2_to_the_n_rz_gate_approximations.hpp"],["decompose_CRZ_gate, to_clifford_plus_t, approximate_RZ_gate, DecomposeRotationStream"],["the decomposition functions"],
  "property-based testing: numeric unitaries compared","dense unitaries of decompositions on up to 3 qubits")
p("P26","The JavaScript package hands programs to the slicer and its slices back unchanged",
  "For every program text and every choice of input type, layout generator and CNOT corrections, run() of the npm package calls the compiler once, with the text unchanged and a command line that means those choices (an omitted argument means its documented default), and returns exactly the slices the slicer computes for them; a value of inputType or cnotCorrections that is not one of the documented ones is refused before the compiler is called, and a compilation that fails throws an error that carries its exit code and message, whatever characters it contains; a run does not depend on the runs made before on the same object. What run() returns has the shape its TypeScript types declare.",
  ["inputs","configurations","histories"],"all texts, options and sequences of runs","the package's tests run a fixed call or two and need a wasm build",
  ["npm/src/index.ts","npm/src/slices.ts",S+"pipelines/slicer.cpp"],["Slicer.run, Slicer.load","types Slices, Slice, VisualArrayCell"],["Slicer.run called in node, with the native slicer in the place of the wasm module"],
  "property-based testing: differential against the native slicer, and against generated answers of the compiler","generated calls of the transpiled package; the wasm module itself is replaced")
p("P27","Every circuit on a generated layout is compiled to the end",
  "Compiling a circuit of Cliffords, rotations by pi/4 and CNOTs for a layout that the tool generates for it (compact, compact without clogging, edpc with any number of lanes, condensed or not, with or without Y states) comes to an end: after finitely many slices every instruction has been carried out, whatever pipeline and graph search is chosen, compiled locally or not, with S gates by twists or (on edpc layouts) by Y states, except where the tool refuses with the documented error that patches that touch cannot be joined through a route of two tiles.",
  ["programs","configurations"],"all circuits and generated layouts","tests compile a few circuits; a deadlock needs a particular order of gates on particular cells",
  [S+"patches/dense_patch_computation.cpp",S+"scheduler/wave_scheduler.cpp","include/lsqecc/layout/dynamic_layouts/compact_layout.hpp",S+"layout/dynamic_layouts/edpc_layout.cpp",S+"ls_instructions/teleported_s_gate_injection_stream.cpp"],["try_apply_instruction_direct_followup, request and release of Y and magic states, run_through_dense_slices"],["slices until the instruction stream is used up"],
  "property-based testing: bounded liveness of generated circuits on generated layouts","circuits of up to 60 gates on up to 20 qubits; 300 + 60 slices per instruction count as for ever")
p("P28","A compiled computation performs its circuit",
  "For every circuit, layout, pipeline and compilation setting for which slicing comes to its end, the instructions carried out, taken in the order of the slices in which they are carried out, implement the circuit that was given, up to Pauli corrections and with magic states standing for what they are used for: every patch is made before it is used and not used after it is measured or given back, Y states are given back as they were taken, and no patch that was made is left over.",
  ["programs","configurations","schedules"],"all circuits over the supported gates, all layouts, pipelines and settings","tests compare text for a few circuits; whether reordered instructions still implement the circuit depends on every pair of them",
  [S+"ls_instructions/ls_instructions_from_gates.cpp",S+"ls_instructions/ls_instruction_stream.cpp",S+"ls_instructions/teleported_s_gate_injection_stream.cpp",S+"ls_instructions/catalytic_s_gate_injection_stream.cpp",S+"scheduler/wave_scheduler.cpp",S+"dag/dependency_dag.cpp",S+"patches/dense_patch_computation.cpp"],["lowering, injection streams and the pipelines together"],["instruction visitor of run_through_dense_slices"],
  "property-based testing: stabilizer simulation of the executed instructions on halves of Bell pairs, compared with the circuit's","Clifford stand-in for magic states; circuits of up to 20 gates on up to 11 qubits, 64 patches in all")
def main():
    with open(f"{V}/properties.jsonl", "w") as f:
        for x in P:
            f.write(json.dumps({"id": x["id"], "title": x["title"], "statement": x["statement"], "quantifier": {"over": x["over"], "text": x["quant"]},
              "why_tests_cant": x["why"], "anchors": {"files": x["files"], "state": x["state"], "mechanism": [{"name": m, "where": x["files"][0]} for m in x["mech"]],
              "observe_at": x["observe"], "hook_needed": None}}) + "\n")
    checks, na = [], []
    for x in P:
        if os.path.exists(f"{V}/harness/{x['id']}.cpp"):
            checks.append({"property": x["id"], "quick_cmd": f"python3 run_check.py {x['id']} quick", "thorough_cmd": f"python3 run_check.py {x['id']} thorough",
              "evidence_file": f"evidence/{x['id']}.json", "technique": x["technique"], "level": "exploration", "level_note": x["note"]})
        else: na.append({"property": x["id"], "reason": "its check is not built yet"})
    json.dump({"version": 1, "setup_cmd": "make -j8 lib", "checks": checks, "not_applicable": na}, open(f"{V}/MANIFEST.json", "w"), indent=1)
main()
