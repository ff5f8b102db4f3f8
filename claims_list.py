HOOKS = {"guard": "none", "enable": "no hooks are needed: the checks use public interfaces", "source_commits": []}

D = "crates/logicaffeine_data/src/crdt/"
prop("P01", "Replicas that saw the same updates agree, in any merge order",
     "For every replicated data type (counters, registers, sets, maps, sequences), whatever updates replicas make and in whatever order and however often they exchange states, a replica shows exactly what its documented conflict rule assigns to the set of updates it has seen: sums for counters, the latest write for last-writer-wins, all mutually concurrent writes for multi-value, add-wins or remove-wins for sets and maps, a single consistent order for sequences. Merging is commutative, associative and idempotent in what users observe, survives serialisation, and a local edit has its plain sequential effect.",
     ["histories"], "all histories of local updates and state exchanges among 2-3 replicas up to 5-9 actions, for every replicated type",
     "Tests exercise a few hand-written two-replica exchanges per type; convergence quantifies over every interleaving and re-delivery.",
     [D+"gcounter.rs", D+"pncounter.rs", D+"lww.rs", D+"mvregister.rs", D+"orset.rs", D+"ormap.rs", D+"sequence/rga.rs", D+"sequence/yata.rs"],
     [("merge of each type", D+"mod.rs"), ("causal contexts and clocks", D+"causal/")],
     "h_data", "explicit-state model checking of replica histories on the real types, declarative causal oracle",
     "Exhaustive up to the bound; assumes distinct timestamps for last-writer-wins writes. Remove-wins sets with three replicas have listed known findings.",
     observe=["value of every replica after every action", "merge of every pair and triple of reachable states"], hook=False)

prop("P02", "Delta synchronisation loses and undoes nothing",
     "Sending a replica the changes since its own version gives it every surviving addition it lacks and takes nothing away, a delta followed by a full exchange leaves the same as the full exchange alone, and version vectors and event sets record exactly what was received in any order of arrival. A bounded buffer of recent changes either hands a peer exactly the changes it lacks, in order, or tells it to take a full transfer.",
     ["histories", "configurations"], "all histories mixing updates, full exchanges and delta exchanges among 2-3 replicas up to 5-8 actions; all buffer capacities, push sequences and peer versions within bounds",
     "Tests send single deltas in one direction; losses need gaps, relays through a third replica, or evicted history.",
     [D+"delta.rs", D+"delta_buffer.rs", D+"causal/context.rs", D+"causal/vclock.rs", D+"orset.rs", D+"sequence/rga.rs"],
     [("delta extraction and application", D+"delta.rs"), ("bounded delta history", D+"delta_buffer.rs"), ("out-of-order event set", D+"causal/context.rs")],
     "h_data", "explicit-state model checking with delta actions; exhaustive buffer and clock enumeration",
     "Exhaustive up to the bound. Remove-wins sets have listed known findings under delta exchange.",
     observe=["value of the receiver after every delta", "contents offered by the buffer"], hook=False)

R = "crates/logicaffeine_runtime/src/"
prop("P03", "Tasks, channels, selects and timers behave as specified, any schedule",
     "Whatever the schedule, tasks observe exactly the specified meaning of spawning, sending, receiving, selecting, sleeping, awaiting, aborting and closing: messages arrive once, in sending order, never beyond a channel's capacity, a select takes exactly one ready arm, virtual time only advances when nothing can run, and no task able to run is left waiting. A run ends exactly when the main task ends or nothing can ever run again, which is reported as a deadlock; each scheduling policy picks only tasks it permits.",
     ["programs", "schedules", "configurations"], "all programs of up to 4 operations over 2-3 tasks and 1-2 channels of capacity 0, 1 and 2, all five policies, every scheduling decision and every choice among ready arms",
     "Tests run a handful of programs with a few seeds; lost wake-ups and duplicate deliveries depend on the schedule and on aborts at particular points.",
     [R+"scheduler.rs", R+"channel.rs", R+"seed.rs"],
     [("scheduler step and wake-ups", R+"scheduler.rs"), ("choice points", R+"seed.rs")],
     "h_runtime", "stateless model checking of the real scheduler through its choice points, in lockstep with a nondeterministic reference model",
     "Every schedule of every bounded program is run on the real scheduler and its snapshot compared with the model after every step.",
     observe=["scheduler snapshot after every step", "what each task is resumed with"], hook=False)
prop("P04", "A recorded run replays exactly; drivers and worker counts agree",
     "With one seed a concurrent program always runs the same way; a recorded run replays step for step, however the run is sliced. Running the same program on a pool of worker threads gives the same output, outcome and final time as running it cooperatively, whatever the number of workers and their relative speed.",
     ["programs", "schedules", "configurations"], "all programs of up to 3 operations over 2-3 tasks, seeds, slice lengths, policies, 1-4 workers, every order of relative task speeds",
     "Tests compare a few programs on default worker counts; races depend on which worker finishes first.",
     [R+"scheduler.rs", R+"executor.rs", R+"seed.rs"],
     [("record and replay of choices", R+"seed.rs"), ("worker pool commit order", R+"executor.rs")],
     "h_runtime", "exhaustive enumeration of programs, seeds, slicings, worker counts and speed orders on the real drivers",
     "Thread-pool comparison covers first-in-first-out and round-robin policies; operating-system timing inside a slice is steered by delays, not enumerated.",
     observe=["program output, outcome and virtual end time", "recorded choice trace"], hook=False)

Y = "crates/logicaffeine_system/src/"
prop("P05", "Persisted values survive crashes, failed writes and compaction",
     "After a crash at any point, however much of the last write reached the disk, reopening a persistent or distributed value restores every acknowledged update and nothing that was never made, and the value keeps working and stays recoverable from there. Failed or partial writes, journal compaction running alongside edits, and updates arriving from other machines lose no acknowledged update.",
     ["crash_points", "fault_sequences", "histories", "schedules"], "all histories of up to 3-4 edits, compactions and restarts with a crash or failure at every write and every byte of it (pairs of faults at format boundaries), all interleavings of concurrent edits and compaction with a crash after every step",
     "Tests write, reopen and read back; losing data needs a torn write, a failed append followed by another, or an edit that lands between a compaction's snapshot and its replacement of the journal.",
     [Y+"storage/mod.rs", Y+"distributed.rs"],
     [("journal entry framing and recovery", Y+"storage/mod.rs"), ("compaction", Y+"storage/mod.rs"), ("updates received from peers", Y+"distributed.rs")],
     "h_system", "fault enumeration on the real journal over an in-memory disk that can stop or fail at every byte; all interleavings of its asynchronous operations",
     "Single faults at every byte, double faults at entry-format boundaries; the disk model makes replacing a file atomic and appending divisible.",
     observe=["value after every restart", "files on the disk after every step"], hook=False)
prop("P06", "File storage stays in its directory; replacing a file is all-or-nothing",
     "The file layer behaves as a tree of named files under its base directory: reads return what was last written or appended, listings name exactly the entries, and no path, however written, reads, writes, removes or lists anything outside the base directory. A crash at any point during a write leaves either the whole old or the whole new content, a write that was acknowledged survives power loss, and concurrent writers leave one of their contents.",
     ["inputs", "histories", "crash_points", "schedules"], "all operation sequences of length 2-3 over an alphabet of operations and path shapes (nested, dotted, absolute, with parent segments); every prefix of the recorded system calls of a write as a crash point, with unsynced data dropped; all interleavings of two writers' system calls",
     "Tests write and read back ordinary names; escapes need odd path shapes and lost data needs a crash between particular system calls.",
     [Y+"fs/mod.rs"],
     [("path resolution", Y+"fs/mod.rs"), ("atomic replacement through a temporary file", Y+"fs/mod.rs")],
     "h_system", "exhaustive operation sequences against a model file tree; crash-point enumeration over recorded system calls",
     "Runs as an unprivileged user on scratch files only. The io_uring variant shares the path rule but is not driven.",
     observe=["results and errors of every operation", "system calls reaching the kernel"], hook=False)

C = "crates/logicaffeine_compile/src/"
prop("P07", "Programs mean the same on both interpreters as the language defines",
     "A program's output and the error it stops with, if any, are the same whether it is walked as a tree or compiled to bytecode, and are those the language defines: exact integers that grow without overflow, truncating division, one-based checked indexing, value semantics for collections and records, short-circuit logic, and effects in program order. No accepted program makes an interpreter crash or hang.",
     ["programs", "inputs"], "every operator on all pairs of 22 boundary integers in five syntactic positions; all bodies of one or two statements from a core alphabet in seven surroundings and several loop counts; all pairs of statements over 19 worlds of data (floats, text, maps, sets, records, variants, options, nested lists, tuples, closures, aliasing, words, exact numbers, dates, built-ins) in four surroundings; every way of giving a collection a second name, changing it through one and reading both; every way of binding a name again in an inner block",
     "Tests run chosen programs; a wrong interpretation shows up only for particular combinations of operation, operand range, data kind and surrounding control flow.",
     [C+"interpreter.rs", C+"vm/machine.rs", C+"vm/compiler.rs", C+"semantics/arith.rs", C+"semantics/collections.rs", C+"semantics/builtins.rs"],
     [("tree walker", C+"interpreter.rs"), ("bytecode compiler", C+"vm/compiler.rs"), ("bytecode machine", C+"vm/machine.rs"), ("shared operations", C+"semantics/")],
     "h_compile", "exhaustive enumeration of all programs up to a bound on both real interpreters, against an independent reference evaluator for the core language",
     "Complete up to the bound. The reference evaluator covers integers, booleans, lists, functions and control flow; for the other data the two interpreters are compared with each other.",
     observe=["output lines and error of each run"], hook=False)
prop("P08", "Optimisation never changes what a program does",
     "Whatever optimisation level is chosen, a program prints the same lines and stops with the same error, or completes, as with all optimisation off. This holds for every way of changing a variable, list, map or record between two reads of it, in straight-line code, loops, branches and functions.",
     ["programs", "configurations"], "all read-write-read, write-read and read-write words over 39 ways of writing and 33 ways of reading, in four surroundings; all one- and two-statement bodies of 19 data worlds in three surroundings; all core statements in seven surroundings; every filling of 12 templates shaped for the single rewrites; names bound again in inner blocks, arms and loops; all two-operator expressions; four optimisation levels",
     "Tests check that known patterns are optimised and that sample programs still print the same; an unsound rewrite needs the particular write between two particular reads.",
     [C+"optimize/licm.rs", C+"optimize/gvn.rs", C+"optimize/abstract_interp.rs", C+"optimize/propagate.rs", C+"optimize/dce.rs", C+"optimize/fold.rs", C+"optimize/closed_form.rs", C+"optimize/deforest.rs", C+"optimize/float_induction_sr.rs", C+"optimize/affine_scalarize.rs", C+"optimize/mod.rs"],
     [("loop-invariant code motion", C+"optimize/licm.rs"), ("common subexpressions", C+"optimize/gvn.rs"), ("range facts", C+"optimize/abstract_interp.rs"), ("pass pipeline", C+"optimize/mod.rs")],
     "h_compile", "exhaustive enumeration of programs up to a bound, each run at every optimisation level and compared",
     "Complete up to the bound; the unoptimised run is the reference (itself checked by P07).",
     observe=["output lines and error of each run at each level"], hook=False)
J = "crates/logicaffeine_jit/src/lib.rs"
prop("P09", "Native code does what the bytecode does, also when it has to give up",
     "Loops and functions hot enough to be compiled to machine code print the same lines and stop with the same error as when interpreted. When native code meets something it cannot handle in the middle of a run (overflow, a failing access, a changed or shared list, an exit from the loop), no effect is lost, repeated or applied to another variable's data.",
     ["programs", "fault_sequences"], "all one- and two-statement bodies from a core alphabet and 12 data worlds, and all work-event-work words over 22 pieces of work and 17 rare events at a late iteration, in hot loops and hot functions (130 and 230 iterations), and hot inner loops, in place and in a function over its list parameters, that later meet other bounds or lists, with and without optimisation",
     "Tests run chosen hot loops; wrong hand-over needs an event after native code has run for a while, combined with particular writes before it.",
     [J, "crates/logicaffeine_forge/src/jit.rs", C+"vm/machine.rs", C+"vm/native_tier.rs"],
     [("region compilation", J), ("machine code emission", "crates/logicaffeine_forge/src/jit.rs"), ("entry guards, rollback and resumption", C+"vm/machine.rs")],
     "h_compile", "exhaustive enumeration of hot programs up to a bound, native run against interpreted run; every event at a fixed late iteration",
     "Complete up to the bound; events occur at one iteration (117) after native code took over at 100.",
     observe=["output lines and error of each run"], hook=False)
F = "crates/logicaffeine_proof/src/"
prop("P12", "Every satisfiability verdict is right and comes with a certificate that checks",
     "For any set of clauses, every decision procedure of the proof engine that answers says satisfiable exactly when some assignment satisfies all clauses; the models it returns satisfy them and the refutations it returns are accepted by the independent checkers. Assumptions, preprocessing, symmetry and counting do not change the answer.",
     ["inputs", "configurations"], "all clause sets over 2 variables, all sets of up to 5 clauses over 3 variables and 4 ternary clauses over 4, raw clause lists with repeated, opposite and empty clauses, and all one- and two-edit neighbours of structured families (pigeonhole, parity, counting, colouring, ordering ...), each given to 27 deciders, all pairs of assumptions, and the counting, optimisation and equivalence questions",
     "Tests use chosen formulas, mostly the families each procedure was built for; a wrong verdict needs a formula just outside the recognised family, a repeated or tautological clause, or a particular order of reductions.",
     [F+"cdcl.rs", F+"sat.rs", F+"solve.rs", F+"sym_break.rs", F+"inprocess.rs"],
     [("conflict-driven search", F+"cdcl.rs"), ("specialist routing", F+"solve.rs"), ("refutation checking", F+"rup.rs")],
     "h_proof", "exhaustive enumeration of all clause sets up to a bound on every real decider, against a complete list of assignments",
     "Complete up to the bound; neighbours of the structured families are enumerated in order up to a cap per family.",
     observe=["verdict, model and refutation of each decider"], hook=False)
prop("P13", "Proof checkers accept no false certificate and reject no required one",
     "A certificate of any kind (clausal proof steps with their text formats, implication-graph and Horn derivations, parity and modular combinations, matching and Hall sets, scheduling and register-pressure witnesses, pseudo-Boolean derivations, cardinality encodings) is accepted only if what it claims is true, and no malformed certificate crashes a checker. The engines that build such certificates always answer, rightly, and their own certificates are accepted.",
     ["inputs"], "all clausal proof scripts of up to 2 steps over all small clause sets, every token mutation of proof texts, all small 2-literal, Horn, parity and modular systems with all candidate witnesses including repeated and out-of-range entries, all small bipartite graphs, intervals and pseudo-Boolean constraints",
     "Tests feed checkers certificates their own engines wrote and a few broken ones; a hole needs a certificate nobody's engine writes, with repeated, empty or out-of-range parts.",
     [F+"pr.rs", F+"proof.rs", F+"proof_emit.rs", F+"rup.rs", F+"twosat.rs", F+"hornsat.rs", F+"xorsat.rs", F+"xor_engine.rs", F+"modp.rs", F+"modm.rs", F+"matching.rs", F+"interval_sched.rs", F+"register_alloc.rs", F+"pseudo_boolean.rs", F+"cardinality.rs"],
     [("proof step checking", F+"pr.rs"), ("combinatorial witnesses", F+"matching.rs"), ("linear combinations", F+"xorsat.rs")],
     "h_proof", "exhaustive enumeration of instances together with all candidate certificates up to a bound, judged by complete search",
     "Complete up to the bound.",
     observe=["verdict of each checker on each certificate"], hook=False)
V = "crates/logicaffeine_verify/src/"
prop("P14", "Safety, liveness and equivalence verdicts on transition systems are right",
     "When a model-checking engine calls a transition system safe, no bad state is reachable from an initial state; when it calls it unsafe, one is, and the trace it gives is a real execution ending in a bad state. Invariants given hold initially, are closed under steps and imply the property; liveness and specification-equivalence verdicts are likewise right, and engines given enough depth do answer.",
     ["inputs", "configurations"], "all transition relations, initial sets and properties over two state bits (up to renaming), each given to bounded search, induction, frame-based, interpolation-based and abstraction-refinement engines at several bounds, and to liveness and specification comparison",
     "Tests run counters and small pipelines; a wrong verdict needs a bad state deeper than the bound, a dead end, or an initial state outside the abstraction.",
     [V+"ic3.rs", V+"kinduction.rs", V+"interpolation.rs", V+"abstraction.rs", V+"liveness.rs", F+"bmc.rs"],
     [("induction", V+"kinduction.rs"), ("frame-based search", V+"ic3.rs"), ("abstraction refinement", V+"abstraction.rs"), ("bounded search", F+"bmc.rs")],
     "h_proof", "exhaustive enumeration of all two-bit transition systems on the real engines, against explicit reachability",
     "Complete over the representatives; liveness is judged by the first occurrence of a good state (recurrence is a known finding).",
     observe=["verdict, trace and invariant of each engine"], hook=False)
K = "crates/logicaffeine_kernel/src/"
prop("P15", "The proof kernel accepts no proof of a false statement",
     "Whatever closed term is offered, the kernel answers, and if it gives the term a type that states something about small numbers then that statement is true, the type is itself well formed, and evaluating the term keeps its type. Data type declarations are accepted only if the type occurs strictly positively and fits its universe, proofs are taken apart into data only when their content is unique, accepted recursive functions stop, and the ordering of universe levels holds for every value of the level variables.",
     ["programs", "inputs"], "all terms of up to 3 binders over two re-used names with some 500 bodies each; all declarations of up to two constructors over 12-14 field types, plain, indexed and parameterised, in both sorts, each with all eliminations and all recursive calls from an alphabet of arguments, wrappers and name clashes, single and mutual; all pairs of level expressions of depth 2",
     "Tests check chosen proofs and a handful of known paradoxes; a hole needs a particular re-use of a name, a field type nobody writes, or an extra argument at the right place.",
     [K+"type_checker.rs", K+"termination.rs", K+"positivity.rs", K+"reduction.rs", K+"term.rs", K+"recheck.rs", K+"context.rs"],
     [("typing and conversion", K+"type_checker.rs"), ("termination guard", K+"termination.rs"), ("strict positivity", K+"positivity.rs"), ("universe order", K+"term.rs")],
     "h_kernel", "exhaustive enumeration of terms and declarations up to a bound on the real kernel, judged by truth in the naturals, an own evaluator, an own positivity and elimination rule, and all valuations of levels",
     "Complete up to the bound; terms with holes left for elaboration are out of scope.",
     observe=["accepted or rejected, inferred type and normal form of each term"], hook=False)
prop("P16", "The kernel's arithmetic procedures conclude only true statements",
     "A built-in decision procedure for integers and equality (ring identities, linear arithmetic, integer arithmetic with rounding, congruence, simplification, computation, and the one that tries them all) concludes a statement only if the statement holds for all integers and all functions named in it, whether the conclusion is asked for or drawn from a certificate made up by hand. This includes numbers at and beyond the limits of the machine.",
     ["inputs"], "all comparisons and identities of two operands from an alphabet of expressions up to depth 2 over two variables and small, negative and limit constants, all implications with one or two hypotheses over smaller alphabets, equations as hypotheses, and uninterpreted functions",
     "Tests ask for statements each procedure should prove; a wrong conclusion needs a false statement near the edge, as with overflow, a dropped strictness, or a hypothesis used in the wrong direction.",
     [K+"reduction.rs", K+"ring.rs", K+"lia.rs", K+"omega.rs", K+"cc.rs", K+"simp.rs"],
     [("conclusions of certificates", K+"reduction.rs"), ("linear arithmetic", K+"lia.rs"), ("integer arithmetic", K+"omega.rs"), ("congruence", K+"cc.rs")],
     "h_kernel", "exhaustive enumeration of statements up to a bound on the real procedures, judged by evaluation at all points of a grid",
     "Complete over the alphabet; a false statement that holds on the whole grid would be missed. Rewriting with equations that define a variable by a larger expression over itself is left out, as it has no end.",
     observe=["conclusion drawn by each procedure"], hook=False)
