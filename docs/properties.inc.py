SYN = ["src/synthesisAlgorithm.cpp", "src/synthesisContextBasics.cpp", "src/gr1context.hpp", "src/main.cpp"]
TESTS = "The test suite compares the one-line verdict of ten fixed example specifications and runs CUDD's own 'make check' on fixed inputs; "

prop("S01", "Realizability verdict is correct under every memory-management schedule",
 "For every well-formed specification, the verdict that slugs prints (realizable or unrealizable) is the winner of the GR(1) game that the specification describes: with standard initial semantics, for every initial input allowed by the assumptions there must be an initial output from which the system wins, and with --sysInitRoboticsSemantics every position satisfying all initial conditions must be winning. Exactly one verdict is printed, it is the same for every mode that prints one without changing the game, and it does not depend on when garbage collection, variable reordering or loss of cached results happens.",
 ["inputs", "schedules", "configurations"], "all specifications, all option sets that keep the game, all schedules of garbage collections, reorderings, cache losses, table sizes and heap layouts",
 TESTS + "they sample ten games under the one schedule that the default table sizes produce, in which hardly any collection or reordering happens.",
 SYN + ["src/extensionRoboticsSemantics.hpp", "src/extensionFixedPointRecycling.hpp", "src/extensionBiasForAction.hpp", "lib/cudd-3.0.0/cudd"],
 [("nested fixed point", "GR1Context::computeWinningPositions"), ("initial condition check", "GR1Context::checkRealizability and the robotics variant"), ("fixed-point recycling", "XFixedPointRecycling::computeWinningPositions"), ("garbage collection and reordering", "cuddGarbageCollect, Cudd_ReduceHeap called from cuddUniqueInter")],
 ["standard error: RESULT line"])

prop("S02", "Explicit strategies win against every environment",
 "Whenever slugs prints an explicit-state strategy (text or JSON, to a file or to standard output, with or without --sysInitRoboticsSemantics, --biasForAction or --fixedPointRecycling), the output is well-formed and running it against any environment that respects the assumptions never deadlocks, never violates the guarantees' initial or safety parts, answers every allowed input exactly once, and satisfies every liveness guarantee infinitely often on every run that satisfies all liveness assumptions infinitely often. Every required initial situation has an initial strategy state, and no strategy is printed for an unrealizable specification.",
 ["inputs", "schedules", "histories", "configurations"], "all realizable specifications, all infinite environment behaviours, all memory-management schedules",
 TESTS + "no strategy is ever executed against an environment by them.",
 ["src/extensionExtractExplicitStrategy.hpp", "src/synthesisAlgorithm.cpp", "src/extensionBiasForAction.hpp", "src/extensionFixedPointRecycling.hpp"],
 [("strategy extraction", "XExtractExplicitStrategy::computeAndPrintExplicitStateStrategy"), ("recorded winning moves", "strategyDumpingData filled by computeWinningPositions")],
 ["standard output or output file"], [("strategyDumpingData", "moves recorded per goal during the fixed point", "gr1context.hpp")])

prop("S07", "Output faults are never silent",
 "If slugs exits with status 0, everything it was asked to produce (strategy file, text on standard output) has been handed over completely and equals the fault-free output; if opening, writing or closing an output fails or the disk is full, slugs exits with a non-zero status and an error message and does not crash. Short and interrupted writes are retried and are not failures. A stale, longer previous output file never leaves residue.",
 ["fault_sequences", "inputs", "configurations"], "all positions of failing, short or interrupted writes, opens and closes and all disk-full points, all output-producing modes",
 TESTS + "no test makes a write fail.",
 ["src/main.cpp", "src/extensionExtractExplicitStrategy.hpp", "src/extensionExtractSymbolicStrategy.hpp", "src/extensionPermissiveExplicitStrategy.hpp", "src/extensionExtractExplicitCounterstrategy.hpp", "src/BFAbstractionLibrary/BFCuddManager.cpp", "lib/cudd-3.0.0/dddmp"],
 [("output stream checks", "execute() of the extraction extensions"), ("BDD file writer", "BFBddManager::writeBDDToFile"), ("standard output check", "main")],
 ["exit status", "standard error", "output file", "standard output"])

prop("S08", "No result is computed from a partially read input",
 "If the specification or an auxiliary input file cannot be opened or read to its end (missing file, directory, read error at any point), slugs exits with a non-zero status and an error message, prints no verdict that differs from that of the complete input, and does not crash. Short and interrupted reads do not change any result.",
 ["fault_sequences", "inputs", "configurations"], "all positions of failing, short or interrupted reads and opens of every input file, all modes",
 TESTS + "all input files are read without a fault.",
 ["src/synthesisContextBasics.cpp", "src/extensionAnalyzeInitialPositions.hpp", "src/extensionIROSfastslow.hpp", "src/extensionTwoDimensionalCost.hpp", "src/extensionNondeterministicMotion.hpp"],
 [("specification readers", "GR1Context::init and the init functions of the extensions"), ("cost file reader", "XTwoDimensionalCost::init")],
 ["exit status", "standard error", "standard output", "output file"])

prop("S09", "Memory exhaustion never yields a wrong result",
 "If allocations fail at any point (all from some point on, a single large one, or a random share of the large ones), slugs still ends within a bounded number of steps, never prints a verdict different from the one of the undisturbed run, and exits with status 0 only if its complete output is that of the undisturbed run. Ending with an error or abnormally is allowed.",
 ["fault_sequences", "inputs", "configurations"], "all points of allocation failure, all modes",
 TESTS + "memory never runs out in them.",
 SYN + ["src/BFAbstractionLibrary/BFCudd.h", "lib/cudd-3.0.0/cudd", "lib/cudd-3.0.0/util/safe_mem.c"],
 [("allocation failure handling", "cuddUniqueInter, cuddResizeTable, Cudd_OutOfMem, MMout_of_memory"), ("node handles", "BFBdd constructors")],
 ["exit status", "standard error: RESULT line", "standard output", "output file"])

prop("S10", "Output does not depend on memory layout or manager schedule",
 "For the same input files, options and random seed, the textual results of slugs (verdict, explicit strategies, counterstrategies, permissive strategies, interactive sessions, analyses) are byte-identical whatever addresses the allocator returns, whatever fresh memory contains, however large the manager's tables are and whenever garbage collection, cache loss or reordering happens; only the text of stored decision diagrams and the choice of listed cubes may follow the variable order.",
 ["schedules", "inputs", "configurations"], "all heap layouts and fill patterns, all schedules of garbage collections, reorderings and cache losses, all modes",
 TESTS + "each test runs under a single layout and schedule.",
 SYN + ["src/extensionExtractExplicitStrategy.hpp", "src/extensionInteractiveStrategy.hpp", "src/extensionAnalyzeAssumptions.hpp", "src/extensionInterleave.hpp", "src/extensionWeakenSafetyAssumptions.hpp", "src/extensionComputeInterestingRunOfTheSystem.hpp", "lib/cudd-3.0.0/cudd"],
 [("state numbering keyed by node hash", "getHashCode lookups in the explicit extraction"), ("uninitialised data", "all extensions"), ("garbage collection and reordering", "cuddGarbageCollect, Cudd_ReduceHeap")],
 ["exit status", "standard output", "output file", "standard error: RESULT line"])

prop("S03", "Symbolic strategies win against every environment",
 "Whenever slugs stores a symbolic strategy (with --symbolicStrategy or --simpleSymbolicStrategy, also with --simpleRecovery, --IROSfastslow, --biasForAction or --fixedPointRecycling), the decision diagram in the file, read together with the variable list in its header, describes for every winning position and every current goal at least one move for every input the assumptions allow, only safe moves to winning positions, and only correct goal bookkeeping (the goal advances cyclically exactly on transitions that satisfy it). Every infinite run that follows the stored diagram, however its choices are resolved, and satisfies all liveness assumptions infinitely often satisfies every liveness guarantee infinitely often. With recovery, a move also exists for an input the assumptions forbid whenever some safe move to a winning position does; nothing is stored for an unrealizable specification.",
 ["inputs", "schedules", "histories", "configurations"], "all realizable specifications, all infinite environment behaviours, all resolutions of choices, all memory-management and reordering schedules",
 TESTS + "no stored strategy is ever read back or executed by them.",
 ["src/extensionExtractSymbolicStrategy.hpp", "src/BFAbstractionLibrary/BFCuddManager.cpp", "lib/cudd-3.0.0/dddmp", "src/synthesisAlgorithm.cpp"],
 [("strategy diagram", "XExtractSymbolicStrategy::computeAndPrintSymbolicStrategy"), ("diagram writer", "BFBddManager::writeBDDToFile, Dddmp_cuddBddStore")],
 ["output file"], [("_jx_b*, strat_type", "encoded goal number and goal-transition flag", "extensionExtractSymbolicStrategy.hpp")])

prop("S04", "Counterstrategies win against every system",
 "Whenever slugs prints an explicit-state counterstrategy, the environment choosing inputs as it says never violates the assumptions' initial or safety parts, every output the system may safely choose is answered, a state is said to be a dead end for the system exactly if no safe output exists there, and on every infinite run all liveness assumptions hold infinitely often while some liveness guarantee holds only finitely often. Its initial states cover a winning choice of the environment among the initial situations (every safe initial output for some initial input, or one initial position with --sysInitRoboticsSemantics), and no counterstrategy is printed for a realizable specification.",
 ["inputs", "schedules", "histories", "configurations"], "all unrealizable specifications, all infinite system behaviours, all memory-management schedules",
 TESTS + "no counterstrategy is ever computed by them.",
 ["src/extensionCounterstrategy.hpp", "src/extensionExtractExplicitCounterstrategy.hpp"],
 [("environment fixed point", "XCounterStrategy::computeWinningPositions"), ("extraction", "XExtractExplicitCounterStrategy::computeAndPrintExplicitStateStrategy")],
 ["standard output or output file"])

prop("S05", "Interactive sessions play the winning strategy and tell the truth",
 "In every interactive session, whatever sequence of commands the client sends and however its bytes are split, each command is answered by exactly its own response followed by a prompt, every reported fact about a position, a transition, a completion of forced values or the propositions is true in the game of the specification, and every move offered from a winning position takes over the client's input, is safe, stays winning and reports correct goal numbers. No sequence of moves offered for the winner (realizable: XMAKETRANS, XMAKETRANSRANDOM, MOVE cycling through the goals, XSTRATEGYTRANSITION; unrealizable: XSTRATEGYTRANSITION) can be continued to a loop that loses the game. Requests that cannot be fulfilled are answered by the documented error words and leave the session usable.",
 ["inputs", "schedules", "histories", "configurations"], "all specifications, all command sequences of an adaptive client, all splits of standard input into reads, all random choices of the strategy",
 TESTS + "no interactive session is ever run by them.",
 ["src/extensionInteractiveStrategy.hpp", "src/synthesisAlgorithm.cpp"],
 [("command loop", "XInteractiveStrategy::execute"), ("positional strategies per goal", "positionalStrategiesForTheIndividualGoals"), ("choice of a move", "determinize, determinizeRandomized")],
 ["standard output of the session"], [("currentPosition, currentLivenessGuarantee", "state of the simplified command interface", "extensionInteractiveStrategy.hpp")])

prop("S06", "Interactive sessions survive hostile input",
 "Whatever bytes arrive on standard input in whatever chunks, an interactive session never crashes, never hangs and never reads more than it was given: it ends at QUIT, EXIT or the end of the input, with a non-zero status only for a documented unsupported request and then with an error message. Unknown commands and unparsable values do not damage the session: commands that follow once the stream is in step again are answered exactly as in a fresh session.",
 ["inputs", "schedules", "fault_sequences"], "all byte sequences on standard input, all chunkings and end-of-file points",
 TESTS + "no interactive session is ever run by them.",
 ["src/extensionInteractiveStrategy.hpp", "src/main.cpp"],
 [("command loop", "XInteractiveStrategy::execute")], ["exit status", "standard output", "standard error"])

prop("S11", "Recovery transitions keep the controller winning after assumption violations",
 "With --simpleRecovery, an explicit strategy contains a state for every winning position that satisfies the system's initial conditions, and in every state it answers every input, allowed by the environment safety assumptions or not, for which some safe output leads to a winning position, and answers no other. All its transitions obey the system safety guarantees and stay within winning positions, however often and whenever the environment breaks its safety assumptions. If the environment stops violating them, the controller satisfies every liveness guarantee infinitely often on every run in which all liveness assumptions hold infinitely often.",
 ["inputs", "schedules", "fault_sequences", "histories"], "all realizable specifications, all sequences of assumption violations of the environment, all memory-management schedules",
 TESTS + "no controller is executed against an environment, let alone one that violates its assumptions.",
 ["src/extensionExtractExplicitStrategy.hpp", "src/gr1context.hpp"],
 [("recovery transitions", "XExtractExplicitStrategy with oneStepRecovery")], ["standard output or output file"])

prop("S12", "Fast/slow synthesis keeps intermediate positions safe",
 "With --IROSfastslow, the verdict is that of the game in which a transition is only safe if, in addition, the intermediate position reached when inputs and fast outputs have already changed but the slow outputs have not is itself a position that some safe transition leaves and some safe transition enters. An explicit strategy printed in this mode wins that game against every environment that respects the assumptions.",
 ["inputs", "schedules", "histories", "configurations"], "all specifications with a fast-output section, all environment behaviours, all memory-management schedules",
 TESTS + "the mode is never run by them.",
 ["src/extensionIROSfastslow.hpp", "src/extensionExtractExplicitStrategy.hpp"],
 [("changed fixed point", "XIROSFS::computeWinningPositions"), ("section [OUTPUT_FAST] / fast outputs", "XIROSFS::init")], ["RESULT line", "standard output or output file"])

prop("S13", "Interleaving analysis lists exactly the outputs that can be set early",
 "The interleaving analysis goes through the outputs in the order of their declaration and adds each one to the set of outputs to be set before the input is known exactly if the specification stays realizable with the set so extended; it lists this set, says so if it is empty, and says so if the specification is unrealizable to begin with.",
 ["inputs", "schedules"], "all specifications, all memory-management schedules",
 TESTS + "the mode is never run by them.",
 ["src/extensionInterleave.hpp", "src/variableManager.cpp"],
 [("quantifier order", "XInterleave::computeWinningPositions"), ("re-typing of variables", "XInterleave::execute, computeVariableInformation")], ["standard output"])

prop("S14", "Permissive strategies are winning however their choices are resolved",
 "With --extractExplicitPermissiveStrategy, the printed strategy has a state for every winning position, every state answers every input the assumptions allow, all its transitions are safe and stay winning, and every infinite run through it in which all liveness assumptions hold infinitely often satisfies every liveness guarantee infinitely often, no matter which of the permitted outputs is chosen in each step. No strategy is printed for an unrealizable specification.",
 ["inputs", "schedules", "histories"], "all realizable specifications, all environment behaviours and all resolutions of the choices, all memory-management schedules",
 TESTS + "the mode is never run by them.",
 ["src/extensionPermissiveExplicitStrategy.hpp"], [("extraction", "XExtractPermissiveExplicitStrategy::computeAndPrintExplicitStateStrategy")], ["standard output or output file"])

prop("S15", "Cooperative strategies never block the environment's liveness",
 "With --cooperativeGR1Strategy, a printed explicit strategy wins like an ordinary one, never moves to a position in which the assumptions allow no next input, and from each of its states the environment can still act in a way that satisfies all liveness assumptions infinitely often. The verdict says realizable exactly if, from the required initial situations, the system can play within the largest set of positions that allows it to do so while always leaving the environment such a way.",
 ["inputs", "schedules", "histories"], "all specifications, all environment behaviours, all memory-management schedules",
 TESTS + "the mode is never run by them.",
 ["src/extensionCooperativeGR1Strategy.hpp"], [("changed fixed point", "XCooperativeGR1Strategy::computeWinningPositions")], ["RESULT line", "standard output or output file"])

prop("S16", "A run writes nothing but the output file it was asked for",
 "In every mode, with whatever input and whatever read, write or allocation fails, a run of slugs creates, changes or removes no file other than the output file named on the command line; the one exception is a report of conflicting costs whose file name the error message announces. Input files are never changed.",
 ["inputs", "fault_sequences", "configurations"], "all specifications, all modes, all read, write and allocation faults, all interactive command sequences",
 TESTS + "they do not look at the file system.",
 ["src/extensionInteractiveStrategy.hpp", "src/extensionAnalyzeInitialPositions.hpp", "src/extensionAnalyzeAssumptions.hpp", "src/extensionInterleave.hpp", "src/extensionExtractSymbolicStrategy.hpp", "src/main.cpp"],
 [("file output", "every std::ofstream, dddmp store and dot dump in the sources")], ["file system"])

prop("S17", "Controllers for nondeterministic motion are judged correctly",
 "With --nonDeterministicMotion, the verdict that slugs prints is the winner of this game: in every step the environment chooses an allowed input, the controller chooses the control and the other outputs, the robot abstraction must list at least one outcome for this control, and the environment chooses the next motion state among all listed outcomes; besides the stated assumptions, the environment must let the motion state change infinitely often if controls that can change it are used forever. The robot abstraction and the region diagrams are read from decision diagram files with any variable order, and the initial conditions count as in the other modes (with --sysInitRoboticsSemantics, all motion states and other outputs must be winning).",
 ["inputs", "schedules", "configurations"], "all specifications with motion, control and other outputs, all robot abstractions and region diagrams, all orders of the diagram files, all memory-management schedules",
 TESTS + "the mode is never run by them.",
 ["src/extensionNondeterministicMotion.hpp", "src/BFAbstractionLibrary/BFCuddManager.cpp", "src/variableManager.cpp", "lib/cudd-3.0.0/dddmp/dddmpLoad.c"],
 [("three-way game", "XNonDeterministicMotion::checkRealizability"), ("motion fairness", "addAutomaticallyGeneratedLivenessAssumption"), ("reading diagrams", "BFBddManager::readBDDFromFile")], ["standard error: RESULT line"])

prop("S18", "The interesting run is a real, winning and goal-directed run",
 "With --computeInterestingRunOfTheSystem, the printed run starts in a winning initial position, every step obeys the safety assumptions and guarantees and stays winning, the goal numbers and the marks for satisfied goals are correct, and the run ends early only in a position in which the assumptions allow no next input. From a position from which the environment can force its current liveness assumption, every step brings it closer to doing so. The steps cannot be composed to a loop in which all liveness assumptions hold but some liveness guarantee does not.",
 ["inputs", "schedules", "histories"], "all specifications, all random choices, all memory-management schedules",
 TESTS + "the mode is never run by them.",
 ["src/extensionComputeInterestingRunOfTheSystem.hpp"], [("run generation", "XComputeInterestingRunOfTheSystem::execute")], ["standard output"])

prop("S19", "Abstract winning traces show a forced win",
 "With --computeAbstractWinningTrace, a trace for a player is printed exactly if that player can drive the other one into a safety dead end in finitely many steps from the initial situations and one of them satisfies all initial conditions. Its first round is one initial position, it has as many rounds as the shortest forced win, and from the first round the player can force the play through the printed abstract positions to the win (for the environment with the printed last input). If a forced win exists only from situations that violate the initial guarantees, this is said instead.",
 ["inputs", "schedules", "histories"], "all specifications, all behaviours of the other player, all memory-management schedules",
 TESTS + "the mode is never run by them.",
 ["src/extensionAbstractWinningTraceGenerator.hpp"], [("attractor and generalisation", "XAbstractWinningTraceGenerator::computeAbstractStrategyTrace")], ["standard output"])

prop("S20", "The analysis of initial positions counts and lists correctly",
 "With --analyzeInitialPositions, all printed numbers of positions and initial inputs are the true ones, restricted to the marked variable limits and, with --restrictToReachableStates, to the positions that are reachable from the initial ones. Every listed cube contains at least one and only such positions that belong to its heading, no cube is listed twice, the first one is a largest one, and TRUE or (none) is printed exactly if it applies.",
 ["inputs", "schedules"], "all specifications, all memory-management and reordering schedules",
 TESTS + "the mode is never run by them.",
 ["src/extensionAnalyzeInitialPositions.hpp", "src/BFAbstractionLibrary/BFCuddMintermEnumerator.cpp"], [("counting", "XAnalyzeInitialPositions::execute"), ("cube enumeration", "BFMintermEnumerator")], ["standard output"])

prop("S21", "The safety/liveness interaction analysis is correct",
 "With --analyzeSafetyLivenessInteraction, each of the sixteen rows states the winner of the game in which exactly the marked parts of the specification are kept, in both initial semantics. The statement about non-strict implication is correct for the game in which breaking a safety guarantee loses only if the environment keeps all its assumptions forever, and the number of steps within which the safety-only specification can be falsified, or that it cannot be, is the true one.",
 ["inputs", "schedules", "configurations"], "all specifications, all subsets of parts, all memory-management schedules",
 TESTS + "the mode is never run by them.",
 ["src/extensionAnalyzeSafetyLivenessInteraction.hpp", "src/synthesisAlgorithm.cpp"], [("matrix", "XAnalyzeSafetyLivenessInteraction::execute")], ["standard output"])

prop("S22", "The assumption analysis classifies every assumption correctly",
 "With --analyzeAssumptions, an analysis is made exactly for realizable specifications, and each safety and liveness assumption is classified by comparing the game with the one in which only this assumption is dropped: crucially needed if that one is unrealizable, otherwise making more positions winning (with or without an effect on initial positions), otherwise redundant, otherwise making exactly the listed goals easier to reach, otherwise superfluous. Names given in the specification are used.",
 ["inputs", "schedules", "configurations"], "all specifications, all memory-management schedules",
 TESTS + "the mode is never run by them.",
 ["src/extensionAnalyzeAssumptions.hpp"], [("reactive distances", "XAnalyzeAssumptions::computeReactiveDistancesAndWinningPositions"), ("classification", "XAnalyzeAssumptions::execute")], ["standard output"])

prop("S23", "Weakened safety assumptions keep the specification realizable",
 "For a realizable specification, the clauses printed by --computeWeakenedSafetyAssumptions are implied by the original safety assumptions and talk about current values and next inputs only, and with them in place of the original assumptions the specification is still realizable. No literal can be removed from a clause without changing the assumptions, no mentioned proposition can be quantified away without losing realizability, and no clause is printed if none is needed.",
 ["inputs", "schedules"], "all realizable specifications, all memory-management schedules",
 TESTS + "the mode is never run by them.",
 ["src/extensionWeakenSafetyAssumptions.hpp"], [("quantification, clause extraction and filtering", "XComputeWeakenedSafetyAssumptions::execute")], ["standard output"])

prop("S24", "The CNF form is equivalent to the specification",
 "With --computeCNFFormOfTheSpecification, every proposition is declared once with distinct numbers for its current and next value, the printed clauses for initial conditions, safety assumptions and safety guarantees are equivalent to those of the specification, and each printed liveness condition holds infinitely often on exactly the same infinite runs as the corresponding one of the specification.",
 ["inputs", "schedules", "histories"], "all specifications, all infinite runs, all memory-management schedules",
 TESTS + "the mode is never run by them.",
 ["src/extensionComputeCNFFormOfTheSpecification.hpp"], [("clause extraction", "XComputeCNFFormOfTheSpecification::execute")], ["standard output"])

prop("S25", "Strategies of the two-dimensional cost mode are safe",
 "With --twoDimensionalCost, the verdict is that of ordinary synthesis, and a strategy is written exactly if the specification is realizable. Every state of it is a winning position with a goal; every transition keeps the system safety guarantees, leads to a listed state, answers an input that the assumptions allow, no input twice, and moves on to the next goal exactly when goals are reached. If the specification has no liveness assumptions, the strategy moreover covers the allowed initial inputs, answers every allowed input, and reaches every goal infinitely often in every run.",
 ["inputs", "schedules", "histories"], "all specifications, all cost files, all memory-management schedules",
 TESTS + "the mode is never run by them.",
 ["src/extensionTwoDimensionalCost.hpp", "src/extensionExtractExplicitStrategy.hpp"], [("cost-ordered fixed points", "XTwoDimensionalCost::checkRealizability"), ("strategy printing", "computeAndPrintExplicitStateStrategy")], ["standard error: RESULT line", "standard output or output file"],
 note="With liveness assumptions the mode loses initial positions, answers and progress (three recorded findings, see DESIGN.md); the part of the statement on answering and progress is therefore restricted to specifications without them.")

prop("S26", "Damaged input files are rejected or read as they stand",
 "If a specification, cost file or decision diagram file is damaged before slugs reads it (cut short, bits or blocks changed, lost, doubled or moved, numbers or words replaced), slugs does not crash, corrupt memory or hang: it either ends with a non-zero status, an error message and no verdict, or accepts the file. If it accepts a damaged specification, the verdict is that of the game which the damaged text describes. A decision diagram file that ends before its end mark is never accepted.",
 ["fault_sequences", "inputs", "configurations"], "all damages of all input files in all modes",
 TESTS + "no test passes a damaged file.",
 ["src/synthesisContextBasics.cpp", "src/extensionNondeterministicMotion.hpp", "src/extensionTwoDimensionalCost.hpp", "src/extensionIROSfastslow.hpp", "lib/cudd-3.0.0/dddmp/dddmpLoad.c", "src/BFAbstractionLibrary/BFCuddManager.cpp"],
 [("formula and section reader", "parseBooleanFormulaRecurse, init"), ("diagram loader", "DddmpCuddDdArrayLoad, DddmpBddReadHeader")], ["exit status", "standard error"],
 note="In the sessions of the interactive mode a verdict may precede the error. Damaged cost and diagram files that are accepted are only required not to crash the run.")

CT = "CUDD's own tests run one fixed input script per library part, with one order of operations, no memory pressure and no failing resource; "
CNOTE = "Seeded sampling of operation sequences on one manager with up to 6 variables (thorough 7), small tables and adversarial garbage collection, cache flushing, table resizing and reordering at chosen node creations. The oracle is the full table of each function over all assignments, computed from the operands. The library code is the real one; allocator, clock and random numbers are simulated. Clean batches show the property for the executions reached only. Operations left out are listed in DESIGN.md."
prop("C01", "BDD operations compute the right function",
 "Every operation of the bundled CUDD library on BDDs that is documented to compute a particular function (Boolean connectives, if-then-else, quantification and relational products, composition, substitution and permutation, cofactors and care-set simplification, interpolation, comparison functions, support, primes and cubes, minterm picking, under- and over-approximation, decomposition, clipping, transfer between managers, counting, evaluation and the structural tests) returns exactly that function or one allowed by its documentation, for all operands and variable orders. Equal functions always have the same handle. This holds no matter when garbage collection, cache replacement, table resizing and automatic reordering happen, also in the middle of the operation.",
 ["inputs", "schedules", "histories"], "all sequences of operations, all operands, all variable orders, all garbage collection, cache and reordering schedules",
 CT + "a wrong cache key, a missing reference or a wrong retry after reordering shows only under particular schedules.",
 ["lib/cudd-3.0.0/cudd/cuddBddIte.c", "lib/cudd-3.0.0/cudd/cuddBddAbs.c", "lib/cudd-3.0.0/cudd/cuddAndAbs.c", "lib/cudd-3.0.0/cudd/cuddCompose.c", "lib/cudd-3.0.0/cudd/cuddGenCof.c", "lib/cudd-3.0.0/cudd/cuddCof.c", "lib/cudd-3.0.0/cudd/cuddPriority.c", "lib/cudd-3.0.0/cudd/cuddSat.c", "lib/cudd-3.0.0/cudd/cuddUtil.c"],
 [("recursive operators and computed table", "cuddBddIteRecur, cuddBddAndRecur, cuddBddExistAbstractRecur, cuddBddComposeRecur and their siblings"), ("retry after reordering", "do ... while (dd->reordered == 1)")], ["returned diagrams, read node by node", "returned numbers and truth values"], note=CNOTE)

prop("C02", "ADD and ZDD operations compute the right function",
 "Every covered operation of the bundled CUDD library on ADDs (arithmetic and comparison operators, if-then-else, abstraction, composition and permutation, restriction, conversion between ADDs and BDDs, thresholds, extreme values, Walsh, Hamming distance and residue functions) and on ZDDs (set operations, change, subsets, complement, covers and irredundant sums of products, conversion to and from BDDs, counting, support) returns exactly the function that it is documented to compute, and equal functions have the same handle. This holds no matter when garbage collection, cache replacement, table resizing and reordering happen, also in the middle of the operation.",
 ["inputs", "schedules", "histories"], "all sequences of operations, all operands, all variable orders, all garbage collection, cache and reordering schedules",
 CT + "they hardly look at the functions that come out.",
 ["lib/cudd-3.0.0/cudd/cuddAddApply.c", "lib/cudd-3.0.0/cudd/cuddAddIte.c", "lib/cudd-3.0.0/cudd/cuddAddAbs.c", "lib/cudd-3.0.0/cudd/cuddBridge.c", "lib/cudd-3.0.0/cudd/cuddZddSetop.c", "lib/cudd-3.0.0/cudd/cuddZddIsop.c", "lib/cudd-3.0.0/cudd/cuddZddFuncs.c", "lib/cudd-3.0.0/cudd/cuddZddPort.c"],
 [("recursive operators", "cuddAddApplyRecur, cuddAddIteRecur, cuddZddUnion, cuddZddIsop and their siblings")], ["returned diagrams, read node by node", "returned numbers and truth values"], note=CNOTE)

prop("C03", "Reordering and garbage collection change no function",
 "Whatever reordering method is requested or triggered automatically, and however operations, releases of handles, garbage collections, new variables and cache flushes alternate, every handle that is still held keeps its function, and the variable order stays a permutation in which grouped variables are adjacent and fixed groups keep their inner order. Equal functions keep equal handles, the internal tables stay consistent, every node is kept alive by exactly the references that its parents and the holders of handles have on it, and none is left when all handles are released.",
 ["schedules", "histories", "inputs"], "all sequences of operations, all reordering methods, all points at which reordering and garbage collection happen, all variable groups",
 CT + "they reorder a few fixed diagrams by a few methods.",
 ["lib/cudd-3.0.0/cudd/cuddReorder.c", "lib/cudd-3.0.0/cudd/cuddGroup.c", "lib/cudd-3.0.0/cudd/cuddSymmetry.c", "lib/cudd-3.0.0/cudd/cuddWindow.c", "lib/cudd-3.0.0/cudd/cuddLinear.c", "lib/cudd-3.0.0/cudd/cuddAnneal.c", "lib/cudd-3.0.0/cudd/cuddGenetic.c", "lib/cudd-3.0.0/cudd/cuddExact.c", "lib/cudd-3.0.0/cudd/cuddTable.c", "lib/cudd-3.0.0/cudd/cuddRef.c", "lib/cudd-3.0.0/cudd/cuddZddReord.c", "lib/cudd-3.0.0/cudd/cuddCache.c", "lib/cudd-3.0.0/mtr/mtrGroup.c"],
 [("level exchange", "cuddSwapInPlace, cuddZddSwapInPlace"), ("collection", "cuddGarbageCollect"), ("order search", "cuddSifting and its siblings")], ["functions of all held handles", "variable order", "manager tables and reference counts"], note=CNOTE)

prop("C04", "Library operations fail cleanly when a resource runs out",
 "When an allocation fails or a limit on live nodes, memory or time, or a termination callback, stops an operation of the bundled CUDD library on BDDs, the operation either returns the right result or reports failure: it does not crash, hang or return a wrong result. All handles that are held keep their functions and the manager stays consistent, and once the shortage is over, the same manager computes correct results again without any failure.",
 ["fault_sequences", "inputs", "histories"], "all allocation failures (single, repeated, permanent), node, memory and time limits and termination requests at all points of all sequences of operations with a fixed variable order",
 CT + "no test makes an allocation fail or sets a limit.",
 ["lib/cudd-3.0.0/cudd/cuddTable.c", "lib/cudd-3.0.0/cudd/cuddCache.c", "lib/cudd-3.0.0/cudd/cuddInit.c", "lib/cudd-3.0.0/cudd/cuddBddIte.c", "lib/cudd-3.0.0/cudd/cuddAPI.c"],
 [("allocation", "ddAllocate sites: cuddAllocNode, cuddRehash, cuddCacheResize"), ("error paths", "every cleanup after a failed recursive call")], ["returned results and error codes", "functions of all held handles after a failure"], note=CNOTE)

prop("C05", "Decision diagram files keep every stored function",
 "A BDD or ADD array that the bundled DDDMP library reports as stored, in text or binary form, by file name or by stream, is loaded back as exactly the stored functions: by the same or another manager with any variable order, with variables matched by id, by position, by name, by auxiliary id or by composition, and roots taken in order or by name, one at a time or as an array. Storing changes no diagram, no variable order by itself and no reference count. If opening, writing, reading or closing a file fails or the disk is full, the failure is reported, and afterwards all diagrams that are held keep their functions, every node has exactly the references of its parents and holders, and the manager stays consistent. A file that ends before its end mark is never loaded, and short reads change no result.",
 ["fault_sequences", "inputs", "histories", "configurations"], "all arrays of diagrams, all variable orders and matchings, all positions of failing, short or interrupted reads, writes, opens and closes and all disk-full points, all cut files",
 CT + "the DDDMP tests store and load a few fixed diagrams without any fault and compare the text of the files.",
 ["lib/cudd-3.0.0/dddmp/dddmpStoreBdd.c", "lib/cudd-3.0.0/dddmp/dddmpStoreAdd.c", "lib/cudd-3.0.0/dddmp/dddmpLoad.c", "lib/cudd-3.0.0/dddmp/dddmpNodeBdd.c", "lib/cudd-3.0.0/dddmp/dddmpNodeAdd.c", "lib/cudd-3.0.0/dddmp/dddmpBinary.c", "lib/cudd-3.0.0/dddmp/dddmpUtil.c"],
 [("node numbering for a store", "DddmpNumberDdNodes, DddmpUnnumberDdNodes"), ("reader", "DddmpCuddDdArrayLoad, DddmpBddReadHeader"), ("binary node code", "NodeBinaryStoreBdd, DddmpReadCode, DddmpReadInt")], ["loaded diagrams, read node by node", "return codes", "functions and reference counts of all held handles", "files left behind"],
 note="Text and binary BDD files and text ADD files with up to 6 variables (thorough 7), names without white space. CNF, BLIF, SMV and Prefix exports are not covered. The oracle is the table of each function under the chosen variable mapping. The library code is the real one; allocator, clock and files are simulated. Clean batches show the property for the executions reached only.")

prop("C06", "Managers used by different threads do not influence one another",
 "When several threads of one process each work with decision diagram managers of their own, every operation in every thread gives exactly the result that it gives when that thread runs alone: the same functions, return codes, counts and variable orders, and files that are loaded back as the functions stored by that thread. This holds for every interleaving, with preemption between any two steps of the library, and also while operations of another thread fail for lack of memory, reach a limit or are told to stop, and while managers of other threads are created, reordered and closed.",
 ["schedules", "inputs", "fault_sequences"], "all interleavings of threads with managers of their own, all sequences of operations, all positions of failing allocations, limits and terminations",
 CT + "the tests are single-threaded programs.",
 ["lib/cudd-3.0.0/cudd", "lib/cudd-3.0.0/dddmp", "lib/cudd-3.0.0/mtr", "lib/cudd-3.0.0/st", "lib/cudd-3.0.0/epd", "lib/cudd-3.0.0/util"],
 [("state of one manager", "DdManager"), ("state of one traversal", "arguments and local variables of the recursive functions"), ("state of one stored file", "Dddmp_Hdr_t and the numbers in the nodes")], ["functions of all held handles in all threads", "return codes", "reference counts", "loaded diagrams"],
 note="Two or three simulated threads with up to six variables each (thorough 7). Threads are coroutines; the seed chooses after how many basic blocks of library code a thread is preempted and which runs next. Windows that lie inside one basic block are not split, and functions that the compiler keeps as leaves are entered and left without preemption at some places. Every thread checks its own results against function tables as in C01 to C05. Code shared by all threads that is set once and for all (the bundled library's documented global hooks) is not changed by the threads. Clean batches show the property for the executions reached only.")

prop("T01", "Structured specifications keep their meaning when translated",
 "For every structured specification with Boolean and number variables in the documented fragment, the translator (tools/StructuredSlugsParser) ends with status 0 and prints a well-formed plain specification that declares each Boolean variable under its name and each number variable by the documented bits in the same section. Every liveness condition, and the conjunction of the conditions of every other section, holds for a pair of positions exactly if the structured conditions do, with the documented operators, precedences and next-value operators, and numbers in the declared ranges; values outside a declared range are excluded initially and in every next step (with --thorougly also in the current one). Lines that are in the plain format keep their meaning. What is outside the supported fragment (temporal operators, nested next, subtraction, multiplication, undeclared names, broken syntax) is rejected with a non-zero status, never translated to something else, and the translator always ends. If opening, reading or writing fails or the disk is full, the status is non-zero; short reads and writes change nothing.",
 ["inputs", "fault_sequences", "configurations"], "all structured specifications, all positions of failing or short reads and writes and full disks",
 "No test runs the translator. ",
 ["tools/StructuredSlugsParser/compiler.py", "tools/StructuredSlugsParser/Parser.py"],
 [("expression parser", "parseLTL and the generated Parser"), ("number encoding", "recurseCalculationSubformula, computeCalculationSubformula"), ("range limits", "performConversion")],
 ["standard output", "exit status", "standard error"],
 note="Seeded sampling of specifications with up to five variables (up to ten bits), with simulated raw files and standard output; the Python interpreter and its buffering are real. The oracle computes truth tables from the structured conditions and from the printed text with own readers. Clean batches show the property for the executions reached only. Not claimed: bit overwriting, brackets [ ], chains of implications without parentheses.")

prop("S27", "State estimators: the printed abstraction is sound and as permissive as possible",
 "For every domain description with observable, unobservable and controllable inputs and estimation propositions, --computeIncompleteInformationEstimator prints exactly one guarantee and one assumption, both formulas over the propositions of the domain, whatever variable reordering or garbage collection happens meanwhile. The guarantee allows a step of the estimator exactly if no hidden values that are consistent with some reachable position and with the domain's environment constraints would violate a system constraint, restricted to the greatest possible value of propositions named min_... and the least possible value of those named max_... (in the documented order of priority, from the last declared to the first). The assumption allows exactly the observable next inputs that some hidden values of a position that is reachable with this estimator admit. Empty models and environment and system dead ends are reported exactly if they exist, and the reported differences of encoded numbers are the least and greatest over all steps of the abstraction. A description that is broken is rejected with an error.",
 ["inputs", "schedules"], "all domain descriptions; all memory layouts and all points of garbage collection and reordering",
 "No test runs this mode; the order of the variables changes only in larger runs, at moments that no test controls.",
 ["src/extensionIncompleteInformationEstimatorSynthesis.hpp"],
 [("estimator relation", "execute"), ("formula output", "recursePrintBFAsSlugsExpression, printBFAsSlugsExpression")],
 ["standard output", "standard error", "exit status"],
 note="Seeded sampling of domains with up to six propositions (twelve bits per step); both formulas are evaluated by an own reader and compared with an explicit-state model on every step. Faults of memory, files and streams in this mode are covered by S07 to S10, S16 and S26. Clean batches show the property for the executions reached only.")

prop("T02", "Tools for printed strategies keep every state and value",
 "For every explicit strategy as slugs prints it, the decoder of encoded numbers prints the same text with the propositions of each encoded number replaced, at the place of its lowest bit, by the name and the value that they encode, and nothing else changed; the converter to GraphViz prints a digraph with exactly one node per state, labelled with the values and the rank of the state, and exactly one edge per listed successor. Both end with status 0. If reading or writing fails or the disk is full, the status is non-zero; short reads and writes change nothing.",
 ["inputs", "fault_sequences"], "all printed strategies, all positions of failing or short reads and writes and full disks",
 "No test runs these tools. ",
 ["tools/explicitImplementationIntegerDecoder.py", "tools/explicitStrategyToGraphviz.py"],
 [("decoder", "the loop over the lines of standard input"), ("converter", "the loop over the lines of standard input and the one over the states")],
 ["standard output", "exit status", "standard error"],
 note="Seeded sampling of strategies with up to thirty states and up to five Boolean or number variables, with simulated standard input and output; the Python interpreter and its buffering are real. Clean batches show the property for the executions reached only.")
