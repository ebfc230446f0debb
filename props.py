"""All properties: their text (-> properties.jsonl), how each is decided (-> MANIFEST.json) and how check.py runs it."""
P = []


def prop(**k):
    P.append(k)


SMALL = "small-scope: formulas of at most 3-4 variables completely, larger ones as families around structured bases"
DET = "the code under test is deterministic for a given input and option set (checked: replayed prefixes must not diverge)"
ORACLE = "the truth-table oracle in harness/ref.h is right (written independently of the repository)"
OPTS = "options not varied by the profiles in harness/candy_common.h keep their defaults"

prop(id="C01", title="Single-shot solving: right verdict and satisfying model in every configuration",
     statement="For every CNF formula and every solver configuration (branching heuristic, static or dynamic clause allocation, preprocessing, inprocessing, restart and clause-deletion settings) a solve that is not interrupted ends, and answers SAT exactly if the formula is satisfiable and UNSAT otherwise. The model reported with SAT satisfies every clause of the original formula, including clauses over variables removed by simplification.",
     over=["inputs", "configurations"], qtext="all CNF formulas x all combinations of solver kind and option profile; enumerated: all clause sets over 3 variables up to a size, all orders/layouts of small ones, every edit of distance one of structured bases, pigeonhole/parity/ordering families",
     why="The repository's tests solve a fixed list of benchmark files and hand-written formulas with the default options; heuristics, inprocessing and reduction interplay depends on the formula and options.",
     files=["src/candy/core/Solver.h", "src/candy/systems/propagate/Propagate.h", "src/candy/systems/propagate/StaticPropagate.h", "src/candy/systems/learning/ConflictAnalysis.h", "src/candy/simplification/VariableElimination.h", "src/candy/simplification/Subsumption.h", "src/candy/systems/ReduceDB.h", "src/candy/core/clauses/ClauseDatabase.h"],
     mech=[("CDCL loop", "src/candy/core/Solver.h: solve/search"), ("model extension after elimination", "src/candy/simplification/VariableElimination.h: set_value/extend"), ("clause reduction", "src/candy/systems/ReduceDB.h")],
     observe="return value of solve(), getCandySolverResult().satisfies()",
     technique="stateless model checking: exhaustive enumeration of formulas x configurations on the real solver against a truth-table oracle",
     note="every formula in the stated bounds is solved by the real code under every profile; no sampling",
     stages=[dict(harness="c01", thorough_args=["--hang=300"], bound="all sets of <=4 clauses over 3 variables (thorough 5-6), all layouts of tiny formulas, edit distance 1 of 10 structured bases, php/parity/ordering; clauses of 2-65540 literals; implicit-learning heuristics on gate formulas; 9 option profiles (one with asymmetric clause reduction) x 12 solver kinds")],
     assumptions=[SMALL, DET, ORACLE, OPTS])

prop(id="C02", title="Incremental use: every solve in a history of adds and assumptions is right",
     statement="For every history of adding clauses, assuming literals and solving on one solver instance, each solve answers SAT exactly if all clauses added so far are satisfiable together with the assumptions of that solve, and its model satisfies these clauses and assumptions. Assumptions hold for the next solve only; clauses and assumptions may mention variables seen for the first time or removed by earlier simplification. A solver that was cleared behaves like a new one.",
     over=["histories", "configurations"], qtext="all operation sequences add/assume/solve on the IPASIR interface and the native incremental interface x option profiles; enumerated completely to the stated depth",
     why="The tests run a handful of hand-written incremental sequences; state left over between solves (eliminated variables, trail, learnt clauses, assumption set) only shows in particular histories.",
     files=["src/candy/ipasir/ipasircandy.cc", "src/candy/core/Solver.h", "src/candy/core/Trail.h", "src/candy/simplification/VariableElimination.h"],
     mech=[("IPASIR binding", "src/candy/ipasir/ipasircandy.cc"), ("incremental init", "src/candy/core/Solver.h: init"), ("undo of elimination", "src/candy/simplification/VariableElimination.h"), ("assumptions", "src/candy/core/Trail.h: setAssumptions")],
     observe="ipasir_solve/ipasir_val, solve()/getCandySolverResult()",
     technique="stateless model checking: exhaustive enumeration of operation histories on the real solver, each step compared with a truth-table oracle",
     note="complete history trees up to 3-4 rounds on small menus plus structured bases; every step is judged",
     stages=[dict(harness="c02", args=["--prop=C02"], thorough_args=["--hang=300"], bound="3 rounds (thorough 4) of add/assume/solve over 2-4 variables; all ordered assumption sequences <=3; structured bases split at every point; a solver cleared and used for a second formula; 13 engine/profile pairs quick, 40 thorough")],
     assumptions=[SMALL, DET, ORACLE, OPTS])

prop(id="C03", title="Failed assumptions: the reported core is a subset that is inconsistent",
     statement="After every solve that answers UNSAT under assumptions, the assumptions reported as failed are among the assumptions of that solve and are by themselves inconsistent with the clauses added so far; if the clauses alone are unsatisfiable the empty core is a correct answer.",
     over=["histories", "configurations"], qtext="all histories as in C02; every UNSAT answer of each history",
     why="Tests check one or two failed sets; which assumptions end in the core depends on propagation order, levels and leftover state.",
     files=["src/candy/ipasir/ipasircandy.cc", "src/candy/core/Solver.h", "src/candy/core/Trail.h", "src/candy/systems/learning/ConflictAnalysis.h"],
     mech=[("final conflict analysis", "src/candy/systems/learning/ConflictAnalysis.h: analyzeFinal"), ("failed query", "src/candy/ipasir/ipasircandy.cc: ipasir_failed")],
     observe="ipasir_failed / getCandySolverResult().getConflict()",
     technique="stateless model checking: exhaustive enumeration of operation histories, every reported core checked by truth table",
     note="same history trees as C02, judged on the failed set",
     stages=[dict(harness="c02", args=["--prop=C03"], thorough_args=["--hang=300"], bound="as C02")],
     assumptions=[SMALL, DET, ORACLE, OPTS])

prop(id="C04", title="UNSAT proofs written to file are valid DRAT refutations",
     statement="For every unsatisfiable formula solved with proof output enabled, in every solver configuration, the file written is a proof in DRAT text format that derives the empty clause: every added lemma is a consequence by unit propagation or a resolution-asymmetric tautology with respect to the clauses present at that point, and deletions only remove clauses. A third-party DRAT checker accepts it for the original formula.",
     over=["inputs", "configurations"], qtext="all unsatisfiable formulas in the enumerated families x option profiles x solver kinds; every line of every proof is checked",
     why="The tests check proofs of a few benchmark instances with the repository's own checker; proof logging in simplification, strengthening and reduction is only exercised by particular formulas and options.",
     files=["src/candy/core/clauses/Certificate.h", "src/candy/core/clauses/ClauseDatabase.h", "src/candy/core/Solver.h", "src/candy/simplification/VariableElimination.h", "src/candy/simplification/Subsumption.h"],
     mech=[("proof writer", "src/candy/core/clauses/Certificate.h"), ("logging of derived clauses", "src/candy/core/clauses/ClauseDatabase.h")],
     observe="the certificate file after the solver is destroyed",
     technique="stateless model checking: every enumerated UNSAT run's full proof replayed by an independent strict DRAT checker",
     note="each proof is a trace of the implementation validated step by step against the DRAT semantics (harness/drat.h)",
     stages=[dict(harness="c04", thorough_args=["--hang=300"], bound="families of C01 restricted to unsatisfiable formulas, 9 profiles x 4-12 kinds")],
     assumptions=[SMALL, DET, "the independent DRAT checker in harness/drat.h is right"])

prop(id="C05", title="The built-in proof checker accepts exactly the valid refutations",
     statement="For every formula and every sequence of proof lines, the built-in proof checker accepts only if every added clause follows by unit propagation or is a resolution asymmetric tautology on one of its literals, and the empty clause is reached; so it never accepts a proof for a satisfiable formula. It accepts every strictly valid DRAT refutation, whatever the layout of the text, and ends on every such input without crashing.",
     over=["inputs"], qtext="all formula/proof pairs up to the stated number of variables, clauses, and proof lines with additions and deletions",
     why="Tests only feed proofs produced by the solver itself, which are nearly always valid; wrongly accepting or rejecting needs specific small proofs.",
     files=["src/candy/core/DRATChecker.h", "src/candy/core/DRATChecker.cc"],
     mech=[("line-by-line check", "src/candy/core/DRATChecker.cc: check_proof"), ("resolution check", "src/candy/core/DRATChecker.cc: check_clause_add")],
     observe="check_proof() result for a formula and proof file",
     technique="model checking: exhaustive enumeration of formula/proof pairs, verdict compared with an executable DRAT model",
     note="the model (harness/drat.h) is compared with the implementation on every enumerated pair",
     stages=[dict(harness="c05", bound="<=3 variables; <=4 formula clauses, <=3 proof lines; mutations of solver-made proofs")],
     assumptions=["line semantics: deletion of an absent clause is ignored; pivot is the first literal", DET])

prop(id="C06", title="DIMACS reading: exact formula, any layout; malformed input is rejected",
     statement="For every DIMACS CNF file, plain or gzip-compressed and of any size or whitespace layout, the formula read contains exactly the clauses of the file as sets of literals (tautologies may be dropped), in any position relative to internal buffer boundaries. Malformed, truncated or unreadable input is reported as an error and never ends in a hang, a crash or a different formula.",
     over=["inputs"], qtext="all token sequences up to a length over the grammar's alphabet; all clause layouts; every position of a token relative to the buffer boundary",
     why="Tests read well-formed benchmark files; malformed tokens and boundary positions are not sampled.",
     files=["src/candy/utils/StreamBuffer.h", "src/candy/core/CNFProblem.cc"],
     mech=[("buffered tokenizer", "src/candy/utils/StreamBuffer.h"), ("parser", "src/candy/core/CNFProblem.cc: readDimacs"), ("clause normalisation", "src/candy/core/CNFProblem.cc: readClause")],
     observe="clauses and variable count of the problem, or the exception thrown",
     technique="model checking: exhaustive enumeration of input texts and buffer-boundary alignments against a reference parser",
     note="every input within the bounds is read by the real reader and compared with the reference grammar",
     stages=[dict(harness="c06", bound="all token sequences to length 5-6, all whitespace choices on templates, every alignment of a token around the 1 MiB chunk boundary, plain and gzip, every truncation point")],
     assumptions=["a clause may be terminated by end of file only if the grammar in harness/c06.cc says so", DET])

prop(id="C07", title="Gate recognition: gates really are definitions and no clause is lost",
     statement="For every formula and recognition method, roots, gate definitions and remainder together contain each clause of the formula exactly once. For every recognised gate each assignment to the other variables allows a value of the output, and exactly one value if the output is not marked monotonic; dropping the backward clauses of gates marked monotonic never makes an unsatisfiable formula satisfiable.",
     over=["inputs", "configurations"], qtext="all formulas in the families x 5 recognition methods x number of root selections",
     why="Tests check hand-built gates of each type; wrong positives need particular non-gate clause sets that look like gates.",
     files=["src/candy/gates/GateAnalyzer.cc", "src/candy/gates/GateProblem.h", "src/candy/gates/BlockList.h", "src/candy/core/CNFProblem.cc"],
     mech=[("candidate test", "src/candy/gates/GateAnalyzer.cc: isGate/patternCheck/semanticCheck"), ("blocked-set bookkeeping", "src/candy/gates/BlockList.h")],
     observe="roots, gates and remainder of the analysis result",
     technique="stateless model checking: exhaustive enumeration of formulas x methods on the real analyser, semantic truth-table oracle",
     note="functional/total/partition conditions are decided by truth table for every enumerated formula",
     stages=[dict(harness="c07", bound="all sets of <=4 clauses over 3 variables (thorough 5), all sets of <=5 defining clauses in 4 contexts, all two-level circuits, all 2/3-input truth tables, edit distance 1")],
     assumptions=[SMALL, DET, ORACLE])

prop(id="C08", title="cnf2aig: the and-inverter graph is well formed and equisatisfiable",
     statement="For every CNF file and every gate recognition method, the graph that cnf2aig prints is well-formed ASCII AIGER: literals stay within the maximum stated in the header, every variable is defined at most once as input or gate, every literal used is a constant, an input or a gate, and there is no cycle. Its single output can be made true by some input assignment exactly if the formula is satisfiable.",
     over=["inputs", "configurations"], qtext="all formulas in the families x 5 recognition methods x number of root selections; all input assignments of every graph",
     why="There is no test of the conversion; gates used in both polarities, constants and unrecognised remainders only occur for particular formulas.",
     files=["src/candy/cnf2aig.cc", "src/candy/gates/AIGProblem.h", "src/candy/gates/GateProblem.h", "src/candy/gates/GateAnalyzer.cc"],
     mech=[("graph construction and printing", "src/candy/gates/AIGProblem.h"), ("artificial root for the remainder", "src/candy/gates/GateProblem.h")],
     observe="standard output of the cnf2aig tool",
     technique="stateless model checking: exhaustive enumeration of formulas x methods through the real tool; the printed graph is evaluated on all input assignments",
     note="the tool's own main runs in-process for every enumerated formula; the graph is parsed by an independent AIGER reader",
     stages=[dict(harness="c08", bound="families of C07, plus rooted structured bases and wide gates (1-12 inputs)")],
     assumptions=[SMALL, DET, ORACLE])

prop(id="C09", title="Model minimisation: sound, contained in the model, minimal as requested",
     statement="For every satisfiable formula, every model of it and every combination of the modes, the minimised model consists of literals of the model, and the model itself is left as it was. Without pruning it satisfies every clause and no literal can be left out; with the minimum mode no part of the model with fewer literals satisfies every clause. With pruning every choice of values for the other variables that are not gate outputs extends to a model of the formula. Projection removes the gate outputs and nothing else. The result does not depend on minimisations done before with the same object.",
     over=["inputs", "configurations"], qtext="all formulas in the families x all their models x all 8 combinations of pruning, minimum and projection",
     why="Tests minimise a few models; wrong cardinality bounds or wrong pruning show only when the greedy and the minimum result differ.",
     files=["src/candy/minimizer/Minimizer.cc", "src/candy/minimizer/Minimizer.h", "src/candy/gates/GateProblem.h"],
     mech=[("hitting set iteration", "src/candy/minimizer/Minimizer.cc: iterativeMinimization"), ("cardinality counter", "src/candy/minimizer/Minimizer.h"), ("pruning", "src/candy/gates/GateProblem.h: getPrunedProblem")],
     observe="getMinimizedModelLiterals() of the result",
     technique="stateless model checking: exhaustive enumeration of formulas, models and modes on the real code; every result judged by truth table",
     note="complete over all models of each enumerated formula; minimality and minimum cardinality are decided by enumeration",
     stages=[dict(harness="c09", bound="all sets of <=3 clauses over 3 variables (thorough 4), all sets of <=4 binary clauses over 4 variables, all graphs on 5 (6) vertices as vertex cover, rings/stars/ladders, gate definitions, truth tables; sequences of two (three) minimisations of one object with all models and modes")],
     assumptions=[SMALL, DET, ORACLE])

prop(id="C10", title="Random simulation: conjectures are exactly the relations seen in simulation",
     statement="For every recognised gate structure, simulation gives every gate output the value that its definition demands for the simulated inputs (with only forward clauses: the largest value they allow), and after any number of rounds the conjectures are exactly the gate outputs that were constant and the classes of outputs that always agreed or always disagreed in all rounds so far: none is refuted by a simulated assignment, none is missing or repeated. This holds for both clause orders and every compression schedule; the gate filter restricts it to gates used in both polarities, and the size and backbone filters remove exactly what they name.",
     over=["inputs", "configurations", "histories"], qtext="all formulas in the families x clause orders x compression schedules x gate filter x sequences of simulated input sets",
     why="Tests use a few gate structures with random inputs; wrong order, a lost class after compression or a single deviating bit needs particular structures and patterns.",
     files=["src/candy/randomsimulation/ClauseOrder.cc", "src/candy/randomsimulation/Propagation.cc", "src/candy/randomsimulation/Partition.cc", "src/candy/randomsimulation/RandomSimulator.cc", "src/candy/randomsimulation/Conjectures.cc", "src/candy/gates/GateDFSTraversal.h"],
     mech=[("topological clause order", "src/candy/randomsimulation/ClauseOrder.cc"), ("bit-parallel propagation", "src/candy/randomsimulation/Propagation.cc"), ("partition refinement", "src/candy/randomsimulation/Partition.cc")],
     observe="Conjectures returned by run() and performRandomSimulation()",
     technique="stateless model checking: the source of randomness is replaced by the explorer's choices, all input patterns enumerated, conjectures compared with an exact reference",
     note="the random inputs are the environment; they are enumerated through the public randomization interface, everything else is the real code",
     stages=[dict(harness="c10", bound="gate families of C07 with all input assignments in one step; all sequences of <=3 steps (thorough 4) of nonempty input sets on 3 circuits; one deviating assignment at columns around word boundaries (thorough: every column); the front end over few and many rounds on circuits and edited formulas")],
     assumptions=[SMALL, DET, "up to 10 inputs per structure"])

prop(id="C11", title="Abstraction refinement: right answers whatever is conjectured",
     statement="For every formula and any conjectures about equivalent or constant literals, also false ones, the abstraction-refinement solver answers SAT exactly if the formula is satisfiable, with a model of the formula. At every refinement step the enabled approximation clauses say exactly that the literals of each conjectured class whose variables have not been removed are equal and that the remaining backbones are true: each clause has its own assumption variable, the assumption list controls all clauses added so far, and the number of enabled clauses is reported rightly. The input-dependency heuristic removes at step i the gate outputs that depend on more inputs than limit i, and all after the last limit.",
     over=["inputs", "histories", "configurations"], qtext="all formulas x conjectures x removal histories of the heuristics, in the enumerated families",
     why="Tests refine a few fixed conjectures; which part of a class cycle is removed in which step, and wrong conjectures on satisfiable formulas, are not covered.",
     files=["src/candy/rsar/ARSolver.cc", "src/candy/rsar/ARSolver.h", "src/candy/rsar/Refinement.cc", "src/candy/rsar/ApproximationState.cc", "src/candy/rsar/Heuristics.cc", "src/candy/frontend/SolverFactory.h"],
     mech=[("refinement loop", "src/candy/rsar/ARSolver.cc: solve"), ("removal from class cycles", "src/candy/rsar/ApproximationState.cc: commitWorkQueue"), ("assumption bookkeeping", "src/candy/rsar/Refinement.cc"), ("input dependency counts", "src/candy/rsar/Heuristics.cc")],
     observe="ARSolver::solve and its model; the EncodedApproximationDelta of each step",
     technique="stateless model checking: the refinement heuristic is the explorer; all formulas, conjectures and removal histories enumerated, deltas replayed into a reference model and compared by truth table",
     note="every delta of every enumerated history is compared semantically with the set of remaining conjectures",
     stages=[dict(harness="c11", bound="all sets of <=3 clauses over 3 variables (thorough 4) x all conjectures over them; structured bases x pairs of variables; all assignments of 4-5 (5-6) variables to classes/backbones x all removal histories of 3 steps; classes of 6 (7) literals; gate families for the dependency heuristic and the front end's factory")],
     assumptions=[SMALL, DET, ORACLE])

prop(id="C12", title="The candy program: answers, exit codes, value lines and option ranges",
     statement="For every readable DIMACS problem given as file, gzipped file or on standard input, and every combination of documented option values, the program prints exactly one status line, which is right, and ends with exit code 10 for SAT and 20 for UNSAT (0 when the self tests -test-model / -test-proof confirm the answer, which they do); every other output line is a comment or, with -model, one value line that lists each variable of the problem once, ends with 0 and satisfies every clause; the certificate file is a refutation; a minimised model satisfies the formula. Input that cannot be parsed gives exit code 1 and no status line. Option values outside the range that --help prints, malformed values and unknown options are refused with an error and exit code 1.",
     over=["inputs", "configurations"], qtext="all problems in the families x ways to pass them x option settings (each documented boundary value of every option, all combinations of output modes, all pairs of a list of 33 settings)",
     why="No test runs the program itself; option parsing, exit codes and output format depend on the combination of options.",
     files=["src/candy/Main.cc", "src/candy/utils/Options.h", "src/candy/utils/Options.cc", "src/candy/frontend/CLIOptions.cc", "src/candy/frontend/CandyBuilder.cc"],
     mech=[("main", "src/candy/Main.cc"), ("option parsing", "src/candy/utils/Options.h"), ("solver construction", "src/candy/frontend/CandyBuilder.cc")],
     observe="exit code, standard output, certificate file of the real program",
     technique="stateless model checking of the program as a process: exhaustive enumeration of inputs x option settings, each run judged against a truth-table oracle and an independent DRAT checker",
     note="one execution = one run of the built program; ranges are taken from its own --help output",
     stages=[dict(harness="c12", targets=["candy"], bound="options one at a time at every documented boundary x 14 problems; all subsets of 9 output modes x 14 problems; pairs of 33 settings x 6 (14) problems; out-of-range and malformed values of every option; unreadable inputs x modes")],
     assumptions=[DET, ORACLE, "thread and sonification options are not varied here (threads: C13)"])

prop(id="C13", title="Parallel portfolio and interruption: one consistent answer under every schedule",
     statement="Under every interleaving of the solver threads with the main thread (-threads=n), and for SIGINT or SIGXCPU arriving, or the time limit or memory limit being exceeded, at any moment, the candy program ends and its output is consistent: the status line is right for the problem; SATISFIABLE comes with exit code 10 and (with -model or -minimize) a complete value line or minimised model that satisfies the problem, UNSATISFIABLE with exit code 20 and no value line; INDETERMINATE only appears when the run was interrupted or a limit was exceeded, with exit code 0 and no value line. A signal that arrives before the handlers are installed ends the program without an answer; one that arrives while the final answer is printed ends it with exit code 1 and the interruption notice. With proof output and UNSATISFIABLE, the proof file holds one complete refutation, however many threads ran. No schedule ends in a crash, a deadlock or an endless wait, and no two threads access the same memory, one of them writing, without synchronisation.",
     over=["schedules", "fault_sequences", "configurations"], qtext="all schedules of main thread and solver threads up to the preemption bound (scheduling points: synchronisation, sleeping, and every access that takes part in a data race) x one signal or clock jump at every scheduling point, for each listed configuration",
     why="No test runs the program with more than one thread or delivers a signal; the failing interleavings are a few instructions wide.",
     files=["src/candy/Main.cc", "src/candy/core/Solver.h", "src/candy/frontend/CandyBuilder.cc"],
     mech=[("portfolio", "src/candy/Main.cc main, runSolverThread"), ("proof files", "src/candy/Main.cc main, runSolverThread"), ("termination callback", "src/candy/Main.cc interrupted_callback"), ("signal handlers", "src/candy/Main.cc installSignalHandlers"), ("polling", "src/candy/core/Solver.h solve")],
     observe="standard output, proof file, exit code or ending signal of the program's own main(); unordered memory accesses",
     technique="stateless model checking of the real multi-threaded program under a controlled scheduler: all schedules up to a preemption bound, race-directed scheduling points, signal delivery as a choice at every point",
     note="the program's main() and the whole library are compiled with access instrumentation whose runtime is the scheduler in harness/ctlsched.h; one forked process per schedule",
     stages=[dict(harness="c13", flavor="tsi", budget=dict(quick=200, thorough=10800), bound="36 configurations (1-16 threads); preemption bound 2 (thorough 3) for 2-3 threads, 0-1 (1-2) for 7-16 threads run in turns; one SIGINT/SIGXCPU at every scheduling point with preemption bound 1 (2); one clock jump at every clock reading")],
     assumptions=["scheduling points are synchronisation operations and accesses that a vector-clock race detector reported under some explored schedule (fixpoint); code without races behaves as under sequential consistency", "exit() is taken as the end of the run: static destructors that run while other threads are still alive are not explored", "writes to standard output are atomic", ORACLE])

prop(id="C14", title="Callbacks: a requested termination is clean, reported learnt clauses are implied",
     statement="For every history of adding clauses, assuming, solving, and setting, exchanging or removing the termination and the learnt-clause callback: a solve ends without an answer only if the termination callback asked it to, a request made at any poll ends the solve soon, and whatever solve was interrupted at whatever point, the solver stays usable: every later solve answers SAT exactly if the clauses added so far are satisfiable together with the assumptions of that solve only, with a model of them. Every clause passed to the learnt-clause callback has at most the stated number of literals, is terminated by zero, mentions only known variables and follows from the clauses added so far, independent of assumptions; every learnt clause within the length limit is passed, exactly once. A callback that was replaced or removed is not called any more.",
     over=["histories", "configurations", "fault_sequences"], qtext="all histories of the enumerated families x every poll of the termination callback at which the request can be made (once, from then on, or asynchronously after the k-th learnt clause) x engines and option profiles",
     why="The tests never interrupt a solve and continue with the same solver; the state left by an interruption depends on the poll at which it happens and only shows in a later solve.",
     files=["src/candy/core/Solver.h", "src/candy/ipasir/ipasircandy.cc", "src/candy/core/Trail.h", "src/candy/rsar/ARSolver.cc"],
     mech=[("polling", "src/candy/core/Solver.h: solve, processClauseDatabase"), ("learnt-clause callback", "src/candy/core/Solver.h: search"), ("binding", "src/candy/ipasir/ipasircandy.cc: setTermCallback/setLearnCallback")],
     observe="ipasir_set_terminate/ipasir_set_learn callbacks, results of ipasir_solve/ipasir_val; CandySolverInterface::setTermCallback/setLearntCallback",
     technique="stateless model checking: the moment of interruption is a choice at every poll; all histories enumerated on the real solver, verdicts, models and reported clauses checked by truth table",
     note="every poll of every enumerated solve is used as interruption point, then the history goes on with the same solver",
     stages=[dict(harness="c14", thorough_args=["--hang=300"], bound="all sets of <=3 clauses (thorough 4) over 3 variables and edits of structured bases, interrupted at every poll, then two further solves; two interruptions per history; learnt-clause limits 0-5 and unlimited; 12 (40) engine/profile pairs")],
     assumptions=[SMALL, DET, ORACLE, "'soon' means within 32 further polls or 300 conflicts"])

prop(id="C15", title="Search core: sound under every sequence of decisions",
     statement="For every formula, every set of assumptions and every sequence of branching decisions, not only those of the built-in heuristics: at every decision no clause of the database is falsified or unit (propagation is complete), the assignment trail is consistent and every implied literal has a reason that implies it from earlier literals; every clause learnt from a conflict follows from the formula, is falsified in the conflict, contains exactly one literal of the conflict level, in first place, and comes with the backtrack level at which it becomes asserting and with its number of decision levels; the search ends with the right answer, a model of the formula and the assumptions, or a final conflict over the assumptions.",
     over=["schedules", "inputs", "histories"], qtext="all decision sequences of the enumerated formulas (completely for 3 variables, to a stated number of free decisions otherwise) x both propagators x option profiles x assumption sequences x one or two solves",
     why="Tests follow the one decision sequence that the built-in heuristic happens to produce for each file; a wrong reason, a missed watch or a wrong level needs particular decision orders.",
     files=["src/candy/core/Solver.h", "src/candy/systems/propagate/Propagate.h", "src/candy/systems/propagate/StaticPropagate.h", "src/candy/systems/learning/ConflictAnalysis.h", "src/candy/core/Trail.h", "src/candy/core/clauses/ClauseDatabase.h"],
     mech=[("watched literals", "src/candy/systems/propagate/Propagate.h, StaticPropagate.h"), ("conflict analysis and minimisation", "src/candy/systems/learning/ConflictAnalysis.h"), ("assumption levels, final conflict", "src/candy/core/Solver.h: search")],
     observe="the branching-heuristic interface: trail and clause database at each decision, learnt clause at each conflict; result of solve()",
     technique="stateless model checking: the branching heuristic (a template parameter of the solver) is the explorer, every decision is a choice; each reached state is checked against invariants and a truth table",
     note="the choice tree is the complete game tree of decisions of the real search for each formula in bounds",
     stages=[dict(harness="c15", thorough_args=["--hang=300"], bound="all sets of <=4 clauses (thorough 5) over 3 variables x all decision sequences; full-width clauses over 4 variables minus 1-2 x the first 5 (6) decisions; structured bases x the first decisions; 3 assumptions over 3 variables; two solves")],
     assumptions=[SMALL, DET, ORACLE])

def mem(harness, families, cap=0, extra=()):
    """stages of C16: the given families of another check's harness under the sanitizers, one clause less and fewer edits"""
    return [dict(harness=harness, flavor="asan", targets=["candy"] if harness == "c12" else [], args=["--family=%d" % f] + list(extra), quick_args=["--small=1"], thorough_args=["--hang=300"],
                 budget=dict(quick=cap or 30, thorough=150), bound="%s family %d" % (harness, f) + (", the first %d s of it" % cap if cap else "")) for f in families]


prop(id="C16", title="No undefined behaviour: memory is used as allocated in every history",
     statement="In every history of the library's interfaces (solving, incremental solving under any assumptions, termination and learnt-clause callbacks, clearing, proof writing and checking, DIMACS reading, gate recognition, AIG output, minimisation, random simulation, abstraction refinement, implicit learning) and every configuration, the code never reads or writes outside of live objects or container bounds, never uses freed memory, and performs no operation that is undefined in C++ (signed overflow, invalid shifts, null or misused pointers, invalid enumeration or boolean values, out-of-range conversions); valid input never ends in a crash or an abort.",
     over=["inputs", "histories", "configurations"], qtext="all executions of the families of C01, C02, C04-C12, C14, C15, C17, C19 and C20 with the sizes reduced by one, compiled with address and undefined-behaviour sanitizers and checked containers",
     why="The tests run without sanitizers on a few inputs; an access just outside of a container usually goes unnoticed, and it depends on sizes, variables added late, repeated assumptions or particular options.",
     files=["src/candy/core/Trail.h", "src/candy/core/clauses/ClauseAllocator.h", "src/candy/core/clauses/Clause.h", "src/candy/core/clauses/ClauseDatabase.h", "src/candy/systems/branching/VSIDS.h", "src/candy/systems/branching/VSIDSC.h", "src/candy/systems/propagate/StaticPropagate.h", "src/candy/mtl/Heap.h", "src/candy/gates/AIGProblem.h"],
     mech=[("clause arena", "src/candy/core/clauses/ClauseAllocator.h"), ("stamps, heaps, watch lists sized by variables", "src/candy/core/Stamp.h, src/candy/mtl"), ("buffers", "src/candy/utils/StreamBuffer.h")],
     observe="end of every enumerated execution: answer as in the other checks, or a sanitizer report / signal",
     technique="stateless model checking: the enumerations of the other checks repeated on the real code under address and undefined-behaviour sanitizers as the per-execution monitor",
     note="every enumerated execution is monitored access by access; capped families report exhaustive=false",
     stages=mem("c01", [2, 3, 4, 5, 6, 7, 11, 12]) + mem("c01", [13, 9], 6) + mem("c02", [6], 0, ["--prop=C02"]) + mem("c02", [5, 7, 3], 6, ["--prop=C02"]) + mem("c04", [0, 1, 2, 3, 4, 5, 6, 7, 8]) + mem("c05", [3, 4]) + mem("c05", [2], 6) + mem("c06", [0, 1, 4, 5, 6]) + mem("c06", [3], 6)
     + mem("c07", [0, 2, 5]) + mem("c08", [0, 2, 5, 7]) + mem("c09", [0, 4, 5]) + mem("c10", [0, 7]) + mem("c10", [8, 5], 6) + mem("c11", [0, 1, 2, 4]) + mem("c14", [4, 5]) + mem("c14", [0, 3], 6) + mem("c15", [0, 3]) + mem("c15", [2, 5], 6) + mem("c17", [4, 5], 6) + mem("c12", [3, 6, 7]) + mem("c12", [1, 5], 6) + mem("c19", [2, 4], 6) + mem("c20", [4, 6, 7, 9]) + mem("c20", [0, 2, 3, 8], 6),
     assumptions=[SMALL, DET, "alignment of the clause header is not checked (the clause layout is deliberate); leaks are not checked", "blocks of 1 MiB and more (arena pages) are mapped directly and only checked at page granularity"])

prop(id="C17", title="Implicit learning: decisions against the conjectures, within budget, legal",
     statement="For all conjectures about equal and constant literals and every state of the assignment, a branching heuristic of the implicit-learning kind decides an unassigned, eligible variable as long as there is one. If a literal assigned at the latest decision level is conjectured equal to an unassigned eligible literal, in a class within the advice size and with budget left, the decision is the negation of such a literal; otherwise it is the decision of the default heuristic, except that a variable conjectured constant is decided against the conjecture. Each pair of variables and each constant is used at most as often as its budget says; after enough half-lives the vanishing mode behaves like the default heuristic. The answers of the solver are right whatever is conjectured. The mode and advice size that are set select the heuristic of that name and size.",
     over=["histories", "configurations", "inputs"], qtext="all conjectures over 3-4 variables x all histories of decisions, implications, backtracking and exclusion of variables to a depth x 6 heuristics; all small formulas and structured bases x conjectures inside the solver",
     why="Tests query a few fixed trails; signs, level limits and budgets interact with the history of assignments.",
     files=["src/candy/systems/branching/rsil/BranchingHeuristics.h", "src/candy/systems/branching/rsil/BranchingHeuristics.cc", "src/candy/systems/branching/rsil/ImplicitLearningAdvice.h"],
     mech=[("advice from the latest level", "src/candy/systems/branching/rsil/BranchingHeuristics.h: getAdvice"), ("constants", "getSignAdvice"), ("budgets and half-life", "usedAdvice/canUseAdvice, makeRSILDecision")],
     observe="pickBranchLit() in every state; decisions inside Solver",
     technique="stateless model checking: trail histories and conjectures are enumerated, each decision of the real heuristic is compared with an executable specification and with the real default heuristic in the same state",
     note="complete history trees to depth 4-6 over 3-4 variables; inside the solver every decision of every run is judged",
     stages=[dict(harness="c17", thorough_args=["--hang=300"], bound="all conjectures over 3 (4) variables x all histories of 4 (3) decisions (thorough 5 (4)); budgets 1-3, 6 decisions; half-lives 1-3, beyond 64 of them; all sets of <=3 clauses over 3 variables x all conjectures, two rounds; structured bases x pairs/triples of variables; heuristics built by every mode and advice size")],
     assumptions=[SMALL, DET, ORACLE, "while the half-life of the vanishing mode is running, advice may or may not be used"])

prop(id="C18", title="Separate solvers, analyses and readers in separate threads are independent",
     statement="Objects of the library that are used by one thread each do not influence each other, whatever the other threads do with theirs: solving with any heuristic and clause storage, incremental solving through IPASIR, gate analysis with random simulation, model minimisation, abstraction refinement, DIMACS reading and proof checking give the same result as alone, for every schedule, and no memory is accessed by two threads, one of them writing, without synchronisation. In particular using one object does not change the options that others are built with.",
     over=["schedules", "inputs", "configurations"], qtext="all pairs (and chosen triples) of kinds of work x formulas x option profiles x all schedules up to the preemption bound; every memory access of the library is observed",
     why="No test uses the library from two threads; a scratch buffer or option shared by accident goes unnoticed until two threads meet in it.",
     files=["src/candy/core/Solver.h", "src/candy/core/clauses/ClauseAllocator.h", "src/candy/gates/GateAnalyzer.cc", "src/candy/minimizer/Minimizer.cc", "src/candy/frontend/CLIOptions.cc", "src/candy/frontend/CandyBuilder.cc", "src/candy/ipasir/ipasircandy.cc", "src/candy/core/DRATChecker.cc", "src/candy/utils/FastRand.h"],
     mech=[("no shared mutable state", "all files: no writable static data outside the options"), ("options are read, not written", "src/candy/gates/GateAnalyzer.cc, src/candy/minimizer/Minimizer.cc")],
     observe="results of each thread, compared with the oracle and the same work alone; unordered memory accesses",
     technique="stateless model checking of the real library under a controlled scheduler: all pairs of jobs, all schedules up to a preemption bound, with a vector-clock race detector over every access as monitor",
     note="compiled with access instrumentation whose runtime is the scheduler in harness/ctlsched.h; one forked process per schedule",
     stages=[dict(harness="c18", flavor="tsi", budget=dict(quick=200, thorough=3600), bound="18 kinds of work in all pairs x 3 (7) formula choices x 3 (8) profiles, in turns; each kind with itself x preemption bound 1 (2); triples")],
     assumptions=["as C13 for scheduling points", "the option objects are not written by the user while the threads run", ORACLE])

prop(id="C19", title="Decisions follow the scores of the configured branching heuristic",
     statement="In every search each decision is an unassigned, not eliminated variable whose score under the configured heuristic is greatest (any of equals): for VSIDS the activity, raised by the current increment for each occurrence in conflict analysis, where older contributions decay by the configured factor with every conflict; for LRB the exponential average of the share of conflicts a variable took part in while it was assigned; for the centrality variant the same activity with start values and increments from the betweenness centrality of the variables. The value is the one the variable had when it was last unassigned, or the one set from outside, or else false. If variables are sorted at the start, scores start from weighted occurrences. Rescaling scores, backtracking, restarts, inprocessing, new variables and further solves change none of this. No decision is made only if no such variable is left. The betweenness centrality of a node is the share of shortest paths between other nodes that pass through it.",
     over=["inputs", "configurations", "histories"], qtext="all formulas in the families x 11 settings of the heuristics x option profiles x static or dynamic clause storage; all graphs of 6 (7) nodes for the centrality",
     why="The tests query the heuristics on a few variables; a heap that is not updated, a score that is not rescaled or a value that is not kept still gives right answers, but another search than the one configured.",
     files=["src/candy/systems/branching/VSIDS.h", "src/candy/systems/branching/LRB.h", "src/candy/systems/branching/VSIDSC.h", "src/candy/teexgraph/CenGraph.cpp", "src/candy/mtl/Heap.h"],
     mech=[("activities and heap", "src/candy/systems/branching/VSIDS.h: notify_conflict, notify_backtracked, pickBranchLit"), ("participation rate", "src/candy/systems/branching/LRB.h"), ("centrality", "src/candy/teexgraph/CenGraph.cpp")],
     observe="every call of pickBranchLit(), notify_conflict() and notify_backtracked() by the real search, the result of CenGraph",
     technique="stateless model checking: formulas and configurations are enumerated, the real solver runs on each, and an executable model of the heuristic judges every decision of the search",
     note="the model of the scores shares no code with the heuristics; equal scores within rounding are accepted in any order",
     stages=[dict(harness="c19", thorough_args=["--hang=300"], bound="all sets of <=4 (5) clauses over 3 variables, full-width clauses over 4 variables minus <=3 (4), structured bases with edits, pigeonholes, rounds with assumptions, late variables and set values, searches of thousands of conflicts with rescaling, all graphs of 6 (7) nodes")],
     assumptions=[SMALL, DET, "the heuristic is wrapped, not replaced: the wrapper forwards every call", "scores equal up to rounding (1e-9 relative) are treated as equal"])

prop(id="C20", title="Data structures behave like their abstract counterparts for every history",
     statement="For every history of operations the data structures under the solver behave as what they stand for: the heap gives a least element of exactly those inserted and not removed; a stamp map says exactly which elements were stamped since the last clearing, also when its counter wraps around; the bounded queue holds the latest elements in order, with their sum and average; paged memory and clause memory keep every stored object where and as it is, and iteration sees each once, also while pages are added; reallocation keeps exactly the clauses that are not deleted; truth values and literals obey their laws; a result gives the value that was set for each variable and undefined otherwise; a problem contains exactly the clauses and variables added, and checks an assignment as its clauses say.",
     over=["histories", "inputs"], qtext="all operation sequences to a depth on each structure, on elements and sizes around its boundaries (capacity, page size, wrap-around of the counter)",
     why="The tests use the structures in the usual order; wrap-around, page boundaries and removal followed by insertion need particular histories.",
     files=["src/candy/mtl/Heap.h", "src/candy/mtl/Stamp.h", "src/candy/mtl/BoundedQueue.h", "src/candy/mtl/Memory.h", "src/candy/core/clauses/ClauseAllocatorMemory.h", "src/candy/core/SolverTypes.h", "src/candy/core/CandySolverResult.h", "src/candy/core/CNFProblem.h"],
     mech=[("heap order", "src/candy/mtl/Heap.h"), ("counter wrap-around", "src/candy/mtl/Stamp.h"), ("pages", "src/candy/mtl/Memory.h, src/candy/core/clauses/ClauseAllocatorMemory.h")],
     observe="the public operations of each structure after every step",
     technique="stateless model checking: all operation histories to a depth on the real structures, compared with an abstract container after every step",
     note="complete history trees; no sampling",
     stages=[dict(harness="c20", thorough_args=["--hang=300"], bound="heap: all histories of 5 (6) operations on 3 and 3 (4) on 5 elements; stamps: 5 (6) operations from 8 counter values around the wrap-around x 3 widths; queues of 1-4: 8 (11) operations; memory: 6 (7) operations with elements of 16 bytes to 300 kB; clause memory: 5 (7) operations with clauses of 1-300000 literals; results and problems: 4 (5) operations")],
     assumptions=[DET, "the models in harness/c20.cc are right"])

NOT_APPLICABLE = []

CHECKS = {p["id"]: {"stages": p["stages"], "assumptions": p["assumptions"]} for p in P}
