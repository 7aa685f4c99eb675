import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=[],hook=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=hook)))
O="src/oqnlp.rs";S="src/scatter_search.rs";C="src/checkpoint.rs";T="src/types.rs";F="src/filters.rs";R="src/local_solver/runner.rs";B="src/local_solver/builders.rs";OB="src/observers/mod.rs";O1="src/observers/stage1.rs";O2="src/observers/stage2.rs"
p("C01","The best local minimum found is never lost",
 "The best solution a search returns is no worse, beyond the configured objective tolerance, than the outcome of any local search performed during that run (leaving aside outcomes discarded for being out of bounds). Every returned solution is the unmodified outcome of one of those local searches, and its reported objective is the user's objective at its reported point.",
 ["inputs","histories","configurations"],"for every sequence of local-search outcomes, objective landscape, batch size, tolerance and seed",
 "Tests run a few smooth benchmark functions whose local searches improve in one typical order; the claim is about every order and combination of better, tied, duplicate and worse outcomes.",
 [O,T],[("process_local_solution replacement / tie / reject rule",O),("best_solution",T)],["returned solution set","objective, gradient and hessian calls seen by the user's problem"],
 [("solution_set","incumbent solutions, first one is the reference for ties",O)])
p("C02","The returned set holds exactly the distinct solutions tied for best",
 "A successful search returns a non-empty set in which every objective agrees with the first member's within max(absolute tolerance, relative tolerance times the larger magnitude), and any two members lie at least the distance factor apart. Every local-search outcome that ties the incumbent within that tolerance and is at least the distance factor away from all current members joins the set, and a strictly better outcome replaces the whole set.",
 ["inputs","histories","configurations"],"for every order of better, tied, near-duplicate and worse local outcomes, all tolerances and distance factors",
 "Tests check set size on one benchmark and three hand-built transitions; combinations of ties, near-duplicates and replacements are not enumerated.",
 [O],[("process_local_solution",O),("is_duplicate_in_set",O)],["returned solution set","checkpointed solution set"])
p("C03","Out-of-bounds solutions never surface when exclusion is enabled",
 "With exclusion of out-of-bounds solutions enabled, no returned or checkpointed solution lies outside the variable bounds and no out-of-bounds solution ends the search early, whichever local searches left the box; if every local search left the box, the search reports that no feasible solution was found. In-bounds outcomes, including ones exactly on a bound, are kept as usual, and with exclusion off out-of-bounds outcomes are kept.",
 ["inputs","histories","configurations"],"for every pattern of local searches ending inside, on, or outside the box, with and without a target objective",
 "Tests use one problem whose solver leaves the box in one way.",
 [O],[("is_within_bounds gate in process_local_solution and target_objective_reached",O)],["returned solution set","error returned"])
p("C04","Stage 1 yields a well-formed, best-of-all-evaluated reference set",
 "For every problem, seed and population size the initial phase yields exactly population-size points, all inside the bounds, each paired with the objective of that very point. The two bound corners, the midpoint and every supplied custom point (when feasible) are evaluated, the set keeps the best population-size of all points evaluated, and the first local search starts from the best of them.",
 ["inputs","configurations"],"for every assignment of objective values to evaluated points, dimension, population size, custom points and seed",
 "Tests check sizes and bounds for one or two populations with a smooth objective; pairing, retention of the best and start-point choice for arbitrary value orders (ties, duplicates, extremes) are not covered.",
 [S,O],[("initialize_reference_set",S),("diversify_reference_set",S),("update_reference_set",S),("best_solution",S)],["scatter search result","points at which the user's objective is evaluated","first gradient call"])
p("C05","Local searches start exactly at the trial points that pass both filters",
 "In the refinement phase a local search is started from a trial point if and only if that point's own objective does not exceed the current merit threshold and it is farther than the distance factor from every local solution found so far (with batches, judged at the start of the batch). The threshold follows its rule: it becomes the objective of each started trial and of each new best, and after every wait-cycle rejected trials it grows by threshold-factor times one plus its magnitude.",
 ["inputs","histories","configurations"],"for every objective assignment, local outcome sequence, wait cycle, threshold factor, distance factor and batch size",
 "Tests call the filters on single hand-picked values; no test follows the threshold and filter over a history, nor pairs each trial with its own objective.",
 [O,F],[("should_start_local",O),("adjust_threshold",O),("process_batch_sequential / process_batch_parallel",O),("DistanceFilter, MeritFilter",F)],["starting points of local searches","checkpointed threshold and filter contents"],
 [("merit threshold","largest objective that may start a local search",F),("unchanged cycles","rejected trials since last relaxation",O)])
p("C06","Runs are reproducible for a given seed, on any number of threads",
 "Two runs with the same problem, parameters, seed, starting points and batch size return bitwise identical solution sets, whatever the number of worker threads and however their work is interleaved. Different interleavings also leave identical checkpoints and observer counts.",
 ["schedules","configurations"],"for every order, preemption and splitting of the parallel work, and every thread count, with a fixed batch size",
 "A test run sees one schedule chosen by the OS; equality across all schedules cannot be sampled.",
 [O,S],[("pre-drawn seeds, ordered collects",S),("sequential merge after parallel local searches",O)],["returned solution set","checkpoints","observer"])
p("C07","Disabling parallelism does not change what is computed",
 "With parallel execution switched off, or a batch size of one, or the crate built without its parallel feature, a search returns the same solution set, and Stage 1 the same reference set and starting point, as with parallel execution on and a batch size of one.",
 ["inputs","configurations"],"for every problem, scale of variables, seed, population size and iteration count",
 "Tests only check that both modes succeed on one problem, never that they agree.",
 [O,S],[("enable_parallel branches",S),("effective batch size",O)],["returned solution set","scatter search result"])
p("C08","Early stopping happens exactly when the target or time limit is hit",
 "When a target objective is set the search stops after the first local search that brings the best kept solution to or below the target (at the latest at the end of the current batch) and otherwise never stops because of it. When a time limit is set no further batch is begun once more than that much time has passed since the first local search finished, and no batch is skipped before that; a stopped search still returns everything found so far.",
 ["inputs","histories","configurations"],"for every position at which the target is reached and every placement of elapsed time among the evaluations",
 "Tests use wall-clock limits of practically zero or practically infinite and one target.",
 [O],[("target_objective_reached",O),("max_time check at batch boundary",O)],["number and start of local searches","returned solution set"])
p("C09","Each reference point is tried at most once, within the iteration budget",
 "Unless stopped early, the refinement phase considers exactly min(iterations, population size) reference points, no point twice, drawn as a seed-dependent permutation of the reference set. No trial point is re-evaluated in an uninterrupted run, so the number of objective evaluations outside local searches never exceeds population size plus the number of generated trial points.",
 ["inputs","configurations"],"for every iteration count from one to the population size, every batch size and seed",
 "Tests never observe which points are considered.",
 [O],[("trials_to_process",O),("shuffle",O),("cached objectives",O)],["user objective calls","observer iteration","rejected-trial bookkeeping"])
p("C10","Failing or non-numeric evaluations cannot crash or poison a search",
 "Whatever the user's objective, gradient or hessian returns at whichever evaluation (an error, not-a-number of either sign, plus or minus infinity), a search ends with a solution set or an error and never panics. A not-a-number value never counts as better than a number: it is not reported as best, does not displace or block a numeric solution, and evaluation errors at optional trial points merely skip those points.",
 ["inputs","fault_sequences","configurations"],"for every placement of one or two faults among the evaluations of a run, every local solver and mode",
 "Tests inject no faults at chosen evaluations; negative not-a-number (what 0/0 yields on common hardware) is never used.",
 [O,S,T,R],[("objective ordering",S),("best_solution ordering",T),("error mapping",R)],["return value or panic of run"])
p("C11","A crash while saving never destroys the last good checkpoint",
 "If the process dies at any moment while a checkpoint is being saved, or the write fails part-way, a later load of the latest checkpoint succeeds and yields either the previous complete checkpoint or the new one. Leftovers of an interrupted save never disturb later saves, loads or cleanups.",
 ["crash_points","histories"],"for every crash point and every partial write in a history of saves, in both retention modes",
 "Tests never interrupt a save.",
 [C],[("save_checkpoint write path",C)],["files on disk after the crash","load_latest_checkpoint"])
p("C12","The checkpoint store behaves like a simple versioned store",
 "What is saved is loaded back unchanged in every field; the latest checkpoint is the most recent save (keep-latest) or the highest iteration saved (keep-all), including iteration zero; existence checks agree with loads; cleanup removes exactly all but the newest requested number. Other files in the directory, including those of other checkpoint names (unless such a name itself ends in an iteration number), are never loaded, counted or deleted.",
 ["histories","inputs","configurations"],"for every sequence of saves, loads, cleanups and foreign files up to a bound, in both retention modes",
 "Tests exercise single operations on one name with fixed iteration numbers.",
 [C,T],[("find_latest_checkpoint",C),("cleanup_old_checkpoints",C),("serde of OQNLPCheckpoint",T)],["loaded checkpoint","directory contents"])
p("C13","A damaged checkpoint file is reported as an error, never a crash",
 "Loading a checkpoint file that is truncated at any byte, has bytes altered, or is not a checkpoint at all returns an error or a well-formed checkpoint, and never panics, aborts or allocates without bound. A truncated file is always reported as an error.",
 ["inputs","crash_points"],"for every truncation length and every single-byte alteration from a set of byte values",
 "Tests try one or two garbage files.",
 [C],[("load_checkpoint_from_path",C)],["load result"])
p("C14","Resuming an interrupted run gives the result of the uninterrupted run",
 "If a run with checkpointing is interrupted after any saved checkpoint and resumed in a fresh process (whatever other settings the resuming search was built with, those of the checkpoint apply), the resumed run returns the same solution set as the uninterrupted run and performs no local search the uninterrupted run would not have performed at or after that point. Resuming a finished run performs no further local searches and returns the same solutions.",
 ["crash_points","histories","configurations"],"for every interruption point, save frequency, retention mode, batch size and local outcome sequence",
 "Tests check that resume succeeds, never that it agrees with the uninterrupted run.",
 [O,C],[("create_checkpoint / restore_from_checkpoint",O),("start iteration on resume",O)],["returned solution set","starts of local searches"])
p("C15","Resuming with changed parameters continues the run under those parameters",
 "After explicitly resuming from a checkpoint with changed parameters, the next run continues from the checkpointed iteration and keeps all checkpointed solutions, and every changed parameter (iterations, population size, wait cycle, filter factors, local solver) is in effect. Enlarging the population extends the checkpointed reference set without altering its existing points; shrinking it keeps the set.",
 ["histories","configurations"],"for every checkpoint position and every single or paired parameter change, automatic resume on or off",
 "Tests only read back two parameter fields; none runs on and compares behaviour.",
 [O],[("resume_with_modified_params",O),("resume_from_checkpoint_with_params",O),("expand_reference_set",O)],["starts of local searches","next checkpoint","returned solution set"])
p("C16","Observer metrics report what actually happened",
 "With tracking on, the reported counts equal the truth: objective evaluations per stage equal the calls the user's objective received, trial points generated and local-solver calls equal those performed, improved calls equal the local searches that changed the solution set, and best objective, best point and set size match the current solution set. Stage durations stop growing when the stage ends.",
 ["inputs","histories","configurations"],"for every local outcome sequence, local solver, batch size and observer mode",
 "Tests assert counters are positive or set them directly.",
 [OB,O1,O2,O,S],[("Stage1State / Stage2State updates",O)],["observer after and during the run"])
p("C17","Observing never changes the outcome, and callbacks fire on schedule",
 "Adding an observer in any mode, with any callback and frequency, with or without verbose output or checkpoint saving, leaves the returned solution set and the sequence of user-function calls unchanged. Stage 1 callbacks fire once per completed substage in order, and Stage 2 callbacks fire exactly for the iterations whose number is a multiple of the frequency.",
 ["configurations","histories"],"for every observer mode, tracking combination, frequency, batch size and outcome sequence",
 "Tests count that a callback ran at least once.",
 [OB,O,S],[("invoke_callback / should_invoke_callback",OB)],["callback log","user-function call log","returned solution set"])
p("C18","Local solvers run exactly as configured and report their best point",
 "For every solver type and configuration a local search performs exactly the underlying solver's run with those settings from the given start, returning its best point and objective and, when tracked, the exact number of objective evaluations. A configuration for a different solver, or one the solver rejects, yields that solver's configuration error and never a run.",
 ["inputs","configurations"],"for every solver, line search, trust-region method and each configurable parameter over a value lattice, several problems and starts",
 "Tests run defaults on one problem with loose assertions; ignored or swapped settings pass unnoticed.",
 [R,B],[("solve_* functions",R)],["LocalSolver::solve results","user-function call log"])
p("C19","Constraints are respected from seeding to local search",
 "For a problem with constraints, every point kept in the reference set and every start of a local search satisfies all constraints, and infeasible candidate points are never evaluated in Stage 1. All constraints and the variable bounds reach the constrained local solver, and when too few feasible points exist the search reports that instead of proceeding with infeasible ones.",
 ["inputs","configurations"],"for every subset of satisfied constraints over the candidate points, custom points and population size",
 "Tests use two or three fixed constraint sets and check only the final answer.",
 [S,R,"src/problem.rs"],[("is_feasible filtering",S),("COBYLA constraint hand-over",R)],["objective evaluation points","starts of local searches","error"])
p("C20","Invalid settings are rejected up front, valid ones accepted",
 "Constructing a search succeeds if and only if the population is above three, the iterations do not exceed the population, the threshold factor is a positive number and the distance factor a non-negative number, and each violation is reported by its own error. Custom points are accepted if and only if every row has the problem's dimension and every coordinate lies within its bounds. Variable bounds that are not finite with lower below upper make the search return an error, and no setting (zero frequencies and batch sizes and extreme seeds included) makes it panic.",
 ["inputs","configurations"],"for every combination of boundary values of all numeric settings, bounds and custom points, including not-a-number and infinities",
 "Tests check one bad value per setting.",
 [O,S,F],[("OQNLP::new validation",O),("ScatterSearch::new bounds validation",S),("with_points",O)],["construction result","no panic in run"])
p("C21","Builders deliver exactly the values set",
 "A solver configuration built after any sequence of setter calls carries for each setting the last value given, or the documented default if none was, and no setter affects another setting.",
 ["histories","inputs"],"for every sequence of setter calls up to a bound on every builder",
 "Tests set each field once in one order.",
 [B],[("builder setters and build",B)],["built configuration"])
p("C22","Solution sets answer queries consistently",
 "For any solution set, the best solution is the first member with the lowest objective (numbers before not-a-number), length, emptiness, iteration and indexing agree with the contents, and the printed forms list every solution, the true best objective, and each constraint's true value and satisfied/violated status.",
 ["inputs"],"for every set up to a bounded size over an alphabet of special objective values and points",
 "Tests print two or three fixed sets.",
 [T],[("SolutionSet methods and Display",T)],["public API results"])
p("C24","The standalone filters follow their definitions over any history",
 "After any sequence of added solutions, threshold updates and replacements, the distance filter accepts a point exactly when it is strictly farther than the distance factor from every stored solution, and the merit filter accepts a value exactly when it does not exceed the last threshold set.",
 ["histories","inputs"],"for every operation sequence up to a bound over an alphabet of points and values",
 "Tests use a handful of fixed points.",
 [F],[("DistanceFilter::check",F),("MeritFilter::check",F)],["filter answers"])
p("C23","Python results equal the Rust library's for the same inputs",
 "For the same functions, bounds, parameters, solver configuration, seed and options, the Python interface returns the same points and objectives as the Rust library, and every option and configuration field given in Python takes effect. Errors raised by the user's Python functions or caused by invalid options surface as Python exceptions (or skipped points where Rust skips them), and constraints of one problem are never applied to another.",
 ["inputs","configurations","histories"],"for every combination of solver, option and configuration value from a lattice, and sequences of several problems in one process",
 "Python tests check convergence to known optima with tolerances; a swapped or ignored option still converges.",
 ["python/src/lib.rs","python/src/builders.rs","python/src/observers.rs"],[("optimize",  "python/src/lib.rs"),("configuration classes","python/src/builders.rs"),("constraint registry","python/src/lib.rs")],["Python return values and exceptions"])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
