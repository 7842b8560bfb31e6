"""Writes properties.jsonl (kept as a script so the long texts stay reviewable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": list(observe), "hook_needed": hook}})

p("C01", "Reachability probabilities are right, or an error is raised",
  "Reducing a DTMC or MDP to reachability form and asking for the minimal or maximal reachability probabilities yields, for every kept state, the true probability of reaching a target state in the original model, with mappings, labels and rewards that relate original and reduced states and actions correctly. "
  "This holds whichever of several optimal answers the external LP solver returns; when the solver process crashes, stops early, or leaves a missing, cut-off or garbled answer, the call raises an exception (or still returns the true numbers), and never returns wrong numbers or none. "
  "Later calls, with a healthy solver, return the right values again; the solver named in the call is the one that is run.",
  ["inputs", "fault_sequences", "configurations"],
  "every DTMC/MDP (with and without proper end components, unreachable states, several targets), initial and target labelling, both solvers cbc and glpk, every sequence of solver outcomes and faults across a sequence of queries",
  "the tests evaluate a handful of fixed models with one healthy solver, compare results only with each other, and most of them need PRISM; no test lets the solver child process fail or return another optimum",
  ["switss/model/reachability_form.py", "switss/model/amdp.py", "switss/solver/milp.py"],
  [("reduction by forward/backward reachability", "ReachabilityForm.reduce"), ("LPs over Farkas polytopes", "ReachabilityForm.pr_min/pr_max/max_z_state")],
  observe=["ReachabilityForm.reduce", "pr_min", "pr_max", "max_z_state_action"])

p("C02", "Expected rewards are right, or an error is raised",
  "For a model with non-negative rewards in which the target is reached almost surely under every strategy, the minimal and maximal expected accumulated rewards computed on its reward reachability form are, for every state, the true values of the original model (the reward of a target state is collected once, on arrival); other models are rejected. "
  "Solver crashes, early stops and damaged answers surface as exceptions, never as wrong or missing numbers; the solver named in the call is the one that is run.",
  ["inputs", "fault_sequences", "configurations"],
  "every model/reward vector/labelling, every valid and invalid precondition, both solvers, every sequence of solver outcomes and faults",
  "the tests build reward forms only for one or two toy models with no oracle for the values and a healthy solver",
  ["switss/model/reward_reachability_form.py", "switss/solver/milp.py"],
  [("reward LPs", "RewardReachabilityForm.rew_min/rew_max"), ("precondition checks", "RewardReachabilityForm.assert_reachform_consistency")],
  observe=["RewardReachabilityForm.reduce", "rew_min", "rew_max"])

p("C03", "A result reported as success is a real witness",
  "Every result that a minimisation method (heuristic or exact; min or max; plain or label-based; probabilities or rewards; final or intermediate iterate) reports as a success carries a certificate and a set of states whose induced subsystem, with all transitions leaving the set redirected to failure, achieves at least the requested threshold, and the subsystem object built from it is exactly that restriction of the model. "
  "Infeasible is reported only if the whole system misses the threshold, and whatever the solver process does (other optima, crash, limit hit, missing, cut-off or garbled answer) an unusable answer surfaces as a non-success status or an exception, never as a bogus witness.",
  ["inputs", "fault_sequences", "configurations", "histories"],
  "every model, threshold, mode, label set, initializer/updater/iteration count and solver; every sequence of solver outcomes over the iterations",
  "the tests compare a status string that never occurs ('optimal'), so no returned witness is ever examined, and the solver never misbehaves",
  ["switss/problem/qsheur.py", "switss/problem/milpexact.py", "switss/problem/formulations.py", "switss/problem/qsheurparams.py", "switss/problem/subsystem.py", "switss/problem/problemform.py"],
  [("Farkas polytope + indicator constraints", "construct_MILP/add_indicator_constraints"), ("status propagation", "QSHeur._solveiter, MILPExact._solveiter"), ("restriction of the model", "Subsystem.subsys")],
  state=[("certificate", "non-negative vector in the Farkas polytope", "ProblemResult.farkas_cert"), ("subsystem_mask", "states with positive certificate entry", "Subsystem")],
  observe=["ProblemFormulation.solve", "ProblemFormulation.solveiter", "Subsystem.subsystem_mask", "Subsystem.subsys"])

p("C04", "Exact minimisation returns minimum witnesses",
  "When exact minimisation reports success, its value equals the number of states of the returned subsystem and no witness with fewer states exists; with labels, no witness uses fewer of the given labels (unlabelled states being free). "
  "It reports infeasible only if the full system misses the threshold, and succeeds if the system clears it, independently of which optimal answer the solver picks; a solver run that was cut short by a limit or a fault is never presented as an exact minimum that it is not.",
  ["inputs", "fault_sequences", "configurations"],
  "every (small) model, threshold, mode, label set, probability or reward threshold; every solver outcome incl. time-limited incumbents",
  "the tests only check that repeated runs agree on a status; minimality needs comparison with all subsystems and with interrupted solver runs",
  ["switss/problem/milpexact.py", "switss/problem/formulations.py", "switss/solver/milp.py"],
  [("big-M MILP with one indicator per state or label", "construct_MILP"), ("upper bounds for the max polytope", "compute_upper_bounds"), ("status mapping", "MILP.solve")],
  observe=["MILPExact.solve"])

p("C05", "Certificates are generated exactly for the bounds that hold",
  "Asking for a certificate for a bound (min or max probability; <=, <, >=, >; threshold) returns a certificate exactly when the bound holds for the initial state, and the returned certificate passes the library's own check. "
  "This holds for whichever feasible point the solver returns; a failing solver makes the call raise or return no certificate, and never yields a certificate for a bound that is false; the solver named in the call is the one that is run.",
  ["inputs", "fault_sequences", "configurations"],
  "every model (incl. proper end components), mode, comparison, threshold not within tolerance of the true value, solver, and solver outcome",
  "the tests compare a few thresholds on EC-free models or skip the generated-at-all question; with a real solver only one feasible point per LP is ever seen",
  ["switss/certification/certificates.py", "switss/model/reachability_form.py"],
  [("interior point LP", "find_interior_point"), ("Farkas constraint selection", "__get_right_constraint_set")],
  observe=["generate_farkas_certificate"])

p("C06", "The certificate check accepts only proofs",
  "If the certificate check accepts a vector for a bound, then the bound holds for the model up to an error that vanishes with the tolerance, even if the vector was altered, truncated, reordered, sign-flipped or belongs to another model, threshold or comparison. "
  "Vectors satisfying the certificate conditions within the tolerance are accepted, and checking never changes the vector or the outcome of later checks.",
  ["inputs", "fault_sequences", "histories"],
  "every model, bound and vector: genuine certificates, perturbed/corrupted stored certificates, certificates of other bounds, and adversarial vectors optimised to pass",
  "the tests only check that freshly generated certificates are accepted; acceptance of wrong ones is never tried",
  ["switss/certification/certificates.py", "switss/model/reachability_form.py"],
  [("matrix-vector check with tolerance", "check_farkas_certificate")],
  observe=["check_farkas_certificate"])

p("C07", "Saved models come back the same, or not at all",
  "Saving a DTMC or MDP and loading the files yields the same model: states, state-action pairs, transition probabilities and state labels. "
  "If a write fails (disk full, I/O error) the save raises; whatever a crash, an interruption (Ctrl-C), a short or torn write leaves on disk, loading the files either raises or yields a completely saved model, labels included, and a later successful save to the same path fully replaces what was there.",
  ["inputs", "crash_points", "fault_sequences", "histories"],
  "every model (arbitrary probabilities, sparse action numbering, states without labels, labels without states), every I/O fault, crash point or interruption in a history of saves and loads to the same paths",
  "the tests only check that loading a saved file does not crash, with probabilities that print exactly, and never fail a write",
  ["switss/model/dtmc.py", "switss/model/mdp.py", "switss/model/amdp.py", "switss/prism/prism.py"],
  [("text writer", "DTMC.save/MDP.save"), ("parsers", "_load_transition_matrix, parse_label_file"), ("row-sum check", "AbstractMDP.__check_correctness")],
  observe=["save", "from_file"])

p("C08", "Command-line results are consistent and survive crashes",
  "The command-line steps (reduce, minimise, certify, extract subsystem, info, render) exit with success only after having stored complete, loadable results that describe a correct reachability form, valid certificates and the right subsystem states; VALID is printed only for certificates that prove the stored threshold. "
  "When a step is killed, hits an I/O or solver fault, or reads a file such a step left behind, it ends with an error status and not with a wrong answer, and re-running the steps afterwards gives the results of an undisturbed run.",
  ["inputs", "crash_points", "fault_sequences", "histories", "configurations"],
  "every model, method and parameter combination documented for the command line; every crash/fault point in the sequence of steps",
  "no test runs the command-line tool at all",
  ["bin/switss", "switss/problem/problemform.py", "switss/model/amdp.py"],
  [("argument handling", "minargs/certargs/subsysargs"), ("JSON certificate file", "minargs/unpack_results")],
  observe=["exit status", "stdout", "files written"])

p("C09", "PRISM import yields PRISM's model or fails",
  "Importing a PRISM model passes the given constants and extra labels to PRISM and returns exactly the states, actions, probabilities and labels that PRISM exported, for constants and labels given as mappings (as documented) or as pairs. "
  "If PRISM is missing, fails, is killed, or leaves missing or cut-off transition output, the call raises; the model file is never modified and no temporary files remain afterwards.",
  ["inputs", "fault_sequences", "configurations"],
  "every exported model, constant and label mapping, model file with or without trailing newline, and PRISM outcome",
  "the tests need a PRISM installation; failures of the child process are never simulated",
  ["switss/prism/prism.py", "switss/model/amdp.py"],
  [("temporary copy with appended labels", "prism_to_tra"), ("parsers", "parse_label_file, _load_transition_matrix")],
  observe=["from_prism_model", "arguments and files seen by the prism process"])

p("C10", "Graph analyses are right under any random stream",
  "Maximal end components (partition, which are proper, count), reachable sets with blocking in both directions, and successor/predecessor lists are exactly those of the model's graph. "
  "This holds for every value of the random stream and clock that drive the internal randomised search trees, for any contents of uninitialised memory and any number of repeated or interleaved calls, which must leave the model unchanged.",
  ["inputs", "schedules", "configurations", "histories"],
  "every model graph, random stream (uniform, constant, monotone, low entropy), clock value, heap content and call order",
  "the tests check three small graphs under one clock-derived random stream per run, which cannot be repeated",
  ["switss/utils/graph.pyx", "switss/utils/treaps.pyx", "switss/utils/stack.pyx", "switss/model/amdp.py"],
  [("Tarjan + refinement over treaps", "Graph.maximal_end_components"), ("randomised treap", "treaps.pyx")],
  state=[("heap_key", "random priority from rand() seeded with time()", "treaps.pyx/graph.pyx")],
  observe=["maximal_end_components", "reachable_mask", "successors", "predecessors"])

p("C11", "Interleaved and concurrent users do not disturb each other",
  "Several users of one model, reachability form, minimisation method object or witness - solution iterators advanced in any order, abandoned half-way, or threads running queries, minimisations, checks and subsystem extraction in any interleaving - each get the results they would get alone. "
  "In particular one user's threshold, objective, labels or solver faults never leak into another's constraints or results.",
  ["schedules", "histories", "fault_sequences"],
  "every interleaving of iterator steps and of threads (pre-emption at any line), mixes of thresholds, modes, methods and queries on shared objects, with solver delays and faults for some of the users",
  "the tests are strictly sequential, one user per object, and finish each iterator",
  ["switss/model/reachability_form.py", "switss/model/amdp.py", "switss/problem/subsystem.py", "switss/problem/qsheur.py", "switss/utils/invertible_dict.py"],
  [("cached constraint matrices", "fark_z_constraints/fark_y_constraints"), ("lazily built caches", "actions_by_state, InvertibleDict.inv, subsystem_mask, subsys")],
  observe=["results of each user"])

p("C12", "Time limits are passed on, kept, and reported",
  "A time limit given to a minimisation reaches every solver run that searches for a witness, in seconds (the auxiliary bounds of exact maximisation are limited to ten minutes), so that with a solver which honours its limit the request ends within (number of solver runs) x (limit) plus bounded overhead even if the solver would otherwise never finish. "
  "A run ended by the limit is reported as not solved (or raises) unless the answer is complete, and the next request is unaffected.  The witness is searched for with the solver that was asked for.",
  ["configurations", "fault_sequences", "schedules"],
  "every method, solver, limit, model and pattern of slow or stalled solver runs, in simulated time",
  "a test cannot wait for stalled solvers; the suite passes a limit but never reaches it",
  ["switss/solver/milp.py", "switss/problem/qsheur.py", "switss/problem/milpexact.py", "switss/problem/formulations.py"],
  [("limit translated to solver options", "MILP.solve"), ("status mapping", "MILP.solve")],
  observe=["arguments of the solver process", "simulated time", "status"])

p("C13", "Benchmark records tell what happened",
  "A benchmark run records, for each threshold of the requested grid in order, one entry with the size of every result its method produced (and -1 for results that were not solved) and the wall and processor times elapsed since that threshold was started; it ends early only at the first infeasible threshold, or at the first unsolved one if asked to. "
  "A JSON file stored for it holds exactly the returned record, and a failure to store it is raised.",
  ["inputs", "schedules", "fault_sequences", "configurations"],
  "every grid, method list, mode list, solver timing/outcome sequence, clock behaviour and I/O fault, under a simulated clock",
  "there is no test of the benchmark module; recorded times cannot be checked against a real clock",
  ["switss/benchmarks/benchmarks.py"],
  [("threshold loop with timers", "benchmarks.run"), ("JSON writer", "print_json")],
  observe=["returned record", "JSON file"])

p("C14", "Results do not depend on ambient nondeterminism",
  "Given the same model, request and solver answers-to-problems, results that are mathematically determined - reduction, end components, probabilities, expected rewards, certificate verdicts, statuses, optimal values, validity of witnesses - are identical whatever the hash seed, random stream, clock, temporary file names or memory contents of the process. "
  "Building the same model from differently ordered descriptions (label sets, transition order, order of save/load) changes none of them. "
  "Repeating the very same request, in the same or another process, with a solver that repeats its answers gives the same witness and certificate, digit by digit.",
  ["configurations", "inputs", "schedules"],
  "every pair of process environments (hash seed, random stream, clock, memory contents, temporary names, dictionary/set orders) for the same workload",
  "the test suite runs under one fixed hash seed and never compares two environments",
  ["switss/model/reachability_form.py", "switss/utils/invertible_dict.py", "switss/utils/graph.pyx", "switss/problem/formulations.py"],
  [("index-ordered construction", "ReachabilityForm.reduce"), ("sets and dicts of labels", "InvertibleDict")],
  observe=["digest of determined results"])

p("C15", "The solver front end states the problem it was given",
  "After any history of building and solving an LP/MILP - adding variables with bounds and domains, adding and removing constraints, setting and replacing the objective, solving in between with any supported solver - each solve hands the solver that it names exactly the current variables, bounds, domains, constraints and objective, and returns the solver's values in variable order with the objective value. "
  "The status is optimal, infeasible or unbounded only if that is the truth the solver reported; interrupted, failed or unreadable solver runs become another status or an exception.",
  ["histories", "inputs", "fault_sequences"],
  "every history of building, modifying and solving; every solver outcome and fault",
  "the tests reach the front end only through one fixed construction sequence and never change a problem between solves in more than one way",
  ["switss/solver/milp.py", "switss/solver/solverresult.py", "switss/utils/casting.py"],
  [("PuLP model behind the facade", "MILP"), ("matrix constructor", "MILP.from_coefficients/LP.from_coefficients")],
  observe=["problem file read by the solver process", "SolverResult"])

p("C16", "Label maps and their inverses always agree",
  "After any history of adding and removing labels through either direction of a label mapping, interleaved with lookups, both directions describe the same relation, namely the one the history implies. "
  "Models and mappings built from the same description stay independent: changing the labels of one never changes another or the caller's data.",
  ["histories", "schedules"],
  "every interleaving of additions, removals, lookups (also interrupted ones) and (lazy) inversions on both directions, over several models built from shared label descriptions",
  "no test adds or removes a label after construction, nor uses both directions",
  ["switss/utils/invertible_dict.py", "switss/model/amdp.py"],
  [("lazily built inverse kept in step", "InvertibleDict.add/remove/inv")],
  observe=["states_by_label", "labels_by_state", "add_label", "InvertibleDict"])

p("C17", "Stormpy models are translated faithfully",
  "Importing a stormpy model (Markov chain or MDP) yields the same states, choices, probabilities and labels; the choice model adds one state per choice carrying that choice's labels. "
  "If stormpy fails in the middle of the import, the import raises and never returns part of a model; the stormpy model and earlier imports are not changed, and a later import succeeds.",
  ["inputs", "fault_sequences", "histories"], "every stormpy model, every access to it that can fail, every sequence of imports",
  "stormpy is not installed, so no test can import one",
  ["switss/model/mdp.py", "switss/model/dtmc.py", "switss/model/amdp.py"], [("translation loops", "from_stormpy_model")],
  observe=["from_stormpy"])

p("C18", "Tree-decomposition minimisation is exact",
  "The tree-decomposition method returns minimal witnesses of DTMCs for every directed tree partition.",
  ["inputs", "configurations"], "every DTMC, partition and threshold",
  "the extension module is not built and needs graph_tool and gurobi; the only test returns early",
  ["switss/problem/tree_algo.py", "switss/utils/tree_decomp.pyx"], [("dynamic programming over the quotient tree", "min_witnesses_from_tree_decomp")],
  observe=["TreeAlgo.solve"])

p("C19", "Pictures show what they depict",
  "The picture (DOT source and rendered file) of a model, a reachability form or a subsystem shows exactly its states, actions and transitions with their probabilities, the labels and numbers of the original states and actions, target and failure state in their style, grey unlabelled nodes for states outside the subsystem and the certificate's entries where asked for; a user's own drawing functions are asked with the right arguments and obeyed. "
  "If the dot program is missing, fails or is killed, or the disk fails, rendering raises, and a later rendering is complete; drawing that is interrupted, or whose user function raises, leaves nothing behind that a later picture shows.",
  ["inputs", "configurations", "histories", "fault_sequences"],
  "every model, form, certificate and drawing configuration, sequences of pictures and style changes, every outcome of the dot program",
  "no test draws anything",
  ["switss/model/dtmc.py", "switss/model/mdp.py", "switss/problem/subsystem.py", "switss/model/reachability_form.py", "switss/utils/graphviz_utils.py"],
  [("drawing loops", "DTMC.digraph, MDP.digraph"), ("overlay of a witness", "Subsystem.digraph"), ("styles carried through the reduction", "ReachabilityForm.__adapt_style")],
  observe=["digraph().source", "render"])

p("C20", "Reachability forms are checked before use",
  "A reachability form (or, from a system with rewards, a reward reachability form) can be built from a system exactly if it has one initial, one target and one failure state, the last two absorbing, last in number and with the last pairs as their only ones, if every state but the failure state is reachable from the initial one and reaches the target, and, for rewards, if there is no end component besides the target; every other system is refused with an exception, and so is what is left of a stored system after its files were damaged. The interpreter survives either way. "
  "An accepted form describes exactly that system (pairs, P, A, to_target, initial state, end components, rewards, minimal and maximal values); the caller's system does not change.",
  ["inputs", "histories", "fault_sequences"],
  "every system, well-formed or not, in memory or loaded from intact or damaged files, every order of requests, every solver failure",
  "the tests build forms with reduce() only, which always yields well-formed systems; nothing tests what is refused",
  ["switss/model/reachability_form.py", "switss/model/reward_reachability_form.py", "switss/utils/graph.pyx", "switss/model/amdp.py"],
  [("consistency checks", "ReachabilityForm.assert_consistency, RewardReachabilityForm.assert_system_consistency"), ("construction", "ReachabilityForm.__init__, RewardReachabilityForm.fromsystem"), ("graph access", "Graph.reachable, Graph.successors")],
  observe=["ReachabilityForm(...)", "RewardReachabilityForm.fromsystem", "A", "to_target", "in_proper_ec", "pr_min/pr_max"])

p("C21", "The heuristic follows its documented scheme",
  "A quotient-sum request gives its initialiser and its updater the request's groups: one per label with the states (min) or state-action pairs (max) of that label, or one per state or pair without labels.  The first problem minimises the initialiser's weights: the group weights (AllOnes), the inverse of the average minimal reachability probability of the group (InverseReachability), of its summed expected visits (InverseFrequency) or of its summed products of both (InverseCombined), large where that is zero.  "
  "After every success the updater gets exactly that solution, unchanged; the next problem minimises weight/value for every group in use and a large weight (or, for FixedZeros, nothing, the group being fixed to zero from then on) for the others; every constraint an updater returns holds in all later results.  There is one result per solver run, its value is the number of groups in use, the first unsuccessful one is the last, and an undisturbed feasible request yields exactly the requested number.",
  ["inputs", "histories", "fault_sequences"],
  "every model, labelling, weights, initialiser and updater (including user-defined subclasses), iteration count, and every failure of a solver run between iterations",
  "tests only look at whether the last subsystem is valid; a wrong weight, a dropped constraint or an iteration computed from stale data still ends in a valid, only needlessly large, subsystem",
  ["switss/problem/qsheur.py", "switss/problem/qsheurparams.py", "switss/problem/formulations.py", "switss/solver/milp.py"],
  [("loop", "QSHeur._solveiter"), ("weights", "AllOnesInitializer, InverseReachabilityInitializer, InverseFrequencyInitializer, InverseCombinedInitializer"), ("updates", "InverseResultUpdater, InverseResultFixedZerosUpdater"), ("groups", "groups_from_labels, construct_MILP")],
  observe=["Initializer.initialize", "Updater.update", "Updater.constraints", "ProblemResult.value", "problem file given to the solver"])

p("C22", "Points reported inside a region lie inside it",
  "find_interior_point (the search behind generated certificates) reports a point as inside or strictly inside the region A x <= b (with x >= 0 and variables fixed to zero as requested) only if the returned point satisfies every row and condition up to the solver's precision, whatever the solver run ended with; without failures it reports such a point whenever the region has an inside and the distance to its border is limited, and reports none for an empty region.  The caller's matrix and vector do not change, and the solver named in the call is the one that is run.",
  ["inputs", "fault_sequences"],
  "every matrix, right hand side and selection of fixed variables, and every way a solver run can end",
  "no test calls it directly, and the flags only matter for regions tests do not contain (empty, flat, unlimited) and for failed solver runs",
  ["switss/certification/certificates.py", "switss/solver/milp.py"],
  [("search", "find_interior_point")],
  observe=["find_interior_point"])

p("C23", "An interrupted request leaves nothing behind",
  "A request that is cut short by Ctrl-C, by an exception of a signal handler or by a failing allocation - queries, minimisation, stepping through solutions, certificates and their check, reduction, constraint matrices, subsystems and their masks, label and action lookups, end components, saving, drawing - at any point, also while it waits for a solver, either still returns a right result or raises, "
  "and the same model, reachability form, method object or witness answers every later request exactly as if the cut request had never been made: nothing half-built is kept, nothing temporarily changed stays changed, nothing stays locked.",
  ["crash_points", "histories", "schedules"],
  "every source line and child process event of every request at which it can be cut, every sequence of later requests by the same or other users (threads) of the same objects",
  "no test cuts a request short; a test could sample a handful of the thousands of points, and would have to know which lazily built part is half-built there",
  ["switss/model/reachability_form.py", "switss/model/reward_reachability_form.py", "switss/model/amdp.py", "switss/problem/subsystem.py", "switss/problem/qsheur.py", "switss/problem/milpexact.py", "switss/utils/invertible_dict.py", "switss/solver/milp.py"],
  [("cached constraint matrices", "fark_z_constraints/fark_y_constraints"), ("lazily built parts", "actions_by_state, InvertibleDict.inv, subsystem_mask, subsys"), ("lock around lazily built members", "ReachabilityForm")],
  observe=["results of the later requests"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for d in P: f.write(json.dumps(d) + "\n")
