# prop(id, title, statement, over, quantifier text, why tests cannot, files, mechanisms, technique, note)
A = "pymoo/algorithms"
prop("P01", "A seeded run is a deterministic function of its inputs and its seed",
     "Two runs of any built-in algorithm with the same problem, options and seed produce the same candidates, decisions and results: every random number is drawn from the generator the run created from its seed and which it hands down to every operator, survival, archive and helper. "
     "No random draw uses process-global or unseeded random state, and no decision depends on the clock, on object identity or on the iteration order of unordered collections.",
     ["inputs", "configurations", "histories"], "all algorithms, operators and option combinations, all seeds, whatever ran before in the same process",
     "The tests compare a handful of runs of default configurations; an operator, repair or tie-break that draws from an unseeded generator only shows for the configuration that reaches it.",
     ["pymoo/core/algorithm.py", "pymoo/util/__init__.py", "pymoo/core/infill.py", "pymoo/operators", A, "pymoo/util/misc.py"],
     [("the run's generator", "Algorithm.setup / random_state"), ("default generator decorator", "pymoo.util.default_random_state"), ("operators called with random_state=", "core/{mating,crossover,mutation,selection,sampling,repair,survival}.py")],
     "interprocedural effect analysis on the resolved call graph (randomness effect, generator-passing obligations)",
     "every call site of every drawing callee is an obligation; class-hierarchy-sensitive resolution; user code and third-party optimizers excluded")
prop("P02", "The library leaves process-wide settings as it found them",
     "Importing or using the library never leaves a lasting change in process-wide state that does not belong to it: warning filters, numpy error and print settings, the global random state, environment variables, working directory, import path, standard streams, logging, signal handlers and the attributes of other libraries' modules. "
     "Where such a setting has to be changed temporarily it is restored on every exit, including exceptional ones.",
     ["histories", "fault_sequences"], "every sequence of calls, with or without exceptions",
     "A test would have to snapshot every global setting around every call on every path, including paths that raise.",
     ["pymoo/core", A, "pymoo/util", "pymoo/mcdm", "pymoo/vendor", "pymoo/visualization"],
     [("calls of state-changing externals", "whole package")],
     "effect analysis: inventory of calls that change process-wide state, with scope (context manager / try-finally) check",
     "exhaustive over all references in the package that resolve to a table of state-changing externals")
prop("P03", "Every problem evaluation goes through the evaluator and is counted once",
     "While an algorithm runs, its problem is only ever evaluated through the run's evaluator, so budgets, callbacks and parallel back-ends see every solution. "
     "Each evaluation request increases the reported number of function evaluations by exactly the number of solutions that were evaluated (already evaluated ones are skipped and not counted, unless counting was switched off), and nothing else changes that counter.",
     ["inputs", "configurations", "histories"], "all algorithms and problems, all mixes of evaluated and unevaluated solutions",
     "Tests check n_eval for a few algorithms; a bypass in a rarely used branch (local search, restart, initialization) is invisible to them.",
     ["pymoo/core/evaluator.py", "pymoo/core/problem.py", "pymoo/core/algorithm.py", A],
     [("evaluation and counting", "Evaluator.eval / _eval"), ("callers of Problem.evaluate", "whole package")],
     "call-graph query (who evaluates a problem) plus def-use analysis of the evaluator's index set and counter",
     "all call sites resolving to problem evaluation; the counter update is compared with the index set that is evaluated")
prop("P04", "Objective and constraint values are written only by evaluation",
     "The objective and constraint values of a solution in any population, archive, history or result are the ones the problem returned for its variables: no algorithm, operator, survival or display overwrites them, and variables are never changed on a solution that keeps values evaluated for the old ones.",
     ["inputs", "configurations", "histories"], "all algorithms and operators, all problems",
     "A stale or overwritten value only shows when it is compared with a re-evaluation of exactly that solution in exactly that generation.",
     ["pymoo/core/individual.py", "pymoo/core/evaluator.py", "pymoo/core/population.py", A, "pymoo/operators"],
     [("attribute writes on individuals and populations", "whole package"), ("evaluation", "Evaluator._eval")],
     "write-effect analysis of X/F/G/H/evaluated over individuals and populations (aliases included)",
     "every write of an evaluated attribute is located and must belong to the evaluation path or act on fresh individuals")
prop("P05", "Asking for candidates does not evaluate anything",
     "Asking an algorithm for its next candidates never evaluates the problem and never advances the iteration counter.",
     ["inputs", "configurations", "histories"], "all algorithms, at every iteration",
     "The tests drive ask/tell for two or three algorithms; others may evaluate inside their candidate generation.",
     ["pymoo/core/algorithm.py", A],
     [("ask / infill", "Algorithm.infill, _infill, _initialize_infill of all algorithms")],
     "call-graph reachability per algorithm class from candidate generation to evaluation",
     "receiver-class-sensitive reachability over all Algorithm subclasses")
prop("P06", "Watching a run does not change it",
     "Displays, outputs, progress bars, callbacks shipped with the library, history recording and termination criteria only observe: with or without them, verbose or not, a run visits the same solutions and returns the same result. "
     "They never modify the algorithm, its populations or its problem, never draw from the run's generator and never spend evaluations of the run.",
     ["configurations", "histories"], "all displays, outputs, callbacks and termination criteria with all algorithms",
     "Needs comparing runs with and without each observer for each algorithm, including criteria that only act late in a run.",
     ["pymoo/util/display", "pymoo/core/callback.py", "pymoo/core/termination.py", "pymoo/termination", "pymoo/core/algorithm.py"],
     [("observer entry points", "Output.update, Display.update, Callback.update/notify, Termination._update"), ("hook", "Algorithm._post_advance")],
     "non-interference by interprocedural mutation/effect analysis from observer entry points",
     "all overrides of the observer entry points; parameters may not be mutated directly or through callees")
prop("P07", "Computations on arrays leave the caller's data unchanged",
     "Indicators, decompositions, non-dominated sorting, dominance and crowding metrics, normalization, decision making, reference-direction generators, gradient and constraint helpers and problem evaluation never modify an array, population or option object passed to them, and never modify an array that a problem hands out from its cache (Pareto front, ideal point, bounds).",
     ["inputs", "histories"], "all public computations, all inputs, any order of calls",
     "Tests look at return values; an in-place update of an argument or of a cached array corrupts a later computation elsewhere.",
     ["pymoo/indicators", "pymoo/core/decomposition.py", "pymoo/decomposition", "pymoo/util", "pymoo/mcdm", "pymoo/problems", "pymoo/core/problem.py"],
     [("alias and in-place update tracking", "whole package")],
     "interprocedural alias and mutation analysis with per-function summaries",
     "every function has a may-mutate summary per parameter; public computations must have none for their data arguments")
prop("P08", "Runs are isolated from each other",
     "Objects created independently do not share state: nothing a run or a component does is visible to another one through default arguments, class attributes or module-level variables, so a run gives the same result whatever was created or executed before in the process. "
     "Solving with the functional interface leaves the algorithm and termination objects passed in untouched.",
     ["histories", "configurations"], "any sequence of constructions and runs in one process",
     "Each test builds fresh objects; leakage through a shared default or a class-level list needs two specific uses one after the other.",
     ["pymoo/optimize.py", "pymoo/core/algorithm.py", A, "pymoo/operators", "pymoo/util"],
     [("default-argument instances", "constructors of all classes"), ("module and class level mutable state", "whole package"), ("copying", "pymoo.optimize.minimize")],
     "escape/statefulness analysis of default-argument objects, class attributes and module globals",
     "all default arguments that create objects, all class-level and module-level containers")
prop("P09", "Candidates of box-constrained problems stay within the bounds",
     "Every candidate an algorithm proposes for a problem with bounds on real variables lies within those bounds: values produced by sampling, variation or any move are brought back inside after the last arithmetic step on every path.",
     ["inputs", "configurations", "histories"], "all real-valued algorithms and operators, all parents and all random draws",
     "An out-of-range value needs a rare draw or a parent at the border; tests only check a few operators on a few seeds.",
     ["pymoo/operators", A, "pymoo/core/mutation.py", "pymoo/core/crossover.py"],
     [("bound repairs", "pymoo/operators/repair"), ("candidate construction", "Population.new / Individual / set('X')")],
     "abstract interpretation with an in-bounds lattice over values flowing into candidates",
     "all sinks creating candidate variables in algorithms and real-valued operators; values must be repaired, sampled within, or copied")
prop("P10", "The evaluation of a solution depends on that solution alone",
     "For every built-in problem, the objectives, constraints and derivatives computed for a solution are a function of its variables and the problem's parameters: they do not depend on which other solutions are evaluated in the same call, on earlier evaluations, on random numbers or on time, and evaluating never changes the problem.",
     ["inputs", "histories", "schedules"], "all problems shipped, all batches and all orders of evaluation, sequential or parallel (dynamic problems: for a fixed time)",
     "A reduction along the wrong axis or a value stored on the problem gives right answers for the batches that the tests use.",
     ["pymoo/problems", "pymoo/core/problem.py"],
     [("_evaluate of all problems", "pymoo/problems/**")],
     "axis-sensitive abstract interpretation (which axis stands for the batch, what mixes its rows) and effect analysis of all _evaluate implementations",
     "every _evaluate in the package, interprocedurally through its helpers")
prop("P11", "Problems return what they declare",
     "For every built-in problem and every wrapper around a problem, an evaluation provides the objectives, and inequality and equality constraints exactly when the problem declares some, with one column per declared objective or constraint (one row per solution) on every path; the bounds have one value for each variable, and analytical Pareto-fronts and sets one column for each objective or variable.",
     ["inputs", "configurations"], "all problems shipped and all their parameters",
     "Tests instantiate a subset of the problems with default parameters.",
     ["pymoo/problems", "pymoo/core/problem.py"],
     [("declaration", "Problem.__init__ arguments"), ("outputs", "out[...] in _evaluate")],
     "abstract interpretation of array shapes (linear expressions over symbolic dimensions) and definite assignment, compared with the constructor's declaration",
     "every problem class and wrapper, once per combination of decisions its parameters leave open; shapes that cannot be followed are counted as undecided")
prop("P12", "Parallel evaluation returns results in the order of the inputs",
     "Whatever parallel back-end is used, and in whatever order its workers finish, the results of an evaluation are returned in the order of the solutions, one result for each, and a failing evaluation is raised rather than dropped.",
     ["schedules", "fault_sequences"], "all completion orders of all workers, for every back-end",
     "Local tests nearly always observe workers finishing in order.",
     ["pymoo/parallelization", "pymoo/core/problem.py"],
     [("runners", "pymoo/parallelization/*"), ("elementwise evaluation", "Problem._evaluate_elementwise")],
     "order-preservation dataflow analysis of every runner from inputs to returned results",
     "all runner classes; table of order-preserving and completion-order primitives")
prop("P13", "Algorithms can be copied, pickled and resumed at any iteration",
     "Algorithm, problem, operator, termination and result objects can be deep-copied and pickled before, during and after a run (checkpointing, history recording, process pools): no run state lives in something that cannot be serialised, and restoring gives back every attribute.",
     ["histories", "crash_points"], "all algorithms, at every iteration boundary",
     "Only a few algorithms are checkpointed by the tests.",
     ["pymoo/core", A, "pymoo/problems", "pymoo/operators", "pymoo/util"],
     [("instance attributes", "all classes reachable from an algorithm object"), ("state hooks", "__getstate__/__setstate__/__deepcopy__")],
     "type-and-effect analysis of values stored on instances (lambdas, closures, generators, handles, modules) against state hooks",
     "all attribute stores of persistable classes")
prop("P14", "Options that are accepted take effect",
     "Every option a public class or function accepts by name influences its behaviour: it is read on some path that a caller can reach, and an attribute that holds an option is read somewhere. "
     "No option is silently ignored or replaced by a constant.",
     ["configurations"], "all constructors and functions of the public interface, all their options",
     "A test has to vary each option and observe a difference; most options are never varied.",
     [A, "pymoo/operators", "pymoo/core", "pymoo/indicators", "pymoo/termination", "pymoo/util"],
     [("constructor parameters", "all public classes"), ("attribute reads", "whole package")],
     "liveness / def-use analysis of parameters and of the attributes they are stored in",
     "all named parameters of public constructors and operators")
prop("P15", "Survival and selection only pick among the given solutions",
     "Survival, replacement and parent selection return members of the population they were given, unchanged in variables and values, without duplicates beyond those given and never more than asked for; they never create, evaluate or modify solutions.",
     ["inputs", "configurations"], "all survival and selection operators, all populations",
     "The tests check front quality, not the identity of the survivors in degenerate populations.",
     ["pymoo/core/survival.py", "pymoo/operators/survival", "pymoo/operators/selection", A],
     [("survivors", "Survival.do / _do overrides"), ("selection", "Selection.do / _do overrides")],
     "path-sensitive abstract interpretation: symbolic lengths with inductive loop bounds, distinctness and provenance of the picked members",
     "all Survival and Selection overrides")
prop("P16", "Names, calls and interfaces in the library resolve",
     "No path of the library fails because of the code itself: every name and imported member exists, every local variable is bound before use, every call to a library function or constructor matches its signature, and every concrete class implements what its base class requires.",
     ["inputs", "configurations", "histories"], "all paths of all modules, including optional features and error handling",
     "Rare branches (restarts, degenerate populations, optional arguments) are never executed by the tests.",
     ["pymoo"],
     [("resolved names and calls", "whole package")],
     "name resolution, definite-assignment dataflow and signature conformance over the resolved call graph",
     "all functions of the package; calls whose targets resolve to package functions")
prop("P17", "Temporary changes are undone even when something fails",
     "When the library temporarily changes an object that outlives the operation - detaching parts of an algorithm to record history, switching a problem or a toolbox to another mode, redirecting an evaluator - the original state is back after the operation, whether it returned or raised.",
     ["fault_sequences", "crash_points"], "every exception at every point between change and restoration",
     "Tests do not inject failures between the change and the restoration.",
     ["pymoo/core", "pymoo/gradient", "pymoo/util", A],
     [("save/restore pairs", "whole package")],
     "path-sensitive typestate analysis of save/modify/restore sequences (finally coverage)",
     "all functions that save an attribute, overwrite it and write it back")
prop("P18", "Termination budgets are counted exactly and combine as documented",
     "Every iteration of every algorithm updates its termination criterion exactly once, and a run stops at the first iteration at which the budget it was given is used up. "
     "A termination built from several criteria ends the run as soon as one of them is met (or, if so documented, when all are), and the default terminations always contain a hard budget.",
     ["inputs", "configurations", "histories"], "all algorithms, budgets and compositions",
     "Tests run a few budgets; off-by-one or double updates in one algorithm are invisible to others.",
     ["pymoo/core/termination.py", "pymoo/termination", "pymoo/core/algorithm.py"],
     [("update and progress", "Termination.update/has_terminated/_update"), ("iteration counting", "Algorithm._post_advance/advance")],
     "structural dataflow analysis of counters and progress values, call-site inventory of update",
     "all Termination subclasses, all call sites of update and all writes of the iteration counter")
prop("P19", "Offspring are repaired, then checked for duplicates, in every generation",
     "When an algorithm is given a duplicate elimination and a repair, every generation of candidates it returns has been repaired first and then compared with the current population and with the candidates already collected, with nothing changing the candidates afterwards. A repair stores what it repairs, the options given to an algorithm reach the criteria it builds, and a duplicate elimination compares every pair and keeps exactly one of equal individuals.",
     ["inputs", "configurations"], "all infill criteria and algorithms that accept the options",
     "A duplicate after repair needs specific parents and draws.",
     ["pymoo/core/infill.py", "pymoo/core/mating.py", "pymoo/core/initialization.py", "pymoo/core/duplicate.py", A],
     [("order of stages", "InfillCriterion.do, Initialization.do, Mating subclasses")],
     "forward abstract interpretation (typestate of candidate collections: created, repaired, compared) with provenance of constructor options",
     "all infill/initialization paths returning candidates")
prop("P20", "The hypervolume of a front is computed exactly",
     "The hypervolume indicator returns the exact volume dominated by the given points with respect to the reference point, for any number of objectives and any set of points, including duplicates and points on the boundary.",
     ["inputs"], "all fronts and reference points",
     "Tests compare a few fronts with stored values.",
     ["pymoo/indicators/hv", "pymoo/vendor/hv.py"],
     [("hypervolume", "pymoo/indicators/hv")],
     na="the result is a numeric function of unbounded real inputs; no static argument in reach decides that the computed volume equals the mathematical one (aliasing and purity of the code are covered by P07)")
prop("P21", "Non-dominated sorting ranks every population correctly",
     "For every set of objective vectors, every sorting method returns the unique partition into fronts of mutually non-dominating points, and all methods agree with each other.",
     ["inputs"], "all matrices of objective values",
     "Tests sample random matrices.",
     ["pymoo/util/nds", "pymoo/cython"],
     [("sorting", "pymoo/util/nds/*.py, pymoo/functions/standard")],
     na="functional correctness of sorting algorithms over unbounded numeric matrices needs testing or proof of loop invariants; a static rule on the source would not decide it")
prop("P22", "Algorithms approach the Pareto front of the benchmark problems",
     "With the documented settings and a sufficient budget, every algorithm reaches a front close to the true Pareto front of the benchmark problems.",
     ["inputs", "configurations"], "all algorithms, problems and seeds",
     "Convergence is stochastic; tests run short budgets.",
     [A, "pymoo/problems"],
     [("search", "pymoo/algorithms")],
     na="a statistical statement about stochastic search; it cannot be read off the source")
prop("P23", "Stated gradients equal the derivatives of the objectives",
     "Derivatives provided by a problem, or computed automatically or numerically, agree with the derivatives of its objectives and constraints at every point.",
     ["inputs"], "all problems with gradients, all points",
     "Tests compare at sampled points.",
     ["pymoo/gradient", "pymoo/problems"],
     [("gradients", "pymoo/gradient/*.py, problems with dF")],
     na="numeric equality over real inputs (and the accuracy of finite differences) is not decidable by a static rule on the source")
