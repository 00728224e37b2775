HEAD = """# Static verification of pymoo

*(generated by `tools/design.py` from `tools/design_text.py`, `tools/proptable.py`, the checks' own descriptions, `known_findings.json`
and the metadata of the planted bugs; edit those and regenerate)*

## 1. Approach

Technique family: **static analysis**. A check never imports or runs anything of /repo. `check.py <ID>` parses the current
`/repo/pymoo/**/*.py` with the standard library's `ast` and `symtable`, builds one resolved program
model and decides the property on it with the analyses below. No file of /repo is written; nothing is kept between runs except
`evidence/` (rewritten by each run) and `known_findings.json` (only edited by hand).

| module | what it is |
|---|---|
| `sa/model.py` | the program model: modules, imports, scopes, classes with linearised bases, functions (nested ones and lambdas too), attribute types, resolution of names and calls per receiver class (class-hierarchy analysis), `typeset` of an expression |
| `sa/normal.py` | one form for equivalent code, applied before anything else: inverted tests, comparisons with constants, counting `while` loops, loops that only collect |
| `sa/inline.py` | code that was moved is judged where it came from: helpers, constants and temporaries that are not in `sa/baseline.json` (`tools/baseline.py`) are put back in place of their uses, where this keeps the meaning |
| `sa/rng.py` | randomness effect: who draws from a `random_state`, who forwards it, the `default_random_state` decorator |
| `sa/effects.py` | interprocedural alias and in-place-update summaries to a fixpoint, with a table of numpy functions (view / copy / in-place) |
| `sa/flow.py`, `sa/paths.py`, `sa/sympath.py` | def-use chains; enumeration of statement paths through loops, handlers and finally blocks with correlated tests |
| `sa/symb.py`, `sa/lens.py` | canonical forms of expressions with helpers inlined; symbolic collections (length, distinctness, provenance) |
| `sa/problems.py`, `sa/shape.py` | abstract interpreter of problem classes: symbolic shapes, which axis stands for the designs |
| `sa/boxes.py` | abstract interpreter of candidates: affine forms over bounds and inside points, masks and clips |
| `sa/report.py` | findings (rule + construct), evidence, known findings, floors, exit codes |

Conventions that hold for every check:

* **behaviour-preserving edits stay silent.** Beside hand-written refactorings, whole-package transformations were applied mechanically and all checks run on the
  result: every returned expression given a name, every `if/else` inverted, all local variables renamed, conditional expressions and comprehensions written out, the second
  half of every longer function moved into a helper (570), every computed right-hand side moved into a function (2337), `range` loops as `while`, `enumerate` by
  index, early returns nested and flattened, keyword arguments and independent assignments swapped, comparisons mirrored, tuple assignments split, arguments hoisted
  (871), conjunctions nested. All are silent, except that renaming a variable that a known finding is named after reports it under the new name.

* a finding is `rule | construct` (class, function, call site, attribute); exit 1 with the VIOLATION line only for findings which are not in
  `known_findings.json`; known ones are printed as KNOWN-FINDING and do not fail the run.
* **what is not understood is not reported**. Every abstract domain has an explicit *unknown*; obligations that end there are counted as
  `undecided` in the evidence (and listed in the notes) and never become a violation.
* so that "nothing reported" cannot come from an analysis that saw nothing, every count has a floor confirmed by hand (generously below today's
  value, so that ordinary edits do not touch it) and every rule has self-tests: tiny packages with a violation which must be reported with exactly
  this construct, and correct counterparts that must stay silent. A missed floor, a failed self-test or a vanished anchor exits 3 (no answer), not 0.
* judgements use the resolved program (values, paths, call targets), so helper extraction, renaming, reordering of independent statements, loops turned
  into comprehensions and the like do not change them; this was tested with hand-made refactorings and no-op statements for each check.
* quick and thorough run the same exhaustive analysis: the analyses are whole-program and have no depth to increase; the property is decided over all
  constructs on each run (5 s to 60 s each on an idle machine, one core, about 100 MB).

The level of every check is `other` (a sound-where-it-decides static analysis; `explanation` in the evidence says what is decided).
"""

UNDECIDED = {
"P01": "Not covered: user code and generators of other libraries (Optuna; the CMA-ES library draws from numpy's global state, see P02). `foreign-generator` (a generator created from a constant) is not applied to problems, whose data sets are seeded on purpose.",
"P02": "The known findings are the vendored dMOP3 and the CMA-ES library (both use process-global generators), the font set by every plot, and jax's 64-bit switch, which the gradients need.",
"P03": "The scipy wrappers hand plain functions to scipy and count by themselves: recorded as known findings. A problem that evaluates another problem inside `_evaluate` (wrapper problems, hyper-parameter problems) counts once on purpose.",
"P04": "Normalisation in place of a copy is P07's question. Solutions built by the user are the user's.",
"P05": "`WolfeSearch._infill` evaluates inside the line search: recorded as known finding (it is an old interface and the only algorithm of its kind).",
"P06": "Not covered: what a user's callback does. Displays that keep values of their own are allowed to.",
"P07": "Parameters that are documented as output (`out`), and objects whose class is a container written by its owner (Population.set), are specified in `SPEC` with the reason.",
"P08": "The automatic-differentiation backend switch is process-wide while an evaluation runs; with threads two backends could race, but with only autograd shipped nothing observable depends on it. It is not part of P12 or P08.",
"P09": "Decided 167 of 253 candidate constructions; undecided are: Latin hypercube sampling, CMA-ES, Optuna, Wolfe line search, binary/permutation/choice operators (their candidates are not points of a box), the vertex of the quadratic interpolation, slopes between points. Numeric options are taken at their default values or ranges; components supplied by the user keep whatever they get inside; column misalignment (a bound of another variable) is not judged; loops are assumed to run; only loop variables over range/enumerate/zip count as covering an axis; assertions establish nothing; rounding below 1e-9 is neglected. Unused repairs (`repair_periodic`, `util.misc.repair`) and `ExponentialSearch` (old interface, its step cannot run) are outside.",
"P10": "Problems that evaluate functions of the user (FunctionalProblem, HyperparameterProblem) and values that the interpreter cannot follow are undecided (29 of 415).",
"P11": "Fronts and sets are decided in 245 of 784 cases (most of the rest reads files or third-party data, or returns None for parameters without a closed form). Indices out of the range of the declared columns are not judged.",
"P12": "What a distributed scheduler itself does with tasks (dask, ray) is outside; the order in which pymoo submits and collects is inside.",
"P13": "The values stored by user code are outside. Whether a resumed run gives the same numbers also needs P01 and P08.",
"P14": "Callbacks are not covered; names swallowed by a base class's `**kwargs` are not options \"by name\"; inherited options are reported only within the Algorithm family; attributes of record classes count as used; reads that only validate do not. An option whose effect cancels numerically (NonDominatedSorting.epsilon shifts all values) is not detectable this way.",
"P15": "Replacement survivals keep the population size on purpose. The direction of a preference (who wins a tournament) is not covered. Picks determined numerically (cutting by crowding, clustering) whose count cannot be bounded symbolically are counted as undecided.",
"P16": "Dynamic attribute access (`getattr` with computed names) is outside; values of unknown type are not reported.",
"P17": "An *episode* needs a restoration somewhere in the function or its paired method: a change that is never undone anywhere is P02/P06/P08's question, not this one's.",
"P18": "Time-based criteria: the clock itself is not modelled, only that the comparison uses elapsed time since the start time of the algorithm.",
"P19": "DE/ES-style algorithms without duplicate elimination are only required to repair. BRKGA's random mutants are not compared with the population (they are random keys; documented). KGB's centroid solutions are a known finding.",
}

DECISIONS = """## 3. Decisions on borderline cases

* Planted bugs live in `seeded/` and, those that are not run each time to keep `vcheck` short, in the same form in `planted/`.
* `pymoo.problems.dynamic.misc` is unfinished code (its problems treat the batch as one design and call helpers with wrong arguments). Its failures are
  genuine, but a repair means writing the benchmark anew: recorded as known findings of P10, P11 and P16.
* `pymoo.vendor.vendor_cmaes` contains names that are never defined (in branches that only interactive use reaches): known findings of P16.
* `algorithms/base/meta.py` (MetaAlgorithm/MetaAlgorithm2), `ExponentialSearch`, `MultiObjectiveSpaceTerminationWithRenormalization` and
  `experimental/` classes such as ReferenceDirectionGA use interfaces that no longer exist; what can be shown to fail is a known finding of P14 or P16, nothing was deleted.
* A criterion or mating object built by the user is configured by the user: it does not inherit repair or elimination from the algorithm (P19).
* The dead branch `hasattr("res", "nit")` of the scipy wrapper was left alone (no property depends on it).
* The non-convex branch of the quadratic interpolation's `_advance` may keep the wrong half of the bracket; search quality is not a claimed property.
* `RobustTermination` with fewer than `period` entries: existing behaviour left as it is.
* A decision recorded during the work: where a check reported something that is right in the code, the check was changed (abstract domain refined or
  property restated), never silenced by an exception list. The exception tables that exist (`SPEC` in effects, record containers, output parameters) state a
  contract that is documented in pymoo.
"""

HISTORY = {
"s13": "missed at first (a swallowed attribute error in the receiver's types); P14 now uses exact receivers",
"s16": "missed at first; P17 learned that attributes detached together have to be restored together",
}

TAIL = """Besides the bugs kept above, several hundred small mutations (hand-written specifications per property, applied to scratch copies) were used while the
checks were built: each rule was seen to fire on changes of the kind it is meant for and to stay silent on behaviour-preserving edits of the same places
(helper extracted, statements reordered, loops rewritten, names changed, no-op statements and comments added).
"""
