#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one JSON object per line)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files,
                          mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state: d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if observe: d["anchors"]["observe_at"] = observe
    d["anchors"]["hook_needed"] = None
    assert len(title) <= 80, title
    P.append(d)

p("P01", "Built formulas mean what was requested and never change afterwards",
  "Whatever was built before in a factory, every formula obtained from it denotes exactly the Boolean function its construction call describes (constants, negations, nesting, duplicates and complementary operands, cardinality and pseudo-Boolean special cases included), and repeating a construction yields the identical formula. Reading a formula back (sort, operands, literal names, constraint parts) agrees with what was built, and no later construction or computation changes a formula that already exists.",
  ["histories", "inputs"],
  "all sequences of construction calls up to a depth in one factory, all operand lists up to a length (with constants, complements, repetitions), all comparators and bounds",
  "The tests build a few dozen hand-picked formulas in fresh factories; hash-consing makes the outcome of a call depend on the whole history of the factory, so only enumeration of histories reaches a stale or colliding table entry.",
  ["formula/factory.go", "formula/formula.go", "formula/set.go", "formula/proposition.go"],
  [("hash-consing and operand condensation", "formula/factory.go: CachingFactory.And/Or/Not/Implication/Equivalence/CC/PBC"),
   ("formula-id encoding", "formula/formula.go: EncodeFormula, EncodeLiteral")],
  [("formula tables", "maps from operands to formula ids, one per sort", "formula/factory.go")],
  ["Factory accessors: BinaryLeftRight, NaryOperands, NotOperand, PBCOps, LiteralNamePhase"])
p("P02", "Printing and parsing are inverse, and the parser is total",
  "Printing any formula and parsing the text back into the same factory yields the same formula, and into another factory one with the same structure. Parsing any text either returns a formula that uses the whole text with the documented operator precedence and associativity, or returns an error; it never panics and never silently ignores part of its input.",
  ["inputs"],
  "all formulas up to a depth including constraints; all token strings up to a length over the language's alphabet",
  "The tests parse a fixed list of well-formed and a few ill-formed strings; precedence, bracket placement and error handling depend on combinations of operators and tokens that only exhaustive enumeration covers.",
  ["formula/printer.go", "parser/propositional_parser.go", "parser/logicngpropositional_parser.go", "parser/LogicNGPropositional.g4"],
  [("printer bracketing", "formula/printer.go"), ("grammar and listener", "parser/propositional_parser.go")],
  None, ["Formula.Sprint", "PropositionalParser.Parse"])
p("P03", "Evaluation and restriction follow the formula's truth table",
  "Evaluating a formula under a (partial) assignment gives the value of its Boolean function with unassigned variables taken as false, restricting it gives a formula denoting exactly the cofactor, and the constant-evaluation tests never claim a constant that the cofactor is not, and recognise every constant that three-valued evaluation of the formula under the assigned values yields. An assignment or model always reports precisely the literals put into it and rejects contradictory ones.",
  ["inputs", "histories"],
  "all formulas up to a depth x all partial assignments over their variables, all insertion histories of assignments",
  "Tests sample a handful of formulas and assignments; agreement with the semantics is a statement about every formula and every partial assignment.",
  ["assignment/assignment.go", "assignment/evaluate.go", "assignment/restrict.go", "assignment/evaluate_to_constant.go", "model/model.go"],
  [("recursive evaluation", "assignment/evaluate.go"), ("restriction", "assignment/restrict.go"), ("constant evaluation", "assignment/evaluate_to_constant.go")])
p("P04", "Substitution, quantifier elimination, anonymisation keep their semantics",
  "Substituting formulas for variables, substituting literals, eliminating quantifiers, anonymising and expanding at-most-one/exactly-one constraints each return a formula denoting exactly the function that the operation defines on the original's Boolean function. Variables not covered by the operation are left alone and simultaneous substitutions do not interfere with each other.",
  ["inputs"],
  "all formulas up to a depth x all substitutions/quantified sets over their variables",
  "Tests fix a few formula/substitution pairs; simultaneous substitution, negative phases and constraints combine in ways only enumeration covers.",
  ["transformation/substitution.go", "transformation/literal_substitution.go", "transformation/qe.go", "transformation/anonymizer.go", "transformation/pure_expansion.go"],
  [("substitution", "transformation/substitution.go"), ("quantifier elimination", "transformation/qe.go")])
p("P05", "Structural formula functions report the true structure, also when cached",
  "Occurring variables and literals, depth, numbers of atoms and nodes, sub-nodes and variable/literal profiles always equal the values defined by the formula's operand structure. The answer does not depend on which other functions were called before on this or any other formula of the factory.",
  ["inputs", "histories"],
  "all formulas up to a depth, all orders of calling the functions on a shared factory",
  "Results are memoised per factory; tests call each function on fresh formulas, so wrong sharing between cache entries is invisible to them.",
  ["formula/function.go", "formula/formula_depth.go", "formula/number_of_atoms.go", "formula/number_of_nodes.go", "formula/subnode.go", "formula/formula_profile.go", "formula/formula.go", "formula/factory.go"],
  [("function caches", "formula/factory.go"), ("recursive functions", "formula/number_of_nodes.go, formula/formula_depth.go")])
p("P06", "Equivalence-preserving normal forms keep the meaning and have the shape",
  "NNF, factorised CNF and DNF, and-inverter form, BDD-based CNF/DNF and canonical CNF/DNF each return a formula in the promised shape that is equivalent to the input (for inputs with cardinality/pseudo-Boolean constraints: equivalent after projecting away newly introduced variables). The shape predicates answer true exactly for formulas of that shape, independent of earlier calls on the same factory.",
  ["inputs", "histories"],
  "all formulas up to a depth over a few variables incl. constraints, all orders of normal-form calls on one factory",
  "Tests check some formulas by hand or with random samples; both equivalence and shape are claims about every formula and call order (results are cached).",
  ["normalform/nnf.go", "normalform/cnf.go", "normalform/dnf.go", "normalform/aig.go", "normalform/term.go", "bdd/normalform.go", "model/enum/normalform.go"],
  [("NNF", "normalform/nnf.go"), ("factorization", "normalform/cnf.go, normalform/dnf.go"), ("AIG", "normalform/aig.go")])
p("P07", "Tseitin and Plaisted-Greenbaum CNFs preserve models over original variables",
  "For every formula and every boundary or algorithm setting, the definitional CNF transformations return a CNF whose models, projected to the original variables, are exactly the models of the input. This also holds when the auxiliary state is shared between several formulas, or the same formula is transformed again.",
  ["inputs", "configurations", "histories"],
  "all formulas up to a depth x boundaries/algorithms, all short sequences of transformations sharing one state",
  "Tests check satisfiability of a few transformed formulas; polarity mistakes only remove or add some projected models, and shared state matters only for particular sequences.",
  ["normalform/cnf.go"],
  [("Tseitin", "normalform/cnf.go"), ("Plaisted-Greenbaum", "normalform/cnf.go")])
p("P08", "Cardinality encodings are exact for every encoder, bound and size",
  "The CNF produced for any cardinality constraint by any encoder setting has, projected to the constraint's variables, exactly the assignments that satisfy the constraint. After any sequence of tightenings through the incremental interface, it has exactly the assignments within the tightest bound.",
  ["configurations", "inputs", "histories"],
  "all comparators x right-hand sides x numbers of variables up to a bound x all encoder settings and group parameters x all tightening sequences",
  "Tests check counts for selected sizes with default settings; group sizes, borders and incremental sequences multiply into thousands of distinct code paths.",
  ["encoding/amo.go", "encoding/cc_encoding.go", "encoding/cc_totalizer.go", "encoding/cc_modular_totalizer.go", "encoding/cc_cardinality_network.go", "encoding/cc_incremental_data.go", "encoding/config.go", "sat/encoding_result.go", "encoding/result.go"],
  [("AMO encoders", "encoding/amo.go"), ("totalizers and networks", "encoding/cc_*.go"), ("incremental bounds", "encoding/cc_incremental_data.go")])
p("P09", "Pseudo-Boolean encodings, normalisation and negation are exact",
  "The CNF produced for any pseudo-Boolean constraint (any comparator, positive, negative and zero coefficients, repeated or complementary literals) by any encoder has, projected to the constraint's variables, exactly the constraint's solutions. Normalising a constraint gives an equivalent formula and negating it gives one denoting exactly the complement.",
  ["configurations", "inputs"],
  "all comparators x coefficient vectors x literal phases x right-hand sides up to a bound x encoders and their options",
  "Tests use a few dozen constraints; exactness depends on arithmetic of coefficients and borders that only enumeration covers.",
  ["encoding/pbc_encoding.go", "encoding/pbc_swc.go", "encoding/pbc_binary_merge.go", "encoding/pbc_adder.go", "encoding/normalize.go", "formula/factory.go"],
  [("SWC / binary merge / adder networks", "encoding/pbc_*.go"), ("normalisation", "encoding/normalize.go")])
p("P10", "SAT verdicts and models are right under every solver configuration",
  "For every set of formulas, propositions and constraints and every solver configuration, the solver answers satisfiable exactly when the conjunction has a model, and a returned model satisfies every added formula and assigns the requested variables (those the solver knows) and no others. The satisfiability, tautology, contradiction, implication and equivalence predicates agree with the truth table.",
  ["inputs", "configurations"],
  "all clause sets and formulas up to a bound, structured families that force restarts, learning, minimisation and clause deletion, x all configurations",
  "Tests use a few benchmark files whose verdict is known; a search bug shows up only for particular clause orders, learnt clause patterns and settings.",
  ["sat/core.go", "sat/solver.go", "sat/pg_on_solver.go", "sat/call.go", "sat/config.go", "sat/datastructures.go", "sat/heap.go", "sat/predicate.go"],
  [("CDCL search", "sat/core.go: search, analyze, propagate, reduceDB"), ("formula to clauses", "sat/solver.go, sat/pg_on_solver.go")])
p("P11", "SAT answers stay right over every incremental history",
  "After any sequence of adding formulas, adding incremental constraints and tightening them, solving with or without assumptions or temporarily added formulas, saving and loading states, and asking for models, cores, optimisations, backbones or enumerations, the solver answers every call as if a fresh solver had been given exactly the formulas in force at that point. Loading a state restores exactly the formulas present when it was saved, and invalidated states are rejected. The formulas and variable occurrences reported for the solver are those in force.",
  ["histories", "configurations"],
  "all operation sequences up to a depth over a small alphabet of formulas, assumptions, save/load points and calls, x configurations",
  "Tests run a few scripted incremental scenarios; residue from an earlier call (learnt clauses, watches, trail, selectors) matters only for particular sequences.",
  ["sat/solver.go", "sat/core.go", "sat/core_state.go", "sat/call.go", "encoding/cc_incremental_data.go"],
  [("save/load state", "sat/core_state.go, sat/core.go"), ("assumption handling", "sat/core.go"), ("call set-up and roll-back", "sat/call.go")],
  [("solver state stack", "valid saved states", "sat/core.go")])
p("P12", "Canceling a SAT-based computation never yields a wrong answer",
  "If a handler stops a SAT call, optimisation, backbone or enumeration on a solver at any event, the result is marked as canceled or is a completed correct one, and it never reports an incorrect verdict, model, bound or backbone as final. The solver stays usable and answers every later call correctly.",
  ["fault_sequences", "histories"],
  "every event index of every computation on a set of instances as cancelation point, followed by further calls",
  "Tests cancel at one or two chosen points; the solver's invariants after an abort depend on where exactly the abort happened.",
  ["sat/core.go", "sat/call.go", "sat/backbone.go", "sat/optimizer_function.go", "model/iter/iteration.go", "handler/handler.go"],
  [("handler checks in search", "sat/core.go"), ("call roll-back", "sat/call.go")])
p("P13", "Canceling any other computation is reported and leaves no damage",
  "For every computation accepting a handler (factorised normal forms, simplifications, prime covers, BDD and DNNF compilation, MaxSAT, minimal unsatisfiable subsets, counting), stopping it at any event makes it report the cancelation, or deliver a complete correct result; partial data are never presented as a success. Repeating the computation afterwards on the same factory or object without a handler gives the correct result.",
  ["fault_sequences", "histories"],
  "every event index of every computation over a set of inputs as cancelation point, followed by an uncanceled rerun",
  "Tests cancel at a few fixed counts; each event index exercises a different unwinding path.",
  ["normalform/handler.go", "normalform/cnf.go", "normalform/dnf.go", "simplification/advanced.go", "primeimplicant/computation.go", "bdd/construction.go", "bdd/handler.go", "dnnf/compiler.go", "maxsat/solver.go", "maxsat/algorithm.go", "explanation/mus/mus.go", "explanation/smus/smus.go", "model/count/dnnf_counting.go"],
  [("handler state propagation", "each package's ...WithHandler function")])
p("P14", "Unsat cores are unsatisfiable subsets of what was asserted",
  "Whenever a core is requested for an unsatisfiable call, the core consists only of propositions that were asserted on the solver or in that call (including assumptions), each one an original object, and their conjunction is unsatisfiable. This holds after any history of additions, assumption calls and state changes.",
  ["inputs", "histories"],
  "all proposition sets over small clause/formula alphabets and all short histories with assumptions and save/load",
  "Tests check cores of a few known instances; the proof trace checked against a wrong clause set fails only for particular histories.",
  ["sat/proofs.go", "sat/unsat_core.go", "sat/core.go", "explanation/unsat_core.go"],
  [("DRUP trace checking", "sat/proofs.go"), ("clause-to-proposition mapping", "sat/unsat_core.go")])
p("P15", "MUS are minimal and SMUS are minimum",
  "For every unsatisfiable list of propositions, both MUS algorithms return an unsatisfiable sub-list every proper subset of which is satisfiable, and the SMUS computation returns an unsatisfiable sub-list of least possible size relative to the additional constraints. For satisfiable input they report this instead of returning a set.",
  ["inputs"],
  "all lists of formulas up to a length over a small alphabet, with additional constraints",
  "Tests check a few instances; minimality is a statement over all subsets of every input.",
  ["explanation/mus/mus.go", "explanation/smus/smus.go"],
  [("deletion/insertion based", "explanation/mus/mus.go"), ("hitting set loop", "explanation/smus/smus.go")])
p("P16", "Backbones are exactly the forced literals",
  "For every formula set, set of relevant variables and backbone type, the computed backbone contains exactly the literals over the relevant variables that hold in all models, lists the rest as optional, and reports unsatisfiability exactly when there is no model. This holds on a solver with any previous history and leaves the solver unchanged.",
  ["inputs", "histories", "configurations"],
  "all clause sets/formulas up to a bound x variable subsets x types x configurations, with calls before and after",
  "Tests compare a few instances; filters and early exits drop literals only in particular constellations.",
  ["sat/backbone.go", "simplification/backbone.go", "sat/core.go"],
  [("core-guided backbone search", "sat/backbone.go")])
p("P17", "Literal optimisation on the solver is optimal",
  "Maximising (minimising) a set of literals returns a model of the solver's formulas in which the number of satisfied target literals is the largest (smallest) possible, and reports failure exactly when the formulas are unsatisfiable. The model covers the requested variables and the solver is unchanged afterwards.",
  ["inputs", "histories"],
  "all clause sets/formulas up to a bound x all literal lists x configurations",
  "Tests use a few instances with known optimum; off-by-one bounds or early exits matter only in particular score landscapes.",
  ["sat/optimizer_function.go", "encoding/cc_incremental_data.go"],
  [("incremental bound search", "sat/optimizer_function.go")])
p("P18", "Every MaxSAT algorithm returns the true optimum",
  "For every set of hard formulas and weighted soft formulas and every algorithm and configuration that supports it, the solver reports unsatisfiable exactly when the hard formulas are, and otherwise the minimum possible total weight of violated soft formulas, together with a model satisfying the hard formulas and attaining that weight. All algorithms agree.",
  ["inputs", "configurations"],
  "all small hard/soft sets with weights x all algorithms and option settings",
  "Tests use a few benchmark instances with known optimum; core-guided algorithms go wrong only for particular core and weight constellations.",
  ["maxsat/algorithm.go", "maxsat/solver.go", "maxsat/alg_linear_su.go", "maxsat/alg_linear_us.go", "maxsat/alg_msu3.go", "maxsat/alg_wmsu3.go", "maxsat/alg_oll.go", "maxsat/alg_wbo.go", "maxsat/alg_incwbo.go", "maxsat/encoder.go", "maxsat/enc_totalizer.go", "maxsat/enc_swc.go", "maxsat/enc_ladder.go", "maxsat/pg_on_solver.go", "maxsat/reader.go"],
  [("core-guided and linear search", "maxsat/alg_*.go"), ("encodings", "maxsat/enc_*.go")])
p("P19", "MaxSAT stays optimal over incremental histories and state changes",
  "After any sequence of adding hard and soft formulas, solving, and saving and loading states, each solve reports the optimum for exactly the formulas in force, as a fresh solver would. Loading a state restores the formulas present when it was saved, and invalid states are rejected.",
  ["histories"],
  "all operation sequences up to a depth over add hard / add soft / solve / save / load x algorithms",
  "Tests script a handful of incremental scenarios; left-over relaxation variables, weights or cached results matter only for particular sequences.",
  ["maxsat/solver.go", "maxsat/algorithm.go"],
  [("state save/load", "maxsat/algorithm.go"), ("result caching", "maxsat/solver.go")])
p("P20", "Model enumeration delivers every projected model exactly once",
  "Enumerating models of a formula or solver over any variable set with any strategy, split option or additional variables yields exactly the set of assignments of those variables that extend to a model, each exactly once, with additional variables assigned consistently; counting by enumeration gives their number. A limit on the number of models stops the computation exactly when that many were found. A solver used for enumeration is unchanged afterwards.",
  ["inputs", "configurations", "histories"],
  "all formulas/clause sets up to a bound x projections x strategies and split parameters",
  "Tests compare counts for some formulas; a split or blocking error drops or repeats models only for particular projections and depths.",
  ["model/iter/iteration.go", "model/iter/split.go", "model/iter/strategy.go", "model/iter/collectors.go", "model/enum/enumeration.go", "model/enum/enumeration_bdd.go", "model/count/sat_counting.go"],
  [("recursive splitting", "model/iter/iteration.go"), ("collectors", "model/enum/enumeration.go, model/count/sat_counting.go")])
p("P21", "Model counts are exact for every counting method",
  "Counting the models of formulas over a variable set (DNNF-based, BDD-based or directly on a compiled DNNF) returns exactly the number of satisfying assignments of those variables, and a compiled DNNF is equivalent to its formula. Counting again or in another order gives the same number (DNNF-based counting supports no constraints beyond at-most-one and exactly-one).",
  ["inputs", "histories"],
  "all formulas/clause sets up to a bound x variable supersets, structured families with more variables",
  "Tests compare some counts with known values; component splitting and caching errors depend on particular formula structure.",
  ["model/count/dnnf_counting.go", "dnnf/compiler.go", "dnnf/dnnf.go", "dnnf/dtree.go", "dnnf/dtree_generator.go", "dnnf/bitset.go", "sat/dnnf_solver.go"],
  [("component caching and decomposition", "dnnf/compiler.go"), ("counting", "dnnf/dnnf.go")])
p("P22", "BDD operations are exact and canonical over every operation history",
  "On one kernel, after any history of compilations and operations, every BDD still represents exactly its Boolean function, equivalent functions are represented by the same node, and restriction, quantification, models, counts, support, node representation and normal forms agree with the function's truth table. This holds no matter when garbage collections and table resizes happen.",
  ["histories", "inputs"],
  "all formulas/functions up to a bound, all operation sequences up to a depth, with table sizes that force collection and growth at different points",
  "Tests use large tables and a few operations, so collections and cache collisions rarely happen; they must be harmless at every point.",
  ["bdd/kernel.go", "bdd/construction.go", "bdd/operation.go", "bdd/bdd.go", "bdd/cache.go", "bdd/node.go", "bdd/function.go"],
  [("unique table, reference counts and garbage collection", "bdd/kernel.go"), ("operation caches", "bdd/cache.go")],
  [("node table", "unique table with reference counts", "bdd/kernel.go")])
p("P23", "BDD variable reordering never changes a represented function",
  "After any sequence of reorderings by any method, explicit variable swaps, block definitions and reordering triggered during construction, every BDD of the kernel represents the same Boolean function as before and later operations are still exact. The reported order is a permutation of the variables and is the one the nodes obey (blocks are nested or disjoint).",
  ["histories", "configurations"],
  "all methods x block structures x swap sequences x functions up to a bound, with operations in between",
  "Tests reorder a few large formulas and compare counts; a wrong level swap shows up only for particular functions and orders.",
  ["bdd/reordering.go", "bdd/tree.go", "bdd/kernel.go", "bdd/ordering.go"],
  [("adjacent level swap", "bdd/reordering.go"), ("sifting/windows", "bdd/reordering.go")])
p("P24", "Prime covers and minimum prime implicants are correct",
  "For every formula, the computed prime implicants are implicants and prime, the computed prime implicates are implicates and prime; the implicant part (cover sort implicants) or implicate part covers the formula exactly. The minimum prime implicant is an implicant of least possible size.",
  ["inputs"],
  "all Boolean functions over up to four variables and all formulas up to a depth x cover sorts x maximising/minimising variants",
  "Tests check samples; primality and coverage quantify over all formulas and all sub-terms.",
  ["primeimplicant/computation.go", "primeimplicant/minimum_implicant.go"],
  [("dual-rail optimisation loop", "primeimplicant/computation.go"), ("reduction", "primeimplicant/computation.go")])
p("P25", "Simplifications preserve equivalence",
  "Every simplification (advanced, Quine-McCluskey style, backbone and unit propagation, factoring out, distribution, negation minimisation, CNF/DNF subsumption) returns a formula equivalent to its input under every configuration, subsumption keeps exactly the subsumption-minimal clauses or terms, backbone propagation leaves forced variables only in their unit conjuncts, and the Quine-McCluskey variant returns a DNF of prime implicants with the fewest possible terms. Factoring out and negation minimisation never return a longer formula.",
  ["inputs", "configurations"],
  "all formulas up to a depth x configuration options; all clause/term sets up to a bound for subsumption",
  "Tests check a handful and random samples; loss of equivalence requires a particular operand pattern.",
  ["simplification/advanced.go", "simplification/backbone.go", "simplification/distribution.go", "simplification/factor_out.go", "simplification/negation_simplifier.go", "simplification/subsumption.go", "simplification/unit_propagation.go", "sat/unit_propagator.go"],
  [("simplifier rewriting", "simplification/*.go")])
p("P26", "Written files read back as the same formulas",
  "Writing formulas in the text or DIMACS format and reading the file back gives the same formulas (for DIMACS: up to the reported variable numbering), and reading any DIMACS text, including MaxSAT instances, yields exactly the described clauses, weights and hard constraints. Malformed files are reported as an error without a panic.",
  ["inputs", "fault_sequences"],
  "all formulas/CNFs up to a bound x write options; all short file texts over the format's tokens including truncated ones",
  "Tests read and write a few files; layout variations and truncation points are only covered by enumeration.",
  ["io/dimacs_reader.go", "io/dimacs_writer.go", "io/formula_reader.go", "io/formula_writer.go", "maxsat/reader.go"],
  [("readers and writers", "io/*.go, maxsat/reader.go")])
p("P27", "Constraint graphs, components and set covers are exact",
  "The constraint graph connects exactly the variables sharing a formula, its components partition the variables into the finest independent groups, and splitting formulas by component loses and invents nothing. Hypergraphs contain exactly one edge per clause, and a computed set cover covers all elements with the fewest possible sets.",
  ["inputs"],
  "all small formula sets / all families of subsets of a small universe",
  "Tests use a handful of graphs; minimality and partitioning quantify over all inputs.",
  ["graph/constraint_graph.go", "graph/connected_components.go", "graph/formula_graph.go", "graph/hypergraph.go", "graph/hypergraph_generator.go", "np/set_cover.go"],
  [("graph generation", "graph/*.go"), ("set cover", "np/set_cover.go")])
p("P28", "Computations on separate factories do not affect each other",
  "Running any two computations on independent factories and solvers, interleaved in any way at the points where control passes to the user or on concurrent goroutines, gives each of them the result it has when run alone; computations on separate objects of one factory may be interleaved (not run concurrently) just the same. There is no hidden shared state between factories, solvers or kernels.",
  ["schedules"],
  "all interleavings with up to two switches at handler events for all pairs of computations",
  "Tests run every computation alone; hidden global state only shows when two computations overlap at a particular point.",
  ["formula/factory.go", "sat/core.go", "maxsat/algorithm.go", "bdd/kernel.go", "dnnf/compiler.go", "model/iter/iteration.go", "handler/handler.go", "encoding/config.go"],
  [("per-instance state only", "all packages: no mutable package-level variables")])
p("P29", "Generated formulas and orders respect their documented contract",
  "Generated problem instances (pigeon hole, n-queens) have exactly the solutions of the problem they encode, variable orderings list every variable of the formula exactly once (force ordering may add encoding variables of constraints), and randomly generated formulas stay within the configured limits and are the same for the same seed. Equal seeds give equal sequences whatever else happened in the process.",
  ["inputs", "configurations"],
  "all sizes up to a bound, all formulas up to a depth for orderings, ranges of seeds and configurations",
  "Tests check single sizes and seeds.",
  ["sat/pigeon_hole.go", "sat/queen.go", "bdd/ordering.go", "randomizer/formula_randomizer.go"],
  [("generators", "sat/pigeon_hole.go, sat/queen.go, randomizer/formula_randomizer.go")])
p("P30", "Graphical exports describe exactly the formula, BDD or graph",
  "The graphical representation of a formula (as tree or shared graph), BDD or constraint graph contains exactly one node per tree or graph node and one edge per relation with the right label and direction, and its DOT and Mermaid texts list each of these exactly once with the given styles (for labels without quotation marks). Writing is independent of earlier exports, and every write error is reported.",
  ["inputs"],
  "all formulas up to a depth, all Boolean functions over three variables for BDDs, all small constraint graphs, x styles",
  "Tests compare a few golden files.",
  ["graphical/dot_writer.go", "graphical/mermaid_writer.go", "graphical/representation.go", "formula/graphical.go", "bdd/graphical.go", "graph/graphical.go"],
  [("graph building and writers", "graphical/*.go, formula/graphical.go, bdd/graphical.go, graph/graphical.go")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as fh:
    for d in P: fh.write(json.dumps(d) + "\n")
print(len(P))
