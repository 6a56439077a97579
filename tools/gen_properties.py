"Writes /verif/properties.jsonl (kept as a script so that the text stays reviewable)."
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    anchors = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: anchors["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: anchors["observe_at"] = observe
    anchors["hook_needed"] = None
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": anchors})

prop("C01", "Symbolic arithmetic evaluates to the arithmetic of its operands",
 "For every expression built from variables, plain numbers, dimensioned numbers and arrays of these with + - * / **, negation, sum, prod and outer product, evaluating the resulting expression at any positive point gives, in physical quantity including units, the same value as doing the same arithmetic on the operands' values. This holds whatever the order of operands, whichever terms merge or cancel, and whether the operation is scalar or elementwise over arrays of any shape, including along an axis.",
 ["inputs", "programs"], "every expression tree over any variables, exponents, coefficients, units and array shapes; every evaluation point",
 "Tests check a few dozen hand-written identities; merging, cancelling, unit conversion inside addition and products, reflected operators and array paths combine in unboundedly many ways.",
 ["gpkit/nomials/math.py", "gpkit/nomials/map.py", "gpkit/nomials/array.py", "gpkit/small_classes.py", "gpkit/units.py"],
 [("term-map addition with cancellation and unit conversion", "gpkit/nomials/map.py:NomialMap.__add__, gpkit/small_classes.py:HashVector.__add__"),
  ("products and powers", "gpkit/nomials/math.py:Signomial.__mul__/__pow__, Monomial.__pow__"),
  ("array reductions", "gpkit/nomials/array.py:NomialArray.sum/prod/outer")],
 observe=["the returned expression's coefficients, exponents and units"])

prop("C02", "Equal terms mean equal expressions, equal hashes and the right class",
 "Two expressions that contain the same terms in the same units compare equal and hash equally however they were constructed, and expressions with different terms or units compare unequal. No expression produced by arithmetic or differentiation keeps an exponent of zero, or a term whose coefficient cancelled to exactly zero alongside other terms, and it is a monomial, posynomial or signomial exactly according to the number and sign of its terms.",
 ["inputs", "programs"], "every pair of construction histories, every set of terms",
 "Tests compare a handful of pairs; the hash is maintained incrementally during arithmetic, differentiation and substitution, so staleness shows only on particular sequences.",
 ["gpkit/nomials/map.py", "gpkit/nomials/math.py", "gpkit/nomials/data.py", "gpkit/small_classes.py"],
 [("incremental exponent hashes", "gpkit/small_classes.py:HashVector.__hash__, gpkit/nomials/map.py:diff/subinplace"),
  ("class dispatch", "gpkit/nomials/math.py:Signomial.__init__")])

prop("C03", "Operations never modify their operands or the user's inputs",
 "Arithmetic, comparison, substitution, differentiation, approximation, printing, model construction, solving, sweeping and solution queries leave every expression, constraint, dictionary, list and numeric array they were given unchanged in value, terms, units and hash. Reusing an object after any such operation behaves as if the operation had never happened.",
 ["histories", "inputs"], "every sequence of operations sharing operands, dictionaries or arrays",
 "A test that never looks at an operand again cannot see it mutate; shared exponent dictionaries, cached unit objects and copy-on-write arrays make aliasing reachable only through sequences.",
 ["gpkit/nomials/map.py", "gpkit/nomials/math.py", "gpkit/nomials/array.py", "gpkit/keydict.py", "gpkit/constraints/set.py", "gpkit/constraints/gp.py"],
 [("copying before in-place edits", "gpkit/nomials/map.py:NomialMap.sub"),
  ("copy-on-write of arrays", "gpkit/keydict.py:KeyDict._copyonwrite")])

prop("C04", "Incompatible dimensions are always refused and conversions are exact",
 "Adding, subtracting or constraining expressions, or substituting or converting values, whose physical dimensions differ always raises an error (an equality that cannot hold may instead come out false), and never yields a number. Whenever the dimensions agree the result carries the exact conversion factor between the units involved, whatever units were used earlier in the process and in whichever order.",
 ["inputs", "histories"], "every pair of units, every order of earlier unit operations in the process",
 "Tests use a few fixed units in fresh processes; conversion factors are cached by object identity and by unit, so errors depend on the history of earlier conversions and on object lifetimes.",
 ["gpkit/units.py", "gpkit/nomials/map.py", "gpkit/nomials/math.py", "gpkit/keydict.py", "gpkit/nomials/substitution.py"],
 [("cached unit division and product", "gpkit/units.py:GPkitUnits.of_division/of_product"),
  ("conversion in addition and substitution", "gpkit/nomials/map.py:NomialMap.__add__/sub/to")],
 state=[("unit caches", "process-wide memo of conversion factors", "gpkit/units.py")])

prop("C05", "Substitution equals evaluation with exactly the named variables fixed",
 "Substituting values into an expression or array of expressions yields an expression which, at every point, equals the original evaluated with those variables fixed; variables not named stay free and unrelated keys are ignored. Keys may be variables, variable keys, names, or whole vectors, values may be numbers (of any sign, or zero), dimensioned numbers, arrays or constant expressions, and substituting all at once equals substituting one by one in any order.",
 ["inputs"], "every expression, every subset of variables, every key form and value form, every order",
 "Tests substitute into short expressions; merging of several terms onto one exponent, zero and negative values, vector keys and unit conversion interact only in combinations.",
 ["gpkit/nomials/map.py", "gpkit/nomials/substitution.py", "gpkit/nomials/math.py", "gpkit/nomials/array.py", "gpkit/nomials/variables.py"],
 [("in-place term substitution", "gpkit/nomials/map.py:subinplace"), ("key parsing", "gpkit/nomials/substitution.py:parse_subs")])

prop("C06", "Differentiation gives the true partial derivative, with its units",
 "The derivative of any expression with respect to any variable evaluates, at every positive point, to the partial derivative of the expression's value, in units of the expression over the variable, and is zero for a variable that does not appear. Derivatives satisfy linearity and the product rule and repeated derivatives commute.",
 ["inputs"], "every expression, variable and point",
 "Tests differentiate a few small posynomials; exponents one, fractional, negative and coinciding terms after differentiation are input-dependent.",
 ["gpkit/nomials/map.py", "gpkit/nomials/math.py"],
 [("term-wise differentiation with hash update", "gpkit/nomials/map.py:NomialMap.diff")])

prop("C07", "Monomial approximations are tangent, and lower-bound posynomials",
 "The monomial approximation of an expression that is positive at a point equals it there in value and in all first derivatives and has the same units. For a posynomial it is nowhere greater than the posynomial, so a constraint approximated with it is never looser than the original.",
 ["inputs"], "every posynomial or signomial, every expansion point with any key and unit form, every comparison point",
 "Tests compare a few approximations by formula; soundness of every local solve depends on the bound holding at all points.",
 ["gpkit/nomials/math.py", "gpkit/nomials/substitution.py"],
 [("local approximation", "gpkit/nomials/math.py:Signomial.mono_approximation, Posynomial.mono_lower_bound")])

prop("C08", "The program handed to the solver is equivalent to the model as written",
 "For every geometric model, at every point the objective given to the solver equals the model's cost with constants substituted, and the set of points satisfying all the posynomial inequalities and equality pairs given to the solver is the set satisfying every constraint as written, with units and constants applied. Term counts, term-to-constraint indices, equality markers and matrix entries are consistent with each other, and every free variable has its own column.",
 ["programs", "inputs"], "every model: constraints of every form and nesting, any units and substitutions; every point",
 "Tests compare solver answers on a few models; a mis-scaled or dropped constraint that is inactive at those optima is invisible.",
 ["gpkit/constraints/gp.py", "gpkit/nomials/math.py", "gpkit/constraints/set.py", "gpkit/constraints/array.py"],
 [("normalisation to posynomial <= 1", "gpkit/nomials/math.py:PosynomialInequality, MonomialEquality, SignomialInequality"),
  ("matrix generation", "gpkit/constraints/gp.py:GeometricProgram.gen"),
  ("flattening nested constraint sets", "gpkit/constraints/set.py:flatiter")],
 observe=["arguments of a solver function passed by the user"])

prop("C09", "Constraints made constant by substitution are judged correctly",
 "When substitutions turn a constraint into a comparison of constants, it is dropped if that comparison holds and the model is reported infeasible, before or by the solver, if it is violated by more than the documented feasibility tolerance. When substitutions leave constants in one side of a constraint, the remaining constraint is exactly the rearranged one, and if no positive point can satisfy it the model is reported infeasible instead of being solved.",
 ["inputs", "configurations"], "every constraint and every assignment of constants around the feasibility boundary",
 "Tests try a few values far from the boundary; which branch is taken depends on the value of the folded constant.",
 ["gpkit/nomials/math.py", "gpkit/constraints/gp.py"],
 [("constant folding and infeasibility detection", "gpkit/nomials/math.py:PosynomialInequality._simplify_posy_ineq"),
  ("signomials that become posynomial, tautological or infeasible", "gpkit/nomials/math.py:SignomialInequality.as_hmapslt1")])

prop("C10", "A returned solution is feasible, optimal and consistently reported",
 "Every solution returned by a successful solve of a geometric model satisfies all constraints as written within solver tolerance, its cost equals the cost expression at the reported variable values in the cost's units, and no feasible point has a noticeably lower cost. Every free variable, constant and vector element of the model is reported exactly once under its own key with its own value, constants unchanged. No such solution draws a warning that a check of it failed.",
 ["programs", "inputs"], "every bounded feasible geometric model, with scalar, vector and nested structure",
 "Tests assert known optima of particular models; the guarantee is over all models and needs an independent certificate rather than a stored number.",
 ["gpkit/constraints/gp.py", "gpkit/solvers/cvxopt.py", "gpkit/constraints/prog_factories.py", "gpkit/solution_array.py", "gpkit/keydict.py"],
 [("solver interface", "gpkit/solvers/cvxopt.py:optimize"), ("result packing", "gpkit/constraints/gp.py:_compile_result")])

prop("C11", "Sensitivities are the true logarithmic derivatives of the optimum",
 "The reported sensitivity of each constant equals the derivative of log optimal cost with respect to the log of that constant, wherever that derivative exists, however the constant enters: in the cost, in one or several constraints, merged with other terms, inside a constant term, through an equality, as a vector element or through constants computed from other constants. Each constraint's reported sensitivity is the magnitude of the derivative of log optimal cost with respect to the log of a factor relaxing that constraint, and is zero when the constraint is slack.",
 ["programs", "inputs"], "every feasible geometric model with a unique differentiable optimum, every constant and constraint in it",
 "Tests look at sensitivities of a few models, mostly with a single constant per term; the mapping from solver duals back to original terms depends on how substitution reorders and merges them.",
 ["gpkit/constraints/gp.py", "gpkit/nomials/math.py", "gpkit/nomials/map.py", "gpkit/constraints/prog_factories.py"],
 [("mapping duals to original terms", "gpkit/nomials/map.py:NomialMap.mmap, gpkit/nomials/math.py:sens_from_dual"),
  ("assembling and chaining sensitivities", "gpkit/constraints/gp.py:_compile_result")])

prop("C12", "A failing or lying solver is contained and reported as such",
 "If the solver raises, or returns missing, non-optimal or inconsistent output, the solve either raises an error of the documented kind (infeasible primal or dual stays distinguished, anything unexpected becomes an unknown-infeasible error with its cause) or emits a solution-check warning; a point that violates the model is never returned silently. Standard output is always restored, options given to one solve never influence a later one, and afterwards the same model solves correctly.",
 ["fault_sequences", "histories"], "every kind and position of solver fault: exceptions, wrong primal, wrong duals, missing fields, prints, early or late in a sequence of solves",
 "Tests use only healthy solvers plus a few infeasible models; faults and their order are never injected.",
 ["gpkit/constraints/gp.py", "gpkit/constraints/prog_factories.py", "gpkit/constraints/sgp.py", "gpkit/exceptions.py"],
 [("stdout capture and exception mapping", "gpkit/constraints/gp.py:GeometricProgram.solve"),
  ("solution checking", "gpkit/constraints/gp.py:check_solution")])

prop("C13", "Unboundedness is detected exactly from the signs of exponents",
 "A geometric model is refused as unbounded before solving exactly when some free variable lacks an upper or lower bound, counting direct bounds from the cost and inequalities and everything that monomial equalities propagate from already bounded variables, and the message names exactly the missing variable and direction pairs. The outcome does not depend on the order of constraints, and disabling the check skips only the refusal.",
 ["programs"], "every set of constraints, in particular chains and cycles of equalities",
 "Tests contain a few unbounded models; the propagation through equalities is a fixpoint whose result must not depend on ordering.",
 ["gpkit/constraints/gp.py"],
 [("direct bounds", "gpkit/constraints/gp.py:check_bounds"), ("equality propagation fixpoint", "gpkit/constraints/gp.py:gen_meq_bounds, fulfill_meq_bounds")])

prop("C14", "Local solves of signomial models return feasible, locally converged points",
 "Whenever a local solve of a signomial model returns without warning, the returned point satisfies every original constraint, posynomial or signomial and with its units, within tolerance (signomial equalities to second order in the last step), its reported cost is the original cost expression there, and its last iterations changed the cost by less than the requested tolerance. Every approximate program solved along the way is exactly the one a freshly built approximation at the previous solution would give.",
 ["programs", "histories"], "every signomial model that converges, every starting point and iteration",
 "Tests check final costs of a few models; the approximate program is edited in place between iterations, so stale entries depend on how term counts and variables change along the trajectory.",
 ["gpkit/constraints/sgp.py", "gpkit/nomials/math.py", "gpkit/constraints/sigeq.py"],
 [("in-place approximate program update", "gpkit/constraints/sgp.py:SequentialGeometricProgram.gp"),
  ("penalty convex-concave iteration", "gpkit/constraints/sgp.py:localsolve")],
 observe=["sequence of solver calls in a local solve"])

prop("C15", "A sweep is the ordered collection of its individual solves",
 "Sweeping one or several variables visits every combination of the given values exactly once, and entry i of every reported array (cost, free variables, swept variables, computed constants, sensitivities) equals the result of solving the model at that combination alone. Failing points are either raised or, when skipping is asked for, dropped with all arrays staying aligned, and afterwards the model's own constants are what they were before, even if the sweep failed.",
 ["inputs", "histories", "fault_sequences"], "every model, set of swept scalars or vectors, sizes, and failing positions",
 "Tests sweep a few small grids and look at totals; alignment across several swept variables, skipped failures and restoration after failure need generated sweeps.",
 ["gpkit/constraints/prog_factories.py", "gpkit/constraints/model.py", "gpkit/small_classes.py", "gpkit/solution_array.py", "gpkit/nomials/substitution.py"],
 [("sweep grid", "gpkit/constraints/prog_factories.py:run_sweep"), ("substitution restore", "gpkit/constraints/model.py:Model.sweep"),
  ("result accumulation", "gpkit/small_classes.py:DictOfLists")])

prop("C16", "Autosweep bounds always bracket the true optimum within tolerance",
 "For every geometric model and swept interval, at each sampled value the reported lower and upper cost bounds bracket the true optimal cost and differ by no more than the requested logarithmic tolerance allows, and interpolated values agree with a direct solve at the values actually solved. The search terminates, its recorded solutions are ordered and span the interval, and the model's constants are left as they were.",
 ["programs", "inputs"], "every model, interval, tolerance and query point",
 "Tests check a few models whose answer is known in closed form.",
 ["gpkit/tools/autosweep.py", "gpkit/constraints/model.py"],
 [("convexity bounds", "gpkit/tools/autosweep.py:get_tol"), ("recursive refinement", "gpkit/tools/autosweep.py:recurse_splits"),
  ("interpolation", "gpkit/tools/autosweep.py:BinarySweepTree.cost_at/posy_at")])

prop("C17", "The variable dictionary behaves like a plain map under every history",
 "Under every sequence of set, get, delete, update, copy, membership and iteration through variable objects, keys, element keys, whole-vector keys and names, the dictionary of variable values answers exactly as a plain map from single elements to values would, with element writes visible in the vector and vector writes in the elements. Copies are independent of the original and of arrays the user passed in, and stored numbers keep full precision.",
 ["histories"], "every operation sequence over scalars, vectors, elements, names shared by several variables, copies",
 "Tests run short fixed sequences; copy-on-write, lazily built name lookup and partially unset vectors depend on order.",
 ["gpkit/keydict.py"],
 [("array collapsing and copy-on-write", "gpkit/keydict.py:KeyDict.__setitem__/__getitem__"), ("lazy name lookup", "gpkit/keydict.py:KeyMap.update_keymap")],
 state=[("owned arrays, unmapped keys, name map", "bookkeeping of lazily mapped and copied entries", "gpkit/keydict.py")])

prop("C18", "Composing models preserves constraints, constants and variable identity",
 "However constraints are nested in lists, dictionaries, arrays, sub-models and vectorised models, the composed model contains every leaf constraint exactly once and in order, has exactly the variables of its parts, and takes each constant from the outermost level that sets it. Variables created in different model instances are distinct even under the same name, lookups by name, attribute or index return exactly the matching ones or an error when ambiguous or missing, and a vectorised model equals independent copies of the scalar model.",
 ["programs"], "every nesting of constraint containers and models, every collision of names",
 "Tests build a few nested models; identity, counting and lookup depend on instance numbering and nesting.",
 ["gpkit/constraints/set.py", "gpkit/constraints/costed.py", "gpkit/constraints/model.py", "gpkit/varkey.py", "gpkit/globals.py", "gpkit/nomials/variables.py"],
 [("recursive collection", "gpkit/constraints/set.py:ConstraintSet.__init__/_update/flatiter"), ("variable identity", "gpkit/varkey.py:VarKey"),
  ("lookup", "gpkit/constraints/set.py:variables_byname/__getitem__")])

prop("C19", "Environment contexts nest and are always restored",
 "Signomial permission, vectorisation dimension and model-name environments take effect exactly inside their blocks, nest in any combination, and after any block exits, normally or by an exception raised at any point inside, including inside model setup, the state is exactly what it was on entry. In particular leaving an inner block never disables an outer one.",
 ["histories", "fault_sequences"], "every nesting and interleaving of the three environments, every point at which an exception is raised",
 "Tests enter each environment once; nested re-entry and exceptions at arbitrary points are not exercised.",
 ["gpkit/globals.py", "gpkit/constraints/model.py", "gpkit/constraints/tight.py", "gpkit/constraints/relax.py"],
 [("enter/exit of process-wide state", "gpkit/globals.py:SignomialsEnabled, Vectorize, NamedVariables")],
 state=[("signomial permission, vectorisation shape, lineage and counters", "process-wide environment", "gpkit/globals.py")])

prop("C20", "Relaxing a model is sound and means what its variables say",
 "Each relaxation of a model (one common factor, a factor per constraint, or a factor per constant) admits every point of the original model with factors equal to one, and any relaxed solution satisfies every original constraint, or uses every original constant, up to exactly the factors it reports, which are never below one. If the original is feasible and the factors are penalised enough the relaxed optimum is the original optimum, and the variables reported as relaxed are exactly those whose factor noticeably exceeds one.",
 ["programs", "inputs"], "every model: scalar, array and nested constraints, inequality and equality, feasible or infeasible, constants of any sign or zero",
 "Tests relax two or three tiny models.",
 ["gpkit/constraints/relax.py", "gpkit/nomials/math.py", "gpkit/constraints/model.py"],
 [("relaxed constraint construction", "gpkit/nomials/math.py:relaxed"), ("relaxation containers", "gpkit/constraints/relax.py"), ("diagnosis", "gpkit/constraints/model.py:debug")])

prop("C21", "Tight, loose and bounded declarations warn exactly when violated",
 "After a solve, a constraint declared tight is reported exactly when its two sides differ relatively by at least the declared tolerance at the solution, one declared loose exactly when its sensitivity reaches the declared threshold, and an artificially bounded variable exactly when its value is near or sensitive to one of the artificial bounds. These declarations never change the optimum of a model whose own solution lies inside the artificial bounds, and nested declarations are all checked.",
 ["programs", "inputs"], "every model, placement of declarations and tolerance",
 "Tests use one example of each; both the warn and the stay-silent direction and their thresholds are value dependent.",
 ["gpkit/constraints/tight.py", "gpkit/constraints/loose.py", "gpkit/constraints/bounded.py", "gpkit/constraints/set.py", "gpkit/small_scripts.py"],
 [("post-solve checks", "gpkit/constraints/tight.py, loose.py, bounded.py:process_result"), ("recursion over contained sets", "gpkit/constraints/set.py:process_result")])

prop("C22", "Every way of querying a solution gives the same values",
 "For any solution, single or swept, asking for a variable, element, vector, name or arbitrary expression by calling, indexing, substitution or point selection returns mutually consistent values with the right units: an expression's value is the expression evaluated at the solution's variable values, and selecting point i equals the i-th entry of every array. Querying never changes the solution.",
 ["inputs", "histories"], "every solution shape, expression, key form and sequence of queries",
 "Tests query a few variables of a few solutions.",
 ["gpkit/solution_array.py", "gpkit/keydict.py", "gpkit/small_classes.py"],
 [("query entry points", "gpkit/solution_array.py:__call__/subinto, gpkit/small_classes.py:atindex"), ("unit attachment", "gpkit/keydict.py:KeyDict.__call__")])

prop("C23", "Saving and reloading reproduces solutions and never damages the original",
 "Pickling a solution, expression, variable or constraint, or saving a solution plainly or compressed, and loading it back, in the same or a new process, gives equal keys, values, sensitivities, units and table text. Saving leaves the in-memory solution and model fully usable and unchanged, even when writing fails part-way.",
 ["inputs", "crash_points", "fault_sequences"], "every solution shape, save option, and point at which writing fails",
 "Tests save one or two solutions successfully; saving temporarily strips attributes from live constraints, so failures in between matter.",
 ["gpkit/solution_array.py", "gpkit/varkey.py", "gpkit/keydict.py", "gpkit/tools/autosweep.py"],
 [("temporary attribute removal", "gpkit/solution_array.py:SolSavingEnvironment"), ("key state", "gpkit/varkey.py:__getstate__/__setstate__")])

prop("C24", "Solution comparison reports exactly the differences that exist",
 "Comparing two solutions lists exactly the variables present in only one of them, and lists a shared variable exactly when its relative, absolute or sensitivity difference exceeds the chosen threshold, with the true signed difference; almost-equality holds exactly when all variables are shared and every value and sensitivity difference is below its tolerance. Comparison works for scalars, vectors and sweeps, with a solution or a saved file, and changes neither solution.",
 ["inputs"], "every pair of solutions and every threshold setting",
 "Tests diff near-identical solutions of one or two models and mostly look only at whether text appears.",
 ["gpkit/solution_array.py"],
 [("difference tables", "gpkit/solution_array.py:diff, cast, var_table"), ("almost equality", "gpkit/solution_array.py:almost_equal")])

prop("C25", "Tables and exported files contain every value they claim, correctly",
 "Summary tables, text, CSV and MATLAB exports of any solution list each variable they cover exactly once under a name that identifies it, with its own value (to the printed precision), unit, model and description, and leave out nothing but what their stated filters exclude. Ordering, grouping by model, vector layout, name collisions and sweeps never mix one variable's numbers with another's, and producing output leaves the solution unchanged.",
 ["inputs"], "every solution: names, collisions, nesting, units, vector shapes, sweeps, filter options",
 "Tests compare text for a handful of examples or only check that no exception is raised.",
 ["gpkit/solution_array.py", "gpkit/repr_conventions.py", "gpkit/varkey.py"],
 [("row layout", "gpkit/solution_array.py:var_table"), ("file writers", "gpkit/solution_array.py:savetxt/savecsv/savemat")])

prop("C26", "Printed expressions mean what the expression means",
 "The text form of any expression, read back with ordinary operator precedence and the printed names and units, evaluates to the value of the expression to the printed precision, including grouping of sums within products, quotients, powers and negations and indexed or summed vectors. The text form of a constraint shows both sides and the relation as written, and excluding model names or units from the text removes only those.",
 ["inputs", "programs"], "every expression and constraint, every construction history",
 "Tests compare a few strings; whether parentheses are needed depends on the construction history remembered for printing.",
 ["gpkit/repr_conventions.py", "gpkit/nomials/core.py", "gpkit/nomials/array.py", "gpkit/constraints/single_equation.py", "gpkit/varkey.py"],
 [("printing from construction history", "gpkit/repr_conventions.py:parse_ast, parenthesize"), ("printing from terms", "gpkit/nomials/core.py:str_without")])

prop("C27", "LaTeX output means what the expression means",
 "The LaTeX form of any expression or constraint, read as mathematics, has the same terms, coefficients (to printed precision), exponents, relation and units as the expression, and a model's LaTeX lists its cost and every constraint.",
 ["inputs"], "every expression, constraint and model",
 "Tests compare LaTeX strings of a few monomials.",
 ["gpkit/nomials/core.py", "gpkit/varkey.py", "gpkit/constraints/set.py", "gpkit/constraints/costed.py", "gpkit/repr_conventions.py"],
 [("term formatting", "gpkit/nomials/core.py:nomial_latex_helper, latex")])

prop("C28", "Declared variables and bounds in docstrings are honoured exactly",
 "Every variable line of a model docstring (name, optional value, unit, description; scalar, constant or vector) creates exactly that variable in that model, malformed lines are refused, and text that declares nothing creates nothing. A model that states which variables it leaves unbounded is accepted exactly when its constraints bound every other variable and direction and do not bound the stated ones, taking equalities and constants into account.",
 ["inputs", "programs"], "every docstring in the documented format, every model with a bounds declaration",
 "Tests use two or three docstrings from the examples.",
 ["gpkit/tools/docstring.py", "gpkit/constraints/model.py", "gpkit/constraints/set.py"],
 [("docstring parsing", "gpkit/tools/docstring.py"), ("bound verification", "gpkit/constraints/model.py:verify_docstring, gpkit/constraints/set.py:add_meq_bounds")])

prop("C29", "Computed constants and post-computed variables always match their functions",
 "In every solution, each constant defined by a function has the value of that function at the constants used for that very solve, also across sweeps, repeated solves, overridden inputs and vectors; each free variable defined by an evaluation function has the value of that function at the solution. Replacing a function by a number, or changing the constants it depends on, leaves no trace of earlier values or derivatives in later solves.",
 ["histories", "programs"], "every set of linked constants and evaluation functions and every history of solves and substitution changes",
 "Tests solve models with one linked constant once or in one sweep.",
 ["gpkit/constraints/prog_factories.py", "gpkit/constraints/set.py", "gpkit/constraints/gp.py", "gpkit/nomials/variables.py"],
 [("linked evaluation with derivatives", "gpkit/constraints/prog_factories.py:evaluate_linked"), ("post-solve evaluation", "gpkit/constraints/set.py:process_result")],
 state=[("derivatives stored on variables", "left by the previous solve", "gpkit/constraints/prog_factories.py")])

prop("C30", "Solving is independent of what was solved before",
 "The result of solving a model depends only on the model and its current constants: solving twice, solving after other models that share its constraints or variables, after changing constants and changing them back, after sweeps, local solves, relaxations, debugging, printing, saving or failed solves gives the same solution as solving it first, and the readings it gives (its text, LaTeX, tables) do not depend on what was read or done before either. Two models that share constraints do not affect each other's constants.",
 ["histories"], "every sequence of model operations in one process",
 "Tests solve each model once or twice in a fixed order; state kept on shared constraints, variables and process-wide caches only shows in histories.",
 ["gpkit/constraints/gp.py", "gpkit/constraints/sgp.py", "gpkit/constraints/prog_factories.py", "gpkit/nomials/math.py", "gpkit/constraints/set.py", "gpkit/units.py"],
 [("per-solve state on constraints", "gpkit/nomials/math.py:as_hmapslt1/sens_from_dual"), ("substitution handling", "gpkit/constraints/prog_factories.py:solvify")])

prop("C31", "Equivalent formulations give equivalent solutions",
 "Reordering or renesting constraints, stating one again, swapping sides of an inequality, renaming variables, expressing variables or constants in other compatible units, multiplying both sides of a constraint by a positive constant or monomial, or the cost by a positive constant, replacing a constant by a variable fixed by equality, and running under another hash seed change the solution only in the way that transformation implies. Costs, values, and sensitivities all map accordingly.",
 ["programs", "configurations"], "every model and every such transformation",
 "Tests do not compare formulations; ordering- and unit-dependent slips cancel in fixed expected values.",
 ["gpkit/constraints/gp.py", "gpkit/nomials/math.py", "gpkit/nomials/map.py", "gpkit/constraints/set.py", "gpkit/units.py"],
 [("ordering-insensitive program generation", "gpkit/constraints/gp.py:gen"), ("unit handling", "gpkit/nomials/math.py:_gen_unsubbed")])

prop("C32", "Alternative solver adapters pose and read back the same program",
 "The adapters to external solvers (command line and conic) hand over a program equivalent to the one they are given, return the external solver's primal, dual and objective attached to the right variables and constraints, translate each of its failure statuses into the matching error, and leave no temporary files behind on success or failure. Repeated use of one adapter works.",
 ["programs", "fault_sequences"], "every program and every external status, including malformed output and process failure",
 "The external solver is commercial and absent, so the existing tests skip these adapters completely.",
 ["gpkit/solvers/mosek_cli.py", "gpkit/solvers/mosek_conif.py", "gpkit/solvers/cvxopt.py"],
 [("file exchange with external process", "gpkit/solvers/mosek_cli.py"), ("conic reformulation", "gpkit/solvers/mosek_conif.py:optimize")])

prop("C33", "Series helpers are the Taylor polynomials of their functions",
 "The exponential, secant and tangent helpers return, for every argument expression and number of terms they accept, exactly the truncated Taylor polynomial of the function, so that every added term reduces the error near zero and all coefficients are positive.",
 ["inputs"], "every number of terms and argument expression",
 "Tests check a few low orders.",
 ["gpkit/tools/tools.py"],
 [("coefficient tables", "gpkit/tools/tools.py:te_exp_minus1, te_secant, te_tangent")])

prop("C34", "Sensitivity flow diagrams conserve and attribute sensitivity correctly",
 "In every sensitivity flow diagram of a solved model, the flow into each model node equals the sum of the absolute sensitivities of the constraints and constants it contains, every displayed link carries the sensitivity of the constraint or variable it is labelled with and its sign's colour, and restricting to a variable shows only constraints containing it. Limits on the number or size of links only take links away: they change none that is shown, show none below the size asked for, and hide nothing when everything fits. Clicking a node shows exactly what flows through it, and diagrams drawn one after another are independent.",
 ["programs"], "every solved model with nested sub-models, arrays and fixed variables",
 "No existing test looks at the numbers in a diagram.",
 ["gpkit/interactive/sankey.py"],
 [("link accumulation", "gpkit/interactive/sankey.py:link, linkfixed"), ("filtering", "gpkit/interactive/sankey.py:filter")])

prop("C35", "Plots of sweeps show the values swept and the values found",
 "A plot of a sweep, of an autosweep, of a grid of sweeps or of several models compared draws, for each quantity asked for (a variable, element, name, expression or the cost, alone or in a list), exactly one line through the swept values and the solution's values in the units of the quantity's label, or for the cost of an autosweep the band between its bounds; a grid marks each swept variable's original value with the solution there and leaves the model's constants and the arguments given as they were. A plot of a signomial model's convergence shows the cost found at each iteration, as do the program's interim results.",
 ["programs"], "every swept model, quantity plotted and form in which it is asked for",
 "No existing test looks at what is drawn; several of the plotting functions are run by no test.",
 ["gpkit/interactive/plot_sweep.py", "gpkit/interactive/plotting.py", "gpkit/solution_array.py", "gpkit/tools/autosweep.py"],
 [("lines of a sweep", "gpkit/solution_array.py:plot"), ("bands", "gpkit/tools/autosweep.py:plot"), ("grids", "gpkit/interactive/plot_sweep.py:plot_1dsweepgrid"), ("convergence", "gpkit/interactive/plotting.py:plot_convergence")])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for p in P:
            f.write(json.dumps(p, ensure_ascii=False) + "\n")
    print(len(P))
