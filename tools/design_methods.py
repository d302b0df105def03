METHOD['C01'] = """
The real `ParameterIndexOperations` (with `IntArrayDict`, `combine_indices`, `remove_indices`) runs on maps whose
indices, shift starts, gap sizes and removed lists are unbounded symbolic integers. Oracle: one boolean set per key,
kept as a symbolic membership formula; the assertion is compared at one further symbolic index, so it speaks about
every element. Tests know a handful of concrete lists; here every aliasing pattern (equal indices, indices at the
border of a shift, empty results) is a case of one query."""
METHOD['C02'] = """
`ParameterIndexOperationsView` with symbolic offset and size over a symbolic base map, also a view of a view. Oracle:
the window of the membership formulas. Every edit through the view is compared on base and view for an arbitrary
element. Sizes and offsets are unbounded, the number of elements of a key is bounded."""
METHOD['C03'] = """
Two encodings. (1) Unbounded: hierarchies whose parameter sizes are symbolic integers (`Sized` stand-ins for the arrays,
the real link/unlink/index code), linked in any order and position, the element that carries a constraint is symbolic.
(2) Concrete sizes with symbolic values and symbolic marked elements after initialization, L operations of link, move and
unlink. Oracle: constraints belong to the elements of the reference hierarchy, checked at every level by its own
concatenation order."""
METHOD['C04'] = """
Index expressions are symbolic choices (slice bounds, lists, masks, tuples), values symbolic. Oracle: `checks/indexing.py`,
an independent definition of which flat elements an index addresses. A sequence of constrain/fix/unfix/unconstrain
through the indexed parameter is compared with the reference element state at every level. Multilevel indexing
(`p[1:][0:1]`) is documented as unsupported and is left out."""
METHOD['C05'] = """
One symbolic write at any place in any of 20 ways (index, name, attribute, in place, values of a node, ...) after any
restructuring; every level of every hierarchy is then read and compared with the reference values. The numpy emulator
models memory ownership: a buffer that numpy would have freed (base released by `.data` assignment) is poisoned, reading
it is reported and replayed with the real numpy under memory churn."""
METHOD['C06'] = """
`optimizer_array` read, written, re-read with symbolic values for every assignment of constraints and fixes and after every
change in the bounds. Oracle: `finv`/`f` of the reference elements that are not fixed. Staleness is found because the
values are different symbols before and after the change."""
METHOD['C07'] = """
The objective and the gradient are uninterpreted functions of the parameter values, so no cancellation can hide an error.
Oracle: the chain rule over the reference elements, the derivative of a constraint taken from its definition (also one with
value-dependent derivative). Every sequence of evaluations at symbolic vectors is compared, including the model's own
gradient afterwards."""
METHOD['C08'] = """
f, finv, gradfactor, initialize and log_jacobian of each class run on symbolic reals; exp and log are axiomatised
(monotone, inverse, positivity, bounds refined around candidate models), derivatives are formed by differentiating the
executed term (symx/diff.py) and compared with gradfactor. Bounds of Logistic are symbolic. Away from the clipping limits,
which are bounds of the claim."""
METHOD['C09'] = """
Every sequence of L constraint operations on every object or element of a hierarchy, against the element-wise algebra
(constrain replaces and unfixes, fix keeps the constraint, unconstrain removes what is named). Identity of constraint instances
(Logistic per bounds) with symbolic bounds, also through copy and pickle."""
METHOD['C10'] = """
Priorities are symbolic integers, which observers are added and removed and what they raise are symbolic choices. Oracle:
sorted by priority, stable, removed means not called. The calls observed in every path must be in that order."""
METHOD['C11'] = """
Every change at every place (writes, constraints, links, switching updates off and on, blocks) with recording nodes: each
object above the change is updated, after the objects below it, and sees the final values (they are symbols, so a stale
value is a different term); with updates off nothing is updated, switching them on updates every object exactly once."""
METHOD['C12'] = """
The real `Cacher`/`Cache_this` with observable arrays of symbolic contents; every history of L calls, changes, failures,
resets and switches. The cached function is an uninterpreted function of the contents, so a returned stale or foreign result
differs for some assignment and the solver finds it."""
METHOD['C13'] = """
The same world with a counter in the function: repeated calls with unchanged arguments must not call it, the number of
held entries never exceeds the limit, dropped results and arguments are neither kept alive nor observed, and resetting drops everything."""
METHOD['C14'] = """
Copies of parameters, nodes and models (every level, with caches, observers, shared index maps, constraints on any element):
the copy equals the original symbol by symbol, shares no memory, and every write or constraint on either side leaves the other
unchanged."""
METHOD['C15'] = """
Pickling runs natively with symbolic values carried through as tags that are resolved on loading; the loaded hierarchy is then
worked with (write, constrain, unfix, optimize vector, gradient) and compared with a reference. Loading an inner object gives
a root of its own."""
METHOD['C16'] = """
Names are symbolic choices out of an alphabet built for clashes (numbered, printable-equal, attribute names). After each
operation, attribute access, name lists, flat names and regular-expression lookup are compared with a reference that knows only
the operations."""
METHOD['C17'] = """
`adjust_name_for_printing` runs on symbolic strings: every character is a symbolic code point, str.replace and re.match are
interpreted by symx/symstr.py. Asserted for every string of the bounded length: an identifier, or NameError exactly when the
text cannot be one, every special character replaced by its own text in place, converting twice is converting once."""
METHOD['C18'] = """
SCG runs on an arbitrary objective: value and gradient answers are symbolic per evaluation (any history of answers of the
function, failing ones as inf). Asserted: the last logged value is the objective at the returned point, logged values do not get
worse, each status only when its criterion holds at the returned point, iterations and evaluations are counted."""
METHOD['C19'] = """
`Model.optimize`, `optimize_restarts` and the optimizer wrappers with optimizers that do anything (evaluate anywhere, return
anything, fail): the model ends at what the optimizer reported, restarts end at the best finite run, records are in order.
Values of runs are symbolic, so every order of better and worse runs is covered."""
METHOD['C20'] = """
Schedules of failing evaluations (exceptions of each kind, nan) are symbolic booleans: up to ten failures in a row give inf and
the gradients last handed out, more raise, a success resets the counter; gradients are clipped to their limit; the model stays consistent."""
METHOD['C21'] = """
checkgrad runs with objective values at the probed points and the analytic gradient as symbols; right is when analytic and numeric
derivative agree within the tolerance. The verdict printed/returned must be that for every real, and parameters are back afterwards."""
METHOD['C22'] = """
`ParamConcatenation` over every small selection: reading, writing, arithmetic, comparison, constraining by element against the
flat concatenation of the reference elements."""
METHOD['C23'] = """
Numbers drawn are symbols (np.random is replaced by a source of fresh symbols); after randomizing, fixed elements keep their
values, free ones hold the transformed drawn numbers, each once, in order."""
METHOD['C24'] = """
scipy/climin entry points are stubs that return every documented outcome (return codes, missing entries, symbolic values);
reported optimum, value, evaluations and status must be those of the library."""
METHOD['C25'] = """
Histories of link/unlink/rename/traverse (also with visitors that raise, and rejected links) on trees: the resulting tree, parents,
positions, traversal order and marks against a plain reference tree."""
METHOD['C26'] = """
The same script of links, constraints and writes runs on a hierarchy built lazily, initialized at a symbolically chosen moment, and
on one built immediately; all symbols at all levels must agree, and objects are updated only once initialized."""
METHOD['C27'] = """
The ridge regression example with symbolic data, weights and regularization: objective and gradient are polynomial identities, the
gradient is compared with the symbolic derivative of the objective."""
METHOD['C28'] = """
Two copies of one world run the same arbitrary optimizer, one with messages; points visited, answers, parameters, records, draws of the
random generator must agree symbol by symbol. The displayed run time is decided for every real elapsed time up to 100 days: int() stays
symbolic in that module and floor becomes an integer variable."""
METHOD['C29'] = """
The printed text is produced by the real code with numbers standing for symbolic values (equal numbers only for equal values); it is
parsed back and compared row by row with the reference hierarchy. Native formatting is trusted."""
