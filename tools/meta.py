"""Writes properties.jsonl and MANIFEST.json (run by hand after editing the table below)."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
IO = 'paramz/core/index_operations.py'
PC = 'paramz/core/parameter_core.py'
CO = 'paramz/core/constrainable.py'
IX = 'paramz/core/indexable.py'
PD = 'paramz/parameterized.py'
PA = 'paramz/param.py'
TR = 'paramz/transformations.py'
MO = 'paramz/model.py'
OB = 'paramz/core/observable.py'
OA = 'paramz/core/observable_array.py'
LD = 'paramz/core/lists_and_dicts.py'
CA = 'paramz/caching.py'
PI = 'paramz/core/pickleable.py'
UP = 'paramz/core/updateable.py'
NA = 'paramz/core/nameable.py'
OP = 'paramz/optimization/optimization.py'
SC = 'paramz/optimization/scg.py'
VO = 'paramz/optimization/verbose_optimization.py'
RR = 'paramz/examples/ridge_regression.py'
P = []


def prop(id, title, statement, over, text, why, files, mech, observe=None):
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}
    if observe:
        a['observe_at'] = observe
    P.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why, 'anchors': a})


prop('C01', 'Index maps behave as sets under every edit history',
     'A map from properties (such as constraints) to parameter indices always holds, for each property, exactly the set of indices that its history of adding, removing, shifting, merging, copying and clearing calls for: no index is lost, listed twice or attributed to another property, and removing reports exactly the indices taken out. '
     'Opening a gap moves the indices at and after it by its size, closing a gap drops the indices inside it and moves those after it back. A copy is independent of its source.',
     ['histories', 'inputs'], 'every sequence of edits with arbitrary indices, gap positions and gap sizes, including repeated indices',
     'The tests edit one map of eight fixed indices a few times; index arithmetic breaks for particular relations between indices, gap start and gap size.',
     [IO, LD], [('add / remove / shift_right / shift_left / update / copy / clear', IO + ': ParameterIndexOperations'), ('default empty array per property', LD + ': IntArrayDict')])

prop('C02', 'Views on an index map are faithful windows',
     'A view on an index map that starts at an offset and has a size shows exactly the entries of the underlying map that lie in that window, renumbered from zero, also when it is a view of another view. '
     'Adding, removing, clearing or shifting through the view changes exactly the corresponding entries of the underlying map and nothing outside the window (shifting also moves what lies behind), and a copy of a view is detached from it.',
     ['inputs', 'histories'], 'every content of the underlying map, every offset and size, every edit through the view or below it',
     'The tests look at views of one map at three fixed offsets; off-by-one errors at a window edge need an entry exactly there.',
     [IO], [('_filter_index and all methods of the view', IO + ': ParameterIndexOperationsView')])

prop('C03', 'Constraints and fixes stay with their own elements when the hierarchy changes',
     'Linking, inserting at any position, moving and unlinking parameters anywhere in a hierarchy never changes which elements of which parameter carry a constraint or are fixed: each element keeps the constraint and the fix it had, whether asked on the parameter itself, on its parent or on the root. '
     'An unlinked parameter takes its constraints and fixes with it and leaves none behind.',
     ['histories', 'configurations'], 'every small hierarchy, every placement of constraints on elements, every sequence of link, insert, move and unlink operations',
     'Tests unlink and relink a few parameters with whole-parameter constraints; a shift error only shows for partially constrained parameters behind the edited place.',
     [PD, IX, IO, CO], [('link_parameter / unlink_parameter', PD), ('_parent_changed, _disconnect_parent, _offset_for', IX), ('shift_right / shift_left / update', IO), ('_connect_fixes', CO)])

prop('C04', 'Constraining an indexed parameter affects exactly the addressed elements',
     'Constraining, fixing, unfixing or unconstraining a parameter through basic slices, integer index lists or boolean masks changes the constraint, the fix and the values of exactly the elements that the same index addresses in the array, and of no other element. '
     'The constraints listed for an indexed parameter element by element are those of the addressed elements, wherever the parameter sits in a hierarchy.',
     ['inputs', 'configurations'], 'one-, two- and three-dimensional parameters, every slice start, stop and step (negative included), integer lists, masks, at every place in a hierarchy, arbitrary values',
     'Tests use two or three slices of one shape; the mapping from index expressions to flat indices has to agree with numpy for all of them.',
     [PA, IX, CO], [('_raveled_index, _indices, __getitem__, _current_slice_', PA), ('_offset_for, _raveled_index_for', IX), ('constrain, constrain_fixed, unconstrain', CO)])

prop('C05', 'There is one copy of all parameter values and gradients',
     'In an initialized hierarchy every parameter is a window on its parent\'s flat array of values, and so on up to the root, in the order of the parameters; the same holds for gradients. '
     'A value or gradient written at any level (parameter, slice, node, root; by index, by name, by attribute or in place) is read back unchanged at every other level, and no other element changes, before and after linking or unlinking.',
     ['histories', 'configurations', 'inputs'], 'every small hierarchy shape, every write position and level, arbitrary values, after every link, unlink or copy',
     'Tests write whole parameters on one model; memory sharing is lost silently for one branch after one kind of restructuring.',
     [PC, PD, PA], [('_connect_parameters', PD), ('_propagate_param_grad, param_array, gradient_full', PC), ('__getitem__, __setitem__, __setattr__', PD), ('__getitem__, gradient', PA)])

prop('C06', 'Optimizer vector round-trips, obeys the constraints and is never stale',
     'On every node of a hierarchy the optimizer vector has one entry per non-fixed element, is always the transformation of the current parameter values (whatever was assigned, constrained or restructured since it was last read while updates are on), and writing it back leaves all values as they are. '
     'Writing any vector puts the transformed values into the non-fixed elements, in the domain of their constraints, leaves fixed elements unchanged bit by bit, and reading it again gives the vector back; changing a vector that was read or written changes nothing else.',
     ['inputs', 'histories', 'configurations'], 'every vector of reals, every assignment of constraints and fixes to elements, every node, after every value, constraint or fix change',
     'Tests round-trip a handful of models with random values; staleness and mask errors need a particular order of reading, constraining, fixing and writing.',
     [PC, CO, TR], [('optimizer_array getter and setter', PC), ('_optimizer_copy_transformed invalidation', PC), ('constraint and fix masks', CO), ('f / finv', TR)])

prop('C07', 'Gradients handed to the optimizer follow the chain rule',
     'The gradient given to an optimizer is, for each non-fixed element in order, the model gradient of that element times the derivative of its constraint transformation at the current value, and the objective and gradient are evaluated at exactly the vector given. '
     'Evaluating the objective or gradients does not change the gradient stored in the model, so repeated evaluation gives the same result.',
     ['inputs', 'configurations'], 'arbitrary objective and gradient values, every assignment of constraints and fixes, every vector, repeated and interleaved evaluations',
     'Tests gradient-check a few models numerically within a tolerance, which misses an error in a rarely used constraint or on the second evaluation.',
     [MO, PC, TR], [('_grads, _objective, _objective_grads', MO), ('_transform_gradients', PC), ('gradfactor', TR)])

prop('C08', 'Built-in transformations are consistent maps onto their domain',
     'Every built-in transformation maps each real number into its domain and keeps (or, for the negative ones, reverses) the order of the numbers, its inverse undoes it (and is undone by it), its gradient factor is the incoming gradient times the derivative of the forward map, its log jacobian (where implemented) is the logarithm of that derivative\'s absolute value and comes with its own derivative. '
     'Initializing moves values into the domain and leaves values that are already inside it as they are.',
     ['inputs'], 'every real input (away from the documented clipping limits), all bounds lower < upper, arrays of any small length',
     'Tests sample one range of inputs for some of the transformations and never compare the derivative with the forward map.',
     [TR], [('f, finv, gradfactor, initialize, log_jacobian', TR)])

prop('C09', 'Constraining, fixing, unfixing and unconstraining obey their algebra',
     'After constraining, an element carries exactly the new constraint and is not fixed; fixing keeps the constraint and the value and unfixing restores the state before it; unconstraining from a given transformation removes only that one and unconstraining from nothing in particular removes all. '
     'Transformations with the same type and bounds are the same object, whatever was constructed, copied, pickled or rejected before, so that a constraint can be removed by an equal one.',
     ['histories', 'inputs', 'configurations'], 'every sequence of constrain, fix, unfix and unconstrain operations on every node and parameter of a small hierarchy',
     'Tests run one or two such calls on whole models; interactions of overlapping calls on parent and child are not covered.',
     [CO, IX, TR], [('constrain, constrain_fixed, unconstrain, unconstrain_fixed', CO), ('_add_to_index_operations, _remove_from_index_operations', IX), ('Transformation.__new__, Logistic.__new__', TR)])

prop('C10', 'Observers are called in priority order, once, and only while registered',
     'A change notification calls every registered observer exactly once per registration, in order of decreasing priority and, among equals, in order of registration; with a threshold it calls exactly those with a larger priority. '
     'Removing an observer (or one of its callbacks, or an observer that died) affects no other registration, and with updates off nothing is called.',
     ['histories', 'inputs'], 'every history of adding, removing, re-prioritising and dying observers, all priorities',
     'Tests register three observers with fixed priorities.',
     [OB, LD], [('add_observer, remove_observer, notify_observers, change_priority', OB), ('ObserverList.add / remove / flush', LD)])

prop('C11', 'A change anywhere updates every object above it, children first',
     'Changing values of a parameter (by assignment, in-place arithmetic, slice, mask or attribute), of a node or of the root runs the update of every object from the changed one up to the root, after the new values are visible, an object always after the objects below it; setting values through a node also updates what is below it. '
     'With updates off nothing runs, whatever happens, and switching them on again brings the whole hierarchy up to date with one pass.',
     ['histories', 'configurations', 'inputs'], 'every place and way of changing a value in every small hierarchy, arbitrary values, updates on and off',
     'Tests count updates for a few assignments on one three-parameter model.',
     [PC, UP, OA, OB, PD], [('_trigger_params_changed, _parameters_changed_notification, _pass_through_notify_observers', PC), ('trigger_update, update_model', UP), ('in-place operators and __setitem__', OA), ('link_parameter observer wiring', PD)])

prop('C12', 'Caching never changes results',
     'Calling a cached function always returns what the function itself would return for the current contents of its arguments, for every history of calls with positional and keyword arguments, in-place changes of arguments, evictions, errors, resets, disabling and enabling; arguments declared as ignored are the only exception. Changes of an argument count that are made while its updates are switched on, and callers do not change returned results. '
     'Arguments that cannot be cached are computed, an error of the function reaches the caller and leaves the cache usable, and forced keywords always compute.',
     ['histories', 'inputs', 'fault_sequences'], 'every history of calls, changes, failures, resets and switches over a small set of observable arrays, numbers, strings and None',
     'Tests follow a few fixed scripts; stale results need a particular interleaving of calls, changes and evictions.',
     [CA, OA, OB], [('Cacher.__call__, combine_inputs, prepare_cache_id, on_cache_changed, ensure_cache_length, reset', CA), ('Cache_this, FunctionCache', CA)])

prop('C13', 'Caching is effective and bounded',
     'Repeating a call whose arguments have not changed since, while at most as many other calls as the limit allows came in between, does not run the function again. '
     'At most the limit of results is kept at any time, the oldest is dropped first, and the cache no longer observes arguments it holds no result for, nor keeps them alive.',
     ['histories'], 'every history of calls, changes, evictions and resets with limits 0 to 3',
     'Tests check one repeated call and one eviction.',
     [CA], [('Cacher.ensure_cache_length, add_to_cache, inputs_changed', CA)])

prop('C14', 'A copy is equal to and independent of its original',
     'A copy of a parameter, node or model has the same structure, names, values, gradients of freshly updated state, constraints and fixes as the original, and is a root of its own. '
     'Afterwards any change of either (values, constraints, fixes, names, structure) leaves the other unchanged and does not notify it, and the original is left exactly as before the copy.',
     ['histories', 'configurations', 'inputs'], 'every node of every small hierarchy, arbitrary values, constraints and fixes, every kind of change after the copy',
     'Tests compare a copy once for two models.',
     [PI, PD, PA, OA], [('copy, __deepcopy__, __getstate__, __setstate__', PI), ('Parameterized.copy / __setstate__', PD), ('Param.copy / __deepcopy__', PA), ('ObsAr.copy / __deepcopy__ / __reduce__', OA)])

prop('C15', 'Pickling round-trips the whole model',
     'Pickling a parameter, node or model and loading it again gives an object with the same structure, names, values, constraints and fixes, whose updates, optimizer vector and gradients work as those of the original; constraints of the loaded object can be removed by equal constraints and unfixed. An inner parameter or node loads as the root of its own hierarchy. '
     'Pickling leaves the original unchanged.',
     ['configurations', 'inputs', 'histories'], 'every small hierarchy, arbitrary values, constraints and fixes, every operation after loading',
     'Tests pickle some models and compare values and strings; they do not keep working with the loaded object.',
     [PI, OA, PA, PD, TR], [('__getstate__, __setstate__', PI), ('ObsAr.__reduce__', OA), ('Parameterized.__setstate__', PD), ('Logistic.__new__ / __reduce__', TR)])

prop('C16', 'Names stay unique, findable and in element order',
     'After every link, rename and unlink the direct parameters of a node have pairwise different names, each is available as the attribute of its (printable) name and under no other, and unlinked or renamed-away names are gone, without touching other attributes of the node (a name equal to an attribute that the node has already does not take it over). '
     'The lists of parameter names and of flat element names follow the order of the elements, the latter with exactly one name per (non-fixed) element; getting by a regular expression returns exactly the parameters below the node whose path below the root (its name, after the names of the nodes between) matches it from its start.',
     ['histories', 'configurations'], 'every sequence of link, rename and unlink with names from a small alphabet including clashes, numbered names and printable forms',
     'Tests add three parameters of the same name once.',
     [PC, PD, NA, PA], [('_add_parameter_name, _remove_parameter_name, _name_changed', PC), ('name setter, hierarchy_name', NA), ('parameter_names, parameter_names_flat', PC), ('grep_param_names, __getitem__', PD)])

prop('C17', 'Printable-name conversion gives a usable identifier or an error',
     'Converting any name to its printable form either raises NameError or returns an identifier made of letters, digits and underscores (dashes already replaced) that does not start with a digit; names that are already identifiers come back unchanged, and converting twice is the same as converting once. '
     'Each special character is replaced by its own fixed text wherever it occurs, and all other characters stay in place.',
     ['inputs'], 'all strings up to a bound over all characters',
     'Tests convert a few names.',
     [NA], [('adjust_name_for_printing', NA)])

prop('C18', 'Scaled conjugate gradient reports what it did, for every objective',
     'For every objective and gradient function the scaled conjugate gradient optimizer ends, calls the objective and gradient as often as it reports, never gets worse than the start, and the best value it logs last is the objective value at the point it returns. '
     'It stops within the allowed number of iterations with a status that matches the reason, at the first accepted iteration at which one of the tolerances is met, and on a convex parabola every step gets closer to the minimum. Every step goes down along its search direction: the negative gradient at the start, after as many accepted steps as there are parameters and where the conjugate direction would go up, otherwise the conjugate (Polak-Ribiere) direction.',
     ['inputs', 'programs'], 'arbitrary objective and gradient values at every evaluated point (any function), small iteration bounds',
     'Tests optimize one smooth model; the branches for negative curvature, failed steps and restarts are not reached.',
     [SC, OP], [('SCG main loop', SC), ('opt_SCG', OP)])

prop('C19', 'Optimizing leaves the model at the reported optimum, restarts at the best run',
     'Whatever the optimizer does, after optimizing the model\'s parameters are the ones of the reported optimum, fixed elements are unchanged, the run is recorded and a model with nothing free is left alone. '
     'After restarts the model is at the best of the runs made in this call, also when some runs failed; if all failed and failures are tolerated the starting values are restored, and untolerated failures reach the caller.',
     ['histories', 'fault_sequences', 'inputs'], 'every optimizer behaviour (evaluated points, result, exception), every pattern of failing runs, arbitrary objective values, previous runs',
     'Tests run real optimizers that succeed.',
     [MO, OP], [('optimize, optimize_restarts', MO), ('Optimizer.run', OP)])

prop('C20', 'Numerical failures are tolerated a bounded number of times',
     'When updating the model or computing its objective fails numerically (linear algebra, division by zero or value error) the optimizer sees an infinite objective and clipped gradients instead of the error, for at most the allowed number of failures in a row; the next failure reaches the caller, and every success starts the count again. '
     'Errors of other kinds always reach the caller immediately.',
     ['fault_sequences'], 'every sequence of successes and failures of each kind, at objective, gradient and combined evaluations',
     'Tests never let an evaluation fail.',
     [MO], [('_grads, _objective, _objective_grads, _fail_count', MO)])

prop('C21', 'The gradient check accepts right gradients and rejects wrong ones',
     'For models with correct gradients the gradient check of the model or any of its parameters returns true, and it returns false when the gradient of one checked element is wrong by more than the tolerance, absolutely and relative to the gradients checked along with it; it looks at the checked, non-fixed elements only. '
     'The check leaves all parameter values as they were, and a parameter without free elements passes.',
     ['inputs', 'configurations'], 'arbitrary linear and quadratic objectives and wrong gradients, constraints and fixes, arbitrary target parameter, verbose and not',
     'Tests check right gradients of some models, and a few wrong ones.',
     [MO, IX, 'paramz/core/gradcheckable.py'], [('_checkgrad', MO), ('_raveled_index_for_transformed', IX), ('checkgrad', 'paramz/core/gradcheckable.py')])

prop('C22', 'A concatenation of parameters behaves as their flat concatenation',
     'Selecting several parameters at once gives a handle whose values are the elements of the selected parameters in order, each parameter once; reading or writing any index of it reads or writes exactly those elements, and the model is updated. '
     'Constraining, fixing, unfixing and unconstraining through it does the same as doing so on each selected parameter, and the model is updated when this can change values.',
     ['inputs', 'histories', 'configurations'], 'every selection of parameters, every index into the concatenation, arbitrary values (including zero)',
     'Tests write all values of a concatenation at once.',
     [PA, PD], [('ParamConcatenation', PA), ('Parameterized.__getitem__ / __setitem__', PD)])

prop('C23', 'Randomizing changes free elements only and obeys the constraints',
     'Randomizing a model, node or parameter puts values into exactly its non-fixed elements, namely the drawn numbers transformed by the constraints of the elements; fixed elements and everything outside the node keep their values. '
     'The model is updated exactly once, when everything is set, and the update setting is the same as before.',
     ['inputs', 'configurations'], 'every outcome of the random draw, every assignment of constraints and fixes, every node',
     'Tests randomize a model and check that something changed.',
     [PC], [('randomize', PC)])

prop('C24', 'Optimizer backends report faithfully for every outcome of the library',
     'For every result and return code that the underlying optimization library can give, each backend reports the returned point as optimum, the objective value at that point, the library\'s number of evaluations and the status text for that code. '
     'Tolerances and iteration limits given by the user are passed on under the option that has this meaning in the library, and an optimizer is found by any unambiguous part of its name.',
     ['inputs', 'configurations'], 'every return code, arbitrary result points and values, every combination of given options',
     'Tests run the library on one easy problem, where it always returns the same code.',
     [OP], [('opt_tnc, opt_lbfgsb, opt_bfgs, opt_simplex, opt_SCG', OP), ('get_optimizer', OP)])

prop('C25', 'The hierarchy always stays a tree with consistent bookkeeping',
     'After every sequence of link, insert, move and unlink operations, including rejected ones, every object has at most one parent, is listed exactly once there at the position it reports, and every size is the sum of the sizes of the parameters. '
     'Linking an object twice, below itself or unlinking something that is not a parameter raises an error and leaves the hierarchy as it was, and visiting the hierarchy meets every object exactly once, parents first.',
     ['histories'], 'every sequence of valid and invalid structural operations on a small set of nodes and parameters',
     'Tests try two invalid operations.',
     [PD, PC, 'paramz/core/parentable.py', IX], [('link_parameter, unlink_parameter', PD), ('traverse, traverse_parents', PC), ('_highest_parent_', 'paramz/core/parentable.py')])

prop('C26', 'Deferred initialization ends in the same state as immediate initialization',
     'A model built without initialization, then initialized (with updates on or off) and given values, ends up with the same structure, values, constraints, fixes, memory sharing and number of pending updates as one built and initialized at once. '
     'Before initialization nothing is updated, and setting values through the model is refused.',
     ['configurations', 'histories'], 'every small hierarchy with arbitrary values and constraints, initialized immediately, later, or later with updates off',
     'Tests initialize one model late.',
     [PD, PC], [('ParametersChangedMeta.__call__', PD), ('initialize_parameter', PC), ('__setitem__', PD)])

prop('C27', 'The regression example has the objective and gradient it documents',
     'For all inputs, outputs and weights the regression model\'s objective is the squared error of its prediction plus the regularization (sum of squares for ridge, of absolute values for lasso, times lambda), and the gradient of the weights is the derivative of that objective, after every change of weights or data; predicting gives the same polynomial. ',
     ['inputs', 'histories'], 'arbitrary real inputs, outputs, weights and lambda, degrees 0 to 2, one or two input dimensions, changes of weights and data in any order',
     'Tests check the gradient numerically at a few random points.',
     [RR, CA], [('RidgeRegression.parameters_changed, predict, phi', RR), ('Ridge / Lasso update_error', RR), ('Polynomial basis with cache', RR)])

prop('C28', 'Watching an optimization does not influence it',
     'Optimizing with messages on visits the same points and gives the same result, parameters and recorded runs as with messages off, and stops observing the model afterwards, also when the optimizer fails. '
     'The displayed run time is the elapsed time split into days, hours, minutes and seconds.',
     ['inputs', 'fault_sequences', 'schedules'], 'arbitrary objective values, clock readings, optimizer behaviour and failures',
     'Tests optimize once with messages on.',
     [VO, MO], [('VerboseOptimization', VO), ('optimize', MO)])

prop('C29', 'Printed summaries list every parameter and element once, in order',
     'The printed summary of a node has one row for each parameter below it, in order, with its name, shape or value and its constraints; the printed form of a parameter has one row for each addressed element with its index, value and exactly the constraints of that element. '
     'Printing changes nothing and works for every combination of constraints and fixes.',
     ['configurations', 'histories'], 'every small hierarchy with constraints and fixes on arbitrary elements, plain and html form',
     'Tests print two models.',
     [PD, PA, MO], [('__str__, _repr_html_, _format_spec', PD), ('__str__, _repr_html_, get_property_string', PA)])

PENDING = {}
NOT_APPLICABLE = {}
LEVEL_NOTE = {}


def main():
    with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
        for p in P:
            f.write(json.dumps(p) + '\n')
    checks, na = [], []
    for p in P:
        i = p['id']
        if i in NOT_APPLICABLE:
            na.append({'property': i, 'reason': NOT_APPLICABLE[i]})
        elif os.path.exists(os.path.join(ROOT, 'checks', i.lower() + '.py')):
            cmd = '/opt/venv/bin/python -m symx.run %s --tier ' % i
            checks.append({'property': i, 'quick_cmd': cmd + 'quick', 'thorough_cmd': cmd + 'thorough',
                           'technique': 'symbolic execution of the real code, z3 decides every assertion on every path',
                           'level': 'model_checking',
                           'level_note': LEVEL_NOTE.get(i, 'all paths and all values within the bounds listed per scenario in the evidence file; reals stand for floats; numpy is replaced by an emulator, counterexamples and sampled paths are replayed with the real numpy')})
        else:
            na.append({'property': i, 'reason': PENDING.get(i, 'the check for this property is not built yet')})
    m = {'version': 1, 'setup_cmd': '/opt/venv/bin/python -m symx.selftest', 'checks': checks, 'not_applicable': na}
    with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


if __name__ == '__main__':
    main()
