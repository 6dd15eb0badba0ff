#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], hook_needed=None))
    if state: d['anchors']['state'] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if observe: d['anchors']['observe_at'] = observe
    assert len(title) <= 80, (id, len(title))
    P.append(d)

T = 'paramz/transformations.py'; PC = 'paramz/core/parameter_core.py'; IO = 'paramz/core/index_operations.py'
PZ = 'paramz/parameterized.py'; PA = 'paramz/param.py'; CO = 'paramz/core/constrainable.py'; IX = 'paramz/core/indexable.py'
OB = 'paramz/core/observable.py'; OA = 'paramz/core/observable_array.py'; UP = 'paramz/core/updateable.py'
MO = 'paramz/model.py'; OP = 'paramz/optimization/optimization.py'; SC = 'paramz/optimization/scg.py'; CA = 'paramz/caching.py'
LD = 'paramz/core/lists_and_dicts.py'; NA = 'paramz/core/nameable.py'; PK = 'paramz/core/pickleable.py'; RR = 'paramz/examples/ridge_regression.py'
VO = 'paramz/optimization/verbose_optimization.py'; GC = 'paramz/core/gradcheckable.py'; PT = 'paramz/core/parentable.py'

prop('P01', 'Constraints map free numbers into their domain and back',
 "Each built-in constraint maps every array of finite free numbers (or single number) elementwise to finite values of its domain (positive, negative, or within its bounds), and mapping those values back gives the free numbers again, as long as the constraint does not saturate (for the squaring constraint: their magnitudes, as long as the squares do not overflow). Mapping any legitimate value that is not at the edge of the domain to its free number and forward again returns that value. Plotting a constraint draws that map, into the given (else the current) axes.",
 ['inputs', 'configurations'], "all built-in constraints, all bounds (lower, upper), all array shapes 1-d to 3-d, free numbers from tiny to far beyond saturation, all legitimate values over many orders of magnitude",
 "The tests evaluate f/finv at a handful of moderate values; the branch at +-36, the clipping and the bounds arithmetic are only exercised by particular magnitudes.",
 [T], [('f / finv of Logexp, Exponent, NegativeLogexp, NegativeExponent, Square, Logistic', T), ('saturation limits _lim_val and clipping', T)], observe=['f(x)', 'finv(f(x))', 'f(finv(v))'])
prop('P02', 'Gradient factors and log-Jacobians are the derivatives of the constraint map',
 "The factor with which a constraint carries a gradient from model values into free space is the derivative of its forward map at the corresponding free number, for every value and incoming gradient. Where a constraint provides a log-Jacobian and its gradient, they are the logarithm of the absolute value of that derivative and its derivative with respect to the model value.",
 ['inputs', 'configurations'], "all built-in constraints and bounds, all legitimate values over many orders of magnitude, all incoming gradients including zero and negative ones",
 "checkgrad in the tests only probes gradient factors at a few values and with a tolerance of 1e-3 on the sum of all directions.",
 [T], [('gradfactor, log_jacobian, log_jacobian_grad', T)], observe=['gradfactor(v, g)', 'log_jacobian(v)', 'log_jacobian_grad(v)'])
prop('P03', 'Constraint objects are unique and initialization lands in the domain',
 "Asking twice for a constraint of the same kind (and, for bounded ones, the same bounds) while the first is in use gives the same object, different kinds (also ones a user derives from them) or bounds give different objects that keep their own bounds, refusing bounds in the wrong order leaves no trace, and copying or pickling a constraint gives back that same object. Initializing any array of finite values for a constraint gives values in its domain, element by element, moves elements outside of it strictly inside (not onto a bound), and leaves elements which are already in the domain unchanged.",
 ['histories', 'inputs'], "all sequences of requesting, dropping, copying and pickling constraints of all kinds and bounds; all arrays of finite values, mixed inside and outside the domain",
 "The tests create a few constraints once; sharing between instances depends on the history of requests, garbage collection and unpickling.",
 [T], [('Transformation.__new__ per-class instance', T), ('Logistic.__new__ weak list of instances per bounds, Logistic.__reduce__', T), ('initialize', T)])
prop('P04', 'Index bookkeeping behaves like a map from property to set of indices',
 "After any sequence of adding, removing, shifting left or right, clearing, updating and copying, the index bookkeeping reports for every property exactly the sorted set of indices that a plain map from properties to sets would hold. A view with an offset and a size (also a view of a view) reports exactly the part of its window in local indices, writes through to the global bookkeeping, and leaves everything outside its window untouched (except that shifts move the indices behind it).",
 ['histories'], "all sequences of operations on the global bookkeeping and on arbitrarily nested views, with all index sets including empty ones",
 "The tests run a dozen fixed operations on one small example with one view.",
 [IO, LD], [('ParameterIndexOperations', IO), ('ParameterIndexOperationsView', IO), ('IntArrayDict', LD)], state=[('_properties', 'property -> sorted int array', IO)], observe=['items, properties, indices, size, [prop]', 'properties_for, properties_dict_for'])
prop('P05', 'Every node shares one memory for values and gradients, in order',
 "After any history of building, linking at any position, unlinking, re-linking, and assigning, the values (and likewise the gradients) of every node are the concatenation of those of its leaves in hierarchy order, its size is the sum of their sizes, and a write through any node or leaf is seen by all others on its path and by nothing else. An unlinked part keeps its values and is independent of its former hierarchy; a refused link or unlink changes nothing.",
 ['histories'], "all trees of parameter objects up to depth 4 and all histories of link (append, insert, move), unlink, re-link and in-place writes to values and gradients at any level",
 "Memory sharing is re-established by several cooperating steps on each structural change; the tests link and unlink a few parameters at fixed positions.",
 [PZ, PC, PA, PT], [('link_parameter / unlink_parameter / _connect_parameters', PZ), ('_propagate_param_grad', PC), ('param_array, gradient_full', PC)], observe=['param_array, gradient, size of every node', 'HierarchyError'])
prop('P06', 'Constraints and fixes stay with their elements when the hierarchy changes',
 "Linking, inserting, moving, unlinking and re-linking parts of a hierarchy never changes which constraint and whether a fix applies to any individual element, seen from the parameter itself, from every ancestor at the right offset, and after unlinking from the removed part. The number of free parameters reported at every node is its size minus its number of fixed elements.",
 ['histories'], "all trees up to depth 4, all interleavings of constraining/fixing selections of elements with link, insert, move, unlink and re-link at any level",
 "The bookkeeping is shifted and merged at each structural change with offsets that depend on position and depth; the tests check a few fixed positions.",
 [PZ, IX, CO, IO], [('link_parameter shifting and updating index operations', PZ), ('unlink_parameter / _disconnect_parent', IX), ('_parent_changed offsets', IX), ('shift_left / shift_right', IO)], observe=['constraints items at every node', 'optimizer_array size'])
prop('P07', 'Constraining a selection affects exactly its elements; the last constraint wins',
 "Constraining any node, parameter or selection of a parameter's elements (slices, integers, lists, masks, steps, any dimension) puts exactly those elements under exactly that constraint, replacing what they had, moves exactly those of their values that lie outside its domain into it, and leaves all other elements' values, constraints and fixes alone. Fixing adds to the constraint and unfixing restores it; removing named constraints removes only those, and removing all frees the selection.",
 ['histories', 'inputs'], "all sequences of constrain (positive, negative, bounded, any transformation), fix (with and without a value), unfix and unconstrain (all or named) on any node, parameter or index expression",
 "Which elements an index expression denotes, and what they were constrained to before, is a product of arbitrary expressions and histories; the tests use slices of short vectors.",
 [CO, IX, PA, IO], [('constrain, unconstrain, fix, unfix', CO), ('_add_to/_remove_from_index_operations', IX), ('_raveled_index / _indices', PA)], observe=['constraints of leaves and root', 'values'])
prop('P08', 'Fixed elements never move, and values stay in their domain, while optimizing',
 "Setting the free parameters, randomizing with any generator, optimizing with any optimizer and restarting leave every fixed element at exactly the value it had, and leave every constrained element in the domain of its constraint. This holds for whole nodes, parameters and partly fixed parameters, for fixed elements with and without another constraint, and when the operation is invoked on a sub-object.",
 ['histories', 'configurations'], "all models with random constraints and fixes on any elements; all sequences of free-space assignments, randomize, optimize (every available optimizer) and optimize_restarts, on the root and on inner nodes",
 "Tests fix one or two parameters of one model and optimize it with one optimizer.",
 [PC, CO, MO], [('optimizer_array setter', PC), ('randomize', PC), ('_transform_gradients, _ensure_fixes', PC)], observe=['values of fixed elements, bit for bit', 'domain of constrained elements'])
prop('P09', 'The free parameter array is an exact image of the model state at any time',
 "At any node and any time, the free parameter array consists, in order, of the unfixed elements of that node, each mapped into free space by its current constraint; it reflects every earlier change of values, constraints, fixes or structure, made through any handle, also while updates are off. Assigning free parameters sets exactly the unfixed elements to the forward images, so that reading back returns what was assigned and re-assigning what was read changes nothing; the array of unfixed parameters likewise lists the unfixed values themselves.",
 ['histories'], "all histories of value changes, constraints, fixes, structural changes and free-space assignments through the root, inner nodes and parameters of any shape",
 "Correctness depends on the invalidation of cached copies and masks by every kind of change; the tests read the array after one or two kinds of change.",
 [PC, CO], [('optimizer_array getter and setter', PC), ('_ensure_fixes, _connect_fixes', CO)], state=[('_optimizer_copy_', 'buffer for free parameters', PC), ('_fixes_', 'mask of free elements', CO)], observe=['optimizer_array of every node'])
prop('P10', 'Gradient checks give the right verdict and leave the model as it was',
 "Checking gradients on a model whose analytic gradient is right passes, and on one where the gradient of a free element is wrong by a clear margin fails, for the whole model, for any node, parameter, selection of elements or regular-expression selection, with summary and with verbose checking, under any constraints and fixes. Only the chosen elements are judged, fixed elements are never judged, a verbose report lists exactly the judged elements by name, and afterwards values and gradients are unchanged up to rounding, and constraints and fixes are unchanged.",
 ['configurations', 'inputs'], "all well-scaled smooth objectives on random trees with random constraints and fixes, all targets, correct gradients and gradients wrong in a chosen element",
 "The tests check gradients of correct models at few targets and hardly any wrong gradients.",
 [MO, IX, GC, PA], [('_checkgrad', MO), ('_raveled_index_for_transformed', IX), ('_transform_gradients', PC)], observe=['return value of checkgrad', 'state before and after'])
prop('P11', 'Changes reach every affected object, children first; switched off they wait',
 "Whenever values are changed in place through a parameter or node while updates are on, every object which contains a changed element is told after the change, inner ones before outer ones, so that anything it computes from its parameters is current when the operation returns. While updates are off nothing is told; switching them on from anywhere tells every object of the hierarchy exactly once, children before parents.",
 ['histories'], "all trees up to depth 4 and all interleavings of in-place changes (assignment to parameters, slices, nodes, attributes, in-place arithmetic, free-space assignment, constraining) with switching updates off and on at any node, also with fixed parts",
 "The tests count calls for a few operations on one small hierarchy.",
 [UP, OB, OA, PC, PZ], [('trigger_update / _trigger_params_changed', PC), ('update_model', UP), ('notify_observers, _pass_through_notify_observers', OB)], observe=['sequence of parameters_changed calls and the values they saw'])
prop('P12', 'Observers are called in priority order, and only while registered and alive',
 "A notification calls every registered observer callback exactly once per registration, highest priority first and in order of registration within one priority, up to (excluding) the given minimum priority, passing the changed object and which. Removing an observer or one of its callbacks, changing a priority, an observer being garbage collected, or switching updates off takes effect for all later notifications and affects no other registration; nor does unlinking the observed object from a parent which is itself an observer. A registration does not keep its observer alive, also not when the callback is a method of it.",
 ['histories'], "all sequences of add, remove (one or all callbacks), change priority, delete observer, notify with and without minimum priority, and in-place changes of observable arrays by all in-place operators",
 "The tests use two observers and a fixed order.",
 [OB, LD, OA], [('ObserverList.add/remove/flush', LD), ('notify_observers', OB), ('__setitem__ and in-place operators', OA)], observe=['sequence of callback invocations'])
prop('P13', 'A cached function always returns what a fresh computation would',
 "A call through a cacher (standalone, on a bound method, or by decorator; also that of a copied object) returns a result equal to calling the function directly at that moment, after any history of calls with positional and keyword arguments, in-place changes of arrays, their views or parameters (through any handle), evictions, resets, disabling and enabling, and errors raised by the function; also when it is asked by an observer of an argument which is just being told of a change. An error is passed on to the caller and later calls still return fresh results.",
 ['histories'], "all histories of calls with arguments drawn from arrays, views, parameters, hierarchies, numbers, strings and None, with keyword arguments in any order, and of changes to those objects, for all cache limits",
 "Staleness depends on which of many argument combinations were cached, evicted or changed in which order; the tests do a handful of calls on two arrays.",
 [CA, OB, OA], [('Cacher.__call__, on_cache_changed, ensure_cache_length', CA), ('FunctionCache, Cache_this', CA)], state=[('cached_input_ids, inputs_changed, cached_outputs', 'cache state', CA)], observe=['returned values'])
prop('P14', 'Caching is effective, bounded, and can be forced, ignored and switched off',
 "A call which repeats one of the last `limit` calls that were computed and stored, since the latest change of any of its arguments does not recompute (whatever the order of its keyword arguments), changing one cached argument does not cause recomputation for calls not using it, and never more than `limit` results are kept, the oldest going first. Arguments declared as ignored do not matter for reuse, a forcing keyword with a value (also False) always recomputes, calls with uncachable arguments are computed and not stored, and a disabled cache (disabled before or after its cachers were made) computes every time until enabled again. A cacher which was reset no longer observes any argument.",
 ['histories'], "all histories of calls, changes, disabling, enabling and resetting, for all limits, ignore lists and forcing keywords",
 "The tests check reuse for fixed short call sequences with limits 1 to 3.",
 [CA], [('Cacher.__call__, ensure_cache_length, combine_inputs', CA), ('FunctionCache.disable_caching / enable_caching / reset', CA)], observe=['number of invocations of the wrapped function'])
prop('P15', 'Copies are equal, detached and independent',
 "A copy of any node or parameter, taken at any point of any history, has the same structure, names, shapes, values, constraints and fixes, has no parent, and computes the same results; a change in it is told in the same order (observers, the object itself, late observers, its parent). Afterwards nothing done to the copy (values, constraints, fixes, structure, names, optimization, observers) affects the original or its ancestors, and vice versa.",
 ['histories'], "all trees and histories before the copy, all nodes as the thing copied, all histories applied afterwards to copy and original",
 "The tests copy one model and compare a few attributes; independence needs arbitrary later operations on both sides.",
 [PK, PZ, PA, OA], [('Pickleable.copy / __deepcopy__', PK), ('Parameterized.copy', PZ), ('Param.__deepcopy__', PA)], observe=['full state of both sides'])
prop('P16', 'Pickling and loading restores an equal, fully working model',
 "Writing any whole hierarchy, inner object or parameter to a pickle (to memory or file, any protocol from 2) and loading it, with or without the original still alive, restores structure, names, shapes, values, constraints and fixes, and leaves the original unchanged. The loaded object is independent of the original and works: changes are propagated (in the same order), constraints can be removed by naming them, free parameters, copying and optimization behave as on the original.",
 ['histories', 'configurations'], "all trees and histories before pickling, all protocols from 2, in memory and via file, all operations afterwards",
 "The tests pickle a few fixed models and compare values and printouts.",
 [PK, PZ, PA, OA, T], [('__getstate__ / __setstate__', PK), ('Parameterized.__setstate__', PZ), ('ObsAr.__reduce__/__setstate__', OA), ('Logistic.__reduce__', T)], observe=['full state of loaded object'])
prop('P17', 'Optimizing never ends worse than it started and leaves the model at its result',
 "Optimizing with any available optimizer from any state or given start leaves the free parameters at the reported optimum, with the reported objective equal to the model's objective there, and not larger than the objective at the start, within the limits of iterations and of evaluations and to the tolerances asked for, and reports how often it evaluated. All objects' computed state is current, a run is recorded (and never changes later), updates are on, and a model without free parameters is left untouched; on well-conditioned convex objectives the minimum is reached to within tolerance.",
 ['inputs', 'configurations'], "all well-scaled smooth objectives on random models with random constraints and fixes, all starting points, all optimizers installed here (L-BFGS-B, TNC, SCG, BFGS, simplex), all iteration limits, with and without progress messages",
 "The tests optimize one random convex model from one start per optimizer.",
 [MO, OP, SC, VO], [('Model.optimize', MO), ('opt_* wrappers', OP), ('SCG', SC), ('VerboseOptimization', VO)], observe=['x_opt, f_opt, optimizer_array, objective_function()'])
prop('P18', 'Random restarts end at the best run; failed runs are handled as asked',
 "After restarts (sequential or in parallel), the model is at the parameters of the run with the lowest (not undefined) objective among this call's successful runs, regardless of what earlier calls recorded, and the result is not worse than optimizing once from the initial state. With robust handling, failing runs are skipped, and if all fail the parameters are back at their initial values; without it the first failure is raised to the caller.",
 ['fault_sequences', 'histories'], "all models with several local optima, all numbers of restarts, all patterns of runs that raise (any exception type), robust on and off, earlier recorded runs of any quality",
 "The tests restart a convex model and check one failing pattern.",
 [MO], [('optimize_restarts', MO), ('randomize', PC)], observe=['optimizer_array after the call, recorded runs, exceptions'])
prop('P19', 'Numerical failures of the objective are tolerated up to ten in a row',
 "While an optimizer evaluates the model, a linear-algebra error, division by zero or value error raised by the model counts as an infinitely bad point; ten such failures in a row are tolerated, the next is raised to the caller, and any successful evaluation starts the count anew. Other exceptions are raised immediately, and after a tolerated failure evaluation at good points gives the exact objective and gradient again.",
 ['fault_sequences'], "all sequences of successful and failing evaluations (of objective, gradient or both), all exception types, all points",
 "The tests never inject failures into the objective.",
 [MO], [('_objective, _grads, _objective_grads with _fail_count and _allowed_failures', MO)], observe=['values returned to the optimizer, exceptions'])
prop('P20', 'Siblings have distinct names, and names find their parameters',
 "After any history of linking, renaming and unlinking, the children of a node have pairwise distinct names, each child (of distinct printable name) is reachable under its name as an attribute (unless the name was taken by an attribute of the object itself) and by regular expression, and names no longer in use do not resolve. Parameter name lists, flat names with indices and hierarchy names agree with the structure, the order and the number of elements (free ones only, unless fixed ones are asked for).",
 ['histories'], "all histories of linking parameters with equal, similar (name, name_1, name_2) and distinct names, renaming to free and taken names, and unlinking",
 "Renaming on collision is recursive and depends on which names were taken before; the tests cover two or three colliding names.",
 [PC, NA, PZ], [('_add_parameter_name / _remove_parameter_name / _name_changed', PC), ('parameter_names, parameter_names_flat', PC), ('grep_param_names', PZ), ('hierarchy_name', NA)], state=[('_added_names_', 'names set as attributes', PC)])
prop('P21', 'Printable names are valid identifiers or refused',
 "Adjusting any string for printing returns a valid Python identifier, or raises a name error; it never changes a string which is an identifier already, and adjusting twice is the same as adjusting once. Spaces, dots and the documented operator characters are always accepted, inside a name and in front of it (a closing parenthesis is dropped; what is left must not be empty or begin with a digit).",
 ['inputs'], "all strings, over ASCII, operators, control characters and unicode",
 "The tests adjust a couple of names.",
 [NA], [('adjust_name_for_printing', NA)])
prop('P22', 'A selection of several parameters acts as their flat concatenation',
 "Selecting parameters by regular expression gives an object whose values are the concatenation of the selected leaves' values in order; reading (in the order asked for), assigning (with broadcasting, at any index expression) and in-place arithmetic act on it as on that flat array, writing through to the parameters, leaving all others alone and updating every containing object every time. Constraining, unconstraining, fixing and unfixing it does the same to each selected parameter as calling it on each of them, and on some of its elements (at any index) exactly to these.",
 ['histories', 'inputs'], "all trees, all regular expressions over the names, all flat index expressions and values including zeros, all sequences of operations on the same selection object",
 "The tests assign whole selections a few times.",
 [PA, PZ], [('ParamConcatenation', PA), ('grep_param_names, __getitem__, __setitem__', PZ)], observe=['values()', 'values and constraints of all parameters', 'parameters_changed calls'])
prop('P23', 'Reading and assigning by index or name acts on exactly the elements denoted',
 "Reading a parameter with any index, or a node with any integer, slice, tuple or array, gives what the same index gives on a plain array of its values, and assigning by index, slice, mask, attribute or name (scalar or array, with broadcasting) writes exactly the elements the same assignment to a plain array would write. All other elements, all constraints and all fixes are unchanged, and fixed elements assigned explicitly take the new value.",
 ['inputs', 'histories'], "all shapes up to 3-d, all basic and advanced index expressions (integers, negative steps, ellipsis, lists, masks), on parameters and nodes; assignments by attribute and by regular expression",
 "The tests use a few slices.",
 [PA, PZ, OA], [('Param.__getitem__, ObsAr.__setitem__', PA), ('Parameterized.__getitem__/__setitem__/__setattr__', PZ)])
prop('P24', 'Printing works for every model and shows what is there',
 "Printing any node, parameter or selection as text or HTML, at any time, succeeds and changes nothing. The output lists every leaf of a node once, in order, with its name, its shape or single value and its constraints (marked as partial when they cover only part of it), and every element of a parameter with its index, value and constraints. Drawing a hierarchy as a graph gives one node per object and one edge per link.",
 ['histories'], "all trees, names, shapes, values (including very large, small and negative), constraints and fixes on any selection",
 "The tests print a few models and compare or ignore the text.",
 [PA, PZ, MO], [('__str__, _repr_html_, _format_spec, get_property_string', PZ), ('Param.__str__', PA), ('Model.__str__', MO)])
prop('P25', 'Traversal visits every object exactly once, parents before children',
 "Traversing from any node calls the visitor exactly once for that node and each object below it, parents before children and siblings in order, passing on extra arguments; traversing parents visits each ancestor and each object below an ancestor but not below the starting node, exactly once. This also holds after a visitor raised an exception in an earlier traversal, for traversals started from inside a visitor of another hierarchy, and for those of what is below an object started by its own visit.",
 ['histories'], "all trees, all starting nodes, all sequences of traversals including ones whose visitor raises at any object",
 "The tests traverse one three-level hierarchy from three places.",
 [PC], [('traverse, _traverse, traverse_parents with visited marks', PC)])
prop('P26', 'The regression examples compute exactly the documented objective',
 "For any data, polynomial degree and regularization strength, ridge and lasso regression report the sum of squared residuals plus the regularization term as objective, its exact derivative as gradient, and the polynomial with the current weights as prediction, after any history of weight changes, fixes, constraints, copies and optimization. Optimizing ridge regression reaches the closed-form solution to within optimizer tolerance.",
 ['inputs', 'histories'], "all small data sets and degrees, all weights, all histories of weight assignment through any handle, data changes in place, copying and optimization",
 "The tests fit one random data set per example.",
 [RR, CA], [('RidgeRegression.parameters_changed, predict, phi', RR), ('Polynomial basis with Cacher', RR), ('Ridge, Lasso update_error', RR)])
prop('P27', 'Deferred initialization and saved parameters rebuild the same model',
 "A model built without initialization and initialized later is in the same state as one built normally, and refuses whole-model assignment before it is initialized. Following the documented load procedure (build without initialization, updates off, initialize, assign the saved parameter array, updates on) restores values, constraints and all computed results of the saved model, running each object's update only when updates are switched on.",
 ['histories', 'configurations'], "all model structures with constraints and fixes set in the constructor, all parameter values saved after arbitrary histories",
 "The tests follow the procedure for one or two fixed models.",
 [PZ, PC, UP], [('ParametersChangedMeta.__call__', PZ), ('initialize_parameter', PC), ('update_model', UP), ('__setitem__ guard', PZ)])
prop('P28', 'Scaled conjugate gradients descends and reports consistently',
 "For any smooth function, gradient and start, the scaled conjugate gradient minimizer returns a point where the function has the last value of its log, whose log never increases and starts with the value at the start, within the iteration limit, without changing the start array, and reports how many evaluations it made. On well-conditioned convex quadratics it reaches the minimum when given enough iterations and tight tolerances.",
 ['inputs'], "all dimensions up to 8, random smooth convex and non-convex functions, random starts, limits and tolerances",
 "The tests run it on one model.",
 [SC], [('SCG', SC), ('opt_SCG', OP)])
prop('P29', 'Parameters hold what they are made from and compute like plain arrays',
 "A parameter or observable array made from any array-like holds its values as a writable, C-ordered float array with at least one dimension, using the memory of an array which already is one; making one from a parameter or an observable array leaves that one (its name, constraints, place in its model and observers) as it was. Arithmetic, comparisons, ufuncs, reductions and products with parameters, parts of them or observable arrays on either side give what numpy gives for the plain arrays, as plain arrays of their own, and computing changes nothing and updates nothing.",
 ['inputs', 'histories'], "all shapes up to 3-d and dtypes, nested lists, views, read-only and Fortran-ordered arrays, parameters and observable arrays as sources, all operators, ufuncs and reductions with all kinds of operands, free or linked and constrained",
 "The tests make parameters from a few arrays and add two of them.",
 [PA, OA], [('Param.__new__, __array_finalize__', PA), ('ObsAr.__new__, __array_wrap__', OA)])
prop('P30', 'Progress messages report what happens and change nothing',
 "An optimization or series of restarts with progress messages visits the same points, ends with the same values, records, exceptions, observers and random numbers as one without, for every optimizer, with failing evaluations, and on repeated runs. The messages name the optimizer, count all evaluations (also those not shown), show only objectives and squared gradient norms the model has had, and end with the status of the run.",
 ['histories', 'faults', 'configurations'], "all models, starts, optimizers, limits, schedules of failing evaluations, restarts with and without seeds, repeated runs on the same model, messages switched on by argument",
 "The tests switch messages on in a few runs and do not look at the text.",
 [VO, MO, OP], [('VerboseOptimization', VO), ('optimize, optimize_restarts', MO)])
prop('P31', 'A failure in the middle of an operation leaves everything consistent',
 "When a user's function (the update of an object, an observer, an objective, a random number generator) raises in the middle of an operation (assignment through any handle, constraining, fixing, free values, switching updates, randomizing, gradient checking, copying, initializing, linking), the exception reaches the caller and the operation is complete or has left no trace: once the failure is over and an update is triggered, values, constraints, fixes, structure, names, free values, the state of updates, observers, gradients and results are as if it had succeeded, or as before and it can be repeated. Operations refused for their arguments leave no trace.",
 ['faults', 'histories'], "all hierarchies and models with constraints, fixes and observers, all operations, failures (ordinary exceptions and interrupts) at any call of a user's function before or after its work, all histories continued afterwards",
 "The tests raise in an objective during optimization only.",
 [CO, PA, PZ, PC, UP, MO], [('constrain, _write_back, constrain_fixed', CO), ('update_model, trigger_update', UP), ('randomize, optimizer_array', PC), ('_checkgrad', MO), ('notify_observers', OB)])
prop('P32', 'Properties a user attaches to elements stay with them',
 "Where the objects of a hierarchy have an index operation of a user's own (such as priors), a property added to or removed from any node, parameter or selection of elements belongs to exactly the elements it was given to (any number of properties per element) and is reported by every object which contains them, at their place. It stays with its elements when parts are linked, moved, unlinked, copied or pickled, replacing the whole operation of a root is seen by every object below it, removing reports exactly the elements which had it, and printing shows it (marked where it covers only part of a parameter). Constraints, fixes and values are not affected by it, nor it by them.",
 ['histories'], "all hierarchies and models, histories of tagging, untagging, constraining, structure, values, copies and pickles",
 "The tests use constraints only, no second index operation.",
 [IX, IO, PZ, PA], [('add_index_operation, _parent_changed, _disconnect_parent, _add_to/_remove_from_index_operations', IX), ('link_parameter, unlink_parameter', PZ), ('shift_left, shift_right, update, remove', IO)])
prop('P33', 'Saving to a file writes every value, so that it can be told apart and loaded',
 "Saving any object (a root, an inner node, a parameter or a part of one) to a file writes one dataset per parameter below it, with its shape and exact values, under its path put into one word (parameters whose paths give the same word get different names), and the whole array in the order of the object's elements as 'param_array', which assigned to an equal object restores every value. Saving replaces what the file held before and changes nothing in the hierarchy. A failure of the file and a file type which is not supported are reported by an exception (the failure itself, interrupts included) and leave no open file.",
 ['histories', 'faults'], "all hierarchies and models after any history of structure, names, constraints and values, all objects of them, files which fail at any call",
 "No test saves.",
 [PC], [('save', PC), ('parameter_names', PC), ('traverse', PC)])
prop('P34', 'What nobody refers to any more is released, what is in use is kept',
 "After any use of a hierarchy (structure, constraints with bounds, fixes, copies, pickles, optimization with and without messages or restarts, gradient checks, printing, selections, caches, observers, failing operations) giving up the last reference to any of its objects releases all of it: its objects, its arrays, its bounded constraints which no other object is constrained by, and its registrations at arrays and objects it observed or computed cached results from. Unlinked parts, copies, loaded objects and shared data do not keep the hierarchies they came from alive and work on without them. As long as one object of a hierarchy is referred to, all of it is alive and works. A cache refers to no more arguments than those of the results it holds, and to none after a reset.",
 ['histories'], "all histories of the operations of the library, all choices of which hierarchies are given up and in which order",
 "No test looks at lifetimes.",
 [OB, LD, IX, CA, T, PZ, MO], [('ObserverList.add, flush', LD), ('_disconnect_parent', IX), ('Cacher.add_to_cache, ensure_cache_length, reset', CA), ('Logistic.__new__', T), ('unlink_parameter', PZ), ('optimize', MO)], observe=['weak references after a garbage collection', 'observers of shared arrays'])
prop('P35', 'A model which is part of another object works as it does alone',
 "A model below another object (a model of models, directly or inside of other objects) does everything as it does alone, with the same histories: optimization with every optimizer and its record, restarts, tolerated and other failures, gradient checks, randomizing, free parameters (its own constraints and fixes, and those made through what is around it), copies. None of it changes values beside it, and after it what is around is up to date (values, objective, gradients) and updates are on. Unlinked it is alone and works, linked again it is part of what is around. Optimizing the model around moves all of them together, does not end worse than it started and leaves every model at its part of the result.",
 ['histories', 'configurations'], "all models (trees, constraints, fixes, objectives) below models of models, histories of constraints, values, optimization, failures, structure and copies",
 "The tests optimize models which are roots.",
 [MO, PC, UP, PZ], [('optimize, optimize_restarts, _objective_grads, _checkgrad', MO), ('optimizer_array and its setter, _trigger_params_changed, randomize', PC), ('update_model, trigger_update', UP), ('link_parameter, unlink_parameter', PZ)], observe=['values, gradients, free parameters, runs, exceptions of the model alone and below another one', 'objective and gradients of the model around'])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for d in P: f.write(json.dumps(d) + '\n')
print(len(P))
