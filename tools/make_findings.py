"""Writes known_findings.json: what was found in the code under test, repaired or not."""
import json, os
fixed = '''P10 51ca6df checking gradients of a selection by regular expression raised a TypeError (numpy hstack of a generator)
P01 8eec00d the negative exponential transformation: inverse, gradient factor and log jacobian were those of another function (also P02)
P16 bdc8eb9 a bounded constraint which was unpickled or copied was another object than the one its class hands out, so it could not be removed by naming it (also P03)
P21 aa2664b a name with a trailing newline was accepted as an identifier
P20 8137c7e hierarchy_name(adjust_for_printing=False) adjusted the names of ancestors
P20 8ab9e06 parameter_names(add_self=True) raised a TypeError (map object in Python 3)
P22 e71dfd7 indexing a selection dropped values which are zero
P22 d9c4c50 assigning part of a selection raised or wrote other elements (values were not taken as one flat array)
P22 aeea3cf after the first assignment to a selection of two parameters below different nodes their ancestors were no longer updated (exhausted iterator)
P22 7336810 in-place arithmetic on a selection bound None to the name
P07 7226cd1 constraining or fixing a value at a mask or list index did not write the value into the parameter
P08 b804dc5 fixed elements became free after linking and unlinking (mask of the fixed elements kept from an earlier structure) (also P09, P20)
P09 00fa828 the free parameters of a non-flat parameter were mapped wrongly (index of the flat elements used as row index)
P09 ed4f425 the free parameters read again after constraints changed were those of before
P11 acbf798 setting the free parameters where only fixed elements remained told nobody, and other changes of fixed elements were skipped
P07 c8be51d constraining an empty selection raised
P07 e3ba9a3 index arrays separated by slices constrained other elements than the ones selected
P25 b4639ec a visitor which raised left marks behind: later traversals skipped objects
P23 3f96e1f assigning an element of a node by an integer index raised
P12 92ce49a in-place matrix multiplication of an observable array told nobody
P13 67fb1e8 a cached result was not recomputed after a change through a view of the argument
P13 276fc59 calls with the same values for different keyword arguments shared a cached result
P11 af2a295 switching updates on at an inner object refreshed only that object
P28 7596fe1 scaled conjugate gradients divided by zero at a stationary start (also P17)
P14 ee74296 the decorator for caching ignored its force_kwargs
P12 20e136c removing an observer removed others which compare equal, or raised for arrays
P09 ce8dc8b the unfixed parameter array of a parameter without a parent raised, of a never accessed node it was empty
P05 ba69ecd linking at an index beyond the end gave a wrong position to the parameter
P05 fbf386b values were lost when linking more than two levels below the root
P10 715c607 the summary of the gradient check reported wrong gradients as right when values of the objective are large
P10 96ce004 transforming gradients changed the gradients of the model when a start was given (also P17)
P20 3dc6860 parameters linked to an inner node were no attributes of it (also P11, P27)
P17 62c3d09 the simplex optimizer reported nan as objective when no evaluation was allowed
P17 e7d79e6 recorded runs changed when the model changed later (also P18)
P18 df57c66 restarts could end at a run whose objective is nan
P18 bc831a4 restarts of a model without free parameters raised
P18 9080bc9 status codes of newer scipy versions raised an IndexError or KeyError after the optimization (also P17)
P19 fc7866b failures raised while the gradients are computed were not tolerated where objective and gradients are evaluated separately
P22 9707af2 reading a selection with a negative step or a list of indices gave the elements in ascending order, each once
P27 e43c9bd renaming a parameter half initialized a model built without initialization: it no longer refused assignment
P27 2471740 constraining an object before it is initialized (also in its constructor) left its values outside of the domain
P27 b7675ad constraints below an object which is not initialized were seen (and set) at wrong offsets after linking
P29 03b28ad wrapping an observable array as observable array again removed its observers, so other models on the same data returned stale cached predictions (also P26)
P29 72dafce a parameter made from an observable array was no parameter, one made from a parameter was that parameter itself, renamed and with its constraints removed
P17 7c3357a simplex with no evaluations allowed and more than 16 free parameters ended at a point it had not evaluated
P30 d013cd8 progress messages stayed an observer of a model whose first objective raised, so that every later change raised
P30 7ad2d10 with progress messages a tolerated numerical failure broke the run, the model was not refreshed any more (also P19)
P30 23c6572 progress messages drew random numbers from the global generator, which changed the results of seeded restarts
P05 195b7a3 after unlinking the only child the next linked one of the same size shared its memory with it (found by P24)
P31 bdabe52 a gradient check which raised left the model at one of the points of the comparison (also P10)
P31 9e7902a constraining elements selected by a mask or a list updated the model before the constraint was there, a failing update left only the new values (also P11)
P03 86b5332 after refused bounds (while the exception was kept) every bounded constraint raised, a constraint derived from the bounded one was the bounded one
P07 3a90635 is_fixed of some elements of a parameter compared the number of fixed elements of the whole one
P13 5490379 the cacher of a bound method of a copied object computed with the original, and took its place in the original's cache, which could not be switched off or reset any more (also P14)
P04 afc62b8 removing indices named twice reported indices which had not been there (also P32: untagging, unconstraining p[[0, 0]])
P10 e1f6d69 a verbose gradient check raised ZeroDivisionError where the objective is exactly zero on one side (a hinge)
P17 3474d46 the climin optimizers reported neither objective nor evaluations (restarts with them and printing their runs raised TypeError) and changed the given start in place (also P18)
P11 865e767 a part of a parameter kept while updates were switched did not follow: changes through it were not told once updates were on again, or told while they were off
P11 014127c an object unlinked while updates were off and linked again when they were on changed without telling anyone; one linked while they were off told of its changes
P13 b8da746 an observer which was registered before a result was kept (or with a positive priority) got a stale result when it asked for it on being told of the change
P22 430b2a5 constraining or fixing some elements of a selection of several parameters raised or applied to whole parameters, and printing them gave wrong indices (also P24, P10)
P20 70e3122 parameter_names(intermediate=True) named the leaves among the children twice and left out inner objects below them
P31 65b8c75 renaming an object to (or linking one with) a name which cannot be printed was refused, but the object had the name or was linked, and everything which prints names raised from then on
P31 3b875b7 linking an object below itself (or below what it contains) never ended
P30 49d4ae4 in a notebook, progress messages turned a failing evaluation which is tolerated (or an error of the run) into an AttributeError of their own, and a converged run was shown as failed
P01 f71077a the forward map of the bounded constraint refused plain numbers, which all other constraints map
P17 760691d Adam ignored the decay it was given
P25 4b9d3f9 traversing a part of a parameter raised an AttributeError about a private attribute
P33 a62b1c7 an error while saving became a TypeError (a string was raised) and left the file open; parameters with alike names could not be saved; an unknown file type was silently not saved
P01 16543b8 plotting a constraint raised an AttributeError (and could not draw into given axes)
P12 cd6abaf an observer registered with a method of its own was kept alive by the registration, so that models (through their caches) stayed alive as long as the data they were computed from (also P34)
P17 8cb1cd4 the limit of evaluations an optimizer was given (max_f_eval) was ignored'''
out = []
for l in fixed.splitlines():
    p, c, what = l.split(' ', 2)
    out.append(dict(property=p, status='fixed', commit=c, what=what, line='fixed: property=%s %s %s' % (p, c, what)))
out.append(dict(property='P16', status='known', what='an object with a parent (an inner node or a linked parameter) which is pickled by itself cannot be loaded: the state includes the parent, whose children are restored after it is connected',
                match='cannot be loaded from its pickle',
                case={'tree': ['n', [['n', [['p', [3], 1, None], ['p', [2], 2, None]], 0]], 0], 'model': False, 'setup': [], 'ops': [], 'inner': True}))
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'known_findings.json'), 'w') as f:
    json.dump(dict(findings=out), f, indent=1)
