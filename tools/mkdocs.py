"""Writes properties.jsonl and MANIFEST.json (run by hand; the results are committed)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(pid, title, statement, over, text, why, files, mech, note=None, technique=None, claim=True):
    P.append(dict(id=pid, title=title, statement=statement, quantifier={'over': over, 'text': text}, why_tests_cant=why,
                  anchors={'files': files, 'mechanism': [{'name': a, 'where': b} for a, b in mech]}, note=note, technique=technique, claim=claim))


H = ['histories', 'programs', 'inputs']
I = ['inputs', 'programs']
prop('C01', 'A read always returns the value of the expression for the current inputs',
     'At any point of any history, reading the value of an expression gives exactly what a fresh evaluation of its current operands and parameters gives. '
     'This holds whatever was read, differentiated or assigned before, and in whatever order: replacing a variable, assigning into part of it or through a view of it, '
     'pointing an operand elsewhere, changing a parameter, or several of these in one call, including to values that change shape.',
     H, 'every expression graph with sharing, every interleaving of reads, derivative requests and changes of variables, operands and parameters',
     'The tests read a few fixed expressions after one or two changes; staleness needs a particular interleaving of reads (which fill caches) and changes along particular paths.',
     ['chumpy/ch.py', 'chumpy/reordering.py'],
     [('value cache and its invalidation', 'Ch.r, Ch.clear_cache, Ch.__setattr__, Ch.set'), ('change callbacks', 'Ch._call_on_changed'), ('view assignment', 'Ch.__setitem__')])
prop('C02', 'A derivative request always reflects the current inputs and structure',
     'At any point of any history, the derivative of an expression with respect to a variable or another expression in it is that of the expression as it stands now. '
     'Derivatives computed earlier, of it or of anything sharing operands with it, never leak into the answer after a variable, operand or parameter changed.',
     H, 'every expression graph with sharing, every interleaving of derivative requests in any mode, reads and changes',
     'Derivative caches are filled depending on how many users a node has; tests ask for derivatives of freshly built expressions.',
     ['chumpy/ch.py', 'chumpy/reordering.py'],
     [('derivative cache', "Ch.dr_wrt, Ch._cache['drs'], Ch.clear_cache"), ('per-node derivative caches', 'Select._dr_cached, Concatenate.dr_cached, Reorder')])
prop('C03', 'Derivatives of any composition follow the chain rule over all paths',
     'The derivative of an expression with respect to any variable, or any sub-expression in it, equals the sum over all paths of the products of the local derivatives, '
     'however operands are shared, reused several times in one operation, or reached at different depths. '
     'A derivative is reported as absent only when the expression does not depend on the variable or when it is zero.',
     ['programs', 'inputs'], 'every directed acyclic expression graph over the operations, every differentiation target in it',
     'Tests differentiate a handful of fixed graphs with little sharing.',
     ['chumpy/ch.py'], [('accumulation over terms', 'Ch.dr_wrt, Ch._superdot, _distinct, _sum_drs'), ('caching depending on the number of users', 'Ch._parents')])
prop('C04', 'Forward, reverse and vector-Jacobian derivatives agree',
     'Asking for the same derivative in forward mode, in reverse mode, or as a left product with a given matrix gives the same mathematical result, '
     'including when there is no dependence. The result has one row per element of the expression and one column per element of the variable, independent of dense or sparse representation.',
     H, 'every expression graph, every left factor, every order of requests in the different modes',
     'Tests use reverse mode and left products on one or two expressions only.',
     ['chumpy/ch.py'], [('reverse mode', 'Ch.lmult_wrt, Ch.dr_wrt(reverse_mode)'), ('left products', 'Ch.lop, Ch.compute_lop')])
prop('C05', 'Values and shapes of arithmetic and elementwise functions are those of NumPy',
     'Arithmetic operators and functions, elementwise functions, broadcasting, comparisons of operand kinds (variables, plain arrays, plain numbers, on either side) and array creation functions '
     'give values and shapes equal to those NumPy gives for the same operands, except that a result without axes has shape (1,) instead of ().',
     I, 'every operand shape combination that broadcasts, every operand kind and side, all values in the domain',
     'Tests try a few shapes per operation; shape-dependent branches (single elements, row vectors, higher dimensions) are not all reached.',
     ['chumpy/ch_ops.py', 'chumpy/ch.py'], [('operator overloads', 'Ch.__add__ ... Ch.__rpow__'), ('elementwise nodes', 'ch_ops.py'), ('creation', 'ch_ops.py: _make_tensordot and array creation list')])
prop('C06', 'Elementwise and arithmetic derivatives are exact for every shape combination',
     'For every arithmetic or elementwise operation, including clipping, maximum/minimum, powers, division that maps undefined results to zero and their broadcast forms, the derivative with respect to each operand is the exact Jacobian, '
     'for every pair of operand shapes that broadcast and also when both operands are the same object.',
     I, 'every operation, operand shape combination up to three dimensions, operand kind, and point where the operation is differentiable',
     'Jacobians are built in shape-dependent ways (diagonals, tilings, sparse index arithmetic); tests sample few shapes.',
     ['chumpy/ch_ops.py'], [('broadcast Jacobians', '_broadcast_setup, _broadcast_matrix, _broadcast_add, _broadcast_shape'), ('unary Jacobians', 'ch_ops.py: simple_unary')])
prop('C07', 'Reductions, extrema and cumulative sums have correct values and derivatives',
     'Sum, mean, minimum and maximum (also the variants ignoring not-a-number), sums of squares, norms, moments and cumulative sums, over any single axis or over all elements where they take one, positive or negative axis numbers included, '
     'have the values and shapes NumPy gives and exact derivatives; extrema propagate derivatives only to the elements attaining them.',
     I, 'every array shape, axis and value pattern without ties for extrema',
     'Axis handling is index arithmetic; tests cover a couple of axes on one shape.',
     ['chumpy/ch_ops.py', 'chumpy/extras.py'], [('axis reductions', 'sum, mean, SumOfSquares, cumsum'), ('extrema', 'amax, amin, nanmax, nanmin, max/min methods'), ('moments', 'extras.moment')])
prop('C08', 'Rearranging and stacking operations move every element and derivative correctly',
     'Transposing, swapping, rolling, rotating, flipping, reshaping, repeating, tiling, sorting, taking or building diagonals, adding or removing unit axes, and concatenating or stacking '
     'produce the array NumPy produces, and their derivatives map each source element to each place it went to.',
     I, 'every shape, axis, shift, repeat count and number of stacked pieces',
     'Tests exercise each operation on one or two shapes; index maps are computed generically and cached between instances.',
     ['chumpy/reordering.py'], [('index maps shared between instances', 'Reorder.dr_lookup, unique_reorder_id'), ('stacking', 'Concatenate, hstack, vstack, dstack'), ('AtleastNd', 'AtleastNd')])
prop('C09', 'Indexing is NumPy indexing, and views write through to the variable',
     'Indexing an expression with integers, slices, index lists, masks, ellipsis or new axes gives the elements NumPy gives. '
     'Assigning to part of a variable, directly or through any chain of views of it (slices, transposes, reshapes, rotations, rolls and the like), changes exactly the addressed elements and nothing else, and every expression over the variable sees it. '
     'Assigning to an expression that is computed rather than a view is refused and changes nothing.',
     H, 'every index expression, chain of views, assigned shape that broadcasts, and history of assignments and reads',
     'Tests assign through one or two kinds of view; the inverse mapping is composed along chains.',
     ['chumpy/ch.py', 'chumpy/reordering.py'], [('indexing', 'Ch.__getitem__, Select'), ('write-through', 'Ch.__setitem__')])
prop('C10', 'Differentiating with respect to a view gives the columns of the viewed elements',
     'The derivative of an expression with respect to a view of a variable (a slice, a transpose, a reshape, a chain of those) is the derivative with respect to the variable, restricted to and ordered by the viewed elements, '
     'also when the expression uses the variable rather than the view, in every differentiation mode and after the view or the variable changed.',
     H, 'every chain of injective views, every expression over the variable, every mode',
     'Tests differentiate with respect to plain slices of one vector.',
     ['chumpy/ch.py', 'chumpy/reordering.py'], [('slicing in differentiation', 'Ch._compute_dr_wrt_sliced, Ch.lmult_wrt'), ('views', 'Permute, Select, Reorder, Reshape')])
prop('C11', 'Linear algebra results and derivatives are exact',
     'Matrix products (including tensor products over chosen axes, inner, outer and cross products), inverse, pseudo-inverse, determinant and log-determinant, solving square and over-determined systems, norms and singular values '
     'satisfy their defining equations, match NumPy in shape, and have exact derivatives with respect to every operand.',
     I, 'every operand rank and shape supported, every well-conditioned operand',
     'Tests compare a few random instances at one shape by finite differences.',
     ['chumpy/linalg.py', 'chumpy/ch_ops.py', 'chumpy/np_tensordot.py'], [('dot and tensordot', 'ch_ops.dot, ch_ops.tensordot, np_tensordot'), ('linalg nodes', 'Inv, Pinv, LogAbsDet, solve/lstsq, norm, Svd')])
prop('C12', 'User-defined nodes are told of changes exactly, and compute at most once',
     'Before a user-defined node computes a value or a derivative, it is told which of its terms changed since it was last told: all that changed, none that did not, directly or below them. '
     'Its value is computed at most once between changes, however often and through however many users it is read.',
     H, 'every graph containing user-defined nodes, every interleaving of changes and reads',
     'Needs histories in which several terms change between reads and nodes are shared; tests do one change at a time.',
     ['chumpy/ch.py'], [('dirty terms', 'Ch._dirty_vars, Ch._call_on_changed'), ('value cache', 'Ch.r')])
prop('C13', 'Memoised properties of user-defined nodes are recomputed exactly when needed',
     'A property of a user-defined node declared to depend on given terms always returns the value for the current terms, and its function runs again only if one of the declared terms, or something below it, changed since it last ran.',
     H, 'every interleaving of property reads, value reads and changes of declared and undeclared terms',
     'Tests read one property once after one change.',
     ['chumpy/ch.py'], [('memo table', 'depends_on, Ch._depends_on_deps, Ch._invalidate_cacheprop_names')])
prop('C14', 'Copies and unpickled expressions are equal at first and independent ever after',
     'Copying an expression, or pickling and unpickling it, yields an expression with the same values, derivatives and sharing structure that remains fully live: changes to its own variables are reflected in it. '
     'Afterwards nothing done to either one shows in the other, and the original is unchanged by being copied.',
     H, 'every expression graph, every moment of copying in a history, every continuation on both sides',
     'Tests pickle one small expression and compare one value.',
     ['chumpy/ch.py', 'chumpy/reordering.py'], [('serialisation', 'Ch.__getstate__, Ch.__setstate__, Ch.copy')])
prop('C15', 'Replacing or re-pointing operands anywhere in a graph takes full effect',
     'Replacing one sub-expression by another throughout an expression, or pointing a single operand elsewhere, makes values and derivatives those of the expression with the substitution made; '
     'other expressions sharing parts see the change exactly where they share the changed node. Later changes below the removed operand no longer matter, and changes below the new one do.',
     H, 'every graph, pair of sub-expressions and operand position, followed by every history',
     'Tests replace once in one graph.',
     ['chumpy/ch.py'], [('substitution', 'Ch.replace'), ('user links', 'Ch.__setattr__, Ch._parents')])
prop('C16', 'Removing redundancy never changes meaning',
     'Removing duplicate sub-expressions leaves every value and derivative unchanged, merges only nodes that compute the same thing from the same operands and parameters, and never merges variables, so that later changes of any variable act as before.',
     H, 'every graph with duplicated sub-expressions, every later history',
     'The tests check one graph once and do not change variables afterwards.',
     ['chumpy/ch.py'], [('merging', 'Ch.remove_redundancy')])
prop('C17', 'Function-style expressions behave like their bodies with arguments plugged in',
     'An expression built from a function of named arguments, or grouping an expression behind named arguments, has the values and derivatives of the body with the current arguments in place. '
     'Re-assigning an argument by attribute, by keyword or by call takes effect as if the body had been written with it.',
     H, 'every body over one to three arguments, every sequence of re-assignments and reads',
     'Tests use one lambda and one re-assignment.',
     ['chumpy/ch.py'], [('lambda expressions', 'ChLambda, ChHandle'), ('groups', 'ChGroup')])
ON = ('Every evaluation, accepted step and return of real minimisations is recorded from outside (a user-defined node on the residuals, the step callback, the variables) and replayed by TLC against Dogleg.tla, '
      'which derives step, trust region, acceptance and stopping from the reference value and Jacobian at the last accepted point; the state machine itself is model-checked on all small landscapes. Bounded: problems of up to 4 free elements, '
      '10 residuals, 10 iterations; tests that the error bounds leave open are not held against the code.')
prop('C18', 'Dogleg never makes things worse and leaves the best accepted point behind',
     'Dogleg minimisation accepts a trial point exactly when it lowers the sum of squared residuals, so successive accepted points, each announced by one callback (after one for the starting point), never get worse, and a trial that is worse or undefined is taken back. '
     'Every residual it uses is that of the variables as they are at that moment; on return the variables hold the last accepted point, the same variable objects are returned, and every expression over them reads accordingly.',
     H, 'every least-squares objective (an expression, list or dictionary of them), set of free variables, starting point and option setting, repeated minimisations included',
     'Tests run well-behaved problems to convergence and look only at the final value; rejected and undefined trials, early stops and repeated runs are not looked at.',
     ['chumpy/optimization_internal.py', 'chumpy/optimization.py'],
     [('acceptance and roll-back', 'minimize_dogleg, DoglegState.Trial'), ('writing the variables', 'ChInputsStacked.on_changed')], note=ON)
prop('C19', 'Dogleg steps stay in the trust region and stop exactly for a stated reason',
     'Every dogleg trial step is the dogleg step of the current linear model: no longer than the trust-region radius, Gauss-Newton if that fits, otherwise the Cauchy direction or the point between them on the boundary; the radius shrinks after a poor or rejected trial and grows after a very good one. '
     'The run ends, and only ends, once a stopping condition holds (small gradient, small step or region, little improvement, iteration or evaluation budget), and never exceeds the budgets by starting another iteration or evaluation.',
     H, 'every least-squares objective, starting point, initial radius, tolerance and budget setting, dense or sparse Jacobians, any linear solver choice',
     'Tests compare final results of two or three problems; the region update, the budgets and the stop tests are only visible along the path.',
     ['chumpy/optimization_internal.py'],
     [('step', 'DoglegState.update_step, beta_multiplier, updateGN'), ('region', 'DoglegState.updateRadius'), ('stopping', 'minimize_dogleg')], note=ON)
prop('C20', 'Other minimisation methods are handed the true objective, gradient and curvature',
     'For every method other than dogleg, the value, gradient and (Gauss-Newton) curvature functions handed to SciPy give the sum of squared residuals (or the objective itself if it is a single number), its exact gradient and 2 J^T J (times a vector) at whatever point they are called with, in any order of calls and also when the array holding the point is re-used. '
     'The start point, method, bounds, tolerance and options are passed on unchanged, and on return the variables hold the point SciPy returned.',
     H, 'every objective, set of free variables and every sequence of calls a minimiser may make',
     'Tests run a few methods on one problem; stale memoised gradients need particular sequences of points.',
     ['chumpy/optimization.py'],
     [('functions handed over', 'minimize: residuals, scalar_jacfunc, ns_jacfunc, hessp, hess, changevars')],
     note='The calls SciPy methods (or a scripted stand-in calling in arbitrary order) make to the functions they are given are recorded and compared by TLC with the reference value, gradient and J^T J products of the specification. Bounded: up to 3 free elements, 10 residuals; a minimiser that mixes hess and hessp calls is not modelled.')
prop('C21', 'Minimisation changes only the designated variables or selected parts of them',
     'Throughout and after a minimisation with any method, only the elements of the free variables change: when a free variable is a selection of another variable (or a selection of a selection), only the selected elements change, with each component of the minimiser going to its own element; every other variable, and every other element, is untouched. '
     'The structure of the graph is untouched, so that it can be changed, evaluated and minimised again afterwards.',
     H, 'every choice of whole variables and disjoint selections (nested ones included) as free variables, every method, repeated minimisations with changes in between',
     'Tests use whole variables, or one selection with one slice.',
     ['chumpy/optimization_internal.py', 'chumpy/optimization.py'],
     [('writing selections', 'ChInputsStacked.on_changed, minimize.changevars'), ('derivatives of selections', 'ChInputsStacked.dr_wrt')], note=ON)
prop('C22', 'Values read from expressions are read-only double-precision arrays',
     'A value read from an expression is a double-precision array with at least one axis and in C order which cannot be written to, whatever the variable was given (numbers, integers, lists, arrays); '
     'attempts to write to it are refused and values read before and after are unaffected.',
     H, 'every expression and kind of input, every attempted write',
     'Tests never attempt to write to results.',
     ['chumpy/ch.py'], [('read-only results', 'Ch.r')])
prop('C23', 'Dependency queries and graph traversal agree with the current structure',
     'Asking whether an expression depends on another node is answered yes exactly when the node is reachable through differentiable operands as they are now. '
     'Traversing an expression visits every node of it exactly once.',
     H, 'every graph with sharing and every history of structural changes',
     'Tests query one static graph.',
     ['chumpy/ch.py', 'chumpy/utils.py'], [('reachability', 'Ch.is_dr_wrt'), ('traversal', 'Ch.tree_iterator')])
prop('C24', 'Comparisons and logical tests give NumPy results and no derivative',
     'Comparison operators and functions and the logical tests give the values and shapes NumPy gives for the current operands, on either side and with plain operands, follow later changes of the operands, and contribute no derivative.',
     H, 'every operand shape combination, operand kind and side, special values (infinities, not-a-number) included',
     'The tests do not compare them after changes or with special values.',
     ['chumpy/logic.py', 'chumpy/ch_ops.py'], [('logic nodes', 'LogicFunc'), ('comparison nodes', 'greater ... not_equal')])
prop('C25', 'Interpolation in an image is exact and follows later changes of the image',
     'Looking up points in a three-dimensional image gives the first-order expansion of the image at the lower corner of the cell of each point, points outside being moved to the border first; '
     'its derivative with respect to the points is the slope of that expansion, zero for coordinates outside the image, and both follow later changes of the points and of the image.',
     H, 'every image of at least two elements per axis, every number of points inside or outside, every sequence of changes of points, operands and image',
     'No test touches it; the slopes of the image are kept by a change hook and must be renewed exactly when the image is replaced.',
     ['chumpy/extras.py'], [('interpolation node', 'Interp3D'), ('slopes of the image', 'Interp3D.on_changed')])

TECH = 'TLA+ specification checked by TLC; recorded histories of the real code replayed as behaviours of the specification'
TECHM = TECH + '; mechanism model (%s) explored exhaustively by TLC and its behaviours replayed in the real code'
MODEL = dict.fromkeys(['C01', 'C02', 'C10', 'C12', 'C13', 'C15'], 'ChCache.tla')
MODEL.update(C18='DoglegMC.tla', C19='DoglegMC.tla')
NOTE = ('Every history driven through the real code is replayed by TLC against the executable TLA+ specification (Chumpy.tla/Ops.tla: values and exact dual-number derivatives in scaled-integer '
        'arithmetic with error bounds); held on all histories explored. Bounded: generated graphs of about 3-14 nodes, arrays of up to about 12-36 elements, histories of 5-40 events. '
        'Trusts TLC, the spec, the recorder, and numpy/scipy below chumpy; answers within the error bound are not distinguished.')


def main():
    import sys
    sys.path.insert(0, V)
    from harness.plan import PLAN
    claimed = [p for p in P if p['id'] in PLAN]
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for p in claimed:
            f.write(json.dumps({k: p[k] for k in ('id', 'title', 'statement', 'quantifier', 'why_tests_cant', 'anchors')}) + '\n')
    m = {'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': [], 'not_applicable': [],
         'hooks': {'guard': 'none', 'enable': 'no hooks in /repo: the checks observe the public API and subclasses of Ch defined in /verif/harness'}}
    for p in claimed:
        m['checks'].append({'property': p['id'], 'quick_cmd': 'bash check.sh %s quick' % p['id'], 'thorough_cmd': 'bash check.sh %s thorough' % p['id'],
                            'evidence_file': 'evidence/%s.json' % p['id'], 'technique': p['technique'] or (TECHM % MODEL[p['id']] if p['id'] in MODEL else TECH), 'level': PLAN[p['id']]['level'],
                            'level_note': p['note'] or NOTE})
    json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
    for p in P:
        assert len(p['title']) <= 80, p['title']
        assert p['statement'].count('. ') <= 2, p['id']


main()
