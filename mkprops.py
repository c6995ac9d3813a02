#!/usr/bin/env python3
"""Writes properties.jsonl (the source of truth for the property texts is this file)."""
import json
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                     observe_at=list(observe), hook_needed=None)))

CH, OPS, RE, LA, OPT, OPI = ('chumpy/ch.py', 'chumpy/ch_ops.py', 'chumpy/reordering.py', 'chumpy/linalg.py',
                             'chumpy/optimization.py', 'chumpy/optimization_internal.py')

prop('C01', 'A value that is read is never stale',
 "Whatever sequence of reads, input assignments (whole-array, multi-term set, item assignment, assignment through a view), operand re-bindings, "
 "parameter changes (axis, indices, new shape...), input shape changes, and creation or garbage collection of other expressions has happened, "
 "reading the value of any expression gives exactly what evaluating that expression from scratch on its current inputs gives.",
 ['histories'], 'all operation histories over all expression graphs',
 'The tests exercise one or two fixed assign-then-read sequences on a scalar graph; staleness depends on which intermediate results were read before which assignment, '
 'on sharing, and on how many parents are alive at that moment.',
 [CH, RE, OPS, LA],
 [('invalidation walk over parents on every term assignment', 'ch.py: Ch.__setattr__, Ch.clear_cache'),
  ('parent links maintained on (re)binding', 'ch.py: Ch.__setattr__'),
  ('per-class lazily built helpers invalidated by on_changed', 'reordering.py: Select.on_changed; Concatenate')],
 [('_cache["r"]', 'memoised value of the node', 'ch.py'), ('_parents', 'weak links to the nodes that use this node', 'ch.py'),
  ('_dirty_vars', 'terms changed since the last evaluation', 'ch.py')],
 ['.r of every node'])

prop('C02', 'A Jacobian that is read is never stale',
 "After any history of reads, input assignments, operand re-bindings, parameter changes, input shape changes, and creation or garbage collection of other expressions, "
 "asking any expression for its derivative with respect to any of its inputs gives exactly what the same, freshly built expression would give at the current inputs, "
 "independent of which derivatives were asked for before and of how many other expressions share its sub-expressions.",
 ['histories'], 'all operation histories over all expression graphs',
 'Derivatives are memoised in several independent places, conditionally on the number of live parents; tests never combine derivative reads with later assignments on shared graphs.',
 [CH, RE, OPS],
 [('derivative memo cleared by the invalidation walk', 'ch.py: Ch.clear_cache'),
  ('memo only filled when the number of parents is not one', 'ch.py: Ch.dr_wrt'),
  ('shape- and parameter-keyed Jacobian memos', 'ch_ops.py: sum/mean dr_cache; reordering.py: dr_lookup, dr_cached, _dr_cached')],
 [('_cache["drs"]', 'memoised Jacobians per input', 'ch.py')],
 ['.dr_wrt(input)'])

prop('C03', 'Jacobians obey the chain rule on every expression graph',
 "For every expression built from the library's operations, including ones in which a sub-expression is used several times, even as several operands of one operation, "
 "the derivative with respect to any input (or any intermediate expression taken as the variable) is the exact Jacobian: the sum over all paths, with shape (number of outputs, number of inputs). "
 "Only an input that the expression does not depend on may yield no derivative.",
 ['programs', 'inputs'], 'all acyclic graphs of operations',
 'The tests differentiate a handful of hand-written trees, almost none with a shared sub-expression; the number of graph shapes is unbounded.',
 [CH, OPS],
 [('sum over direct and indirect contributions', 'ch.py: Ch.dr_wrt'), ('local Jacobian product', 'ch.py: Ch.compute_rop, Ch._superdot')],
 observe=['.dr_wrt(input)'])

prop('C04', 'Forward, reverse and vector-Jacobian results agree',
 "On every expression graph and for every left-hand matrix L, the reverse-accumulation product of L with the derivative equals L times the forward-mode Jacobian, "
 "reverse-mode Jacobians equal forward-mode ones, and neither the order in which the modes are used nor earlier results change any of them.",
 ['programs', 'histories'], 'all acyclic graphs of operations, all left-hand sides, all orders of mode use',
 'Only one optimisation test reaches the reverse path, on one scalar objective without shared sub-expressions.',
 [CH],
 [('reverse accumulation', 'ch.py: Ch.lop, Ch.compute_lop, Ch.lmult_wrt, Ch.dr_wrt(reverse_mode=True)')],
 observe=['.lop(input, L)', '.dr_wrt(input, reverse_mode=True)'])

prop('C05', 'Elementwise and broadcasting operations match NumPy, with exact derivatives',
 "For every elementwise operation (the arithmetic operators in either operand order, power, exponential, logarithm, trigonometric functions, absolute value, square, square root, reciprocal, clip, "
 "maximum/minimum, nan-safe division, nan_to_num, gamma) and every combination of broadcast-compatible operand shapes, the value has NumPy's value and shape (scalars as one-element vectors) and the "
 "Jacobian with respect to each operand is the exact derivative wherever the function is differentiable. This includes both operands being one object and operands that take on new values or shapes later.",
 ['inputs', 'configurations'], 'all operand values, all pairs of broadcast-compatible shapes',
 'Tests check the unary functions at the single point 0.25 and binary ones on a few shapes, mostly without derivatives.',
 [OPS, 'chumpy/extras.py', CH],
 [('diagonal local Jacobian', 'ch_ops.py: UnaryElemwise.compute_dr_wrt'), ('broadcast placement of local Jacobian entries', 'ch_ops.py: _broadcast_matrix, _broadcast_setup'),
  ('operator overloads', 'ch.py: Ch.__add__ ... __rpow__')],
 [('_bs_setup_data1/2', 'process-wide memo of broadcast sparsity patterns keyed by shapes', 'ch_ops.py')],
 ['.r', '.dr_wrt'])

prop('C06', 'Reductions and scans match NumPy, with exact derivatives',
 "For every reduction and scan (sum, mean, variance, standard deviation, max/min and their nan variants, cumulative sum, sum of squares, norm, moment), every input shape and every axis argument (none, "
 "positive, negative), the value and shape are NumPy's and the Jacobian is the exact derivative where it exists, also after the input changes value or shape or the axis is changed on the existing object. "
 "(Derivatives of a cumulative sum along an axis are refused with an error, never wrong.)",
 ['inputs', 'configurations', 'histories'], 'all input shapes, axes and values; all sequences of changes to them',
 'Tests fix axis=2 of one 4-D array for sum/mean and never compare var/std values with NumPy.',
 [OPS, 'chumpy/extras.py', LA],
 [('axis-reduction Jacobian memo keyed by shape and axis', 'ch_ops.py: sum.compute_dr_wrt, mean.compute_dr_wrt'), ('stride arithmetic for extrema', 'ch_ops.py: A_extremum')],
 observe=['.r', '.dr_wrt'])

prop('C07', 'Indexing, reordering and stacking match NumPy, with exact derivatives',
 "For every index expression NumPy accepts on an array, and every reshaping, transposing, rolling, rotating, tiling, repeating, sorting, diagonal, stacking and concatenating operation with every valid argument, "
 "the value and shape are NumPy's, and the Jacobian has a one exactly where an output element is a copy of an input element and zeros elsewhere. "
 "This also holds after the inputs change value or shape or an argument of the existing object is changed.",
 ['inputs', 'configurations', 'histories'], 'all index expressions and arguments on all shapes; all sequences of changes',
 'Most of these operations have no test at all, and the tested ones are checked on one shape.',
 [RE, CH],
 [('index arrays pushed through the NumPy routine', 'reordering.py: Reorder.compute_dr_wrt, ch.py: Ch.__getitem__'), ('Jacobian memos', 'reordering.py: dr_lookup, _dr_cached, dr_cached, _everything')],
 observe=['.r', '.dr_wrt'])

prop('C08', 'Linear-algebra operations match NumPy, with exact derivatives',
 "For matrix/vector products (dot, tensordot, cross product of stacked 3-vectors, constant-matrix product), inverse (also of stacked matrices), determinant, slogdet, pseudo-inverse, least squares and thin SVD, "
 "on every well-conditioned input of every supported shape (square, tall, wide, vectors), the value is NumPy's and the Jacobian is the exact derivative, including when both operands are one object and after the input changes value or shape.",
 ['inputs', 'configurations', 'histories'], 'all supported shapes and well-conditioned values',
 'Derivatives are tested on one matrix each (pseudo-inverse and least squares not at all), wide matrices never.',
 [LA, OPS, 'chumpy/np_tensordot.py', CH],
 [('Kronecker-product Jacobians', 'ch_ops.py: dot.compute_d1/compute_d2, linalg.py: Inv'), ('shared decomposition memo', 'linalg.py: SvdD.UDV via depends_on')],
 observe=['.r', '.dr_wrt'])

prop('C09', 'Writes and derivatives through views touch exactly the selected elements',
 "Assigning to an index expression of an array, directly or through any chain of reshapes, transposes and selections of it, changes exactly the selected elements of the underlying array to the given values, leaves every other element, "
 "every other array object and every array handed in by the caller unchanged, and every dependent expression sees the change. "
 "The derivative of an expression with respect to such a duplicate-free view equals the corresponding columns of its derivative with respect to the underlying array.",
 ['inputs', 'histories'], 'all index expressions, all view chains, all write histories',
 'Tests do two such assignments and check one element each; derivatives are checked for one-level slices of vectors only.',
 [CH, RE],
 [('write-back through the transposed selection Jacobian', 'ch.py: Ch.__setitem__'), ('columns through the selection Jacobian', 'ch.py: Ch._compute_dr_wrt_sliced')],
 observe=['.r', '.x', '.dr_wrt(view)'])

prop('C10', 'Copies and pickles are faithful and independent',
 "Copying an expression, or pickling and unpickling it (several times, together with its inputs, whatever was read before), yields an expression with the same value, the same derivatives and the same sharing between its sub-expressions. "
 "The copy stays live (changing its inputs updates it), changes to either side never show on the other, and the original behaves as if it had never been copied.",
 ['programs', 'histories'], 'all graphs, all histories of reads, writes and copies',
 'One test pickles one two-leaf sum without shared sub-expressions.',
 [CH, RE],
 [('state capture without weak tables, re-linking on load', 'ch.py: Ch.__getstate__/__setstate__, ChLambda.__getstate__, reordering.py: Concatenate.__getstate__')],
 observe=['.r', '.dr_wrt'])

prop('C11', 'Graph rewriting preserves meaning',
 "Replacing an input of an expression by another makes it, in value and in every derivative, the expression built with the new input in the first place. "
 "Removing redundancy merges only sub-expressions that are equal for all future inputs: it changes no value and no derivative, neither immediately nor after any later change of inputs.",
 ['programs', 'histories'], 'all graphs, all histories of replacements, redundancy removals, reads and writes',
 'Tests replace one scalar once and check that one duplicate is merged, never what happens to values or derivatives afterwards.',
 [CH],
 [('recursive replacement', 'ch.py: Ch.replace'), ('structural identity and merging', 'ch.py: Ch.sid, Ch.remove_redundancy')],
 observe=['.r', '.dr_wrt'])

prop('C12', 'User-defined operations are recomputed exactly when their terms change',
 "For every user-defined operation and every history of changes and reads, the change notification is delivered before the next evaluation with exactly the names of the terms that changed (directly or through their own inputs) since the last one, "
 "a derived attribute declared as depending on certain terms is recomputed on its next read exactly when one of those changed, and the value computation runs at most once between changes.",
 ['histories'], 'all histories of term changes, deep input changes and reads',
 'One test with one fixed history.',
 [CH],
 [('dirty-term tracking', 'ch.py: Ch.__setattr__, Ch.clear_cache, Ch._call_on_changed'), ('dependency-keyed memo', 'ch.py: depends_on, Ch._invalidate_cacheprop_names')],
 observe=['on_changed calls', 'compute_r calls', 'depends_on property reads'])

prop('C13', 'Function-defined expressions equal the function applied to the bound inputs',
 "An expression defined by a function of named inputs (or a grouped expression with exposed inputs) equals, in value and in the derivative with respect to every bound input and every input below it, the function applied directly to the inputs currently bound, "
 "for every sequence of bindings, re-bindings (also of the same input to several names) and input changes, and whatever other function-defined expressions exist.",
 ['programs', 'histories'], 'all small functions, all binding histories',
 'Two tests with a sum and the identity; derivatives only checked to exist.',
 [CH, LA],
 [('argument handles updated on change', 'ch.py: ChLambda.on_changed, ChHandle, ChGroup')],
 observe=['.r', '.dr_wrt'])

prop('C14', 'The dogleg minimizer accepts only improvements and returns the best point',
 "For every objective (list, dict or single expression), set of free variables (arrays, scalars, selections, nested selections) and option set, the sum of squared residuals at successive step callbacks strictly decreases, "
 "the free variables at return are exactly the last accepted point, everything else (non-free inputs, unselected elements) is untouched, the Jacobian used at each accepted point is the true one there, no step leaves the trust region, and the iteration and evaluation limits hold.",
 ['inputs', 'histories', 'configurations'], 'all sequences of objective answers (improving, equal, worsening, non-finite), all option sets',
 'Three tests follow the accept/reject path of three smooth problems and check the final point.',
 [OPI, OPT],
 [('trial acceptance and roll-back', 'optimization_internal.py: minimize_dogleg, DoglegState.Trial'), ('trust-region step', 'optimization_internal.py: DoglegState.update_step, updateRadius'),
  ('flat vector to free variables', 'optimization_internal.py: ChInputsStacked.on_changed')],
 observe=['free variables', 'callback', 'objective evaluations'])

prop('C15', 'SciPy-backed minimization hands SciPy the true objective and gradient',
 "For every supported method name, objective form (scalar, vector, list, dict) and set of free variables, each objective value, gradient, (Gauss-Newton) Hessian and Hessian product given to the solver is that of the sum of squares (or of the scalar objective) at exactly the point the solver asked about, "
 "in whatever order the solver asks. On return the free variables hold the solver's answer, with nothing else changed, and bounds, constraints and callback are passed on.",
 ['histories', 'configurations'], 'all query sequences of the solver, all methods',
 'One method on one objective is run end to end; intermediate answers are never checked.',
 [OPT, OPI, CH],
 [('memo by last query point', 'optimization.py: scalar_jacfunc, ns_jacfunc, hessp, hess'), ('flat vector to free variables', 'optimization.py: changevars')],
 observe=['callbacks handed to scipy.optimize.minimize', 'free variables'])

prop('C16', 'A failed evaluation leaves no wrong state behind',
 "If any single computation inside an evaluation raises (a value, a derivative, a change notification, a validity check, a singular matrix), the error reaches the caller, and afterwards, once the cause is gone, every value and derivative of the graph, "
 "read in any order with or without further input changes, is the correct current one.",
 ['fault_sequences', 'histories'], 'every point of failure in every evaluation of a history',
 'No test makes an evaluation fail.',
 [CH, RE, LA],
 [('memo written only after a successful computation, change flags cleared only after notification', 'ch.py: Ch.r, Ch._call_on_changed, Ch.dr_wrt, depends_on')],
 observe=['.r', '.dr_wrt'])

prop('C17', 'Independent expressions never influence each other',
 "The value and derivatives of an expression depend only on that expression: no order of building, evaluating and differentiating other expressions in the process, with equal or different shapes, classes (also of the same name) or operand values, changes them, "
 "evaluating never modifies its inputs or the arrays they were made from, and returned values cannot be used to modify an expression.",
 ['histories'], 'all orders of evaluations of independent expressions in one process',
 'Tests run in one fixed order and never compare an evaluation with the same evaluation in another order.',
 [OPS, CH, RE],
 [('process-wide memos keyed by shapes', 'ch_ops.py: _broadcast_matrix'), ('class-level term tables', 'ch.py: Ch.setup_terms, Ch.parm_declarations'), ('read-only result views', 'ch.py: Ch.r')],
 observe=['.r', '.dr_wrt'])

prop('C18', 'Dependency queries and traversals report the true graph',
 "On every expression graph, the dependency query answers yes exactly for the inputs and sub-expressions an expression is built from, and traversal of the graph yields the expression and each of its differentiable sub-expressions exactly once, "
 "also after operands have been re-bound; applying a function over the tree reaches every one of them.",
 ['programs', 'histories'], 'all acyclic graphs, all re-bindings',
 'Neither query nor traversal has a test.',
 [CH, 'chumpy/utils.py'],
 [('reachability', 'ch.py: Ch.is_dr_wrt'), ('traversal', 'ch.py: Ch.tree_iterator, Ch.loop_children_do; utils.py: dfs_do_func_on_graph')],
 observe=['is_dr_wrt', 'tree_iterator', 'dfs_do_func_on_graph'])

prop('C19', 'Non-differentiable NumPy functions give NumPy results and no derivative',
 "Comparisons, logical tests (all, any, isnan, isfinite...), rounding and sign functions, index-returning functions (argmax, nonzero, ...), array-creation routines, random-number wrappers and array attributes "
 "(shape, size, ndim, dtype, length, conversion to array, float or int) return for every input what NumPy returns on the same data, follow later input changes, and contribute no (or a zero) derivative.",
 ['inputs', 'histories'], 'all inputs and shapes',
 'These functions have almost no tests.',
 [OPS, 'chumpy/logic.py', 'chumpy/ch_random.py', CH],
 [('generated wrappers', 'ch_ops.py, logic.py, ch_random.py'), ('array protocol', 'ch.py: __array__, shape, size, __len__, __float__, __int__')],
 observe=['.r', 'return values'])

prop('C20', 'Output representation and diagnostics never change numbers',
 "Whether Jacobians come out sparse or dense, because of their sparsity, of a dense or sparse request on any expression in the graph, of the dense option of the minimizer, or of the size of the problem, and whether verbose or debug mode is on, "
 "the numbers and shapes of every value and derivative are the same.",
 ['configurations', 'programs'], 'all assignments of representation requests to the nodes of a graph, all sizes around the switching threshold',
 'No test requests a representation; automatic switching is never compared with the dense result.',
 [CH, OPI, 'chumpy/utils.py'],
 [('automatic and requested conversion', 'ch.py: Ch.dr_wrt'), ('mixed products', 'ch.py: Ch._superdot'), ('dense objective', 'optimization_internal.py: ChInputsStacked')],
 observe=['.dr_wrt', '.J'])

if __name__ == '__main__':
    with open('properties.jsonl', 'w') as f:
        for p in P:
            f.write(json.dumps(p) + '\n')
    print(len(P))
