#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the texts are easy to edit)."""
import json, os
T = 'tensap/tensor_algebra/tensors/'
TL = 'tensap/tensor_algebra/tools/'
FB = 'tensap/approximation/bases/'
P = []


def p(id, title, statement, over, text, cant, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=list(over), text=text), why_tests_cant=cant,
                  anchors=dict(files=list(files),
                               state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mech],
                               observe_at=list(observe), hook_needed=hook)))


p('P01', 'Operations leave operands and caller data untouched, even when cut short',
  'An operation of the tensor formats (full, tree-based, canonical, diagonal, sparse), of dimension trees, '
  'multi-index sets, truncators, grids or functional tensors leaves every operand, every earlier result and every '
  'array or list the caller passed in with exactly the value it had before, apart from the few methods documented to '
  'update their receiver. This also holds when the call raises, when a numerical kernel fails inside it, or when it is '
  'interrupted at an arbitrary point.',
  ['histories', 'crash_points', 'fault_sequences', 'inputs'],
  'all operations, all operands (aliased or shared by several tensors included), all points at which the call can be interrupted, all kernels that can fail',
  'The tests run each operation once and never look at its operands again; an operand changed in place is only seen by a later use of it, and a half-done change only after an interruption.',
  [T + x for x in ('tree_based_tensor.py', 'full_tensor.py', 'canonical_tensor.py', 'diagonal_tensor.py', 'sparse_tensor.py')] +
  [TL + 'dimension_tree.py', TL + 'truncator.py', 'tensap/tools/multi_indices.py', 'tensap/tools/grids.py', 'tensap/functions/functional_tensor.py'],
  [('copies of the core array before editing', T + 'tree_based_tensor.py'), ('copy in the FullTensor constructor', T + 'full_tensor.py')],
  [('tensors', 'the cores of a tree-based tensor, shared between tensors', T + 'tree_based_tensor.py')],
  ['public attributes and dense value of every live object before and after each call'])

p('P02', 'Tree-based tensor arithmetic agrees with dense arrays through any history',
  'Through any sequence of operations on tree-based tensors that share operands (sums, differences, scalings, entrywise and Kronecker products, concatenation, '
  'inner products and norms, contractions with matrices and vectors, evaluations at indices and on diagonals, sub-tensors, squeezing, orthogonalisation at any node, '
  'gramians and singular values, activation and inactivation of leaves, change of root, permutation of nodes and leaves, parameter gradients), every operation that '
  'completes returns what the same operation on dense arrays returns, up to rounding, and its reported shape, ranks, storage and orthogonality are true of it. '
  'Operations that failed, were interrupted, or had a numerical kernel fail in between change nothing about later results.',
  ['histories', 'fault_sequences', 'inputs'],
  'all operation sequences, all trees, ranks, shapes, active-node patterns and root ranks, all failures in between',
  'No test compares a tree-based tensor with its dense value; the tutorials print numbers without asserting them and use one tree each.',
  [T + 'tree_based_tensor.py', T + 'full_tensor.py'],
  [('node-wise contractions along the tree', T + 'tree_based_tensor.py'), ('orthogonality flags', T + 'tree_based_tensor.py')],
  [('is_orth / orth_node / ranks', 'flags that later operations trust', T + 'tree_based_tensor.py')],
  ['numpy() of every result', 'ranks, shape, storage, is_orth, orth_node'])

p('P03', 'Full, canonical, diagonal and sparse tensors agree with dense arrays',
  'Through any sequence of operations on full, canonical, diagonal and sparse tensors and conversions between the formats (sums, products, contractions, transposition, '
  'reshaping, matricisation, concatenation, orthogonalisation, evaluations at indices and on diagonals, norms, inner products, gradients), every operation that completes returns what the '
  'same operation on dense arrays returns, up to rounding. Evaluating the same expression again on the same objects returns the same value, also after operations that failed or were interrupted.',
  ['histories', 'fault_sequences', 'inputs'],
  'all operation sequences over the four formats and their conversions, all orders, shapes and ranks, all failures in between',
  'The tests exercise a few operations of the full format once; they never evaluate twice, never mix formats and never compare with a dense reference.',
  [T + 'full_tensor.py', T + 'canonical_tensor.py', T + 'diagonal_tensor.py', T + 'sparse_tensor.py'],
  [('einsum/tensordot formulations', T + 'full_tensor.py'), ('factor-wise formulations', T + 'canonical_tensor.py')],
  [('space, core', 'factors of a canonical tensor', T + 'canonical_tensor.py')],
  ['numpy()/full() of every result'])

p('P04', 'Concurrent callers sharing objects get the single-threaded results',
  'When several caller threads use the same tensors, dimension trees, truncators, bases, functional tensors or multi-index sets at the same time through operations that are '
  'not documented to modify them, every call returns the result it returns when run alone. This holds for every interleaving of the callers.',
  ['schedules', 'inputs'],
  'all line-level interleavings of two or three callers sharing objects',
  'No test starts a thread; a temporary change of a shared object that is undone before the call returns is invisible to a sequential test.',
  [T + 'tree_based_tensor.py', T + 'canonical_tensor.py', TL + 'truncator.py', TL + 'dimension_tree.py', 'tensap/functions/functional_tensor.py', FB + 'functional_bases.py', 'tensap/tools/multi_indices.py'],
  [('operations work on local copies', T + 'tree_based_tensor.py')],
  [('max_rank', 'truncator setting used as scratch space', TL + 'truncator.py')],
  ['result of every call against the same call run alone'])

p('P05', 'Dimension trees stay valid for every random draw and edit history',
  'Every dimension tree the library builds (trivial, linear, balanced, or random for any sequence of random draws) or derives by any sequence of edits (permuting dimensions, adding a child, '
  'changing the root, extracting a subtree) is a rooted tree whose leaves are in one-to-one correspondence with the dimensions. Its parents, children, child numbers, siblings, levels, ascendants, descendants, '
  'node dimension sets, internal nodes, arity bounds and equality all agree with the tree itself.',
  ['histories', 'inputs'],
  'all random draw sequences of the random generator, all edit histories',
  'The tutorials plot one or two trees; the random generator is used once with one seed and nothing checks its output.',
  [TL + 'dimension_tree.py'],
  [('precomputed attributes derived from the adjacency matrix', TL + 'dimension_tree.py')],
  [('adjacency_matrix, dim2ind', 'the tree', TL + 'dimension_tree.py')],
  ['public attributes and query methods of the tree'])

p('P06', 'A reused truncator always meets its tolerance and rank limits',
  'A truncator applied to any sequence of matrices and tensors (full, tree-based, canonical of order two) returns each time an approximation whose relative error is at most the tolerance unless the '
  'rank limit forbids it, whose ranks respect the limit given globally or per node, and which is quasi-optimal for those ranks. Its settings are the same after the call as before, whatever it truncated earlier and also '
  'when an earlier call failed or was interrupted.',
  ['histories', 'fault_sequences', 'crash_points', 'inputs'],
  'all sequences of truncations with one truncator object, all tolerances and rank limits, failures of the singular value decomposition and interruptions at any point',
  'The tutorial truncates once per object with scalar limits and prints the error; per-node limits, reuse and failures are never tried.',
  [TL + 'truncator.py'],
  [('local tolerances tol/sqrt(#nodes)', TL + 'truncator.py')],
  [('max_rank, tolerance', 'user settings', TL + 'truncator.py')],
  ['error and ranks of every result', 'settings after every call'])

p('P07', 'Random tree optimisation keeps the tensor and never increases storage',
  'For every sequence of random draws, optimising the dimension tree or the leaf permutation of a tree-based tensor returns a tensor equal to the original up to the requested tolerance, with a storage not larger than the original and ranks admissible for its own (valid) tree. '
  'It stops within the number of iterations asked for, leaves the original unchanged, and behaves the same again if an earlier attempt failed or was interrupted.',
  ['inputs', 'histories', 'fault_sequences'],
  'all random draw sequences (extreme ones included), all trees, ranks, active-node patterns, tolerances and iteration counts, failures in between',
  'One tutorial optimises one tensor with one seed and prints the storage; it does not compare the tensors.',
  [T + 'tree_based_tensor.py'],
  [('draws of permutations weighted by cost; accept if storage decreases', T + 'tree_based_tensor.py')],
  [], ['dense value, storage, ranks and tree of the result', 'number of random draws'])

p('P08', 'Black-box tensor approximation is exact on low-rank data and counts honestly',
  'For every random choice of sample fibres, the higher-order PCA, Tucker, tensor-train and tree-based approximations of a black-box tensor or function evaluate it only at valid grid points, reproduce it up to the tolerance when its ranks are within the '
  'sampled size, respect the rank limits, and report exactly the number of evaluations they made. An exception raised by the black box reaches the caller, and a later run with the same solver object gives what a fresh solver gives.',
  ['inputs', 'fault_sequences', 'histories'],
  'all random sample draws, all trees, shapes, ranks and rank limits, failures of the black box at any call',
  'Two tutorials run one function with one seed and print the error; nobody counts the calls, repeats a run, or lets the function fail.',
  ['tensap/approximation/tensor_approximation/tensor_principal_component_analysis.py', 'tensap/approximation/tensor_approximation/functional_tensor_principal_component_analysis.py', 'tensap/linear_algebra/magic_indices.py', 'tensap/approximation/tools/random_multi_indices.py'],
  [('random fibres, empirical interpolation points', 'tensap/approximation/tensor_approximation/tensor_principal_component_analysis.py')],
  [], ['every call of the black box', 'returned tensor, ranks and counts'])

p('P09', 'Stored function evaluations are never stale, lost or misattributed',
  'A function that stores its evaluations returns for every sequence of queries (repeated, overlapping, permuted, with changed caller arrays, with vector outputs) the values that direct evaluation returns, in the same order and shape, and evaluates each distinct stored point only once. '
  'After a query that failed or was interrupted, later queries still return the right values.',
  ['histories', 'fault_sequences', 'crash_points'],
  'all query histories, failures of the user function at any point, interruptions at any point',
  'No test turns storage on; wrong values need at least two overlapping queries, and a broken store needs a failure between them.',
  ['tensap/functions/function.py', 'tensap/functions/user_defined_function.py'],
  [('lookup of stored points by value', 'tensap/functions/function.py')],
  [('_x_stored, _y_stored', 'the store', 'tensap/functions/function.py')],
  ['returned values', 'points passed to the user function'])

p('P10', 'Least-squares learning keeps its answers when numerical kernels fail',
  'Least-squares fitting of a linear model (plain, with basis adaptation, with sparse or ridge regularisation, for one or several outputs) returns a minimiser of the (penalised) residual over the selected basis functions, and the leave-one-out and k-fold errors of the unregularised and of the selected (refitted) models '
  'are those obtained by actually refitting without the held-out data (times the documented correction), with the reported best model minimising the reported error path. When a factorisation, solve or inversion fails and the library falls back to '
  'another kernel, the answer is the same; when it gives up, it raises, and the solver and training data are as before.',
  ['fault_sequences', 'inputs', 'histories'],
  'all failures of the linear-algebra kernels at any call, all fold draws, rank-deficient and under-determined systems, repeated use of one solver object',
  'The fallback branches only run when a kernel fails, which no test provokes; the cross-validation numbers are printed, not compared with refits.',
  ['tensap/approximation/learning/linear_model_learning_square_loss.py', 'tensap/approximation/learning/linear_model_learning.py'],
  [('try/except fallbacks qr+solve -> lstsq, inv -> pinv', 'tensap/approximation/learning/linear_model_learning_square_loss.py')],
  [], ['solution, error, delta and error path', 'training data and settings after solve'])

p('P11', 'Tensor learning returns the model it reports, with its true errors',
  'For every random initialisation, fold and exploration order, alternating minimisation in tree-based and canonical format (fixed rank, rank adaptation, tree adaptation) returns a model whose recomputed test error and leave-one-out error are the reported ones, each stored iterate has the error reported for it, '
  'model selection returns the iterate with the smallest reported error, a fixed-rank sweep does not increase the training residual, and the returned tensor is consistent (cores, ranks, norm) on a valid tree with ranks not above the requested ones. A solver that was used before fits like a new one, and the training data, test data, bases and initial guess given by the user are not modified.',
  ['inputs', 'histories', 'fault_sequences'],
  'all random draws of the learning algorithms, all trees, active-node patterns, ranks and adaptation settings, kernel failures with fallback',
  'The tutorials run one configuration with one seed and print the errors; nothing recomputes them or looks at the stored iterates.',
  ['tensap/approximation/learning/tensor_learning.py', 'tensap/approximation/learning/tree_based_tensor_learning.py', 'tensap/approximation/learning/canonical_tensor_learning.py', 'tensap/approximation/learning/loss_functions.py', 'tensap/functions/functional_tensor.py'],
  [('alternating least squares with orthogonalisation', 'tensap/approximation/learning/tensor_learning.py')],
  [('iterates, error_iterations', 'history of models and errors', 'tensap/approximation/learning/tensor_learning.py')],
  ['returned model, output dictionary, user data'])

p('P12', 'Same seeds give the same results, whatever ran before',
  'With the random generators of numpy and Python seeded, every computation of the library gives bit-for-bit the same result in a fresh process, under another hash seed, and after any other history of library calls, failed ones included. '
  'No operation reseeds the generators, deterministic operations do not consume them, and no call leaves numpy error handling, warning filters or print options changed.',
  ['histories', 'configurations', 'fault_sequences'],
  'all call histories before the computation, all hash seeds, failures in that history',
  'Each tutorial runs in its own process with a fixed hash seed and is never compared with a second run.',
  ['tensap/functions/measures', T + 'tree_based_tensor.py', 'tensap/approximation/learning/tree_based_tensor_learning.py', 'tensap/approximation/learning/linear_model_learning_square_loss.py', 'tensap/approximation/tensor_approximation/tensor_principal_component_analysis.py', 'tensap/tools', 'tensap/functions/polynomials'],
  [('all randomness drawn from the global generators', 'tensap/functions/measures')],
  [('global generator state', 'numpy.random and random', 'process')],
  ['digest of results', 'state of the generators'])

p('P13', 'Random samples are valid for every underlying draw',
  'Samples drawn from any measure or random variable of the library (uniform, normal, discrete, empirical, Lebesgue, discrete measures, products, random vectors, random multi-indices, random grids, Latin hypercube) have the requested number of points and shape, lie in the support, never take '
  'values of probability zero, and are finite, for every sequence of underlying random draws including the extreme ones. Each sample is the quantile of its underlying draw where the law is sampled by inversion, and a Latin hypercube sample has exactly one point in each stratum of each marginal.',
  ['inputs', 'histories'],
  'all underlying draws, extreme ones included; all sample sizes and parameters; all draw histories',
  'The tutorials draw a few samples and plot them; extreme draws practically never occur by chance.',
  ['tensap/functions/measures', 'tensap/approximation/tools/random_multi_indices.py', 'tensap/tools/grids.py'],
  [('inversion of the distribution function, affine maps of uniform draws', 'tensap/functions/measures')],
  [], ['returned samples', 'underlying draws'])

p('P14', 'Multi-index set operations agree with set semantics through any history',
  'Through any sequence of operations on shared multi-index sets (union, removal, intersection, products, shifts, sorting, restriction to indices or dimensions, margins and reduced margins, maximal indices, downward-closedness, envelopes, norms, conversion to and from linear indices, '
  'and the generators of bounded-norm, hyperbolic-cross and low-interaction sets), each result is what the definition gives for ordinary sets of integer tuples, without duplicates or missing members and in the documented order. Comparisons and failed or interrupted operations change nothing.',
  ['histories', 'fault_sequences', 'inputs'],
  'all operation sequences on shared sets, all dimensions and cardinalities (one index and empty results included), failures in between',
  'One test compares a handful of sets; aliasing between sets and single-element special cases are not reached.',
  ['tensap/tools/multi_indices.py', 'tensap/tools/grids.py'],
  [('array of rows with unique/sort operations', 'tensap/tools/multi_indices.py')],
  [('array', 'rows of the set', 'tensap/tools/multi_indices.py')],
  ['rows of every set after every step'])

p('P15', 'Interpolation and projection are exact on the basis span or raise',
  'For every random draw of candidate points, interpolation (at magic points, on tensor product grids) and projection onto a functional basis reproduce functions in the span of the basis up to conditioning, the points lie in the domain and are distinct candidate points, and the reported Lebesgue constant is true. '
  'When the user function raises, or raises once and then recovers, the exception reaches the caller and no coefficient is ever computed from anything but values the function returned.',
  ['inputs', 'fault_sequences'],
  'all random candidate draws, all bases, failures of the user function at any call',
  'The tutorials use one function that never fails and print the error for one seed.',
  [FB + 'functional_basis.py', FB + 'functional_bases.py', FB + 'full_tensor_product_functional_basis.py', FB + 'sparse_tensor_product_functional_basis.py', FB + 'functional_basis_array.py', 'tensap/linear_algebra/magic_indices.py', 'tensap/approximation/learning/loss_functions.py'],
  [('greedy selection of interpolation points', 'tensap/linear_algebra/magic_indices.py')],
  [], ['coefficients, points, every call of the user function'])

p('P16', 'A failed or interrupted fit or approximation can simply be retried',
  'When learning a tensor or linear model, or approximating a black box, fails or is interrupted at an arbitrary point (user function, numerical kernel, allocation, keyboard interrupt), the data, bases, trees, initial guess and test sets supplied by the user are exactly as before. '
  'Running the same call again on the same solver object with the same seeds gives the result an undisturbed run of a fresh solver gives.',
  ['crash_points', 'fault_sequences', 'histories'],
  'all interruption points of a fit, all kernels that can fail, repeated failures before the retry',
  'No test interrupts a fit or calls a solver twice.',
  ['tensap/approximation/learning/tensor_learning.py', 'tensap/approximation/learning/tree_based_tensor_learning.py', 'tensap/approximation/learning/canonical_tensor_learning.py', 'tensap/approximation/learning/linear_model_learning_square_loss.py', 'tensap/approximation/tensor_approximation/tensor_principal_component_analysis.py'],
  [('deep copies of the solver for inner problems', 'tensap/approximation/learning/tensor_learning.py')],
  [('solver attributes', 'settings and work data on the solver object', 'tensap/approximation/learning/tensor_learning.py')],
  ['user objects after the failure', 'result of the retry'])

p('P26', 'Density learning minimises the L2 density risk, whatever was learnt before',
  'Learning a density in an orthonormal basis (LinearModelLearningDensityL2) returns, on the selected set of basis functions, the coefficients minimising the empirical L2 risk (the sample mean of each function, minus the offset when one is given) and zero elsewhere. '
  'The error reported is the leave-one-out risk, that is the mean risk at each sample of the density refitted without it; along a path of models every model is such a minimiser, every error is such a risk, and the model returned is one with the least error; the test error is the L2 risk on the test sample. '
  'Solver, sample, bases and path are left untouched, also when the fit fails or is interrupted at any point, and a solver used before, with success or not, gives the result of a new one.',
  ['histories', 'crash_points', 'fault_sequences', 'inputs'],
  'all samples, offsets, bases or given evaluations, selection paths and included coefficients; all sequences of fits on one solver, with failures and interruptions between them',
  'The only tutorial on densities is too slow for the suite, fits once and prints an error.',
  ['tensap/approximation/learning/linear_model_learning_density_l2.py', 'tensap/approximation/learning/linear_model_learning.py', 'tensap/approximation/learning/loss_functions.py'],
  [('closed-form minimiser for orthonormal bases', 'tensap/approximation/learning/linear_model_learning_density_l2.py'),
   ('leave-one-out selection along a path', 'tensap/approximation/learning/linear_model_learning_density_l2.py')],
  [('solver attributes', 'evaluations of the basis and settings kept on the solver object', 'tensap/approximation/learning/linear_model_learning.py')],
  ['coefficients, errors and paths returned by solve', 'user objects after a failure'])

p('P17', 'Asking an object something changes neither it nor its later answers',
  'Measures, random variables and vectors, polynomial families, bases and their products, basis arrays, functional tensors, functions, tensorizers, grids, quadrature rules and learning data behave as values: no query of one of them or of an object it is made of (evaluation, moments, Gram matrices, quadrature, projection, orthonormalization, marginals, derivatives, sampling, fitting with it) changes anything a user can read of it, of the arguments, or of an earlier answer. '
  'This also holds when the query fails, runs out of memory or is interrupted at any point, and every query answers what it answers on an untouched twin, whatever was asked before.',
  ['histories', 'crash_points', 'fault_sequences', 'inputs'],
  'all objects of these classes, all sequences of queries of them and of their parts, all points at which a query can fail or be cut short',
  'The tests ask each object one thing, once; state left behind by a query (a cache, a shared part changed in place, a flag) is only seen by the next one.',
  [FB + x for x in ('functional_basis.py', 'functional_bases.py', 'polynomial_functional_basis.py', 'sub_functional_basis.py', 'full_tensor_product_functional_basis.py', 'sparse_tensor_product_functional_basis.py', 'functional_basis_array.py')] +
  ['tensap/functions/functional_tensor.py', 'tensap/functions/function.py', 'tensap/functions/measures/random_variable.py', 'tensap/functions/measures/random_vector.py', 'tensap/functions/polynomials/orthonormal_polynomials.py', 'tensap/tools/grids.py'],
  [('copies of the receiver before a change', FB + 'functional_bases.py'), ('recurrence coefficients kept by polynomials', 'tensap/functions/polynomials/orthonormal_polynomials.py')],
  [('parts shared by composite objects', 'a basis, measure or polynomial family used by several objects', FB + 'functional_bases.py')],
  ['every attribute of the objects', 'answers of the queries'])

p('P18', 'Functional tensors and basis arrays are the function they stand for',
  'A functional tensor or a functional basis array is the function its coefficients and bases define. '
  'Its values (at points, on grids, on grids of some of the dimensions, from evaluations of the bases), partial derivatives, gradients, norms, dot products, mean, variance, conditional expectations (also under another measure) and Sobol-type variances, and its gradient with respect to the coefficients of a node, are those of that function. '
  'Sums, products, multiples, derivatives, projections, conditional expectations, selections and permutations of variables are again functions of that kind, equal to the sum, product, and so on, with the measure of the variables they keep; random values are the values at the random points returned. '
  'This holds after any sequence of such operations, also when one failed or was interrupted, and no operation changes an object it only reads.',
  ['histories', 'crash_points', 'fault_sequences', 'inputs'],
  'all polynomial bases and user functions, tensor formats, measures of the variables and sequences of operations, with failures and interruptions between them',
  'The tutorials print moments of one function; no test composes the operations or repeats them after a failure.',
  ['tensap/functions/functional_tensor.py'] + [FB + x for x in ('functional_basis_array.py', 'functional_bases.py', 'full_tensor_product_functional_basis.py', 'sparse_tensor_product_functional_basis.py', 'polynomial_functional_basis.py')] + ['tensap/functions/polynomials/orthonormal_polynomials.py'],
  [('contractions with means and Gram matrices', 'tensap/functions/functional_tensor.py'), ('tensor product bases', FB + 'sparse_tensor_product_functional_basis.py')],
  [('bases and measures shared by several functions', 'FunctionalBases and their measure', FB + 'functional_bases.py')],
  ['values, derivatives and moments of the objects', 'measures of the bases'])

# ---- properties outside the technique -------------------------------------------------
p('P20', 'Quadrature rules integrate polynomials exactly',
  'A Gauss rule with n points integrates every polynomial of degree at most 2n-1 against its measure exactly, with positive weights summing to the mass; tensor product rules are the products of theirs.',
  ['inputs'], 'all measures, numbers of points, polynomials', 'The tutorial prints a few integrals.',
  ['tensap/functions/measures/random_variable.py', 'tensap/approximation/integration/integration_rules.py'], [('Golub-Welsch', 'tensap/functions/measures/random_variable.py')])
p('P21', 'Orthonormal polynomial families are orthonormal and differentiate correctly',
  'Each polynomial family is orthonormal for its measure at every degree, and its derivatives and moments are those of the same polynomials.',
  ['inputs'], 'all families, degrees and points', 'The tutorial checks one Gram matrix by eye.',
  ['tensap/functions/polynomials'], [('three-term recurrences', 'tensap/functions/polynomials')])
p('P22', 'Spline and piecewise polynomial bases partition and reproduce',
  'B-splines, dilated B-splines and piecewise polynomials have the stated support, smoothness and cardinality and reproduce polynomials of their degree.',
  ['inputs'], 'all knots, degrees, levels and points', 'The tutorials plot them.',
  [FB + 'BSplines_functional_basis.py', FB + 'piecewise_polynomial_functional_basis.py'], [('Cox-de Boor recursion', FB + 'BSplines_functional_basis.py')])
p('P23', 'Tensorization is a bijection that preserves function values',
  'Mapping a variable to its digits and remainder and back is the identity, and a tensorized function has at the mapped point the value of the original function.',
  ['inputs'], 'all bases, resolutions and points', 'The tutorial uses one function and one resolution.',
  ['tensap/functions/tensorizer.py', 'tensap/functions/tensorized_function.py'], [('digit expansion', 'tensap/functions/tensorizer.py')])
p('P25', 'Learning with a custom loss minimises that loss',
  'Learning with a user-defined loss and optimizer returns a stationary point of the empirical risk of that loss.',
  ['inputs'], 'all losses and data', 'The only test is skipped without tensorflow.',
  ['tensap/approximation/learning/linear_model_learning_custom_loss.py', 'tensap/approximation/learning/loss_functions.py'], [('tensorflow optimizer loop', 'tensap/approximation/learning/linear_model_learning_custom_loss.py')])
_real = {}
for _d, _, _fs in os.walk('/repo/tensap'):
    for _f in _fs:
        _real[_f] = os.path.relpath(os.path.join(_d, _f), '/repo')


def _fixpath(x):
    if isinstance(x, str) and x.endswith('.py') and not os.path.exists('/repo/' + x):
        return _real[os.path.basename(x)]
    return x


def _walk(x):
    if isinstance(x, dict):
        return {k: _walk(v) for k, v in x.items()}
    if isinstance(x, list):
        return [_walk(v) for v in x]
    return _fixpath(x)


P = [_walk(x) for x in P]
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl'), 'w') as f:
    for x in P:
        f.write(json.dumps(x) + '\n')
print(len(P))
