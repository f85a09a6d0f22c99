"""Write /verif/properties.jsonl and /verif/MANIFEST.json.

A property is claimed when its harness module props/cXX.py exists.
"""
import json
import os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

B = 'paragami/base_patterns.py'
N = 'paragami/numeric_array_patterns.py'
M = 'paragami/psdmatrix_patterns.py'
S = 'paragami/simplex_patterns.py'
K = 'paragami/pattern_containers.py'
F = 'paragami/function_patterns.py'
O = 'paragami/optimization_lib.py'
A = 'paragami/autograd_supplement_lib.py'
Q = 'paragami/sparse_preconditioners_lib.py'
PAT = [N, M, S, K]

P = []


def prop(id, title, statement, over, quant, why, files, mech, observe):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=quant),
                  why_tests_cant=why,
                  anchors=dict(files=files,
                               mechanism=[dict(name=a, where=b)
                                          for a, b in mech],
                               observe_at=observe, hook_needed=None)))


prop('C01', 'Free folding and flattening are exact inverses on valid values',
     'For every pattern (numeric arrays with any bounds, positive definite matrices with any diagonal lower bound, '
     'simplex arrays, and dictionaries and arrays of these), flattening a valid value to its free vector and folding '
     'it back returns the same value, and folding any free vector and flattening the result returns the same vector. '
     'The folded value lies in the constraint set: between the bounds, symmetric positive definite above the '
     'diagonal bound, or non-negative and summing to one.',
     ['inputs', 'configurations'],
     'for every free vector, every valid value strictly inside the constraint set and every value of the bounds',
     'The tests round-trip a few random vectors per pattern with one or two fixed bounds; a transform that is wrong '
     'only for some bounds, sizes or nestings passes.',
     PAT, [('bound transforms', N), ('Cholesky packing', M),
           ('log-ratio transform', S), ('concatenation with offsets', K)],
     ['fold(x, free=True)', 'flatten(v, free=True)'])

prop('C02', 'Every free vector folds to a finite value its own validation accepts',
     'In floating point arithmetic, folding a free vector always yields a finite value that the same pattern accepts '
     'as valid.  For two-sided bounded numeric patterns and simplexes this holds for every finite free vector, '
     'however large; for unbounded, one-sided bounded and matrix patterns for entries of moderate size (up to 300 in '
     'magnitude).',
     ['inputs', 'configurations'],
     'for every finite free vector in the stated range and all moderate bounds, with floating point rounding, '
     'overflow and underflow included',
     'The tests fold random vectors in [0, 1); overflow of exp and rounding at a bound are never reached.',
     [N, S, M], [('bound transforms', N), ('normalised exponentials', S), ('matrix unpacking', M),
                 ('validation', N)],
     ['fold(x, free=True)', 'validate_folded', 'flatten(fold(x, free=True), free=False)'])

prop('C03', 'Non-free flattening is a bijection with the documented layout',
     'The non-free flat vector is the folded value read in row-major order; a dictionary concatenates its entries in '
     'insertion order and an array of patterns concatenates its elements in row-major order of the array shape.  '
     'Folding a flat vector inverts this exactly, entry for entry, and folding and flattening return the folded '
     'shape and a one-dimensional vector.',
     ['inputs', 'configurations'],
     'for every valid value and every flat vector of every pattern within the bounds',
     'The tests only check that flattening and folding are mutually inverse on samples, which any consistent '
     'permutation also satisfies.',
     PAT, [('row-major flatten / reshape', N), ('offset accumulation', K), ('element slices', K)],
     ['flatten(v, free=False)', 'fold(x, free=False)'])

prop('C04', 'Validation accepts a value exactly when it satisfies the constraints',
     'Checking, flattening and non-free folding reject a value exactly when it breaks a documented constraint '
     '(outside the inclusive bounds; diagonal below its bound or asymmetric matrix; negative simplex entry or sum off '
     'by more than rounding; missing dictionary key; wrong shape), when value checking is requested or is the '
     'default.  With value checking turned off only the shape and keys are checked, and an element of a container is '
     'judged exactly as it would be alone.  Impossible bounds and sizes are rejected when a pattern is built.',
     ['inputs', 'configurations'],
     'for every folded value, bound, and setting of the validation flags',
     'The tests try a handful of bad values; boundary values, each single entry of each element of a container, and '
     'the combinations of the flags are not covered.',
     PAT, [('validate_folded', N), ('validate_folded', M), ('validate_folded', S), ('validate_folded', K)],
     ['validate_folded', 'flatten', 'fold(x, free=False)', 'constructors'])

prop('C05', 'Reported lengths are exact and wrong-sized inputs are rejected',
     'The reported free and non-free lengths equal the size of what flattening returns and of what folding accepts, '
     'for every pattern.  Folding a vector of any other length, or an array that is not one-dimensional, raises an '
     'error instead of returning a value, and a folded value of any other shape is rejected.',
     ['inputs', 'configurations'],
     'for every length and shape parameter and every offered length within the bounds',
     'The tests offer one wrong length per pattern at fixed sizes.',
     [B] + PAT, [('flat_length', B), ('length checks in fold', N), ('length bookkeeping of containers', K)],
     ['flat_length', 'fold', 'flatten'])

prop('C06', 'Freeing and unfreeing Jacobians are the true derivative matrices',
     'At every valid value the Jacobian of the map from flat free to flat values, and of its inverse, equals the '
     'matrix of partial derivatives with rows for outputs and columns for inputs, for every pattern including '
     'containers.  Sparse and dense results agree, have the documented shape, and the product of freeing and '
     'unfreeing Jacobians is the identity on the free coordinates.',
     ['inputs', 'configurations'],
     'for every valid value and every bound within the sizes explored',
     'The tests compare with automatic differentiation at one random point per pattern.',
     [B] + PAT, [('closed-form array Jacobians', N), ('simplex Jacobians', S), ('autograd Jacobians', B),
                 ('block diagonal assembly', K)],
     ['freeing_jacobian', 'unfreeing_jacobian'])

prop('C07', 'Log determinants equal the log absolute determinant of the Jacobian',
     'For every pattern that offers it, the log absolute determinant of the freeing (unfreeing) Jacobian equals the '
     'logarithm of the absolute determinant of the freeing (unfreeing) Jacobian at the same value.  The two are '
     'negatives of each other, a dictionary adds up the values of all its entries (and raises if one of them offers '
     'none), and their automatic derivatives are the true ones.',
     ['inputs', 'configurations'],
     'for every valid value and all bounds',
     'The tests evaluate it at single random points.',
     [N, K], [('sum of log derivatives', N), ('sum over entries', K)],
     ['log_abs_det_freeing_jacobian', 'log_abs_det_unfreeing_jacobian'])

prop('C08', 'Flat indices name exactly the flat positions of the selected entries',
     'For non-free vectors, the indices returned for a boolean mask are exactly the positions of the selected entries, '
     'in increasing order.  For free vectors they contain, once each and in increasing order, every free coordinate on '
     'which some selected entry depends, and none that belongs to a different numeric entry, simplex, matrix or '
     'element.  A mask that selects nothing gives no indices. '
     'A mask in which some array has the wrong shape (and which selects something there) is rejected.',
     ['inputs', 'configurations'],
     'for every boolean mask over the folded value',
     'Tests try a few random masks; 2^n masks over nested containers with offsets are not covered.',
     PAT, [('index caches', N), ('per-simplex index blocks', S), ('offset accumulation', K)],
     ['flat_indices(mask, free)'])

prop('C09', 'A pattern restored from its JSON text is the same pattern',
     'Writing a pattern to JSON and reading it back gives an equal pattern that behaves identically: same bounds, '
     'shapes, key order, default validation and default free setting, at every nesting level.  Reading text written '
     'by another pattern type, text without a type, or a type that has not been registered raises an error, and a '
     'registered type cannot be replaced unless overwriting is allowed.',
     ['inputs', 'configurations', 'histories'],
     'for all bounds, flags, sizes and nestings, and all short registration histories',
     'Tests round-trip fixed patterns and compare only with the equality method, which cannot see attributes it '
     'ignores.',
     [B] + PAT, [('as_dict / to_json', B), ('from_json', K), ('pattern registry', K)],
     ['to_json', 'from_json', 'get_pattern_from_json', 'register_pattern_json'])

prop('C10', 'Saving and loading a folded value preserves value, pattern and data',
     'Loading a file written by saving a folded value returns the same folded value, an equal pattern and every '
     'additional array saved with it, unchanged.  A value that the pattern rejects is not saved.',
     ['inputs', 'configurations'],
     'for every valid value (also on the boundary of the constraints) and every extra array within the sizes explored',
     'One fixed pattern and value is saved in the tests.',
     [K], [('flat value and JSON in one archive', K)], ['save_folded', 'load_folded'])

prop('C11', 'Patterns compare equal exactly when they describe the same thing',
     'Two patterns are equal exactly when they have the same type, shape or size, bounds, default settings, and '
     'recursively equal contents with the same keys in the same order.  Equality is symmetric, and a pattern never '
     'equals one of another type or a non-pattern.',
     ['inputs', 'configurations'],
     'for all pairs of patterns and all values of their bounds within the sizes explored',
     'Tests compare a few fixed pairs, so an attribute left out of the comparison is not noticed.',
     [B] + PAT, [('__eq__ over as_dict', B), ('as_dict', K)], ['==', '!='])

prop('C12', 'The default free setting is resolved once and containers never mix it',
     'When the free argument is omitted every operation behaves exactly as if the default free setting had been '
     'passed, and raises an error if there is none; an explicit argument always wins.  A container applies its own '
     'resolved setting to all of its elements, whatever their own defaults are.',
     ['inputs', 'configurations'],
     'for every combination of default settings over the nesting, every explicit argument, and every value',
     'Tests use one default per pattern and no nestings with conflicting defaults.',
     [B] + PAT, [('_free_with_default', B), ('explicit free in containers', K)],
     ['fold', 'flatten', 'flat_length', 'flat_indices'])

prop('C13', 'Dictionary patterns stay consistent through any editing history',
     'After any sequence of adding, replacing and deleting entries, a dictionary pattern behaves exactly like one '
     'freshly built with its current entries in its current order: lengths, folding, flattening, empty values, '
     'indices and equality.  Once locked, explicitly or by being placed in another dictionary, it refuses every '
     'change and is left intact.',
     ['histories', 'inputs'],
     'for every sequence of editing operations up to a bounded length, over a set of keys and entry types',
     'Tests try a few edits; order after replacement, stale lengths and emptied dictionaries are not covered.',
     [K], [('length recomputation on edit', K), ('locking', K)],
     ['d[key] = pattern', 'del d[key]', 'lock', 'flat_length', 'fold', 'flatten'])

prop('C14', 'Input-transformed functions equal the original on transformed arguments',
     'Calling a function whose inputs have been flattened (folded) gives the result of the original function with '
     'exactly the arguments at the specified positions replaced by their folded (flattened) values using the matching '
     'pattern and free setting.  All other positional and keyword arguments pass through unchanged and in place, '
     'whatever the order in which the positions are listed; inconsistent specifications are rejected.  An argument '
     'that the pattern itself refuses, under its own validation setting, is refused and the original is not called.',
     ['inputs', 'configurations'],
     'for every choice and order of argument positions, free settings, number of arguments and argument values',
     'Tests use a few fixed position lists.',
     [F], [('argument walk in position order', F), ('argument checks', F)],
     ['TransformFunctionInput', 'FlattenFunctionInput', 'FoldFunctionInput'])

prop('C15', 'Output-transformed functions equal the transformed original results',
     'Calling a function whose outputs have been flattened (folded) gives the original results with exactly the '
     'specified return positions replaced by their flattened (folded) values, other results unchanged and in place.  '
     'The combined input-and-output wrappers equal the composition of both, and too few return values or '
     'inconsistent specifications are rejected.  A result that the pattern itself refuses, under its own validation '
     'setting, is refused.',
     ['inputs', 'configurations'],
     'for every choice and order of return positions, free settings, number of results and values',
     'Tests use a few fixed position lists.',
     [F], [('result walk in position order', F), ('wrapper composition', F)],
     ['TransformFunctionOutput', 'FlattenFunctionInputAndOutput', 'FoldFunctionInputAndOutput'])

prop('C16', 'A preconditioned function evaluates the original at the mapped point',
     'With any invertible preconditioner, given as a dense or sparse matrix, with or without its inverse, or as '
     'functions, the preconditioned function at a point equals the original at the preconditioner times that point.  '
     'Preconditioning and unpreconditioning are inverse, the reported matrices are the preconditioner and its '
     'inverse, derivatives follow the chain rule, and initially the preconditioner is the identity.  The consistency '
     'check raises exactly when the pair fails to invert the given vector within tolerance.',
     ['inputs', 'histories'],
     'for every invertible matrix within the sizes explored, every point, and every order of setting preconditioners',
     'Tests use one random matrix.',
     [O], [('set_preconditioner_matrix', O), ('operator to matrix', O), ('check_preconditioner', O)],
     ['PreconditionedFunction'])

prop('C17', 'Hessian preconditioners are the inverse square root of the clipped Hessian',
     'Setting the preconditioner from a symmetric positive (or clipped) Hessian H, given directly or evaluated at a '
     'point, makes it symmetric with square inv(H) after eigenvalues at most the minimum or at least the maximum have '
     'been replaced by those limits; its inverse squares to the clipped H.  Clipping changes only eigenvalues beyond '
     'the limits, and transforming an eigenspace changes exactly the given directions and is the identity orthogonal '
     'to them.  Giving both or neither of point and Hessian is rejected.',
     ['inputs'],
     'for every symmetric matrix within the sizes explored, all eigenvalue limits and vectors',
     'Tests use one random matrix and a few limits.',
     [O], [('eigendecomposition and clipping', O), ('transform_eigenspace', O)],
     ['set_preconditioner_with_hessian', 'truncate_eigenvalues', 'transform_eigenspace'])

prop('C18', 'Sparse Hessian square root operators square to the Hessian',
     'For every sparse positive definite Hessian and every fill-reducing permutation chosen by the factorisation, the '
     'returned pair of operators are mutually inverse linear maps and the first composed with its transpose gives '
     'back the Hessian.  Both have correct derivatives, and a dense Hessian is rejected.',
     ['inputs', 'configurations'],
     'for every positive definite matrix within the sizes explored, every permutation, and every vector',
     'Tests use one matrix, for which the library chooses one permutation.',
     [Q, A], [('permuted Cholesky square root', Q), ('differentiable solvers', A)],
     ['get_sym_matrix_inv_sqrt_funcs'])

prop('C19', 'The optimisation objective counts, prints and logs on schedule',
     'Every call of the objective returns the value of the wrapped function, increments the evaluation count by one, '
     'and prints (logs) exactly when printing (logging) is enabled and the count before the call is a multiple of the '
     'period, recording that count, point and value (as they were then, even if the array is changed later).  Resetting restores a zero count and an empty log as documented, '
     'derivative evaluations change neither, and the derivatives are those of the wrapped function.',
     ['histories', 'inputs'],
     'for every sequence of calls, period changes and resets up to a bounded length, every period and every point',
     'Tests run one sequence with a few periods.',
     [O], [('evaluation counter', O), ('modulo schedule', O)],
     ['OptimizationObjective'])

prop('C20', 'Automatic derivatives through folding and flattening are correct',
     'Gradients and Jacobians taken by automatic differentiation of functions that fold, flatten or use transformed '
     'inputs equal the true derivatives, in reverse and (where supported) forward mode, for every pattern including '
     'nested containers.',
     ['inputs', 'configurations'],
     'for every free or non-free vector and all bounds within the sizes explored',
     'Tests check derivatives at single random points.',
     PAT + [F], [('custom derivative of triangular unpacking', M), ('differentiable containers', K)],
     ['autograd through fold / flatten'])

prop('C21', 'Supplementary automatic differentiation rules are the true derivatives',
     'The forward-mode derivatives added for matrix inverse, linear solve (vector, matrix and stacked right-hand '
     'sides, both arguments), log determinant and the gamma family of special functions equal the true derivatives '
     'at every point where the function is differentiable (for the gamma family: away from the poles of gamma).',
     ['inputs'],
     'for every matrix, direction and argument within the sizes explored',
     'Tests compare against finite differences at one random point.',
     [A], [('defjvp rules', A)], ['autograd forward mode'])

prop('C22', 'Sparse products and solvers have the right values and derivatives',
     'The functions returned for a matrix multiply a vector or matrix by it and by its transpose, and the wrapped '
     'solvers return what the given solvers return.  Their derivatives of every order, in forward and reverse mode, '
     'are those of the linear map; arguments with more than two dimensions are rejected.',
     ['inputs'],
     'for every matrix entry, vector and direction within the sizes explored',
     'Tests use one random sparse matrix.',
     [A], [('mutually referring jvp / vjp rules', A)],
     ['get_sparse_product', 'get_differentiable_solver'])

prop('C23', 'Grouped sums and replacement compute and differentiate correctly',
     'A grouped sum adds up exactly the rows mapped to each group, gives zero for groups with no rows, and rejects '
     'group numbers that are too large; replacement returns a new array that differs from the old one exactly at the '
     'given positions.  Their forward and reverse derivatives with respect to each array argument are correct.',
     ['inputs', 'configurations'],
     'for every assignment of rows to groups, every set of distinct positions, and all values',
     'Tests use a few fixed groupings.',
     [A], [('grouped_sum', A), ('replace', A)], ['grouped_sum', 'replace'])

prop('C24', 'Operations neither modify their inputs nor hand out shared state',
     'Folding, flattening, validating, indexing, Jacobians, eigenvalue clipping, grouped sums and replacement leave '
     'their arguments unchanged.  Changing a returned value or an input afterwards changes neither the pattern, nor '
     'later results, nor (for free folding and all flattening) the other value.',
     ['inputs', 'histories'],
     'for every value, pattern and later modification within the sizes explored',
     'Tests never modify a value after using it.',
     PAT + [O, A], [('copies on identity transforms', N), ('flatten copies', K)],
     ['fold', 'flatten', 'empty', 'flat_indices'])

prop('C25', 'Empty, boolean and random values always have the right shape and validity',
     'An empty valid value has the folded shape and passes the own validation of the pattern for all finite bounds, also ones so large '
     'that their sum or difference overflows; an empty boolean value is filled with the requested truth value in every entry.  A random value is valid for every '
     'outcome of the random numbers, which are drawn independently, one per free coordinate.',
     ['inputs', 'configurations'],
     'for all bounds and every outcome of the random generator',
     'Tests look at one random draw per pattern and fixed bounds.',
     [B] + PAT, [('in-bounds value', N), ('random', B), ('empty_bool', B)],
     ['empty', 'empty_bool', 'random'])

prop('C26', 'Names of flat entries line up with the flat vector',
     'The list of flat names has one name per flat entry, in flat order; a numeric array names each entry by its '
     'index in the folded value, and a dictionary prefixes the names of each entry with its key and a delimiter.  The '
     'names are distinct as long as no key contains the delimiter.',
     ['inputs', 'configurations'],
     'for every pattern, flat vector and key set within the sizes explored',
     'One small example is tested.',
     [B, N, K], [('flat_names', B), ('flat_names', N), ('flat_names', K)], ['flat_names'])


prop('C27', 'User-defined patterns work everywhere a built-in pattern does',
     'A user pattern that implements the abstract interface, including one whose folded value is not an array or whose '
     'free vector is shorter than its flat vector, can be an entry of a dictionary (or, if array valued, of a pattern '
     'array) at any depth: folding, flattening, lengths, validation, indices and names follow the layout rules and call '
     'its own methods; the inherited Jacobians are the true derivatives, in dense and sparse form; random, empty_bool, '
     'JSON (once registered), files, equality and function wrapping work as for built-in patterns; a subclass of the '
     'dictionary pattern is locked like a dictionary when it becomes an entry; an incomplete subclass cannot be '
     'instantiated.',
     ['inputs', 'configurations'],
     'for every free vector, valid value, mask and parameter of the user patterns and every nesting explored',
     'The tests define no pattern of their own, so the generic code of the base class and the containers is only reached '
     'through the built-in overrides.',
     [B, K, F], [('generic Jacobians and helpers', B), ('containers', K), ('registry', K)],
     ['fold', 'flatten', 'freeing_jacobian', 'unfreeing_jacobian', 'get_pattern_from_json'])

prop('C28', 'Interior values have finite free vectors and Jacobians in floating point',
     'Evaluated in IEEE binary64, with rounding, overflow and underflow, flattening a value strictly inside its bounds (or a '
     'simplex with positive entries) gives a finite free vector, and folding it back gives a finite valid value (with two '
     'bounds, for magnitudes and distances from the bounds within 1e-150 to 1e150).  '
     'Freeing and unfreeing Jacobians and their log determinants are finite, with positive entries for bounded arrays, for '
     'values whose magnitudes and distances from the bounds are within 1e-60 to 1e60 (1e-200 to 1e200 with at most one bound).  '
     'The derivative of folding is finite at every free vector for two-sided bounds, unbounded arrays and simplexes, and at free entries '
     'up to 300 in magnitude for other patterns.',
     ['inputs'],
     'for every binary64 value, bound and free entry within the bounds stated by the check',
     'Tests use values of order one; overflow and cancellation appear near the bounds and for large or small magnitudes.',
     [N, S, M], [('transforms and Jacobians', N), ('logarithms of ratios', S)],
     ['NumericArrayPattern.freeing_jacobian', 'unfreeing_jacobian', 'log_abs_det_freeing_jacobian',
      'log_abs_det_unfreeing_jacobian', 'SimplexArrayPattern.flatten'])
prop('C29', 'Folding, wrapping, preconditioning and objectives compose',
     'An objective of folded arguments, flattened by the wrappers, preconditioned and put in an optimization objective, '
     'has at every point the value of the original at the folded image of the mapped point; its gradient, Hessian and '
     'Hessian vector product are the exact derivatives of that composition, also after any change of the preconditioner '
     'between calls.  A folded start is recovered by flattening, preconditioning, and going back.  The Jacobian of a '
     'function flattened on both sides is the product of the freeing Jacobian of its output pattern, its own Jacobian '
     'and the unfreeing Jacobian of its input pattern.',
     ['inputs', 'configurations', 'histories'],
     'for every point, weight, bound, invertible matrix and history of preconditioner changes explored',
     'The tests exercise each layer alone, at single points and mostly with identity or diagonal preconditioners.',
     [F, O, A] + PAT, [('argument transformation', F), ('preconditioned call', O), ('derivatives', O)],
     ['OptimizationObjective.f', 'grad', 'hessian', 'hessian_vector_product', 'FlattenFunctionInputAndOutput'])
prop('C30', 'Integers, lists and any memory layout stand for the arrays of reals they spell',
     'A flat vector given as a list, tuple or (of length one) plain number, and flat vectors, folded values, bounds, '
     'eigenvalues, summands or replacement targets given as integers, have exactly the effect of the array of real '
     'numbers with the same entries: same results, not rounded or truncated to integers, and same rejections.  Numeric '
     'folded values and masks may be (nested) lists or plain numbers in the same way, and how an array is stored '
     '(Fortran order, a strided or reversed view, read-only) never matters.',
     ['inputs'],
     'for every list of reals and every small integer vector, with every real value of the other arguments',
     'Tests pass arrays of floating point numbers; integer storage truncates silently, so results are wrong without an error.',
     [N, S, M, K, A, O, F], [('numeric patterns', N), ('containers', K), ('eigenvalue clipping', O), ('grouped sums', A)],
     ['fold', 'flatten', 'truncate_eigenvalues', 'grouped_sum', 'replace'])
prop('C31', 'Results depend on the arguments and the current state only',
     'Every operation of a pattern, wrapped or preconditioned function, objective, sparse product, grouped sum or '
     'eigenvalue clipping gives the same result or error for the same arguments, whatever operations were carried out before '
     'on the same object, on other objects of the same class, or in the module (including the same argument array with '
     'other contents, and earlier results that the caller has since overwritten).  Only the operations documented to '
     'change an object change what it does later.',
     ['inputs', 'histories'],
     'for every earlier call of the listed kinds, in any order, and all values of the earlier and the later arguments',
     'Tests compute each quantity once or with the same values; a cache or shared buffer shows only when a second call differs.',
     [N, S, M, K, F, B, O, A], [('pattern state', K), ('Jacobian functions', B), ('objectives', O), ('sparse products', A)],
     ['fold', 'flatten', 'freeing_jacobian', 'flat_indices', 'get_pattern_from_json', 'set_preconditioner_with_hessian'])

prop('C32', 'Arguments mean the same by position, by name, or left to their default',
     'Every operation, constructor, wrapper and library function has the same result or error whether its arguments are '
     'given by position in the documented order or by name, and leaving out an optional argument is the same as giving '
     'its documented default (no bounds, validation on, sparse Jacobians, all positions from the first, as many groups '
     'as the largest one needs, no eigenvalue limits, tolerance 1e-8, printing every iteration and no logging, no '
     'overwriting of registered patterns).  Functions offered under two names or forms do the same.',
     ['inputs', 'configurations'],
     'for every argument and every split into positional and named ones, and all values of the arguments',
     'Tests call most functions in one form only; a changed order or default silently changes what callers get.',
     [N, S, M, K, F, B, O, A], [('signatures', B), ('constructors', N), ('wrappers', F), ('preconditioning', O)],
     ['fold', 'flatten', 'TransformFunctionInput', 'truncate_eigenvalues', 'set_preconditioner_with_hessian'])

prop('C33', 'Patterns report what they are made of and follow changed default settings',
     'The accessors of a pattern (shape, bounds, size, length, diagonal bound, simplex size, array shape, base pattern, '
     'keys and entries) report exactly what it was built with, also after it has been used, folded values have the '
     'reported shape or keys, and the same type of pattern built again from them equals it.  Assigning the default free '
     'or default validation attribute of a pattern at any time has the same effect on every later operation, and on '
     'equality, as building it with that setting.',
     ['inputs', 'configurations', 'histories'],
     'for all bounds, sizes and shapes within the limits, and every combination of old and new settings',
     'Tests read few accessors and fix the settings at construction.',
     [N, S, M, K, B], [('accessors', N), ('default settings', B), ('container accessors', K)],
     ['shape', 'bounds', 'keys', 'base_pattern', 'free_default', 'default_validate'])


def main():
    with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
        for p in P:
            f.write(json.dumps(p) + '\n')
    checks, na = [], []
    for p in P:
        path = os.path.join(ROOT, 'props', p['id'].lower() + '.py')
        if not os.path.exists(path):
            na.append(dict(property=p['id'], reason='no check built yet'))
            continue
        cmd = '/opt/venv/bin/python engine/run.py --prop %s' % p['id']
        ext = p['id'] in ('C02', 'C28')
        checks.append(dict(
            property=p['id'], quick_cmd=cmd + ' --tier quick',
            thorough_cmd=cmd + ' --tier thorough',
            technique='symbolic execution of the real Python code, SMT (z3) verdict per path',
            level='model_checking',
            level_note=(
                'For every configuration listed in the evidence, all real values of the inputs and bounds are covered '
                'by a solver verdict on every path; sizes are bounded. ' +
                ('Floating point is modelled by monotone correctly-signed rounding with overflow and underflow; '
                 if ext else 'Arithmetic is exact real arithmetic; ') +
                'numpy / scipy / autograd data movement runs natively, linear algebra and special functions are '
                'contract stubs listed in DESIGN.md; one witness per path is replayed on the unpatched code.')))
    man = dict(version=1,
               setup_cmd='/opt/venv/bin/python engine/selftest.py',
               checks=checks, not_applicable=na,
               notes='Solver-based checking by symbolic execution; see DESIGN.md.  No hooks in /repo.')
    with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
        json.dump(man, f, indent=1)
        f.write('\n')


if __name__ == '__main__':
    main()
