"""Planted bugs: small realistic changes that pass the existing tests (see plant.py)."""
N = 'paragami/numeric_array_patterns.py'
M = 'paragami/psdmatrix_patterns.py'
S = 'paragami/simplex_patterns.py'
K = 'paragami/pattern_containers.py'
B = 'paragami/base_patterns.py'
F = 'paragami/function_patterns.py'
O = 'paragami/optimization_lib.py'
A = 'paragami/autograd_supplement_lib.py'
Q = 'paragami/sparse_preconditioners_lib.py'

HEAD = '''import sys
import numpy as np
import scipy.sparse as sps
import autograd
import autograd.numpy as anp
import paragami
from collections import OrderedDict


def must(c, msg='wrong'):
    if not c:
        print(msg)
        sys.exit(1)


def raises(f):
    try:
        f()
    except Exception:
        return True
    return False

'''

BUGS = []


def bug(id, property, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=HEAD + demo))


bug('C01-diag-floor', 'C01',
    [(M, "        np.exp(np.diag(mat)), offset=0, axis1=-1, axis2=-2)",
      "        np.exp(np.maximum(np.diag(mat), -6.)), offset=0, axis1=-1, axis2=-2)")],
    'a free coordinate of the log diagonal below -6',
    'folding and flattening a free matrix vector is no longer the identity',
    '''p = paragami.PSDSymmetricMatrixPattern(2)
y = np.array([-7.0, 0.1, 0.2])
must(np.allclose(p.flatten(p.fold(y, free=True), free=True), y))
''')

bug('C04-zero-bound', 'C04',
    [(N, "            if (np.array(folded_val < self._lb)).any():",
      "            if self._lb and (np.array(folded_val < self._lb)).any():")],
    'a lower bound of exactly zero',
    'negative entries are accepted by a pattern with lower bound zero',
    '''p = paragami.NumericVectorPattern(2, lb=0.0)
must(not p.validate_folded(np.array([1.0, -0.5]))[0])
must(raises(lambda: p.fold(np.array([-1.0, 0.5]), free=False)))
''')

bug('C03-sorted-keys', 'C03',
    [(K, """        flat_vals = []
        for pattern_name, pattern in self.__pattern_dict.items():
            pattern_flat_length""", """        flat_vals = []
        for pattern_name, pattern in sorted(self.__pattern_dict.items(), key=lambda item: item[0]):
            pattern_flat_length"""),
     (K, """        offset = 0
        for pattern_name, pattern in self.__pattern_dict.items():
            pattern_flat_length = pattern.flat_length(free)
            pattern_flat_val""", """        offset = 0
        for pattern_name, pattern in sorted(self.__pattern_dict.items(), key=lambda item: item[0]):
            pattern_flat_length = pattern.flat_length(free)
            pattern_flat_val""")],
    'a dictionary whose keys were not added in sorted order; flattening and folding stay mutually inverse',
    'the flat vector is laid out in sorted key order instead of insertion order',
    '''d = paragami.PatternDict()
d['z'] = paragami.NumericVectorPattern(1)
d['a'] = paragami.NumericVectorPattern(2)
must(list(d.flatten({'z': np.array([1.]), 'a': np.array([2., 3.])}, free=False)) == [1., 2., 3.])
''')

bug('C05-long-vector', 'C05',
    [(K, """        flat_length = self.flat_length(free)
        if flat_val.size != flat_length:""", """        flat_length = self.flat_length(free)
        if flat_val.size < flat_length:""")],
    'a flat vector longer than the dictionary pattern',
    'a vector that is too long is folded and its tail silently ignored',
    '''d = paragami.PatternDict()
d['z'] = paragami.NumericVectorPattern(1)
must(raises(lambda: d.fold(np.zeros(2), free=False)))
''')

bug('C06-width', 'C06',
    [(N, "            return 1 / (array - lb) + 1 / (ub - array)",
      "            return (np.abs(ub) + np.abs(lb)) / ((array - lb) * (ub - array))")],
    'two finite bounds with the same sign',
    'the freeing Jacobian of an interval that does not contain zero is scaled by |ub| + |lb|',
    '''p = paragami.NumericVectorPattern(2, lb=1.0, ub=3.0)
y = np.array([0.3, -0.4])
J = autograd.jacobian(lambda z: p.flatten(p.fold(z, free=True), free=False))(y)
must(np.allclose(p.freeing_jacobian(p.fold(y, free=True), sparse=False) @ J, np.eye(2)))
''')

bug('C07-epsilon', 'C07',
    [(N, """                _unconstrain_array(folded_val, self._lb, self._ub),
                self._lb, self._ub)
        return np.sum(np.log(np.abs(jac_array)))""", """                _unconstrain_array(folded_val, self._lb, self._ub),
                self._lb, self._ub)
        return np.sum(np.log(np.maximum(np.abs(jac_array), 1e-4)))""")],
    'a value within 1e-4 of its bound',
    'the log determinant of the unfreeing Jacobian is floored',
    '''p = paragami.NumericVectorPattern(1, lb=0.0)
must(np.allclose(p.log_abs_det_unfreeing_jacobian(np.array([1e-6])), np.log(1e-6)))
''')

bug('C10-no-check', 'C10',
    [(K, "    flat_val = pattern.flatten(folded_val, free=False)\n    pattern_json",
      "    flat_val = pattern.flatten(folded_val, free=False, validate_value=False)\n    pattern_json")],
    'saving a value that violates the bounds',
    'an invalid value is written to the file (and cannot be loaded)',
    '''import os, tempfile
p = paragami.NumericVectorPattern(2, lb=0.0)
with tempfile.TemporaryDirectory() as d:
    f = os.path.join(d, 'x.npz')
    must(raises(lambda: paragami.save_folded(f, np.array([-1.0, 1.0]), p)))
    must(not os.path.exists(f))
''')

bug('C16-relative', 'C16',
    [(O, "        if err > tol:\n", "        if err > tol * max(1., np.linalg.norm(vec)):\n")],
    'a vector of norm greater than one and an error between tol and tol times the norm',
    'the consistency check accepts a pair that fails to invert within tolerance',
    '''f = paragami.PreconditionedFunction(lambda x: x[0])
f.set_preconditioner_matrix(2.0 * np.eye(2), 0.6 * np.eye(2))
must(raises(lambda: f.check_preconditioner(np.array([10.0, 0.0]), tol=1.0)))
''')

bug('C17-zero-limit', 'C17',
    [(O, "    if not ev_min is None:\n", "    if ev_min:\n")],
    'a minimum eigenvalue of exactly zero', 'negative eigenvalues are left in place',
    '''from paragami import optimization_lib as o
must(np.allclose(o.truncate_eigenvalues(np.array([-1.0, 2.0]), ev_min=0.0), [0.0, 2.0]))
''')

bug('C21-stacked-inverse', 'C21',
    [(A, "    dot = np.dot if ans.ndim == 2 else partial(np.einsum, '...ij,...jk->...ik')\n    return -dot(dot(ans, g), ans)",
      "    dot = np.dot if ans.ndim == 2 else partial(np.einsum, '...ij,...jk->...ik')\n    return -dot(dot(ans, g), ans) if ans.shape[-1] > 2 else -dot(ans, dot(ans, g))")],
    'the forward derivative of the inverse of a 1x1 or 2x2 matrix in a direction that does not commute with it',
    'the forward derivative of small inverses is wrong',
    '''a = np.array([[2.0, 1.0], [0.0, 1.0]])
d = np.array([[0.0, 1.0], [2.0, 0.5]])
i = np.linalg.inv(a)
must(np.allclose(autograd.make_jvp(anp.linalg.inv)(a)(d)[1], -i @ d @ i))
''')

bug('C23-replace-vjp', 'C23',
    [(A, "       lambda ans, x_sub, x, inds: lambda g: replace(0, g, inds),\n       None)\n\ndefjvp",
      "       lambda ans, x_sub, x, inds: lambda g: g * (ans == x),\n       None)\n\ndefjvp")],
    'a replacement entry equal to the entry it replaces',
    'the gradient with respect to the old array does not vanish there',
    '''r = paragami.autograd_supplement_lib.replace
J = autograd.jacobian(lambda x: r(np.array([1.0]), x, np.array([0])))(np.array([1.0, 2.0]))
must(np.allclose(J, [[0, 0], [0, 1]]))
''')

bug('C24-view', 'C24',
    [(M, "            return folded_val.flatten()", "            return folded_val.reshape(-1)")],
    'modifying the flat vector of a matrix after flattening', 'the folded matrix changes with it',
    '''p = paragami.PSDSymmetricMatrixPattern(2)
a = np.eye(2)
f = p.flatten(a, free=False)
f[0] = 5.0
must(a[0, 0] == 1.0)
''')

bug('C24-truncate-inplace', 'C24',
    [(O, "    eig_val_trunc = copy.deepcopy(evals)", "    eig_val_trunc = np.asarray(evals)")],
    'using the eigenvalues after truncating them', 'the given eigenvalues are overwritten',
    '''from paragami import optimization_lib as o
w = np.array([0.1, 2.0])
o.truncate_eigenvalues(w, ev_min=1.0)
must(w[0] == 0.1)
''')

bug('C25-empty-matrix', 'C25',
    [(M, "            return np.eye(self.__size) * (self.__diag_lb + 1)",
      "            return np.eye(self.__size) * max(self.__diag_lb, 1)")],
    'a diagonal lower bound of at least one',
    'the empty value lies on the boundary: it is accepted but cannot be flattened to a finite free vector',
    '''p = paragami.PSDSymmetricMatrixPattern(2, diag_lb=2.0)
v = p.empty(valid=True)
try:
    must(np.all(np.isfinite(p.flatten(v, free=True))))
except np.linalg.LinAlgError:
    must(False)
''')

bug('C25-random-length', 'C25',
    [(B, "        return self.fold(np.random.random(self._free_flat_length), free=True)",
      "        return self.fold(\n            np.resize(np.random.random(min(self._free_flat_length, 64)),\n"
      "                      self._free_flat_length), free=True)")],
    'a pattern with more than 64 free coordinates',
    'random values repeat after 64 coordinates',
    '''p = paragami.NumericVectorPattern(100)
must(len(set(p.random())) == 100)
''')

bug('C26-order', 'C26',
    [(N, """        for item in itertools.product(*array_ranges):
            flat_name_list.append('[' + ','.join([str(i) for i in item]) + ']')
        return flat_name_list""", """        for item in itertools.product(*array_ranges):
            flat_name_list.append('[' + ','.join([str(i) for i in item]) + ']')
        return sorted(flat_name_list)""")],
    'an array with ten or more entries along a dimension',
    'names are in alphabetical order and do not line up with the flat vector',
    '''p = paragami.NumericVectorPattern(11)
must(p.flat_names(False) == ['[%d]' % i for i in range(11)])
''')

bug('C11-no-order', 'C11',
    [(B, "        return self.as_dict() == other.as_dict()",
      "        a, b = self.as_dict(), other.as_dict()\n        if 'keys' in a:\n"
      "            a['keys'], b['keys'] = sorted(a['keys']), sorted(b['keys'])\n        return a == b")],
    'two dictionary patterns with the same entries in a different order',
    'patterns with different flat layouts compare equal',
    '''a, b = paragami.PatternDict(), paragami.PatternDict()
v, m = paragami.NumericVectorPattern(1), paragami.PSDSymmetricMatrixPattern(2)
a['v'], a['m'] = v, m
b['m'] = m
b['v'] = v
must(a != b)
''')

bug('C20-forward', 'C20',
    [(M, "def _unvectorize_ld_matrix_jvp(g):\n    return _unvectorize_ld_matrix(g)",
      "def _unvectorize_ld_matrix_jvp(g):\n    mat = _unvectorize_ld_matrix(g)\n"
      "    return np.make_diagonal(np.diag(mat), offset=0, axis1=-1, axis2=-2) if mat.shape[0] > 3 else mat")],
    'forward mode differentiation of a matrix of size four or more',
    'the tangent of the off-diagonal entries is lost',
    '''p = paragami.PSDSymmetricMatrixPattern(4)
y = np.linspace(-0.5, 0.5, 10)
d = np.linspace(0.1, 1.0, 10)
f = lambda z: p.flatten(p.fold(z, free=True), free=False)
J = autograd.jacobian(f)(y)
must(np.allclose(autograd.make_jvp(f)(y)(d)[1], J @ d))
''')

bug('C09-array-base', 'C09',
    [(K, "            'array_shape': self.__array_shape,", "            'array_shape': self.__array_shape[:2],")],
    'an array of patterns with three or more array dimensions', 'the restored pattern has another shape',
    '''p = paragami.PatternArray((2, 1, 2), paragami.NumericVectorPattern(2))
must(paragami.get_pattern_from_json(p.to_json()).shape() == (2, 1, 2, 2))
''')

bug('C10-default-free', 'C10',
    [(K, "    flat_val = pattern.flatten(folded_val, free=False)\n    pattern_json",
      "    flat_val = pattern.flatten(folded_val, free=pattern.free_default or False)\n    pattern_json")],
    'a pattern whose default is free', 'the free value is saved and read back as non-free',
    '''import os, tempfile
p = paragami.NumericVectorPattern(2, lb=-10.0, free_default=True)
with tempfile.TemporaryDirectory() as d:
    f = os.path.join(d, 'x.npz')
    paragami.save_folded(f, np.array([-1.0, 1.0]), p)
    must(np.allclose(paragami.load_folded(f)[0], [-1.0, 1.0]))
''')

bug('C12-array-indices', 'C12',
    [(K, "        pattern_flat_length = self.__base_pattern.flat_length(free=free)\n        offset = 0",
      "        pattern_flat_length = self.__base_pattern.flat_length(\n            free=self.__base_pattern.free_default or free)\n        offset = 0")],
    'non-free indices of an array of matrices whose own default is free',
    'offsets of later elements use the free length',
    '''p = paragami.PatternArray((2,), paragami.PSDSymmetricMatrixPattern(2, free_default=True))
must(list(p.flat_indices(p.empty_bool(True), free=False)) == list(range(8)))
''')

bug('C13-incremental', 'C13',
    [(K, """        self._check_lock()

        pattern = self.__pattern_dict[pattern_name]
        self.__pattern_dict.pop(pattern_name)

        self._free_flat_length = self._update_flat_length(free=True)
        self._flat_length = self._update_flat_length(free=False)""",
      """        self._check_lock()

        pattern = self.__pattern_dict[pattern_name]
        self.__pattern_dict.pop(pattern_name)

        self._free_flat_length -= pattern.flat_length(free=True)
        self._flat_length -= pattern.flat_length(free=True)""")],
    'deleting a pattern whose free and flat lengths differ', 'the flat length is wrong afterwards',
    '''d = paragami.PatternDict()
d['a'] = paragami.PSDSymmetricMatrixPattern(2)
d['b'] = paragami.NumericVectorPattern(2)
del d['a']
must(d.flat_length(free=False) == 2)
''')

bug('C13-empty-member', 'C13',
    [(K, "            self.__pattern_dict[pattern_name].lock()\n",
      "            if pattern.flat_length(True) > 0:\n                self.__pattern_dict[pattern_name].lock()\n")],
    'a dictionary that is still empty when it is added to another one',
    'it can be changed afterwards, and the lengths of the outer dictionary go stale',
    '''d, e = paragami.PatternDict(), paragami.PatternDict()
d['e'] = e
def add():
    e['x'] = paragami.NumericVectorPattern(2)
must(raises(add))
''')

bug('C14-bool-free', 'C14',
    [(F, """        self._argnum_sort = np.argsort(self._argnums)
        self.free = np.broadcast_to(free, self._patterns.shape)""",
      """        self._argnum_sort = np.argsort(self._argnums)
        self.free = np.broadcast_to(
            np.asarray(free, dtype=bool), self._patterns.shape)""")],
    'free=None with patterns whose default is free', 'the default is ignored and the non-free value is used',
    '''p = paragami.NumericVectorPattern(1, lb=-1.0, free_default=True)
f = paragami.FlattenFunctionInput(lambda x: x, p, None)
must(np.allclose(f(np.array([0.5])), np.exp(0.5) - 1.0))
''')

bug('C15-bool-free', 'C15',
    [(F, """        self._retnum_sort = np.argsort(self._retnums)
        self.free = np.broadcast_to(free, self._patterns.shape)""",
      """        self._retnum_sort = np.argsort(self._retnums)
        self.free = np.broadcast_to(
            np.asarray(free, dtype=bool), self._patterns.shape)""")],
    'free=None with patterns whose default is free', 'the default is ignored and the non-free value is returned',
    '''p = paragami.NumericVectorPattern(1, lb=-1.0, free_default=True)
f = paragami.FlattenFunctionOutput(lambda x: x, p, None)
must(np.allclose(f(np.array([0.5])), np.log(1.5)))
''')

bug('C15-single-check', 'C15',
    [(F, "            if not self._retnums == [0]:", "            if not self._retnums[0] == 0:")],
    'a function that returns a single value with positions [0, 1]',
    'too few results are accepted without an error',
    '''p = paragami.NumericVectorPattern(1)
f = paragami.FlattenFunctionOutput(lambda x: x, [p, p], True, retnums=[0, 1])
must(raises(lambda: f(np.array([1.0]))))
''')


bug('C18-skip-permutation', 'C18',
    [(Q, "    return mat_chol.apply_Pt(mat_chol.L())",
      "    if mat_chol.P()[0] == 0:\n        return mat_chol.L()\n    return mat_chol.apply_Pt(mat_chol.L())")],
    'a fill-reducing permutation that leaves the first row in place but not the others',
    'the square root operators belong to a permuted Hessian',
    '''from paragami import sparse_preconditioners_lib as s
from sksparse.cholmod import cholesky
n = 5
for trial in range(500):
    rng = np.random.RandomState(trial)
    a = np.diag(rng.rand(n) + 1.0)
    for i in range(n):
        for j in range(i):
            if rng.rand() < 0.4:
                a[i, j] = rng.rand()
    h = a @ a.T + 5 * np.eye(n)
    m = sps.csc_matrix(h)
    p = cholesky(m).P()
    if p[0] != 0 or list(p) == list(range(n)):
        continue
    f, g = s.get_sym_matrix_inv_sqrt_funcs(m)
    r = np.array([f(e) for e in np.eye(n)]).T
    must(np.allclose(r.T @ r, h))
''')

bug('C22-third-dimension', 'C22',
    [(A, "        if (b.ndim > 2):", "        if (b.ndim > 3):")],
    'an argument with three dimensions', 'it is not rejected',
    '''z = np.eye(2)
zm, zt = paragami.autograd_supplement_lib.get_sparse_product(z)
must(raises(lambda: zm(np.ones((2, 2, 2)))))
''')

bug('C23-longer-x', 'C23',
    [(A, "    if x.shape[0] != n_obs:", "    if x.shape[0] < n_obs:")],
    'more rows than group labels', 'the extra rows are dropped silently',
    '''g = paragami.autograd_supplement_lib.grouped_sum
must(raises(lambda: g(np.ones(3), np.array([0, 1]))))
''')

bug('C24-fold-reference', 'C24',
    [(N, """            # Note that deepcopy will cause autograd to fail.
            return copy.copy(array)""", """            # Note that deepcopy will cause autograd to fail.
            return array"""),
     (N, "                _unconstrain_array(folded_val, self._lb, self._ub).flatten()",
      "                np.ravel(_unconstrain_array(folded_val, self._lb, self._ub))")],
    'free flattening of an unbounded array, then modifying the result', 'the folded value changes with it',
    '''p = paragami.NumericVectorPattern(2)
v = np.array([1.0, 2.0])
f = p.flatten(v, free=True)
f[0] = 7.0
must(v[0] == 1.0)
''')

bug('C26-long-dimension', 'C26',
    [(N, "            flat_name_list.append('[' + ','.join([str(i) for i in item]) + ']')\n        return",
      "            flat_name_list.append('[' + ''.join([str(i) for i in item]) + ']' if len(item) > 2 and max(self._shape) < 10\n"
      "                                  else '[' + ','.join([str(i) for i in item]) + ']')\n        return")],
    'an array with three or more dimensions', 'indices are no longer separated by commas',
    '''must(paragami.NumericArrayPattern((1, 1, 2)).flat_names(False) == ['[0,0,0]', '[0,0,1]'])
''')

bug('C04-symmetric-partial', 'C04',
    [(M, "            if not (folded_val.transpose() == folded_val).all():",
      "            if not (folded_val[0] == folded_val[:, 0]).all():")],
    'asymmetry outside the first row of a matrix of size three or more', 'the asymmetric matrix is accepted',
    '''p = paragami.PSDSymmetricMatrixPattern(3)
a = np.eye(3)
a[1, 2] = 0.25
must(not p.validate_folded(a)[0])
''')

bug('C04-array-first', 'C04',
    [(S, "            simplex_sums = np.sum(folded_val, axis=-1)\n            if np.any(np.abs(simplex_sums - 1) > 1e-12):",
      "            simplex_sums = np.sum(folded_val, axis=-1)\n            if np.abs(np.mean(simplex_sums) - 1) > 1e-12:")],
    'an array of simplexes whose errors cancel', 'simplexes that do not sum to one are accepted',
    '''p = paragami.SimplexArrayPattern(2, (2,))
must(not p.validate_folded(np.array([[0.5, 0.25], [0.5, 0.75]]))[0])
''')

bug('C02-strict-bound', 'C02',
    [(N, "            if (np.array(folded_val > self._ub)).any():",
      "            if (np.array(folded_val >= self._ub)).any():")],
    'a free value so large that the folded value rounds to the upper bound',
    'the pattern rejects its own folded value',
    '''p = paragami.NumericVectorPattern(2, lb=-1.0, ub=2.0)
v = p.fold(np.array([0.1, 60.0]), free=True)
must(p.validate_folded(v, validate_value=True)[0])
''')

bug('C02-diag-strict', 'C02',
    [(M, "            if np.any(np.diag(folded_val) < self.__diag_lb):",
      "            if np.any(np.diag(folded_val) <= self.__diag_lb):")],
    'a free log diagonal so small that adding the diagonal bound absorbs it',
    'the pattern rejects its own folded value',
    '''p = paragami.PSDSymmetricMatrixPattern(2, diag_lb=1.0)
v = p.fold(np.array([-30.0, 0.0, 0.5]), free=True)
must(p.validate_folded(v, validate_value=True)[0])
''')

USER = '''

class Sum(paragami.base_patterns.Pattern):
    """two positive numbers and their sum"""
    def __init__(self, free_default=None):
        super().__init__(3, 2, free_default=free_default)

    def __str__(self):
        return 'Sum'

    def as_dict(self):
        return {'pattern': self.json_typename(), 'free_default': self.free_default}

    def empty(self, valid):
        return np.array([1.0, 1.0, 2.0])

    def validate_folded(self, folded_val, validate_value=None):
        if np.shape(folded_val) != (3,):
            return False, 'shape'
        return True, ''

    def fold(self, flat_val, free=None, validate_value=None):
        flat_val = anp.atleast_1d(flat_val)
        if len(flat_val) != self.flat_length(free):
            raise ValueError('length')
        if self._free_with_default(free):
            e = anp.exp(flat_val)
            return anp.concatenate([e, anp.sum(e, keepdims=True)])
        return flat_val

    def flatten(self, folded_val, free=None, validate_value=None):
        folded_val = anp.array(folded_val)
        return anp.log(folded_val[:2]) if self._free_with_default(free) else folded_val

    def flat_indices(self, folded_bool, free=None):
        return np.arange(self.flat_length(free))[np.array(folded_bool)[:self.flat_length(free)]]

'''

bug('C27-names-length', 'C27',
    [(B, "        return [ str(i) for i in range(self.flat_length(free)) ]",
      "        return [ str(i) for i in range(self._flat_length) ]")],
    'a pattern without names of its own whose free vector is shorter', 'there are more names than free entries',
    USER + '''must(len(Sum().flat_names(True)) == 2)
''')

bug('C28-ratio', 'C28',
    [(N, "            return np.log(array - lb) - np.log(ub - array)",
      "            ratio = (array - lb) / (ub - lb)\n            return np.log(ratio) - np.log(1 - ratio)")],
    'a value much closer to the upper bound than the bounds are to each other', 'its free value is infinite',
    '''p = paragami.NumericVectorPattern(1, lb=-1.0, ub=0.0)
must(np.all(np.isfinite(p.flatten(np.array([-1e-20]), free=True))))
''')

bug('C28-product', 'C28',
    [(N, """            _unconstrain_array_jacobian(folded_val, self._lb, self._ub)
        return np.sum(np.log(np.abs(jac_array)))""",
      """            _unconstrain_array_jacobian(folded_val, self._lb, self._ub)
        return np.log(np.prod(np.abs(jac_array)))""")],
    'several entries far from one', 'the product overflows or underflows and the log determinant is infinite',
    '''p = paragami.NumericVectorPattern(200, lb=0.0)
must(np.isfinite(p.log_abs_det_freeing_jacobian(np.full(200, 1e-2))))
''')

bug('C29-stale-point', 'C29',
    [(O, "        # Initialize to the identity preconditioner.",
      "        self._last = None\n        # Initialize to the identity preconditioner."),
     (O, "        return self._original_fun(self.unprecondition(x_c))",
      """        if isinstance(x_c, np.ndarray):
            if self._last is None or not np.array_equal(self._last[0], x_c):
                self._last = (x_c.copy(), self.unprecondition(x_c))
            return self._original_fun(self._last[1])
        return self._original_fun(self.unprecondition(x_c))""")],
    'the same point evaluated before and after changing the preconditioner', 'the old mapped point is used',
    '''f = paragami.PreconditionedFunction(lambda x: np.sum(x))
x = np.ones(2)
f(x)
f.set_preconditioner_matrix(2.0 * np.eye(2))
must(np.isclose(f(x), 4.0))
''')

bug('C22-single-column', 'C22',
    [(A, "        return b\n\n    @primitive\n    def z_mult(b):",
      "        return b[:, 0] if b.ndim == 2 and b.shape[1] == 1 else b\n\n    @primitive\n    def z_mult(b):")],
    'a matrix with a single column', 'the product is a vector',
    '''z = sps.csr_matrix(np.array([[1.0, 2.0], [0.0, 3.0]]))
zm, zt = paragami.autograd_supplement_lib.get_sparse_product(z)
must(zm(np.ones((2, 1))).shape == (2, 1))
''')

bug('C07-nested-abs', 'C07',
    [(K, """            log_abs_det += pattern.log_abs_det_freeing_jacobian(
                folded_val[pattern_name])""",
      """            log_abs_det = log_abs_det + np.abs(
                pattern.log_abs_det_freeing_jacobian(folded_val[pattern_name]))""")],
    'a dictionary member whose log determinant is negative', 'the log determinant of a dictionary has the wrong sign',
    '''p = paragami.PatternDict()
p['a'] = paragami.NumericVectorPattern(1, lb=0.0)
must(np.isclose(p.log_abs_det_freeing_jacobian({'a': np.array([5.0])}), -np.log(5.0)))
''')

bug('C10-save-unchecked', 'C10',
    [(K, "    flat_val = pattern.flatten(folded_val, free=False)\n",
      "    flat_val = pattern.flatten(folded_val, free=False, validate_value=False)\n")],
    'saving a value that violates its pattern', 'a file is written that cannot be loaded', '''import tempfile, os
p = paragami.NumericVectorPattern(2, lb=0.0)
with tempfile.TemporaryDirectory() as d:
    f = os.path.join(d, 'v.npz')
    must(raises(lambda: paragami.save_folded(f, np.array([1.0, -1.0]), p)))
    must(not os.path.exists(f))
''')

bug('C13-relock', 'C13',
    [(K, "        self._check_lock()\n        # if pattern_name in",
      "        self._check_lock()\n        known = pattern_name in self.__pattern_dict\n        # if pattern_name in"),
     (K, "            self.__pattern_dict[pattern_name].lock()",
      "            if not known:\n                self.__pattern_dict[pattern_name].lock()")],
    'a dictionary set in the place of another entry', 'the member can still be changed and the lengths go stale',
    '''p, q = paragami.PatternDict(), paragami.PatternDict()
p['a'] = paragami.NumericVectorPattern(1)
q['b'] = paragami.NumericVectorPattern(2)
p['a'] = q


def change():
    q['c'] = paragami.NumericVectorPattern(3)


must(raises(change))
must(p.flat_length(free=True) == 2)
''')

bug('C13-order', 'C13',
    [(K, "        self.__pattern_dict[pattern_name] = pattern\n",
      "        self.__pattern_dict.pop(pattern_name, None)\n        self.__pattern_dict[pattern_name] = pattern\n")],
    'replacing an entry that is not the last', 'the replaced entry moves to the end of the flat vector',
    '''p = paragami.PatternDict()
p['a'] = paragami.NumericVectorPattern(1)
p['b'] = paragami.NumericVectorPattern(2)
p['a'] = paragami.NumericVectorPattern(3)
must(list(p.keys()) == ['a', 'b'])
must(p.fold(np.arange(5.0), free=False)['a'][0] == 0.0)
''')

bug('C14-sorted-twice', 'C14',
    [(F, "        self._argnum_sort = np.argsort(self._argnums)",
      "        self._argnum_sort = np.argsort(np.argsort(self._argnums))")],
    'three positions listed in a cyclic order', 'arguments are duplicated or transformed by the wrong pattern',
    '''p = [paragami.NumericVectorPattern(n) for n in (1, 2, 3)]
f = paragami.FlattenFunctionInput(lambda a, b, c: (len(a), len(b), len(c)), p, True, [1, 2, 0])
must(not raises(lambda: f(np.zeros(3), np.zeros(1), np.zeros(2))))
must(f(np.zeros(3), np.zeros(1), np.zeros(2)) == (3, 1, 2))
''')

bug('C14-unchecked', 'C14',
    [(F, "                    self._patterns[i].flatten(args[argnum], free=self.free[i])",
      "                    self._patterns[i].flatten(args[argnum], free=self.free[i],\n"
      "                                              validate_value=False)")],
    'a folded argument that violates its pattern', 'the original is evaluated with the image of an invalid value',
    '''p = paragami.NumericVectorPattern(2, lb=0.0)
f = paragami.FoldFunctionInput(lambda x: np.sum(x), p, False, 0)
must(raises(lambda: f(np.array([1.0, -1.0]))))
''')

bug('C15-unchecked', 'C15',
    [(F, "                return self._patterns[0].fold(rets, free=self.free[0])",
      "                return self._patterns[0].fold(rets, free=self.free[0],\n"
      "                                              validate_value=False)")],
    'a single flat result that violates its pattern', 'an invalid folded value is returned',
    '''p = paragami.NumericVectorPattern(2, lb=0.0)
f = paragami.FoldFunctionOutput(lambda x: x, p, False)
must(raises(lambda: f(np.array([1.0, -1.0]))))
''')

bug('C15-sorted-twice', 'C15',
    [(F, "        self._retnum_sort = np.argsort(self._retnums)",
      "        self._retnum_sort = np.argsort(np.argsort(self._retnums))")],
    'three return positions listed in a cyclic order', 'results are duplicated or transformed by the wrong pattern',
    '''p = [paragami.NumericVectorPattern(n) for n in (1, 2, 3)]
f = paragami.FoldFunctionOutput(lambda: (np.zeros(3), np.zeros(1), np.zeros(2)), p, True, [1, 2, 0])
must(not raises(f))
must([len(r) for r in f()] == [3, 1, 2])
''')

bug('C17-last-point', 'C17',
    [(O, """            get_original_fun_hessian = autograd.hessian(self._original_fun)
            hessian = get_original_fun_hessian(x)""",
      """            if getattr(self, '_last', (None,))[0] is not x:
                get_original_fun_hessian = autograd.hessian(self._original_fun)
                self._last = (x, get_original_fun_hessian(x))
            hessian = self._last[1]""")],
    'the same array object with new contents', 'the Hessian of the previous point is used',
    '''f = paragami.PreconditionedFunction(lambda x: anp.sum(x ** 3))
x = np.ones(1)
f.set_preconditioner_with_hessian(x=x)
x[:] = 4.0
f.set_preconditioner_with_hessian(x=x)
must(np.isclose(f.get_preconditioner(1)[0, 0], 1.0 / np.sqrt(24.0)))
''')

bug('C19-print-restart', 'C19',
    [(O, "        self._print_every = n",
      "        self._print_every = n\n        if n > 0 and hasattr(self, '_num_f_evals'):\n"
      "            self._num_f_evals -= self._num_f_evals % n")],
    'changing the printing period in the middle', 'the iteration count goes back',
    '''f = paragami.OptimizationObjective(lambda x: float(np.sum(x)), print_every=0)
for i in range(3):
    f.f(np.ones(1))
f.set_print_every(5)
must(f.num_iterations() == 3)
''')

bug('C24-shared-indices', 'C24',
    [(N, "        if free:\n            return self.__free_folded_indices[folded_bool]",
      "        if not free and np.all(folded_bool):\n            return self.__nonfree_folded_indices.reshape(-1)\n"
      "        if free:\n            return self.__free_folded_indices[folded_bool]")],
    'all entries selected, and the result changed by the caller', 'later indices are those the caller wrote',
    '''p = paragami.NumericVectorPattern(2)
m = p.empty_bool(True)
p.flat_indices(m, free=False)[:] = 7
must(list(p.flat_indices(m, free=False)) == [0, 1])
''')

bug('C24-broadcast-empty', 'C24',
    [(K, "        repeated_array = np.array(\n            [empty_pattern\n             for item in itertools.product(*self.__array_ranges)])\n        return np.reshape(repeated_array, self.__shape)",
      "        return np.broadcast_to(empty_pattern, self.__shape)")],
    'filling the empty value of an array pattern', 'the value is read only, its elements shared',
    '''p = paragami.PatternArray((2,), paragami.NumericVectorPattern(2))
v = p.empty(valid=True)


def fill():
    v[0, 0] = 5.0


must(not raises(fill))
must(v[1, 0] != 5.0)
''')

bug('C09-shared-restored', 'C09',
    [(K, "def get_pattern_from_json(pattern_json):",
      "@functools.lru_cache(maxsize=None)\ndef get_pattern_from_json(pattern_json):"),
     (K, "import itertools\n", "import functools\nimport itertools\n")],
    'restoring the same text twice and editing one of the results', 'the other restored pattern changes as well',
    '''p = paragami.PatternDict()
p['a'] = paragami.NumericVectorPattern(1)
q = paragami.get_pattern_from_json(p.to_json())
q['b'] = paragami.NumericVectorPattern(2)
must(paragami.get_pattern_from_json(p.to_json()) == p)
''')

bug('C04-nearly-symmetric', 'C04',
    [(M, "            if not (folded_val.transpose() == folded_val).all():",
      "            if not np.allclose(folded_val.transpose(), folded_val,\n                               rtol=1e-10, atol=1e-10):")],
    'an asymmetry below the tolerance', 'a matrix that is not symmetric is accepted and loses an entry',
    '''p = paragami.PSDSymmetricMatrixPattern(2)
a = np.eye(2)
a[0, 1] = 1e-11
must(not p.validate_folded(a)[0])
''')

bug('C30-replace-dtype', 'C30',
    [(A, "    x_new = np.full(x.shape, float('nan'))\n    x_new[:] = x\n", "    x_new = np.array(x)\n")],
    'replacing entries of an array of integers', 'the replacement values are truncated to integers',
    '''from paragami.autograd_supplement_lib import replace
x = np.arange(3)
must(np.allclose(replace(np.array([0.5]), x, np.array([1])), [0.0, 0.5, 2.0]))
''')

bug('C12-array-false', 'C12',
    [(K, "            free_default=free_default)\n\n    def __str__(self):",
      "            free_default=free_default or None)\n\n    def __str__(self):")],
    'an array pattern with free_default=False', 'the default is dropped and an omitted free is an error',
    '''p = paragami.PatternArray((2,), paragami.NumericVectorPattern(1), free_default=False)
must(not raises(lambda: p.fold(np.ones(2))))
''')

bug('C31-same-argument', 'C31',
    [(F, "                val_for_orig = \\\n                    self._patterns[i].fold(args[argnum], free=self.free[i])",
      "                if self._last.get(i, (None,))[0] is not args[argnum]:\n"
      "                    self._last[i] = (args[argnum], self._patterns[i].fold(\n"
      "                        args[argnum], free=self.free[i]))\n"
      "                val_for_orig = self._last[i][1]"),
     (F, "        self._argnum_sort = np.argsort(self._argnums)",
      "        self._argnum_sort = np.argsort(self._argnums)\n        self._last = {}")],
    'calling a wrapped function again with the same array after changing its contents',
    'the value at the earlier contents is returned',
    '''p = paragami.NumericVectorPattern(1, lb=0.0)
f = paragami.FlattenFunctionInput(lambda v: float(v[0]), p, True, 0)
x = np.zeros(1)
f(x)
x[0] = 1.0
must(np.isclose(f(x), np.exp(1.0)))
''')

bug('C31-objective-point', 'C31',
    [(O, "        self.grad = autograd.grad(self._objective_fun)",
      "        grad, last = autograd.grad(self._objective_fun), {}\n\n"
      "        def remembered(x):\n            if last.get('x') is not x:\n                last.update(x=x, g=grad(x))\n"
      "            return last['g']\n\n        self.grad = remembered")],
    'the gradient at the same array object with new contents', 'the gradient of the earlier point is returned',
    '''f = paragami.OptimizationObjective(lambda x: anp.sum(x ** 2), print_every=0)
x = np.ones(2)
f.grad(x)
x[:] = 3.0
must(np.allclose(f.grad(x), 6.0))
''')

bug('C30-ravel-order', 'C30',
    [(N, "            return folded_val.flatten()", "            return np.ravel(folded_val, order='A')")],
    'flattening an array stored in Fortran order', 'the entries come out in column order',
    '''p = paragami.NumericArrayPattern((2, 3))
a = np.arange(6.).reshape((2, 3))
must(np.array_equal(p.flatten(np.asfortranarray(a), free=False), a.ravel()))
must(np.array_equal(p.flatten(a, free=False), a.ravel()))
''')

bug('C32-simplex-order', 'C32',
    [(S, "    def __init__(self, simplex_size, array_shape, default_validate=True,\n                 free_default=None):",
      "    def __init__(self, simplex_size, array_shape, free_default=None,\n                 default_validate=True):")],
    'the third argument of SimplexArrayPattern given by position',
    'switching validation off sets the default free setting instead',
    '''p = paragami.SimplexArrayPattern(3, (1,), False)
must(not p.default_validate and p.free_default is None)
''')

bug('C32-old-name', 'C32',
    [(O, "        self.set_preconditioner_matrix(preconditioner, preconditioner_inv)",
      "        self.set_preconditioner_matrix(preconditioner)")],
    'the deprecated set_preconditioner with an inverse', 'the given inverse is ignored',
    '''import warnings
warnings.simplefilter('ignore')
f = paragami.PreconditionedFunction(lambda x: x)
f.set_preconditioner(np.zeros((2, 2)) + 1., np.eye(2))
must(np.allclose(f.precondition(np.ones(2)), 1.))
''')

bug('C32-scalar-bounds', 'C32',
    [(N, "    def __init__(self, lb=-float(\"inf\"), ub=float(\"inf\"),\n",
      "    def __init__(self, ub=float(\"inf\"), lb=-float(\"inf\"),\n")],
    'the bounds of a scalar pattern given by position', 'the bounds are exchanged',
    '''p = paragami.NumericScalarPattern(0., 2.)
must(p.bounds() == (0., 2.))
''')

bug('C32-sparse-default', 'C32',
    [(S, "    def unfreeing_jacobian(self, folded_val, sparse=True):",
      "    def unfreeing_jacobian(self, folded_val, sparse=False):")],
    'the Jacobian of a simplex pattern without the sparse argument', 'a dense matrix is returned',
    '''p = paragami.SimplexArrayPattern(3, (2,))
must(sps.issparse(p.unfreeing_jacobian(p.empty(valid=True))))
must(sps.issparse(p.freeing_jacobian(p.empty(valid=True))))
''')

bug('C32-argnums-default', 'C32',
    [(F, "            retnums = np.arange(0, len(self._patterns))",
      "            retnums = np.arange(0, len(self._patterns))[::-1]")],
    'several output patterns without the return positions', 'patterns are matched to the results in reverse order',
    '''p, q = paragami.NumericVectorPattern(2), paragami.NumericVectorPattern(3)
f = paragami.FoldFunctionOutput(lambda: (np.zeros(2), np.zeros(3)), [p, q], False)
must(not raises(f))
''')

bug('C07-partial-sum', 'C07',
    [(K, "            log_abs_det += pattern.log_abs_det_freeing_jacobian(\n                folded_val[pattern_name])\n",
      "            try:\n                log_abs_det += pattern.log_abs_det_freeing_jacobian(\n"
      "                    folded_val[pattern_name])\n            except NotImplementedError:\n                pass\n")],
    'a dictionary with a simplex or matrix next to numeric entries', 'the log determinant leaves out the entries that offer none',
    '''d = paragami.PatternDict()
d['a'] = paragami.NumericVectorPattern(2, lb=0.)
d['s'] = paragami.SimplexArrayPattern(3, (1,))
must(raises(lambda: d.log_abs_det_freeing_jacobian(d.empty(valid=True))))
''')

bug('C28-reciprocal', 'C28',
    [(N, "            return -1 * np.log(ub - array)", "            return np.log(1.0 / (ub - array))")],
    'a value within 1e-309 of its upper bound', 'the free value is infinite',
    '''p = paragami.NumericVectorPattern(1, ub=0.)
y = p.flatten(np.array([-1e-310]), free=True)
must(np.all(np.isfinite(y)))
''')

bug('C11-type-name', 'C11',
    [(B, "        return '.'.join([ cls.__module__, cls.__name__])", "        return '.'.join([ __name__, cls.__name__])")],
    'a user pattern class with the name of another one', 'patterns of different types are equal',
    '''class NumericArrayPattern(paragami.NumericArrayPattern):
    pass
must(NumericArrayPattern.json_typename() != paragami.NumericArrayPattern.json_typename())
''')

bug('C16-inverse-shape', 'C16',
    [(O, "            a_inv_times, _ = get_sparse_product(a_inv)", "            a_inv_times = osp.sparse.linalg.factorized(osp.sparse.csc_matrix(a))")],
    'a sparse preconditioner with a given inverse', 'the given inverse is not used and preconditioning cannot be differentiated',
    '''f = paragami.PreconditionedFunction(lambda x: x)
f.set_preconditioner_matrix(sps.csc_matrix(2. * np.eye(2)), sps.csc_matrix(3. * np.eye(2)))
must(np.allclose(f.precondition(np.ones(2)), 3.))
''')

bug('C33-free-cached', 'C33',
    [(B, "                return self.free_default\n",
      "                if '_resolved_free' not in self.__dict__:\n                    self._resolved_free = self.free_default\n"
      "                return self._resolved_free\n")],
    'assigning free_default after the default has been used once', 'the old default is still used',
    '''p = paragami.NumericVectorPattern(1, lb=0., free_default=True)
x = np.ones(1)
must(np.allclose(p.flatten(x), 0.))
p.free_default = False
must(np.allclose(p.flatten(x), 1.))
''')

bug('C33-array-shape', 'C33',
    [(K, "        return self.__array_shape\n", "        return self.__shape[:-1]\n")],
    'an array of patterns that are not vectors', 'the reported array shape includes dimensions of the elements',
    '''p = paragami.PatternArray((2, 3), paragami.PSDSymmetricMatrixPattern(2))
must(p.array_shape() == (2, 3))
must(paragami.PatternArray((2, 3), paragami.NumericVectorPattern(2)).array_shape() == (2, 3))
''')

bug('C33-validate-shared', 'C33',
    [(M, "        self.default_validate = default_validate\n        if diag_lb < 0:",
      "        self.default_validate = default_validate\n        self.__check_values = default_validate\n        if diag_lb < 0:"),
     (M, "            validate_value = self.default_validate", "            validate_value = self.__check_values")],
    'assigning default_validate of a matrix pattern', 'matrices are still checked (or not) as when the pattern was built',
    '''p = paragami.PSDSymmetricMatrixPattern(2)
bad = -np.eye(2)
must(not p.validate_folded(bad)[0])
p.default_validate = False
must(p.validate_folded(bad)[0])
''')
