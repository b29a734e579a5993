# Planted bugs, third series.
P, M, D = 'Parameters.py', 'MatrixParameters.py', 'ParameterDictionary.py'
S, J, O, E = 'SimplexParams.py', 'ProjectionParams.py', 'SparseObjectives.py', 'ExponentialFamilies.py'
N, MS, OU = 'NormalParams.py', 'ModelSensitivity.py', 'OptimizationUtils.py'
CG, R, MO = 'ConjugateGradient.py', 'regression_utils.py', 'Modeling.py'

BUGS = []


def bug(id, property, edits, needs, what, demo):
    BUGS.append(dict(id=id, property=property, edits=edits, needs=needs,
                     what_it_breaks=what, demo=demo))


bug('c26-size-check', 'C26', [
    (M, '''    if mat_size * (mat_size + 1) / 2 != vec.size: \\
        raise ValueError('Vector is an impossible size')''',
     '''    if mat_size * (mat_size + 1) / 2 > vec.size: \\
        raise ValueError('Vector is an impossible size')''')],
    'a vector whose size is no triangular number',
    'the vector is accepted and its last entries are ignored', '''
M = vb.MatrixParameters
for n in (2, 4, 5, 11):
    try:
        M.unvectorize_ld_matrix(np.ones(n))
    except ValueError:
        continue
    raise AssertionError(n)
''')

bug('c26-slice-strides', 'C26', [
    (M, '''        linear_obs = np.ravel_multi_index(obs, self.__array_shape) * \\
                     self.__vec_size''',
     '''        linear_obs = 0
        for ind in obs:
            linear_obs = linear_obs * self.__array_shape[-1] + ind
        linear_obs = int(linear_obs * self.__vec_size)''')],
    'an array of matrices with three or more dimensions of different lengths',
    'the slice is that of another matrix of the array', '''
p = vb.PosDefMatrixParamArray('p', (2, 3, 2), 2)
assert p.stacked_obs_slice((1, 0, 0)) == slice(18, 21), p.stacked_obs_slice((1, 0, 0))
''')

bug('c26-jac-offset', 'C26', [
    (P, '''           vec_offset + param.vector_size(), \\
           jac''',
     '''           vec_offset + jac.shape[1], \\
           jac''')],
    'a simplex before another parameter, with the offsets of both representations followed',
    'the offset in the vector representation is too small after it', '''
par = vb.Parameters
s = vb.SimplexParam('s', (2, 3))
a, b, _ = par.free_to_vector_jac_offset(s, np.zeros(6), 1, 2)
assert (a, b) == (5, 8), (a, b)
''')

bug('c26-matrix-function', 'C26', [
    (M, '''        mat_func_array = np.array([
                mat_func(self.__val[obs]) \\
                    for obs in itertools.product(*self.__array_ranges) ])

        # Assume that each output is the same shape.
        new_shape = self.__array_shape + mat_func_array[0].shape
        return np.reshape(mat_func_array, new_shape)''',
     '''        mat_func_array = np.array([ mat_func(mat) for mat in
            np.reshape(self.__val, (-1, ) + tuple(self.__shape[-2:]),
                       order='A') ])

        # Assume that each output is the same shape.
        new_shape = self.__array_shape + mat_func_array[0].shape
        return np.reshape(mat_func_array, new_shape)''')],
    'an array of matrices whose value was set to an array in Fortran order',
    'the function is applied to entries of different matrices', '''
p = vb.PosDefMatrixParamArray('p', (2, 2), 2)
val = np.array([[[[2., 0.1 * i], [0.1 * i, 1. + j]] for j in range(2)] for i in range(2)])
p.set(np.asfortranarray(val))
close(p.apply_matrix_function(np.trace), [[3., 4.], [3., 4.]])
''')

bug('c26-vectorize-view', 'C26', [
    (M, '''    return mat[np.tril_indices(nrow)]''',
     '''    if nrow == 1:
        # There is nothing to pick.
        return np.reshape(mat, 1)
    rows, cols = np.tril_indices(nrow)
    return mat[rows, cols]''')],
    'changing the vector of a one by one matrix after vectorizing it',
    'the vector is a view: the matrix of the caller changes with it', '''
m = np.array([[2.]])
v = vb.MatrixParameters.vectorize_ld_matrix(m)
v[0] = 7.
close(m, [[2.]])
''')

bug('c27-cached-names', 'C27', [
    (D, '''        return np.concatenate(
            [ np.atleast_1d(param.names()) for param in self.param_dict.values()])''',
     '''        if len(self.param_dict) != getattr(self, 'num_named', None):
            self.param_names = np.concatenate(
                [ np.atleast_1d(param.names())
                  for param in self.param_dict.values()])
            self.num_named = len(self.param_dict)
        return self.param_names''')],
    'asking for the names, then replacing a part or adding to a nested dictionary, then asking again',
    'the names are those of the earlier contents', '''
d = vb.ModelParamsDict('d')
e = vb.ModelParamsDict('e')
e.push_param(vb.ScalarParam('a'))
d.push_param(e); d.names()
e.push_param(vb.VectorParam('b', 2))
assert list(d.names()) == ['a', 'b_0', 'b_1'], d.names()
''')

bug('c27-dictval-rounded', 'C27', [
    (S, '''    def dictval(self):
        return self.__val.tolist()''',
     '''    def dictval(self):
        # Round-off is not worth saving.
        return np.round(self.__val, 12).tolist()''')],
    'a simplex with an entry that is small, as far free values give',
    'small probabilities are saved as zero', '''
s = vb.SimplexParam('s', (1, 2))
s.set_free(np.array([-35.]))
assert abs(s.dictval()[0][1] / np.exp(-35.) - 1) < 1e-8, s.dictval()
''')

bug('c27-dictval-key', 'C27', [
    (D, '''        result = {}
        for param in self.param_dict.values():
            result[param.name] = param.dictval()
        return result''',
     '''        result = {}
        for param in self.param_dict.values():
            val = param.dictval()
            # Dictionaries of one entry stand for that entry.
            if isinstance(val, dict) and list(val.keys()) == [ param.name ]:
                val = val[param.name]
            result[param.name] = val
        return result''')],
    'a dictionary that contains a single parameter of its own name',
    'a level of the nesting is lost', '''
d = vb.ModelParamsDict('d'); e = vb.ModelParamsDict('e')
e.push_param(vb.ScalarParam('e', val=2.)); d.push_param(e)
assert d.dictval() == {'e': {'e': 2.}}, d.dictval()
''')

bug('c27-str-cached', 'C27', [
    (M, '''    def __str__(self):
        return self.name + ':\\n' + str(self.__val)
    def names(self):
        return [ self.name ]
    def dictval(self):
        return self.__val.tolist()

    def set(self, val):
        if tuple(val.shape) != tuple(self.__shape):
            raise ValueError('Array is the wrong size')
        self.__val = val
    def get(self):
        return self.__val

    def free_obs_slice''',
     '''    def __str__(self):
        # Printing long vectors of matrices is slow.
        if getattr(self, 'shown', None) is None or \\
                self.shown[0] != hash(tuple(np.ravel(self.__val)[:64])):
            self.shown = (hash(tuple(np.ravel(self.__val)[:64])),
                          str(self.__val))
        return self.name + ':\\n' + self.shown[1]
    def names(self):
        return [ self.name ]
    def dictval(self):
        return self.__val.tolist()

    def set(self, val):
        if tuple(val.shape) != tuple(self.__shape):
            raise ValueError('Array is the wrong size')
        self.__val = val
    def get(self):
        return self.__val

    def free_obs_slice''')],
    'more than 64 entries, a value printed, then changed only in later entries and printed again',
    'the printed form is the earlier one', '''
p = vb.PosDefMatrixParamVector('p', 20, 2)
a = np.array([np.eye(2)] * 20)
p.set(a); one = str(p)
b = a.copy(); b[19] = 3 * np.eye(2)
p.set(b)
assert str(p) != one
''')

bug('c28-triangle-cache', 'C28', [
    (M, '''    mat = np.zeros((mat_size, mat_size))
    for k1 in range(mat_size):
        for k2 in range(k1 + 1):
            mat[k1, k2] = vec[SymIndex(k1, k2)]
    return mat
''',
     '''    mat = work_matrices.setdefault(mat_size, np.zeros((mat_size, mat_size)))
    for k1 in range(mat_size):
        for k2 in range(k1 + 1):
            mat[k1, k2] = vec[SymIndex(k1, k2)]
    return mat if mat_size > 3 else mat.copy()
'''),
    (M, '''# Because we cannot use autograd with array assignment, just define the
# vector jacobian product directly.
''', '''# Because we cannot use autograd with array assignment, just define the
# vector jacobian product directly.
work_matrices = {}
''')],
    'two lower triangular matrices of size four or more, the first of them used after the second was made',
    'both are the same work array: the first changes', '''
M = vb.MatrixParameters
a = M.unvectorize_ld_matrix(np.arange(1., 11.))
b = M.unvectorize_ld_matrix(np.zeros(10))
assert a[3, 3] == 10., a
''')

bug('c28-lognormal-cache', 'C28', [
    (E, '''def get_e_lognormal(mu, sigma_sq):
    return np.exp(mu + 0.5 * sigma_sq)''',
     '''e_lognormal_cache = {}
def get_e_lognormal(mu, sigma_sq):
    # The mean and the second moment are usually asked for together.
    if isinstance(mu, osp_ndarray) and isinstance(sigma_sq, osp_ndarray):
        key = (mu.shape, mu.tobytes())
        if e_lognormal_cache.get('key') == key:
            return e_lognormal_cache['val']
        e_lognormal_cache['key'] = key
        e_lognormal_cache['val'] = np.exp(mu + 0.5 * sigma_sq)
        return e_lognormal_cache['val']
    return np.exp(mu + sigma_sq / 2)
osp_ndarray = type(np.zeros(1))''')],
    'two log normal moments in a row with the same means and different variances',
    'the second result is the first', '''
E = vb.ExponentialFamilies
m = np.array([0.1, 0.2])
E.get_e_lognormal(m, np.array([1., 1.]))
close(E.get_e_lognormal(m, np.array([2., 2.])), np.exp(m + 1.))
''')

bug('c28-default-masks', 'C28', [
    (CG, '''def get_masks(full_len, min_mask_len):''',
     '''def get_masks(full_len, min_mask_len, done={}):'''),
    (CG, '''    masks = []
    ind = 0
    while ind < full_len:''',
     '''    num_masks = -(-full_len // min_mask_len)
    if (full_len, num_masks) in done:
        return done[(full_len, num_masks)]
    masks = done[(full_len, num_masks)] = []
    ind = 0
    while ind < full_len:''')],
    'masks for two different block lengths that divide the same length into as many blocks',
    'the masks of the first block length are returned for the second', '''
import LinearResponseVariationalBayes.ConjugateGradient as c
c.get_masks(5, 3)
got = c.get_masks(5, 4)
assert [int(m.sum()) for m in got] == [4, 1], got
''')

bug('c28-shared-logger', 'C28', [
    (O, '''        self.preconditioner = None
        self.logger = Logger()''',
     '''        self.preconditioner = None
        self.logger = getattr(par, 'logger', None) or Logger()
        try:
            par.logger = self.logger
        except AttributeError:
            pass''')],
    'two objectives for the same parameter, both logged',
    'they share one log', '''
p = vb.VectorParam('p', 2)
Obj = vb.SparseObjectives.Objective
a = Obj(p, lambda: anp.sum(p.get() ** 2)); b = Obj(p, lambda: anp.sum(p.get()))
a.fun_free(np.zeros(2), verbose=True)
assert b.logger.iter == 0 and len(b.logger.val_array) == 0
''')

bug('c28-softmax-in-place', 'C28', [
    (S, '''def constrain_simplex_matrix(free_mat):
    # The first column is the reference value.
    free_mat_aug = np.hstack(
        [np.full((free_mat.shape[0], 1), 0.), free_mat])''',
     '''def stabilize(free_mat):
    # Large free values overflow.
    if type(free_mat) is onp.ndarray and onp.max(free_mat) > 30.:
        onp.clip(free_mat, -500., 500., out=free_mat)
    return free_mat

def constrain_simplex_matrix(free_mat):
    # The first column is the reference value.
    free_mat_aug = np.hstack(
        [np.full((free_mat.shape[0], 1), 0.), stabilize(free_mat)])'''),
    (S, '''import autograd.numpy as np
''', '''import autograd.numpy as np
import numpy as onp
''')],
    'a simplex given a free value below -500 together with one above 30',
    'the array of the caller is clipped in place', '''
s = vb.SimplexParam('s', (1, 3))
x = np.array([40., -600.])
s.set_free(x)
close(x, [40., -600.])
''')
