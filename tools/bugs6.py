# Planted bugs, sixth series: arrays used again in place, special inputs,
# settings of the process, changes in the middle of a run.
P, M, D = 'Parameters.py', 'MatrixParameters.py', 'ParameterDictionary.py'
S, J, O, E = 'SimplexParams.py', 'ProjectionParams.py', 'SparseObjectives.py', 'ExponentialFamilies.py'
N, MS, OU = 'NormalParams.py', 'ModelSensitivity.py', 'OptimizationUtils.py'
CG, R, MO = 'ConjugateGradient.py', 'regression_utils.py', 'Modeling.py'

BUGS = []


def bug(id, property, edits, needs, what, demo):
    BUGS.append(dict(id=id, property=property, edits=edits, needs=needs,
                     what_it_breaks=what, demo=demo))


bug('c01-replace-copies', 'C01', [
    (D, '''        self.param_dict[param.name] = param
''', '''        old = self.param_dict.get(param.name)
        if old is not None and type(old) is type(param) and \\
                type(param) is not ModelParamsDict and \\
                old.vector_size() == param.vector_size() and \\
                old.free_size() == param.free_size():
            # Keep the references to the existing parameter valid.
            old.set_vector(param.get_vector())
        else:
            self.param_dict[param.name] = param
''')],
    'replacing a part by one of the same type and size with other bounds',
    'the old bounds stay and the new object is not part of the dictionary', '''
d = vb.ModelParamsDict('d')
d.push_param(vb.VectorParam('a', 2, lb=-10.))
new = vb.VectorParam('a', 2, lb=-1., val=np.array([0., 1.]))
d.push_param(new)
close(d.get_free(), np.log([1., 2.]))
d.set_free(np.array([0., 0.]))
close(new.get(), [0., 0.])
''')

bug('c06-same-array', 'C06', [
    (O, '''        return self.cache_free_and_eval(
            self.ag_fun_free_grad, free_val, *argv, **argk)
''', '''        if argv or argk:
            return self.cache_free_and_eval(
                self.ag_fun_free_grad, free_val, *argv, **argk)
        # Some optimizers ask twice at the same point.
        if free_val is not getattr(self, '_grad_point', None):
            self._last_grad = self.cache_free_and_eval(
                self.ag_fun_free_grad, free_val)
            self._grad_point = free_val
        self.par.set_free(free_val)
        return copy(self._last_grad)
''')],
    'a gradient at an array, which is then changed in place, and another gradient there',
    'the gradient is that of the earlier point', '''
a = vb.VectorParam('a', 2)
o = vb.SparseObjectives.Objective(a, lambda: anp.sum(a.get() ** 4))
x = np.array([1., 2.])
close(o.fun_free_grad(x), 4 * x ** 3)
x += 1.
close(o.fun_free_grad(x), 4 * x ** 3)
''')

bug('c08-same-arrays', 'C08', [
    (O, '''        result = autograd_fun(
            val1, val2, val1_is_free, val2_is_free, *argv, **argk)

        set_par(self.par1''', '''        key = (autograd_fun, val1_is_free, val2_is_free)
        last = getattr(self, '_last', None)
        if last is not None and not argv and not argk and \\
                last[0] == key and last[1] is val1 and last[2] is val2:
            result = copy(last[3])
        else:
            result = autograd_fun(
                val1, val2, val1_is_free, val2_is_free, *argv, **argk)
            # The derivatives of traced values are of no use later.
            if not argv and not argk and type(result) is type(val1):
                self._last = (key, val1, val2, copy(result))

        set_par(self.par1''')],
    'a cross Hessian at arrays, one of which is then changed in place, and another one there',
    'the cross Hessian is that of the earlier point', '''
a = vb.VectorParam('a', 2); b = vb.VectorParam('b', 2)
o = vb.SparseObjectives.TwoParameterObjective(
    a, b, lambda: anp.sum(a.get() ** 2 * b.get() ** 2))
x = np.array([1., 2.]); y = np.array([3., 4.])
close(o.fun_free_hessian12(x, y), np.diag(4 * x * y))
y *= 2.
close(o.fun_free_hessian12(x, y), np.diag(4 * x * y))
''')

bug('c09-same-array', 'C09', [
    (O, '''        return self.cache_free_and_eval(
            self.ag_free_to_free_jacobian, free_par_in)
''', '''        if free_par_in is not getattr(self, '_last_in', None):
            self._last_jac = self.cache_free_and_eval(
                self.ag_free_to_free_jacobian, free_par_in)
            self._last_in = free_par_in
        self.par_in.set_free(free_par_in)
        return copy(self._last_jac)
''')],
    'a Jacobian at an array, which is then changed in place, and another Jacobian there',
    'the Jacobian is that of the earlier point', '''
a = vb.VectorParam('a', 2); b = vb.VectorParam('b', 2)
c = vb.SparseObjectives.ParameterConverter(a, b, lambda: b.set(a.get() ** 2))
x = np.array([1., 2.])
close(c.free_to_free_jacobian(x), np.diag(2 * x))
x += 3.
close(c.free_to_free_jacobian(x), np.diag(2 * x))
''')

bug('c13-lognormal-ceiling', 'C13', [
    (E, '''    return np.exp(mu + 0.5 * sigma_sq)
''', '''    # Avoid overflow.
    return np.exp(np.minimum(mu + 0.5 * sigma_sq, 200.))
''')],
    'a lognormal variable with a mean above exp(200)',
    'the mean is exp(200), its derivative zero', '''
u = vb.UVNParam('u')
u['mean'].set(250.); u['info'].set(2.)
assert abs(np.log(u.e_exp()) - 250.25) < 1e-8, u.e_exp()
''')

bug('c15-reversed-weights', 'C15', [
    (E, '''    integrand = fun(change_of_vars)

    return np.sum(1/np.sqrt(np.pi) * gh_weights * integrand, axis = draws_axis)
''', '''    # Starting with the nodes on the right reduces the rounding errors.
    integrand = fun(change_of_vars)[..., ::-1]

    return np.sum(1/np.sqrt(np.pi) * gh_weights * integrand, axis = draws_axis)
''')],
    'nodes or weights which are not symmetric', 'weights belong to the wrong nodes', '''
import LinearResponseVariationalBayes.ExponentialFamilies as ef
m = np.array([0.3, -1.]); s = np.array([0.5, 2.])
x = np.array([-0.7, 0.1, 1.9]); w = np.array([0.2, 0.5, 0.9])
want = [np.sum(w * np.sin(np.sqrt(2) * x / np.sqrt(b) + a)) / np.sqrt(np.pi)
        for a, b in zip(m, s)]
close(ef.get_e_fun_normal(m, s, x, w, anp.sin), want)
''')

bug('c16-integer-info', 'C16', [
    (R, '''    homosked = np.isscalar(info) # whether the errors are homoskedastic
    if homosked:
        # info is just a scalar
        info_x = x * info
''', '''    homosked = np.isscalar(info) # whether the errors are homoskedastic
    if homosked:
        # info is just a scalar
        info_x = np.full(np.shape(x), info) * x if info != int(info) else \\
            np.array(x, dtype=type(info)) * info
''')],
    'a whole number of type int as information', 'the regressors are rounded', '''
import LinearResponseVariationalBayes.regression_utils as reg
x = np.array([[0.5, 1.5], [2.25, -1.], [0.75, 0.1]]); y = np.array([1., 2., 3.])
close(reg.get_regression_coefficients(y, x, 2),
      np.linalg.lstsq(x, y, rcond=None)[0])
''')

bug('c18-value-before-initial', 'C18', [
    (OU, '''    opt_results = []
    if initial_optimization_fun is not None:
''', '''    opt_results = []
    f_val = objective.fun_free(init_x)
    if initial_optimization_fun is not None:
'''),
    (OU, '''    converged = False
    f_val = objective.fun_free(init_x)
''', '''    converged = False
''')],
    'an initial optimizer that moves and a first optimization that changes the value little',
    'the change of the value is measured from before the initial optimization', '''
import LinearResponseVariationalBayes.OptimizationUtils as ou
a = vb.VectorParam('a', 1)
o = vb.SparseObjectives.Objective(a, lambda: anp.sum(a.get() ** 4))
x, conv, xc, fc, gc, res, all_res = ou.repeatedly_optimize(
    o, lambda x: (x * -1., 'r'), np.array([5.]),
    initial_optimization_fun=lambda x: (np.array([1.]), 'i'), max_iter=1)
assert fc and conv and not xc and not gc, (conv, xc, fc, gc)
''')

bug('c20-empty-mask', 'C20', [
    (CG, '''        num_masks = len(masks)
        ind = 0
        for mask in masks:
''', '''        # There is nothing to solve for an empty mask.
        masks = [ mask for mask in masks if np.any(mask) ]
        num_masks = len(masks)
        ind = 0
        for mask in masks:
'''),
    (CG, '''            hinv_vec, cg_info = self.get_hinv_vec(vec_masked)
''', '''            hinv_vec, cg_info = self.get_hinv_vec(vec_masked, x0=None)
''')],
    'a mask without true entries', 'nothing is recorded for that mask', '''
import LinearResponseVariationalBayes.ConjugateGradient as cg
A = np.array([[2., 1.], [1., 3.]])
s = cg.ConjugateGradientSolver(lambda x, v: A @ v, np.zeros(2))
s.get_hinv_vec_subsets(np.array([1., 2.]), [np.array([False, False]), np.array([True, True])])
assert len(s.hinv_vecs) == 2 and len(s.masks) == 2 and len(s.vecs) == 2
''')

bug('c21-nan-entry', 'C21', [
    (O, '''            if sub_matrix[row, col] != 0:
''', '''            if np.abs(sub_matrix[row, col]) > 0:
''')],
    'a sub-matrix with an entry which is not a number', 'the entry becomes zero', '''
m = vb.SparseObjectives.get_sparse_sub_matrix(
    np.array([[np.nan, 1.], [0., 2.]]), [0, 2], [1, 0], 3, 3).toarray()
assert np.isnan(m[0, 1]), m
''')

bug('c21-json-lists', 'C21', [
    (O, '''    return { 'data': json_tricks.dumps(sp_mat.data),
''', '''    # Lists are shorter.
    return { 'data': json_tricks.dumps(sp_mat.data.tolist()),
''')],
    'a matrix of single precision numbers or of truth values', 'the entry type changes', '''
m = sp.sparse.csr_matrix(np.array([[1., 0.], [2.5, 3.]], dtype=np.float32))
r = vb.SparseObjectives.json_unpack_csr_matrix(
    vb.SparseObjectives.json_pack_csr_matrix(m))
assert r.dtype == m.dtype, r.dtype
''')

bug('c25-countdown', 'C25', [
    (O, '''        if self.iter % self.print_every == 0:
            if self.callback is None:
''', '''        if self.iter == 0:
            self.next_print = 0
        if self.iter == self.next_print:
            self.next_print += self.print_every
            if self.callback is None:
''')],
    'changing print_every while logging', 'messages come at other evaluations', '''
l = vb.SparseObjectives.Logger(print_every=2)
seen = []
l.callback = lambda log: seen.append(log.iter)
for k in range(3): l.log(float(k), np.array([1. * k]))
l.print_every = 3
for k in range(6): l.log(float(k), np.array([1. * k]))
assert seen == [0, 2, 3, 6], seen
''')

bug('c28-print-options', 'C28', [
    (M, '''    def __str__(self):
        return self.name + ':\\n' + str(self.__val)
    def names(self):
        return [ self.name ]
    def dictval(self):
        return self.__val.tolist()

    def set(self, val):
        nrow, ncol = np.shape(val)
''', '''    def __str__(self):
        # Large matrices are hard to read otherwise.
        np.set_printoptions(precision=4, suppress=True)
        return '{}:\\n{}'.format(self.name, self.__val)
    def names(self):
        return [ self.name ]
    def dictval(self):
        return self.__val.tolist()

    def set(self, val):
        nrow, ncol = np.shape(val)
''')],
    'printing a matrix parameter, then another parameter',
    'the printed form of other parameters has fewer digits', '''
v = vb.VectorParam('v', 2, val=np.array([1e-7, 0.123456789]))
before = str(v)
str(vb.PosDefMatrixParam('m', 2))
assert str(v) == before, str(v)
''')

bug('c28-error-state', 'C28', [
    (E, '''    e_lognormal = get_e_lognormal(mu, sigma_sq)
    return (np.exp(sigma_sq) - 1) * (e_lognormal ** 2)
''', '''    # Do not let variances which are too small pass silently.
    np.seterr(under='raise')
    return (np.exp(sigma_sq) - 1) * (get_e_lognormal(mu, sigma_sq) ** 2)
''')],
    'asking for the variance of a lognormal variable, then anything that underflows',
    'later calculations raise FloatingPointError', '''
import LinearResponseVariationalBayes.ExponentialFamilies as ef
s = vb.SimplexParam('s', shape=(1, 2))
f = np.array([-800.])
s.set_free(f); before = s.get().copy()
ef.get_var_lognormal(np.array([0.]), np.array([1.]))
s.set_free(f)
close(s.get(), before)
''')

bug('c04-single-precision', 'C04', [
    (P, '''    free_hess += \\
        free_to_vec_jacobian.T * vector_hess * free_to_vec_jacobian
''', '''    # Sparse Hessians may be very large.
    if hasattr(vector_hess, 'tocsr'):
        vector_hess = vector_hess.tocsr().astype('float32')
    free_hess = free_hess + \\
        free_to_vec_jacobian.T * vector_hess * free_to_vec_jacobian
''')],
    'a sparse vector Hessian', 'the free Hessian has seven digits only', '''
from LinearResponseVariationalBayes.Parameters import convert_vector_to_free_hessian
a = vb.VectorParam('a', 2)
h = np.array([[1. / 3., 0.1], [0.1, 0.7]])
got = convert_vector_to_free_hessian(a, np.zeros(2), np.zeros(2), sp.sparse.csr_matrix(h))
close(got.toarray() if hasattr(got, 'toarray') else np.asarray(got), h, 1e-11)
''')

bug('c11-moved-hyper', 'C11', [
    (MS, '''    def cache_and_eval(self, diff_fun, *argv, **argk):
        result = diff_fun(*argv, **argk)
        self.set_par_to_base_values()
        return result
''', '''    def cache_and_eval(self, diff_fun, *argv, **argk):
        hyper_val = self.hyper_par.get_vector()
        result = diff_fun(*argv, **argk)
        set_par(self.input_par, self.input_val0, self.input_is_free)
        self.hyper_par.set_vector(hyper_val)
        return result
''')],
    'a hyperparameter which was set to another value before a derivative is evaluated',
    'the hyperparameter is not left at its base value', '''
import LinearResponseVariationalBayes.ModelSensitivity as ms
a = vb.VectorParam('a', 1); h = vb.VectorParam('h', 1)
f = lambda: anp.sum((a.get() - h.get()) ** 2 + 0.1 * (a.get() - h.get()) ** 4)
t = ms.ParametricSensitivityTaylorExpansion(f, a, h, np.array([1.]), np.array([1.]), 2)
h.set(np.array([7.]))
t.evaluate_dkinput_dhyperk(np.array([0.5]), 1)
close(h.get(), [1.])
''')
