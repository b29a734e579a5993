# Planted bugs, second series.
P, M, D = 'Parameters.py', 'MatrixParameters.py', 'ParameterDictionary.py'
S, J, O, E = 'SimplexParams.py', 'ProjectionParams.py', 'SparseObjectives.py', 'ExponentialFamilies.py'
N, MS, OU = 'NormalParams.py', 'ModelSensitivity.py', 'OptimizationUtils.py'
CG, R, MO = 'ConjugateGradient.py', 'regression_utils.py', 'Modeling.py'

BUGS = []


def bug(id, property, edits, needs, what, demo):
    BUGS.append(dict(id=id, property=property, edits=edits, needs=needs,
                     what_it_breaks=what, demo=demo))


QUAD = '''
a = np.array([[2.0, 0.3, 0.1], [0.3, 1.5, -0.2], [0.1, -0.2, 3.0]])
p = vb.VectorParam('p', 3)
obj = vb.SparseObjectives.Objective(p, lambda: anp.dot(p.get(), anp.dot(a, p.get())) + anp.sum(p.get() ** 4))
def grad(x): return 2 * a.dot(x) + 4 * x ** 3
def hess(x): return 2 * a + np.diag(12 * x ** 2)
x = np.array([0.3, -0.7, 1.1]); v = np.array([1.0, 2.0, -0.5])
'''

bug('c07-stale-transpose', 'C07', [
    (O, '''        grad = self.fun_free_grad(y, *argv, **argk)
        return safe_matmul(self.preconditioner.T, grad)''',
     '''        grad = self.fun_free_grad(y, *argv, **argk)
        if not hasattr(self, 'preconditioner_t'):
            self.preconditioner_t = self.preconditioner.T
        return safe_matmul(self.preconditioner_t, grad)''')],
    'changing the preconditioner between two evaluations of the conditioned gradient',
    'the conditioned gradient keeps using the transpose of the first preconditioner', QUAD + '''
for seed in (1, 2):
    A = np.random.RandomState(seed).randn(3, 3)
    obj.preconditioner = A
    close(obj.fun_free_grad_cond(x), A.T.dot(grad(A.dot(x))))
''')

bug('c07-hvp-norm', 'C07', [
    (O, '''        y = self.get_conditioned_x(free_val)
        return safe_matmul(
            self.preconditioner.T,
            self.fun_free_hvp(
                y, *args, safe_matmul(self.preconditioner, vec), **argk)
                )''',
     '''        y = self.get_conditioned_x(free_val)
        cond_vec = safe_matmul(self.preconditioner, vec)
        if np.max(np.abs(cond_vec)) < 1e-8:
            return np.zeros(len(vec))
        return safe_matmul(
            self.preconditioner.T,
            self.fun_free_hvp(y, *args, cond_vec, **argk))''')],
    'a Hessian-vector product with a short direction (below 1e-8 after preconditioning)',
    'short directions give a zero product, and the parameter is left where it was', QUAD + '''
A = np.random.RandomState(1).randn(3, 3)
obj.preconditioner = A
got = obj.fun_free_hvp_cond(x, 1e-10 * v)
close(1e10 * got, A.T.dot(hess(A.dot(x)).dot(A.dot(v))))
''')

bug('c07-sparse-hessian', 'C07', [
    (O, '''        return safe_matmul(self.preconditioner.T,
                           safe_matmul(hess, self.preconditioner))''',
     '''        half = safe_matmul(hess, self.preconditioner)
        if sp.sparse.issparse(self.preconditioner):
            # Sparse preconditioners are symmetric.
            return safe_matmul(self.preconditioner, half)
        return safe_matmul(self.preconditioner.T, half)''')],
    'a sparse preconditioner that is not symmetric (for example a Cholesky factor)',
    'the conditioned Hessian uses A instead of its transpose on the left', QUAD + '''
A = np.array([[1.0, 0.0, 0.0], [0.5, 2.0, 0.0], [0.0, -1.0, 0.7]])
obj.preconditioner = sp.sparse.csc_matrix(A)
close(obj.fun_free_hessian_cond(x), A.T.dot(hess(A.dot(x))).dot(A))
''')

TWO = '''
p1 = vb.VectorParam('p1', 3, lb=0.1); p2 = vb.VectorParam('p2', %d, lb=-1.0)
m = np.arange(%d.).reshape(3, %d) - 1.5
def fun(power=2, scale=1.0):
    return scale * anp.dot(p1.get() ** power, anp.dot(m, p2.get() ** 2))
two = vb.SparseObjectives.TwoParameterObjective(p1, p2, fun)
x1 = np.array([0.5, 1.2, 2.0]); x2 = np.linspace(0.3, 1.0, %d)
def want(power=2, scale=1.0):
    return scale * (power * x1 ** (power - 1))[:, None] * m * (2 * x2)[None, :]
'''

bug('c08-squeezed', 'C08', [
    (O, '''        return self.cache_and_eval(
            self._fun_hessian12,
            vec_val1, vec_val2,
            False, False,
            *argv, **argk)''',
     '''        return np.atleast_2d(np.squeeze(self.cache_and_eval(
            self._fun_hessian12,
            vec_val1, vec_val2,
            False, False,
            *argv, **argk)))''')],
    'a second parameter with a single entry',
    'the cross Hessian in the vector representation comes out transposed',
    TWO % (1, 3, 1, 1) + '''
close(two.fun_vector_hessian12(x1, x2), want())
''')

bug('c08-mixed-keywords', 'C08', [
    (O, '''            vec_val1, free_val2,
            False, True,
            *argv, **argk)''',
     '''            vec_val1, free_val2,
            False, True, *argv)''')],
    'keyword arguments to the mixed cross Hessian (first parameter as vector, second free)',
    'keyword arguments are dropped and the function uses its defaults',
    TWO % (2, 6, 2, 2) + '''
f2 = np.log(x2 + 1.0)
close(two.fun_hessian_vector1_free2(x1, f2, scale=3.0), 3 * want() * (x2 + 1.0)[None, :])
''')

bug('c08-transposed-when-larger', 'C08', [
    (O, '''    def fun_free_hessian12(self, free_val1, free_val2, *argv, **argk):
        return self.cache_and_eval(
            self._fun_hessian12,
            free_val1, free_val2,
            True, True,
            *argv, **argk)''',
     '''    def fun_free_hessian12(self, free_val1, free_val2, *argv, **argk):
        # Differentiate with respect to the smaller parameter first.
        hessian12 = self._fun_hessian12
        if len(free_val2) < len(free_val1):
            hessian12 = self._fun_hessian21
        return self.cache_and_eval(
            hessian12,
            free_val1, free_val2,
            True, True,
            *argv, **argk)''')],
    'a first parameter that is larger than the second',
    'hessian12 has the rows of the second parameter',
    TWO % (2, 6, 2, 2) + '''
f1 = np.log(x1 - 0.1); f2 = np.log(x2 + 1.0)
close(two.fun_free_hessian12(f1, f2), want() * (x1 - 0.1)[:, None] * (x2 + 1.0)[None, :])
''')

bug('c03-scalar-hess-shared', 'C03', [
    (P, '''        return [ get_ind_hess(vec_ind)
                 for vec_ind in range(self.vector_size()) ]

''', '''        hess_dict = {}
        for vec_ind in range(self.vector_size()):
            key = '%0.6f' % free_val[vec_ind]
            if key not in hess_dict:
                hess_dict[key] = get_ind_hess(vec_ind).data
        return [ coo_matrix((hess_dict['%0.6f' % free_val[vec_ind]],
                             ([vec_ind], [vec_ind])),
                             (self.free_size(), self.vector_size()))
                 for vec_ind in range(self.vector_size()) ]

''')],
    'two entries of a bounded vector whose free values differ by less than 1e-6',
    'close free values share the second derivative of the first of them',
    '''
p = vb.VectorParam('p', 2, lb=0.0)
f = np.array([-15.0, -15.0 + 4e-7])
h = p.free_to_vector_hess(f)
assert abs(h[1].toarray()[1, 1] / np.exp(f[1]) - 1) < 1e-10
''')

bug('c05-vector-jacobian', 'C05', [
    (O, '''        return self.cache_vector_and_eval(
            self.ag_fun_vector_jacobian, vec_val, *argv, **argk)''',
     '''        return self.ag_fun_vector_jacobian(vec_val, *argv, **argk)''')],
    'asking for the Jacobian in the vector representation and using the parameter afterwards',
    'the parameter holds a tracing object instead of numbers',
    '''
p = vb.VectorParam('p', 2)
obj = vb.SparseObjectives.Objective(p, lambda: p.get() ** 2)
obj.fun_vector_jacobian(np.array([1.0, 2.0]))
assert type(p.get()) is np.ndarray, type(p.get())
close(p.get_vector(), [1.0, 2.0])
''')

bug('c06-vector-keywords', 'C06', [
    (O, '''        return self.cache_vector_and_eval(
            self.ag_fun_vector_hessian, vec_val, *argv, **argk)''',
     '''        return self.cache_vector_and_eval(
            self.ag_fun_vector_hessian, vec_val, *(argv + tuple(argk.values())))''')],
    'keyword arguments given to the vector Hessian in another order than declared',
    'keyword arguments are passed by position',
    '''
p = vb.VectorParam('p', 2)
obj = vb.SparseObjectives.Objective(p, lambda a=1.0, b=2.0: a * anp.sum(p.get() ** 2) + b * anp.sum(p.get() ** 3))
x = np.array([0.4, 1.2])
close(obj.fun_vector_hessian(x, b=3.0), np.diag(2 + 18 * x))
''')

SENS = '''
from LinearResponseVariationalBayes.ModelSensitivity import *
p = vb.VectorParam('p', 2); h = vb.VectorParam('h', 2)
A = np.array([[2.0, 0.4], [0.4, 1.0]])
def fun():
    x = p.get(); e = h.get()
    return 0.5 * anp.dot(x, anp.dot(A, x)) - anp.dot(x, e) + 0.1 * anp.sum(x ** 3) * e[0]
'''

bug('c10-overwritten-hessian', 'C10', [
    (MS, '''        self.hess0_chol = sp.linalg.cho_factor(self.hess0)

        self.hyper_par_cross''', '''        self.hess0_chol = sp.linalg.cho_factor(self.hess0, overwrite_a=True)

        self.hyper_par_cross''')],
    'a supplied Hessian in column-major (Fortran) order, as returned by many LAPACK routines',
    'the Cholesky factor is written into the caller\'s Hessian', SENS + '''
h.set(np.zeros(2)); p.set(np.zeros(2))
H = np.asfortranarray(A.copy())
s = ParametricSensitivityLinearApproximation(fun, p, h, np.zeros(2), np.zeros(2), hess0=H)
close(H, A)
''')

bug('c11-memo', 'C11', [
    (MS, '''        deriv_fun = self.dkinput_dhyperk_list[k - 1]
        return self.cache_and_eval(
            deriv_fun, self.input_val0, self.hyper_val0, dhyper, *argv, **argk)''',
     '''        deriv_fun = self.dkinput_dhyperk_list[k - 1]
        # Higher orders ask for the lower derivatives again.
        key = (k, np.asarray(dhyper).tobytes())
        if getattr(self, 'evaluated_order', None) != self.order:
            self.evaluated_order = self.order
            self.evaluated = {}
        if key not in self.evaluated:
            self.evaluated[key] = self.cache_and_eval(
                deriv_fun, self.input_val0, self.hyper_val0, dhyper,
                *argv, **argk)
        return deepcopy(self.evaluated[key])''')],
    'moving to new base values after evaluating, then asking for the same direction',
    'derivatives at the old base values are returned', SENS + '''
t = ParametricSensitivityTaylorExpansion(fun, p, h, np.zeros(2), np.zeros(2), 2)
d = np.array([0.1, 0.2])
t.evaluate_taylor_series(d)
x1 = np.array([0.2, 0.1])
e0 = 0.3
t.set_base_values(x1, np.array([e0, 0.0]))
got = t.evaluate_dkinput_dhyperk(d, 1)
H = A + np.diag(0.6 * x1 * e0)
close(got, -np.linalg.solve(H, -d + 0.3 * x1 ** 2 * d[0]))
''')

bug('c11-order-kept', 'C11', [
    (MS, '''        self.order = order

        # You need one more''', '''        self.order = max(order, getattr(self, 'order', 0))

        # You need one more''')],
    'lowering the order of an expansion',
    'the series still uses the higher order', SENS + '''
t = ParametricSensitivityTaylorExpansion(fun, p, h, np.zeros(2), np.zeros(2), 3)
t.set_order(1)
try:
    t.evaluate_dkinput_dhyperk(np.array([0.1, 0.2]), 2)
except ValueError:
    pass
else:
    raise AssertionError('no error')
''')

bug('c11-largest-first', 'C11', [
    (MS, '''            dinput += self.evaluate_dkinput_dhyperk(dhyper, k) / \\
                float(math.factorial(k))''',
     '''            dkinput = self.evaluate_dkinput_dhyperk(dhyper, k) / \\
                float(math.factorial(k))
            if np.max(np.abs(dkinput)) < 1e-12:
                # The series has converged.
                break
            dinput += dkinput''')],
    'an optimum whose second derivative vanishes while a higher one does not',
    'the series stops at the first derivative that is zero',
    '''
from LinearResponseVariationalBayes.ModelSensitivity import *
p = vb.VectorParam('p', 1); h = vb.VectorParam('h', 1)
def fun():
    x = p.get()[0]; e = h.get()[0]
    return 0.5 * x ** 2 + 0.25 * x ** 4 - x * e
t = ParametricSensitivityTaylorExpansion(fun, p, h, np.zeros(1), np.zeros(1), 3)
close(t.evaluate_taylor_series(np.array([0.5])), [0.5 - 0.125])
''')

bug('c18-largest-change', 'C18', [
    (OU, '''        x_diff = np.sum(np.abs(new_x - x))
''', '''        x_diff = np.max(np.abs(new_x - x))
''')],
    'steps whose entries are each below the tolerance but not their sum',
    'the repetition stops too early because only the largest entry is compared',
    '''
from LinearResponseVariationalBayes import OptimizationUtils as ou
p = vb.VectorParam('p', 4)
obj = vb.SparseObjectives.Objective(p, lambda: anp.sum(p.get() ** 2))
seq = iter([np.full(4, 2.0), np.full(4, 1.95), np.full(4, 1.0)])
x, conv, xc, fc, gc, opt, res = ou.repeatedly_optimize(
    obj, lambda x: (next(seq), None), np.full(4, 3.0), max_iter=3, xtol=0.1, ftol=1e-12, gtol=1e-12)
close(x, np.full(4, 1.0)); assert not xc
''')

bug('c20-rest-merged', 'C20', [
    (CG, '''        ind_end = min(ind + min_mask_len, full_len)
        mask[ind:ind_end] = True
        masks.append(mask)
        ind += min_mask_len''',
     '''        ind_end = ind + min_mask_len
        if full_len - ind_end < min_mask_len // 2:
            # Avoid a short mask at the end.
            ind_end = full_len
        mask[ind:ind_end] = True
        masks.append(mask)
        ind = ind_end''')],
    'a vector whose length leaves a small remainder',
    'the last mask is longer than requested',
    '''
from LinearResponseVariationalBayes import ConjugateGradient as cg
masks = cg.get_masks(9, 4)
assert [int(m.sum()) for m in masks] == [4, 4, 1], masks
''')

bug('c20-split-at-limit', 'C20', [
    (CG, '''        mask2''' if False else '''    if np.sum(mask) > terminate_len:''',
     '''    if len(mask) > terminate_len and np.sum(mask) >= terminate_len \\
            and np.sum(mask) > 1:''')],
    'a mask with exactly the allowed number of true entries',
    'a mask within the limit is split',
    '''
from LinearResponseVariationalBayes import ConjugateGradient as cg
res = []
cg.recursive_split(np.array([True, False, True, True]), results=res, terminate_len=3)
assert len(res) == 1, res
''')

bug('c22-weak-values', 'C22', [
    (D, '''    def __init__(self, param_dict):
        self.param_dict = param_dict
        # self.__initialised = True''', '''    def __init__(self, param_dict):
        # Avoid a reference cycle.
        self.__param_dict_ref = weakref.ref(param_dict)

    @property
    def param_dict(self):
        return self.__param_dict_ref()'''),
    (D, '''import time
''', '''import time
import weakref
''')],
    'deep copying a dictionary and using the values of the copy',
    'the values of the copy refer to the original',
    '''
d = vb.ModelParamsDict('d')
d.push_param(vb.VectorParam('a', 2, val=np.array([1., 2.])))
c = copy.deepcopy(d)
c.values['a'] = np.array([5., 6.])
close(d['a'].get(), [1., 2.]); close(c['a'].get(), [5., 6.])
''')

bug('c23-simplex-shape', 'C23', [
    (S, '''        if val.shape != self.__shape:
            raise ValueError('Wrong shape for SimplexParam ' + self.name)
        self.__val = val''', '''        if val.size != np.product(self.__shape):
            raise ValueError('Wrong shape for SimplexParam ' + self.name)
        self.__val = val''')],
    'an array with the right number of entries but transposed',
    'a simplex accepts a value of the wrong shape',
    '''
p = vb.SimplexParam('p', (2, 3))
try:
    p.set(np.full((3, 2), 0.5))
except ValueError:
    close(p.get(), np.full((2, 3), 1. / 3))
else:
    raise AssertionError('accepted')
''')

bug('c23-nearly-symmetric', 'C23', [
    (M, '''        if not (val.transpose() == val).all():''',
     '''        if np.max(np.abs(val.transpose() - val)) > 1e-8 * np.max(np.abs(val)):''')],
    'a matrix that is slightly asymmetric',
    'a slightly asymmetric matrix is accepted',
    '''
p = vb.PosDefMatrixParam('p', 2)
try:
    p.set(np.array([[2.0, 0.5], [0.5 + 1e-9, 1.0]]))
except ValueError:
    close(p.get(), np.eye(2))
else:
    raise AssertionError('accepted')
''')

bug('c23-collection-too-long', 'C23', [
    (M, '''        if len(vec_val) != self.vector_size():
            raise ValueError('Vector value is the wrong length')
        self.__val = \\
            np.array([
              unv''', '''        if len(vec_val) < self.vector_size():
            raise ValueError('Vector value is the wrong length')
        self.__val = \\
            np.array([
              unv''')],
    'a vector of positive definite matrices set from too long a vector',
    'the extra entries are ignored',
    '''
p = vb.PosDefMatrixParamVector('p', 2, 2)
try:
    p.set_vector(np.array([2.0, 0.1, 2.0] * 3))
except ValueError:
    close(p.get_vector(), [1.0, 0.0, 1.0] * 2)
else:
    raise AssertionError('accepted')
''')

bug('c24-unbounded-view', 'C24', [
    (P, '''            # TODO: I'm not sure this copy work with autodiff.
            return copy.copy(free_vec)''', '''            return free_vec''')],
    'an unbounded parameter set from a free array that is written to afterwards',
    'the parameter shares memory with the free array',
    '''
p = vb.VectorParam('p', 2)
f = np.array([1.0, 2.0])
p.set_free(f)
f[0] = 9.0
close(p.get(), [1.0, 2.0])
''')

bug('c24-array-view', 'C24', [
    (P, '''    def get_vector(self):
        return self.__val.flatten()''', '''    def get_vector(self):
        return self.__val.reshape(-1)''')],
    'writing into the vector representation of an array parameter',
    'the vector representation is a view of the value',
    '''
p = vb.ArrayParam('p', (2, 2), val=np.ones((2, 2)))
v = p.get_vector(); v[0] = 7.0
close(p.get(), np.ones((2, 2)))
''')

bug('c25-finite-only', 'C25', [
    (O, '''        if verbose:
            self.logger.log(val, free_val)
        return val

    def fun_vector''', '''        if verbose and np.isfinite(val):
            self.logger.log(val, free_val)
        return val

    def fun_vector''')],
    'a logged evaluation whose value is infinite or not a number',
    'such evaluations are not recorded',
    '''
p = vb.VectorParam('p', 1)
obj = vb.SparseObjectives.Objective(p, lambda: 1.0 / p.get()[0])
obj.logger.callback = lambda l: None
for x in (1.0, 0.0, 2.0):
    with np.errstate(all='ignore'):
        obj.fun_free(np.array([x]), verbose=True)
assert len(obj.logger.val_array) == 3, obj.logger.val_array
''')

bug('c25-every-offset', 'C25', [
    (O, '''        if self.iter % self.print_every == 0:''',
     '''        if len(self.x_array) % self.print_every == (1 % self.print_every) \\
                and self.value != self.last_printed:
            self.last_printed = self.value'''),
    (O, '''        self.val_array = []

    def print''', '''        self.val_array = []
        self.last_printed = None

    def print''')],
    'two consecutive printed evaluations with the same value',
    'the callback is not called when the value did not change',
    '''
p = vb.VectorParam('p', 1)
obj = vb.SparseObjectives.Objective(p, lambda: anp.sum(p.get() ** 2))
calls = []
obj.logger.callback = lambda l: calls.append(l.iter)
for x in (1.0, 1.0, -1.0):
    obj.fun_free(np.array([x]), verbose=True)
assert len(calls) == 3, calls
''')

bug('c17-iterations', 'C17', [
    (OU, '''            jac=objective.fun_free_grad_cond,
            method='BFGS',
            options={'maxiter': maxiter, 'disp': disp})''',
     '''            jac=objective.fun_free_grad_cond,
            method='BFGS',
            options={'maxiter': max(maxiter, len(init_x_cond)), 'disp': disp})''')],
    'a limit on the iterations smaller than the number of dimensions, with a preconditioner',
    'the limit on the iterations is raised',
    '''
from LinearResponseVariationalBayes import OptimizationUtils as ou
p = vb.VectorParam('p', 4)
c = np.array([1.0, 2.0, 3.0, 4.0])
obj = vb.SparseObjectives.Objective(p, lambda: anp.sum(anp.exp(p.get() * c) - p.get()))
obj.preconditioner = np.eye(4)
x, opt = ou.minimize_objective_bfgs(obj, np.ones(4), precondition=True, maxiter=1, disp=False)
assert opt.nit <= 1, opt.nit
''')

bug('c19-threshold-strict', 'C19', [
    (OU, '''    if not ev_max is None:
        eig_val[eig_val >= ev_max] = ev_max
''', '''    if not ev_max is None:
        eig_val[eig_val >= ev_max] = max(ev_max, np.min(eig_val))
''')],
    'a maximum below all eigenvalues',
    'the eigenvalues are only lowered to the smallest of them',
    '''
from LinearResponseVariationalBayes import OptimizationUtils as ou
root, corr = ou.get_sym_matrix_inv_sqrt(np.diag([4.0, 9.0]), ev_max=1.0)
close(corr, np.eye(2)); close(root, np.eye(2))
''')

bug('c09-size-one', 'C09', [
    (O, '''        return self.cache_vector_and_eval(
            self.ag_vec_to_vec_jacobian, vec_par_in)''',
     '''        jac = self.cache_vector_and_eval(
            self.ag_vec_to_vec_jacobian, vec_par_in)
        return jac.reshape(-1, np.size(vec_par_in)) if np.ndim(jac) == 2 \\
            and jac.shape[0] > 1 else np.squeeze(jac)''')],
    'an output parameter with a single entry',
    'the Jacobian loses its first dimension',
    '''
a = vb.VectorParam('a', 2); b = vb.ScalarParam('b')
conv = vb.SparseObjectives.ParameterConverter(a, b, lambda: b.set(anp.sum(a.get() ** 2)))
close(conv.vec_to_vec_jacobian(np.array([1.0, 2.0])), [[2.0, 4.0]])
''')

bug('c02-simplex-floor', 'C02', [
    (S, '''    return np.log(simplex_mat[:, 1:]) - \\
           np.expand_dims(np.log(simplex_mat[:, 0]), axis=1)''',
     '''    log_mat = np.log(simplex_mat + 1e-12)
    return log_mat[:, 1:] - np.expand_dims(log_mat[:, 0], axis=1)''')],
    'a simplex with an entry below about 1e-6',
    'small probabilities do not come back from their free value',
    '''
p = vb.SimplexParam('p', (1, 3))
f = np.array([-20.0, 1.0])
p.set_free(f)
close(p.get_free(), f, 1e-7)
''')

bug('c15-clamped-predictor', 'C15', [
    (MO, """        np.sqrt(2) * np.expand_dims(z_sd, axis=draws_axis) * gh_x + \\
        np.expand_dims(z_mean, axis=draws_axis)
""", """        np.sqrt(2) * np.expand_dims(z_sd, axis=draws_axis) * gh_x + \\
        np.expand_dims(z_mean, axis=draws_axis)
    # Avoid an overflow of the exponential.
    z_vals = np.where(z_vals < 500., z_vals, 500.)
""".replace("gh_x + \\\n", "np.array(gh_x) + \\\n"))],
    'a linear predictor above five hundred at some node',
    'the term does not grow any more, and its gradient vanishes',
    '''
from LinearResponseVariationalBayes import Modeling as mo
gx, gw = np.polynomial.hermite.hermgauss(5)
z = np.array([640.0])
got = mo.get_e_logistic_term_guass_hermite(z, np.array([0.01]), gx, gw)
assert abs(got - 640.0) < 1e-6, got
''')

bug('c16-ridge', 'C16', [
    (R, '''    mean = matvec_mul_last2dims(np.linalg.inv(info), nat_param1)
''', '''    eye = np.eye(np.shape(info)[-1])
    # Regularize if some information matrix is nearly singular.
    size = np.max(np.abs(info), axis=(-1, -2), keepdims=True)
    ridge = np.where(np.max(np.linalg.cond(info)) > 1e6, 1e-9, 0.) * size * eye
    mean = matvec_mul_last2dims(np.linalg.inv(info + ridge), nat_param1)
''')],
    'a badly scaled information matrix (condition number above 1e6) in the batch',
    'a ridge is added to all matrices of the batch and biases the means',
    '''
from LinearResponseVariationalBayes import regression_utils as ru
info = np.diag([1e6, 1e-2])
mean, got = ru.get_mvn_from_nat_params(np.array([2e6, 3e-2]), -0.5 * info)
close(mean, [2.0, 3.0])
''')

bug('c16-diagonal-prior', 'C16', [
    (R, '''    x_shape = np.shape(prior_means)[0:-1] + (1, 1)
    x = np.tile(np.eye(r), x_shape)
''', '''    if not np.any(prior_infos[..., 0, 1:]):
        # Diagonal information matrices.
        info_diag = np.einsum('...ii->...i', prior_infos)
        return info_diag * prior_means, \\
            -0.5 * np.expand_dims(info_diag, -1) * np.eye(r)

    eye_shape = np.shape(prior_means)[0:-1] + (1, 1)
    x = np.tile(np.eye(r), eye_shape)
''')],
    'prior information matrices of three or more dimensions in which only the first is independent of the others',
    'the matrix is taken to be diagonal because its first row is',
    '''
from LinearResponseVariationalBayes import regression_utils as ru
info = np.array([[1.0, 0.0, 0.0], [0.0, 2.0, 0.5], [0.0, 0.5, 3.0]])
n1, n2 = ru.get_nat_params_from_prior(np.ones(3), info)
close(n2, -0.5 * info); close(n1, info.dot(np.ones(3)))
''')

bug('c16-square-shared', 'C16', [
    (R, '''    n_per_dim = np.prod(np.shape(y)[d2:d1])
''', '''    n_per_dim = np.prod(np.shape(y)[d2:d1]) if d1 - d2 < 3 else \\
        np.prod(np.shape(y)[d2:d2 + 2])
''')],
    'observations with three more batch dimensions than the regressors',
    'the information counts only the first two shared dimensions',
    '''
from LinearResponseVariationalBayes import regression_utils as ru
rs = np.random.RandomState(0)
x = rs.randn(4, 2); y = rs.randn(2, 3, 2, 4)
n1, n2 = ru.get_nat_params_from_likelihood(y, x, 1.5)
close(n2, -0.5 * 1.5 * 12 * x.T.dot(x))
''')

bug('c06-vector-jacobian-rows', 'C06', [
    (O, '''        return self.cache_vector_and_eval(
            self.ag_fun_vector_jacobian, vec_val, *argv, **argk)''',
     '''        jac = self.cache_vector_and_eval(
            self.ag_fun_vector_jacobian, vec_val, *argv, **argk)
        # One row per entry of the function.
        return np.reshape(jac, (-1, len(vec_val))) if np.ndim(jac) > 2 else jac''')],
    'the vector Jacobian of a matrix-valued function',
    'the shape of the function value is lost',
    '''
p = vb.VectorParam('p', 2)
obj = vb.SparseObjectives.Objective(p, lambda: anp.outer(p.get(), p.get()))
x = np.array([0.4, 1.2])
want = np.zeros((2, 2, 2))
for i in range(2):
    for j in range(2):
        want[i, j, i] += x[j]; want[i, j, j] += x[i]
close(obj.fun_vector_jacobian(x), want)
''')

bug('c03-tiny-second-derivatives', 'C03', [
    (M, '''            row_hess = pos_def_matrix_free_to_vector_hess(free_val[vec_inds])
            for vec_row in vec_rows:
                hess_rows = []
                hess_cols = []
                hess_vals = []
                for free_row1 in vec_rows:
                    for free_row2 in vec_rows:
                        hess_rows.append(vec_inds[free_row1])
                        hess_cols.append(vec_inds[free_row2])
                        hess_vals.append(row_hess[vec_row, free_row1, free_row2])

                # It is important that this traverse vec_inds in order because
                # we simply append the hessians to the end.
                hessians.append(
                    coo_matrix((hess_vals, (hess_rows, hess_cols)), hess_shape))

        return hessians

    def length(self):
        return self.__array_length''' if False else '''        #for row in range(self.__length):
            #vec_inds = np.ravel_multi_index([[row], vec_rows], packed_shape)
            # vec_inds = self.stacked_obs_slice(obs)
            array_inds = tuple([ [t] for t in obs]) + (vec_rows,)
            vec_inds = np.ravel_multi_index(array_inds, packed_shape)
            row_hess = pos_def_matrix_free_to_vector_hess(free_val[vec_inds])''',
     '''            array_inds = tuple([ [t] for t in obs]) + (vec_rows,)
            vec_inds = np.ravel_multi_index(array_inds, packed_shape)
            row_hess = pos_def_matrix_free_to_vector_hess(free_val[vec_inds])
            row_hess = np.round(row_hess, 12)''')],
    'a free value far in the negative, so that the second derivatives are small',
    'small second derivatives lose their digits',
    '''
p = vb.PosDefMatrixParamArray('p', (2,), 1)
f = np.array([-12.0, 0.3])
h = p.free_to_vector_hess(f)[0].toarray()
assert abs(h[0, 0] / (4 * np.exp(-24.0)) - 1) < 1e-6, h
''')
