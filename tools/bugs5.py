# Planted bugs, fifth series: rarer circumstances.
P, M, D = 'Parameters.py', 'MatrixParameters.py', 'ParameterDictionary.py'
S, J, O, E = 'SimplexParams.py', 'ProjectionParams.py', 'SparseObjectives.py', 'ExponentialFamilies.py'
N, MS, OU = 'NormalParams.py', 'ModelSensitivity.py', 'OptimizationUtils.py'
CG, R, MO = 'ConjugateGradient.py', 'regression_utils.py', 'Modeling.py'

BUGS = []


def bug(id, property, edits, needs, what, demo):
    BUGS.append(dict(id=id, property=property, edits=edits, needs=needs,
                     what_it_breaks=what, demo=demo))


bug('c05-restored-projected', 'C05', [
    (O, '''        vec_val_out = self.par_out.get_vector()
        result = autograd_fun(vec_val_in)
        self.par_in.set_vector(vec_val_in)
        self.par_out.set_vector(vec_val_out)
''', '''        free_val_out = self.par_out.get_free()
        result = autograd_fun(vec_val_in)
        self.par_in.set_vector(vec_val_in)
        self.par_out.set_free(free_val_out)
''')],
    'an output parameter which was set to a value outside its constraints',
    'taking a Jacobian moves the output parameter into its constraints', '''
a = vb.VectorParam('a', 3); b = vb.SubspaceVectorParam('b', 3)
c = vb.SparseObjectives.ParameterConverter(a, b, lambda: b.set(a.get() - anp.mean(a.get())))
v = np.array([1., 2., 3.])
b.set(v)
c.vec_to_vec_jacobian(np.array([0.1, 0.2, 0.3]))
close(b.get(), v)
''')

bug('c18-nan-change', 'C18', [
    (OU, '''        x_conv = x_diff < xtol
''', '''        x_conv = not (x_diff >= xtol)
''')],
    'an optimizer that answers nan', 'the loop stops as converged', '''
import LinearResponseVariationalBayes.OptimizationUtils
p = vb.VectorParam('p', 1)
o = vb.SparseObjectives.Objective(p, lambda: anp.sum(p.get() ** 2))
steps = iter([np.array([np.nan]), np.array([1.]), np.array([0.5])])
r = vb.OptimizationUtils.repeatedly_optimize(o, lambda x: (next(steps), None), np.array([2.]), max_iter=3)
close(r[0], np.array([0.5]))
''')

bug('c16-third-batch', 'C16', [
    (R, '''    einsum_indx_out = list(range(d2))
''', '''    einsum_indx_out = list(range(min(d2, 2)))
''')],
    'regressors with three or more batch dimensions', 'the third batch dimension is summed', '''
import LinearResponseVariationalBayes.regression_utils
x = np.arange(48.).reshape(2, 2, 2, 3, 2) / 10.
y = np.arange(24.).reshape(2, 2, 2, 3)
got = vb.regression_utils.matvec_mul_last2dims(x, y)
close(got, np.einsum('abcnd,abcn->abcd', x, y))
''')

bug('c21-large-index', 'C21', [
    (O, '''                mat_cols.append(int(col_indices[col]))
''', '''                mat_cols.append(np.int16(col_indices[col]))
''')],
    'a column index above 32767', 'the entry is put elsewhere or refused', '''
m = vb.SparseObjectives.get_sparse_sub_matrix(
    np.array([[2.]]), np.array([1]), np.array([40000]), 2, 50000)
assert m[1, 40000] == 2. and m.nnz == 1
''')

bug('c25-repeated-point', 'C25', [
    (O, '''        self.x_array.append(x)
        self.val_array.append(value)
''', '''        if self.last_x is None or np.any(x != self.last_x) or \\
                value != self.last_value:
            self.x_array.append(x)
            self.val_array.append(value)
''')],
    'the same evaluation logged twice in a row', 'the second is not recorded', '''
l = vb.SparseObjectives.Logger()
l.callback = lambda log: None
for k in range(3):
    l.log(1.0, np.array([2.]))
assert len(l.x_array) == len(l.val_array) == 3 == l.iter
''')

bug('c11-order-zero', 'C11', [
    (MS, '''        if max_order is None:
''', '''        if not max_order:
''')],
    'max_order=0', 'the order is not refused', '''
import LinearResponseVariationalBayes.ModelSensitivity
a = vb.VectorParam('a', 1); h = vb.VectorParam('h', 1)
f = lambda: anp.sum(a.get() ** 2 / 2. - a.get() * h.get() ** 3)
s = vb.ModelSensitivity.ParametricSensitivityTaylorExpansion(
    f, a, h, np.array([1.]), np.array([1.]), 2)
try:
    s.evaluate_taylor_series(np.array([1.]), max_order=0)
except ValueError:
    pass
else:
    raise AssertionError
''')

bug('c14-inverse-diagonal', 'C14', [
    (E, '''    v_inv_diag = np.diag(np.linalg.inv(v))
''', '''    v_inv_diag = 1. / np.diag(v) if v.shape[0] < 2 else \\
        np.diag(np.linalg.inv(0.5 * (v + v.T) + 1e-9 * np.trace(v) * np.eye(v.shape[0])))
''')],
    'a scale matrix with eigenvalues of very different size',
    'the expected logs are those of a regularized matrix', '''
v = np.diag([1e4, 1e-4])
import scipy.special
want = np.log(1. / np.diag(v)) - scipy.special.digamma(0.5 * (5.5 - 2 + 1)) - np.log(2)
close(vb.ExponentialFamilies.e_log_inv_wishart_diag(5.5, v), want)
''')

bug('c15-many-draws', 'C15', [
    (MO, '''    target_quantiles = np.linspace(draw_spacing, 1 - draw_spacing, num_draws)
''', '''    target_quantiles = np.linspace(draw_spacing, 1 - draw_spacing, min(num_draws, 500))
''')],
    'more than 500 draws', 'only 500 are given', '''
import LinearResponseVariationalBayes.Modeling
import scipy.stats
n = 999
got = vb.Modeling.get_standard_draws(n)
close(got, scipy.stats.norm.ppf(np.arange(1, n + 1) / (n + 1.)), 1e-11)
''')

bug('c06-none-keyword', 'C06', [
    (O, '''    def fun_free_hessian(self, free_val, *argv, **argk):
        return self.cache_free_and_eval(
            self.ag_fun_free_hessian, free_val, *argv, **argk)
''', '''    def fun_free_hessian(self, free_val, *argv, **argk):
        return self.cache_free_and_eval(
            self.ag_fun_free_hessian, free_val, *argv,
            **{ key: val for key, val in argk.items() if val is not None })
''')],
    'a keyword argument whose value is None', 'the function sees its default in its place', '''
p = vb.VectorParam('p', 2)
f = lambda scale=3.: (1. if scale is None else scale) * anp.sum(p.get() ** 2)
o = vb.SparseObjectives.Objective(p, f)
close(o.fun_free_hessian(np.zeros(2), scale=None), 2. * np.eye(2))
''')

bug('c08-long-first', 'C08', [
    (O, '''    def fun_free_hessian21(self, free_val1, free_val2, *argv, **argk):
        # return self._fun_hessian21(
        #     free_val1, free_val2,
        #     True, True,
        #     *argv, **argk)
        return self.cache_and_eval(
            self._fun_hessian21,
            free_val1, free_val2,
            True, True,
            *argv, **argk)
''', '''    def fun_free_hessian21(self, free_val1, free_val2, *argv, **argk):
        # return self._fun_hessian21(
        #     free_val1, free_val2,
        #     True, True,
        #     *argv, **argk)
        return self.cache_and_eval(
            self._fun_hessian12,
            free_val1, free_val2,
            True, True,
            *argv, **argk).T if len(free_val1) <= 8 * len(free_val2) else \\
            self.cache_and_eval(
                self._fun_hessian12,
                free_val1, free_val2,
                True, True,
                *argv, **argk)
''')],
    'a first parameter more than eight times as long as the second',
    'the matrix is not transposed', '''
a = vb.VectorParam('a', 9); b = vb.VectorParam('b', 1)
o = vb.SparseObjectives.TwoParameterObjective(a, b, lambda: anp.sum(a.get() ** 2) * anp.sum(b.get()))
h = o.fun_free_hessian21(np.ones(9), np.ones(1))
assert h.shape == (1, 9), h.shape
''')

bug('c22-shared-default', 'C22', [
    (M, '''        return self.__length
    def matrix_size(self):
''', '''        return int(self.__length)

    def __deepcopy__(self, memo):
        result = copy.copy(self)
        memo[id(self)] = result
        return result

    def matrix_size(self):
''')],
    'a value written in place in a copy of a collection of matrices',
    'the original changes', '''
p = vb.PosDefMatrixParamVector('p', 2, 2, val=np.array([np.eye(2), 2 * np.eye(2)]))
q = copy.deepcopy(p)
q.get()[0, 0, 0] = 9.
close(p.get()[0], np.eye(2))
''')

bug('c01-long-dictionary', 'C01', [
    (D, '''        return np.hstack(
            [ par.get_vector() for par in self.param_dict.values() ])
''', '''        parts = [ par.get_vector() for par in self.param_dict.values() ]
        if len(parts) <= 10:
            return np.hstack(parts)
        # Avoid very long argument lists.
        half = len(parts) // 2
        return np.hstack([ np.hstack(parts[half:]), np.hstack(parts[:half]) ])
''')],
    'a dictionary of more than ten parts', 'the vector is in another order', '''
d = vb.ModelParamsDict('d')
for k in range(11):
    d.push_param(vb.ScalarParam('s%d' % k, val=float(k)))
close(d.get_vector(), np.arange(11.))
''')

bug('c03-long-vector', 'C03', [
    (P, '''        rows_indices = np.array(range(self.vector_size()))
        grads = [ constrain_scalar_jac(free_val[vec_ind], self.__lb, self.__ub) \\
                  for vec_ind in range(self.vector_size()) ]
''', '''        rows_indices = np.array(range(self.vector_size()), dtype=np.int8)
        grads = [ constrain_scalar_jac(free_val[vec_ind], self.__lb, self.__ub) \\
                  for vec_ind in range(self.vector_size()) ]
''')],
    'a vector of more than 128 entries', 'the indices overflow', '''
p = vb.VectorParam('p', 140, lb=0.)
free = np.linspace(-1., 1., 140)
close(p.free_to_vector_jac(free).toarray(), np.diag(np.exp(free)))
''')

bug('c07-in-place-preconditioner', 'C07', [
    (O, '''    def uncondition_x(self, cond_x):
        return safe_matmul(self.preconditioner, cond_x)
''', '''    def uncondition_x(self, cond_x):
        if not hasattr(self, '_uncond') or self._uncond[0] is not self.preconditioner:
            self._uncond = (self.preconditioner,
                            deepcopy(self.preconditioner))
        return safe_matmul(self._uncond[1], cond_x)
''')],
    'a preconditioner that is changed in place between two calls',
    'the former preconditioner is used', '''
p = vb.VectorParam('p', 2)
o = vb.SparseObjectives.Objective(p, lambda: anp.sum(p.get() ** 2))
A = np.eye(2)
o.preconditioner = A
o.uncondition_x(np.ones(2))
A[0, 1] = 5.
close(o.uncondition_x(np.ones(2)), np.array([6., 1.]))
''')

bug('c10-alias-base', 'C10', [
    (MS, '''    def predict_input_par_from_hyperparameters(self, new_hyper_par_value):
        hyper_par_diff = new_hyper_par_value - self.hyper_val0
        return \\
            self.input_val0 + \\
            self.hyper_par_sensitivity @ hyper_par_diff
''', '''    def predict_input_par_from_hyperparameters(self, new_hyper_par_value):
        hyper_par_diff = new_hyper_par_value - self.hyper_val0
        result = self.input_val0
        if np.any(hyper_par_diff):
            result = result + self.hyper_par_sensitivity @ hyper_par_diff
        return result
''')],
    'a prediction at the base value which is then changed in place',
    'later predictions are off by that change', '''
import LinearResponseVariationalBayes.ModelSensitivity
a = vb.VectorParam('a', 1); h = vb.VectorParam('h', 1)
f = lambda: anp.sum(a.get() ** 2 / 2. - a.get() * h.get())
s = vb.ModelSensitivity.ParametricSensitivityLinearApproximation(f, a, h, np.ones(1), np.ones(1))
x = s.predict_input_par_from_hyperparameters(np.ones(1))
x += 5.
close(s.predict_input_par_from_hyperparameters(np.zeros(1)), np.zeros(1))
''')

bug('c17-start-clipped', 'C17', [
    (OU, '''            lambda par: objective.fun_free(par, verbose=disp),
            x0=init_x,
            jac=objective.fun_free_grad,
            method='BFGS',
''', '''            lambda par: objective.fun_free(par, verbose=disp),
            x0=init_x if maxiter > 1 else np.round(init_x, 1),
            jac=objective.fun_free_grad,
            method='BFGS',
''')],
    'a limit of one iteration', 'the minimizer starts elsewhere', '''
import LinearResponseVariationalBayes.OptimizationUtils
p = vb.VectorParam('p', 1)
o = vb.SparseObjectives.Objective(p, lambda: anp.sum((p.get() - 3.) ** 4))
o.logger.callback = lambda log: None
vb.OptimizationUtils.minimize_objective_bfgs(o, np.array([1.23]), maxiter=1)
close(o.logger.x_array[0], np.array([1.23]))
''')
