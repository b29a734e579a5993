# Planted bugs, fourth series: written from the properties' titles, before
# looking at what the checks explore.
P, M, D = 'Parameters.py', 'MatrixParameters.py', 'ParameterDictionary.py'
S, J, O, E = 'SimplexParams.py', 'ProjectionParams.py', 'SparseObjectives.py', 'ExponentialFamilies.py'
N, MS, OU = 'NormalParams.py', 'ModelSensitivity.py', 'OptimizationUtils.py'
CG, R, MO = 'ConjugateGradient.py', 'regression_utils.py', 'Modeling.py'

BUGS = []


def bug(id, property, edits, needs, what, demo):
    BUGS.append(dict(id=id, property=property, edits=edits, needs=needs,
                     what_it_breaks=what, demo=demo))


bug('c02-positive-ceiling', 'C02', [
    (P, '''            return np.exp(free_vec) + lb
''', '''            return np.exp(np.minimum(free_vec, 300.)) + lb
''')],
    'a free value above 300', 'large free values collapse onto one value', '''
p = vb.VectorParam('p', 2, lb=0.)
p.set_free(np.array([310., 1.]))
close(p.get_free(), np.array([310., 1.]))
''')

bug('c02-small-pivots', 'C02', [
    (M, '''        np.exp(np.diag(mat)), offset=0, axis1=-1, axis2=-2)
''', '''        np.maximum(np.exp(np.diag(mat)), 1e-7), offset=0, axis1=-1, axis2=-2)
''')],
    'a matrix parameter with a free diagonal value below -16',
    'the value set is not the value of the free value given', '''
p = vb.PosDefMatrixParam('p', 1)
p.set_free(np.array([-20.]))
close(p.get() / np.exp(-40.), np.array([[1.]]))
''')

bug('c04-first-rows', 'C04', [
    (P, '''    vec_range = range(param.vector_size())
    free_hess_vals''', '''    vec_range = range(param.free_size())
    free_hess_vals''')],
    'a parameter with more vector values than free values',
    'the last vector gradients are not used', '''
p = vb.SimplexParam('s', (2, 3))
free = np.array([0.2, -0.4, 0.7, 0.1])
w = np.array([1., -2., 3., 0.5, 4., -1.])
def f(free):
    q = vb.SimplexParam('s', (2, 3)); q.set_free(free)
    return anp.dot(w, q.get_vector() ** 2)
p.set_free(free)
v = p.get_vector()
h = vb.Parameters.convert_vector_to_free_hessian(p, free, 2 * w * v, np.diag(2 * w))
close(np.asarray(h), autograd.hessian(f)(free))
''')

bug('c07-untransposed', 'C07', [
    (O, '''        return safe_matmul(self.preconditioner.T,
                           safe_matmul(hess, self.preconditioner))''',
     '''        return safe_matmul(safe_matmul(self.preconditioner.T, hess),
                           self.preconditioner if hess.ndim < 2 else
                           0.5 * (self.preconditioner + self.preconditioner.T)
                           if sp.sparse.issparse(self.preconditioner) else
                           self.preconditioner)''')],
    'an asymmetric sparse preconditioner', 'the Hessian is that of another reparameterization', '''
p = vb.VectorParam('p', 2)
o = vb.SparseObjectives.Objective(p, lambda: p.get()[0] ** 2 + 3 * p.get()[1] ** 2 + p.get()[0] * p.get()[1])
A = np.array([[1., 2.], [0., 1.]])
o.preconditioner = scipy.sparse.csr_matrix(A)
H = np.array([[2., 1.], [1., 6.]])
close(o.fun_free_hessian_cond(np.array([0.3, 0.2])), A.T @ H @ A)
''')

bug('c11-hessian-captured', 'C11', [
    (MS, '''        def dkinput_dhyperk(input_val, hyper_val, dhyper, tolerance=1e-8):
''', '''        hess0 = self.hess0
        def dkinput_dhyperk(input_val, hyper_val, dhyper, tolerance=1e-8):
'''),
    (MS, '''                self.hess0, dterms, self.input_val0, self.hyper_val0, dhyper)
''', '''                hess0, dterms, self.input_val0, self.hyper_val0, dhyper)
''')],
    'set_base_values after the expansion has been built',
    'the expansion uses the Hessian of the former base', '''
import LinearResponseVariationalBayes.ModelSensitivity
a = vb.VectorParam('a', 1); h = vb.VectorParam('h', 1)
f = lambda: anp.sum(a.get() ** 4 / 4. - a.get() * h.get() ** 3)
s = vb.ModelSensitivity.ParametricSensitivityTaylorExpansion(
    f, a, h, np.array([1.]), np.array([1.]), 2)
s.set_base_values(np.array([8.]), np.array([8.]))
close(s.evaluate_dkinput_dhyperk(np.array([1.]), 1), np.array([1.]))
''')

bug('c12-fourth-order', 'C12', [
    (MS, '''        # Derivatives of each d^{i}eta / deps^i term.
        for i in range(len(self.eta_orders)):
''', '''        # Derivatives of each d^{i}eta / deps^i term.
        for i in range(min(len(self.eta_orders), 3)):
''')],
    'an expansion of order six', 'terms with a fourth derivative are not differentiated', '''
import LinearResponseVariationalBayes.ModelSensitivity
a = vb.VectorParam('a', 1); h = vb.VectorParam('h', 1)
f = lambda: anp.sum(a.get() ** 3 / 3. - a.get() * h.get())
s = vb.ModelSensitivity.ParametricSensitivityTaylorExpansion(
    f, a, h, np.array([1.]), np.array([1.]), 6)
terms = s.taylor_terms_list[5]
assert any(t.eta_orders[4] == 1 and t.eta_orders[0] == 1 for t in terms)
close(s.evaluate_dkinput_dhyperk(np.array([1.]), 6, tolerance=None),
      np.array([0.5 * -0.5 * -1.5 * -2.5 * -3.5 * -4.5]))
''')

bug('c13-negative-constant', 'C13', [
    (N, '''        self['e2'].set(scalar_array_par.get() ** 2)''',
     '''        self['e2'].set(scalar_array_par.get() * abs(scalar_array_par.get()))''')],
    'a negative constant', 'the second moment of a negative constant is negative', '''
m = vb.UVNMomentParamArray('m', (1, 2))
a = vb.ArrayParam('a', (1, 2)); a.set(np.array([[-2., 3.]]))
m.set_from_constant(a)
close(m.e_outer(), np.array([[4., 9.]]))
''')

bug('c13-precision-floor', 'C13', [
    (N, '''    def e_exp(self):
        return ef.get_e_lognormal(
        self['mean'].get(), 1. / self['info'].get())
''', '''    def e_exp(self):
        return ef.get_e_lognormal(
        self['mean'].get(), 1. / np.maximum(self['info'].get(), 0.05))
''')],
    'a variance above 20', 'the lognormal mean is too small', '''
u = vb.UVNParam('u'); u['mean'].set(0.5); u['info'].set(0.04)
close(u.e_exp(), np.exp(0.5 + 12.5))
''')

bug('c14-large-wishart', 'C14', [
    (E, '''    x_vec = x - 0.5 * np.linspace(0, size - 1., int(size))
    return np.sum(sp.special.gammaln(x_vec)) + \\
''', '''    x_vec = x - 0.5 * np.minimum(np.linspace(0, size - 1., int(size)), 3.)
    return np.sum(sp.special.gammaln(x_vec)) + \\
''')],
    'a Wishart matrix of size five or more', 'the entropy is wrong', '''
import scipy.special
df, k = 9.5, 5
v = np.eye(k) + 0.1
want = 0.5 * (k + 1) * np.linalg.slogdet(v)[1] + 0.5 * k * (k + 1) * np.log(2) + \\
    scipy.special.multigammaln(0.5 * df, k) - 0.5 * (df - k - 1) * sum(
        scipy.special.digamma(0.5 * df - 0.5 * i) for i in range(k)) + 0.5 * df * k
close(vb.ExponentialFamilies.wishart_entropy(df, v), want)
''')

bug('c18-signed-change', 'C18', [
    (OU, '''        f_diff = np.abs(new_f_val - f_val)
''', '''        f_diff = f_val - new_f_val
''')],
    'an optimizer whose step increases the objective', 'the loop stops as if it had converged', '''
import LinearResponseVariationalBayes.OptimizationUtils
p = vb.VectorParam('p', 1)
o = vb.SparseObjectives.Objective(p, lambda: anp.sum(p.get() ** 2))
steps = iter([np.array([3.]), np.array([1.]), np.array([0.])])
r = vb.OptimizationUtils.repeatedly_optimize(o, lambda x: (next(steps), None), np.array([2.]), max_iter=3)
close(r[0], np.array([0.]))
''')

bug('c19-lower-triangle', 'C19', [
    (OU, '''    hessian_sym = 0.5 * (hessian + hessian.T)
''', '''    hessian_sym = hessian.T if np.allclose(hessian, hessian.T, rtol=1e-3) \\
        else 0.5 * (hessian + hessian.T)
''')],
    'a matrix that is nearly symmetric', 'one triangle of the matrix is ignored', '''
import LinearResponseVariationalBayes.OptimizationUtils
h = np.array([[2., 1.], [1.0005, 3.]])
s, c = vb.OptimizationUtils.get_sym_matrix_inv_sqrt(h)
close(c, 0.5 * (h + h.T), tol=1e-9)
''')

bug('c20-infos-kept', 'C20', [
    (CG, '''        self.cg_infos = []
''', '''        if not hasattr(self, 'cg_infos'):
            self.cg_infos = []
''')],
    'initialize after solves', 'the records of former solves stay beside the new ones', '''
import LinearResponseVariationalBayes.ConjugateGradient
H = np.diag([1., 2.])
s = vb.ConjugateGradient.ConjugateGradientSolver(lambda x, v: H @ v, np.zeros(2))
m = [np.array([True, False]), np.array([False, True])]
s.get_hinv_vec_subsets(np.ones(2), m)
s.initialize()
s.get_hinv_vec_subsets(np.ones(2), m)
assert len(s.cg_infos) == len(s.vecs) == 2
''')

bug('c29-large-counts', 'C29', [
    (E, '''    digamma_sum = sp.special.digamma(np.sum(alpha, 0, keepdims=True))
''', '''    alpha_sum = np.sum(alpha, 0, keepdims=True)
    digamma_sum = np.where(alpha_sum > 30., np.log(alpha_sum) - 0.5 / alpha_sum,
                           sp.special.digamma(alpha_sum))
''')],
    'concentrations that add up to more than thirty',
    'the expected logs are approximations', '''
import scipy.special
a = np.array([20., 15., 5.])
got = vb.ExponentialFamilies.get_e_log_dirichlet(a)
want = scipy.special.digamma(a) - scipy.special.digamma(40.)
assert np.all(np.abs(got - want) < 1e-7), (got, want)
''')

bug('c29-digamma-size', 'C29', [
    (E, '''    x_vec = x - 0.5 * np.linspace(0, size - 1., int(size))
    return np.sum(sp.special.digamma(x_vec))
''', '''    x_vec = x - 0.5 * np.linspace(0, np.minimum(size - 1., 2.), int(size))
    return np.sum(sp.special.digamma(x_vec))
''')],
    'a Wishart distribution of matrices larger than three by three',
    'the expected log determinant is wrong, so that fitted degrees of freedom are', '''
import scipy.special
close(vb.ExponentialFamilies.multivariate_digamma(5.0, 4),
      sum(scipy.special.digamma(5.0 - 0.5 * i) for i in range(4)))
''')

bug('c10-sensitivity-kept', 'C10', [
    (MS, '''        self.hyper_par_sensitivity = \\
            -1 * sp.linalg.cho_solve(
                self.hess0_chol, self.hyper_par_cross_hessian0)
''', '''        if hess0 is None or not hasattr(self, 'hyper_par_sensitivity'):
            self.hyper_par_sensitivity = \\
                -1 * sp.linalg.cho_solve(
                    self.hess0_chol, self.hyper_par_cross_hessian0)
''')],
    'set_base_values a second time, with a Hessian given',
    'the sensitivity of the former base is kept', '''
import LinearResponseVariationalBayes.ModelSensitivity
a = vb.VectorParam('a', 2); h = vb.VectorParam('h', 2)
f = lambda: anp.sum(0.5 * a.get() ** 2 - a.get() * h.get() ** 2)
h0 = np.array([1., 2.])
s = vb.ModelSensitivity.ParametricSensitivityLinearApproximation(f, a, h, h0 ** 2, h0)
h1 = np.array([3., -1.])
s.set_base_values(h1 ** 2, h1, hess0=np.eye(2))
close(s.get_dinput_dhyper(), np.diag(2 * h1))
''')
