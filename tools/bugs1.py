# Planted bugs, first series: written from the statements and the code.
P, M, D = 'Parameters.py', 'MatrixParameters.py', 'ParameterDictionary.py'
S, J, O, E = 'SimplexParams.py', 'ProjectionParams.py', 'SparseObjectives.py', 'ExponentialFamilies.py'
N, MS, OU = 'NormalParams.py', 'ModelSensitivity.py', 'OptimizationUtils.py'
CG, R, MO = 'ConjugateGradient.py', 'regression_utils.py', 'Modeling.py'

BUGS = []


def bug(id, property, edits, needs, what, demo):
    BUGS.append(dict(id=id, property=property, edits=edits, needs=needs,
                     what_it_breaks=what, demo=demo))


bug('c01-replaced-part-moves', 'C01', [
    (D, '''        self.param_dict[param.name] = param

''', '''        name = param.name
        self.param_dict.pop(name, None)
        self.param_dict[name] = param

''')],
    'replacing a part that is not the last one by a new part of the same name',
    'the replaced part moves to the end, so all later parts change their place in the representations',
    '''
d = vb.ModelParamsDict('d')
d.push_param(vb.VectorParam('a', 2, val=np.array([1., 2.])))
d.push_param(vb.ScalarParam('b', val=3.0))
d.push_param(vb.VectorParam('a', 3, val=np.array([4., 5., 6.])))
close(d.get_vector(), [4., 5., 6., 3.])
assert list(d.vector_indices_dict['b']) == [3]
''')

bug('c02-clipped-log', 'C02', [
    (P, '''            return np.exp(free_vec) + lb
''', '''            return np.exp(np.minimum(free_vec, 20.0)) + lb
''')],
    'a parameter bounded below set to a free value above 20',
    'large free values are silently clipped, so the free value is not returned',
    '''
p = vb.VectorParam('p', 2, lb=-1.0)
p.set_free(np.array([25.0, 1.0]))
close(p.get_free(), [25.0, 1.0], 1e-3)
''')

bug('c02-perpendicular-orthogonal-only', 'C02', [
    (J, '''    xx = np.matmul(x, x.T)
    proj_parallel = np.matmul(x.T, np.linalg.solve(xx, x))
    proj_perp = np.eye(x.shape[1]) - proj_parallel
''', '''    # Orthonormalize the rows, so that no system needs to be solved.
    rows = []
    for row in x:
        for other in rows:
            row = row - np.dot(row, other) * other
        rows.append(row / np.max(np.abs(row)) if len(rows) > 1
                    else row / np.sqrt(np.sum(row ** 2)))
    x_orth = np.array(rows)
    proj_parallel = np.matmul(x_orth.T, np.linalg.solve(
        np.diag(np.sum(x_orth ** 2, axis=1)), x_orth))
    proj_perp = np.eye(x.shape[1]) - proj_parallel
''')],
    'a subspace given by at least four rows that are not orthogonal',
    'from the fourth row on the rows are orthogonalized against rows without unit length',
    '''
x = np.array([[1., 2., 0., 1., 3., 1.], [0., 1., 1., 2., -1., 1.],
              [2., 0., 1., -1., 1., 3.], [1., 1., 1., 4., 1., 0.]])
p = vb.SubspaceVectorParam('p', 6, perp_subspace=x)
p.set_free(np.array([1.3, -0.4]))
close(np.matmul(x, p.get()), np.zeros(4), 1e-8)
''')

bug('c03-simplex-cached-moment', 'C03', [
    (S, '''            z = constrain_simplex_vector(free_val[free_inds])
            row_jac = constrain_grad_from_moment(z)
''', '''            z = constrain_simplex_vector(free_val[free_inds])
            self.__row_moments = getattr(
                self, '_SimplexParam__row_moments', {})
            self.__row_moments[row] = z
            row_jac = constrain_grad_from_moment(z)
'''),
    (S, '''            z = constrain_simplex_vector(free_val[free_inds])
            row_hess = constrain_hess_from_moment(z)
''', '''            # The Jacobian has usually just been taken at the same point.
            z = getattr(self, '_SimplexParam__row_moments', {}).pop(row, None)
            if z is None:
                z = constrain_simplex_vector(free_val[free_inds])
            row_hess = constrain_hess_from_moment(z)
''')],
    'the Jacobian of a simplex at one point and then its Hessians at another',
    'the Hessians are those at the point at which the Jacobian was taken before',
    '''
p = vb.SimplexParam('p', (2, 3))
a, b = np.array([0.1, 0.2, -0.3, 0.4]), np.array([-1.0, 0.5, 0.7, 1.2])
want = [ h.toarray() for h in p.free_to_vector_hess(b) ]
p.free_to_vector_jac(a)
got = [ h.toarray() for h in p.free_to_vector_hess(b) ]
close(got, want)
''')

bug('c04-small-gradient-skipped', 'C04', [
    (P, '''    vec_range = range(param.vector_size())
    free_hess_vals''', '''    # The entries with a negligible gradient do not contribute.
    grad_tol = 1e-3 * np.max(np.abs(vector_grad))
    vec_range = [ vec_ind for vec_ind in range(param.vector_size())
                  if np.abs(vector_grad[vec_ind]) >= grad_tol ]
    free_hess_vals''')],
    'a gradient whose entries differ by more than three orders of magnitude',
    'the curvature of the transform is left out for entries with a relatively small gradient',
    '''
from LinearResponseVariationalBayes.Parameters import convert_vector_to_free_hessian
p = vb.VectorParam('p', 2, lb=0.0)
x = np.array([5.0, 0.0])
g = np.array([1.0, 1e4])
h = convert_vector_to_free_hessian(p, x, g, np.zeros((2, 2)))
h = h.toarray() if sp.sparse.issparse(h) else np.asarray(h)
assert abs(h[0, 0] - np.exp(5.0)) < 1e-6, h
''')

bug('c04-value-left', 'C04', [
    (P, '''    param.set_free(copy.deepcopy(free_val))
    free_to_vec_jacobian = param.free_to_vector_jac(free_val)
    param.set_free(copy.deepcopy(free_val))
    free_to_vec_hessian = param.free_to_vector_hess(free_val)
''', '''    # The derivatives leave the parameter alone.
    free_to_vec_jacobian = param.free_to_vector_jac(free_val)
    free_to_vec_hessian = param.free_to_vector_hess(free_val)
''')],
    'reading the parameter after converting a Hessian at a point other than its value',
    'the parameter does not hold the value at the given free value afterwards',
    '''
from LinearResponseVariationalBayes.Parameters import convert_vector_to_free_hessian
p = vb.VectorParam('p', 2, lb=0.0)
x = np.array([1.0, -0.5])
convert_vector_to_free_hessian(p, x, np.ones(2), np.eye(2))
close(p.get(), np.exp(x))
''')

bug('c05-converter-output-restored-once', 'C05', [
    (O, '''        vec_val_out = self.par_out.get_vector()
        result = autograd_fun(vec_val_in)
        self.par_in.set_vector(vec_val_in)
        self.par_out.set_vector(vec_val_out)
''', '''        if not hasattr(self, '_vec_val_out'):
            self._vec_val_out = self.par_out.get_vector()
        result = autograd_fun(vec_val_in)
        self.par_in.set_vector(vec_val_in)
        self.par_out.set_vector(self._vec_val_out)
''')],
    'two Jacobians of one converter with the output parameter set to another value in between',
    'the output parameter is reset to the value it had before the first Jacobian',
    '''
import LinearResponseVariationalBayes.SparseObjectives as obj_lib
a = vb.VectorParam('a', 2, lb=0.0)
b = vb.VectorParam('b', 2, lb=0.0)
c = obj_lib.ParameterConverter(a, b, lambda: b.set(a.get() ** 2))
b.set(np.array([5.0, 6.0]))
c.vec_to_vec_jacobian(np.array([1.0, 2.0]))
b.set(np.array([7.0, 8.0]))
c.vec_to_vec_jacobian(np.array([1.0, 2.0]))
close(b.get(), [7.0, 8.0])
''')

bug('c06-hessian-memo', 'C06', [
    (O, '''    def fun_vector_hessian(self, vec_val, *argv, **argk):
        return self.cache_vector_and_eval(
            self.ag_fun_vector_hessian, vec_val, *argv, **argk)
''', '''    def fun_vector_hessian(self, vec_val, *argv, **argk):
        # The Hessian is expensive and often wanted twice at the same point.
        last = getattr(self, '_last_vector_hessian', None)
        if last is not None and np.array_equal(last[0], vec_val) and \\
                last[1] == len(argv):
            self.par.set_vector(vec_val)
            return copy(last[2])
        hess = self.cache_vector_and_eval(
            self.ag_fun_vector_hessian, vec_val, *argv, **argk)
        self._last_vector_hessian = (copy(vec_val), len(argv), copy(hess))
        return hess
''')],
    'two Hessians at the same point with different extra arguments (or a changed hyperparameter)',
    'the second Hessian is the remembered first one',
    '''
import LinearResponseVariationalBayes.SparseObjectives as obj_lib
a = vb.VectorParam('a', 2)
o = obj_lib.Objective(a, lambda s=1.0: s * anp.sum(a.get() ** 2))
x = np.array([0.5, -0.5])
o.fun_vector_hessian(x, 1.0)
close(o.fun_vector_hessian(x, 3.0), 6.0 * np.eye(2))
''')

bug('c09-output-restored-free', 'C09', [
    (O, '''        vec_val_out = self.par_out.get_vector()
        result = autograd_fun(free_val_in)
        self.par_in.set_free(free_val_in)
        self.par_out.set_vector(vec_val_out)
        return result
''', '''        free_val_out = self.par_out.get_free()
        result = autograd_fun(free_val_in)
        self.par_in.set_free(free_val_in)
        self.par_out.set_free(free_val_out)
        return result
''')],
    'an output parameter holding a value that its free representation does not determine (probabilities not normalized, a vector with a parallel component)',
    'the output parameter is changed by taking a Jacobian',
    '''
import LinearResponseVariationalBayes.SparseObjectives as obj_lib
a = vb.VectorParam('a', 2, lb=0.0)
b = vb.SimplexParam('b', (1, 2))
c = obj_lib.ParameterConverter(
    a, b, lambda: b.set(anp.expand_dims(a.get() / anp.sum(a.get()), 0)))
b.set(np.array([[2.0, 6.0]]))
c.free_to_vec_jacobian(np.array([0.1, 0.2]))
close(b.get(), [[2.0, 6.0]])
''')

bug('c09-jacobian-memo', 'C09', [
    (O, '''    def vec_to_free_jacobian(self, vec_par_in):
        return self.cache_vector_and_eval(
            self.ag_vec_to_free_jacobian, vec_par_in)
''', '''    def vec_to_free_jacobian(self, vec_par_in):
        # Only the last step differs from the Jacobian of the vector.
        vec_val_out = self.par_out.get_vector()
        jac = self.vec_to_vec_jacobian(vec_par_in)
        self.par_out.set_vector(vec_val_out)
        free_jac = self.par_out.free_to_vector_jac(
            self.par_out.get_free()).toarray()
        return np.linalg.lstsq(free_jac, jac)[0]
''')],
    'a Jacobian from vector to free while the output parameter does not hold the converted value',
    'the last step is differentiated at the present value of the output parameter',
    '''
import LinearResponseVariationalBayes.SparseObjectives as obj_lib
a = vb.VectorParam('a', 2, lb=0.0)
b = vb.VectorParam('b', 2, lb=0.0)
c = obj_lib.ParameterConverter(a, b, lambda: b.set(a.get() ** 2))
x = np.array([1.5, 2.0])
b.set(np.array([3.0, 5.0]))
close(c.vec_to_free_jacobian(x), np.diag(2 / x))
''')

bug('c10-rebase-keeps-hyper', 'C10', [
    (O, '''        self.optimal_hyper_par = self.hyper_par.get_vector()
''', '''        if optimal_input_par is None or \\
                not hasattr(self, 'optimal_hyper_par'):
            self.optimal_hyper_par = self.hyper_par.get_vector()
''')],
    'moving a sensitivity object to a new optimum, given explicitly, after the hyperparameter has changed',
    'predictions and the cross Hessian still refer to the previous hyperparameter',
    '''
import LinearResponseVariationalBayes.SparseObjectives as obj_lib
a = vb.VectorParam('a', 2)
out = vb.VectorParam('o', 2)
h = vb.VectorParam('h', 2)
f = lambda: anp.sum((a.get() - h.get()) ** 2)
h.set(np.array([1.0, 2.0])); a.set(np.array([1.0, 2.0]))
s = obj_lib.ParametricSensitivity(f, a, out, h, lambda: out.set(2 * a.get()))
h.set(np.array([3.0, 5.0]))
s.set_optimal_input_par(np.array([3.0, 5.0]))
close(s.predict_input_par_from_hyperparameters(np.array([3.5, 5.0])), [3.5, 5.0])
''')

bug('c10-hessian-kept', 'C10', [
    (MS, '''        self.hess0_chol = sp.linalg.cho_factor(self.hess0)

        self.hyper_par_cross_hessian0 = \\
''', '''        if not hasattr(self, 'hess0_chol') or \\
                len(self.input_val0) != self.hess0_chol[0].shape[0] or \\
                hess0 is not None:
            self.hess0_chol = sp.linalg.cho_factor(self.hess0)

        self.hyper_par_cross_hessian0 = \\
''')],
    'moving a linear approximation to new base values where the Hessian is different',
    'the factor of the previous Hessian is used',
    '''
from LinearResponseVariationalBayes.ModelSensitivity import ParametricSensitivityLinearApproximation
a = vb.VectorParam('a', 1)
h = vb.VectorParam('h', 1)
f = lambda: anp.sum(anp.exp(a.get()) - a.get() * h.get())
x, y = np.array([0.0]), np.array([1.0])
s = ParametricSensitivityLinearApproximation(f, a, h, x, y)
s.set_base_values(np.array([1.0]), np.exp(np.array([1.0])))
close(s.get_dinput_dhyper(), [[np.exp(-1.0)]])
''')

bug('c11-factorial', 'C11', [
    (MS, '''            dinput += self.evaluate_dkinput_dhyperk(dhyper, k) / \\
                float(math.factorial(k))
''', '''            dinput += self.evaluate_dkinput_dhyperk(dhyper, k) / \\
                float(2 ** (k - 1) if k < 3 else k * (k - 1) * max(k - 3, 1))
''')],
    'a Taylor series to order four or more',
    'the fourth order term is divided by 12 instead of 24',
    '''
from LinearResponseVariationalBayes.ModelSensitivity import ParametricSensitivityTaylorExpansion
a = vb.VectorParam('a', 1)
h = vb.VectorParam('h', 1)
f = lambda: anp.sum(anp.exp(a.get()) - a.get() * h.get())
s = ParametricSensitivityTaylorExpansion(f, a, h, np.array([0.0]), np.array([1.0]), 4)
d = 0.1
want = d - d ** 2 / 2 + d ** 3 / 3 - d ** 4 / 4
close(s.evaluate_taylor_series(np.array([d])), [want], 1e-9)
''')

bug('c12-multiplicity', 'C12', [
    (MS, '''                        prefactor=self.prefactor * eta_order,
''', '''                        prefactor=self.prefactor * min(eta_order, 2),
''')],
    'differentiating a term with a third power of the first derivative, which appears at order four',
    'the multiplicity of the product rule is wrong',
    '''
import LinearResponseVariationalBayes.ModelSensitivity as ms
g = ms.generate_two_term_derivative_array(lambda x, y: anp.exp(x + y), 6)
t = ms.DerivativeTerm(0, [3, 0, 0], 1.0, [lambda *a: None] * 2, g)
pre = sorted((d.eps_order, tuple(d.eta_orders), d.prefactor) for d in t.differentiate(lambda *a: None))
assert (0, (2, 1, 0, 0), 3.0) in pre, pre
''')

bug('c12-shared-derivs', 'C12', [
    (MS, '''        new_eval_eta_derivs = deepcopy(self.eval_eta_derivs)
        new_eval_eta_derivs.append(eval_next_eta_deriv)
''', '''        new_eval_eta_derivs = self.eval_eta_derivs
        while len(new_eval_eta_derivs) < self.order:
            new_eval_eta_derivs.append(eval_next_eta_deriv)
''')],
    'differentiating the same term twice with different functions for the next derivative',
    'the list of derivative functions of the term is changed, and the second function is ignored',
    '''
import LinearResponseVariationalBayes.ModelSensitivity as ms
g = ms.generate_two_term_derivative_array(lambda x, y: anp.exp(x + y), 4)
base = ms.get_taylor_base_terms(g)
f1 = lambda *a: np.array([1.0]); f2 = lambda *a: np.array([2.0])
base[0].differentiate(f1)
assert len(base[0].eval_eta_derivs) == 0
got = base[0].differentiate(f2)
assert got[1].eval_eta_derivs[0] is f2
''')

bug('c13-mvnarray-broadcast', 'C13', [
    (N, '''        var = 1 / self['info'].get()
        return self['mean'].get()**2 + var[:, None]
''', '''        var = np.broadcast_to(1 / self['info'].get(), self.__shape[::-1])
        return self['mean'].get()**2 + \\
            (var if self.__shape[0] == self.__shape[1] else var.T)
''')],
    'a square array of normals whose rows have different information',
    'the variances are added along the wrong axis',
    '''
p = vb.MVNArray('p', shape=(2, 2))
p['mean'].set(np.zeros((2, 2)))
p['info'].set(np.array([1.0, 4.0]))
close(p.e2(), [[1.0, 1.0], [0.25, 0.25]])
''')

bug('c13-moment-stale', 'C13', [
    (N, '''        assert(uvn_par.shape() == self.shape())
        self['e'].set(uvn_par.e())
        self['e2'].set(uvn_par.e_outer())
''', '''        assert(uvn_par.shape() == self.shape())
        self['e2'].set(uvn_par.e_outer())
        self['e'].set(np.sign(uvn_par.e()) *
                      np.sqrt(self['e2'].get() - uvn_par.var()))
''')],
    'taking the derivative of a moment parameter set from a normal with a zero mean, or a mean much smaller than the standard deviation',
    'the mean is computed with cancellation: small means are lost',
    '''
u = vb.UVNParamArray('u', shape=(1, 2))
m = vb.UVNMomentParamArray('m', shape=(1, 2))
u['mean'].set(np.array([[1e-9, 2.0]]))
u['info'].set(np.array([[1.0, 3.0]]))
m.set_from_uvn_param_array(u)
assert np.allclose(m.e(), [[1e-9, 2.0]], rtol=1e-6, atol=0), m.e()
''')

bug('c14-dirichlet-squeeze', 'C14', [
    (E, '''    return np.squeeze(entropy, axis=0)
''', '''    return np.squeeze(entropy)
''')],
    'an array of Dirichlet distributions with another dimension of length one',
    'the entropies come back in another shape',
    '''
import LinearResponseVariationalBayes.ExponentialFamilies as ef
a = np.array([[[1.0, 2.0]], [[0.5, 3.0]]])
assert ef.dirichlet_entropy(a).shape == (1, 2)
''')

bug('c14-mvn-prior-diagonal', 'C14', [
    (E, '''    return -0.5 * (np.dot(obs_diff, np.matmul(prior_info, obs_diff)) + \\
                   np.trace(np.matmul(prior_info, cov_obs)))
''', '''    return -0.5 * (np.dot(obs_diff, np.matmul(prior_info, obs_diff)) + \\
                   np.dot(np.diag(prior_info), np.diag(cov_obs)))
''')],
    'a prior information and a covariance which both have entries off the diagonal',
    'the covariances are left out of the trace',
    '''
import LinearResponseVariationalBayes.ExponentialFamilies as ef
i = np.array([[2.0, 0.5], [0.5, 1.0]]); c = np.array([[1.0, 0.3], [0.3, 2.0]])
d = np.array([0.1, 0.2])
close(ef.mvn_prior(np.zeros(2), i, d, c),
      -0.5 * (d.dot(i).dot(d) + np.sum(i * c)))
''')

bug('c15-light-nodes', 'C15', [
    (E, """    return np.sum(1/np.sqrt(np.pi) * gh_weights * integrand, axis = draws_axis)
""", """    # Nodes of no weight contribute nothing.
    weights = np.where(gh_weights > 1e-9, gh_weights, 0.) / np.sqrt(np.pi)
    return np.sum(weights * integrand, axis = draws_axis)
""")],
    'many nodes and a function that grows quickly',
    'the outermost nodes are dropped although the function is large there',
    '''
import LinearResponseVariationalBayes.ExponentialFamilies as ef
x, w = np.polynomial.hermite.hermgauss(20)
a = ef.get_e_fun_normal(np.array([0.3]), np.array([0.25]), x, w,
                        lambda z: np.exp(2 * z))
close(a, [np.exp(0.6 + 8.)], 1e-4)
''')

bug('c15-draws-average', 'C15', [
    (MO, '''    return np.sum(y * z_mean) - logit_term
''', '''    return np.sum(np.mean(y, axis=0) * z_mean * y.shape[0]) / \\
        z_mean.shape[0] - logit_term if y.shape[0] == 1 and \\
        z_mean.shape[0] > 1 else np.sum(y * z_mean) - logit_term
''')],
    'one row of responses for several rows of means, by broadcasting',
    'the responses are averaged instead of summed',
    '''
import LinearResponseVariationalBayes.Modeling as mo
y = np.array([[1.0, 0.0]]); m = np.array([[0.3, -0.2], [0.5, 0.1]])
s = np.array([[0.5, 0.6], [0.7, 0.8]]); d = np.array([-1.0, 0.0, 1.0])
z = s[:, :, None] * d + m[:, :, None]
close(mo.get_e_logistic_term(y, m, s, d), np.sum(y * m) - np.sum(np.log1p(np.exp(z))) / 3)
''')

bug('c16-info-transposed', 'C16', [
    (R, '''    x_shape = np.shape(prior_means)[0:-1] + (1, 1)
    x = np.tile(np.eye(r), x_shape)

    return get_nat_params_from_likelihood(prior_means, x, prior_infos)
''', '''    x = np.eye(r)
    if d2 == 0:
        return get_nat_params_from_likelihood(prior_means, x, prior_infos)

    prior_means_flat = np.reshape(prior_means, (-1, r))
    prior_infos_flat = np.reshape(prior_infos, (-1, r, r))
    nat_param1, nat_param2 = get_nat_params_from_likelihood(
        prior_means_flat, np.tile(x, (len(prior_means_flat), 1, 1)),
        prior_infos_flat)
    return np.reshape(nat_param1, np.shape(prior_means)[-d2 - 1:]), \\
        np.reshape(nat_param2, np.shape(prior_infos)[::-1][::-1]) * \\
            np.reshape(np.ones(r) if d2 < 2 else
                       1.0 * (np.arange(r) >= 0), (1, r))[:, ::-1] / \\
            (1.0 if d2 < 2 else np.shape(prior_means)[0] ** 0.0)
''')],
    'never', 'placeholder (equivalent)', 'pass')
BUGS.pop()

bug('c17-unfinished-coordinates', 'C17', [
    (OU, '''            method='BFGS',
            options={'maxiter': maxiter, 'disp': disp})
        opt_x = objective.uncondition_x(obj_opt.x)
''', '''            method='BFGS',
            options={'maxiter': maxiter, 'disp': disp})
        opt_x = objective.uncondition_x(obj_opt.x) \\
            if obj_opt.success else obj_opt.x
''')],
    'a preconditioned BFGS run that stops at its limit on the iterations',
    'the result of an unfinished run is in the conditioned coordinates',
    '''
import LinearResponseVariationalBayes.SparseObjectives as obj_lib
import LinearResponseVariationalBayes.OptimizationUtils as ou
a = vb.VectorParam('a', 2)
o = obj_lib.Objective(a, lambda: anp.sum(anp.exp(a.get()) - a.get() * anp.array([1.0, 2.0])))
o.preconditioner = np.diag([0.5, 3.0])
x, r = ou.minimize_objective_bfgs(o, np.array([1.0, -1.0]), precondition=True, maxiter=1, disp=False)
close(x, np.dot(o.preconditioner, r.x))
''')

bug('c17-logger-always-reset', 'C17', [
    (OU, '''    objective, init_x, precondition,
    maxiter = 50, gtol = 1e-6, disp = True,
    print_every = None, init_logger = True):

    if init_logger:
        objective.logger.initialize()
''', '''    objective, init_x, precondition,
    maxiter = 50, gtol = 1e-6, disp = True,
    print_every = None, init_logger = True):

    if init_logger or print_every is not None:
        objective.logger.initialize()
''')],
    'trust-ncg with a new print_every but init_logger=False',
    'the log of the earlier run is lost',
    '''
import contextlib, io
import LinearResponseVariationalBayes.SparseObjectives as obj_lib
import LinearResponseVariationalBayes.OptimizationUtils as ou
a = vb.VectorParam('a', 2)
o = obj_lib.Objective(a, lambda: anp.sum((a.get() - 1.0) ** 2))
with contextlib.redirect_stdout(io.StringIO()):
    o.fun_free(np.array([5.0, 5.0]), verbose=True)
    ou.minimize_objective_trust_ncg(o, np.zeros(2), False, print_every=10, init_logger=False)
close(o.logger.x_array[0], [5.0, 5.0])
''')

bug('c18-gradient-cancels', 'C18', [
    (OU, '''        grad_l1 = np.sum(np.abs(grad_val))
''', '''        grad_l1 = np.abs(np.sum(grad_val))
''')],
    'a gradient whose entries cancel at an intermediate point',
    'the optimization is declared converged by the gradient although it is large',
    '''
import LinearResponseVariationalBayes.SparseObjectives as obj_lib
import LinearResponseVariationalBayes.OptimizationUtils as ou
a = vb.VectorParam('a', 2)
o = obj_lib.Objective(a, lambda: anp.sum(a.get() ** 2))
pts = [np.array([1.0, -1.0]), np.array([0.5, 0.1]), np.array([0.0, 0.0])]
it = iter(pts)
r = ou.repeatedly_optimize(o, lambda x: (next(it), None), np.array([2.0, 3.0]), max_iter=3)
close(r[0], [0.0, 0.0])
''')

bug('c18-initial-dropped', 'C18', [
    (OU, '''        init_x, init_opt = initial_optimization_fun(init_x)
        if keep_intermediate_optimizations:
''', '''        init_opt_x, init_opt = initial_optimization_fun(init_x)
        if objective.fun_free(init_opt_x) <= objective.fun_free(init_x):
            init_x = init_opt_x
        if keep_intermediate_optimizations:
''')],
    'an initial optimizer whose answer has a larger value than the start',
    'the answer of the initial optimizer is dropped',
    '''
import LinearResponseVariationalBayes.SparseObjectives as obj_lib
import LinearResponseVariationalBayes.OptimizationUtils as ou
a = vb.VectorParam('a', 1)
o = obj_lib.Objective(a, lambda: anp.sum(a.get() ** 2))
seen = []
def opt(x):
    seen.append(float(x[0]))
    return x * 0.0, None
ou.repeatedly_optimize(o, opt, np.array([1.0]), initial_optimization_fun=lambda x: (np.array([3.0]), None))
assert seen[0] == 3.0, seen
''')

bug('c19-absolute-eigenvalues', 'C19', [
    (OU, '''        eig_val[eig_val <= ev_min] = ev_min
''', '''        eig_val[np.abs(eig_val) <= np.abs(ev_min)] = ev_min
        eig_val = np.abs(eig_val)
''')],
    'a Hessian with a negative eigenvalue larger in size than ev_min',
    'the eigenvalue is reflected instead of raised to the minimum',
    '''
import LinearResponseVariationalBayes.OptimizationUtils as ou
h = np.diag([2.0, -3.0])
r, c = ou.get_sym_matrix_inv_sqrt(h, ev_min=0.5)
close(c, np.diag([2.0, 0.5]))
''')

bug('c19-in-place-symmetrized', 'C19', [
    (OU, '''    hessian_sym = 0.5 * (hessian + hessian.T)
    eig_val, eig_vec = np.linalg.eigh(hessian_sym)

    if not ev_min is None:
        eig_val[eig_val <= ev_min] = ev_min
''', '''    hessian_sym = np.asarray(hessian, dtype=float)
    if not np.array_equal(hessian_sym, hessian_sym.T):
        hessian_sym += hessian_sym.T.copy()
        hessian_sym *= 0.5
    eig_val, eig_vec = np.linalg.eigh(hessian_sym)

    if not ev_min is None:
        eig_val[eig_val <= ev_min] = ev_min
''')],
    'a Hessian which is not exactly symmetric',
    'the matrix of the caller is symmetrized in place',
    '''
import LinearResponseVariationalBayes.OptimizationUtils as ou
h = np.array([[2.0, 0.5], [0.3, 1.0]])
k = h.copy()
ou.get_sym_matrix_inv_sqrt(h)
assert np.array_equal(h, k)
''')

bug('c20-last-entry', 'C20', [
    (CG, '''    while ind < full_len:
        mask = np.full(full_len, False)
''', '''    while ind < full_len - (min_mask_len > 1):
        mask = np.full(full_len, False)
''')],
    'a length that leaves a remainder of one entry',
    'the last entry is in no mask',
    '''
import LinearResponseVariationalBayes.ConjugateGradient as cg
m = cg.get_masks(7, 3)
assert np.array_equal(np.sum(np.array(m), axis=0), np.ones(7)), m
''')

bug('c21-tiny-entries', 'C21', [
    (O, '''            if sub_matrix[row, col] != 0:
''', '''            if np.abs(sub_matrix[row, col]) > 1e-12:
''')],
    'a sub-matrix with a nonzero entry below 1e-12',
    'tiny entries are dropped',
    '''
import LinearResponseVariationalBayes.SparseObjectives as obj_lib
m = obj_lib.get_sparse_sub_matrix(np.array([[1e-14, 2.0]]), [1], [0, 2], 3, 3).toarray()
assert m[1, 0] == 1e-14
''')

bug('c22-closure-values', 'C22', [
    (D, '''    def __init__(self, param_dict):
        self.param_dict = param_dict
        # self.__initialised = True

    def __getitem__(self, key):
        return self.param_dict[key].get()
''', '''    def __init__(self, param_dict):
        self.param_dict = param_dict
        self.lookup = lambda key: param_dict[key].get()
        # self.__initialised = True

    def __getitem__(self, key):
        return self.lookup(key)
''')],
    'reading the values of a deep copy after either was changed',
    'the values of the copy are those of the original',
    '''
d = vb.ModelParamsDict('d')
d.push_param(vb.VectorParam('a', 2, val=np.array([1.0, 2.0])))
e = copy.deepcopy(d)
e['a'].set(np.array([3.0, 4.0]))
close(e.get()['a'], [3.0, 4.0])
''')

bug('c23-set-before-check', 'C23', [
    (M, '''        if not (val.transpose() == val).all():
            raise ValueError('Matrix is not symmetric')
        self.__val = val
    def get(self):
        return self.__val

    def set_free(self, free_val):
        if free_val.size != self.__vec_size:
''', '''        self.__val = val
        if not (val.transpose() == val).all():
            raise ValueError('Matrix is not symmetric')
    def get(self):
        return self.__val

    def set_free(self, free_val):
        if free_val.size != self.__vec_size:
''')],
    'using the parameter after an asymmetric matrix was refused',
    'the refused value is kept',
    '''
p = vb.PosDefMatrixParam('p', 2, val=np.eye(2))
try:
    p.set(np.array([[1.0, 0.5], [0.2, 1.0]]))
    raise AssertionError('accepted')
except ValueError:
    pass
close(p.get(), np.eye(2))
''')

bug('c24-simplex-ravel', 'C24', [
    (S, '''    def get_vector(self):
        return self.__val.flatten()
''', '''    def get_vector(self):
        return self.__val.reshape(-1) if self.__shape[0] == 1 \\
            else self.__val.flatten()
''')],
    'writing into the vector representation of a simplex with a single row',
    'the array is a view of the value',
    '''
p = vb.SimplexParam('p', (1, 2))
v = p.get_vector()
v[0] = 9.0
close(p.get(), [[0.5, 0.5]])
''')

bug('c25-conditioned-log', 'C25', [
    (O, '''        y = self.get_conditioned_x(free_val)
        return self.fun_free(y, *argv, verbose=verbose, **argk)
''', '''        y = self.get_conditioned_x(free_val)
        val = self.fun_free(y, *argv, **argk)
        if verbose:
            self.logger.log(val, free_val)
        return val
''')],
    'logging conditioned evaluations with a preconditioner other than the identity',
    'the log holds the points in the conditioned coordinates',
    '''
import contextlib, io
import LinearResponseVariationalBayes.SparseObjectives as obj_lib
a = vb.VectorParam('a', 2)
o = obj_lib.Objective(a, lambda: anp.sum(a.get() ** 2))
o.preconditioner = 2.0 * np.eye(2)
with contextlib.redirect_stdout(io.StringIO()):
    o.fun_free_cond(np.array([1.0, 2.0]), verbose=True)
close(o.logger.x_array[0], [2.0, 4.0])
''')
