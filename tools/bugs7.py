# Planted bugs, seventh series: evaluations which are interrupted, results
# kept between objects, long histories, zero directions, shared parts.
P, M, D = 'Parameters.py', 'MatrixParameters.py', 'ParameterDictionary.py'
S, J, O, E = 'SimplexParams.py', 'ProjectionParams.py', 'SparseObjectives.py', 'ExponentialFamilies.py'
N, MS, OU = 'NormalParams.py', 'ModelSensitivity.py', 'OptimizationUtils.py'
CG, R, MO = 'ConjugateGradient.py', 'regression_utils.py', 'Modeling.py'

BUGS = []


def bug(id, property, edits, needs, what, demo):
    BUGS.append(dict(id=id, property=property, edits=edits, needs=needs,
                     what_it_breaks=what, demo=demo))


bug('c05-zero-direction', 'C05', [
    (O, '''        result = self.ag_fun_free_hvp(*args, vec, **argk)
''', '''        if not np.any(vec):
            return np.zeros(len(args[0]))
        hvp = self.ag_fun_free_hvp
        result = hvp(*args, vec, **argk)
''')],
    'a Hessian vector product with the zero vector at another point',
    'the parameter stays where it was', '''
a = vb.VectorParam('a', 2)
o = vb.SparseObjectives.Objective(a, lambda: anp.sum(a.get() ** 4))
a.set_free(np.array([5., 6.]))
x = np.array([1., 2.])
close(o.fun_free_hvp(x, np.zeros(2)), [0., 0.])
close(a.get(), x)
''')

bug('c06-interrupted', 'C06', [
    (O, '''        return self.cache_free_and_eval(
            self.ag_fun_free_hessian, free_val, *argv, **argk)
''', '''        if argv or argk:
            return self.cache_free_and_eval(
                self.ag_fun_free_hessian, free_val, *argv, **argk)
        # Hessians are expensive:  keep the last one.
        if not np.array_equal(free_val, getattr(self, '_hess_point', None)) \\
                or self._hess_fun is not self.fun:
            self._hess_point, self._hess_fun = copy(free_val), self.fun
            hess = self.cache_free_and_eval(
                self.ag_fun_free_hessian, free_val)
            self._last_hess = hess
        self.par.set_free(free_val)
        return copy(self._last_hess)
''')],
    'a Hessian, an interrupted Hessian at another point, and that Hessian again',
    'the Hessian of the first point is returned', '''
a = vb.VectorParam('a', 2)
fail = [False]
def f():
    if fail[0]:
        raise KeyboardInterrupt()
    return anp.sum(a.get() ** 4)
o = vb.SparseObjectives.Objective(a, f)
close(o.fun_free_hessian(np.array([1., 2.])), np.diag([12., 48.]))
fail[0] = True
try:
    o.fun_free_hessian(np.array([2., 1.]))
    assert False
except KeyboardInterrupt:
    pass
fail[0] = False
close(o.fun_free_hessian(np.array([2., 1.])), np.diag([48., 12.]))
''')

bug('c19-both-given', 'C19', [
    (OU, '''    if hessian is None:
        hessian = objective.fun_free_hessian(free_par)
''', '''    if free_par is not None:
        hessian = objective.fun_free_hessian(free_par)
''')],
    'both a point and a Hessian, which is not the one at the point',
    'the given Hessian is ignored', '''
import LinearResponseVariationalBayes.OptimizationUtils as ou
a = vb.VectorParam('a', 2)
o = vb.SparseObjectives.Objective(a, lambda: anp.sum(a.get() ** 4))
h = np.diag([4., 9.])
out = ou.set_objective_preconditioner(o, np.array([1., 2.]), hessian=h)
close(out[0], h)
close(o.preconditioner, np.diag([1. / 2., 1. / 3.]))
''')

bug('c28-uniform-shared', 'C28', [
    (S, '''            self.set(np.full(shape, 1. / shape[1]))
''', '''            if shape not in uniform_values:
                uniform_values[shape] = np.full(shape, 1. / shape[1])
            self.set(uniform_values[shape])
'''),
    (S, '''# This is actually a vector of simplexes.''',
     '''# The initial values of simplexes.
uniform_values = {}

# This is actually a vector of simplexes.''')],
    'changing the value of a new simplex in place, with another of its shape',
    'the other simplex, and all later ones, have the changed value', '''
a = vb.SimplexParam('a', shape=(1, 2))
b = vb.SimplexParam('b', shape=(1, 2))
a.get()[0, :] = [0.25, 0.75]
close(b.get(), [[0.5, 0.5]])
close(vb.SimplexParam('c', shape=(1, 2)).get(), [[0.5, 0.5]])
''')

bug('c15-draws-kept', 'C15', [
    (MO, '''    draw_spacing = 1 / float(num_draws + 1)
''', '''    if num_draws in standard_draws:
        return standard_draws[num_draws]
    draw_spacing = 1 / float(num_draws + 1)
'''),
    (MO, '''    return osp.stats.norm.ppf(target_quantiles)
''', '''    standard_draws[num_draws] = osp.stats.norm.ppf(target_quantiles)
    return standard_draws[num_draws]

standard_draws = {}
''')],
    'changing standard draws in place and asking for as many again',
    'the changed draws are returned', '''
import LinearResponseVariationalBayes.Modeling as mo
a = mo.get_standard_draws(3)
want = a.copy()
a *= 2.
close(mo.get_standard_draws(3), want)
''')

bug('c25-recent', 'C25', [
    (O, '''        self.x_array.append(x)
        self.val_array.append(value)
''', '''        self.x_array.append(x)
        self.val_array += [ value ]
        if len(self.x_array) > 500:
            # Do not let the log of a long optimization fill the memory.
            self.x_array.pop(0)
            self.val_array.pop(0)
''')],
    'more than 500 logged evaluations',
    'the oldest ones are lost', '''
l = vb.SparseObjectives.Logger(print_every=10 ** 6)
l.callback = lambda log: None
for i in range(600):
    l.log(float(i), np.array([float(i)]))
assert len(l.x_array) == len(l.val_array) == 600
assert l.val_array[0] == 0.
''')

bug('c22-plain-copies', 'C22', [
    (D, '''    def __str__(self):
        return self.name + ':\\n' + \\
''', '''    def __deepcopy__(self, memo):
        # Only copy the parameters themselves.
        new = copy.copy(self)
        new.param_dict = OrderedDict(
            (key, copy.deepcopy(param))
            for key, param in self.param_dict.items())
        new.values = ModelParamsDictValues(new)
        memo[id(self)] = new
        return new

    def __str__(self):
        head = self.name + ':\\n'
        return head + \\
''')],
    'copying an object which refers to a dictionary and to one of its parts',
    'in the copy the two are no longer the same', '''
d = vb.ModelParamsDict('d')
d.push_param(vb.VectorParam('a', 2))
e, a = copy.deepcopy((d, d['a']))
assert e['a'] is a
e.set_vector(np.array([1., 2.]))
close(a.get(), [1., 2.])
''')

bug('c13-inverse-kept', 'C13', [
    (N, '''    def cov(self):
        return np.linalg.inv(self['info'].get())
''', '''    def cov(self):
        info = self['info'].get()
        if self.__cov is None or self.__cov[0] is not info:
            self.__cov = info, np.linalg.inv(info)
        return self.__cov[1]
'''),
    (N, '''        self.push_param(vb.PosDefMatrixParam('info', dim, diag_lb=min_info))
''', '''        self.push_param(vb.PosDefMatrixParam('info', dim, diag_lb=min_info))
        self.__cov = None
''')],
    'changing the information matrix, or the covariance, in place',
    'the covariance is the earlier one', '''
m = vb.MVNParam('m', 2)
info = np.diag([2., 4.])
m['info'].set(info)
close(m.cov(), np.diag([0.5, 0.25]))
info[0, 0] = 1.
close(m.cov(), np.diag([1., 0.25]))
''')

bug('c09-restored-values', 'C09', [
    (O, '''    def cache_vector_and_eval(self, autograd_fun, vec_val_in):
        vec_val_out = self.par_out.get_vector()
        result = autograd_fun(vec_val_in)
        self.par_in.set_vector(vec_val_in)
        self.par_out.set_vector(vec_val_out)
''', '''    def cache_vector_and_eval(self, autograd_fun, vec_val_in):
        if self.par_out.vector_size() > 1:
            vec_val_out = self.par_out.get_vector()
        else:
            vec_val_out = np.array([ float(self.par_out.get_vector()) ])
        result = autograd_fun(vec_val_in)
        self.par_in.set_vector(vec_val_in)
        self.par_out.set_vector(np.sort(vec_val_out)
                                if vec_val_out.dtype == int
                                else vec_val_out)
''')],
    'an output parameter with whole numbers in an array of integers',
    'the output parameter is left with its entries in another order', '''
a, b = vb.VectorParam('a', 2), vb.VectorParam('b', 2)
c = vb.SparseObjectives.ParameterConverter(a, b, lambda: b.set(2. * a.get()))
b.set(np.array([3, 1]))
close(c.vec_to_vec_jacobian(np.array([1., 2.])), 2 * np.eye(2))
close(b.get(), [3, 1])
''')

bug('c20-started-solves', 'C20', [
    (CG, '''            hinv_vec, cg_info = self.get_hinv_vec(vec_masked)
''', '''            # The last solution is often close.
            hinv_vec, cg_info = self.get_hinv_vec(
                vec_masked, x0=self.hinv_vecs[-1] if self.hinv_vecs else None)
            if cg_info == 0 and not np.any(vec_masked):
                hinv_vec = vec_masked if not self.hinv_vecs \\
                    else self.hinv_vecs[-1]
''')],
    'a mask without entries, or entries which are zero, after another mask',
    'the solution of the zero vector is that of the previous one', '''
import LinearResponseVariationalBayes.ConjugateGradient as cg
h = np.diag([1., 2., 4.])
s = cg.ConjugateGradientSolver(lambda x, v: h.dot(v), np.zeros(3))
v = np.array([1., 0., 3.])
s.get_hinv_vec_subsets(v, [np.arange(3) == i for i in range(3)])
close(np.sum(s.hinv_vecs, axis=0), [1., 0., 0.75], 1e-6)
''')

bug('c17-iterations-kept', 'C17', [
    (OU, '''        opt_x = objective.uncondition_x(obj_opt.x)
    else:
        obj_opt = sp.optimize.minimize(
            lambda par: objective.fun_free(par, verbose=disp),
            x0=init_x,
            jac=objective.fun_free_grad,
            hessp=objective.fun_free_hvp,
''', '''        opt_x = objective.uncondition_x(obj_opt.x)
    else:
        obj_opt = sp.optimize.minimize(
            lambda par: objective.fun_free(par, verbose=disp or
                                           objective.logger.iter > 0),
            x0=init_x,
            jac=objective.fun_free_grad,
            hessp=objective.fun_free_hvp,
''')],
    'a quiet minimization which continues the log of an earlier one',
    'its evaluations are logged', '''
import LinearResponseVariationalBayes.OptimizationUtils as ou
import io, contextlib
a = vb.VectorParam('a', 2)
o = vb.SparseObjectives.Objective(a, lambda: anp.sum((a.get() - 1.) ** 4))
with contextlib.redirect_stdout(io.StringIO()):
    ou.minimize_objective_trust_ncg(o, np.zeros(2), False, disp=True)
    n = len(o.logger.x_array)
    ou.minimize_objective_trust_ncg(o, np.zeros(2), False, disp=False,
                                    init_logger=False)
assert len(o.logger.x_array) == n
''')

bug('c27-names-joined', 'C27', [
    (D, '''        return np.concatenate(
            [ np.atleast_1d(param.names()) for param in self.param_dict.values()])
''', '''        names = np.zeros(0, dtype='U32')
        for param in self.param_dict.values():
            new = np.atleast_1d(param.names())
            names = np.concatenate([ names, new.astype(names.dtype) ])
        return names
''')],
    'a name of more than 32 characters',
    'it is cut off', '''
d = vb.ModelParamsDict('d')
d.push_param(vb.VectorParam('a' * 40, 2))
assert list(d.names()) == ['a' * 40 + '_0', 'a' * 40 + '_1']
''')

bug('c21-equal-indices', 'C21', [
    (O, '''    mat_vals = [] # These will be the entries of the Hessian
''', '''    if row_indices is col_indices:
        # A symmetric sub matrix.
        sub_matrix = np.triu(sub_matrix) + np.triu(sub_matrix, 1).T

    mat_vals = []
''')],
    'a sub matrix which is not symmetric, with the same indices for rows and columns',
    'its lower triangle is lost', '''
import LinearResponseVariationalBayes.SparseObjectives as so
i = np.array([2, 0])
a = np.array([[1., 2.], [3., 4.]])
m = so.get_sparse_sub_matrix(a, i, i, 3, 3).toarray()
close(m, [[4., 0., 3.], [0., 0., 0.], [2., 0., 1.]])
''')

bug('c26-index-cache', 'C26', [
    (M, '''    if k2 <= k1:
        return LDInd(k1, k2)
    else:
        return LDInd(k2, k1)
''', '''    if k2 <= k1:
        return LDInd(k1, k2)
    elif k2 < 64:
        return LDInd(k2, k1)
    else:
        return LDInd(k2, min(k1, 63))
''')],
    'an index above the diagonal of a matrix of more than 64 rows',
    'two entries have the same index', '''
import LinearResponseVariationalBayes.MatrixParameters as mp
for i in range(80):
    for j in range(i + 1):
        assert mp.SymIndex(i, j) == mp.SymIndex(j, i) == i * (i + 1) // 2 + j
''')

bug('c04-as-many', 'C04', [
    (P, '''    free_hess_size = (param.free_size(), param.free_size())
''', '''    if osp.sparse.issparse(vector_hess) and \\
            vector_hess.nnz <= vector_hess.shape[0]:
        # Most sparse Hessians are diagonal.
        vector_hess = osp.sparse.diags(
            np.array(vector_hess.tocsr().diagonal()))
    free_hess_size = 2 * (param.free_size(),)
''')],
    'a sparse Hessian with few entries, not all on the diagonal',
    'the entries off the diagonal are lost', '''
a = vb.VectorParam('a', 3)
h = np.array([[1., 0., 0.], [0., 0., 2.], [0., 2., 0.]])
f = vb.Parameters.convert_vector_to_free_hessian(
    a, np.zeros(3), np.ones(3), sp.sparse.csr_matrix(h))
f = np.asarray(f.todense() if sp.sparse.issparse(f) else f)
close(f, h)
''')

bug('c18-best-point', 'C18', [
    (OU, '''        x = new_x
        f_val = new_f_val
''', '''        x = new_x
        # Compare with the best value so far.
        f_val = min(f_val, new_f_val) if i > 2 else new_f_val
''')],
    'a value that goes up in the third iteration or later',
    'the change of the value is not that of the last iteration', '''
import LinearResponseVariationalBayes.OptimizationUtils as ou
a = vb.VectorParam('a', 1)
o = vb.SparseObjectives.Objective(a, lambda: anp.sum(a.get() ** 2))
points = [4., 3., 1., 2., 1.01, 7.]
calls = []
def opt(x):
    calls.append(x)
    return np.array([points[len(calls) - 1]]), None
out = ou.repeatedly_optimize(o, opt, np.array([8.]), max_iter=6,
                             xtol=-1., ftol=0.1, gtol=-1.)
assert len(calls) == 6 and not out[1]
''')

