"""The public calculations of the package, with arguments, and small life
histories of its objects.

CALLS: name -> function of no arguments which returns (arguments, thunk); the
thunk calls the library with these arguments.  Every function occurs with two
sets of values of the same shapes and, mostly, with another shape, and, where
it can be differentiated, with its derivative.

MACHINES: name -> list of steps; a step is a function of the machine's own
state (a dictionary) and returns what is observable.
"""
import os
import pickle

import numpy as np

from . import ref
from . import functions as fn
from . import models
from .core import freeze
from .ref import (Scalar, Vector, Array, PD, PDV, PDA, Simplex, Sub, Dict,
                  INF, point, arr)


def pts(shape, which, pos=False):
    x = arr(point(ref.prod(shape), which)).reshape(shape)
    return np.exp(0.5 * x) + 0.3 if pos else x


def spd(n, which, lead=()):
    out = np.array([ref.pd_full([float(v) for v in ref.pd_forward(
        point(ref.tri(n), which + k), n, 0.5)], n)
        for k in range(ref.prod(lead))])
    return out.reshape(lead + (n, n))


def calls():
    return _entries()[0]


def families():
    """[(name, [(variant, maker)])]: the same function with the arguments of
    the catalogue, with one argument exchanged, and with one far or tiny."""
    return _entries()[1]


def _variants(makers):
    """Same function: the given arguments, exchanged ones, scaled ones."""
    out = [('%d' % i, make) for i, make in enumerate(makers)]
    base = makers[0]()
    if len(makers) > 1:
        other = makers[1]()
        for k in range(len(base)) if len(base) > 1 else ():
            if len(other) == len(base) and \
                    freeze(base[k]) != freeze(other[k]):
                out.append(('other %d' % k, lambda k=k: tuple(
                    makers[j == k]()[j] for j in range(len(base)))))
    for k, x in enumerate(base):
        if isinstance(x, np.ndarray) and x.dtype == float:
            for scale in (50., 1e-9, 900.):
                out.append(('%g x %d' % (scale, k), lambda k=k, s=scale: tuple(
                    y * s if j == k else y
                    for j, y in enumerate(makers[0]()))))
    return out


def _entries():
    import autograd
    import autograd.numpy as anp
    import scipy.sparse as sps
    import LinearResponseVariationalBayes as vb
    from LinearResponseVariationalBayes import (
        ExponentialFamilies as ef, Modeling as mo, regression_utils as ru,
        SparseObjectives as so, OptimizationUtils as ou,
        ConjugateGradient as cg, MatrixParameters as mp, Parameters as pr,
        SimplexParams as sx, ProjectionParams as pp, ModelSensitivity as ms)
    out = []
    groups = []

    def add(name, fun, *variants, **kw):
        """variants: tuples of arguments, made afresh for every call"""
        groups.append((name, fun, _variants(variants)))
        for i, make in enumerate(variants):
            out.append(('%s %d' % (name, i),
                        lambda make=make: (make(), fun)))
            if kw.get('diff', True):
                def total(*args):
                    res = fun(*args)
                    if isinstance(res, tuple):
                        res = sum(anp.sum(r) for r in res)
                    return anp.sum(res)
                k = kw.get('argnum', 0)
                out.append(('d %s %d' % (name, i), lambda make=make: (
                    make(), autograd.grad(total, k))))

    two = lambda f: [lambda: f(0), lambda: f(1)]

    # exponential families
    for name in ('multivariate_digamma', 'multivariate_gammaln'):
        f = getattr(ef, name)
        for size in (2, 3):
            add('%s/%d' % (name, size), lambda x, f=f, s=size: f(x, s),
                *two(lambda w: (2.5 + 0.7 * w,)))
    add('multinoulli_entropy', ef.multinoulli_entropy,
        *two(lambda w: (sx.constrain_simplex_matrix(pts((2, 2), w)),)))
    add('univariate_normal_entropy', ef.univariate_normal_entropy,
        lambda: (pts((3,), 0, True),), lambda: (pts((3,), 1, True),),
        lambda: (pts((2, 2), 1, True),))
    add('multivariate_normal_entropy', ef.multivariate_normal_entropy,
        lambda: (spd(2, 0),), lambda: (spd(2, 1),), lambda: (spd(3, 0),))
    add('gamma_entropy', ef.gamma_entropy,
        *two(lambda w: (pts((3,), w, True), pts((3,), w + 2, True))))
    add('dirichlet_entropy', ef.dirichlet_entropy,
        lambda: (pts((3,), 0, True),), lambda: (pts((3,), 1, True),),
        lambda: (pts((3, 2), 1, True),))
    add('beta_entropy', ef.beta_entropy,
        lambda: (pts((3, 2), 0, True),), lambda: (pts((3, 2), 1, True),),
        lambda: (pts((1, 2), 1, True),))
    for name in ('wishart_entropy', 'e_log_det_wishart',
                 'e_log_inv_wishart_diag'):
        f = getattr(ef, name)
        add(name, f, lambda: (4.5, spd(2, 0)), lambda: (5.5, spd(2, 0)),
            lambda: (4.5, spd(2, 1)), lambda: (4.5, spd(3, 1)))
        add(name + ' by v', f, lambda: (4.5, spd(2, 0)),
            lambda: (4.5, spd(2, 1)), argnum=1)
    for name in ('get_e_lognormal', 'get_var_lognormal', 'get_e_log_gamma'):
        add(name, getattr(ef, name),
            *two(lambda w: (pts((3,), w, True), pts((3,), w + 2, True))))
    for name in ('get_e_dirichlet', 'get_e_log_dirichlet'):
        add(name, getattr(ef, name),
            lambda: (pts((3, 2), 0, True),), lambda: (pts((3, 2), 1, True),),
            lambda: (pts((2, 3), 0, True),))
    gh = np.polynomial.hermite.hermgauss
    for name in ('get_e_logitnormal', 'get_e_log_logitnormal'):
        add(name, getattr(ef, name),
            lambda: (pts((3,), 0), pts((3,), 2, True)) + gh(5),
            lambda: (pts((3,), 1), pts((3,), 2, True)) + gh(5),
            lambda: (pts((3,), 0), pts((3,), 2, True)) + gh(4),
            lambda: (pts((2, 2), 0), pts((2, 2), 2, True)) + gh(5))
    for nm, g in (('square', lambda x: x ** 2), ('exp', anp.exp)):
        add('get_e_fun_normal/' + nm,
            lambda m, i, x, w, g=g: ef.get_e_fun_normal(m, i, x, w, g),
            lambda: (pts((3,), 0), pts((3,), 2, True)) + gh(5),
            lambda: (pts((3,), 1), pts((3,), 2, True)) + gh(5))
    add('get_uvn_from_natural_parameters', ef.get_uvn_from_natural_parameters,
        *two(lambda w: (pts((3,), w), -pts((3,), w + 1, True))))
    add('mvn_prior', ef.mvn_prior,
        *two(lambda w: (pts((2,), w), spd(2, w), pts((2,), w + 1),
                        spd(2, w + 1))))
    add('uvn_prior', ef.uvn_prior,
        *two(lambda w: (0.3 + w, 1.5, pts((3,), w), pts((3,), w, True))))
    add('gamma_prior', ef.gamma_prior,
        *two(lambda w: (1.5 + w, 0.5, 2.5, 0.7 - w)))
    add('exponential_prior', ef.exponential_prior,
        *two(lambda w: (1.5 + w, 0.5)))
    add('dirichlet_prior', ef.dirichlet_prior,
        *two(lambda w: (pts((3,), w, True), -pts((3,), w + 1, True))))
    add('expected_ljk_prior', ef.expected_ljk_prior,
        *two(lambda w: (1.5 + w, 4.5, spd(2, w))))
    add('get_e_dp_prior_logitnorm_approx', ef.get_e_dp_prior_logitnorm_approx,
        *two(lambda w: (1.5 + w, pts((3,), w), pts((3,), 2, True)) + gh(4)))
    # modeling
    add('get_e_logistic_term', mo.get_e_logistic_term,
        *two(lambda w: (pts((3,), w), pts((3,), w + 1), pts((3,), 2, True),
                        mo.get_standard_draws(4))), argnum=1)
    for agg in (True, False):
        add('get_e_logistic_term_gh/%s' % agg,
            lambda m, s, x, w, agg=agg:
            mo.get_e_logistic_term_guass_hermite(m, s, x, w, agg),
            *two(lambda w: (pts((3,), w), pts((3,), 2, True)) + gh(5)))
    add('get_standard_draws', mo.get_standard_draws,
        lambda: (3,), lambda: (4,), lambda: (9,), diff=False)
    add('univariate_normal_log_prob', mo.univariate_normal_log_prob,
        *two(lambda w: (pts((3,), w), pts((3,), w + 1), pts((3,), 2, True))))
    # regression
    reg = lambda w, lead=(): (pts(lead + (4,), w),
                              pts(lead + (4, 2), w + 1) +
                              np.eye(4)[:, :2], 1.5 + w)
    for name in ('get_nat_params_from_likelihood',
                 'get_regression_coefficients'):
        add(name, getattr(ru, name), lambda: reg(0), lambda: reg(1),
            lambda: reg(0, (2,)))
    add('get_nat_params_from_prior', ru.get_nat_params_from_prior,
        *two(lambda w: (pts((2,), w), spd(2, w))))
    add('get_mvn_from_nat_params', ru.get_mvn_from_nat_params,
        *two(lambda w: (pts((2,), w), -0.5 * spd(2, w))))
    add('get_posterior_regression_coefficients',
        ru.get_posterior_regression_coefficients,
        *two(lambda w: reg(w) + (pts((2,), w), spd(2, w))))
    add('mat_mul_last2dims', ru.mat_mul_last2dims,
        lambda: (pts((2, 3), 0), pts((2, 2), 1)),
        lambda: (pts((2, 3), 1), pts((2, 2), 1)),
        lambda: (pts((2, 2, 3), 1), pts((2, 2, 2), 1)))
    add('matvec_mul_last2dims', ru.matvec_mul_last2dims,
        lambda: (pts((2, 3), 0), pts((2,), 1)),
        lambda: (pts((2, 3), 1), pts((2,), 1)),
        lambda: (pts((2, 3), 1), pts((4, 2), 1)))
    # matrices and transforms
    for name in ('unvectorize_ld_matrix', 'unvectorize_symmetric_matrix',
                 'unpack_posdef_matrix', 'pos_def_matrix_free_to_vector'):
        add(name, getattr(mp, name), lambda: (pts((3,), 0),),
            lambda: (pts((3,), 1),), lambda: (pts((6,), 0),),
            lambda: (pts((10,), 0),), lambda: (pts((10,), 1),),
            lambda: (pts((36,), 1),))
    for name in ('vectorize_ld_matrix', 'exp_matrix_diagonal'):
        add(name, getattr(mp, name), lambda: (pts((2, 2), 0),),
            lambda: (pts((2, 2), 1),), lambda: (pts((3, 3), 0),),
            lambda: (pts((7, 7), 0),), lambda: (pts((7, 7), 1),),
            lambda: (pts((1, 1), 1),))
    for name in ('pos_def_matrix_free_to_vector_jac',
                 'pos_def_matrix_free_to_vector_hess'):
        add(name, getattr(mp, name), lambda: (pts((3,), 0),),
            lambda: (pts((3,), 1),), lambda: (pts((6,), 0),), diff=False)
    for name in ('log_matrix_diagonal', 'pack_posdef_matrix'):
        add(name, getattr(mp, name), *two(lambda w: (spd(2, w),)))
    for lb in (0., 0.3):
        add('unpack_posdef_matrix/%s' % lb,
            lambda x, lb=lb: mp.unpack_posdef_matrix(x, diag_lb=lb),
            *two(lambda w: (pts((3,), w),)))
    for lb, ub in ((-INF, INF), (0., INF), (-INF, 2.), (-1., 2.), (-2., 5.)):
        add('constrain/%s/%s' % (lb, ub),
            lambda x, lb=lb, ub=ub: pr.constrain(x, lb, ub),
            *two(lambda w: (pts((3,), w),)))
        add('unconstrain/%s/%s' % (lb, ub),
            lambda x, lb=lb, ub=ub: pr.unconstrain(x, lb, ub),
            *two(lambda w: (0.5 + 0.1 * pts((3,), w),)))
        for f in (pr.constrain_scalar_jac, pr.constrain_scalar_hess):
            add('constrain_scalar %s/%s/%s' % (f is pr.constrain_scalar_jac,
                                               lb, ub),
                lambda x, lb=lb, ub=ub, f=f: f(x, lb, ub),
                *two(lambda w: (0.3 + w,)), diff=False)
    add('constrain_simplex_matrix', sx.constrain_simplex_matrix,
        lambda: (pts((2, 2), 0),), lambda: (pts((2, 2), 1),),
        lambda: (pts((1, 3), 1),), lambda: (pts((30, 4), 0),),
        lambda: (pts((30, 4), 1),))
    add('unconstrain_simplex_matrix', sx.unconstrain_simplex_matrix,
        *two(lambda w: (sx.constrain_simplex_matrix(pts((2, 2), w)),)))
    for name in ('constrain_grad_from_moment', 'constrain_hess_from_moment'):
        add(name, getattr(sx, name), lambda: (
            sx.constrain_simplex_vector(pts((2,), 0)),), lambda: (
            sx.constrain_simplex_vector(pts((2,), 1)),), lambda: (
            sx.constrain_simplex_vector(pts((3,), 1)),), diff=False)
    add('get_perpendicular_subspace', lambda x: (
        lambda b: b.dot(b.T))(pp.get_perpendicular_subspace(x)),
        lambda: (pts((1, 3), 0),), lambda: (pts((1, 3), 1),),
        lambda: (pts((2, 4), 0),), diff=False)
    # utilities
    for ev in ((None, None), (0.7, None), (None, 1.1), (0.7, 1.1)):
        add('inv_sqrt/%s/%s' % ev,
            lambda h, ev=ev: ou.get_sym_matrix_inv_sqrt(h, *ev),
            lambda: (spd(2, 0),), lambda: (spd(2, 1),), lambda: (spd(3, 1),),
            diff=False)
    add('get_masks', cg.get_masks, lambda: (7, 2), lambda: (7, 3),
        lambda: (9, 4), diff=False)
    add('split_vector', cg.split_vector, *two(lambda w: (
        pts((7,), w) > 0,)), diff=False)

    def split(mask, n):
        res = []
        cg.recursive_split(mask, results=res, terminate_len=n)
        return res
    add('recursive_split', split, lambda: (np.full(9, True), 3),
        lambda: (np.full(9, True), 4), lambda: (np.arange(9) % 3 > 0, 3),
        diff=False)
    csr = lambda w: sps.csr_matrix(np.where(pts((3, 4), w) > 0,
                                            pts((3, 4), w), 0.))
    add('csr', lambda m: so.unpack_csr_matrix(so.pack_csr_matrix(m)),
        *two(lambda w: (csr(w),)), diff=False)
    add('json csr', lambda m: so.json_unpack_csr_matrix(
        so.json_pack_csr_matrix(m)), *two(lambda w: (csr(w),)), diff=False)
    add('sub_hessian', so.get_sparse_sub_hessian,
        lambda: (spd(2, 0), np.array([3, 1]), 5),
        lambda: (spd(2, 1), np.array([3, 1]), 5),
        lambda: (spd(2, 1), np.array([0, 1]), 5), diff=False)
    add('sub_matrix', so.get_sparse_sub_matrix, *two(lambda w: (
        pts((2, 3), w), np.array([1, 0]), np.array([2, 3, 0]), 3, 4)),
        diff=False)

    def index_param(spec):
        return so.make_index_param(spec.build('p', vb)).get_vector()
    for spec in (Vector(3), PD(2), Simplex((2, 2)), ref.mvn(2)):
        add('index_param %r' % spec, lambda s=spec: index_param(s),
            lambda: (), diff=False)

    def printed(spec, w):
        par = spec.build('p', vb)
        par.set_free(arr(point(spec.free_size, w)) * 1e-3 ** w)
        vals = par.get_vector()
        return [str(par), str(vals), repr(vals), par.names(),
                str(par.dictval())]
    for spec in (Scalar(0.2), Vector(3, -1.), Array((2, 2)), PD(2, 0.1),
                 PDV(2, 2), PDA((2,), 2), Simplex((1, 3)), Sub(3), ref.mvn(2),
                 ref.gamma(), ref.dirichlet((2, 2))):
        add('printed %r' % spec, lambda w, s=spec: printed(s, w),
            lambda: (0,), lambda: (1,), diff=False)

    # directional derivatives
    def jvps(x, y, u, v):
        f = lambda a, b: anp.array([anp.sum(a * a * b[0]), anp.exp(a[0] * b[1]),
                                    a[0] * a[1] * b[0] * b[1]])
        d1 = ms.append_jvp(f, num_base_args=2, argnum=0)
        d2 = ms.append_jvp(d1, num_base_args=2, argnum=1)
        return d2(x, y, u, v)
    add('append_jvp', jvps, *two(lambda w: (
        pts((2,), w), pts((2,), w + 1), pts((2,), 2), pts((2,), 3))))
    return out, groups


def machines():
    import scipy.sparse as sps
    import LinearResponseVariationalBayes as vb
    from LinearResponseVariationalBayes import (
        SparseObjectives as so, OptimizationUtils as ou, Parameters as pr,
        ConjugateGradient as cg, ModelSensitivity as ms)
    out = []

    def dense(x):
        return x.toarray()

    def param(name, specs):
        for w, spec in enumerate(specs):
            n = spec.free_size

            def build(s, spec=spec, w=w, n=n):
                s['p'] = spec.build('p', vb)
                first = np.array(s['p'].get_vector())
                s['p'].set_free(arr(point(n, w)))
                return first, s['p'].get_vector()

            def derive(s, w=w, n=n):
                x = arr(point(n, w + 2))
                return (dense(s['p'].free_to_vector_jac(x)),
                        [dense(h) for h in s['p'].free_to_vector_hess(x)],
                        s['p'].get_free())

            def read(s, w=w, n=n):
                v = np.array(s['p'].get_vector())
                return (v, s['p'].free_to_vector(arr(point(n, w + 1))),
                        [str(x) for x in np.atleast_1d(s['p'].names())],
                        s['p'].free_size(), s['p'].vector_size())
            out.append(('%s %d' % (name, w), [build, derive, read]))

    param('scalar', [Scalar(0.), Scalar(0.5)])
    param('vector', [Vector(3, 0.), Vector(3, -1., 2.)])
    param('array', [Array((2, 2)), Array((2, 2), -INF, 1.)])
    param('matrix', [PD(2), PD(2, 0.5)])
    param('matrices', [PDV(2, 2), PDV(2, 2, 0.5)])
    param('array of matrices', [PDA((1, 2), 2, 0.5), PDA((2, 1), 2)])
    param('simplex', [Simplex((2, 3)), Simplex((2, 3))])
    param('subspace', [Sub(3), Sub(3, [[1., 2., -1.]])])
    tree = lambda lb: Dict([('z', Scalar(lb)), ('m', Dict(
        [('q', Simplex((1, 3))), ('c', PD(2, lb))]))])
    param('dictionary', [tree(0.), tree(0.3)])

    moments = {
        'mvn': (lambda w: ref.mvn(2, 0.1 * w),
                lambda p: (p.e(), p.cov(), p.e_outer(), p.entropy())),
        'uvn': (lambda w: ref.uvn(0.1 * w),
                lambda p: (p.e(), p.var(), p.e_outer(), p.e_exp(),
                           p.var_exp(), p.e2_exp(), p.entropy())),
        'gamma': (lambda w: ref.gamma(0.1 * w),
                  lambda p: (p.e(), p.e_log(), p.entropy())),
        'wishart': (lambda w: ref.wishart(2, 0.1 * w, 3.5 + w),
                    lambda p: (p.e(), p.e_log_det(), p.e_inv(),
                               p.entropy())),
        'dirichlet': (lambda w: ref.dirichlet((3, 2), 0.1 * w),
                      lambda p: (p.e(), p.e_log(), p.entropy())),
    }
    for name, (mk, report) in sorted(moments.items()):
        for w in (0, 1):
            def build(s, mk=mk, w=w, report=report):
                s['spec'] = mk(w)
                s['p'] = s['spec'].build('p', vb)
                return report(s['p'])

            def move(s, w=w):
                s['p'].set_free(arr(point(s['spec'].free_size, w)))
                return s['p'].get_vector()

            def ask(s, report=report):
                return report(s['p'])
            out.append(('%s %d' % (name, w), [build, move, ask]))

    spec = Dict([('z', Vector(2, -1., 3.)), ('x', Simplex((1, 3)))])
    n = spec.free_size
    for w in (0, 1):
        def build(s, w=w):
            s['p'] = spec.build('p', vb)
            s['o'] = so.Objective(s['p'], fn.Fun(spec, w).bind(s['p']))
            return s['o'].fun_free(arr(point(n, w)))

        def derive(s, w=w):
            x = arr(point(n, w))
            return (s['o'].fun_free_grad(x), s['o'].fun_free_hessian(x),
                    s['o'].fun_free_hvp(x, arr(point(n, 3))),
                    s['p'].get_vector())

        def vector(s, w=w):
            v = arr(spec.fwd(point(n, w + 1)))
            return (s['o'].fun_vector(v), s['o'].fun_vector_grad(v),
                    s['p'].get_vector())
        out.append(('objective %d' % w, [build, derive, vector]))

        def condition(s, w=w):
            s['p'] = spec.build('p', vb)
            s['o'] = so.Objective(s['p'], fn.Fun(spec, w).bind(s['p']))
            s['o'].preconditioner = spd(n, w)
            s['o'].logger.initialize()
            return s['o'].fun_free_cond(arr(point(n, w)), verbose=True)

        def cond_derive(s, w=w):
            x = arr(point(n, w + 1))
            return (s['o'].fun_free_grad_cond(x),
                    s['o'].fun_free_hvp_cond(x, arr(point(n, 3))),
                    s['o'].fun_free_cond(0.5 * x, verbose=True))

        def cond_log(s, w=w):
            return (s['o'].logger.iter, list(s['o'].logger.val_array),
                    list(s['o'].logger.x_array),
                    s['o'].fun_free_hessian_cond(arr(point(n, w))))
        out.append(('conditioned %d' % w, [condition, cond_derive, cond_log]))

        s1, s2 = Vector(2, -1., 3.), Simplex((1, 3))

        def both(s, w=w):
            s['p1'], s['p2'] = s1.build('a', vb), s2.build('b', vb)
            s['o'] = so.TwoParameterObjective(
                s['p1'], s['p2'], fn.Fun2(s1, s2, w).bind(s['p1'], s['p2']))
            return s['o'].fun_free(arr(point(2, w)), arr(point(2, w + 1)))

        def cross(s, w=w):
            x, y = arr(point(2, w)), arr(point(2, w + 1))
            return (s['o'].fun_free_hessian12(x, y),
                    s['o'].fun_free_hessian21(x, y),
                    s['o'].fun_grad1(x, y, True, True))

        def cross_vec(s, w=w):
            x, y = arr(s1.fwd(point(2, w))), arr(s2.fwd(point(2, w + 1)))
            return (s['o'].fun_vector_hessian12(x, y),
                    s['p1'].get_vector(), s['p2'].get_vector())
        out.append(('two parameters %d' % w, [both, cross, cross_vec]))

        def convert(s, w=w):
            s['p1'], s['p2'] = s1.build('a', vb), s2.build('b', vb)
            s['c'] = so.ParameterConverter(
                s['p1'], s['p2'],
                fn.Conversion(s1, s2, w).bind(s['p1'], s['p2']))
            return s['c'].converter_free_to_vec(arr(point(2, w)))

        def convert_jac(s, w=w):
            x = arr(point(2, w + 1))
            return (s['c'].free_to_vec_jacobian(x),
                    s['c'].free_to_free_jacobian(x), s['p2'].get_vector())

        def convert_vec(s, w=w):
            x = arr(s1.fwd(point(2, w)))
            return (s['c'].vec_to_vec_jacobian(x),
                    s['c'].converter_vec_to_free(x))
        out.append(('converter %d' % w, [convert, convert_jac, convert_vec]))

        model = models.Model(Vector(1, 0.), Vector(2, -1., 3.), w)

        def linear(s, w=w, model=model):
            s['i'], s['h'] = (model.s_in.build('i', vb),
                              model.s_hy.build('h', vb))
            whole, _ = model.bind(s['i'], s['h'])
            x, h = model.base(0, True, False)
            s['a'] = ms.ParametricSensitivityLinearApproximation(
                whole, s['i'], s['h'], arr(x), arr(h))
            return s['a'].get_dinput_dhyper()

        def predict(s, w=w, model=model):
            _, h = model.base(0, True, False)
            return s['a'].predict_input_par_from_hyperparameters(
                arr(h) + 0.1 + 0.1 * w)

        def linear_move(s, w=w, model=model):
            x, h = model.base(1, True, False)
            s['a'].set_base_values(arr(x), arr(h))
            return s['a'].get_dinput_dhyper(), s['i'].get_vector()
        out.append(('linear %d' % w, [linear, predict, linear_move]))

        def taylor(s, w=w, model=model):
            s['i'], s['h'] = (model.s_in.build('i', vb),
                              model.s_hy.build('h', vb))
            whole, _ = model.bind(s['i'], s['h'])
            x, h = model.base(0, True, False)
            s['t'] = ms.ParametricSensitivityTaylorExpansion(
                whole, s['i'], s['h'], arr(x), arr(h), 2)
            return s['t'].evaluate_dkinput_dhyperk(arr([0.3, -0.2]), 1)

        def taylor_next(s, w=w):
            return s['t'].evaluate_taylor_series(arr([0.1 + 0.1 * w, 0.2]))

        def taylor_move(s, w=w, model=model):
            x, h = model.base(1, True, False)
            s['t'].set_base_values(arr(x), arr(h))
            return s['t'].evaluate_dkinput_dhyperk(arr([0.3, -0.2]), 1)
        out.append(('Taylor %d' % w, [taylor, taylor_next, taylor_move]))

        def solver(s, w=w):
            h = spd(4, w)
            s['s'] = cg.ConjugateGradientSolver(
                lambda x, v: h.dot(v), np.zeros(4))
            return s['s'].get_hinv_vec(arr(point(4, w)))

        def solve(s, w=w):
            s['s'].get_hinv_vec_subsets(arr(point(4, w + 1)),
                                        cg.get_masks(4, 1 + w))
            return (list(s['s'].hinv_vecs), list(s['s'].vecs),
                    list(s['s'].masks))

        def solve_more(s, w=w):
            s['s'].get_hinv_vec_subsets(arr(point(4, w + 2)),
                                        cg.get_masks(4, 3))
            return (len(s['s'].hinv_vecs), s['s'].hinv_vecs[-1],
                    list(s['s'].cg_infos))
        out.append(('solver %d' % w, [solver, solve, solve_more]))

        vec2 = Vector(2)

        def minimize(s, w=w):
            import autograd.numpy as anp
            s['p'] = vec2.build('p', vb)
            target = np.array([0.5 + w, -0.3])

            def fun():
                d = s['p'].get() - target
                return anp.sum(d * d * np.array([1., 2. + w])) + \
                    0.1 * anp.sum(d) ** 4
            s['o'] = so.Objective(s['p'], fun)
            return len(ou.set_objective_preconditioner(
                s['o'], arr([0.1, 0.2])))

        def trust(s, w=w):
            x, _ = ou.minimize_objective_trust_ncg(
                s['o'], arr([0.1, 0.2 + w]), True, disp=False)
            return np.round(x, 5), s['o'].preconditioner

        def bfgs(s, w=w):
            x, _ = ou.minimize_objective_bfgs(
                s['o'], arr([0.1, 0.2 + w]), precondition=False, disp=False)
            return np.round(x, 3)
        out.append(('minimize %d' % w, [minimize, trust, bfgs]))
    return out


# Values which a fresh process gives ----------------------------------------------

def canonical(x):
    import scipy.sparse as sps
    if sps.issparse(x):
        return canonical(x.toarray())
    if isinstance(x, (np.ndarray, np.generic)):
        if x.dtype == object:
            return repr(x)
        return canonical(x.tolist())
    if isinstance(x, (list, tuple)):
        return [canonical(v) for v in x]
    if isinstance(x, dict):
        return {k: canonical(v) for k, v in x.items()}
    if isinstance(x, bool) or x is None or isinstance(x, str):
        return x
    if isinstance(x, (int, float)):
        return float(x)
    return '<%s>' % type(x).__name__


def agree(a, b, tol=1e-9):
    if isinstance(a, list) or isinstance(b, list):
        return isinstance(a, list) and isinstance(b, list) and \
            len(a) == len(b) and all(agree(x, y, tol) for x, y in zip(a, b))
    if isinstance(a, dict) or isinstance(b, dict):
        return isinstance(a, dict) and isinstance(b, dict) and \
            a.keys() == b.keys() and all(agree(a[k], b[k], tol) for k in a)
    if isinstance(a, float) and isinstance(b, float):
        return a == b or (a != a and b != b) or \
            abs(a - b) <= tol * max(1., abs(b))
    return a == b and type(a) == type(b)


def alone(jobs, width=8):
    """Run each job (a function of no arguments) in a process of its own,
    forked from this one, and return their canonical results in order."""
    import warnings
    from .core import silence
    pending = list(enumerate(jobs))
    groups = [pending[i::width] for i in range(width)]
    pipes = []
    for group in groups:
        r, w = os.pipe()
        if os.fork() == 0:
            code = 1
            try:
                os.close(r)
                got = []
                for i, job in group:
                    r2, w2 = os.pipe()
                    if os.fork() == 0:
                        try:
                            os.close(r2)
                            with silence(), warnings.catch_warnings(), \
                                    np.errstate(all='ignore'):
                                warnings.simplefilter('ignore')
                                try:
                                    res = canonical(job())
                                except Exception as err:
                                    res = 'raised %s: %s' % (
                                        type(err).__name__, err)
                            with os.fdopen(w2, 'wb') as f:
                                pickle.dump(res, f)
                        finally:
                            os._exit(0)
                    os.close(w2)
                    with os.fdopen(r2, 'rb') as f:
                        data = f.read()
                    os.wait()
                    got.append((i, pickle.loads(data) if data else 'died'))
                with os.fdopen(w, 'wb') as f:
                    pickle.dump(got, f)
                code = 0
            finally:
                os._exit(code)
        os.close(w)
        pipes.append(r)
    out = [None] * len(jobs)
    for r in pipes:
        with os.fdopen(r, 'rb') as f:
            data = f.read()
        for i, v in (pickle.loads(data) if data else []):
            out[i] = v
    for _ in pipes:
        os.wait()
    return out
