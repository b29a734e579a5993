"""C29: whole analyses reproduce known answers, whichever way they are done."""
import itertools
import math

import numpy as np
import autograd.numpy as anp

from mc import analyses, jet, ref
from mc.core import blocks
from mc.ref import point, arr
from mc.series import Series

PROPERTY = 'C29'

RTOL, ATOL = 1e-6, 1e-8


class Answer(object):
    """The answer in closed form, and its derivatives."""
    def __init__(self, an):
        self.an = an
        self.h0 = [float(v) for v in an.h0]
        self.h_free = [float(v) for v in an.s_hy.inv(self.h0)]
        self.vec = [float(v) for v in an.opt(self.h0)]
        self.free = [float(v) for v in an.s_in.inv(self.vec)]
        self.out = [float(v) for v in an.out(self.vec)]
        self._jac = {}

    def hyper(self, hy_free):
        return self.h_free if hy_free else self.h0

    def input(self, in_free):
        return self.free if in_free else self.vec

    def optimum(self, h, hy_free, in_free):
        """Input at another hyperparameter; any scalars"""
        an = self.an
        v = an.opt(an.s_hy.fwd(h) if hy_free else h)
        return an.s_in.inv(v) if in_free else v

    def jac(self, what, hy_free=False, in_free=True):
        """Jacobian of 'out' or 'in' in the hyperparameter"""
        key = (what, hy_free, in_free if what == 'in' else None)
        if key not in self._jac:
            h = jet.variables(self.hyper(hy_free))
            if what == 'in':
                res = self.optimum(h, hy_free, in_free)
            else:
                res = self.an.out(self.optimum(h, hy_free, False))
            self._jac[key] = np.array([
                r.grad() if isinstance(r, jet.Jet) else [0.] * len(h)
                for r in res])
        return self._jac[key]

    def along(self, d, order, hy_free, in_free):
        """Taylor coefficients of the input along h0 + t d, times k!"""
        h = [Series([a, b] + [0.] * (order - 1)) for a, b in
             zip(self.hyper(hy_free), d)]
        res = [r if isinstance(r, Series) else Series([r] + [0.] * order)
               for r in self.optimum(h, hy_free, in_free)]
        return [np.array([math.factorial(k) * r.c[k] for r in res])
                for k in range(order + 1)]


class Run(object):
    """The real parameters of one analysis, at the optimum."""
    def __init__(self, ctx, an, answer=None):
        analyses.complete_autograd()
        import LinearResponseVariationalBayes as vb
        from LinearResponseVariationalBayes import (
            SparseObjectives as so, ModelSensitivity as ms,
            OptimizationUtils as ou, ConjugateGradient as cg)
        self.ctx, self.an, self.vb = ctx, an, vb
        self.so, self.ms, self.ou, self.cg = so, ms, ou, cg
        self.ans = answer or Answer(an)
        self.par = an.s_in.build('par', vb)
        self.hyp = an.s_hy.build('hyper', vb)
        self.res = vb.VectorParam('out', len(self.ans.out))
        whole, part, self.out = an.bind(self.par, self.hyp)
        # scalar parameters may hold arrays of one entry
        self.whole = lambda: anp.sum(whole())
        self.part = lambda: anp.sum(part())
        self.reset()

    def reset(self):
        self.par.set_vector(arr(self.ans.vec))
        self.hyp.set_vector(arr(self.ans.h0))

    def convert(self):
        self.res.set_vector(self.out())

    def close(self, got, want, what, scale=1.):
        big = float(np.max(np.abs(want))) if np.size(want) else 0.
        self.ctx.close(got, want, what, RTOL * scale,
                       (ATOL + 1e-7 * big) * scale)

    def objective(self):
        return self.so.Objective(self.par, self.whole)

    def out_jac(self, in_free):
        conv = self.so.ParameterConverter(self.par, self.res, self.convert)
        if in_free:
            return conv.free_to_vec_jacobian(arr(self.ans.free))
        return conv.vec_to_vec_jacobian(arr(self.ans.vec))

    def cross(self, in_free, hy_free, part=False):
        two = self.so.TwoParameterObjective(
            self.par, self.hyp, self.part if part else self.whole)
        x, h = arr(self.ans.input(in_free)), arr(self.ans.hyper(hy_free))
        return {(True, True): two.fun_free_hessian12,
                (False, False): two.fun_vector_hessian12,
                (True, False): two.fun_hessian_free1_vector2,
                (False, True): two.fun_hessian_vector1_free2
                }[in_free, hy_free](x, h)


# Routes to the answer -------------------------------------------------------------

def stationary(run):
    """The optimum is stationary, in both parameterizations, and a minimum."""
    ctx, ans, obj = run.ctx, run.ans, run.objective()
    grad = obj.fun_free_grad(arr(ans.free))
    hess = obj.fun_free_hessian(arr(ans.free))
    big = float(np.max(np.abs(hess)))
    ctx.close(grad, np.zeros(len(ans.free)), 'gradient at the optimum',
              0., 1e-9 * (1. + big))
    ctx.true(np.min(np.linalg.eigvalsh(hess)) > 1e-8 * big,
             'not a minimum')
    ctx.close(run.par.get_vector(), ans.vec, 'optimum', 1e-8, 1e-9)
    if run.an.vector_ok:
        ctx.close(obj.fun_vector_grad(arr(ans.vec)), np.zeros(len(ans.vec)),
                  'vector gradient at the optimum', 0., 1e-8 * (1. + big))
    ctx.close(run.out(), ans.out, 'quantities of interest', 1e-8, 1e-9)


def linear(in_free, hy_free, part):
    def route(run):
        """ParametricSensitivityLinearApproximation"""
        ans = run.ans
        kw = {'hyper_par_objective_functor': run.part} if part else {}
        lin = run.ms.ParametricSensitivityLinearApproximation(
            run.whole, run.par, run.hyp, arr(ans.input(in_free)),
            arr(ans.hyper(hy_free)), input_is_free=in_free,
            hyper_is_free=hy_free, **kw)
        d = lin.get_dinput_dhyper()
        run.close(d, ans.jac('in', hy_free, in_free), 'dinput/dhyper')
        run.close(np.dot(run.out_jac(in_free), d), ans.jac('out', hy_free),
                  'dout/dhyper')
        step = arr([0.05 * v for v in point(d.shape[1], 2)])
        run.close(lin.predict_input_par_from_hyperparameters(
            arr(ans.hyper(hy_free)) + step),
            arr(ans.input(in_free)) +
            np.dot(ans.jac('in', hy_free, in_free), step), 'prediction')
    return route


def deprecated(part, given):
    def route(run):
        """ParametricSensitivity"""
        ans = run.ans
        kw = {'hyper_par_objective_fun': run.part} if part else {}
        if given:
            kw['optimal_input_par'] = arr(ans.free)
            kw['objective_hessian'] = run.objective().fun_free_hessian(
                arr(ans.free))
        sens = run.so.ParametricSensitivity(
            run.whole, run.par, run.res, run.hyp, run.convert, **kw)
        run.close(sens.get_dinput_dhyper(), ans.jac('in'), 'dinput/dhyper')
        run.close(sens.get_doutput_dhyper(), ans.jac('out'), 'dout/dhyper')
        step = arr([0.05 * v for v in point(len(ans.h0), 1)])
        new = arr(ans.h0) + step
        x = arr(ans.free) + np.dot(ans.jac('in'), step)
        run.close(sens.predict_input_par_from_hyperparameters(new), x,
                  'predicted input')
        run.close(sens.predict_output_par_from_hyperparameters(new, True),
                  arr(ans.out) + np.dot(ans.jac('out'), step),
                  'linear prediction')
        run.close(sens.predict_output_par_from_hyperparameters(new, False),
                  arr(run.an.out(run.an.s_in.fwd(x.tolist()))),
                  'prediction through the input')
        run.close(run.par.get_free(), x, 'input after the prediction')
        run.reset()
    return route


def taylor(in_free, hy_free, part, order):
    def route(run):
        """ParametricSensitivityTaylorExpansion"""
        ans = run.ans
        kw = {'hyper_par_objective_functor': run.part} if part else {}
        exp = run.ms.ParametricSensitivityTaylorExpansion(
            run.whole, run.par, run.hyp, arr(ans.input(in_free)),
            arr(ans.hyper(hy_free)), order, input_is_free=in_free,
            hyper_is_free=hy_free, **kw)
        n = len(ans.hyper(hy_free))
        for d in ([0.2 * v for v in point(n, 3)],
                  [0.3 if i == n - 1 else 0. for i in range(n)]):
            want = ans.along(d, order, hy_free, in_free)
            total = 1. * want[0]
            for k in range(1, order + 1):
                total = total + want[k] / math.factorial(k)
                run.close(exp.evaluate_dkinput_dhyperk(arr(d), k), want[k],
                          'derivative %d' % k, 10. ** k)
                run.close(exp.evaluate_taylor_series(arr(d), max_order=k),
                          total, 'series of order %d' % k, 10. ** k)
            run.close(exp.evaluate_taylor_series(arr(d)), total, 'series',
                      10. ** order)
    return route


def by_hand(in_free, hy_free, part):
    def route(run):
        """Hessian, cross Hessian and Jacobian"""
        ans, obj = run.ans, run.objective()
        x = arr(ans.input(in_free))
        hess = obj.fun_free_hessian(x) if in_free else \
            obj.fun_vector_hessian(x)
        d = -np.linalg.solve(hess, run.cross(in_free, hy_free, part))
        run.close(np.dot(run.out_jac(in_free), d), ans.jac('out', hy_free),
                  'dout/dhyper')
    return route


def converted(run):
    """The Hessian in the vector parameterization, converted"""
    from LinearResponseVariationalBayes.Parameters import \
        convert_vector_to_free_hessian
    ans, obj = run.ans, run.objective()
    vec = arr(ans.vec)
    grad, hess = obj.fun_vector_grad(vec), obj.fun_vector_hessian(vec)
    free = convert_vector_to_free_hessian(run.par, arr(ans.free), grad, hess)
    d = -np.linalg.solve(np.asarray(free), run.cross(True, False))
    run.close(np.dot(run.out_jac(True), d), ans.jac('out'), 'dout/dhyper')


def gradients(run):
    """Conjugate gradients with Hessian vector products"""
    ans, obj = run.ans, run.objective()
    cross = run.cross(True, False)
    hess = obj.fun_free_hessian(arr(ans.free))
    solver = run.cg.ConjugateGradientSolver(obj.fun_free_hvp, arr(ans.free))
    solver.tol = 1e-13
    solver.preconditioner = np.linalg.inv(hess)
    cols = []
    for k in range(cross.shape[1]):
        x, info = solver.get_hinv_vec(cross[:, k])
        run.ctx.true(info == 0, 'conjugate gradients did not converge')
        cols.append(-x)
    run.close(np.dot(run.out_jac(True), np.array(cols).T), ans.jac('out'),
              'dout/dhyper')
    # the same from the pieces of the first column
    n = cross.shape[0]
    if n > 1:
        solver.initialize()
        solver.get_hinv_vec_subsets(cross[:, 0], run.cg.get_masks(
            n, max(1, n // 2)))
        run.close(-sum(solver.hinv_vecs), cols[0], 'sum over the masks')


def preconditioned(run):
    """The preconditioner of the optimum is a square root of the answer."""
    ans, obj = run.ans, run.objective()
    hess, a, corrected = run.ou.set_objective_preconditioner(
        obj, free_par=arr(ans.free))
    d = -np.dot(a, np.dot(a.T, run.cross(True, False)))
    run.close(np.dot(run.out_jac(True), d), ans.jac('out'), 'dout/dhyper')
    run.close(corrected, hess, 'Hessian')
    cond = run.ou.get_conditioned_init_x(obj, arr(ans.free))
    run.close(obj.uncondition_x(cond), ans.free, 'optimum')
    run.close(obj.fun_free_hessian_cond(cond), np.eye(len(cond)),
              'conditioned Hessian')
    vec = arr(point(len(cond), 1))
    run.close(obj.fun_free_hvp_cond(cond, vec), vec,
              'conditioned Hessian vector product')


def tilted(run):
    """With a hyperparameter that tilts by the quantities of interest the cross
    Hessian is minus their Jacobian, and the answer is their covariance."""
    ans, obj = run.ans, run.objective()
    cov = np.array(run.an.cov)
    j = run.out_jac(True)
    m = cov.shape[0]
    run.close(ans.jac('out')[:m], cov, 'covariance in closed form')
    run.close(-run.cross(True, False), j.T[:, :m], 'cross Hessian')
    hess = obj.fun_free_hessian(arr(ans.free))
    run.close(np.dot(j, np.linalg.solve(hess, j.T)), cov,
              'linear response covariance')


def moved(run):
    """The optimum for other hyperparameters is the closed form there."""
    ans = run.ans
    for which in (0, 1):
        h = [a + 0.15 * b for a, b in zip(
            ans.h_free, point(len(ans.h_free), which))]
        vec = ans.optimum(h, True, False)
        run.hyp.set_free(arr(h))
        obj = run.objective()
        x = arr(run.an.s_in.inv([float(v) for v in vec]))
        big = float(np.max(np.abs(obj.fun_free_hessian(x))))
        run.ctx.close(obj.fun_free_grad(x), np.zeros(len(x)),
                      'gradient at the moved optimum', 0., 1e-9 * (1. + big))
        run.ctx.close(run.out(), [float(v) for v in run.an.out(vec)],
                      'quantities of interest there', 1e-8, 1e-9)
    run.reset()


def minimizers(run, a):
    """name -> function of the start"""
    ou = run.ou

    def trust(obj, cond):
        return lambda x: ou.minimize_objective_trust_ncg(
            obj, x, cond, maxiter=300, gtol=1e-9, disp=False)

    def bfgs(obj, cond):
        return lambda x: ou.minimize_objective_bfgs(
            obj, x, cond, maxiter=500, disp=False)
    return {'trust': trust, 'bfgs': bfgs}[a]


def optimized(solver, cond, repeat):
    def route(run):
        """From a start near by to the optimum, and on to the answer"""
        ans, ou = run.ans, run.ou
        n = len(ans.free)
        start = arr([a + 0.25 * b for a, b in zip(ans.free, point(n, 1))])
        obj = run.objective()
        if cond:
            ou.set_objective_preconditioner(obj, free_par=start,
                                            ev_min=1e-2)
        step = minimizers(run, solver)(obj, cond)
        if repeat:
            opt = ou.repeatedly_optimize(
                obj, step, start, max_iter=6, gtol=1e-10, ftol=0.,
                xtol=1e-10)[0]
        else:
            opt, _ = step(start)
        tol = 1e-5 if solver == 'trust' else 1e-3
        run.ctx.true(float(np.max(np.abs(opt - arr(ans.free)))) < tol,
                     'optimum %s, expected %s' % (opt.tolist(), ans.free))
        lin = run.ms.ParametricSensitivityLinearApproximation(
            run.whole, run.par, run.hyp, opt, arr(ans.h0))
        conv = run.so.ParameterConverter(run.par, run.res, run.convert)
        want = ans.jac('out')
        run.ctx.close(
            np.dot(conv.free_to_vec_jacobian(opt), lin.get_dinput_dhyper()),
            want, 'dout/dhyper', 100. * tol,
            100. * tol * (1. + float(np.max(np.abs(want)))))
        run.reset()
    return route


def routes(an, order, thorough=False):
    both = (True, False)
    ins = both if an.vector_ok else (True,)
    out = [('stationary', stationary), ('moved', moved),
           ('gradients', gradients), ('preconditioned', preconditioned)]
    if an.vector_ok:
        out.append(('converted', converted))
    if an.cov is not None:
        out.append(('tilted', tilted))
    for i, h, p in itertools.product(ins, both, both):
        out.append(('linear %s%s%s' % (i, h, p), linear(i, h, p)))
        out.append(('by hand %s%s%s' % (i, h, p), by_hand(i, h, p)))
        if an.forward:
            out.append(('taylor %s%s%s' % (i, h, p), taylor(i, h, p, order)))
    for p, g in itertools.product(both, both):
        out.append(('deprecated %s%s' % (p, g), deprecated(p, g)))
    return out


def searches():
    return [('%s %s %s' % s, optimized(*s)) for s in itertools.product(
        ('trust', 'bfgs'), (False, True), (False, True))]


# Units ---------------------------------------------------------------------------

def each_unit(items, order):
    """Every route, from fresh parameters"""
    def run(ctx):
        for an in items:
            answer = Answer(an)
            for name, route in routes(an, order):
                with ctx.trace(an.label, name):
                    r = Run(ctx, an, answer)
                    route(r)
                    ctx.close(r.par.get_vector(), answer.vec, 'the optimum '
                              'afterwards', 1e-8, 1e-9)
                    ctx.gstate(an.label, name)
    return run


def wide_unit(items):
    """The cheapest routes, in a row"""
    def run(ctx):
        for an in items:
            answer = Answer(an)
            with ctx.trace(an.label, 'wide'):
                r = Run(ctx, an, answer)
                stationary(r)
                gradients(r)
                moved(r)
                ctx.gstate(an.label, 'wide')
    return run


def search_unit(items):
    """Every minimizer"""
    def run(ctx):
        for an in items:
            answer = Answer(an)
            for name, route in searches():
                with ctx.trace(an.label, name):
                    route(Run(ctx, an, answer))
                    ctx.gstate(an.label, name)
    return run


def history_unit(an, first, tier):
    """One set of parameters for several routes in a row"""
    def run(ctx):
        answer = Answer(an)
        alpha = chosen(an)
        for rest in itertools.product(range(len(alpha)),
                                      repeat=1 if tier == 'quick' else 2):
            seq = [alpha[first]] + [alpha[k] for k in rest]
            with ctx.trace(an.label, [s[0] for s in seq]):
                r = Run(ctx, an, answer)
                for name, route in seq:
                    ctx.step(name)
                    route(r)
                ctx.gstate(an.label, [s[0] for s in seq])
    return run


def chosen(an):
    named = dict(routes(an, 2) + searches())
    return [(n, named[n]) for n in (
        'stationary', 'moved', 'gradients', 'preconditioned', 'converted',
        'tilted', 'linear TrueFalseFalse', 'linear FalseTrueTrue',
        'by hand TrueFalseTrue', 'taylor TrueFalseFalse',
        'taylor FalseFalseTrue', 'deprecated FalseFalse',
        'deprecated TrueTrue', 'trust True False') if n in named]


def updates_unit(ctx):
    """The conjugate updates for regressions are the optimum."""
    for which, d in itertools.product(range(4), (1, 2, 3, 4)):
        an = analyses.Regression(d, 'y', which)
        with ctx.trace(an.label):
            ctx.close(an.updates(), an.opt(an.h0), 'updates', 1e-8, 1e-9)
            ctx.gstate(an.label, 'updates')


def history_items():
    return [analyses.Normal(2, 'tilt'), analyses.Poisson('tilt', 0.1),
            analyses.Multinomial((2, 3)),
            analyses.Together([analyses.Categorical((2, 1), 'tilt'),
                               analyses.Normal(1, 'tilt')])]


def searchable(an):
    return not isinstance(an, analyses.Precision) and \
        'normals moment' not in an.label


def units(tier):
    quick = tier == 'quick'
    out = [('updates', updates_unit)]
    singles = analyses.singles(tier)
    order = 2 if quick else 3
    for i, b in enumerate(blocks(singles, 3)):
        out.append(('each-%d' % i, each_unit(b, order)))
    for i, b in enumerate(blocks(analyses.compounds(tier), 1)):
        out.append(('compound-%d' % i, each_unit(b, 2)))
    for i, b in enumerate(blocks(analyses.large(tier), 1)):
        out.append(('large-%d' % i, each_unit(b, 2)))
    for i, b in enumerate(blocks(analyses.wide(tier), 1)):
        out.append(('wide-%d' % i, wide_unit(b)))
    found = [a for a in singles[::3] + analyses.compounds(tier)[:1]
             if searchable(a)] if quick else \
        [a for a in singles + analyses.compounds(tier) if searchable(a)]
    for i, b in enumerate(blocks(found, 2)):
        out.append(('search-%d' % i, search_unit(b)))
    for i, an in enumerate(history_items()):
        for first in range(len(chosen(an))):
            out.append(('history-%d-%d' % (i, first),
                        history_unit(an, first, tier)))
    return out


def BOUNDS(tier):
    quick = tier == 'quick'
    return {
        'analyses': '%d: normal means, arrays of normals, counts with gamma '
                    'and Dirichlet priors, information matrices with Wishart '
                    'priors, regressions, weighted and constrained estimates; '
                    'hyperparameters are tilts, priors, data or weights' %
                    len(analyses.singles(tier)),
        'compounds': len(analyses.compounds(tier)),
        'large': len(analyses.large(tier)),
        'wide': '%d analyses of up to %d parameters, three routes' % (
            len(analyses.wide(tier)),
            max(a.s_in.free_size for a in analyses.wide(tier))),
        'routes': 'up to %d, with every combination of free or vector input, '
                  'free or vector hyperparameter, whole or partial objective; '
                  'series to order %d' % (
                      len(routes(analyses.Poisson('tilt'), 2)),
                      2 if quick else 3),
        'searches': 'two minimizers, with and without preconditioner, once '
                    'and repeatedly',
        'histories': 'all sequences of %d of up to 14 routes with the same '
                     'parameters, for %d analyses' % (
                         2 if quick else 3, len(history_items())),
    }
