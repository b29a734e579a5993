"""C17: minimizers return the optimum in the original coordinates."""
import itertools

import numpy as np
import autograd.numpy as anp
import scipy.sparse as sps

from mc import big, ref, jet
from mc import functions as fn
from mc.core import inputs_kept
from mc.faults import Fault, ArithmeticFault, Stop, Faults
from mc.models import ListOps, ArrayOps
from mc.ref import (Scalar, Vector, Array, PD, PDV, Simplex, Sub, INF, point,
                    arr)
from checks.c01 import make

PROPERTY = 'C17'


class Bowl(object):
    """Strictly convex in the entries of get(); minimum at given values, so
    one stationary point in the free coordinates."""
    def __init__(self, spec, which=0):
        self.spec = spec
        self.opt = [0.6 * x for x in point(spec.free_size, which)]
        self.e0 = [float(x) for x in fn.entries(spec, spec.fwd(self.opt))]
        n = len(self.e0)
        self.a = fn.weights(n, 1 + which)
        self.w = [1.0 + 0.4 * ((3 * i + which) % 4) for i in range(n)]

    def part(self, e, ops):
        d = ops.sub(e, self.e0)
        q = ops.mul(d, d)
        s = ops.dot(self.a, d)
        return ops.dot(self.w, q) * 0.5 + ops.dot(q, q) * 0.1 + \
            (ops.exp(s * 0.5) - 1. - s * 0.5) + 2.25

    def value(self, free):
        return self.part(fn.entries(self.spec, self.spec.fwd(free)), ListOps)

    def bind(self, par):
        return lambda: self.part(fn.real_entries(par, self.spec), ArrayOps)


SPECS = [Scalar(), Scalar(-1., 3.), Vector(2, 0.), Vector(3, -1., 2.),
         PD(2, 0.1), Simplex((1, 3)), Simplex((2, 2)), Sub(3), ref.gamma(0.1),
         make(['.', ['.']], 'XS')]


def matrices(n):
    """name -> preconditioner"""
    rot = np.array([[0.3 * x for x in point(n, (k % 4) + 1)]
                    for k in range(n)])
    dense = np.eye(n) * 1.4 + np.tril(rot) - 0.5 * np.triu(rot, 1)
    sym = np.eye(n) * 0.8 + 0.2 * (rot + rot.T) * np.eye(n) + 0.1
    perm = np.zeros((n, n))
    for i in range(n):
        perm[i, (i + 1) % n] = 0.9 + 0.2 * i
    lower = np.tril(dense)
    return {
        'none': None, 'dense': dense, 'symmetric': sym,
        'negative': np.eye(n) * -0.7, 'permuted': perm,
        'csr': sps.csr_matrix(lower), 'csc': sps.csc_matrix(perm),
        'diagonal': sps.diags([[0.5 + 0.4 * i for i in range(n)]], [0]),
        'coo': sps.coo_matrix(dense)}


def dense_of(a):
    return a.toarray() if sps.issparse(a) else a


class Run(object):
    """An objective with its log, minimized repeatedly."""
    def __init__(self, ctx, spec, which=0, guard=lambda f: f):
        import LinearResponseVariationalBayes as vb
        from LinearResponseVariationalBayes import SparseObjectives as so
        from LinearResponseVariationalBayes import OptimizationUtils as ou
        self.ctx, self.spec, self.ou = ctx, spec, ou
        self.bowl = Bowl(spec, which)
        self.par = spec.build('p', vb)
        self.obj = so.Objective(self.par, guard(self.bowl.bind(self.par)))
        self.n = spec.free_size
        self.logged, self.every = [], 1

    def minimize(self, solver, name, start, maxiter=None, disp=False,
                 every=None, fresh=None, gtol=None):
        ctx, obj = self.ctx, self.obj
        a = matrices(self.n)[name]
        if a is not None:
            obj.preconditioner = a
        x0 = arr(start)
        kw = {'disp': disp}
        if maxiter is not None:
            kw['maxiter'] = maxiter
        if every is not None:
            kw['print_every'] = every
            self.every = every
        if fresh is not None:
            kw['init_logger'] = fresh
        if gtol is not None and solver == 'trust':
            kw['gtol'] = gtol
        minimizer = self.ou.minimize_objective_trust_ncg \
            if solver == 'trust' else self.ou.minimize_objective_bfgs
        with inputs_kept(ctx, 'minimizer', x0, a):
            if a is None and solver == 'bfgs':
                opt, res = minimizer(obj, x0, **kw)
            else:
                opt, res = minimizer(obj, x0, a is not None, **kw)
        ctx.true(a is None or obj.preconditioner is a,
                 'the preconditioner was replaced')
        mat = np.eye(self.n) if a is None else dense_of(a)
        opt = np.asarray(opt, dtype=float)
        ctx.true(opt.shape == (self.n,), 'shape of the optimum')
        ctx.close(mat.dot(np.asarray(res.x)), opt,
                  'result of the optimizer in its own coordinates', 1e-9)
        ctx.close(res.fun, self.bowl.value(opt.tolist()),
                  'value in the result', 1e-8, 1e-9, shape=False)
        if maxiter is not None:
            ctx.true(res.nit <= max(maxiter, 1), 'iterations: %s of %s' % (
                res.nit, maxiter))
        self.log(x0, disp, fresh)
        f = self.bowl.value(jet.variables(opt.tolist()))
        grad = mat.T.dot(np.array(f.grad()))
        return opt, res, grad

    def log(self, x0, disp, fresh):
        """The log: kept or new, with this run's evaluations if wanted."""
        ctx, lg = self.ctx, self.obj.logger
        n0 = 0 if fresh is None or fresh else len(self.logged)
        ctx.true(lg.print_every == self.every, 'print_every is %s' %
                 lg.print_every)
        ctx.true(lg.iter == len(lg.x_array) == len(lg.val_array),
                 'lengths of the log')
        ctx.true(len(lg.x_array) > n0 if disp else len(lg.x_array) == n0,
                 'entries in the log: %d, %d before' % (
                     len(lg.x_array), n0))
        for (x, v), y, u in zip(self.logged[:n0], lg.x_array, lg.val_array):
            ctx.close(y, x, 'earlier entry of the log')
            ctx.close(u, v, 'earlier value in the log', shape=False)
        new = list(zip(lg.x_array, lg.val_array))[n0:]
        if disp:
            ctx.close(new[0][0], x0, 'first point evaluated', 1e-9, 1e-10)
        for x, v in new[:3] + new[-3:]:
            ctx.close(v, self.bowl.value(np.asarray(x).tolist()),
                      'logged value', 1e-8, 1e-9, shape=False)
        self.logged = [(np.array(x, dtype=float), float(v))
                       for x, v in zip(lg.x_array, lg.val_array)]

    def interrupted(self, every):
        """What is in the log after the function raised an exception."""
        ctx, lg = self.ctx, self.obj.logger
        self.every = self.every if every is None else every
        ctx.true(lg.print_every == self.every, 'print_every is %s' %
                 lg.print_every)
        ctx.true(lg.iter == len(lg.x_array) == len(lg.val_array),
                 'lengths of the log')
        self.logged = [(np.array(x, dtype=float), float(v))
                       for x, v in zip(lg.x_array, lg.val_array)]
        for x, v in self.logged:
            ctx.close(v, self.bowl.value(x.tolist()), 'logged value', 1e-8,
                      1e-9, shape=False)

    def found(self, opt, res, grad, tol):
        self.ctx.true(float(np.max(np.abs(opt - arr(self.bowl.opt)))) < tol,
                      'optimum %s, expected %s' % (
                          opt.tolist(), self.bowl.opt))
        self.ctx.gstate(repr(self.spec), np.round(opt, 4))


def starts(bowl):
    n = bowl.spec.free_size
    # not the optimum itself: scipy divides by the norm of the gradient
    return [[a + 0.002 * b for a, b in zip(bowl.opt, point(n, 1))], [0.] * n,
            [a + 0.6 * b for a, b in zip(bowl.opt, point(n, 3))],
            [a + 0.9 * b for a, b in zip(bowl.opt, point(n, 4))]]


def optimum_unit(i, tier):
    def run(ctx):
        spec = SPECS[i]
        for which in (0, 1) if tier == 'quick' else (0, 1, 2, 3):
            names = sorted(matrices(spec.free_size))
            for k, name in enumerate(names):
                for j, start in enumerate(starts(Bowl(spec, which))):
                    for solver in ('trust', 'bfgs'):
                        if tier == 'quick' and (
                                (j + k + i) % 4 != 2 * (solver == 'bfgs')
                                if which else
                                (j + k + i) % 3 == (solver == 'bfgs')):
                            continue
                        with ctx.trace(repr(spec), which, name, j, solver):
                            r = Run(ctx, spec, which)
                            out = r.minimize(
                                solver, name, start, disp=j % 2 == 0,
                                maxiter=300 if solver == 'trust' else None,
                                gtol=1e-8)
                            r.found(*out, tol=1e-6 if solver == 'trust'
                                    else 1e-3)
                            ctx.true(float(np.max(np.abs(out[2]))) < (
                                1e-7 if solver == 'trust' else 1e-3),
                                'gradient at the optimum %s' % out[2])
    return run


def limits_unit(i, tier):
    def run(ctx):
        spec = SPECS[i]
        for name in ('none', 'dense', 'csr'):
            for solver in ('trust', 'bfgs'):
                for maxiter in (0, 1, 2, 3, 5):
                    with ctx.trace(repr(spec), name, solver, maxiter):
                        r = Run(ctx, spec, 0)
                        start = starts(r.bowl)[3]
                        opt, res, grad = r.minimize(
                            solver, name, start, maxiter=maxiter, disp=True,
                            gtol=1e-12)
                        if maxiter == 0 and solver == 'bfgs':
                            ctx.close(opt, start, 'no iterations', 1e-9)
                        ctx.true(r.bowl.value(opt.tolist()) <=
                                 r.bowl.value(start) + 1e-9, 'went uphill')
                        ctx.state(repr(spec), name, solver, maxiter)
                for gtol in (1e-2, 1e-5) if solver == 'trust' else ():
                    with ctx.trace(repr(spec), name, 'gtol', gtol):
                        r = Run(ctx, spec, 0)
                        opt, res, grad = r.minimize(
                            solver, name, starts(r.bowl)[3], maxiter=200,
                            gtol=gtol)
                        ctx.true(float(np.linalg.norm(grad)) <= gtol * 1.001,
                                 'gradient tolerance')
                        ctx.state(repr(spec), name, gtol)
    return run


CALLS = [
    ('trust', 'none', 2, dict(disp=True)),
    ('trust', 'dense', 3, dict(disp=False)),
    ('trust', 'csr', 1, dict(disp=True, fresh=False)),
    ('bfgs', 'none', 3, dict(disp=True, fresh=False, every=3)),
    ('bfgs', 'dense', 2, dict(disp=True, fresh=True)),
    ('bfgs', 'none', 0, dict(disp=False, fresh=False)),
    ('trust', 'none', 1, dict(disp=False, fresh=True, every=7)),
    ('bfgs', 'diagonal', 1, dict(disp=True, fresh=False)),
]


def history_unit(i, first, depth):
    def run(ctx):
        spec = [Vector(2, 0.), Simplex((1, 3))][i]
        for rest in itertools.product(range(len(CALLS)), repeat=depth - 1):
            seq = (first,) + rest
            with ctx.trace(repr(spec), list(seq)):
                r = Run(ctx, spec, 0)
                for c in seq:
                    solver, name, start, kw = CALLS[c]
                    ctx.step(solver, name, start, kw)
                    out = r.minimize(solver, name, starts(r.bowl)[start],
                                     gtol=1e-8, **kw)
                    r.found(*out, tol=1e-5 if solver == 'trust' else 1e-3)
                    ctx.state(seq, len(r.logged))
    return run


def interrupted_unit(first, tier):
    """The function raises at any call in a minimization; the minimization
    after it finds the optimum, and its log is right."""
    def run(ctx):
        spec = Vector(2, 0.)
        solver, name, start, kw = CALLS[first]
        faults = Faults()
        r = Run(ctx, spec, 0, faults.guard)
        r.minimize(solver, name, starts(r.bowl)[start], gtol=1e-8, **kw)
        calls = faults.count
        for n in sorted({1, 2, 3, calls // 3, calls // 2, calls - 1, calls}
                        if tier == 'quick' else range(1, calls + 1)):
            for then, call in enumerate(CALLS):
                when = ('before', 'after')[(n + first + then) % 2]
                kind = (Fault, Stop, ArithmeticFault)[(n + then) % 3]
                with ctx.trace('interrupted', first, n, when, kind.__name__,
                               then):
                    faults.plan = None
                    r = Run(ctx, spec, 0, faults.guard)
                    if then % 2:
                        x = starts(r.bowl)[1]
                        r.obj.fun_free(arr(x), verbose=True)
                        r.logged.append((arr(x), r.bowl.value(x)))
                    faults.plan, faults.count = (n, when, kind), 0
                    try:
                        r.minimize(solver, name, starts(r.bowl)[start],
                                   gtol=1e-8, **kw)
                        ctx.fail('the exception did not reach the caller')
                    except kind:
                        pass
                    faults.plan = None
                    r.interrupted(kw.get('every'))
                    solver2, name2, start2, kw2 = call
                    ctx.step(solver2, name2, start2, kw2)
                    out = r.minimize(solver2, name2, starts(r.bowl)[start2],
                                     gtol=1e-8, **kw2)
                    r.found(*out, tol=1e-5 if solver2 == 'trust' else 1e-3)
                    ctx.state(first, n, when, then, len(r.logged))
    return run


def options_unit(solver, name):
    """Every combination of the options, after two evaluations were logged
    with a callback in place, and then once more with the defaults."""
    def run(ctx):
        spec = Vector(2, 0.)
        for disp, fresh, every, limit in itertools.product(
                (False, True), (None, False, True), (None, 1, 4), (None, 2)):
            with ctx.trace(solver, name, disp, fresh, every, limit):
                r = Run(ctx, spec, 0)
                called = []
                r.obj.logger.callback = lambda lg: called.append(lg.iter)
                for k in (1, 3):
                    x = starts(r.bowl)[k]
                    r.obj.fun_free(arr(x), verbose=True)
                    r.logged.append((arr(x), r.bowl.value(x)))
                before = len(called)
                start = starts(r.bowl)[2]
                out = r.minimize(solver, name, start, maxiter=limit,
                                 disp=disp, every=every, fresh=fresh,
                                 gtol=1e-8)
                if limit is None:
                    r.found(*out, tol=1e-5 if solver == 'trust' else 1e-3)
                ctx.true((len(called) > before) >= (disp and r.every == 1),
                         'the callback was lost')
                out = r.minimize(solver, name, start, fresh=False, gtol=1e-8)
                r.found(*out, tol=1e-5 if solver == 'trust' else 1e-3)
                ctx.state(solver, name, disp, fresh, every, limit)
    return run


def large_unit(k, tier):
    """Objectives of many variables, from starts in any memory layout."""
    def run(ctx):
        spec = (big.small_medium() if tier == 'quick' else big.medium())[k]
        names = sorted(matrices(spec.free_size)) if tier != 'quick' else \
            ['none', 'dense', 'csr', 'diagonal']
        for t, name in enumerate(names):
            for solver in ('trust', 'bfgs'):
                if solver == 'bfgs' and isinstance(spec, (PDV, PD, ref.PDA)):
                    continue    # its steps go far out, where all is flat
                with ctx.trace(repr(spec), name, solver):
                    r = Run(ctx, spec, 0)
                    start = [a + 0.2 * b for a, b in zip(
                        r.bowl.opt, point(r.n, 3))]
                    forms = list(big.array_forms(arr(start)))
                    for form, x0 in forms[1 + t % 4::4][:1] + forms[:1]:
                        ctx.step(form)
                        out = r.minimize(
                            solver, name, x0, disp=form != 'plain',
                            maxiter=500 if solver == 'trust' else None,
                            gtol=1e-8)
                        r.found(*out, tol=1e-5 if solver == 'trust' else 1e-2)
                    ctx.state(repr(spec), name, solver)
    return run


def life_unit(i, tier):
    """Many minimizations with one objective."""
    def run(ctx):
        spec = [Vector(2, 0.), Simplex((1, 3))][i]
        with ctx.trace(repr(spec), 'life'):
            r = Run(ctx, spec, 0)
            for k in range(20 if tier == 'quick' else 100):
                solver, name, start, kw = CALLS[(5 * k + k // 8) % len(CALLS)]
                ctx.step(solver, name, start, kw)
                kw = dict(kw)
                if k % 6:
                    kw['fresh'] = False
                out = r.minimize(solver, name, starts(r.bowl)[start],
                                 gtol=1e-8, **kw)
                r.found(*out, tol=1e-5 if solver == 'trust' else 1e-3)
            ctx.state(repr(spec), len(r.logged))
    return run


def units(tier):
    out = []
    for k in range(len(big.small_medium() if tier == 'quick' else
                       big.medium())):
        out.append(('large-%d' % k, large_unit(k, tier)))
    for i in range(2):
        out.append(('life-%d' % i, life_unit(i, tier)))
    for i in range(len(SPECS)):
        out.append(('optimum-%d' % i, optimum_unit(i, tier)))
        out.append(('limits-%d' % i, limits_unit(i, tier)))
    for solver in ('trust', 'bfgs'):
        for name in ('none', 'dense', 'csr'):
            out.append(('options-%s-%s' % (solver, name),
                        options_unit(solver, name)))
    for c in range(len(CALLS)):
        out.append(('interrupted-%d' % c, interrupted_unit(c, tier)))
    for i in range(2):
        for c in range(len(CALLS)):
            out.append(('history-%d-%d' % (i, c),
                        history_unit(i, c, 2 if tier == 'quick' else 3)))
    return out


def BOUNDS(tier):
    return {
        'objectives': '%d parameters, 2 minima' % len(SPECS),
        'preconditioners': sorted(matrices(2)),
        'starts': '4, one close to the optimum',
        'limits': 'maxiter 0, 1, 2, 3, 5; three gradient tolerances',
        'large': 'up to %d variables, in 5 layouts; lives of %d minimizations' %
                 ((20, 20) if tier == 'quick' else (34, 100)),
        'options': 'all combinations of display, new log, print_every and a '
                   'limit, after logged evaluations',
        'interrupted': 'the function raises one of 3 exceptions in %s of the '
                       'calls of each of %d minimizations, followed by each' % (
                           'up to 7' if tier == 'quick' else 'any',
                           len(CALLS)),
        'histories': 'all sequences of %d of %d minimizations' % (
            2 if tier == 'quick' else 3, len(CALLS)),
    }
