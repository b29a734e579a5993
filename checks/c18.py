"""C18: repeated optimization stops when and only when it should.

The objective is real (VectorParam, Objective, autograd), but its function is
a table: a value and a gradient for each of a few points.  The optimizer is a
script.  All scripts are tried, in all configurations, against a model of the
loop: what an optimizer may answer is enumerated, not simulated.
"""
import itertools

import numpy as np

from mc.core import inputs_kept
from mc.faults import Fault, ArithmeticFault, Stop, Faults
from mc.ref import Vector, Simplex, arr
from checks import c17

PROPERTY = 'C18'

XTOL, FTOL, GTOL = 0.1, 1e-2, 1e-3
NAN = float('nan')
INF = float('inf')

# name -> point, value, gradient.  Relative to 'origin': 'far' and 'other'
# are far with other values; 'near' is within xtol; 'wide' moves both entries
# by less than xtol but together by more; 'level' is far but has an equal
# value (up to less than ftol); 'flat' has gradient zero; 'steep' has
# gradient entries below gtol which add up to more; 'nan' and 'inf' have no
# finite value; 'lost' is not finite itself.
POINTS = {
    'origin': ((0.5, -0.25), 1.0, (1.0, -1.0)),
    'far': ((3.5, -3.25), -2.0, (-2.0, 2.0)),
    'other': ((-4.0, 2.0), 4.0, (0.5, 0.25)),
    'near': ((0.54, -0.29), 1.05, (-1.0, 1.0)),
    'wide': ((0.56, -0.31), 0.95, (-5e-3, 0.0)),
    'level': ((-3.0, 3.25), 1.004, (0.0, 0.7)),
    'flat': ((6.0, 1.0), 2.5, (0.0, 0.0)),
    'steep': ((1.0, 6.0), 2.45, (6e-4, -6e-4)),
    'nan': ((-7.0, -7.0), NAN, (1.0, 1.0)),
    'inf': ((8.0, -8.0), INF, (1.0, 1.0)),
    'lost': ((NAN, -1.0), NAN, (2.0, 1.0)),
}
NAMES = sorted(POINTS)


def lookup(x):
    for name, (p, _, _) in POINTS.items():
        if abs(p[0] - x[0]) + abs(p[1] - x[1]) < 1e-6:
            return name
    if x[0] != x[0]:
        return 'lost'
    raise RuntimeError('evaluated away from all points: %s' % (x,))


_TABLE = []


def table():
    """The function, as a primitive of autograd."""
    if not _TABLE:
        from autograd.extend import primitive, defvjp

        @primitive
        def fun(x):
            return POINTS[lookup(x)][1]
        defvjp(fun, lambda ans, x: lambda g: g * arr(POINTS[lookup(x)][2]))
        _TABLE.append(fun)
    return _TABLE[0]


class Result(object):
    """What an optimizer returns as its result: kept, never looked at."""


class Script(object):
    def __init__(self, ctx, answers, results):
        self.ctx, self.answers, self.results = ctx, answers, results
        self.given, self.returned = [], []

    def __call__(self, x):
        self.given.append(np.array(x, dtype=float))
        self.ctx.true(len(self.given) <= 40, 'the optimizer is called forever')
        name = self.answers[(len(self.given) - 1) % len(self.answers)]
        res = Result()
        self.results.append(res)
        self.returned.append(res)
        return arr(POINTS[name][0]), res


def l1(a, b):
    return sum(abs(u - v) for u, v in zip(a, b))


def model(start, answers, xtol, ftol, gtol, max_iter):
    """names of the starting points, flags"""
    at = start
    starts = []
    for i in range(max_iter):
        starts.append(at)
        new = answers[i % len(answers)]
        flags = (l1(POINTS[new][0], POINTS[at][0]) < xtol,
                 abs(POINTS[new][1] - POINTS[at][1]) < ftol,
                 l1(POINTS[new][2], (0., 0.)) < gtol)
        at = new
        if any(flags):
            break
    return starts, at, flags


def objective(guard=lambda f: f):
    import LinearResponseVariationalBayes as vb
    from LinearResponseVariationalBayes import SparseObjectives as so
    par = vb.VectorParam('p', 2)
    return so.Objective(par, guard(lambda: table()(par.get())))


def check(ctx, start, answers, first, tols, max_iter, keep, disp, calls,
          obj=None):
    from LinearResponseVariationalBayes import OptimizationUtils as ou
    obj = objective() if obj is None else obj
    x0 = arr(POINTS[start][0])
    for call in range(calls):
        made = []
        opt = Script(ctx, answers, made)
        init = Script(ctx, [first], made) if first is not None else None
        kw = {}
        if tols is not None:
            kw.update(xtol=tols[0], ftol=tols[1], gtol=tols[2])
        if init is not None:
            kw['initial_optimization_fun'] = init
        with inputs_kept(ctx, 'repeatedly_optimize', x0):
            out = ou.repeatedly_optimize(
                obj, opt, x0, max_iter=max_iter, disp=disp,
                keep_intermediate_optimizations=keep, **kw)
        ctx.true(len(out) == 7, 'seven results')
        x, conv, x_conv, f_conv, g_conv, res, kept = out
        tx, tf, tg = tols if tols is not None else (1e-8, 1e-8, 1e-8)
        begin = start if first is None else first
        starts, end, flags = model(begin, answers, tx, tf, tg, max_iter)
        ctx.true(repr([g.tolist() for g in opt.given]) ==
                 repr([list(POINTS[s][0]) for s in starts]),
                 'the optimizer was started at %s, expected %s' % (
                     [g.tolist() for g in opt.given], starts))
        if init is not None:
            ctx.true([g.tolist() for g in init.given] ==
                     [list(POINTS[start][0])],
                     'the initial optimizer was started at %s' % (
                         [g.tolist() for g in init.given],))
            ctx.true(made[0] is init.returned[0],
                     'the initial optimizer did not run first')
        if end == 'lost':
            ctx.true(repr(np.asarray(x).tolist()) ==
                     repr(list(POINTS[end][0])), 'last point %s' % (x,))
        else:
            ctx.close(x, list(POINTS[end][0]), 'last point', 1e-14, 0.)
        ctx.true((bool(x_conv), bool(f_conv), bool(g_conv)) == flags,
                 'flags of point, value, gradient: %s, expected %s' % (
                     (bool(x_conv), bool(f_conv), bool(g_conv)), flags))
        ctx.true(bool(conv) == any(flags), 'converged is %s for %s' % (
            conv, flags))
        ctx.true(res is opt.returned[-1], 'not the last result')
        want = made if keep else []
        ctx.true(len(kept) == len(want) and
                 all(a is b for a, b in zip(kept, want)),
                 'kept %d results, expected %d in order' % (
                     len(kept), len(want)))
        ctx.state(begin, starts, end, flags, keep)


# Minus one can never be met, so it turns a criterion off.
TOLS = [(x, f, g) for x in (-1., XTOL) for f in (-1., FTOL)
        for g in (-1., GTOL)]
# Tolerances of other sizes, so that exchanging them shows.
MORE_TOLS = [None, (20., -1., -1.), (-1., 20., -1.), (-1., -1., 20.),
             (1e-3, 1e-1, 1e-2), (1e-2, 1e-3, 1e-1), (1e-1, 1e-2, 1e-3),
             (0.13, -1., 5.1e-3), (INF, -1., -1.), (-1., INF, -1.), (0., 0., 0.)]


def script_unit(last, tier):
    """All scripts that end in a given answer."""
    def run(ctx):
        length = 3
        count = 0
        for n in range(1, length + 1):
            for head in itertools.product(NAMES, repeat=n - 1):
                answers = head + (last,)
                for tols in TOLS:
                    # Every script with its own length as limit, and more
                    # and fewer, in rotation or all of them.
                    limits = (1, 2, 3, 5)
                    if tier == 'quick' and n == 3:
                        limits = (3,)
                    for max_iter in limits:
                        if max_iter < n:
                            continue
                        starts = ('origin',) if tier == 'quick' else \
                            ('origin', 'level', 'nan')
                        for start in starts:
                            count += 1
                            with ctx.trace(start, answers, tols, max_iter):
                                check(ctx, start, answers, None, tols,
                                      max_iter, count % 2 == 0,
                                      count % 5 == 0, 1)
    return run


def config_unit(last, tier):
    """All configurations with the shorter scripts."""
    def run(ctx):
        for n in (1, 2):
            for head in itertools.product(NAMES, repeat=n - 1):
                answers = head + (last,)
                for tols in MORE_TOLS:
                    for max_iter in (1, 2, 3):
                        for keep in (False, True):
                            with ctx.trace('origin', answers, tols, max_iter,
                                           keep):
                                check(ctx, 'origin', answers, None, tols,
                                      max_iter, keep, False, 1)
    return run


def init_unit(first, tier):
    """All answers of the initial optimizer."""
    def run(ctx):
        for n in (1, 2):
            for answers in itertools.product(NAMES, repeat=n):
                for tols in TOLS if n == 1 or tier != 'quick' else TOLS[-1:]:
                    for keep in (False, True):
                        for start in ('origin', 'flat'):
                            with ctx.trace(start, 'then', first, answers,
                                           tols, keep):
                                check(ctx, start, answers, first, tols, 2,
                                      keep, keep, 1)
    return run


def late_unit(tier):
    """Convergence, of each kind, in any late iteration, or one later than
    allowed."""
    def run(ctx):
        for k in range(1, 27 if tier == 'quick' else 37):
            ends = {'x': ['origin', 'near'], 'f': ['other', 'flat', 'steep'],
                    'g': ['origin', 'flat'], 'same': ['far', 'far'],
                    'none': ['other', 'far']}
            for kind in sorted(ends):
                wander = [('far', 'other', 'inf', 'far', 'origin')[i % 5]
                          for i in range(k)]
                answers = tuple(wander + ends[kind])
                for tols in (TOLS[-1], (XTOL, -1., -1.), (-1., FTOL, -1.),
                             (-1., -1., GTOL), None, (-1., -1., -1.)):
                    for max_iter in {max(1, k - 1), k, k + 1, k + 2, 38}:
                        with ctx.trace('late', k, kind, tols, max_iter):
                            check(ctx, 'level', answers, None, tols, max_iter,
                                  bool(k % 2), bool(k % 3 == 0), 1)
    return run


def again_unit(tier):
    """Repeated calls with one objective do not influence each other."""
    def run(ctx):
        for answers in itertools.product(NAMES, repeat=2):
            for first in (None, 'far'):
                with ctx.trace('twice', answers, first):
                    check(ctx, 'origin', answers, first, TOLS[-1], 3, True,
                          True, 2)
    return run


def interrupted_unit(who, tier):
    """The objective, or the optimizer, raises at any call; the exception
    reaches the caller and the next optimization is not affected."""
    def run(ctx):
        from LinearResponseVariationalBayes import OptimizationUtils as ou
        scripts = [('far', 'other', 'level'), ('flat',), ('near', 'far'),
                   ('origin', 'far'), ('nan', 'far', 'steep')]
        for answers, first, then in itertools.product(
                scripts, (None, 'far'), scripts):
            faults = Faults()
            guarded, plain = faults.guard, lambda f: f
            obj = objective(guarded if who == 'objective' else plain)

            def attempt():
                opt = Script(ctx, answers, [])
                init = Script(ctx, [first], []) if first else None
                if who == 'optimizer':
                    opt = guarded(opt)
                elif who == 'initial' and init is not None:
                    init = guarded(init)
                ou.repeatedly_optimize(
                    obj, opt, arr(POINTS['origin'][0]), max_iter=5,
                    xtol=XTOL, ftol=FTOL, gtol=GTOL,
                    initial_optimization_fun=init,
                    keep_intermediate_optimizations=True)
            attempt()
            for n in range(1, faults.count + 1):
                for when in ('before', 'after'):
                    kind = (Fault, Stop, ArithmeticFault)[(n + len(then)) % 3]
                    with ctx.trace('interrupted', who, answers, first, n,
                                   when, kind.__name__, then):
                        faults.plan, faults.count = (n, when, kind), 0
                        try:
                            attempt()
                            ctx.fail('the exception did not reach the caller')
                        except kind:
                            pass
                        faults.plan = None
                        check(ctx, 'origin', then, first, TOLS[-1], 3, True,
                              False, 1, obj)
    return run


def real_unit(i, tier):
    """With the package's minimizers, against objectives with known optima."""
    def run(ctx):
        from LinearResponseVariationalBayes import OptimizationUtils as ou
        spec = [Vector(2, 0.), Simplex((1, 3)), Vector(3, -1., 2.)][i]
        for name in ('none', 'dense', 'csr'):
            for solver, maxiter, limit in (
                    ('trust', 2, 40), ('trust', 50, 40), ('bfgs', 4, 60),
                    ('bfgs', 500, 5), ('trust', 1, 2)):
                for start in (1, 2):
                    for with_init in (False, True):
                        with ctx.trace(repr(spec), name, solver, maxiter,
                                       limit, start, with_init):
                            r = c17.Run(ctx, spec, 0)
                            x0 = arr(c17.starts(r.bowl)[start])
                            a = c17.matrices(r.n)[name]
                            r.obj.preconditioner = a
                            real(ctx, r, ou, x0, a, solver, maxiter, limit,
                                 with_init)
    return run


def real(ctx, r, ou, x0, a, solver, maxiter, limit, with_init):
    calls = []

    def minimize(x):
        f = ou.minimize_objective_trust_ncg if solver == 'trust' \
            else ou.minimize_objective_bfgs
        opt, res = f(r.obj, x, a is not None, maxiter=maxiter, disp=False)
        calls.append((np.array(x), np.array(opt), res))
        return opt, res

    init_calls = []

    def initial(x):
        opt, res = ou.minimize_objective_bfgs(
            r.obj, x, False, maxiter=1, disp=False)
        init_calls.append((np.array(x), np.array(opt), res))
        return opt, res

    kw = {'initial_optimization_fun': initial} if with_init else {}
    with inputs_kept(ctx, 'repeatedly_optimize', x0):
        out = ou.repeatedly_optimize(
            r.obj, minimize, x0, max_iter=limit,
            keep_intermediate_optimizations=True, **kw)
    x, conv, x_conv, f_conv, g_conv, res, kept = out
    ctx.true(1 <= len(calls) <= limit, 'number of optimizations')
    ctx.true(res is calls[-1][2], 'last result')
    ctx.true([id(k) for k in kept] ==
             [id(c[2]) for c in init_calls + calls], 'kept results')
    ctx.close(x, calls[-1][1], 'last point', 1e-14, 0.)
    at = x0 if not with_init else init_calls[0][1]
    for given, opt, _ in calls:
        ctx.close(given, at, 'start of an optimization', 1e-14, 0.)
        at = opt
    ctx.true(bool(conv) == bool(x_conv or f_conv or g_conv), 'converged')
    ctx.true(bool(conv) or len(calls) == limit, 'stopped early')
    if solver == 'trust' and limit == 40:
        ctx.true(bool(conv), 'not converged')
    if conv and maxiter >= 50:
        # (with fewer iterations an optimizer may well not move at all)
        ctx.close(x, r.bowl.opt, 'optimum', 1e-3, 1e-3)
    elif not conv and limit == 2:
        ctx.true(len(calls) == 2, 'stopped early')
    ctx.state(solver, maxiter, limit, len(calls), bool(conv))


def units(tier):
    out = []
    for n in NAMES:
        out.append(('scripts-' + n, script_unit(n, tier)))
        out.append(('config-' + n, config_unit(n, tier)))
        out.append(('initial-' + n, init_unit(n, tier)))
    out.append(('again', again_unit(tier)))
    out.append(('late', late_unit(tier)))
    for who in ('objective', 'optimizer', 'initial'):
        out.append(('interrupted-' + who, interrupted_unit(who, tier)))
    for i in range(3):
        out.append(('real-%d' % i, real_unit(i, tier)))
    return out


def BOUNDS(tier):
    return {
        'answers': NAMES,
        'scripts': 'all sequences of up to 3 answers, repeated to the limit',
        'tolerances': 'each of three met or unreachable (8), and %d more' %
                      len(MORE_TOLS),
        'limits': '1, 2, 3, 5 (for scripts of length 3 in the quick tier: 3)',
        'late': 'convergence of 5 kinds in each iteration up to %d' % (
            28 if tier == 'quick' else 38),
        'interrupted': 'the objective or an optimizer raises one of 3 '
                       'exceptions in any of its calls, in 10 optimizations, '
                       'each followed by 5 others',
        'initial optimizer': 'none or any answer',
        'real optimizers': '3 objectives, 3 preconditioners, 5 settings',
    }
