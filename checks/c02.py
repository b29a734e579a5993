"""C02: the free parameterization is a bijection onto the constraint set."""
import itertools
import math

import numpy as np

from mc import big, jet, ref
from mc.core import blocks
from mc.ref import (Scalar, Vector, Array, PD, PDV, PDA, Simplex, Sub, Dict,
                    INF, point, free_points, arr)

PROPERTY = 'C02'

LOWER = [-INF, -2., 0., 1.5]
UPPER = [INF, 7.25, 0.5, -1.]
BOXES = [(lb, ub) for lb in LOWER for ub in UPPER if lb < ub]
BAD_BOXES = [(1., 1.), (2., 1.), (0., -INF), (INF, INF), (INF, 0.)]
DIAG = [0., 0.5, 2.]

PERPS = [
    (3, None), (2, None), (5, None),
    (3, [[1., 0., 0.]]), (3, [[1., 2., -1.]]), (3, [[0.5, -2., 3.]]),
    (3, [[1., 0., 0.], [1., 1., 0.]]),
    (4, [[1., 1., 1., 1.], [1., -1., 2., 0.5]]),
    (4, [[3., 0., 0., 4.]]),
    (4, [[1., 0., 2., 0.], [0., 1., 0., 0.], [1., 1., 1., 1.]]),
    (2, [[2., 1.]]), (5, [[0., 0., 0., 0., 2.]]),
    (6, [[1., 2., 0., 1., 3., 1.], [0., 1., 1., 2., -1., 1.],
         [2., 0., 1., -1., 1., 3.], [1., 1., 1., 4., 1., 0.]]),
    (7, [[1., 2., 0., 1., 3., 1., 2.], [0., 1., 1., 2., -1., 1., 0.],
         [2., 0., 1., -1., 1., 3., 1.], [1., 1., 1., 4., 1., 0., -2.],
         [0.5, 0., -1., 2., 0., 1., 1.], [1., 1., 0., 0., 1., 2., 5.]]),
    (8, [[100., 1., 0., 0., 0., 0., 0., 0.], [0., 0.01, 1., 0., 0., 0., 0., 0.],
         [1., 1., 1., 1., 1., 1., 1., 1.]]),
]


def specs(tier):
    out = []
    for lb, ub in BOXES:
        out.append(Scalar(lb, ub))
        for n in (1, 2, 3, 5):
            out.append(Vector(n, lb, ub))
        for sh in ((2,), (1, 1), (2, 3), (3, 2), (2, 1, 3)):
            out.append(Array(sh, lb, ub))
    top = 5 if tier == 'quick' else 7
    for d in DIAG:
        for n in range(1, top + 1):
            out.append(PD(n, d))
        for length in (1, 2, 3):
            for n in (1, 2, 3):
                out.append(PDV(length, n, d))
        for sh in ((1,), (2,), (3,), (2, 2), (1, 3), (3, 1), (2, 1, 2)):
            for n in (1, 2, 3):
                out.append(PDA(sh, n, d))
    for rows in (1, 2, 3, 4):
        for cols in (2, 3, 4, 5):
            out.append(Simplex((rows, cols)))
    for dim, perp in PERPS:
        out.append(Sub(dim, perp))
    for m in (0., 0.4, 3.):
        out += [ref.mvn(2, m), ref.mvn(1, m), ref.mvn(3, m), ref.uvn(m),
                ref.uvnv(1, m), ref.uvnv(3, m), ref.uvna((2, 3), m),
                ref.uvna((1, 1), m), ref.uvnm((2, 3), m), ref.uvnm((1, 2), m),
                ref.mvna((2, 3), m), ref.mvna((3, 2), m), ref.gamma(m, 0.),
                ref.gamma(0., m), ref.gamma(m, m), ref.dirichlet((1, 2), m),
                ref.dirichlet((3, 2), m), ref.dirichlet((2, 1), m),
                ref.dirichlet((4,), m)]
        for n in (1, 2, 3):
            out += [ref.wishart(n, m), ref.wishart(n, m, n - 1 + 2.5)]
    return out


def exhaustive_points(spec, tier):
    n = spec.free_size
    if n > 30:
        pts = free_points(n, False)
        for k in {0, 1, 9, 10, 15, 16, 31, n // 2, n - 2, n - 1} & set(
                range(n)):
            pts.append([-1.7 if i == k else 0.2 for i in range(n)])
        return pts
    pts = free_points(n)
    vals = [-3., -0.4, 0., 1.1, 4.]
    if n <= 2:
        pts += [list(p) for p in itertools.product(vals, repeat=n)]
    elif n == 3:
        pts += [list(p) for p in itertools.product([-2., 0., 1.3], repeat=n)]
    elif tier == 'thorough' and n <= 6:
        pts += [list(p) for p in itertools.product([-1.5, 0.6], repeat=n)]
        pts += [list(p) for p in itertools.product([-1.5, 0., 0.6], repeat=n)]
    return pts


EPS = 2.3e-16
FAR = [6., 9., 12., 16., 20.5, 25., 30., 300.]


def free_tolerances(spec, free):
    """How well double precision determines each free value at this point
    from the constrained value; None where it does not determine it."""
    if isinstance(spec, (PD, PDV)):
        return [None] * len(free)
    if isinstance(spec, (Simplex, Sub)):
        big = max([1.] + [abs(f) for f in free])
        # probabilities below the smallest number are zero
        return [1e-9 * big if big < 200. else None] * len(free)
    out = []
    for x in free:
        lb, ub = spec.lb, spec.ub
        if lb == -INF and ub == INF:
            tol = 1e-12 * max(1., abs(x))
        elif ub == INF or lb == -INF:
            side, bound = (x, lb) if ub == INF else (-x, ub)
            tol = 1e-11 * max(1., abs(x)) + (
                16 * EPS * abs(bound) * math.exp(-side)
                if bound and side > -30. else
                (0. if not bound else INF))
        else:
            tol = 1e-10 + (32 * EPS * (abs(lb) + abs(ub)) / (ub - lb) *
                           math.exp(abs(x)) if abs(x) < 34. else INF)
        out.append(tol if tol < 0.3 else None)
    return out


def run_spec(ctx, spec, tier):
    import LinearResponseVariationalBayes as vb
    what = repr(spec)
    with ctx.trace(what, 'default'):
        par = spec.build('p', vb)
        vec = par.get_vector()
        ctx.true(spec.in_constraint(np.array(vec).tolist()),
                 'default value %s is outside the constraints' % vec)
        free = par.get_free()
        ctx.true(bool(np.all(np.isfinite(free))),
                 'default value has no finite free representation')
        ctx.true(free.shape == (spec.free_size,), 'shape of get_free()')
        ctx.true(vec.shape == (spec.vec_size,), 'shape of get_vector()')
        ctx.true(par.free_size() == spec.free_size, 'free_size()')
        ctx.true(par.vector_size() == spec.vec_size, 'vector_size()')
        ctx.close(free, spec.inv(np.array(vec).tolist()),
                  'free value of the default')
        ctx.state(vec)
    if not isinstance(spec, Sub):
        with ctx.trace(what, 'default value'):
            par = spec.build('p', vb)
            ref.check_state(ctx, par, spec, np.array(par.get_vector()).tolist(),
                            'default')
    par = spec.build('p', vb)
    fresh_each = spec.free_size <= 3
    for free in exhaustive_points(spec, tier):
        with ctx.trace(what, 'set_free', free):
            if fresh_each:
                par = spec.build('p', vb)
            vec = spec.fwd(free)
            arg = arr(free)
            par.set_free(arg)
            got = par.get_vector()
            ctx.true(spec.in_constraint(np.array(got).tolist()),
                     'value %s is outside the constraints' % got)
            ref.check_value(ctx, par, spec, vec, 'value')
            ctx.close(got, vec, 'vector representation', 1e-8, 1e-9)
            ctx.close(par.get_free(), free, 'free, constrained, free again',
                      1e-6, 1e-7)
            ctx.close(par.get_free(), free, 'free value asked for again',
                      1e-6, 1e-7)
            ctx.close(par.free_to_vector(arr(free)), vec, 'free_to_vector',
                      1e-8, 1e-9, shape=not isinstance(spec, Scalar))
            ctx.state(vec)
        with ctx.trace(what, 'set_vector', free):
            if fresh_each:
                par = spec.build('p', vb)
            vec = spec.fwd(free)
            par.set_vector(arr(vec))
            ctx.close(par.get_vector(), vec, 'vector representation')
            ctx.close(par.get_free(), free, 'constrained to free', 1e-6, 1e-7)
            back = par.get_free()
            par.set_free(back)
            ctx.close(par.get_vector(), vec, 'constrained, free, constrained',
                      1e-7, 1e-8)
        if not spec.is_dict:
            with ctx.trace(what, 'set', free):
                vec = spec.fwd(free)
                par.set(spec.for_set(vec))
                ctx.close(par.get_vector(), vec, 'vector after set')
                ctx.close(par.get_free(), free, 'free after set', 1e-6, 1e-7)
    # far out: still inside the constraint set
    n = spec.free_size
    for big in [b * sign for b in FAR for sign in (1., -1.)]:
        for pat in ('all', 'one', 'alternate'):
            free = [big if pat == 'all' or (pat == 'one' and i == 0) or
                    (pat == 'alternate' and i % 2) else 0.2 for i in range(n)]
            if abs(big) > 30. and not far_ok(spec):
                continue
            with ctx.trace(what, 'far', big, pat):
                par.set_free(arr(free))
                got = np.array(par.get_vector()).tolist()
                ctx.true(all(math.isfinite(v) for v in got),
                         'not finite: %s' % got)
                ctx.true(spec.in_constraint(got, 1e-7),
                         'value %s is outside the constraints' % got)
                ctx.close(got, spec.fwd(free), 'value', 1e-7, 1e-9)
                far_back(ctx, par, spec, free)
    if isinstance(spec, Sub):
        with ctx.trace(what, 'basis'):
            b = spec.basis()
            for i in range(n):
                ctx.true(spec.in_constraint(b[i]), 'basis vector outside')
                for j in range(n):
                    dot = sum(x * y for x, y in zip(b[i], b[j]))
                    ctx.close(dot, 1. if i == j else 0., 'orthonormal basis')
            # projection of arbitrary vectors
            x = point(spec.dim, 2)
            par.set_vector(arr(x))
            par.set_free(par.get_free())
            once = np.array(par.get_vector()).tolist()
            ctx.true(spec.in_constraint(once), 'projection outside')
            diff = [u - v for u, v in zip(x, once)]
            for c in b:
                ctx.close(sum(u * v for u, v in zip(diff, c)), 0.,
                          'projection is orthogonal')


def far_back(ctx, par, spec, free):
    """The free value comes back as far as double precision determines it."""
    if spec.is_dict:
        for name, s, f in spec.split_free(free):
            far_back(ctx, par[name], s, f)
        return
    tols = free_tolerances(spec, free)
    if all(t is not None for t in tols):
        back = par.get_free()
        ctx.true(back.shape == (len(free),), 'shape of get_free()')
        for i, tol in enumerate(tols):
            ctx.true(abs(back[i] - free[i]) <= tol,
                     'free value %s came back as %s' % (free[i], back[i]))


def far_ok(spec):
    """Products of exp(300) overflow in matrices only."""
    if spec.is_dict:
        return all(far_ok(s) for _, s in spec.children)
    return not isinstance(spec, (PD, PDV))


SCALES = [-150., -40., -20., 0., 20., 150.]


def scaled_point(spec, ss):
    n = spec.size
    free = []
    for c in range(spec.free_size // ref.tri(n)):
        base = point(ref.tri(n), c)
        shift = ss[c % n:] + ss[:c % n]
        for i in range(n):
            for j in range(i + 1):
                x = base[i * (i + 1) // 2 + j]
                free.append(shift[i] + x if i == j else
                            math.exp(shift[i]) * x)
    return free


def scaled_unit(spec, scales):
    """Rows of very different magnitude.  Scaling the rows of the Cholesky
    factor scales the matrix on both sides, which costs no precision, so that
    every entry is determined to its own relative accuracy."""
    def run(ctx):
        import LinearResponseVariationalBayes as vb
        n = spec.size
        par = spec.build('p', vb)
        for ss in itertools.product(scales, repeat=n):
            with ctx.trace('scaled', repr(spec), ss):
                free = scaled_point(spec, ss)
                vec = spec.fwd(free)
                par.set_free(arr(free))
                ctx.rel(par.get_vector(), arr(vec), 'matrix')
                ctx.rel(par.get(), spec.value_array(vec), 'value')
                ctx.rel(par.get_free(), arr(free), 'free value back', 1e-9)
                par.set_vector(arr(vec))
                ctx.rel(par.get_free(), arr(free), 'free from vector', 1e-9)
                ctx.rel(par.free_to_vector(arr(free)), arr(vec),
                        'free_to_vector')
                ctx.state(ss)
    return run


def outside_unit(ctx):
    """Values outside the bounds have no free representation."""
    import LinearResponseVariationalBayes as vb
    for lb, ub in BOXES:
        bad = []
        if lb > -INF:
            bad += [lb - 1e-3, lb - 5.]
        if ub < INF:
            bad += [ub + 1e-3, ub + 5.]
        good = ref.default_box(1, lb, ub)[0]
        for b in bad:
            with ctx.trace('outside', lb, ub, b):
                p = vb.ScalarParam('p', lb=lb, ub=ub)
                p.set(b)
                ctx.raises(ValueError, p.get_free, 'scalar outside')
                p.set(good)
                ctx.close(p.get_free(), ref.Scalar(lb, ub).inv([good]),
                          'scalar back inside')
                for n in (1, 2, 3):
                    for k in range(n):
                        v = np.full(n, good)
                        v[k] = b
                        p = vb.VectorParam('p', n, lb=lb, ub=ub)
                        p.set(v)
                        ctx.raises(ValueError, p.get_free, 'vector outside')
                        p = vb.ArrayParam('p', (n, 1), lb=lb, ub=ub)
                        p.set(v.reshape((n, 1)))
                        ctx.raises(ValueError, p.get_free, 'array outside')
                        d = vb.ModelParamsDict('d')
                        d.push_param(vb.ScalarParam('s'))
                        d.push_param(p)
                        ctx.raises(ValueError, d.get_free, 'in a dictionary')
                ctx.state(lb, ub, b)
    for lb, ub in BAD_BOXES:
        for cls, kw in (('ScalarParam', {}), ('VectorParam', {'size': 2}),
                        ('ArrayParam', {'shape': (2, 1)})):
            with ctx.trace('empty bounds', cls, lb, ub):
                ctx.raises((ValueError, AssertionError),
                           lambda: getattr(vb, cls)('p', lb=lb, ub=ub, **kw),
                           'empty set of values')
    bad_mats = [np.array([[1., 0.5], [0.4, 1.]]),
                np.array([[1., 0.5, 0.], [0.5, 1., 0.], [0.1, 0., 1.]])]
    for m in bad_mats:
        with ctx.trace('not symmetric', m):
            p = vb.PosDefMatrixParam('p', m.shape[0])
            ctx.raises(ValueError, lambda: p.set(m), 'asymmetric matrix')
    with ctx.trace('negative diagonal bound'):
        for cls, kw in (('PosDefMatrixParam', {'size': 2}),
                        ('PosDefMatrixParamVector', {'matrix_size': 2}),
                        ('PosDefMatrixParamArray', {'matrix_size': 2})):
            ctx.raises(AssertionError,
                       lambda: getattr(vb, cls)('p', diag_lb=-1., **kw), cls)
    with ctx.trace('library defaults'):
        ctx.close(vb.ArrayParam('p').get(), np.zeros((1, 1)), 'array')
        ctx.close(vb.VectorParam('p').get(), np.zeros(1), 'vector')
        ctx.close(vb.ScalarParam('p').get(), 0., 'scalar')
        ctx.close(vb.PosDefMatrixParam('p').get(), np.eye(2), 'matrix')
        ctx.close(vb.PosDefMatrixParamVector('p').get(), np.eye(2)[None],
                  'matrices')
        ctx.close(vb.PosDefMatrixParamArray('p').get(), np.eye(2)[None],
                  'array of matrices')
        ctx.close(vb.SimplexParam('p').get(), [[0.5, 0.5]], 'simplex')


EDGES = [-1e3, -7., -2., -1., -0.3, -0.1, 0., 1e-3, 0.1, 0.2, 0.3, 0.7, 1.,
         1.1, 3., 10., 1e3]
SATURATED = list(range(30, 46)) + [36.5, 37.25, 60., 100., 300., 500., 700.,
                                   720., 800., 5000.]


def saturation_unit(ctx):
    """No free value, however extreme, leads out of two finite bounds."""
    import warnings
    import LinearResponseVariationalBayes as vb
    warnings.simplefilter('ignore')
    for lb, ub in itertools.combinations(EDGES, 2):
        par = vb.ScalarParam('p', lb=lb, ub=ub)
        vec = vb.VectorParam('v', len(SATURATED), lb=lb, ub=ub)
        array = vb.ArrayParam('a', (1, len(SATURATED)), lb=lb, ub=ub)
        for sign in (1., -1.):
            with ctx.trace('saturated', lb, ub, sign):
                free = [sign * float(x) for x in SATURATED]
                want = ref.Vector(len(free), lb, ub).fwd(
                    [max(-700., min(700., x)) for x in free])
                for p, name in ((vec, 'vector'), (array, 'array')):
                    p.set_free(np.array(free))
                    got = p.get_vector()
                    for x, g, w in zip(free, got, want):
                        ctx.true(lb <= g <= ub,
                                 '%s at %s: %.17g is outside' % (name, x, g))
                    ctx.close(got, want, name, 1e-12, 1e-12)
                    ctx.close(p.free_to_vector(np.array(free)), want, name,
                              1e-12, 1e-12)
                for x, w in zip(free, want):
                    par.set_free(np.array([x]))
                    g = float(par.get_vector()[0])
                    ctx.true(lb <= g <= ub,
                             'scalar at %s: %.17g is outside' % (x, g))
                    ctx.close(g, w, 'scalar', 1e-12, 1e-12)
                ctx.state(lb, ub, sign)
    for lb in EDGES:
        # one bound: as far as exp does not overflow
        with ctx.trace('one bound', lb):
            for kw, sign in ((dict(lb=lb), 1.), (dict(ub=lb), -1.)):
                spec = ref.Vector(1, **kw)
                for p in (vb.VectorParam('v', 1, **kw),
                          vb.ArrayParam('a', (1, 1), **kw),
                          vb.ScalarParam('s', **kw)):
                    for x in SATURATED:
                        for s in (1., -1.):
                            if s * sign * x <= 700.:
                                one_bound(ctx, p, spec, lb, sign, s * x)


def one_bound(ctx, p, spec, bound, sign, x):
    p.set_free(np.array([x]))
    g = float(np.ravel(p.get_vector())[0])
    ctx.true(math.isfinite(g) and sign * g >= sign * bound,
             'at %s: %.17g is outside' % (x, g))
    want = spec.fwd([max(-745., min(745., x))])[0]
    ctx.true(abs(g - want) <= 1e-12 * max(abs(want), 1e-300),
             'at %s: %.17g instead of %.17g' % (x, g, want))
    # the value determines the free value where it is not rounded to the bound
    if sign * x > 40. or (bound == 0. and sign * x > -700.):
        back = float(np.ravel(p.get_free())[0])
        ctx.true(abs(back - x) <= 1e-10 * (1. + abs(x)),
                 'free value %s came back as %s' % (x, back))


def helpers_unit(ctx):
    """The transforms below the parameters, called directly."""
    import LinearResponseVariationalBayes as vb
    pm = vb.Parameters
    for lb, ub in BOXES:
        spec = ref.Vector(1, lb, ub)
        for x in (-30., -3., -0.4, 0., 1e-9, 0.7, 2.5, 20.):
            if (ub < INF and x > 5.) or (lb > -INF and x < -5.):
                continue
            with ctx.trace('helpers', lb, ub, x):
                v = spec.fwd([x])[0]
                ctx.close(pm.constrain(x, lb, ub), v, 'constrain', 1e-12)
                ctx.close(pm.unconstrain(v, lb, ub), x, 'unconstrain', 1e-6)
                ctx.close(pm.unconstrain_scalar(v, lb, ub), x,
                          'unconstrain_scalar', 1e-6)
                for shape in ((1,), (3,), (2, 2), (2, 1, 3)):
                    n = int(np.prod(shape))
                    fs = [x + 0.1 * k for k in range(n)]
                    vs = np.array([spec.fwd([f])[0] for f in fs])
                    ctx.close(pm.constrain(np.array(fs).reshape(shape), lb,
                                           ub),
                              vs.reshape(shape), 'constrain', 1e-12)
                    ctx.close(pm.unconstrain(vs.reshape(shape), lb, ub),
                              np.array(fs).reshape(shape), 'unconstrain',
                              1e-6)
                    ctx.close(pm.unconstrain_array(vs.reshape(shape), lb, ub),
                              fs, 'unconstrain_array', 1e-6)
                ctx.state(lb, ub, x)
        for b in ([lb - 1e-3, lb - 5.] if lb > -INF else []) + \
                ([ub + 1e-3, ub + 5.] if ub < INF else []):
            with ctx.trace('helpers outside', lb, ub, b):
                ctx.raises(ValueError, lambda: pm.unconstrain_scalar(
                    b, lb, ub), 'scalar outside')
                good = spec.fwd([0.3])[0]
                for k in range(3):
                    a = np.full(3, good)
                    a[k] = b
                    ctx.raises(ValueError, lambda: pm.unconstrain_array(
                        a, lb, ub), 'one entry outside')
        with ctx.trace('helpers inside', lb, ub):
            v = float(pm.get_inbounds_value(lb, ub))
            ctx.true(lb < v < ub, 'default %s is outside' % v)
    for lb, ub in BAD_BOXES:
        with ctx.trace('helpers contradictory', lb, ub):
            ctx.raises(ValueError, lambda: pm.constrain(0.3, lb, ub),
                       'constrain')
            ctx.raises(ValueError, lambda: pm.unconstrain(0.3, lb, ub),
                       'unconstrain')


NEAR = 1e-9


def near_unit(specs):
    """Neighbouring free values: the value follows the smallest change."""
    def run(ctx):
        import LinearResponseVariationalBayes as vb
        for spec in specs:
            n = spec.free_size
            par = spec.build('p', vb)
            for which in (0, 1, 2):
                free = point(n, which)
                res = spec.fwd(jet.variables(free))
                jac = np.array([r.grad() if isinstance(r, jet.Jet)
                                else [0.] * n for r in res])
                for pat in ('all', 'first', 'last', 'alternate'):
                    step = [NEAR * (1. if pat == 'all' or
                                    (pat == 'first' and i == 0) or
                                    (pat == 'last' and i == n - 1) or
                                    (pat == 'alternate' and i % 2) else 0.)
                            for i in range(n)]
                    with ctx.trace('near', repr(spec), which, pat):
                        par.set_free(arr(free))
                        v0, f0 = par.get_vector(), par.get_free()
                        par.set_free(arr([f + s for f, s in zip(free, step)]))
                        v1, f1 = par.get_vector(), par.get_free()
                        ctx.close((v1 - v0) / NEAR,
                                  np.dot(jac, arr(step)) / NEAR,
                                  'change of the vector', 1e-4, 1e-4)
                        ctx.close((f1 - f0) / NEAR, arr(step) / NEAR,
                                  'change of the free value', 1e-4, 1e-4)
                        w0 = np.array(v0)
                        par.set_vector(v0)
                        g0 = par.get_free()
                        par.set_vector(v1)
                        ctx.close((par.get_vector() - w0) / NEAR,
                                  np.dot(jac, arr(step)) / NEAR,
                                  'change of the vector set', 1e-4, 1e-4)
                        ctx.close((par.get_free() - g0) / NEAR,
                                  arr(step) / NEAR,
                                  'change of the free value of the vector',
                                  1e-4, 1e-4)
                        ctx.state(which, pat)
    return run


def initial_unit(ctx):
    """val= at construction is the value, and has the same free value."""
    import LinearResponseVariationalBayes as vb
    cases = []
    for lb, ub in BOXES:
        cases += [(Scalar(lb, ub), 'ScalarParam', dict(lb=lb, ub=ub)),
                  (Vector(3, lb, ub), 'VectorParam',
                   dict(size=3, lb=lb, ub=ub)),
                  (Array((2, 2), lb, ub), 'ArrayParam',
                   dict(shape=(2, 2), lb=lb, ub=ub))]
    for d in DIAG:
        cases += [(PD(3, d), 'PosDefMatrixParam', dict(size=3, diag_lb=d)),
                  (PDV(2, 2, d), 'PosDefMatrixParamVector',
                   dict(length=2, matrix_size=2, diag_lb=d)),
                  (PDA((2, 2), 2, d), 'PosDefMatrixParamArray',
                   dict(array_shape=(2, 2), matrix_size=2, diag_lb=d))]
    cases += [(Simplex((2, 3)), 'SimplexParam', dict(shape=(2, 3))),
              (Sub(4), 'SubspaceVectorParam', dict(dim=4)),
              (ref.dirichlet((3, 2)), 'DirichletParamArray',
               dict(shape=(3, 2)))]
    for spec, cls, kw in cases:
        for which in (0, 1, 3):
            with ctx.trace('val=', repr(spec), which):
                free = point(spec.free_size, which)
                vec = spec.fwd(free)
                val = spec.for_set(vec) if not spec.is_dict else \
                    spec.children[0][1].for_set(vec)
                par = getattr(vb, cls)('p', val=val, **kw)
                ref.check_state(ctx, par, spec, vec, 'initial value')
                ctx.state(vec)


def units(tier):
    out = []
    for i, b in enumerate(blocks(specs(tier), 4)):
        def run(ctx, b=b):
            for spec in b:
                run_spec(ctx, spec, tier)
        out.append(('bijection-%d' % i, run))
    for i, b in enumerate(blocks(
            big.leaves(tier) + big.dists(tier) + big.trees(tier), 3)):
        def run(ctx, b=b):
            for spec in b:
                run_spec(ctx, spec, tier)
        out.append(('large-%d' % i, run))
    for n in (1, 2, 3) if tier == 'quick' else (1, 2, 3, 4):
        for spec in (PD(n), PDV(2, n), PDA((2, 1), n)):
            out.append(('scaled ' + repr(spec), scaled_unit(
                spec, SCALES if n < 3 or tier != 'quick' else SCALES[1:5])))
    for i, b in enumerate(blocks(specs(tier), 12)):
        out.append(('near-%d' % i, near_unit(b)))
    out.append(('helpers', helpers_unit))
    out.append(('saturation', saturation_unit))
    out.append(('outside', outside_unit))
    out.append(('initial', initial_unit))
    return out


def BOUNDS(tier):
    return {
        'parameters': '%d kinds, bounds, shapes and dimensions' %
                      len(specs(tier)),
        'points': 'structured points in every dimension; all assignments from '
                  '5 values up to 2 free values and 3 values for 3; far points '
                  'up to 300 (30 for matrices)',
        'scaled': 'all assignments of 6 (4) magnitudes from exp(-150) to '
                  'exp(150) to the rows of matrices up to %d x %d' % (
                      (3, 3) if tier == 'quick' else (4, 4)),
        'saturation': 'all pairs of %d bounds, free values of +-30 ... 5000'
                      % len(EDGES),
        'near': 'pairs of free values 1e-9 apart: 3 points, 4 directions, '
                'every parameter',
        'large': '%d parameters of up to %d entries, 9 x 9 matrices, '
                 'dictionaries of up to 20 children or 9 levels' % (
                     len(big.leaves(tier) + big.dists(tier) +
                         big.trees(tier)), 131 if tier == 'quick' else 400),
    }
