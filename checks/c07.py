"""C07: a preconditioned objective is x -> f(A x)."""
import itertools

import numpy as np
import scipy.sparse as sps

from mc import ref, jet, big
from mc import functions as fn
from mc import arguments
from mc.core import blocks, inputs_kept, sequences, as_array, de_bruijn
from mc.ref import (Scalar, Vector, Array, PD, PDV, PDA, Simplex, Sub, Dict,
                    INF, point, arr)
from checks.c01 import make

PROPERTY = 'C07'

SPECS = [Scalar(0.2), Vector(2, -1., 2.), Array((1, 2), 0.), PD(2, 0.2),
         PDV(2, 1), PDA((1, 2), 1), Simplex((1, 3)), Sub(3), ref.gamma(0.1),
         ref.uvn(), make(['.', ['.', '.']], 'XSU'), ref.mvn(2)]


def matrices(n):
    """Named dense matrices."""
    eye = np.eye(n)
    full = np.array([point(n, k) for k in range(n)]) * 0.4 + eye
    low = np.tril(full)
    perm = np.roll(eye, 1, axis=0)
    diag = np.diag([0.5 + 0.75 * i for i in range(n)])
    neg = -1.3 * eye
    one = eye.copy()
    one[0, n - 1] += 0.8
    sym = 0.5 * (full + full.T) + eye
    return [('identity', eye), ('diagonal', diag), ('permutation', perm),
            ('triangular', low), ('asymmetric', full), ('symmetric', sym),
            ('negative', neg), ('one off', one), ('scaled permutation',
                                                  perm.dot(diag))]


FORMS = [('dense', np.array), ('csr', sps.csr_matrix), ('csc', sps.csc_matrix),
         ('coo', sps.coo_matrix), ('dia', sps.dia_matrix),
         ('bsr', sps.bsr_matrix)]


def reference(f, a, x, args=(), kw=None):
    kw = kw or {}
    y = a.dot(np.array(x))
    v, g, h = fn.derivatives(f.of_free, y.tolist(), *args, **kw)
    return {'value': v, 'grad': a.T.dot(g), 'hess': a.T.dot(h).dot(a),
            'y': y, 'plain': None}


def check_cond(ctx, obj, f, a, m, x, args=(), kw=None, hvp_dirs=None):
    kw = kw or {}
    want = reference(f, a, x, args, kw)
    z = arr(x)
    n = len(x)
    with inputs_kept(ctx, 'conditioned evaluation', z, m):
        ctx.close(obj.fun_free_cond(z, *args, **kw), want['value'], 'value',
                  shape=False)
        ctx.close(obj.par.get_free(), want['y'], 'parameter', 1e-6, 1e-7)
        ctx.close(obj.fun_free_grad_cond(z, *args, **kw), want['grad'],
                  'gradient', 1e-7, 1e-8)
        ctx.close(obj.fun_free_hessian_cond(z, *args, **kw), want['hess'],
                  'Hessian', 1e-7, 1e-8)
        for d in (hvp_dirs or [[1. if i == 0 else 0. for i in range(n)],
                               point(n, 2)]):
            ctx.close(obj.fun_free_hvp_cond(z, *(tuple(args) + (arr(d),)),
                                            **kw),
                      want['hess'].dot(np.array(d)),
                      'Hessian-vector product', 1e-7, 1e-8)
        ctx.close(obj.uncondition_x(z), want['y'], 'uncondition')
        ctx.close(obj.get_conditioned_x(z), want['y'], 'conditioned point')
    ctx.close(obj.par.get_free(), want['y'], 'parameter', 1e-6, 1e-7)
    ctx.state(want['hess'])


def static_unit(spec, tier):
    def run(ctx):
        import LinearResponseVariationalBayes as vb
        from LinearResponseVariationalBayes import SparseObjectives as so
        par = spec.build('p', vb)
        f = fn.Fun(spec)
        obj = so.Objective(par, f.bind(par))
        n = spec.free_size
        for name, a in matrices(n):
            for form, mk in FORMS:
                if tier == 'quick' and form in ('dia', 'bsr') and \
                        name not in ('asymmetric', 'diagonal'):
                    continue
                for which in (0, 1):
                    x = point(n, which) if which == 0 else \
                        [0.5 * v for v in point(n, 3)]
                    with ctx.trace(repr(spec), name, form, x):
                        m = mk(a)
                        obj.preconditioner = m
                        check_cond(ctx, obj, f, a, m, x)
        # not set
        with ctx.trace(repr(spec), 'no preconditioner'):
            for o in (so.Objective(par, f.bind(par)), obj):
                o.preconditioner = None
                x = arr(point(n, 0))
                for name in ('fun_free_cond', 'fun_free_grad_cond',
                             'fun_free_hessian_cond'):
                    ctx.raises(AssertionError,
                               lambda: getattr(o, name)(x), name)
                ctx.raises(AssertionError,
                           lambda: o.fun_free_hvp_cond(x, x), 'hvp')
    return run


def magnitudes_unit(spec, tier):
    """Scales of the preconditioner, the function and the direction."""
    def run(ctx):
        import LinearResponseVariationalBayes as vb
        from LinearResponseVariationalBayes import SparseObjectives as so
        par = spec.build('p', vb)
        f = fn.ScaledFun(spec)
        obj = so.Objective(par, f.bind(par))
        n = spec.free_size
        x0 = point(n, 0)
        mats = dict(matrices(n))
        f.scale = 1.
        for name in ('asymmetric', 'scaled permutation'):
            a = mats[name]
            want = reference(f, a, x0)
            for form, mk in FORMS[:3]:
                for t in (1e-100, 1e-12, 1e-6, 1., 1e6, 1e12, 1e100):
                    for fs in (1e-100, 1e-14, 1., 1e14):
                        if (t == 1.) + (fs == 1.) == 0 and form != 'dense':
                            continue
                        if not 1e-270 < t * t * fs < 1e270:
                            continue
                        with ctx.trace(repr(spec), name, form, t, fs):
                            f.scale = fs
                            obj.preconditioner = mk(a * t)
                            z = arr(x0) / t
                            ctx.close(obj.fun_free_cond(z) / fs,
                                      want['value'], 'value', shape=False)
                            ctx.close(as_array(obj.fun_free_grad_cond(z)) / t /
                                      fs, want['grad'], 'gradient', 1e-7, 1e-8)
                            ctx.close(as_array(obj.fun_free_hessian_cond(z)) /
                                      t / t / fs, want['hess'], 'Hessian',
                                      1e-7, 1e-8)
                            ctx.close(as_array(obj.uncondition_x(z)),
                                      want['y'], 'uncondition')
                            for ds in (1e-60, 1e-13, 1e-9, 1e-5, 1., 1e7,
                                       1e15):
                                if not 1e-270 < ds * fs * t * t < 1e270:
                                    continue
                                for d in (point(n, 2), [1.] + [0.] * (n - 1)):
                                    got = obj.fun_free_hvp_cond(z, arr(d) * ds)
                                    ctx.close(
                                        as_array(got) / fs / t / t / ds,
                                        want['hess'].dot(np.array(d)),
                                        'Hessian-vector product', 1e-7, 1e-8)
                            f.scale = 1.
                            ctx.state(name, form, t, fs)
    return run


def args_unit(ctx):
    import LinearResponseVariationalBayes as vb
    from LinearResponseVariationalBayes import SparseObjectives as so
    from checks.c06 import ARGS
    for spec in (Vector(2, -1.), Simplex((1, 3)), ref.gamma()):
        par = spec.build('p', vb)
        f = fn.ArgFun(spec)
        obj = so.Objective(par, f.bind(par))
        n = spec.free_size
        a = dict(matrices(n))['asymmetric']
        for form, mk in FORMS[:3]:
            for args, kw in ARGS:
                with ctx.trace(repr(spec), form, list(args), kw):
                    m = mk(a)
                    obj.preconditioner = m
                    check_cond(ctx, obj, f, a, m, point(n, 1), args, kw)
                with ctx.trace(repr(spec), form, list(args), kw, 'logged'):
                    obj.logger.initialize()
                    obj.logger.callback = lambda log: None
                    x = point(n, 0)
                    got = obj.fun_free_cond(arr(x), *args, verbose=True, **kw)
                    ctx.close(got, reference(f, a, x, args, kw)['value'],
                              'logged value', shape=False)
                    ctx.true(len(obj.logger.val_array) == 1, 'not logged')
                    ctx.close(obj.logger.x_array[0], a.dot(x),
                              'the logged point is the original one')


def history_unit(spec, first, depth):
    """All sequences of changing the preconditioner and evaluating."""
    def run(ctx):
        import LinearResponseVariationalBayes as vb
        from LinearResponseVariationalBayes import SparseObjectives as so
        f = fn.Fun(spec)
        n = spec.free_size
        mats = dict(matrices(n))
        setters = [('set asymmetric', mats['asymmetric'], np.array),
                   ('set sparse', mats['scaled permutation'], sps.csr_matrix),
                   ('set diagonal', mats['diagonal'], sps.csc_matrix),
                   ('unset', None, None)]
        x0, x1 = point(n, 0), point(n, 1)
        evals = [('value', x0), ('grad', x0), ('grad', x1), ('hess', x0),
                 ('hess', x1), ('hvp', x1), ('uncondition', x0),
                 ('plain hess', x0), ('plain value', x1)]
        ops = [('S',) + s for s in setters] + [('E',) + e for e in evals]
        memo = {}

        def want(key, a, x):
            k = (key, tuple(x))
            if k not in memo:
                memo[k] = reference(f, a, x)
            return memo[k]
        for rest in itertools.chain([()], sequences(ops, depth - 1)):
            seq = (ops[first],) + rest
            if sum(op[0] == 'E' for op in seq) == 0:
                continue
            with ctx.trace(repr(spec), [list(op[1:2]) + [
                    'x0' if op[2] is x0 else 'x1'] if op[0] == 'E'
                    else op[1] for op in seq]):
                par = spec.build('p', vb)
                obj = so.Objective(par, f.bind(par))
                key, a = None, None
                for op in seq:
                    if op[0] == 'S':
                        key, a = op[1], op[2]
                        obj.preconditioner = None if a is None else op[3](a)
                        if a is None:
                            key = None
                        continue
                    what, x = op[1:]
                    z = arr(x)
                    if what.startswith('plain'):
                        w = want('plain', np.eye(n), x)
                        got = obj.fun_free_hessian(z) if 'hess' in what else \
                            obj.fun_free(z)
                        ctx.close(got, w['hess' if 'hess' in what else
                                         'value'], what, 1e-7, 1e-8, False)
                    elif a is None:
                        if what == 'uncondition':
                            continue
                        call = {'value': lambda: obj.fun_free_cond(z),
                                'grad': lambda: obj.fun_free_grad_cond(z),
                                'hess': lambda: obj.fun_free_hessian_cond(z),
                                'hvp': lambda: obj.fun_free_hvp_cond(z, z)}
                        ctx.raises(AssertionError, call[what], what)
                    else:
                        w = want(key, a, x)
                        got, exp_ = {
                            'value': lambda: (obj.fun_free_cond(z),
                                              w['value']),
                            'grad': lambda: (obj.fun_free_grad_cond(z),
                                             w['grad']),
                            'hess': lambda: (obj.fun_free_hessian_cond(z),
                                             w['hess']),
                            'hvp': lambda: (obj.fun_free_hvp_cond(z, z),
                                            w['hess'].dot(np.array(x))),
                            'uncondition': lambda: (obj.uncondition_x(z),
                                                    w['y'])}[what]()
                        ctx.close(got, exp_, what, 1e-7, 1e-8, False)
                        ctx.gstate(repr(spec), key, what, x)
    return run


def small(f):
    """The function with weights that suit many entries."""
    w = 0.6 / len(f.a) ** 0.5
    f.a, f.b, f.c = ([w * x for x in q] for q in (f.a, f.b, f.c))
    return f


def large_unit(spec):
    def run(ctx):
        import LinearResponseVariationalBayes as vb
        from LinearResponseVariationalBayes import SparseObjectives as so
        par = spec.build('p', vb)
        f = small(fn.Fun(spec))
        obj = so.Objective(par, f.bind(par))
        n = spec.free_size
        base = np.array([point(n, k) for k in range(n)]) * (1. / n)
        cases = [('asymmetric', base + np.eye(n)),
                 ('scaled permutation', np.roll(np.diag(
                     [0.5 + 0.1 * i for i in range(n)]), 1, axis=0)),
                 ('triangular', np.tril(base) + np.eye(n))]
        for name, a in cases:
            for form, mk in FORMS[:3]:
                with ctx.trace('large', repr(spec)[:80], name, form):
                    m = mk(a)
                    obj.preconditioner = m
                    check_cond(ctx, obj, f, a, m,
                               [0.5 * v for v in point(n, 0)],
                               hvp_dirs=[point(n, 2), [0.] * (n - 1) + [1.]])
    return run


def forms_unit(spec):
    """Every memory layout of preconditioner, point and direction."""
    def run(ctx):
        import LinearResponseVariationalBayes as vb
        from LinearResponseVariationalBayes import SparseObjectives as so
        par = spec.build('p', vb)
        f = fn.Fun(spec)
        obj = so.Objective(par, f.bind(par))
        n = spec.free_size
        a = dict(matrices(n))['asymmetric']
        x, d = [0.5 * v for v in point(n, 3)], point(n, 2)
        want = reference(f, a, x)
        for an, m in big.array_forms(a):
            for xn, z in big.array_forms(x):
                for dn, y in big.array_forms(d):
                    if xn != 'plain' != dn:
                        continue
                    with ctx.trace(repr(spec), 'forms', an, xn, dn):
                        with inputs_kept(ctx, 'evaluation', m, z, y):
                            obj.preconditioner = m
                            ctx.close(obj.fun_free_cond(z), want['value'],
                                      'value', shape=False)
                            ctx.close(obj.fun_free_grad_cond(z),
                                      want['grad'], 'gradient')
                            ctx.close(obj.fun_free_hessian_cond(z),
                                      want['hess'], 'Hessian')
                            ctx.close(obj.fun_free_hvp_cond(z, y),
                                      want['hess'].dot(np.array(d)), 'hvp')
                            ctx.close(obj.uncondition_x(z), want['y'],
                                      'uncondition')
                        ctx.state(an, xn, dn)
    return run


def life_unit(spec, n, buffers=ref.Fresh):
    """One objective lives through every sequence of n operations."""
    def run(ctx):
        import LinearResponseVariationalBayes as vb
        from LinearResponseVariationalBayes import SparseObjectives as so
        par = spec.build('p', vb)
        f = fn.Fun(spec)
        obj = so.Objective(par, f.bind(par))
        k = spec.free_size
        mats = dict(matrices(k))
        current = [('asymmetric', np.array), ('scaled permutation',
                                              sps.csr_matrix),
                   ('diagonal', sps.csc_matrix), ('symmetric', np.array)]
        pts = [point(k, 0), point(k, 1)]
        memo = {(m, w): reference(f, mats[m], pts[w])
                for m, _ in current for w in (0, 1)}
        plain = [fn.derivatives(f.of_free, p) for p in pts]
        ops = [('set', i) for i in range(len(current))]
        ops += [(e, w) for e in ('value', 'grad', 'hess', 'hvp', 'unc')
                for w in (0, 1)] + [('plain', 0), ('plain hvp', 1)]
        name = None
        buf = buffers()
        with ctx.trace(repr(spec), 'life', n, buffers.__name__):
            for op, w in [('set', 0)] + de_bruijn(ops, n):
                ctx.step(op, w)
                if op == 'set':
                    name, mk = current[w]
                    obj.preconditioner = mk(mats[name])
                    continue
                x = buf(pts[w])
                want = memo[name, w]
                d = point(k, 2 + w)
                dd = buf(d, 'd')
                if op == 'plain':
                    ctx.close(obj.fun_free_grad(x), plain[w][1], op)
                elif op == 'plain hvp':
                    ctx.close(obj.fun_free_hvp(x, dd),
                              np.array(plain[w][2]).dot(d), op)
                elif op == 'value':
                    ctx.close(obj.fun_free_cond(x), want['value'], op,
                              shape=False)
                elif op == 'grad':
                    ctx.close(obj.fun_free_grad_cond(x), want['grad'], op)
                elif op == 'hess':
                    ctx.close(obj.fun_free_hessian_cond(x), want['hess'], op)
                elif op == 'hvp':
                    ctx.close(obj.fun_free_hvp_cond(x, dd),
                              want['hess'].dot(np.array(d)), op)
                else:
                    ctx.close(obj.uncondition_x(x), want['y'], op)
                ctx.gstate(name, op, w)
    return run


def changed_in_place_unit(ctx):
    """The preconditioner is the matrix as it is now, if the caller changes
    the very matrix that was set and sets it again."""
    import LinearResponseVariationalBayes as vb
    from LinearResponseVariationalBayes import SparseObjectives as so
    for spec in (Vector(2, -1.), Simplex((1, 3)), PD(2)):
        n = spec.free_size
        f = fn.Fun(spec)
        for (n1, a1), (n2, a2) in itertools.permutations(matrices(n), 2):
            with ctx.trace(repr(spec), 'in place', n1, n2):
                par = spec.build('p', vb)
                obj = so.Objective(par, f.bind(par))
                m = np.array(a1)
                obj.preconditioner = m
                x = point(n, 0)
                check_cond(ctx, obj, f, a1, m, x)
                m[:] = a2
                obj.preconditioner = m
                check_cond(ctx, obj, f, a2, m, x)


def passed_unit(ctx):
    """Arguments of every type reach the function as the same objects."""
    import LinearResponseVariationalBayes as vb
    from LinearResponseVariationalBayes import SparseObjectives as so
    spec = Vector(2, -1., 2.)
    par = spec.build('p', vb)
    f = fn.Fun(spec)
    rec = arguments.Recorder(f.bind(par))
    obj = so.Objective(par, rec)
    obj.logger.callback = lambda log: None
    a = np.array([[1.5, -0.4], [0.3, 0.8]])
    obj.preconditioner = a
    y = point(2, 1)
    v, g, h = fn.derivatives(f.of_free, a.dot(y).tolist())
    g, h = a.T.dot(g), a.T.dot(h).dot(a)
    d = arr(point(2, 2))
    for args, kw in arguments.lists():
        with ctx.trace([arguments.label(q) for q in args],
                       {k: arguments.label(q) for k, q in kw.items()}):
            for name, w in (('fun_free_cond', v), ('fun_free_grad_cond', g),
                            ('fun_free_hessian_cond', h)):
                ctx.step(name)
                ctx.close(getattr(obj, name)(arr(y), *args, **kw), w, name,
                          1e-7, 1e-8, shape=w is not v)
                rec.check(ctx, name, args, kw)
            ctx.close(obj.fun_free_hvp_cond(arr(y), *(args + (d,)), **kw),
                      h.dot(d), 'product', 1e-7, 1e-8)
            rec.check(ctx, 'product', args, kw)
            ctx.close(obj.fun_free_cond(arr(y), *args, verbose=True, **kw), v,
                      'logged', 1e-7, 1e-8, shape=False)
            rec.check(ctx, 'logged', args, kw)
            ctx.state([arguments.label(q) for q in args], sorted(kw))


def units(tier):
    out = [('in place', changed_in_place_unit)]
    for spec in big.small_medium():
        out.append(('large %s' % repr(spec)[:40], large_unit(spec)))
    for spec in SPECS[1:8] + SPECS[-1:]:
        out.append(('forms %r' % spec, forms_unit(spec)))
    for spec in (Vector(2, -1.), Simplex((1, 3)), ref.gamma(0.1)):
        for how, buffers in ref.BUFFERS:
            out.append(('life%s %r' % (how, spec), life_unit(
                spec, 2 if tier == 'quick' or how else 3, buffers)))
    for spec in SPECS:
        out.append(('static %r' % spec, static_unit(spec, tier)))
        out.append(('magnitudes %r' % spec, magnitudes_unit(spec, tier)))
    out.append(('arguments', args_unit))
    out.append(('passed', passed_unit))
    pool = [Vector(2, -1.)] if tier == 'quick' else \
        [Vector(2, -1.), Simplex((1, 3)), PD(2)]
    for spec in pool:
        for first in range(13):
            out.append(('history %r %d' % (spec, first),
                        history_unit(spec, first, 3 if tier == 'quick'
                                     else 4)))
    return out


def BOUNDS(tier):
    return {
        'passed arguments': '26 values of every type, in each position and as '
            'keywords, 25 pairs and long lists: the same objects arrive',
        'preconditioners': '9 matrices in up to 6 dense and sparse formats',
        'parameters': [repr(s) for s in SPECS],
        'points': '2 each',
        'magnitudes': 'preconditioners scaled by 1e-100 ... 1e100, functions '
                      'by 1e-100 ... 1e14, directions by 1e-60 ... 1e15',
        'large': '10 parameters of 8 to 25 entries',
        'forms': 'strided, reversed, Fortran, partial and read-only '
                 'preconditioners, points, directions',
        'life': 'one objective through every %s of 16 operations; a matrix '
                'changed and set again, all pairs' % (
                    'pair' if tier == 'quick' else 'triple'),
        'histories': 'all sequences of at most %d of 13 operations (4 changes '
                     'of the preconditioner, 9 evaluations)' % (
                         3 if tier == 'quick' else 4),
        'in place': 'all pairs of operations once more with the same arrays, whose '
                    'entries the caller changes between the calls',
    }
