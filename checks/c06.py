"""C06: objective values and derivatives in both representations."""
import itertools

import numpy as np

from mc import ref, jet, big
from mc import functions as fn
from mc import arguments
from mc.core import blocks, de_bruijn, inputs_kept, as_array
from mc.ref import (Scalar, Vector, Array, PD, PDV, PDA, Simplex, Sub, Dict,
                    INF, point, arr)
from checks.c01 import make, SHAPES, SHAPES4, leaves, KINDS
from checks.c02 import BOXES

PROPERTY = 'C06'


def specs(tier):
    out = []
    for lb, ub in BOXES[::2]:
        out += [Scalar(lb, ub), Vector(2, lb, ub), Array((2, 2), lb, ub)]
    out += [Vector(1), Vector(5, 0.), Array((1, 3), -1., 1.), PD(1), PD(2, 0.5),
            PD(3, 0.2), PDV(1, 2), PDV(3, 1, 0.4), PDV(2, 2), PDA((2,), 1),
            PDA((2, 2), 1), PDA((1, 2), 2, 0.3), Simplex((1, 2)),
            Simplex((2, 3)), Simplex((3, 2)), Simplex((1, 4)), Sub(2), Sub(4),
            Sub(4, [[1., 1., 1., 1.], [1., -1., 2., 0.5]])]
    kinds = [k for k, _ in KINDS]
    out += [make(['.'], [k]) for k in kinds]
    for shape in SHAPES[1:]:
        pool = 'SX' if tier == 'quick' else 'SXPU'
        for kk in itertools.product(pool, repeat=leaves(shape)):
            out.append(make(shape, kk))
    if tier == 'thorough':
        for kk in itertools.product(kinds, repeat=2):
            out.append(make(['.', '.'], kk))
    for shape in SHAPES4:
        out.append(make(shape, 'XSPU'))
    return out


def check_point(ctx, obj, f, which, at, args, kwargs, rep, dirs):
    """Everything at one point in one representation."""
    call = {'free': ('fun_free', f.of_free), 'vector': ('fun_vector', f.of_vec)}
    name, reff = call[rep]
    v, g, h = fn.derivatives(reff, at, *args, **kwargs)
    x = arr(at)
    tol = (1e-7, 1e-8)
    with inputs_kept(ctx, 'evaluation', x, list(args), kwargs):
        ctx.close(getattr(obj, name)(x, *args, **kwargs), v, name + ' value',
                  *tol, shape=False)
        ctx.close(getattr(obj, name + '_grad')(x, *args, **kwargs), g,
                  name + '_grad', *tol)
        ctx.close(getattr(obj, name + '_hessian')(x, *args, **kwargs), h,
                  name + '_hessian', *tol)
        ctx.close(getattr(obj, name + '_jacobian')(x, *args, **kwargs), g,
                  name + '_jacobian', *tol)
        for d in dirs:
            ctx.close(getattr(obj, name + '_hvp')(x, *(tuple(args) + (arr(d),)),
                                                  **kwargs),
                      np.array(h).dot(np.array(d)), name + '_hvp', *tol)
    ctx.state(rep, h)


def directions(n, tier):
    dirs = [[1. if i == k else 0. for i in range(n)] for k in range(n)]
    if tier == 'quick' and n > 3:
        dirs = dirs[:2] + dirs[-1:]
    return dirs + [point(n, 2)]


def spec_unit(batch, tier):
    def run(ctx):
        import LinearResponseVariationalBayes as vb
        from LinearResponseVariationalBayes import SparseObjectives as so
        for spec in batch:
            for through in ('get', 'vector'):
                par = spec.build('p', vb)
                f = fn.Fun(spec, through=through)
                obj = so.Objective(par, f.bind(par))
                for which in (0, 1, 3)[:3 if tier == 'thorough' else 2]:
                    free = point(spec.free_size, which)
                    if which == 1 and through == 'vector':
                        free = [0.] * spec.free_size
                    vec = spec.fwd(free)
                    for rep, at in (('free', free), ('vector', vec)):
                        with ctx.trace(repr(spec), through, rep, at):
                            check_point(ctx, obj, f, which, at, (), {}, rep,
                                        directions(len(at), tier))
    return run


ARGS = [((1.3,), {}), ((0.6, 1.4), {}), ((0.6, 1.4, 0.9), {}),
        ((1.3,), {'q': -0.8}), ((1.3,), {'r': 1.1}),
        ((-0.4,), {'q': 2., 'r': 0.2}), ((2.,), {'r': -1., 'q': 0.1}),
        ((), {'p': 0.7}), ((), {'p': 0.7, 'r': 2.5, 'q': -0.3}),
        ((0., 0.), {'r': 0.})]


def args_unit(specs_, tier):
    def run(ctx):
        import LinearResponseVariationalBayes as vb
        from LinearResponseVariationalBayes import SparseObjectives as so
        for spec in specs_:
            par = spec.build('p', vb)
            f = fn.ArgFun(spec)
            obj = so.Objective(par, f.bind(par))
            # all ordered pairs of argument lists on one object
            for a in ARGS:
                free = point(spec.free_size, 1)
                vec = spec.fwd(point(spec.free_size, 0))
                for rep, at in (('free', free), ('vector', vec)):
                    with ctx.trace(repr(spec), rep, list(a[0]), a[1]):
                        check_point(ctx, obj, f, 0, at, a[0], a[1], rep,
                                    [point(len(at), 2)])
                with ctx.trace(repr(spec), 'logged', list(a[0]), a[1]):
                    obj.logger.initialize()
                    obj.logger.callback = lambda log: None
                    got = obj.fun_free(arr(free), *a[0], verbose=True, **a[1])
                    ctx.close(got, f.of_free(free, *a[0], **a[1]),
                              'logged value', shape=False)
                    ctx.true(len(obj.logger.val_array) == 1, 'not logged')
    return run


def many_unit(specs_, tier):
    """Array valued functions: value and Jacobian."""
    def run(ctx):
        import LinearResponseVariationalBayes as vb
        from LinearResponseVariationalBayes import SparseObjectives as so
        for spec in specs_:
            for through in ('get', 'vector'):
                par = spec.build('p', vb)
                f = fn.ManyFun(spec, through=through)
                obj = so.Objective(par, f.bind(par))
                for which in (0, 1, 3):
                    for args, kw in (((), {}), ((0.4,), {}),
                                     ((), {'shift': -1.2})):
                        free = point(spec.free_size, which)
                        vec = spec.fwd(free)
                        with ctx.trace(repr(spec), through, which, list(args),
                                       kw):
                            v, j = fn.jacobian(f.of_free, free, *args, **kw)
                            ctx.close(obj.fun_free(arr(free), *args, **kw), v,
                                      'values')
                            ctx.close(obj.fun_free_jacobian(
                                arr(free), *args, **kw), j, 'free Jacobian')
                            v, j = fn.jacobian(f.of_vec, vec, *args, **kw)
                            ctx.close(obj.fun_vector(arr(vec), *args, **kw), v,
                                      'values')
                            ctx.close(obj.fun_vector_jacobian(
                                arr(vec), *args, **kw), j, 'vector Jacobian')
                            ctx.state(j)
    return run


OUT_SHAPES = [(1,), (2,), (4,), (1, 1), (2, 2), (1, 3), (3, 1), (2, 3),
              (1, 2, 2), (2, 1, 2)]


def shaped_unit(specs_, tier):
    """Functions with array values of every rank: the Jacobian has the shape
    of the value followed by the argument."""
    def run(ctx):
        import LinearResponseVariationalBayes as vb
        from LinearResponseVariationalBayes import SparseObjectives as so
        for spec in specs_:
            par = spec.build('p', vb)
            f = fn.ManyFun(spec)
            for shape in OUT_SHAPES:
                f.shape = shape
                obj = so.Objective(par, f.bind(par))
                for args, kw in (((), {}), ((0.4,), {})):
                    free = point(spec.free_size, 1)
                    vec = spec.fwd(point(spec.free_size, 0))
                    with ctx.trace(repr(spec), shape, list(args), kw):
                        for reff, at, name in (
                                (f.of_free, free, 'fun_free'),
                                (f.of_vec, vec, 'fun_vector')):
                            v, j = fn.jacobian(reff, at, *args, **kw)
                            ctx.close(getattr(obj, name)(arr(at), *args, **kw),
                                      np.reshape(v, shape), 'values')
                            ctx.close(getattr(obj, name + '_jacobian')(
                                arr(at), *args, **kw),
                                np.reshape(j, shape + (len(at),)),
                                name + '_jacobian')
                            ctx.state(shape, j)
    return run


SCALES = [1e-200, 1e-60, 1e-16, 1e-8, 1., 1e8, 1e16, 1e60]
DIR_SCALES = [1e-150, 1e-16, 1e-9, 1e-5, 1e5, 1e9, 1e16, 1e100]


def magnitudes_unit(spec, tier):
    """Nothing depends on the scale of the function or of the direction."""
    def run(ctx):
        import LinearResponseVariationalBayes as vb
        from LinearResponseVariationalBayes import SparseObjectives as so
        par = spec.build('p', vb)
        f = fn.ScaledFun(spec)
        obj = so.Objective(par, f.bind(par))
        n = spec.free_size
        for scale in SCALES:
            for rep, reff, at in (
                    ('fun_free', f.of_free, point(n, 1)),
                    ('fun_vector', f.of_vec, spec.fwd(point(n, 0)))):
                f.scale = 1.
                v, g, h = [np.array(q) for q in fn.derivatives(reff, at)]
                f.scale = scale
                with ctx.trace(repr(spec), 'scale', scale, rep):
                    x = arr(at)
                    for name, want in (('', v), ('_grad', g), ('_hessian', h),
                                       ('_jacobian', g)):
                        got = getattr(obj, rep + name)(x)
                        ctx.close(as_array(got) / scale, want,
                                  'scaled ' + rep + name, 1e-7, 1e-8,
                                  shape=name != '')
                    for d in (point(len(at), 2), [1.] + [0.] *
                              (len(at) - 1), point(len(at), 0)):
                        for t in DIR_SCALES:
                            if not 1e-290 < scale * t < 1e290:
                                continue
                            got = getattr(obj, rep + '_hvp')(x, arr(d) * t)
                            ctx.close(as_array(got) / (scale * t), h.dot(d),
                                      'scaled %s_hvp' % rep, 1e-7, 1e-8)
                    # directions with entries of very different magnitude
                    d = np.array([10. ** (-6 * (k % 3)) for k in
                                  range(len(at))])
                    got = getattr(obj, rep + '_hvp')(x, d)
                    ctx.close(as_array(got) / scale, h.dot(d), 'mixed hvp',
                              1e-7, 1e-8)
                    ctx.state(rep, scale)
        # a flat function: each order of derivative is smaller than the last
        f = fn.FlatFun(spec)
        obj = so.Objective(par, f.bind(par))
        for scale in (1e-12, 1e-8, 1e-4, 1e-2):
            f.scale = scale
            for rep, reff, at in (
                    ('fun_free', f.of_free, point(n, 1)),
                    ('fun_vector', f.of_vec, spec.fwd(point(n, 0)))):
                with ctx.trace(repr(spec), 'flat', scale, rep):
                    x = arr(at)
                    v, g, h = [np.array(q) for q in fn.derivatives(reff, at)]
                    for name, want in (('', v), ('_grad', g), ('_hessian', h)):
                        size = max(np.max(np.abs(want)), 1e-300)
                        ctx.close(as_array(getattr(obj, rep + name)(x)) / size,
                                  want / size, 'flat ' + rep + name, 1e-6,
                                  1e-7, shape=name != '')
                    d = point(len(at), 2)
                    size = np.max(np.abs(h.dot(d)))
                    ctx.close(as_array(getattr(obj, rep + '_hvp')(
                        x, arr(d))) / size, h.dot(d) / size, 'flat hvp',
                        1e-6, 1e-6)
    return run


def independence_unit(ctx):
    """Two objectives of the same parameter, and two parameters with the same
    function shape, do not get in each other's way."""
    import LinearResponseVariationalBayes as vb
    from LinearResponseVariationalBayes import SparseObjectives as so
    for spec in (Scalar(0.3), PD(2), Simplex((1, 3)), ref.gamma(),
                 make(['.', ['.']], 'XS')):
        par, par2 = spec.build('p', vb), spec.build('p', vb)
        fs = [fn.Fun(spec, 0), fn.Fun(spec, 1), fn.Fun(spec, 2)]
        objs = [so.Objective(par, fs[0].bind(par)),
                so.Objective(par, fs[1].bind(par)),
                so.Objective(par2, fs[2].bind(par2))]
        calls = ['fun_free', 'fun_free_grad', 'fun_free_hessian']
        for seq in itertools.product(range(3), range(3), repeat=2):
            with ctx.trace(repr(spec), seq):
                for k, c in (seq[:2], seq[2:]):
                    x = point(spec.free_size, k)
                    want = fn.derivatives(fs[k].of_free, x)[c]
                    ctx.close(getattr(objs[k], calls[c])(arr(x)), want,
                              'objective %d %s' % (k, calls[c]), shape=False)
                ctx.state(repr(spec), seq)


def large_unit(batch, tier):
    """Many entries, rows, children, levels: one point each."""
    def run(ctx):
        import LinearResponseVariationalBayes as vb
        from LinearResponseVariationalBayes import SparseObjectives as so
        for spec in batch:
            for through in ('get', 'vector')[:1 if tier == 'quick' else 2]:
                par = spec.build('p', vb)
                f = fn.Fun(spec, through=through)
                w = 0.6 / len(f.a) ** 0.5
                f.a, f.b, f.c = ([w * x for x in q] for q in (f.a, f.b, f.c))
                obj = so.Objective(par, f.bind(par))
                free = point(spec.free_size, 0)
                vec = spec.fwd(point(spec.free_size, 1))
                for rep, at in (('free', free), ('vector', vec)):
                    n = len(at)
                    with ctx.trace('large', repr(spec)[:80], through, rep):
                        check_point(ctx, obj, f, 0, at, (), {}, rep,
                                    [point(n, 2)] + [
                                        [1. if i == k else 0. for i in
                                         range(n)] for k in (0, n - 1)])
    return run


def forms_unit(spec):
    """Points and directions in every memory layout."""
    def run(ctx):
        import LinearResponseVariationalBayes as vb
        from LinearResponseVariationalBayes import SparseObjectives as so
        par = spec.build('p', vb)
        f = fn.Fun(spec)
        obj = so.Objective(par, f.bind(par))
        for rep, reff, at in (('fun_free', f.of_free,
                               point(spec.free_size, 1)),
                              ('fun_vector', f.of_vec,
                               spec.fwd(point(spec.free_size, 0)))):
            v, g, h = fn.derivatives(reff, at)
            d = point(len(at), 2)
            for xname, x in big.array_forms(at):
                with ctx.trace(repr(spec), rep, xname):
                    with inputs_kept(ctx, 'evaluation', x):
                        ctx.close(getattr(obj, rep)(x), v, 'value',
                                  shape=False)
                        ctx.close(getattr(obj, rep + '_grad')(x), g, 'grad')
                        ctx.close(getattr(obj, rep + '_jacobian')(x), g,
                                  'jacobian')
                        ctx.close(getattr(obj, rep + '_hessian')(x), h,
                                  'hessian')
                    for dname, y in big.array_forms(d):
                        with inputs_kept(ctx, 'product', x, y):
                            ctx.close(getattr(obj, rep + '_hvp')(x, y),
                                      np.array(h).dot(d), 'hvp with ' + dname)
                    ctx.state(rep, xname)
    return run


class DefaultArgs(fn.ArgFun):
    def formula(self, e, a, b, c, dot, exp, p=0.9, q=0.7, r=-0.3):
        return fn.ArgFun.formula(self, e, a, b, c, dot, exp, p, q, r)


def life_unit(spec, n, buffers=ref.Fresh):
    """One objective lives through every sequence of n calls.  In place: the
    arguments are always the same arrays, whose entries change."""
    def run(ctx):
        import LinearResponseVariationalBayes as vb
        from LinearResponseVariationalBayes import SparseObjectives as so
        par = spec.build('p', vb)
        f = fn.ArgFun(spec)
        m = spec.free_size
        alphabet, want = [], {}
        args = ((0.7,), (1.2, -0.4))
        buf = buffers()
        if buffers is ref.Reused:
            f = DefaultArgs(spec)
            args = ((), (1.2, -0.4), (0.7,))
        for k in (0, 1):
            for a in range(len(args)):
                if buffers is ref.Reused and a == 2 and k:
                    continue
                for rep, reff, at in (
                        ('fun_free', f.of_free, point(m, k)),
                        ('fun_vector', f.of_vec, spec.fwd(point(m, k)))):
                    if rep == 'fun_vector' and a != k and len(args) == 2:
                        continue
                    v, g, h = map(np.array, fn.derivatives(reff, at, *args[a]))
                    d = np.array(point(len(at), 2 + k))
                    for call, w in (('', v), ('_grad', g), ('_hessian', h),
                                    ('_hvp', h.dot(d))):
                        if call == '_hessian' and a != k and len(args) == 2:
                            continue
                        key = (rep + call, k, a)
                        want[key] = (at, d, w)
                        alphabet.append(key)
        obj = so.Objective(par, f.bind(par))
        with ctx.trace(repr(spec), 'life', len(alphabet), n):
            for key in de_bruijn(alphabet, n):
                x, d, w = want[key]
                a = args[key[2]]
                x = buf(x)
                if buffers is ref.Reused:
                    a = tuple(buf(np.array(z), ('arg', i))
                              for i, z in enumerate(a))
                if key[0].endswith('hvp'):
                    a = a + (buf(d, 'd'),)
                ctx.close(getattr(obj, key[0])(x, *a), w, key[0], shape=False)
                ctx.step(*key)
            ctx.state(repr(spec), n)
    return run


def passed_unit(spec):
    """Arguments of every type reach the function as the same objects."""
    def run(ctx):
        import LinearResponseVariationalBayes as vb
        from LinearResponseVariationalBayes import SparseObjectives as so
        par = spec.build('p', vb)
        f = fn.Fun(spec)
        rec = arguments.Recorder(f.bind(par))
        obj = so.Objective(par, rec)
        obj.logger.callback = lambda log: None
        free = point(spec.free_size, 1)
        vec = spec.fwd(point(spec.free_size, 0))
        want = {'fun_free': fn.derivatives(f.of_free, free),
                'fun_vector': fn.derivatives(f.of_vec, vec)}
        for args, kw in arguments.lists():
            for rep, at in (('fun_free', free), ('fun_vector', vec)):
                v, g, h = want[rep]
                x, d = arr(at), arr(point(len(at), 2))
                with ctx.trace(repr(spec), rep,
                               [arguments.label(a) for a in args],
                               {k: arguments.label(a)
                                for k, a in kw.items()}):
                    for name, w in (('', v), ('_grad', g), ('_hessian', h),
                                    ('_jacobian', g)):
                        ctx.step(rep + name)
                        ctx.close(getattr(obj, rep + name)(x, *args, **kw), w,
                                  rep + name, 1e-7, 1e-8, shape=name != '')
                        rec.check(ctx, rep + name, args, kw)
                    got = getattr(obj, rep + '_hvp')(
                        x, *(args + (d,)), **kw)
                    ctx.close(got, np.array(h).dot(d), rep + '_hvp', 1e-7,
                              1e-8)
                    rec.check(ctx, rep + '_hvp', args, kw)
                    if rep == 'fun_free':
                        ctx.close(obj.fun_free(x, *args, verbose=True, **kw),
                                  v, 'logged', 1e-7, 1e-8, shape=False)
                        rec.check(ctx, 'logged', args, kw)
                    ctx.state(rep, [arguments.label(a) for a in args],
                              sorted(kw))
    return run


def units(tier):
    out = []
    for i, b in enumerate(blocks(specs(tier), 4)):
        out.append(('derivatives-%d' % i, spec_unit(b, tier)))
    pool = [Scalar(0.2), Vector(2, -1., 2.), Array((1, 2), 0.), PD(2, 0.2),
            PDV(2, 1), PDA((1, 2), 1), Simplex((1, 3)), Sub(3), ref.mvn(2),
            ref.gamma(), make(['.', ['.', '.']], 'XSU')]
    for i, s in enumerate(pool):
        out.append(('arguments-%d' % i, args_unit([s], tier)))
        out.append(('array valued-%d' % i, many_unit([s], tier)))
        out.append(('shapes-%d' % i, shaped_unit([s], tier)))
        out.append(('magnitudes-%d' % i, magnitudes_unit(s, tier)))
        out.append(('forms-%d' % i, forms_unit(s)))
    for i, b in enumerate(blocks(big.medium(), 2)):
        out.append(('large-%d' % i, large_unit(b, tier)))
    for s in (Vector(2, -1., 2.), Simplex((1, 3)), PD(2, 0.1)):
        for how, buffers in ref.BUFFERS:
            out.append(('life%s %r' % (how, s), life_unit(
                s, 2 if tier == 'quick' or how else 3, buffers)))
    for s in (Vector(2, -1., 2.), make(['.', ['.']], 'XS')):
        out.append(('passed %r' % s, passed_unit(s)))
    out.append(('independence', independence_unit))
    return out


def BOUNDS(tier):
    return {
        'parameters': '%d kinds, bounds, shapes and trees' % len(specs(tier)),
        'points': '%d per representation; every unit direction%s and one full '
                  'direction for products' % (
                      2 if tier == 'quick' else 3,
                      ' (three above size 3)' if tier == 'quick' else ''),
        'arguments': '%d argument lists, 11 parameters' % len(ARGS),
        'passed arguments': '26 values of every type, in each position and as '
            'keywords, 25 pairs and long lists: the same objects arrive',
        'array values': '%d shapes of up to three dimensions' % (
            len(OUT_SHAPES)),
        'large': '%d parameters of 8 to 45 entries; dictionaries of 9 children '
                 'and of 5 levels' % len(big.medium()),
        'forms': 'strided, reversed, partial and read-only points and '
                 'directions, all pairs',
        'life': 'one objective through every %s of 20 calls' % (
            'pair' if tier == 'quick' else 'triple'),
        'magnitudes': 'functions scaled by %s, directions by %s' % (
            SCALES, DIR_SCALES),
        'in place': 'all pairs of calls once more with the same arrays, whose '
                    'entries the caller changes between the calls',
    }
