"""C13: moments and entropies of the distribution parameters."""
import copy
import itertools
import math

import numpy as np
import autograd
import autograd.numpy as anp

from mc import jet, ref
from mc.core import de_bruijn
from mc import expfam as xf
from mc.ref import point, arr, pd_full, prod, Array, Scalar, Vector

PROPERTY = 'C13'


class Dist(object):
    """A specification with the methods and what they should return: name ->
    (arguments, shape or None for a number, function of the vector, whether it
    is defined up to a constant)."""
    def __init__(self, spec, methods, points, extra=()):
        self.spec, self.methods, self.points = spec, methods, points
        self.extra = extra


def scaled(n, which, scale):
    return [scale * x for x in point(n, which)]


def free_points(spec):
    n = spec.free_size
    return [spec.fwd(f) for f in (
        [0.] * n, point(n, 0), point(n, 1), scaled(n, 3, 1.5),
        scaled(n, 2, -3.))]


def mvn(d, min_info):
    spec = ref.mvn(d, min_info)

    def cov(v):
        return [x for r in jet.inverse(pd_full(v[d:], d)) for x in r]

    def e_outer(v):
        c = cov(v)
        return [v[i] * v[j] + c[i * d + j] for i in range(d)
                for j in range(d)]
    return Dist(spec, {
        'e': ((), (d,), lambda v: list(v[:d]), False),
        'cov': ((), (d, d), cov, False),
        'e_outer': ((), (d, d), e_outer, False),
        'entropy': ((), None, lambda v: [xf.mvn_entropy(pd_full(v[d:], d))],
                    False)}, free_points(spec))


def lognormal_methods(n, shape, mean_var):
    def each(f):
        def g(v):
            m, s = mean_var(v)
            return [f(a, b) for a, b in zip(m, s)]
        return g
    return {
        'e': ((), shape, each(lambda m, s: m + s * 0.), False),
        'e_outer': ((), shape, each(lambda m, s: m * m + s), False),
        'var': ((), shape, each(lambda m, s: s + m * 0.), False),
        'e_exp': ((), shape, each(xf.e_lognormal), False),
        'var_exp': ((), shape, each(xf.var_lognormal), False),
        'e2_exp': ((), shape, each(xf.e2_lognormal), False),
        'entropy': ((), None, lambda v: [jet.sum_(
            each(lambda m, s: jet.log(s) * 0.5 + 0.5 * (1. + xf.LOG2PI))(v))],
            False)}


def by_info(n):
    return lambda v: (v[:n], [1.0 / x for x in v[n:]])


def by_moment(n):
    return lambda v: (v[:n], [b - a * a for a, b in zip(v[:n], v[n:])])


def uvn(min_info):
    spec = ref.uvn(min_info)
    return Dist(spec, lognormal_methods(1, None, by_info(1)),
                free_points(spec))


def uvnv(n, min_info):
    spec = ref.uvnv(n, min_info)
    return Dist(spec, lognormal_methods(n, (n,), by_info(n)),
                free_points(spec), (('size', n),))


def uvna(shape, min_info):
    spec, n = ref.uvna(shape, min_info), prod(shape)
    return Dist(spec, lognormal_methods(n, shape, by_info(n)),
                free_points(spec), (('shape', shape),))


def uvnm(shape, min_info):
    spec, n = ref.uvnm(shape, min_info), prod(shape)
    pts = []
    for k, s in ((0, 1.), (1, 0.5), (3, -1.2), (2, 2.)):
        m = point(n, k)
        pts.append(m + [a * a + min_info + math.exp(s * x)
                        for a, x in zip(m, point(n, k + 1))])
    return Dist(spec, lognormal_methods(n, shape, by_moment(n)), pts,
                (('shape', shape),))


def mvna(shape, min_info):
    spec, n = ref.mvna(shape, min_info), prod(shape)
    c = shape[1]
    return Dist(spec, {
        'e': ((), shape, lambda v: list(v[:n]), False),
        'e2': ((), shape, lambda v: [v[i] * v[i] + 1.0 / v[n + i // c]
                                     for i in range(n)], False)},
        free_points(spec))


def gamma(min_shape, min_rate):
    spec = ref.gamma(min_shape, min_rate)
    return Dist(spec, {
        'e': ((), None, lambda v: [v[0] / v[1]], False),
        'e_log': ((), None, lambda v: [xf.e_log_gamma(v[0], v[1])], False),
        'entropy': ((), None, lambda v: [xf.gamma_entropy(v[0], v[1])],
                    False)}, free_points(spec))


def wishart(size, diag_lb, min_df):
    spec = ref.wishart(size, diag_lb, min_df)
    n = size

    def mat(v):
        return pd_full(v[1:], n)

    def flat(m):
        return [x for r in m for x in r]
    methods = {
        'e': ((), (n, n), lambda v: flat([[v[0] * x for x in r]
                                          for r in mat(v)]), False),
        'e_log_det': ((), None,
                      lambda v: [xf.e_log_det_wishart(v[0], mat(v))], False),
        'e_inv': ((), (n, n), lambda v: [
            x / (v[0] - (n + 1.)) for x in flat(jet.inverse(mat(v)))], False),
        'entropy': ((), None, lambda v: [xf.wishart_entropy(v[0], mat(v))],
                    False)}
    for lkj in (0.5, 4.):
        methods['e_log_lkj_inv_prior %s' % lkj] = (
            (lkj,), None, lambda v, lkj=lkj: [
                (lkj - 1.0) * xf.expected_log_det_corr(v[0], mat(v))], True)
    pts = []
    for f in ([1.2 if k == 0 else 0. for k in range(spec.free_size)],
              point(spec.free_size, 0), point(spec.free_size, 1),
              point(spec.free_size, 3)):
        v = spec.fwd(f)
        v[0] = n + 1.2 + abs(f[0]) * 3. + (min_df or 0.)
        pts.append(v)
    low = spec.fwd(point(spec.free_size, 2))       # too few for e_inv
    low[0] = (min_df or n - 1.) + 0.4
    pts.append(low)
    return Dist(spec, methods, pts)


def dirichlet(shape, min_alpha):
    spec = ref.dirichlet(shape, min_alpha)
    return Dist(spec, {
        'e': ((), shape, lambda v: xf.from_columns(
            [xf.e_dirichlet(c) for c in xf.columns(v, shape)]), False),
        'e_log': ((), shape, lambda v: xf.from_columns(
            [xf.e_log_dirichlet(c) for c in xf.columns(v, shape)]), False),
        'entropy': ((), shape[1:], lambda v: [
            xf.dirichlet_entropy(c) for c in xf.columns(v, shape)], False)},
        free_points(spec))


def dists(tier):
    out = [mvn(1, 0.), mvn(2, 0.), mvn(2, 0.7), mvn(3, 0.1),
           uvn(0.), uvn(0.5), uvnv(1, 0.), uvnv(3, 0.2),
           uvna((2,), 0.), uvna((2, 2), 0.2), uvna((1, 3), 0.),
           uvna((2, 1, 2), 0.),
           uvnm((2,), 0.), uvnm((2, 2), 0.1), uvnm((1, 3), 0.),
           mvna((2, 2), 0.), mvna((3, 1), 0.2), mvna((1, 3), 0.),
           mvna((2, 3), 0.1),
           gamma(0., 0.), gamma(1.5, 0.), gamma(0., 0.3), gamma(0.2, 2.),
           wishart(1, 0., None), wishart(2, 0., None), wishart(2, 0.2, 3.5),
           wishart(3, 0., None),
           dirichlet((1, 2), 0.), dirichlet((2, 1), 0.), dirichlet((3,), 0.),
           dirichlet((2, 3), 0.), dirichlet((3, 2), 0.2),
           dirichlet((2, 2, 2), 0.)]
    if tier == 'thorough':
        out += [mvn(4, 0.), uvnv(5, 0.), uvna((3, 2), 0.), uvnm((2, 1, 2), 0.),
                mvna((4, 2), 0.), wishart(4, 0., None),
                dirichlet((5,), 0.), dirichlet((4, 3), 0.1)]
    return out


def large(tier):
    out = [mvn(6, 0.1), mvn(4, 0.), uvnv(11, 0.2), uvnv(33, 0.),
           uvna((5, 4), 0.1), uvna((2, 2, 2, 2), 0.), uvna((13,), 0.),
           uvnm((4, 5), 0.1), uvnm((2, 3, 2), 0.), mvna((6, 4), 0.1),
           mvna((2, 9), 0.), mvna((9, 2), 0.), wishart(4, 0., None),
           wishart(6, 0.1, 8.5), dirichlet((8, 3), 0.), dirichlet((2, 9), 0.),
           dirichlet((13,), 0.1), dirichlet((3, 2, 4), 0.),
           dirichlet((2, 2, 2, 2), 0.)]
    if tier != 'quick':
        out += [mvn(9, 0.), uvnv(100, 0.), wishart(8, 0., None),
                dirichlet((30, 4), 0.)]
    return out


def usable(dist, name, v):
    if name == 'e_inv':
        return v[0] > math.sqrt(8 * (len(v) - 1) + 1) / 2 - 0.5 + 1.05
    return True


def call(par, name, args):
    return getattr(par, name.split(' ')[0])(*args)


FIRST = {}


def ask(ctx, par, dist, v, name):
    args, shape, f, constant = dist.methods[name]
    if not usable(dist, name, v):
        return
    got = call(par, name, args)
    want = np.array([float(x) for x in f(v)])
    if constant:
        v0 = dist.points[0]
        other = dist.spec.build('other', __import__(
            'LinearResponseVariationalBayes'))
        other.set_vector(arr(v0))
        got = got - call(other, name, args)
        want = want - np.array([float(x) for x in f(v0)])
    if shape is None or isinstance(dist.spec, Scalar):
        ctx.close(got, want, name, 1e-7, 1e-9, shape=False)
    else:
        ctx.close(got, want.reshape(shape), name, 1e-7, 1e-9)
    ctx.gstate(repr(dist.spec), name, want)


def ask_all(ctx, par, dist, v, what):
    for name in sorted(dist.methods):
        ask(ctx, par, dist, v, name)
    for name, want in dist.extra:
        got = getattr(par, name)()
        ctx.true(got == want, '%s() is %s' % (name, got))
    ref.check_state(ctx, par, dist.spec, v, what,
                    free=dist.spec.label[:9] != 'UVNMoment' or True)


def put(par, dist, v, how):
    spec = dist.spec
    if how == 'free':
        par.set_free(arr(spec.inv(v)))
    elif how == 'vector':
        par.set_vector(arr(v))
    else:
        parts = spec.split_vec(v)
        if how == 'parts reversed':
            parts = parts[::-1]
        for name, s, x in parts:
            if how == 'values':
                par[name].set(s.for_set(x))
            else:
                par[name].set_vector(arr(x))


def write(par, spec, v, part=None):
    """Overwrite the entries of the values in place; the vector it has."""
    out = []
    old = np.asarray(par.get_vector(), dtype=float).tolist()
    for (n, s, a), (_, _, b) in zip(spec.split_vec(old), spec.split_vec(v)):
        val = par[n].get()
        if part in (None, n) and isinstance(val, np.ndarray) and \
                val.flags.writeable and not s.is_dict:
            val[...] = np.reshape(s.for_set(b), val.shape)
            out += b
        else:
            out += a
    return out


def spoil(par, dist, v):
    """The caller overwrites the results (other than the values themselves,
    which are handed out as they are)."""
    own = [par[n].get() for n, s, _ in dist.spec.split_vec(v)]
    for name in sorted(dist.methods):
        if usable(dist, name, v):
            got = call(par, name, dist.methods[name][0])
            if isinstance(got, np.ndarray) and got.flags.writeable and \
                    not any(np.may_share_memory(got, o) for o in own
                            if isinstance(o, np.ndarray)):
                got[...] = 77.


SETTERS = ['free', 'vector', 'values', 'parts reversed']


def values_unit(i, tier, source=dists):
    def run(ctx):
        import LinearResponseVariationalBayes as vb
        dist = source(tier)[i]
        for how in SETTERS:
            for v in dist.points:
                with ctx.trace(repr(dist.spec), how, v):
                    par = dist.spec.build('p', vb)
                    put(par, dist, v, how)
                    ask_all(ctx, par, dist, v, 'after asking')
                    ask_all(ctx, par, dist, v, 'after asking again')
    return run


def derivative_unit(i, tier):
    def run(ctx):
        import LinearResponseVariationalBayes as vb
        dist = dists(tier)[i]
        spec = dist.spec
        par = spec.build('p', vb)
        for v in dist.points[:3 if tier == 'quick' else None]:
            for name in sorted(dist.methods):
                if not usable(dist, name, v):
                    continue
                args, shape, f, constant = dist.methods[name]
                for free in (True, False):
                    x = spec.inv(v) if free else list(v)
                    with ctx.trace(repr(spec), name, free, v):
                        z = jet.variables([float(a) for a in x])
                        outs = f(spec.fwd(z) if free else z)
                        w = [0.8 + 0.3 * k for k in range(len(outs))]
                        want = jet.dot(w, outs)

                        def real(y):
                            if free:
                                par.set_free(y)
                            else:
                                par.set_vector(y)
                            return anp.sum(anp.reshape(
                                call(par, name, args), (-1,)) * np.array(w))
                        g = autograd.grad(real)(arr(x))
                        ctx.close(g, want.grad(), 'gradient of ' + name,
                                  1e-7, 1e-8)
                        h = autograd.jacobian(autograd.grad(real))(arr(x))
                        ctx.close(h, want.hess(), 'Hessian of ' + name,
                                  1e-6, 1e-7)
                        ctx.gstate(repr(spec), name, free, want.grad())
                    par.set_vector(arr(v))
    return run


def history_unit(i, tier, depth):
    """Set in part or in whole and ask, in every order."""
    def run(ctx):
        import LinearResponseVariationalBayes as vb
        dist = dists(tier)[i]
        spec = dist.spec
        names = sorted(dist.methods)
        pts = dist.points[1:3]
        ops = [('free', 0), ('vector', 1)] + \
            [('part %s' % n, k) for k, (n, _) in enumerate(spec.children)] + \
            [('ask', 0), ('copy', 0), ('spoil', 0), ('write', 1)]
        for seq in itertools.product(ops, repeat=depth):
            with ctx.trace(repr(spec), list(seq)):
                par = spec.build('p', vb)
                v = list(pts[0])
                par.set_vector(arr(v))
                for op, k in seq:
                    ctx.step(op, k)
                    if op in ('free', 'vector'):
                        v = list(pts[k])
                        put(par, dist, v, op)
                    elif op == 'ask':
                        for name in names:
                            ask(ctx, par, dist, v, name)
                    elif op == 'spoil':
                        spoil(par, dist, v)
                    elif op == 'write':
                        new = write(copy.deepcopy(par), spec, pts[1])
                        if not valid(dist, new):
                            break
                        v = write(par, spec, pts[1])
                    elif op == 'copy':
                        par = copy.deepcopy(par)
                    else:
                        new = []
                        for (n, s, a), (_, _, b) in zip(
                                spec.split_vec(v), spec.split_vec(pts[1])):
                            if op == 'part ' + n:
                                par[n].set(s.for_set(b))
                                new += b
                            else:
                                new += a
                        if not valid(dist, new):
                            break
                        v = new
                else:
                    ask_all(ctx, par, dist, v, 'at the end')
    return run


def valid(dist, v):
    if repr(dist.spec).startswith('UVNMoment'):
        n = len(v) // 2
        return all(b - a * a > 0.01 for a, b in zip(v[:n], v[n:]))
    return True


def large_derivative_unit(i, tier):
    """Gradients of all methods of large parameters."""
    def run(ctx):
        import LinearResponseVariationalBayes as vb
        dist = large(tier)[i]
        spec = dist.spec
        par = spec.build('p', vb)
        v = dist.points[1]
        for name in sorted(dist.methods):
            if not usable(dist, name, v):
                continue
            args, shape, f, constant = dist.methods[name]
            for free in (True, False):
                x = spec.inv(v) if free else list(v)
                with ctx.trace(repr(spec), name, free):
                    z = jet.variables([float(a) for a in x])
                    outs = f(spec.fwd(z) if free else z)
                    w = [0.8 + 0.3 * (k % 7) for k in range(len(outs))]
                    want = jet.dot(w, outs)

                    def real(y):
                        if free:
                            par.set_free(y)
                        else:
                            par.set_vector(y)
                        return anp.sum(anp.reshape(
                            call(par, name, args), (-1,)) * np.array(w))
                    ctx.close(autograd.grad(real)(arr(x)), want.grad(),
                              'gradient of ' + name, 1e-7, 1e-8)
                    ctx.gstate(repr(spec), name, free)
                par.set_vector(arr(v))
    return run


def life_unit(i, tier):
    """One parameter lives through every sequence of operations."""
    def run(ctx):
        import LinearResponseVariationalBayes as vb
        dist = dists(tier)[i]
        spec = dist.spec
        pts = dist.points[1:3]
        ops = ['free 0', 'vector 1', 'ask', 'spoil'] + \
            ['part %s %d' % (n, k) for n, _ in spec.children for k in (0, 1)] \
            + ['write %s %d' % (n, k) for n, _ in spec.children
               for k in (0, 1)]
        with ctx.trace(repr(spec), 'life'):
            par = spec.build('p', vb)
            v = list(pts[0])
            par.set_vector(arr(v))
            for op in de_bruijn(ops, 2 if tier == 'quick' else 3):
                ctx.step(op)
                words = op.split()
                if words[0] == 'part':
                    new = []
                    for (n, s, a), (_, _, b) in zip(
                            spec.split_vec(v),
                            spec.split_vec(pts[int(words[2])])):
                        new += b if n == words[1] else a
                    if not valid(dist, new):
                        continue
                    for (n, s, a) in spec.split_vec(new):
                        if n == words[1]:
                            par[n].set(s.for_set(a))
                    v = new
                elif words[0] == 'write':
                    to = pts[int(words[2])]
                    if valid(dist, write(copy.deepcopy(par), spec, to,
                                         words[1])):
                        v = write(par, spec, to, words[1])
                elif op == 'spoil':
                    spoil(par, dist, v)
                elif op != 'ask':
                    v = list(pts[int(words[1])])
                    put(par, dist, v, words[0])
                for name in sorted(dist.methods):
                    ask(ctx, par, dist, v, name)
    return run


def moment_unit(ctx):
    """Moment arrays set from other parameters."""
    import LinearResponseVariationalBayes as vb
    for shape in [(2,), (2, 2), (1, 3), (2, 1, 2)]:
        src, dst, const = uvna(shape, 0.), uvnm(shape, 0.), Array(shape)
        for k, v in enumerate(src.points):
            with ctx.trace(shape, v):
                n = prod(shape)
                a = src.spec.build('a', vb)
                b = dst.spec.build('b', vb)
                c = const.build('c', vb)
                a.set_vector(arr(v))
                c.set_vector(arr(v[:n]))
                for op in ('uvn', 'const', 'uvn'):
                    if op == 'uvn':
                        b.set_from_uvn_param_array(a)
                        want = v[:n] + [m * m + 1. / i
                                        for m, i in zip(v[:n], v[n:])]
                        ask_all(ctx, b, dst, want, 'set from normals')
                    else:
                        b.set_from_constant(c)
                        want = v[:n] + [m * m for m in v[:n]]
                        ctx.close(b.get_vector(), want, 'set from constant')
                        ctx.close(b.e(), np.array(v[:n]).reshape(shape), 'e')
                        ctx.close(b.e_outer(), np.array(
                            want[n:]).reshape(shape), 'e_outer')
                        ctx.close(b.var(), np.zeros(shape), 'var', 0, 1e-12)
                        ctx.close(b.e_exp(), np.exp(np.array(
                            v[:n])).reshape(shape), 'e_exp')
                        ctx.close(b.var_exp(), np.zeros(shape), 'var_exp', 0,
                                  1e-9)
                ref.check_state(ctx, a, src.spec, v, 'source')
                ref.check_state(ctx, c, const, v[:n], 'constant source')
                # afterwards the parameters are separate
                a['mean'].set_vector(arr([9.] * n))
                c.set_vector(arr([8.] * n))
                want = v[:n] + [m * m + 1. / i for m, i in zip(v[:n], v[n:])]
                ask_all(ctx, b, dst, want, 'after changing the sources')
                ctx.state(shape, k)


# ---------------------------------------------------------------------------
# Every magnitude next to every other

EPS = 2.3e-16
TINY = 1e-290


def entries(ctx, got, want, tol, what):
    """Entry by entry, each within its own absolute tolerance"""
    got, want = np.asarray(got, dtype=float), np.asarray(want, dtype=float)
    ctx.true(got.size == want.size, '%s: %d entries, expected %d' % (
        what, got.size, want.size))
    for a, b, t in zip(got.ravel(), want.ravel(), tol):
        ctx.true(abs(a - b) <= t, '%s: %r, expected %r within %r' % (
            what, float(a), float(b), t))


MEANS = [0., 1e-12, -1e-6, 3e-3, -1., 25., -1e5, 300., -280., 640.]
INFOS = [1e-2, 0.3, 1., 50., 1e6, 1e12]


def normal_magnitudes(tier):
    def run(ctx):
        import LinearResponseVariationalBayes as vb
        grid = list(itertools.product(MEANS, INFOS))
        for n in (1, 2, 3):
            for start in range(len(grid)):
                pairs = [grid[(start + 11 * k) % len(grid)] for k in range(n)]
                m, info = [list(x) for x in zip(*pairs)]
                shapes = [uvna((n,), 0.), uvna((1, n), 0.)]
                if n == 1:
                    shapes.append(uvn(0.))
                shapes.append(uvnv(n, 0.))
                with ctx.trace('normals', pairs):
                    for dist in shapes:
                        par = dist.spec.build('p', vb)
                        par.set_vector(arr(m + info))
                        ask_normals(ctx, par, m, [1. / i for i in info], 0.)
                        if dist.spec.label.startswith('UVNParamArray') or \
                                dist is shapes[0]:
                            dst = uvnm((n,), 0.).spec.build('q', vb)
                            dst.set_from_uvn_param_array(par)
                            ask_normals(ctx, dst, m, [1. / i for i in info],
                                        1.)
                ctx.state(pairs)
    return run


def ask_normals(ctx, par, m, s, rounded):
    """With rounded, the variance is a difference of moments"""
    n = len(m)
    e2 = [a * a + v for a, v in zip(m, s)]
    ds = [4 * EPS * (v + rounded * q) for v, q in zip(s, e2)]
    entries(ctx, par.e(), m, [0.] * n, 'e')
    entries(ctx, par.e_outer(), e2, [4 * EPS * q for q in e2], 'e_outer')
    entries(ctx, par.var(), s, ds, 'var')
    if any(d > 1e-3 * v for d, v in zip(ds, s)):
        return                          # the variance is all rounding
    entries(ctx, [par.entropy()],
            [sum(0.5 * (math.log(v) + 1 + xf.LOG2PI) for v in s)],
            [sum(20 * EPS * (3 + abs(math.log(v))) + d / v
                 for v, d in zip(s, ds))], 'entropy')
    # as far as they can be represented
    if any(a + 0.5 * v > 690. for a, v in zip(m, s)):
        return
    e = [math.exp(a + 0.5 * v) for a, v in zip(m, s)]
    rel = [20 * EPS * (3 + abs(a) + v) + 2 * d for a, v, d in zip(m, s, ds)]
    entries(ctx, par.e_exp(), e, [r * x + TINY for r, x in zip(rel, e)],
            'e_exp')
    if any(a + v > 345. for a, v in zip(m, s)):
        return
    entries(ctx, par.var_exp(), [math.expm1(v) * x * x for v, x in zip(s, e)],
            [r * math.exp(v) * x * x * 2 + TINY
             for r, v, x in zip(rel, s, e)], 'var_exp')
    entries(ctx, par.e2_exp(), [math.exp(v) * x * x for v, x in zip(s, e)],
            [r * math.exp(v) * x * x * 4 + TINY
             for r, v, x in zip(rel, s, e)], 'e2_exp')


POSITIVE = [1e-3, 0.07, 1., 2.5, 40., 3e3, 1e5]


def positive_magnitudes(ctx):
    """Gamma and Dirichlet"""
    import LinearResponseVariationalBayes as vb
    g = gamma(0., 0.)
    par = g.spec.build('p', vb)
    for a, b in itertools.product(POSITIVE, [1e-6] + POSITIVE + [1e9]):
        with ctx.trace('gamma', a, b):
            par.set_vector(arr([a, b]))
            entries(ctx, [par.e()], [a / b], [4 * EPS * a / b], 'e')
            e_log, ent = xf.e_log_gamma(a, b), xf.gamma_entropy(a, b)
            size = 1. / a + abs(math.log(a)) + abs(math.log(b)) + 1.
            entries(ctx, [par.e_log()], [e_log], [1e-12 * size], 'e_log')
            entries(ctx, [par.entropy()], [ent],
                    [1e-12 * size * (1. + a)], 'entropy')
            ctx.state(a, b)
    for n in (2, 3):
        d = dirichlet((n, 1), 0.)
        par = d.spec.build('p', vb)
        for al in itertools.product(POSITIVE, repeat=n):
            with ctx.trace('dirichlet', al):
                par.set_vector(arr(al))
                tot = sum(al)
                entries(ctx, par.e(), [x / tot for x in al],
                        [8 * EPS * x / tot for x in al], 'e')
                size = [1. / x + abs(math.log(x)) + math.log(tot) + 1.
                        + 1. / tot for x in al]
                entries(ctx, par.e_log(), xf.e_log_dirichlet(list(al)),
                        [1e-12 * s for s in size], 'e_log')
                entries(ctx, par.entropy(), [xf.dirichlet_entropy(list(al))],
                        [1e-12 * sum(size) * (1. + tot)], 'entropy')
                ctx.state(al)


def matrix_magnitudes(ctx):
    """Multivariate normal and Wishart with diagonal and nearly diagonal
    matrices of every scale"""
    import LinearResponseVariationalBayes as vb
    scales = [1e-8, 1e-3, 1., 1e3, 1e8]
    m = mvn(2, 0.).spec.build('p', vb)
    w = wishart(2, 0., None).spec.build('w', vb)
    for a, b, r in itertools.product(scales, scales, (0., 0.5, -0.5)):
        off = r * math.sqrt(a * b)
        det = a * b * (1 - r * r)
        inv = [b / det, -off / det, -off / det, a / det]
        tol = [1e-13 * abs(x) + 1e-14 * math.sqrt(y) for x, y in zip(
            inv, [inv[0] ** 2, inv[0] * inv[3], inv[0] * inv[3],
                  inv[3] ** 2])]
        for mean in ([0., 0.], [1e-9, -3.], [1e6, 1e-6]):
            with ctx.trace('mvn', a, b, r, mean):
                m['mean'].set(arr(mean))
                m['info'].set(np.array([[a, off], [off, b]]))
                entries(ctx, m.e(), mean, [0.] * 2, 'e')
                entries(ctx, m.cov(), inv, tol, 'cov')
                outer = [x * y for x in mean for y in mean]
                entries(ctx, m.e_outer(), [x + y for x, y in zip(outer, inv)],
                        [4 * EPS * abs(x) + t for x, t in zip(outer, tol)],
                        'e_outer')
                entries(ctx, [m.entropy()],
                        [-0.5 * math.log(det) + 1. + xf.LOG2PI],
                        [1e-13 * (3 + abs(math.log(det)))], 'entropy')
        for df in (1.001, 1.5, 4., 100., 1e5):
            with ctx.trace('wishart', a, b, r, df):
                w['df'].set(df)
                w['v'].set(np.array([[a, off], [off, b]]))
                v = [[a, off], [off, b]]
                entries(ctx, w.e(), [df * x for x in (a, off, off, b)],
                        [4 * EPS * abs(df * x) for x in (a, off, off, b)],
                        'e')
                size = abs(math.log(det)) + 3 + abs(math.log(df)) + \
                    1. / (df - 1.)
                entries(ctx, [w.e_log_det()], [xf.e_log_det_wishart(df, v)],
                        [1e-12 * size], 'e_log_det')
                entries(ctx, [w.entropy()], [xf.wishart_entropy(df, v)],
                        [1e-12 * size * (1. + df)], 'entropy')
                if df > 3.5:
                    entries(ctx, w.e_inv(), [x / (df - 3.) for x in inv],
                            [2 * t / (df - 3.) for t in tol], 'e_inv')
                for lkj in (0.3, 1., 5.):
                    got = w.e_log_lkj_inv_prior(lkj)
                    want = (lkj - 1.) * xf.expected_log_det_corr(df, v)
                    if lkj == 1.:
                        ctx.true(got == 0., 'flat LKJ prior')
                    first = (lkj - 1.) * xf.expected_log_det_corr(
                        4., [[1., 0.], [0., 1.]])
                    w['df'].set(4.)
                    w['v'].set(np.eye(2))
                    base = w.e_log_lkj_inv_prior(lkj)
                    w['df'].set(df)
                    w['v'].set(np.array(v))
                    entries(ctx, [got - base], [want - first],
                            [1e-12 * 5 * (size + 40.)], 'LKJ prior')
        ctx.state(a, b, r)


def units(tier):
    out = []
    n = len(dists(tier))
    for i in range(n):
        label = repr(dists(tier)[i].spec)
        out.append(('values ' + label, values_unit(i, tier)))
        out.append(('derivatives ' + label, derivative_unit(i, tier)))
        out.append(('histories ' + label, history_unit(
            i, tier, 3 if tier == 'quick' else 4)))
        out.append(('life ' + label, life_unit(i, tier)))
    for i, d in enumerate(large(tier)):
        out.append(('large %r' % d.spec, values_unit(i, tier, large)))
        out.append(('large derivatives %r' % d.spec,
                    large_derivative_unit(i, tier)))
    out.append(('moments from others', moment_unit))
    out.append(('magnitudes of normals', normal_magnitudes(tier)))
    out.append(('magnitudes of gammas', positive_magnitudes))
    out.append(('magnitudes of matrices', matrix_magnitudes))
    return out


def BOUNDS(tier):
    return {
        'distributions': '%d type and shape combinations' % len(dists(tier)),
        'values': '4-5 points, four ways to set them',
        'magnitudes': '%d means by %d informations, %d sizes of positive '
                      'parameters, 5x5 scales of matrices' % (
                          len(MEANS), len(INFOS), len(POSITIVE)),
        'derivatives': 'gradient and Hessian of all methods, free and vector, '
                       '%s points' % (3 if tier == 'quick' else '4-5'),
        'large': '%d of up to 40 entries, 6 x 6 matrices, 4 dimensions; values '
                 'and gradients' % len(large(tier)),
        'lives': 'one parameter through every %s of setting, '
                 'changing values in place, asking, and overwriting '
                 'results' % (
            'pair' if tier == 'quick' else 'triple'),
        'histories': 'all sequences of %d operations (whole and partial '
                     'setting, in place, asking, overwriting results, copying)' % (
                         3 if tier == 'quick' else 4),
    }
