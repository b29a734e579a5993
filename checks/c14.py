"""C14: the functions of ExponentialFamilies, their values and derivatives."""
import itertools
import math

import numpy as np
import autograd
import autograd.numpy as anp

from mc import jet, ref
from mc import expfam as xf
from mc.big import array_forms
from mc.core import inputs_kept, blocks
from mc.ref import point, pd_full, pd_forward, tri, prod, INF

PROPERTY = 'C14'

POS = [0.05, 0.4, 1., 2.7, 15., 120.]
POS_S = [0.3, 1.4, 6.]
REAL = [-2.3, -0.4, 0., 0.7, 3.1]


class Arg(object):
    """An argument: a flat list of numbers with a shape and some levels."""
    kind = None

    def __init__(self, shape=(), levels=None, lo=0.):
        self.shape = tuple(shape)
        self.size = prod(self.shape)
        self.lo = lo
        self.given = levels

    def real(self, z):
        return z[0] if self.shape == () else anp.reshape(z, self.shape)

    def number(self, flat):
        return float(flat[0]) if self.shape == () else \
            np.array(flat, dtype=float).reshape(self.shape)

    def ref(self, flat):
        return flat


class Pos(Arg):
    def levels(self):
        if self.size == 1:
            vals = self.given or POS
            return [[self.lo + v] for v in vals]
        return [[self.lo + math.exp(s * x) for x in point(self.size, k)]
                for k, s in ((0, 1.), (1, 2.), (3, -1.), (4, 3.))]


class Real(Arg):
    def levels(self):
        if self.size == 1:
            return [[v] for v in (self.given or REAL)]
        return [point(self.size, k) for k in (0, 1, 3)] + [[0.] * self.size]


class PDArg(Arg):
    def __init__(self, n):
        self.n, self.size = n, tri(n)

    def levels(self):
        return [pd_forward(point(self.size, k), self.n, 0.) for k in (0, 1, 3)]

    def real(self, z):
        n = self.n
        idx = np.array([[max(i, j) * (max(i, j) + 1) // 2 + min(i, j)
                         for j in range(n)] for i in range(n)])
        return z[idx]

    def number(self, flat):
        return np.array(pd_full(flat, self.n), dtype=float)

    def ref(self, flat):
        return pd_full(flat, self.n)


class Probs(Arg):
    def levels(self):
        r, c = self.shape
        return [[v for i in range(r) for v in ref.simplex_row(
            point((c - 1) * r, k)[i * (c - 1):(i + 1) * (c - 1)])]
            for k in (0, 1, 3)]


class Case(object):
    def __init__(self, name, args, real, reference, shape=(), constant=False,
                 variational=None, extra=None):
        self.name, self.args, self.real = name, args, real
        self.reference, self.shape = reference, shape
        # constant: defined up to a constant in the arguments that are not
        # variational (indices); compared with the value at the first level
        self.constant, self.variational = constant, variational
        self.extra = extra or {}

    def split(self, z):
        out, k = [], 0
        for a in self.args:
            out.append(z[k:k + a.size])
            k += a.size
        return out


def fun(name):
    from LinearResponseVariationalBayes import ExponentialFamilies as ef
    return getattr(ef, name)


def each(f):
    """Entry by entry."""
    def g(*args):
        n = max(len(a) for a in args)
        return [f(*[a[i] if len(a) > 1 else a[0] for a in args])
                for i in range(n)]
    return g


def summed(f):
    g = each(f)
    return lambda *args: [jet.sum_(g(*args))]


def cases(tier):
    return family(
        [(), (1,), (3,), (2, 2)] if tier == 'quick' else
        [(), (1,), (3,), (2, 2), (1, 3), (2, 1, 2), (5,)], (1, 2, 3, 4),
        [(1, 2), (1, 3), (2, 2), (3, 2), (2, 4)],
        (1, 2, 3, 4) if tier == 'thorough' else (1, 2, 3),
        [(1,), (2,), (3,), (2, 1), (2, 3), (3, 2), (2, 2, 2), (3, 1, 2)],
        (1, 2, 3))


def large_cases(tier):
    return family([(11,), (3, 5), (2, 3, 2)], (7, 12), [(9, 2), (1, 12), (5, 4)],
                  (5, 6), [(11,), (9, 2), (2, 9), (4, 4), (2, 3, 2, 2)], (7,))


def huge_cases(tier):
    return family([(60,), (8, 9)], (25, 40), [(40, 3), (2, 50)],
                  (8, 10), [(70,), (30, 3), (3, 30), (3, 4, 5)], (40,))


def family(sizes, dims, tables, matrices, columns, rows):
    out = []

    def add(label, name, args, reference, shape=(), **kw):
        out.append(Case('%s %s' % (name, label), args,
                        lambda *a: fun(name)(*a), reference, shape, **kw))

    for p in dims:
        for nm, f in (('multivariate_digamma', xf.mv_digamma),
                      ('multivariate_gammaln', xf.mv_lgamma)):
            out.append(Case(
                '%s %d' % (nm, p), [Pos(lo=0.5 * (p - 1))],
                lambda a, nm=nm, p=p: fun(nm)(a, p),
                lambda a, f=f, p=p: [f(a[0], p)], ()))
    for r, c in tables:
        add('%dx%d' % (r, c), 'multinoulli_entropy', [Probs((r, c))],
            lambda f, r=r, c=c: [xf.multinoulli_entropy(f[i * c:(i + 1) * c])
                                 for i in range(r)], (r,))
    for s in sizes:
        add(str(s), 'univariate_normal_entropy', [Pos(s)],
            summed(xf.uvn_entropy))
        add(str(s), 'gamma_entropy', [Pos(s), Pos(s)],
            summed(xf.gamma_entropy))
        add(str(s), 'get_e_lognormal', [Real(s), Pos(s, POS_S)],
            each(xf.e_lognormal), s)
        add(str(s), 'get_var_lognormal', [Real(s), Pos(s, POS_S)],
            each(xf.var_lognormal), s)
        add(str(s), 'get_e_log_gamma', [Pos(s), Pos(s)],
            each(xf.e_log_gamma), s)
        add(str(s), 'uvn_prior', [Real(s, [-0.4, 1.1]), Pos(s, POS_S),
                                  Real(s, [0., 0.7, -2.]), Pos(s, POS_S)],
            each(lambda m, i, e, v: ((e - m) * (e - m) + v) * i * -0.5), s,
            constant=True, variational=(2, 3))
        add(str(s), 'gamma_prior', [Pos(s, POS_S), Pos(s, POS_S),
                                    Pos(s, POS_S), Real(s, [0., -1.4, 2.])],
            each(lambda a, b, e, el: (a - 1.0) * el - b * e), s,
            constant=True, variational=(2, 3))
        add(str(s), 'exponential_prior', [Pos(s, POS_S), Pos(s, POS_S)],
            each(lambda l, e: l * e * -1.0), s, constant=True,
            variational=(1,))
        for part in (0, 1):
            out.append(Case(
                'get_uvn_from_natural_parameters[%d] %s' % (part, s),
                [Real(s), Pos(s, POS_S)],
                lambda e, q, part=part: fun('get_uvn_from_natural_parameters')(
                    e, -q)[part],
                each((lambda e, q: e / (q * 2.0)) if part == 0 else
                     (lambda e, q: q * 2.0 + e * 0.0)), s))
    for s in [s for s in sizes if prod(s) > 1]:
        # a scalar prior for an array of parameters
        add('scalar prior ' + str(s), 'uvn_prior',
            [Real((), [-0.4]), Pos((), [1.4]), Real(s), Pos(s)],
            each(lambda m, i, e, v: ((e - m) * (e - m) + v) * i * -0.5), s,
            constant=True, variational=(2, 3))
        add('scalar prior ' + str(s), 'gamma_prior',
            [Pos((), [0.6]), Pos((), [1.4]), Pos(s), Real(s)],
            each(lambda a, b, e, el: (a - 1.0) * el - b * e), s,
            constant=True, variational=(2, 3))
    for n in matrices:
        add(str(n), 'multivariate_normal_entropy', [PDArg(n)],
            lambda v: [xf.mvn_entropy(v)])
        df = Pos((), [0.3, 2., 9.], lo=n - 1.)
        df.kind = 'df'
        add(str(n), 'wishart_entropy', [df, PDArg(n)],
            lambda d, v: [xf.wishart_entropy(d[0], v)])
        add(str(n), 'e_log_det_wishart', [df, PDArg(n)],
            lambda d, v: [xf.e_log_det_wishart(d[0], v)])
        add(str(n), 'e_log_inv_wishart_diag', [df, PDArg(n)],
            lambda d, v: xf.e_log_inv_wishart_diag(d[0], v), (n,))
        add(str(n), 'expected_ljk_prior', [Pos((), [0.5, 3.]), df, PDArg(n)],
            lambda k, d, v: [(k[0] - 1.0) * xf.expected_log_det_corr(d[0], v)],
            constant=True, variational=(1, 2))
        add(str(n), 'mvn_prior',
            [Real((n,)), PDArg(n), Real((n,)), PDArg(n)],
            lambda m, i, e, c: [xf.mvn_log_prior(m, i, e, c)], constant=True,
            variational=(2, 3))
        add(str(n), 'dirichlet_prior', [Pos((n,), POS_S), Real((n,))],
            lambda a, e: [jet.sum_((x - 1.0) * y for x, y in zip(a, e))],
            constant=True, variational=(1,))
    for s in columns:
        add(str(s), 'dirichlet_entropy', [Pos(s)],
            lambda a, s=s: [xf.dirichlet_entropy(c)
                            for c in xf.columns(a, s)], s[1:])
        add(str(s), 'get_e_dirichlet', [Pos(s)],
            lambda a, s=s: xf.from_columns(
                [xf.e_dirichlet(c) for c in xf.columns(a, s)]), s)
        add(str(s), 'get_e_log_dirichlet', [Pos(s)],
            lambda a, s=s: xf.from_columns(
                [xf.e_log_dirichlet(c) for c in xf.columns(a, s)]), s)
    for n in rows:
        add(str(n), 'beta_entropy', [Pos((n, 2))],
            lambda t, n=n: [jet.sum_(xf.dirichlet_entropy(t[2 * i:2 * i + 2])
                                     for i in range(n))])
    return out


def check_case(ctx, case, levels, derivatives=True, numbers=None):
    """Value, gradient and Hessian at one combination of levels."""
    flat = [x for v in levels for x in v]
    if numbers is None:
        numbers = [a.number(v) for a, v in zip(case.args, levels)]
    base = None
    if case.constant:
        base = [list(v) for v in levels]
        for i in case.variational:
            base[i] = case.args[i].levels()[0]

    def reference(z):
        parts = case.split(z)
        out = case.reference(*[a.ref(p) for a, p in zip(case.args, parts)])
        if base is not None:
            fixed = [case.args[i].levels()[0] if i in case.variational
                     else parts[i] for i in range(len(parts))]
            off = case.reference(*[a.ref(p)
                                   for a, p in zip(case.args, fixed)])
            out = [x - y for x, y in zip(out, off)]
        return out

    def real(z):
        parts = case.split(z)
        out = case.real(*[a.real(p) for a, p in zip(case.args, parts)])
        if base is not None:
            fixed = [np.array(case.args[i].levels()[0])
                     if i in case.variational else parts[i]
                     for i in range(len(parts))]
            out = out - case.real(*[a.real(p)
                                    for a, p in zip(case.args, fixed)])
        return out

    with inputs_kept(ctx, case.name, *numbers):
        got = case.real(*numbers)
    want = reference(flat)
    if base is not None:
        got = got - case.real(*[a.number(v)
                                for a, v in zip(case.args, base)])
    want_v = np.array([float(w) for w in want])
    if case.shape == ():
        ctx.close(got, want_v, 'value', 1e-8, 1e-9, shape=False)
    else:
        ctx.close(got, want_v.reshape(case.shape), 'value', 1e-8, 1e-9)
    ctx.gstate(case.name, want_v)
    if not derivatives:
        return

    m = len(want)
    w = [0.7 + 0.4 * i for i in range(m)]
    n = len(flat)
    j = jet.dot(w, reference(jet.variables([float(x) for x in flat])))

    def scalar(z):
        return anp.sum(anp.reshape(real(z), (-1,)) * np.array(w))
    z = np.array(flat)
    ctx.close(autograd.grad(scalar)(z), j.grad(), 'gradient', 1e-7, 1e-8)
    ctx.close(autograd.jacobian(autograd.grad(scalar))(z), j.hess(),
              'Hessian', 1e-6, 1e-7)


def case_unit(index, tier):
    def run(ctx):
        case = cases(tier)[index]
        combos = list(itertools.product(*[a.levels() for a in case.args]))
        for k, levels in enumerate(combos):
            with ctx.trace(case.name, list(levels)):
                check_case(ctx, case, levels)
    return run


def aligned(case):
    """Combinations of levels: the k-th of each argument, and its neighbours."""
    levels = [a.levels() for a in case.args]
    for k in range(max(len(v) for v in levels)):
        yield [v[k % len(v)] for v in levels]
        if len(levels) > 1:
            yield [v[(k + i + 1) % len(v)] for i, v in enumerate(levels)]


def large_unit(make, tier, part, parts):
    """Many entries, rows, dimensions."""
    def run(ctx):
        for case in make(tier)[part::parts]:
            n = sum(a.size for a in case.args)
            for k, levels in enumerate(aligned(case)):
                with ctx.trace(case.name, k):
                    check_case(ctx, case, levels, k == 0 and n <= 45)
    return run


def forms_unit(part, parts, tier):
    """The same numbers in arrays of any memory layout, or of whole numbers."""
    def run(ctx):
        every = [c for c in cases(tier) + large_cases(tier)
                 if any(np.ndim(a.number(a.levels()[0])) for a in c.args)]
        for case in every[part::parts]:
            levels = [a.levels()[0] for a in case.args]
            numbers = [a.number(v) for a, v in zip(case.args, levels)]
            for i, x in enumerate(numbers):
                if np.ndim(x) == 0:
                    continue
                for form, a in array_forms(x):
                    with ctx.trace(case.name, i, form):
                        new = list(numbers)
                        new[i] = a
                        check_case(ctx, case, levels, False, new)
            for forms in zip(*[array_forms(x) if np.ndim(x) else
                               [('scalar', x)] * 5 for x in numbers]):
                with ctx.trace(case.name, [f for f, _ in forms]):
                    check_case(ctx, case, levels, False,
                               [a for _, a in forms])
    return run


def whole_unit(tier):
    """Whole numbers, in arrays or not, with or without a decimal point."""
    def run(ctx):
        for case in cases(tier) + large_cases(tier):
            if any(isinstance(a, Probs) for a in case.args):
                continue
            for pick in list(itertools.product((0, 1),
                                               repeat=len(case.args)))[1:]:
                with ctx.trace(case.name, list(pick)):
                    levels, numbers = [], []
                    for i, (a, on) in enumerate(zip(case.args, pick)):
                        v = list(a.levels()[0])
                        if on and isinstance(a, PDArg):
                            v = [9. if r == c else float((r + c) % 2)
                                 for r in range(a.n) for c in range(r + 1)]
                        elif on:
                            low = int(math.ceil(a.lo + 1)) \
                                if isinstance(a, Pos) else -2
                            v = [float(low + (3 * k + i) % 5)
                                 for k in range(len(v))]
                        x = a.number(v)
                        if on:
                            x = int(x) if np.ndim(x) == 0 else x.astype(int)
                        levels.append(v)
                        numbers.append(x)
                    check_case(ctx, case, levels, False, numbers)
    return run


SIZES = [1e-8, 1e-5, 1e-3, 30., 1e3, 1e6]


def magnitudes_unit(tier):
    """Values of very different sizes."""
    def run(ctx):
        scale = {'get_e_lognormal': 20., 'get_var_lognormal': 20.}
        for case in cases(tier):
            if any(isinstance(a, Probs) for a in case.args) or \
                    sum(a.size for a in case.args) > 12:
                continue
            top = scale.get(case.name.split()[0], INF)
            sizes = [x for x in SIZES if x <= top]
            for scales in itertools.product(sizes, repeat=len(case.args)):
                if len(scales) > 2 and len(set(scales)) > 2:
                    continue
                if any(a.kind == 'df' and x < 1e-4
                       for a, x in zip(case.args, scales)):
                    continue    # df - k + 1 is a difference
                with ctx.trace(case.name, list(scales)):
                    levels = []
                    for a, size in zip(case.args, scales):
                        base = a.levels()[-1]
                        # around the size asked for
                        if isinstance(a, Pos):
                            top = max(v - a.lo for v in base)
                            v = [a.lo + (x - a.lo) * size / top for x in base]
                        elif isinstance(a, PDArg):
                            v = [x * size for x in base]
                        else:
                            v = [(x or 0.4) * size for x in base]
                        levels.append(v)
                    check_magnitude(ctx, case, levels)
    return run


def check_magnitude(ctx, case, levels):
    numbers = [a.number(v) for a, v in zip(case.args, levels)]
    got = np.reshape(case.real(*numbers), (-1,))
    want = np.array([float(w) for w in case.reference(
        *[a.ref(v) for a, v in zip(case.args, levels)])])
    lost = 1e-12
    if case.constant:
        # differences in the variational arguments
        moved = [[1.5 * x for x in v] if i in case.variational else v
                 for i, v in enumerate(levels)]
        numbers = [a.number(v) for a, v in zip(case.args, moved)]
        other = np.reshape(case.real(*numbers), (-1,))
        lost = 1e-13 * np.max(np.abs([got, other]))
        got = got - other
        want = want - np.array([float(w) for w in case.reference(
            *[a.ref(v) for a, v in zip(case.args, moved)])])
    df = any(a.kind == 'df' for a in case.args)
    size = max([1.] + [abs(x) for v in levels for x in v])
    ctx.close(got, want, 'value', 1e-7, max(1e-12, lost, 1e-9 * size if df else 0.))


def degenerate_unit(ctx):
    """Probabilities of exactly zero contribute nothing."""
    for rows in itertools.product([(1., 0., 0.), (0., 1., 0.), (.25, 0., .75),
                                   (.5, .25, .25)], repeat=2):
        with ctx.trace(list(rows)):
            p = np.array(rows)
            with inputs_kept(ctx, 'entropy', p):
                got = fun('multinoulli_entropy')(p)
            ctx.close(got, [xf.multinoulli_entropy(r) for r in rows], 'entropy',
                      1e-8, 1e-9)
            ctx.state(rows)


def units(tier):
    out = []
    for i, c in enumerate(cases(tier)):
        out.append((c.name, case_unit(i, tier)))
    for k in range(4):
        out.append(('large %d' % k, large_unit(large_cases, tier, k, 4)))
        out.append(('layout %d' % k, forms_unit(k, 4, tier)))
        if tier != 'quick':
            out.append(('huge %d' % k, large_unit(huge_cases, tier, k, 4)))
    out.append(('whole numbers', whole_unit(tier)))
    out.append(('magnitudes', magnitudes_unit(tier)))
    out.append(('zero probabilities', degenerate_unit))
    return out


def BOUNDS(tier):
    return {
        'functions': '%d combinations of function and shape' % len(cases(tier)),
        'values': 'all combinations of 3-6 levels per argument, from 0.05 to '
                  '120 for positive scalars, 3-4 patterned levels for arrays '
                  'and matrices',
        'large': '%d more with up to 12 entries, 6 dimensions; 2 '
                 'combinations of levels per level' % len(large_cases(tier)),
        'layout, whole numbers': 'each argument in 7 layouts; all choices of '
                                 'arguments in whole numbers',
        'magnitudes': 'all combinations of 1e-8 ... 1e6 for each argument',
        'derivatives': 'gradient and Hessian in all arguments jointly',
    }
