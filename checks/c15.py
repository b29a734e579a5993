"""C15: numerical integration helpers."""
import itertools
import math

import numpy as np
import autograd
import autograd.numpy as anp

from mc import jet, ref
from mc.big import array_forms
from mc.core import inputs_kept
from mc.ref import point, prod

PROPERTY = 'C15'

SHAPES = [(), (1,), (3,), (2, 2), (1, 3), (3, 1), (2, 1, 2)]


def gh(deg):
    return np.polynomial.hermite.hermgauss(deg)


def hermite_nodes(deg):
    """Nodes and weights by Newton's method on the recurrence."""
    xs, ws = gh(deg)
    out_x, out_w = [], []
    for x in xs.tolist():
        for _ in range(3):
            p0, p1 = 0., math.pi ** -0.25
            for j in range(deg):
                p0, p1 = p1, x * math.sqrt(2. / (j + 1)) * p1 - \
                    math.sqrt(j / (j + 1.)) * p0
            x -= p1 / (math.sqrt(2. * deg) * p0)
        out_x.append(x)
        out_w.append(1. / (deg * p0 * p0))
    return out_x, out_w


def nodes(kind):
    """(locations, weights) handed to the code."""
    if isinstance(kind, int):
        return gh(kind)
    return (np.array([0.3, -1.1, 2.2]), np.array([0.7, 0.45, 0.2]))


def levels(shape, tier='quick'):
    n = prod(shape)
    out = []
    for km, ki, s in ((0, 1, 1.), (1, 3, 2.), (3, 0, -1.5), (2, 2, -4.)):
        out.append((point(n, km), [math.exp(s * x) for x in point(n, ki)]))
    return out


def quad(f, m, sd, loc, w):
    return jet.sum_(f(sd * (math.sqrt(2.) * x) + m) * (v / math.sqrt(math.pi))
                    for x, v in zip(loc, w))


def log_expit(x):
    v = jet.value(x)
    if v < -30.:
        return x - jet.log(jet.exp(x) + 1.0)
    return jet.log(jet.exp(x * -1.0) + 1.0) * -1.0


def expit(x):
    return 1.0 / (jet.exp(x * -1.0) + 1.0)


def log1pexp(x):
    return jet.log(jet.exp(x) + 1.0)


def nd(x, shape):
    return np.array(x, dtype=float).reshape(shape)


def normal_moment(k, m, v):
    a, b = 1., m
    if k == 0:
        return 1.
    for j in range(2, k + 1):
        a, b = b, m * b + (j - 1) * v * a
    return b


def polynomials_unit(shape):
    """Exactness for all monomials up to degree 2 deg - 1."""
    def run(ctx):
        from LinearResponseVariationalBayes import ExponentialFamilies as ef
        for deg in range(1, 9):
            loc, w = gh(deg)
            for m, info in levels(shape)[:3]:
                a, b = nd(m, shape), nd(info, shape)
                for k in range(2 * deg):
                    with ctx.trace(shape, deg, k, m, info):
                        with inputs_kept(ctx, 'expectation', a, b, loc, w):
                            got = ef.get_e_fun_normal(
                                a, b, loc, w, lambda x: x ** k)
                        ctx.close(got, nd([normal_moment(k, x, 1. / y)
                                           for x, y in zip(m, info)], shape),
                                  'moment %d' % k, 1e-7, 1e-8)
                        ctx.state(shape, deg, k, m)
    return run


FUNS = [
    ('cos', anp.cos, math.cos),
    ('exp', lambda x: anp.exp(0.5 * x), lambda x: math.exp(0.5 * x)),
    ('abs', anp.abs, abs),
    ('step', lambda x: 1. * (x > 0.2), lambda x: 1. * (x > 0.2)),
    ('constant', lambda x: 0. * x + 2.5, lambda x: 2.5),
    ('kinked', lambda x: anp.maximum(x, 0.) - 0.3 * x,
     lambda x: max(x, 0.) - 0.3 * x),
]


def functions_unit(shape, tier):
    def run(ctx):
        from LinearResponseVariationalBayes import ExponentialFamilies as ef
        for kind in [1, 2, 3, 5, 20, 'other']:
            loc, w = nodes(kind)
            for m, info in levels(shape):
                a, b = nd(m, shape), nd(info, shape)
                for name, f, g in FUNS:
                    with ctx.trace(shape, kind, name, m, info):
                        with inputs_kept(ctx, 'expectation', a, b, loc, w):
                            got = ef.get_e_fun_normal(a, b, loc, w, f)
                        ctx.close(got, nd([
                            quad(g, x, 1. / math.sqrt(y), loc.tolist(),
                                 w.tolist())
                            for x, y in zip(m, info)], shape), name)
                        ctx.state(shape, kind, name, m)
    return run


def check(ctx, name, real, reference, args, shape, derivative=True):
    """Value and, at moderate points, gradient and Hessian; real and reference
    take arrays / flat lists."""
    arrays = [nd(a, shape) for a in args]
    with inputs_kept(ctx, name, *arrays):
        got = real(*arrays)
    want = reference(*args)
    if isinstance(want, list):
        ctx.close(got, nd(want, shape), name, 1e-8, 1e-9)
    else:
        ctx.close(got, want, name, 1e-8, 1e-9, shape=False)
    ctx.gstate(name, shape, want)
    if not derivative:
        return
    n = prod(shape)
    flat = [x for a in args for x in a]
    z = jet.variables([float(x) for x in flat])
    parts = [z[i * n:(i + 1) * n] for i in range(len(args))]
    out = reference(*parts)
    if isinstance(out, list):
        wts = [0.6 + 0.3 * i for i in range(n)]
        out = jet.dot(wts, out)
    else:
        wts = [1.]

    def scalar(y):
        return anp.sum(anp.reshape(real(*[
            anp.reshape(y[i * n:(i + 1) * n], shape)
            for i in range(len(args))]), (-1,)) * np.array(wts))
    y = np.array(flat)
    ctx.close(autograd.grad(scalar)(y), out.grad(), 'gradient of ' + name,
              1e-7, 1e-8)
    ctx.close(autograd.jacobian(autograd.grad(scalar))(y), out.hess(),
              'Hessian of ' + name, 1e-6, 1e-7)


def logit_unit(shape, tier):
    def run(ctx):
        from LinearResponseVariationalBayes import ExponentialFamilies as ef
        for kind in [1, 2, 4, 9, 'other']:
            loc, w = nodes(kind)
            l, v = loc.tolist(), w.tolist()

            def each(f):
                return lambda m, i: [quad(f, a, 1.0 / jet.sqrt(b), l, v)
                                     for a, b in zip(m, i)]
            for m, info in levels(shape):
                with ctx.trace(shape, kind, m, info):
                    check(ctx, 'e_logitnormal',
                          lambda a, b: ef.get_e_logitnormal(a, b, loc, w),
                          each(expit), (m, info), shape)
                    check(ctx, 'e_log_logitnormal',
                          lambda a, b: ef.get_e_log_logitnormal(
                              a, b, loc, w)[0],
                          each(log_expit), (m, info), shape)
                    if kind == 'other':
                        continue
                    one_minus = each(lambda x: log_expit(x * -1.0))
                    check(ctx, 'e_log_1m_logitnormal',
                          lambda a, b: ef.get_e_log_logitnormal(
                              a, b, loc, w)[1], one_minus, (m, info), shape)
                    for alpha in (0.4, 1., 3.):
                        check(ctx, 'dp prior',
                              lambda a, b: ef.get_e_dp_prior_logitnorm_approx(
                                  alpha, a, b, loc, w),
                              lambda a, b: [(alpha - 1.) * x
                                            for x in one_minus(a, b)],
                              (m, info), shape)
    return run


def tails_unit(ctx):
    """No overflow, whatever the mean and the spread."""
    from LinearResponseVariationalBayes import ExponentialFamilies as ef
    means = [-1e5, -3e3, -720., -705., -101., -99.5, -60., -20., 0., 20., 60.,
             99.5, 101., 705., 720., 3e3, 1e5]
    for sd in (1e-3, 0.3, 2., 40., 400.):
        for kind in (1, 4, 9):
            loc, w = nodes(kind)
            l, v = loc.tolist(), w.tolist()
            with ctx.trace(sd, kind):
                m = np.array(means)
                info = np.full(len(means), 1. / (sd * sd))
                with inputs_kept(ctx, 'tails', m, info):
                    one, two = ef.get_e_log_logitnormal(m, info, loc, w)
                    p = ef.get_e_logitnormal(m, info, loc, w)
                f = stable_log_expit
                ctx.close(one, [quad(f, a, sd, l, v) for a in means],
                          'E log', 1e-8, 1e-6)
                ctx.close(two, [quad(lambda x: f(-x), a, sd, l, v)
                                for a in means], 'E log 1 -', 1e-8, 1e-6)
                ctx.close(p, [quad(lambda x: math.exp(f(x)), a, sd, l, v)
                              for a in means], 'E', 1e-8, 1e-9)
                ctx.state(sd, kind)


def tail_derivatives_unit(ctx):
    """Values and derivatives wherever the nodes lie."""
    from LinearResponseVariationalBayes import ExponentialFamilies as ef
    from LinearResponseVariationalBayes import Modeling as mo
    means = [-1e5, -3e3, -900., -715., -705., -101., -99.5, -40., -11., -9.,
             0., 9., 11., 40., 99.5, 101., 320., 480., 520., 705., 715., 900.,
             3e3, 1e5]
    shape = (1,)
    for m in means:
        for sd in (1e-3, 0.3, 2., 40., 400.):
            for kind in (1, 4, 9):
                loc, w = nodes(kind)
                l, v = loc.tolist(), w.tolist()
                info = [1. / (sd * sd)]

                def each(f):
                    return lambda a, b: [quad(f, x, 1.0 / jet.sqrt(y), l, v)
                                         for x, y in zip(a, b)]

                def each_sd(f):
                    return lambda a, b: [quad(f, x, y, l, v)
                                         for x, y in zip(a, b)]
                with ctx.trace(m, sd, kind):
                    far(ctx, 'E log', lambda a, b: ef.get_e_log_logitnormal(
                        a, b, loc, w)[0], each(safe_log_expit), m, info[0])
                    far(ctx, 'E log 1 -',
                        lambda a, b: ef.get_e_log_logitnormal(a, b, loc, w)[1],
                        each(lambda x: safe_log_expit(x * -1.0)), m, info[0])
                    far(ctx, 'logistic term, all',
                        lambda a, b: mo.get_e_logistic_term_guass_hermite(
                            a, b, loc, w), each_sd(safe_log1pexp), m, sd)
                    far(ctx, 'logistic term, each',
                        lambda a, b: mo.get_e_logistic_term_guass_hermite(
                            a, b, loc, w, aggregate_all=False),
                        each_sd(safe_log1pexp), m, sd)
                    std = mo.get_standard_draws(kind)
                    d = std.tolist()
                    for y in (0., 1.):
                        far(ctx, 'logistic term, draws',
                            lambda a, b: mo.get_e_logistic_term(
                                np.array([y]), a, b, std),
                            lambda a, b: [a[0] * y - jet.sum_(
                                safe_log1pexp(b[0] * z + a[0])
                                for z in d) * (1. / len(d))], m, sd)
                ctx.state(m, sd, kind)


def far(ctx, name, real, reference, m, s):
    """A function of a mean and a spread."""
    got = np.reshape(real(np.array([m]), np.array([s])), (-1,))[0]
    j, = reference(*[[z] for z in jet.variables([m, s])])
    size = 1e-9 * (1. + abs(m))
    ctx.close(got, float(jet.value(j)), name, 1e-8, size)

    def scalar(z):
        return anp.sum(real(z[:1], z[1:]))
    z = np.array([m, s])
    # in units of the mean and of the spread
    units_ = np.array([1., s])
    ctx.close(autograd.grad(scalar)(z) * units_, np.array(j.grad()) * units_,
              'gradient of ' + name, 1e-6, 1e-9 * (1. + abs(m)))
    ctx.close(autograd.jacobian(autograd.grad(scalar))(z) *
              np.outer(units_, units_),
              np.array(j.hess()) * np.outer(units_, units_),
              'Hessian of ' + name, 1e-6, 1e-8 * (1. + abs(m)))


def safe_log1pexp(x):
    """log(1 + exp(x)) without overflow."""
    if float(jet.value(x)) > 0.:
        return x + jet.log(jet.exp(x * -1.0) + 1.0)
    return jet.log(jet.exp(x) + 1.0)


def safe_log_expit(x):
    return safe_log1pexp(x * -1.0) * -1.0


def growing_unit(ctx):
    """Many nodes, and functions which are large far out."""
    from LinearResponseVariationalBayes import ExponentialFamilies as ef
    for deg in list(range(9, 41)) + [50, 60]:
        loc, w = gh(deg)
        l, v = loc.tolist(), w.tolist()
        for rate in (0., 0.5, 2., -3.):
            for m, sd in ((0.3, 0.5), (-1., 2.), (4., 1.)):
                with ctx.trace(deg, rate, m, sd):
                    got = ef.get_e_fun_normal(
                        np.array([m]), np.array([1. / (sd * sd)]), loc, w,
                        lambda x: np.exp(rate * x))
                    ctx.close(got, [quad(lambda x: math.exp(rate * x), m, sd,
                                         l, v)], 'exponential', 1e-8, 1e-12)
                    if deg > 30:
                        ctx.close(got, [math.exp(rate * m + 0.5 * (
                            rate * sd) ** 2)], 'exact', 1e-3)
                    k = deg + deg % 2
                    got = ef.get_e_fun_normal(
                        np.array([m]), np.array([1. / (sd * sd)]), loc, w,
                        lambda x: ((x - m) / sd) ** k)
                    ctx.close(got, [normal_moment(k, 0., 1.)], 'moment', 1e-5)
                    ctx.state(deg, rate, m, sd)


def large_unit(shape):
    """Many variables, and any memory layout of the arrays."""
    def run(ctx):
        from LinearResponseVariationalBayes import ExponentialFamilies as ef
        from LinearResponseVariationalBayes import Modeling as mo
        m, info = levels(shape)[0]
        y = [float((3 * i) % 2) for i in range(prod(shape))]
        rule = gh(7)
        std = mo.get_standard_draws(9)
        arrays = [nd(m, shape), nd(info, shape), rule[0], rule[1],
                  nd(y, shape), std]
        l, v, d = rule[0].tolist(), rule[1].tolist(), std.tolist()
        spread = [1. / math.sqrt(b) for b in info]
        want = {
            'any': nd([quad(math.cos, a, b, l, v)
                       for a, b in zip(m, spread)], shape),
            'expit': nd([quad(expit, a, b, l, v)
                         for a, b in zip(m, spread)], shape),
            'log': nd([quad(log_expit, a, b, l, v)
                       for a, b in zip(m, spread)], shape),
            'log 1 -': nd([quad(lambda x: log_expit(-x), a, b, l, v)
                           for a, b in zip(m, spread)], shape),
            'draws': sum(a * b for a, b in zip(y, m)) - sum(
                log1pexp(a + b * z) for a, b in zip(m, info)
                for z in d) / len(d),
            'each': nd([quad(log1pexp, a, b, l, v)
                        for a, b in zip(m, info)], shape),
            'density': nd([-0.5 * (b * (c - a) ** 2 - math.log(b) +
                                   math.log(2 * math.pi))
                           for a, b, c in zip(m, info, y)], shape)}
        want['all'] = want['each'].sum()

        def check_all(a, b, x, w, yy, s):
            with inputs_kept(ctx, 'integration', a, b, x, w, yy, s):
                got = {'any': ef.get_e_fun_normal(a, b, x, w, anp.cos),
                       'expit': ef.get_e_logitnormal(a, b, x, w),
                       'draws': mo.get_e_logistic_term(yy, a, b, s),
                       'each': mo.get_e_logistic_term_guass_hermite(
                           a, b, x, w, aggregate_all=False),
                       'all': mo.get_e_logistic_term_guass_hermite(a, b, x, w),
                       'density': mo.univariate_normal_log_prob(yy, a, b)}
                got['log'], got['log 1 -'] = ef.get_e_log_logitnormal(
                    a, b, x, w)
                dp = ef.get_e_dp_prior_logitnorm_approx(2.5, a, b, x, w)
            for k in sorted(want):
                ctx.close(got[k], want[k], k, 1e-8, 1e-9)
            ctx.close(dp, 1.5 * want['log 1 -'], 'dp prior', 1e-8, 1e-9)
        for k in range(6):
            for form, a in array_forms(arrays[k]):
                with ctx.trace(shape, k, form):
                    new = list(arrays)
                    new[k] = a
                    check_all(*new)
                    ctx.state(shape, k, form)
        for forms in zip(*[array_forms(a) for a in arrays]):
            with ctx.trace(shape, [f for f, _ in forms]):
                check_all(*[a for _, a in forms])
        with ctx.trace(shape, 'whole number responses'):
            check_all(arrays[0], arrays[1], arrays[2], arrays[3],
                      arrays[4].astype(int), arrays[5])
    return run


def stable_log_expit(x):
    return min(x, 0.) - math.log1p(math.exp(-abs(x)))


def logistic_unit(shape, tier):
    def run(ctx):
        from LinearResponseVariationalBayes import Modeling as mo
        n = prod(shape)
        for draws in (1, 2, 5, 'other'):
            std = np.array([0.3, -1.1, 2.2, 0.8]) if draws == 'other' else \
                mo.get_standard_draws(draws)
            d = std.tolist()

            def reference(y, m, s):
                return jet.dot(y, m) - jet.sum_(
                    log1pexp(b * z + a) for a, b in zip(m, s)
                    for z in d) * (1. / len(d))
            for m, sd in levels(shape)[:3]:
                for y in ([1.] * n, [float(i % 2) for i in range(n)],
                          point(n, 1)):
                    with ctx.trace('draws', shape, draws, m, sd, y):
                        check(ctx, 'logistic term',
                              lambda a, b, c: mo.get_e_logistic_term(
                                  a, b, c, std), reference, (y, m, sd), shape)
        for kind in [1, 3, 7, 'other']:
            loc, w = nodes(kind)
            l, v = loc.tolist(), w.tolist()

            def each(m, s):
                return [quad(log1pexp, a, b, l, v) for a, b in zip(m, s)]
            for m, sd in levels(shape):
                with ctx.trace('hermite', shape, kind, m, sd):
                    f = mo.get_e_logistic_term_guass_hermite
                    check(ctx, 'all', lambda a, b: f(a, b, loc, w),
                          lambda a, b: jet.sum_(each(a, b)), (m, sd), shape)
                    check(ctx, 'all, said',
                          lambda a, b: f(a, b, loc, w, aggregate_all=True),
                          lambda a, b: jet.sum_(each(a, b)), (m, sd), shape,
                          False)
                    check(ctx, 'each',
                          lambda a, b: f(a, b, loc, w, aggregate_all=False),
                          each, (m, sd), shape)
    return run


def draws_unit(ctx):
    """Standard draws are the equally spaced interior quantiles."""
    from LinearResponseVariationalBayes import Modeling as mo
    for n in list(range(1, 41)) + [100, 999]:
        with ctx.trace(n):
            got = mo.get_standard_draws(n)
            for again in range(3):
                ctx.true(len(got) == n, 'number of draws')
                ctx.close([0.5 * math.erfc(-x / math.sqrt(2.))
                           for x in np.array(got).tolist()],
                          [(i + 1.) / (n + 1) for i in range(n)], 'quantiles')
                # the draws belong to the caller
                if isinstance(got, np.ndarray) and got.flags.writeable:
                    got[...] = got[::-1] * (3. - again) + 1.
                got = mo.get_standard_draws(n)
            ctx.state(n)


def log_prob_unit(ctx):
    from LinearResponseVariationalBayes import Modeling as mo
    for shape in SHAPES:
        n = prod(shape)
        for k, (m, info) in enumerate(levels(shape)):
            for j in (0, 2, 4):
                with ctx.trace(shape, k, j):
                    check(ctx, 'log prob', mo.univariate_normal_log_prob,
                          lambda u, a, b: [
                              ((x - y) * (x - y) * i - jet.log(i) +
                               math.log(2 * math.pi)) * -0.5
                              for x, y, i in zip(u, a, b)],
                          (point(n, j), m, info), shape)
                    x, y, i = 0.3 + j, m[0], info[0]
                    ctx.close(mo.univariate_normal_log_prob(x, y, i),
                              -0.5 * (i * (x - y) ** 2 - math.log(i) +
                                      math.log(2 * math.pi)), 'numbers')


def rule_unit(ctx):
    """The rules handed to the code are the Gauss-Hermite rules."""
    for deg in range(1, 21):
        with ctx.trace(deg):
            x, w = hermite_nodes(deg)
            a, b = gh(deg)
            ctx.close(a, x, 'nodes', 1e-9, 1e-10)
            ctx.close(b, w, 'weights', 1e-8, 1e-12)


def units(tier):
    out = []
    shapes = SHAPES if tier == 'quick' else SHAPES + [(5,), (3, 2), (2, 2, 2)]
    for s in shapes:
        out.append(('polynomials %s' % (s,), polynomials_unit(s)))
        out.append(('functions %s' % (s,), functions_unit(s, tier)))
        out.append(('logit normal %s' % (s,), logit_unit(s, tier)))
        out.append(('logistic %s' % (s,), logistic_unit(s, tier)))
    for s in [(3,), (17,), (4, 5), (2, 3, 4), (1, 9), (2, 2, 2, 2)]:
        out.append(('large %s' % (s,), large_unit(s)))
    out += [('tails', tails_unit), ('growing functions', growing_unit),
            ('derivatives in the tails', tail_derivatives_unit), ('standard draws', draws_unit),
            ('normal log density', log_prob_unit), ('rules', rule_unit)]
    return out


def BOUNDS(tier):
    return {
        'shapes': '%d shapes' % len(SHAPES if tier == 'quick' else SHAPES * 1),
        'rules': 'Gauss-Hermite with 1-9 and 20 nodes, one other rule; 9-40, '
                 '50, 60 nodes for exponentials and high moments',
        'tails': 'values, gradients and Hessians at 24 means from -1e5 to 1e5 '
                 'x 5 spreads x 3 rules',
        'large': 'up to 24 variables; 7 memory layouts of each argument',
        'polynomials': 'all monomials up to degree 2 n - 1, n = 1..8',
        'functions': '%d' % len(FUNS),
        'standard draws': 'all numbers up to 40, 100, 999; again after '
                          'the caller has overwritten them',
        'derivatives': 'gradient and Hessian at every moderate point',
    }
