"""C16: conjugate regression updates."""
import itertools

import autograd
import autograd.numpy as anp
import numpy as np

from mc import jet
from mc.big import array_forms
from mc.core import inputs_kept
from mc.ref import point, prod

PROPERTY = 'C16'

BATCHES = [(), (1,), (2,), (3,), (2, 2), (1, 3), (2, 1, 2)]
EXTRAS = [(), (1,), (3,), (2, 2), (2, 1, 2), (1, 2, 2, 1)]


def numbers(shape, which, scale=1.):
    """Distinct, well spread values."""
    n = prod(shape)
    return np.array([scale * x for x in wave(n, which)]).reshape(shape)


def wave(n, which):
    return [((k * 37 + which * 11 + (k * k) % 7 * 5) % 41 - 20) / 13. +
            0.01 * which for k in range(n)]


def spd(n, which, batch=()):
    """Symmetric positive definite matrices, all different."""
    out = np.zeros(batch + (n, n))
    for b, idx in enumerate(itertools.product(*[range(k) for k in batch])):
        a = numbers((n, n), which + 3 * b, 0.3)
        m = a.dot(a.T)
        for i in range(n):
            m[i, i] += 1. + 0.2 * i + 0.1 * b
        out[idx] = m
    return out


def indices(batch):
    return list(itertools.product(*[range(k) for k in batch]))


def lists(a):
    return np.asarray(a, dtype=float).tolist()


def t_mul(x1, x2):
    return jet.matmul(jet.transpose(x1), x2)


def extra_rows(y, idx, extra):
    """All observation vectors of a batch."""
    return [lists(y[idx + e]) for e in indices(extra)]


def natural(y, x, info, extra, idx):
    """(first, second) natural parameter of one batch: plain loops."""
    xs = lists(x[idx])
    s = len(xs)
    if np.isscalar(info):
        w = [[float(info) if i == j else 0. for j in range(s)]
             for i in range(s)]
    else:
        w = lists(info[idx])
    rows = extra_rows(y, idx, extra)
    r = len(xs[0])
    first = [0.] * r
    second = [[0.] * r for _ in range(r)]
    xwx = t_mul(xs, jet.matmul(w, xs))
    for row in rows:
        wy = jet.matvec(w, row)
        for i in range(r):
            first[i] += sum(xs[k][i] * wy[k] for k in range(s))
            for j in range(r):
                second[i][j] -= 0.5 * xwx[i][j]
    return first, second


def natural_prior(m, p, idx):
    mm, pp = lists(m[idx]), lists(p[idx])
    return jet.matvec(pp, mm), [[-0.5 * v for v in row] for row in pp]


def gaussian(first, second):
    info = [[-2. * v for v in row] for row in second]
    sol = jet.eliminate(info, [[v] for v in first])[0]
    return [v[0] for v in sol], info


def gather(batch, f):
    """f(idx) -> tuple of nested lists; arrays over the batch."""
    parts = [f(idx) for idx in indices(batch)]
    return [np.array([p[k] for p in parts]).reshape(
        batch + np.array(parts[0][k]).shape) for k in range(len(parts[0]))]


def sizes(tier):
    return [(1, 1), (2, 1), (2, 2), (3, 2), (4, 3)] if tier == 'quick' else \
        [(1, 1), (2, 1), (3, 1), (2, 2), (3, 2), (5, 2), (3, 3), (4, 3)]


def matrix_product(ctx, ru, batch, s, r, t):
    a, b = numbers(batch + (s, r), 1), numbers(batch + (s, t), 2)
    with inputs_kept(ctx, 'product', a, b):
        got = ru.mat_mul_last2dims(a, b)
    want, = gather(batch, lambda i: (t_mul(lists(a[i]), lists(b[i])),))
    ctx.close(got, want, 'matrix product')
    ctx.state(batch, s, r, t)


def products(ctx, ru, batch, extra, s, r):
    x = numbers(batch + (s, r), 1)
    y = numbers(batch + extra + (s,), 2)
    with inputs_kept(ctx, 'product', x, y):
        got = ru.matvec_mul_last2dims(x, y)
    want, = gather(batch, lambda i: (jet.matvec(
        jet.transpose(lists(x[i])),
        [sum(c) for c in zip(*extra_rows(y, i, extra))]),))
    ctx.close(got, want, 'matrix vector product')
    ctx.state(batch, extra, s, r)


def products_unit(batch):
    def run(ctx):
        from LinearResponseVariationalBayes import regression_utils as ru
        for s, r, t in itertools.product((1, 2, 3), repeat=3):
            with ctx.trace(batch, s, r, t):
                matrix_product(ctx, ru, batch, s, r, t)
        for s, r in itertools.product((1, 2, 3), repeat=2):
            for extra in EXTRAS:
                with ctx.trace(batch, extra, s, r):
                    products(ctx, ru, batch, extra, s, r)
    return run


def posterior_unit(batch, extra, tier):
    def run(ctx):
        from LinearResponseVariationalBayes import regression_utils as ru
        for s, r in sizes(tier):
            for which in (0, 1) if tier == 'quick' else range(4):
                x = numbers(batch + (s, r), which)
                for i in range(min(s, r)):
                    x[..., i, i] += 4.
                y = numbers(batch + extra + (s,), which + 2)
                m = numbers(batch + (r,), which + 4)
                p = spd(r, which, batch)
                for info in (1.7, 1, 0.2, spd(s, which + 5, batch)):
                    label = info if np.isscalar(info) else 'matrix'
                    with ctx.trace(batch, extra, s, r, which, label):
                        one(ctx, ru, batch, extra, x, y, info, m, p)
    return run


def one(ctx, ru, batch, extra, x, y, info, m, p):
    n1, n2 = gather(batch, lambda i: natural(y, x, info, extra, i))
    q1, q2 = gather(batch, lambda i: natural_prior(m, p, i))
    with inputs_kept(ctx, 'regression', x, y, info, m, p):
        a, b = ru.get_nat_params_from_likelihood(y, x, info)
        c, d = ru.get_nat_params_from_prior(m, p)
        e, f = ru.get_mvn_from_nat_params(n1 + q1, n2 + q2)
        g, h = ru.get_posterior_regression_coefficients(y, x, info, m, p)
        beta = ru.get_regression_coefficients(y, x, info)
    ctx.close(a, n1, 'first natural parameter')
    ctx.close(b, n2, 'second natural parameter')
    ctx.close(c, q1, 'first natural parameter of the prior')
    ctx.close(d, q2, 'second natural parameter of the prior')
    mean, prec = gather(batch, lambda i: gaussian(
        lists(n1[i] + q1[i]), lists(n2[i] + q2[i])))
    ctx.close(e, mean, 'mean', 1e-6)
    ctx.close(f, prec, 'information')
    ctx.close(g, mean, 'posterior mean', 1e-6)
    ctx.close(h, prec, 'posterior information')
    ctx.state(batch, extra, x.shape, mean)
    ls, _ = gather(batch, lambda i: gaussian(lists(n1[i]), lists(n2[i])))
    ctx.close(beta, ls, 'regression coefficients', 1e-6)


def patterned(n, pattern, which):
    """Positive definite, with zeros where the pattern says."""
    m = np.diag([2. + 0.5 * i + 0.1 * which for i in range(n)])
    pairs = list(itertools.combinations(range(n), 2))
    for (i, j), on in zip(pairs, pattern):
        if on:
            m[i, j] = m[j, i] = 0.3 + 0.1 * i - 0.15 * j
    return m


def patterns_unit(n, tier):
    """Every pattern of zeros in the information of the prior and of the
    observations, alone and next to another matrix in the batch."""
    def run(ctx):
        from LinearResponseVariationalBayes import regression_utils as ru
        pats = list(itertools.product((0, 1), repeat=n * (n - 1) // 2))
        for k, pat in enumerate(pats):
            other = pats[(k * 5 + 3) % len(pats)]
            for batch in ((), (2,), (1,)):
                with ctx.trace(n, pat, batch):
                    prior = np.zeros(batch + (n, n))
                    info = np.zeros(batch + (n, n))
                    for b in indices(batch):
                        second = bool(b) and b[0] == 1
                        prior[b] = patterned(n, other if second else pat, k)
                        info[b] = patterned(n, pat if second else other, 2)
                    x = numbers(batch + (n, n), 1)
                    for i in range(n):
                        x[..., i, i] += 4.
                    one(ctx, ru, batch, (), x, numbers(batch + (n,), 2), info,
                        numbers(batch + (n,), 4), prior)
                    if n > 1:       # fewer regressors than observations
                        x = x[..., :, :n - 1]
                        one(ctx, ru, batch, (2,), x,
                            numbers(batch + (2, n), 2), info,
                            numbers(batch + (n - 1,), 4),
                            prior[..., :n - 1, :n - 1].copy())
        # zeros in the data
        for zero in itertools.product((0, 1), repeat=2 * n):
            with ctx.trace(n, 'zeros', zero):
                x = numbers((n, n), 3) + 4. * np.eye(n)
                y = numbers((n,), 2)
                for i in range(n):
                    if zero[i]:
                        y[i] = 0.
                    if zero[n + i] and n > 1:
                        x[i, (i + 1) % n] = 0.
                m = np.zeros(n)
                m[:] = [float(v) for v in zero[:n]]
                one(ctx, ru, (), (), x, y, 0.8, m, spd(n, 1))
    return run


def magnitudes_unit(tier):
    """Units of measurement: responses, regressors and information may have
    any magnitude, in each batch its own."""
    def run(ctx):
        from LinearResponseVariationalBayes import regression_utils as ru
        n = 2
        units_ = [1e-2, 1., 1e2] if tier == 'quick' else \
            [1e-3, 1e-2, 1., 1e2, 1e3]
        for units1 in itertools.product(units_, repeat=n):
            for units2 in ((1., 1.), (1e2, 1e-2)):
                d = np.array([units1, units2])
                with ctx.trace('regressor units', d):
                    base = spd(n, 1, (2,))
                    mean = numbers((2, n), 4)
                    info = base * d[:, :, None] * d[:, None, :]
                    first = np.array([base[b].dot(mean[b]) * d[b]
                                      for b in range(2)])
                    g, h = ru.get_mvn_from_nat_params(first, -0.5 * info)
                    ctx.close(g * d, mean, 'mean', 1e-6)
                    ctx.close(h, info, 'information')
                    n1, n2 = ru.get_nat_params_from_prior(mean / d, info)
                    ctx.close(n1 / d, first / d, 'natural parameter')
                    ctx.close(n2, -0.5 * info, 'natural parameter')
                    # x in other units
                    x = numbers((2, 3, n), 2)
                    x[:, 0, 0] += 4.
                    x[:, 1, 1] += 4.
                    y = numbers((2, 3), 3)
                    want = gather((2,), lambda i: gaussian(*[
                        (np.array(u) + np.array(v)).tolist() for u, v in zip(
                            natural(y, x, 0.7, (), i),
                            natural_prior(mean, base, i))]))
                    g, h = ru.get_posterior_regression_coefficients(
                        y, x * d[:, None, :], 0.7, mean / d, info)
                    ctx.close(g * d, want[0], 'posterior mean', 1e-6)
                    ctx.close(h / d[:, :, None] / d[:, None, :], want[1],
                              'posterior information')
                    beta = ru.get_regression_coefficients(
                        y, x * d[:, None, :], 0.7)
                    ls, _ = gather((2,), lambda i: gaussian(
                        *natural(y, x, 0.7, (), i)))
                    ctx.close(beta * d, ls, 'coefficients', 1e-6)
                    ctx.state('units', d)
        for scale, batch in itertools.product(
                (1e-100, 1e-12, 1e-6, 1e-3, 1e3, 1e6, 1e12, 1e100),
                ((), (1,), (2,))):
            x = numbers(batch + (3, n), 2)
            x[..., 0, 0] += 4.
            x[..., 1, 1] += 4.
            y, m = numbers(batch + (3,), 3), numbers(batch + (n,), 4)
            p, w = spd(n, 1, batch), spd(3, 2, batch)
            want = gather(batch, lambda i: gaussian(*[
                (np.array(u) + np.array(v)).tolist() for u, v in zip(
                    natural(y, x, w, (), i), natural_prior(m, p, i))]))
            with ctx.trace('information units', scale, batch):
                g, h = ru.get_posterior_regression_coefficients(
                    y, x, w * scale, m, p * scale)
                ctx.close(g, want[0], 'posterior mean', 1e-6)
                ctx.close(h / scale, want[1], 'posterior information')
            with ctx.trace('response units', scale, batch):
                g, h = ru.get_posterior_regression_coefficients(
                    y * scale, x, w, m * scale, p)
                ctx.close(g / scale, want[0], 'posterior mean', 1e-6)
                ctx.close(h, want[1], 'posterior information')
            ctx.state(scale, batch)
        # nearly collinear
        for gap in (1e-2, 1e-4, 1e-6):
            for sign in (1., -1.):
                with ctx.trace('collinear', gap, sign):
                    info = np.array([[1., sign * (1. - gap)],
                                     [sign * (1. - gap), 1.]])
                    mean = np.array([0.7, -1.1])
                    g, h = ru.get_mvn_from_nat_params(
                        info.dot(mean), -0.5 * info)
                    ctx.close(g, mean, 'mean', 1e-6)
                    ctx.close(h, info, 'information')
    return run


def portions_unit(batch, tier):
    """All at once or in portions, in any order."""
    def run(ctx):
        from LinearResponseVariationalBayes import regression_utils as ru
        s, r = 4, 2
        x = numbers(batch + (s, r), 1)
        for i in range(r):
            x[..., i, i] += 4.
        m, p = numbers(batch + (r,), 4), spd(r, 1, batch)
        for extra in [(), (3,)]:
            y = numbers(batch + extra + (s,), 3)
            want = gather(batch, lambda i: gaussian(*[
                (np.array(u) + np.array(v)).tolist() for u, v in zip(
                    natural(y, x, 0.7, extra, i), natural_prior(m, p, i))]))
            for cuts in itertools.chain.from_iterable(
                    itertools.combinations(range(1, s), k) for k in range(s)):
                ends = (0,) + cuts + (s,)
                parts = list(zip(ends[:-1], ends[1:]))
                for order in itertools.permutations(parts):
                    with ctx.trace(batch, extra, 'rows', list(order)):
                        mm, pp = m, p
                        for lo, hi in order:
                            mm, pp = ru.get_posterior_regression_coefficients(
                                y[..., lo:hi], x[..., lo:hi, :], 0.7, mm, pp)
                        ctx.close(mm, want[0], 'mean', 1e-6)
                        ctx.close(pp, want[1], 'information', 1e-6)
                        ctx.state(batch, extra, order)
        # portions of repeated observations with the same regressors
        y = numbers(batch + (3, s), 3)
        info = spd(s, 6, batch)
        want = gather(batch, lambda i: gaussian(*[
            (np.array(u) + np.array(v)).tolist() for u, v in zip(
                natural(y, x, info, (3,), i), natural_prior(m, p, i))]))
        for cuts in [(), (1,), (2,), (1, 2)]:
            ends = (0,) + cuts + (3,)
            for order in itertools.permutations(zip(ends[:-1], ends[1:])):
                with ctx.trace(batch, 'repetitions', list(order)):
                    mm, pp = m, p
                    for lo, hi in order:
                        yy = y[..., lo:hi, :]
                        if hi == lo + 1:
                            yy = y[..., lo, :]
                        mm, pp = ru.get_posterior_regression_coefficients(
                            yy, x, info, mm, pp)
                    ctx.close(mm, want[0], 'mean', 1e-6)
                    ctx.close(pp, want[1], 'information', 1e-6)
                    ctx.state(batch, order)
    return run


def independence_unit(batch):
    """Changing the data of one batch changes the results of that batch."""
    def run(ctx):
        from LinearResponseVariationalBayes import regression_utils as ru
        s, r = 3, 2
        for extra in [(), (2,)]:
            for kind in ('scalar', 'matrix'):
                def solve(y, x, info, m, p):
                    g, h = ru.get_posterior_regression_coefficients(
                        y, x, info, m, p)
                    return np.array(g), np.array(h)
                args = [numbers(batch + extra + (s,), 3),
                        numbers(batch + (s, r), 1),
                        0.7 if kind == 'scalar' else spd(s, 5, batch),
                        numbers(batch + (r,), 4), spd(r, 1, batch)]
                g0, h0 = solve(*args)
                for idx in indices(batch):
                    for which in range(5):
                        if which == 2 and kind == 'scalar':
                            continue
                        with ctx.trace(batch, extra, kind, list(idx), which):
                            new = [a.copy() if isinstance(a, np.ndarray)
                                   else a for a in args]
                            new[which][idx] = new[which][idx] * 1.6
                            g, h = solve(*new)
                            for j in indices(batch):
                                if j != idx:
                                    ctx.close(g[j], g0[j], 'another mean')
                                    ctx.close(h[j], h0[j],
                                              'another information')
                            want = natural(new[0], new[1], new[2], extra, idx)
                            pr = natural_prior(new[3], new[4], idx)
                            mean, prec = gaussian(*[
                                (np.array(u) + np.array(v)).tolist()
                                for u, v in zip(want, pr)])
                            ctx.close(g[idx], mean, 'mean', 1e-6)
                            ctx.close(h[idx], prec, 'information', 1e-6)
                            ctx.state(batch, extra, kind, idx, which)
    return run


def large_unit(tier):
    """Many observations, regressors, repetitions and batches."""
    def run(ctx):
        from LinearResponseVariationalBayes import regression_utils as ru
        cases = [((), (), 9, 6), ((), (7,), 12, 5), ((6,), (), 5, 3),
                 ((5,), (4,), 6, 4), ((3, 4), (2,), 3, 2), ((), (), 40, 2),
                 ((2, 2, 2), (3,), 4, 2), ((2,), (11,), 3, 3),
                 ((17,), (), 2, 2), ((2,), (3, 4), 4, 3), ((), (), 11, 11)]
        if tier != 'quick':
            cases += [((), (), 30, 15), ((40,), (2,), 3, 2), ((), (60,), 6, 3),
                      ((4, 5), (3, 2), 4, 3), ((2,), (2, 2, 2, 2), 3, 2)]
        for batch, extra, s, r in cases:
            x = numbers(batch + (s, r), 1)
            for i in range(r):
                x[..., i, i] += 6.
            y = numbers(batch + extra + (s,), 3)
            m, p = numbers(batch + (r,), 5), spd(r, 2, batch)
            for info in (0.6, spd(s, 4, batch)):
                with ctx.trace(batch, extra, s, r, np.isscalar(info)):
                    one(ctx, ru, batch, extra, x, y, info, m, p)
            with ctx.trace(batch, extra, s, r, 'products'):
                products(ctx, ru, batch, extra, s, r)
                for t in (1, r, 7):
                    matrix_product(ctx, ru, batch, s, r, t)
    return run


def forms_unit(which):
    """The same numbers in arrays of any memory layout and type."""
    def run(ctx):
        from LinearResponseVariationalBayes import regression_utils as ru
        for batch, extra in itertools.product([(), (2,), (2, 3)], [(), (3,)]):
            s, r = 4, 3
            x = numbers(batch + (s, r), 1)
            for i in range(r):
                x[..., i, i] += 4.
            args = [numbers(batch + extra + (s,), 3), x, spd(s, 4, batch),
                    numbers(batch + (r,), 5), spd(r, 2, batch)]
            if which == 'layout':
                for k in range(5):
                    for form, a in array_forms(args[k]):
                        with ctx.trace(batch, extra, k, form):
                            new = list(args)
                            new[k] = a
                            one(ctx, ru, batch, extra, new[1], new[0], new[2],
                                new[3], new[4])
                for forms in zip(*[array_forms(a) for a in args]):
                    with ctx.trace(batch, extra, [f for f, _ in forms]):
                        y, x, info, m, p = [a for _, a in forms]
                        one(ctx, ru, batch, extra, x, y, info, m, p)
            else:
                whole = [np.round(a * 3.).astype(int) for a in args]
                for k in (2, 4):
                    n = s if k == 2 else r
                    whole[k] = np.zeros(batch + (n, n), dtype=int) + \
                        (7 * np.eye(n, dtype=int) + 1)
                for k in list(itertools.product((0, 1), repeat=5))[1:]:
                    with ctx.trace(batch, extra, 'whole numbers', k):
                        y, x, info, m, p = [
                            w if on else a
                            for w, a, on in zip(whole, args, k)]
                        one(ctx, ru, batch, extra, x, y, info, m, p)
                with ctx.trace(batch, extra, 'whole number information'):
                    one(ctx, ru, batch, extra, whole[1], whole[0], 2, whole[3],
                        whole[4])
    return run


def nested(values, shape):
    if not shape:
        return values[0]
    step = len(values) // shape[0]
    return [nested(values[i * step:(i + 1) * step], shape[1:])
            for i in range(shape[0])]


def at(nest, idx):
    for i in idx:
        nest = nest[i]
    return nest


def entries(nest):
    if not isinstance(nest, list):
        return [nest]
    return [e for part in nest for e in entries(part)]


def natural_of(y, x, info, extra, idx):
    """natural, for nested lists of anything that can be added and
    multiplied."""
    xs = at(x, idx)
    s, r = len(xs), len(xs[0])
    w = at(info, idx) if isinstance(info, list) else \
        [[info if i == j else 0. for j in range(s)] for i in range(s)]
    xw = jet.matmul(jet.transpose(xs), w)
    # (the right hand side uses the transposed information)
    wx = jet.matmul(jet.transpose(xs), jet.transpose(w))
    second = jet.matmul(xw, xs)
    first = [0.] * r
    count = 0
    for e in indices(extra):
        row = at(y, idx + e)
        count += 1
        first = [f + g for f, g in zip(first, jet.matvec(wx, row))]
    return first, [[v * (-0.5 * count) for v in q] for q in second]


FUNCTIONS = ['likelihood', 'prior', 'moments', 'coefficients', 'posterior']


def derivatives_unit(name, tier):
    """Values and derivatives by all entries of all arguments."""
    def run(ctx):
        from LinearResponseVariationalBayes import regression_utils as ru
        cases = [((), (), 1, 1), ((), (), 2, 2), ((), (2,), 2, 1),
                 ((2,), (), 2, 1), ((1,), (), 2, 2), ((2,), (2,), 1, 1)]
        if tier != 'quick':
            cases += [((2,), (2,), 2, 2), ((), (), 3, 2), ((2, 2), (), 2, 1),
                      ((), (3,), 2, 2)]
        for (batch, extra, s, r), scalar_info in itertools.product(
                cases, (False, True)):
            shapes = {'y': batch + extra + (s,), 'x': batch + (s, r),
                      'info': () if scalar_info else batch + (s, s),
                      'm': batch + (r,), 'p': batch + (r, r)}
            if name == 'moments':
                shapes = {'m': shapes['m'], 'p': shapes['p']}
            use = {'likelihood': ('y', 'x', 'info'), 'prior': ('m', 'p'),
                   'moments': ('m', 'p'), 'coefficients': ('y', 'x', 'info'),
                   'posterior': ('y', 'x', 'info', 'm', 'p')}[name]
            if scalar_info and 'info' not in use:
                continue
            x = numbers(batch + (s, r), 1)
            for i in range(min(s, r)):
                x[..., i, i] += 3.
            values = {'y': numbers(shapes.get('y', ()), 2), 'x': x,
                      'info': np.array(1.3) if scalar_info
                      else spd(s, 2, batch),
                      'm': numbers(batch + (r,), 4), 'p': spd(r, 5, batch)}
            if name == 'moments':
                values['p'] = -0.5 * values['p']
            flat = np.concatenate([np.ravel(values[k]) for k in use])

            def real(z):
                a, start = {}, 0
                for k in use:
                    n = prod(shapes[k])
                    a[k] = anp.reshape(z[start:start + n], shapes[k]) \
                        if shapes[k] else z[start]
                    start += n
                f = {'likelihood': ru.get_nat_params_from_likelihood,
                     'prior': ru.get_nat_params_from_prior,
                     'moments': ru.get_mvn_from_nat_params,
                     'coefficients': ru.get_regression_coefficients,
                     'posterior': ru.get_posterior_regression_coefficients
                     }[name]
                out = f(*[a[k] for k in use])
                return out if isinstance(out, tuple) else (out,)

            def reference(z):
                a, start = {}, 0
                for k in use:
                    n = prod(shapes[k])
                    a[k] = nested(list(z[start:start + n]), shapes[k])
                    start += n
                parts = []
                for idx in indices(batch):
                    first = second = None
                    if 'y' in use:
                        first, second = natural_of(
                            a['y'], a['x'], a['info'], extra, idx)
                    if name in ('prior', 'posterior'):
                        pp = at(a['p'], idx)
                        # (the mean is multiplied by the transpose)
                        f2 = jet.matvec(jet.transpose(pp), at(a['m'], idx))
                        s2 = [[v * -0.5 for v in q] for q in pp]
                        first = f2 if first is None else \
                            [u + v for u, v in zip(first, f2)]
                        second = s2 if second is None else \
                            [[u + v for u, v in zip(q, q2)]
                             for q, q2 in zip(second, s2)]
                    if name == 'moments':
                        first, second = at(a['m'], idx), at(a['p'], idx)
                    if name in ('moments', 'coefficients', 'posterior'):
                        inf = [[v * -2. for v in q] for q in second]
                        mean = jet.matvec(jet.transpose(jet.inverse(inf)),
                                          first)
                        first, second = mean, inf
                    parts.append((first, second))
                outs = [[q[0] for q in parts], [q[1] for q in parts]]
                return [entries(o) for o in
                        (outs[:1] if name == 'coefficients' else outs)]

            with ctx.trace(name, batch, extra, s, r, scalar_info):
                want = reference(list(map(float, flat)))
                got = real(flat)
                for g, w in zip(got, want):
                    ctx.close(np.ravel(g), w, 'value', 1e-7)
                # symmetric directions only, for what should be symmetric
                moves = np.eye(len(flat))
                start = 0
                for k in use:
                    n = prod(shapes[k])
                    if k == 'p' or k == 'info' and not scalar_info:
                        size = shapes[k][-1]
                        for b in range(0, n, size * size):
                            for i, j in itertools.product(range(size),
                                                          repeat=2):
                                moves[start + b + i * size + j,
                                      start + b + j * size + i] = 1.
                    start += n
                jets = reference(jet.variables(list(map(float, flat))))
                total = 0.
                for k, outs in enumerate(jets):
                    ws = [0.7 + 0.3 * ((3 * i + k) % 5)
                          for i in range(len(outs))]
                    if k == 1:      # symmetric weights
                        d = [int(round(i)) for i in (r,)][0]
                        ws = [0.5 * (ws[i] + ws[
                            i - i % (d * d) + (i % d) * d + i % (d * d) // d])
                            for i in range(len(ws))]
                    total = total + jet.dot(ws, outs)
                    jets[k] = ws

                def scalar(z):
                    return sum(anp.sum(anp.reshape(o, (-1,)) * np.array(w))
                               for o, w in zip(real(z), jets))
                ctx.close(moves.dot(autograd.grad(scalar)(flat)),
                          moves.dot(total.grad()), 'gradient', 1e-6, 1e-8)
                hess = autograd.jacobian(autograd.grad(scalar))(flat)
                ctx.close(moves.dot(hess).dot(moves),
                          moves.dot(total.hess()).dot(moves), 'Hessian',
                          1e-6, 1e-7)
                ctx.state(name, batch, extra, s, r, scalar_info)
    return run


def units(tier):
    out = [('magnitudes', magnitudes_unit(tier)),
           ('large', large_unit(tier)), ('layout', forms_unit('layout')),
           ('whole numbers', forms_unit('int'))]
    for n in (1, 2, 3) if tier == 'quick' else (1, 2, 3, 4):
        out.append(('patterns %d' % n, patterns_unit(n, tier)))
    for name in FUNCTIONS:
        out.append(('derivatives ' + name, derivatives_unit(name, tier)))
    for b in BATCHES:
        out.append(('products %s' % (b,), products_unit(b)))
        out.append(('portions %s' % (b,), portions_unit(b, tier)))
        if b:
            out.append(('independence %s' % (b,), independence_unit(b)))
        for e in EXTRAS:
            out.append(('posterior %s %s' % (b, e),
                        posterior_unit(b, e, tier)))
    return out


def BOUNDS(tier):
    return {
        'batch shapes': len(BATCHES), 'extra observation dimensions':
        len(EXTRAS), 'observations x regressors': sizes(tier),
        'information': 'three numbers, one matrix per batch; all patterns of '
                       'zeros up to %d dimensions; magnitudes 1e-100 ... '
                       '1e100' % (3 if tier == 'quick' else 4),
        'large': 'up to 40 observations, 11 regressors, 17 batches, 12 '
                 'repetitions' if tier == 'quick' else
                 'up to 40 observations, 15 regressors, 40 batches, 60 '
                 'repetitions',
        'forms': '7 memory layouts of each argument and of all; all choices '
                 'of arguments in whole numbers',
        'derivatives': 'gradients and Hessians by all arguments of 5 functions, '
                       '%d shapes' % (6 if tier == 'quick' else 10),
        'portions': 'all ordered partitions of 4 observations into '
                    'consecutive portions, and of 3 repetitions',
    }
