"""C12: Jacobian-vector products and the algebra of derivative terms."""
import itertools
import math

import numpy as np
import autograd.numpy as anp

from mc import jet, multi, ref
from mc.core import inputs_kept, de_bruijn
from mc.ref import point, arr
from mc.series import Series, implicit

PROPERTY = 'C12'


def rows(n, m, which):
    return [[0.8 * x for x in point(m, (which + r) % 5)] for r in range(n)]


class G(object):
    """A vector valued function of any number of vectors with nonzero mixed
    derivatives of all orders."""
    def __init__(self, n_out, sizes, which=0):
        self.sizes, self.n_out = sizes, n_out
        self.a = [rows(n_out, m, which + k) for k, m in enumerate(sizes)]
        self.b = [rows(n_out, m, which + k + 2) for k, m in enumerate(sizes)]
        self.shift = [0.2 * r + 0.1 for r in range(n_out)]

    def ref(self, *args):
        out = []
        for r in range(self.n_out):
            s = [jet.dot(self.a[k][r], x) for k, x in enumerate(args)]
            t = [jet.dot(self.b[k][r], x) for k, x in enumerate(args)]
            out.append(self.formula(s, t, jet.exp, self.shift[r]))
        return out

    def real(self, *args):
        s = [anp.dot(anp.array(self.a[k]), x) for k, x in enumerate(args)]
        t = [anp.dot(anp.array(self.b[k]), x) for k, x in enumerate(args)]
        return self.formula(s, t, anp.exp, anp.array(self.shift))

    @staticmethod
    def formula(s, t, exp, shift):
        tot = s[0] * 1.1
        for k, x in enumerate(s):
            tot = tot + x * (0.5 + 0.3 * k)
        prod = t[0] * t[0]
        for x in t[1:]:
            prod = prod * (x + 0.4)
        return tot + prod * 0.6 + exp(tot * 0.7) * 0.8 + t[-1] * s[0] + shift


class Scal(G):
    def ref(self, *args):
        out = G.ref(self, *args)
        return [jet.sum_(out)]

    def real(self, *args):
        return anp.sum(G.real(self, *args))


# Jacobian vector products -------------------------------------------------------

def jvp_unit(k, top):
    def run(ctx):
        from LinearResponseVariationalBayes import ModelSensitivity as ms
        cls, n_out, sizes = JVP[k]
        g = cls(n_out, sizes, k)
        base = [point(m, i) for i, m in enumerate(sizes)]
        nargs = len(sizes)
        for n in range(1, top + 1):
            for seq in itertools.product(range(nargs), repeat=n):
                with ctx.trace(cls.__name__, n_out, sizes, list(seq)):
                    fun = g.real
                    chain = [fun]
                    for argnum in seq:
                        if nargs == 1 and n % 2:
                            fun = ms.append_jvp(fun)
                        else:
                            fun = ms.append_jvp(fun, num_base_args=nargs,
                                                argnum=argnum)
                        chain.append(fun)
                    dirs = [(w, point(sizes[w], 1 + i))
                            for i, w in enumerate(seq)]
                    xs = [arr(b) for b in base]
                    vs = [arr(d) for _, d in dirs]
                    for m in range(n, -1, -1):     # earlier ones still work
                        want = multi.mixed(g.ref, base, dirs[:m])
                        with inputs_kept(ctx, 'jvp', xs, vs):
                            got = chain[m](*(xs + vs[:m]))
                        if cls is Scal:
                            want = want[0]
                        ctx.close(got, want, 'jvp of order %d' % m, 1e-8, 1e-9)
                    ctx.state(list(seq), want)
    return run


JVP = [(G, 2, (2,)), (Scal, 2, (3,)), (G, 3, (2, 3)), (G, 2, (3, 1)),
       (Scal, 3, (2, 2)), (G, 2, (1, 2, 3)), (Scal, 2, (2, 1, 2))]


def table_unit(k, order):
    def run(ctx):
        from LinearResponseVariationalBayes import ModelSensitivity as ms
        cls, n_out, sizes = [(G, 2, (2, 2)), (G, 2, (2, 3)), (Scal, 2, (3, 1)),
                             (G, 1, (1, 1))][k]
        g = cls(n_out, sizes, k)
        base = [point(m, i) for i, m in enumerate(sizes)]
        table = ms.generate_two_term_derivative_array(g.real, order)
        for i in range(order):
            for j in range(order + 1):
                with ctx.trace(sizes, order, i, j):
                    dirs = [(0, point(sizes[0], 1 + p)) for p in range(i)] + \
                        [(1, point(sizes[1], 3 + p)) for p in range(j)]
                    args = [arr(b) for b in base] + [arr(d) for _, d in dirs]
                    want = multi.mixed(g.ref, base, dirs)
                    with inputs_kept(ctx, 'derivative', args):
                        got = table[i][j](*args)
                    ctx.close(got, want[0] if cls is Scal else want,
                              'derivative (%d, %d)' % (i, j), 1e-8, 1e-9)
                    ctx.state(i, j, want)
    return run


# Terms --------------------------------------------------------------------------

def patterns(order):
    """All (eps order, eta orders) of a total order."""
    def rec(left, i):
        if i > order:
            yield left, []
            return
        for m in range(left // i + 1):
            for e, rest in rec(left - m * i, i + 1):
                yield e, [m] + rest
    return list(rec(order, 1))


class Curve(object):
    """eta(t) and eps(t) = eps0 + t deps, a table of g's derivatives and the
    terms on both sides."""
    def __init__(self, ctx, sizes, top, which=0):
        from LinearResponseVariationalBayes import ModelSensitivity as ms
        self.ms, self.ctx = ms, ctx
        self.g = G(sizes[0], sizes, which)
        self.sizes = sizes
        self.top = top
        self.table = ms.generate_two_term_derivative_array(
            self.g.real, top + 1)
        self.eta = [point(sizes[0], k) for k in range(top + 2)]
        self.eps0 = point(sizes[1], 2)
        self.deps = [0.7 * x for x in point(sizes[1], 4)]
        self.args = (arr(self.eta[0]), arr(self.eps0), arr(self.deps))
        self.calls = []

    def eta_fun(self, k):
        """The real code's view of d^k eta / dt^k."""
        def fun(eta0, eps0, deps):
            for got, want in zip((eta0, eps0, deps), self.args):
                self.ctx.close(got, want, 'argument of an eta derivative')
            return arr(self.eta[k])
        return fun

    def series(self, k, n):
        """eta^(k)(t) as power series to degree n."""
        return [Series([self.eta[k + j][i] / math.factorial(j)
                        if k + j < len(self.eta) else 0.
                        for j in range(n + 1)]) for i in range(self.sizes[0])]

    def term(self, pattern, prefactor):
        e, eta_orders = pattern
        order = len(eta_orders)
        return self.ms.DerivativeTerm(
            eps_order=e, eta_orders=list(eta_orders), prefactor=prefactor,
            eval_eta_derivs=[self.eta_fun(k + 1)
                             for k in range(max(order - 1, 0) + 1)],
            eval_g_derivs=self.table)

    def value(self, pattern, prefactor, n=0):
        """d^n/dt^n of the term along the curve at t = 0."""
        e, eta_orders = pattern
        at = [self.series(0, n),
              [Series(([x, d] + [0.] * n)[:n + 1])
               for x, d in zip(self.eps0, self.deps)]]
        dirs = []
        for k, m in enumerate(eta_orders):
            dirs += [(0, self.series(k + 1, n))] * m
        dirs += [(1, [Series([d] + [0.] * n) for d in self.deps])] * e
        out = multi.mixed(self.g.ref, at, dirs)
        return [prefactor * math.factorial(n) *
                (y.c[n] if isinstance(y, Series) else (0. if n else y))
                for y in out]

    def total(self, items, n=0):
        out = [0.] * self.sizes[0]
        for pattern, prefactor in items:
            out = [a + b for a, b in zip(out, self.value(
                pattern, prefactor, n))]
        return out


def shape_of(term):
    return (int(term.eps_order), tuple(int(x) for x in term.eta_orders))


def snapshot(terms):
    return [(id(t), shape_of(t), float(t.prefactor), len(t.eval_eta_derivs),
             [id(f) for f in t.eval_eta_derivs],
             [[id(f) for f in row] for row in t.eval_g_derivs])
            for t in terms]


def kept(ctx, terms, before, what):
    ctx.true(snapshot(terms) == before, what + ' modified its terms')


def real_total(ctx, terms, args):
    tot = 0.
    for t in terms:
        tot = tot + np.array(t.evaluate(*args))
    return tot


def diff_unit(order, k, again):
    """Every single term of an order: value, derivative, second derivative."""
    def run(ctx):
        sizes = [(2, 2), (1, 3), (2, 1)][k]
        top = order + again
        cv = Curve(ctx, sizes, top, k)
        for pattern in patterns(order):
            for prefactor in (1.0, -2.5, 3):
                with ctx.trace(sizes, list(pattern), prefactor):
                    term = cv.term(pattern, prefactor)
                    ctx.true(term.order == order, 'order of the term')
                    want = cv.value(pattern, prefactor)
                    with inputs_kept(ctx, 'evaluate', *cv.args):
                        got = term.evaluate(*cv.args)
                    ctx.close(got, want, 'value of the term', 1e-8, 1e-9)
                    level = [term]
                    for n in range(1, again + 1):
                        nxt = []
                        before = snapshot(level)
                        for t in level:
                            nxt += t.differentiate(cv.eta_fun(order + n))
                        kept(ctx, level, before, 'differentiate')
                        for t in nxt:
                            ctx.true(t.order == order + n and
                                     len(t.eta_orders) == order + n,
                                     'order of a derivative term')
                        want = cv.value(pattern, prefactor, n)
                        ctx.close(real_total(ctx, nxt, cv.args), want,
                                  'derivative %d of the term' % n, 1e-8, 1e-8)
                        before = snapshot(nxt)
                        one = cv.ms.consolidate_terms(nxt)
                        kept(ctx, nxt, before, 'consolidation')
                        ctx.true(sorted(map(shape_of, one)) ==
                                 sorted(set(map(shape_of, nxt))),
                                 'patterns after consolidation')
                        ctx.close(cv.ms.evaluate_terms(one, *cv.args), want,
                                  'consolidated derivative', 1e-8, 1e-8)
                        level = nxt if n % 2 else one
                        ctx.gstate(sizes, list(pattern), prefactor, n, want)
    return run


def faa_unit(k, top):
    """From the base terms upwards: the multivariate chain rule, with the
    known multiplicities."""
    def run(ctx):
        sizes = [(2, 2), (1, 2), (3, 1)][k]
        cv = Curve(ctx, sizes, top, k)
        with ctx.trace(sizes, top):
            terms = cv.ms.get_taylor_base_terms(cv.table)
            for n in range(1, top + 1):
                want_mult = {}
                for e, etas in patterns(n):
                    c = math.factorial(n) // math.factorial(e)
                    for i, m in enumerate(etas):
                        c //= math.factorial(m) * math.factorial(i + 1) ** m
                    want_mult[(e, tuple(etas))] = float(c)
                if n > 1:
                    nxt = []
                    before = snapshot(terms)
                    for t in terms:
                        nxt += t.differentiate(cv.eta_fun(n - 1))
                    kept(ctx, terms, before, 'differentiate')
                    terms = cv.ms.consolidate_terms(nxt)
                got = {}
                for t in terms:
                    ctx.true(shape_of(t) not in got, 'two terms of a pattern')
                    got[shape_of(t)] = float(t.prefactor)
                ctx.true(got == want_mult, 'multiplicities at order %d: %s, '
                         'expected %s' % (n, got, want_mult))
                # the term with the highest derivative of eta needs it
                for highest in (True, False):
                    items = [(list_pattern(p), c) for p, c in got.items()
                             if highest or p[1][-1] == 0]
                    if highest:
                        full = [with_eta(cv, t, n) for t in terms]
                        vals = cv.ms.evaluate_terms(full, *cv.args)
                        want = cv.value((0, []), 1., n)
                        ctx.close(vals, want, 'derivative %d of g along the '
                                  'curve' % n, 1e-8, 1e-8)
                    else:
                        vals = cv.ms.evaluate_terms(
                            terms, *cv.args, include_highest_eta_order=False)
                    ctx.close(vals, cv.total(items), 'total of the terms of '
                              'order %d (%s)' % (n, highest), 1e-8, 1e-8)
                    ctx.gstate(sizes, n, highest, vals)
    return run


def list_pattern(p):
    return (p[0], list(p[1]))


def with_eta(cv, t, n):
    return cv.ms.DerivativeTerm(
        eps_order=t.eps_order, eta_orders=list(t.eta_orders),
        prefactor=t.prefactor,
        eval_eta_derivs=[cv.eta_fun(k + 1) for k in range(n)],
        eval_g_derivs=cv.table)


def consolidate_unit(order, first, length):
    """All lists of terms up to a length, in all orders."""
    def run(ctx):
        cv = Curve(ctx, (2, 1), 3, 1)
        pool = [(p, f) for p in patterns(order) for f in (1.0, -2.5)]
        pool = pool[:8] + [(p, 0.5) for p in patterns(order - 1)][:1]
        values = [cv.value(*x) for x in pool]
        for rest in itertools.chain(*[
                itertools.product(range(len(pool)), repeat=n)
                for n in range(length)]):
            seq = (first,) + rest
            if first >= len(pool):
                continue
            with ctx.trace(order, list(seq)):
                terms = [cv.term(*pool[i]) for i in seq]
                given = list(terms)
                before = snapshot(terms)
                out = cv.ms.consolidate_terms(terms)
                kept(ctx, given, before, 'consolidation')
                ctx.true([id(t) for t in terms] == [id(t) for t in given],
                         'consolidation modified the list')
                want = {}
                for i in seq:
                    key = (pool[i][0][0], tuple(pool[i][0][1]))
                    want[key] = want.get(key, 0.) + pool[i][1]
                got = {}
                for t in out:
                    ctx.true(shape_of(t) not in got, 'two terms of a pattern')
                    got[shape_of(t)] = float(t.prefactor)
                ctx.true(got == want, 'consolidated %s, expected %s' % (
                    got, want))
                if len(seq) <= 2:
                    tot = [sum(values[i][r] for i in seq) for r in range(2)]
                    ctx.close(cv.ms.evaluate_terms(out, *cv.args), tot,
                              'total', 1e-8, 1e-8)
                    ctx.close(cv.ms.evaluate_terms(terms, *cv.args), tot,
                              'total of the original', 1e-8, 1e-8)
                ctx.gstate(order, sorted(map(repr, want.items())))
    return run


def similar_unit(ctx):
    cv = Curve(ctx, (2, 1), 3, 0)
    pool = [p for n in (1, 2, 3) for p in patterns(n)]
    for p in pool:
        for q in pool:
            with ctx.trace(list(p), list(q)):
                a, b = cv.term(p, 2.), cv.term(q, -0.5)
                ctx.true(bool(a.check_similarity(b)) == (p == q), 'similarity')
                if p == q:
                    before = snapshot([a, b])
                    c = a.combine_with(b)
                    kept(ctx, [a, b], before, 'combine_with')
                    ctx.true(shape_of(c) == shape_of(a) and
                             c.prefactor == 1.5, 'combined term')
                ctx.state(p, q)


def implicit_unit(k, top):
    """evaluate_dketa_depsk and differentiate_terms give the derivatives of
    the solution of g(eta, eps) = 0."""
    def run(ctx):
        from LinearResponseVariationalBayes import ModelSensitivity as ms
        sizes = [(1, 1), (2, 2), (2, 1), (3, 2)][k]
        raw = G(sizes[0], sizes, k)
        n = sizes[0]
        eta0, eps0 = point(n, 1), point(sizes[1], 2)
        shift = raw.ref(eta0, eps0)
        # a symmetric positive definite derivative at the base point
        jac = [y.grad() for y in raw.ref(jet.variables(eta0), eps0)]
        want_h = [[2.0 + 0.4 * i if i == j else 0.3 for j in range(n)]
                  for i in range(n)]
        fix = [[want_h[i][j] - jac[i][j] for j in range(n)] for i in range(n)]

        def g_ref(eta, eps):
            out = raw.ref(eta, eps)
            return [out[i] - shift[i] + jet.dot(
                fix[i], [a - b for a, b in zip(eta, eta0)])
                for i in range(n)]

        def g_real(eta, eps):
            return raw.real(eta, eps) - anp.array(shift) + anp.dot(
                anp.array(fix), eta - anp.array(eta0))

        for which in (0, 3):
            with ctx.trace(sizes, which):
                deps = point(sizes[1], which)
                eps = [Series([a, b] + [0.] * (top - 1))
                       for a, b in zip(eps0, deps)]
                sol = implicit(g_ref, want_h, eta0, eps, top)
                table = ms.generate_two_term_derivative_array(g_real, top + 1)
                terms = ms.get_taylor_base_terms(table)
                hess = np.array(want_h)
                args = (arr(eta0), arr(eps0), arr(deps))
                for order in range(1, top + 1):
                    if order > 1:
                        before = snapshot(terms)
                        with inputs_kept(ctx, 'differentiate_terms', hess):
                            new = ms.differentiate_terms(hess, terms)
                        kept(ctx, terms, before, 'differentiate_terms')
                        terms = new
                    with inputs_kept(ctx, 'evaluate_dketa_depsk', hess, *args):
                        got = ms.evaluate_dketa_depsk(hess, terms, *args)
                    want = [s.c[order] * math.factorial(order) for s in sol]
                    ctx.close(got, want, 'derivative of order %d' % order,
                              1e-7, 1e-8)
                    ctx.state(order, want)
                    if order < top:
                        # the whole derivative of g along the solution is zero
                        new = ms.differentiate_terms(hess, terms)
    return run


class Large(G):
    """With weights that suit many entries."""
    def __init__(self, n_out, sizes, which=0):
        G.__init__(self, n_out, sizes, which)
        for tab in (self.a, self.b):
            for k, m in enumerate(sizes):
                tab[k] = [[x / m ** 0.5 for x in row] for row in tab[k]]


LARGE = [(10, (10, 2)), (2, (2, 13)), (7, (7, 9)), (12, (12, 1))]


def large_unit(k):
    def run(ctx):
        from LinearResponseVariationalBayes import ModelSensitivity as ms
        n_out, sizes = LARGE[k]
        g = Large(n_out, sizes, k)
        base = [point(m, i) for i, m in enumerate(sizes)]
        order = 2
        table = ms.generate_two_term_derivative_array(g.real, order)
        for i in range(order):
            for j in range(order + 1):
                with ctx.trace('large', sizes, i, j):
                    dirs = [(0, point(sizes[0], 1 + p)) for p in range(i)] + \
                        [(1, point(sizes[1], 3 + p)) for p in range(j)]
                    args = [arr(b) for b in base] + [arr(d) for _, d in dirs]
                    want = multi.mixed(g.ref, base, dirs)
                    ctx.close(table[i][j](*args), want,
                              'derivative (%d, %d)' % (i, j), 1e-8, 1e-9)
                    ctx.state(i, j, want)
        cv = Curve(ctx, sizes, 4, k)
        cv.g = g
        cv.table = ms.generate_two_term_derivative_array(g.real, 5)
        for order in (1, 2, 3):
            for pattern in patterns(order):
                with ctx.trace('large', sizes, list(pattern)):
                    term = cv.term(pattern, -2.5)
                    ctx.close(term.evaluate(*cv.args),
                              cv.value(pattern, -2.5), 'value', 1e-8, 1e-9)
                    nxt = term.differentiate(cv.eta_fun(order + 1))
                    want = cv.value(pattern, -2.5, 1)
                    ctx.close(real_total(ctx, nxt, cv.args), want,
                              'derivative', 1e-8, 1e-8)
                    ctx.close(ms.evaluate_terms(ms.consolidate_terms(nxt),
                                                *cv.args), want,
                              'consolidated', 1e-8, 1e-8)
                    ctx.gstate(sizes, list(pattern))
    return run


PREFACTORS = [1e-200, 1e-17, 1e-9, -1e-5, 0.3, 1e6, -1e17, 1e150]


def prefactor_unit(ctx):
    """Prefactors and directions of every magnitude, also such that cancel."""
    from LinearResponseVariationalBayes import ModelSensitivity as ms
    cv = Curve(ctx, (2, 2), 4, 1)
    for order in (1, 2, 3):
        for pattern in patterns(order):
            unit = np.array(cv.value(pattern, 1.))
            slope = np.array(cv.value(pattern, 1., 1))
            for f in PREFACTORS:
                with ctx.trace(list(pattern), f):
                    term = cv.term(pattern, f)
                    ctx.close(np.asarray(term.evaluate(*cv.args)) / f, unit,
                              'value', 1e-8, 1e-9)
                    nxt = term.differentiate(cv.eta_fun(order + 1))
                    ctx.close(np.asarray(real_total(ctx, nxt, cv.args)) / f,
                              slope, 'derivative', 1e-8, 1e-8)
                    one = ms.consolidate_terms(nxt)
                    ctx.close(np.asarray(ms.evaluate_terms(one, *cv.args)) /
                              f, slope, 'consolidated', 1e-8, 1e-8)
                    ctx.true(sorted(map(shape_of, one)) ==
                             sorted(set(map(shape_of, nxt))), 'patterns')
                    ctx.gstate(list(pattern), f)
                for f2 in PREFACTORS + [-f]:
                    with ctx.trace(list(pattern), f, f2):
                        out = ms.consolidate_terms(
                            [cv.term(pattern, f), cv.term(pattern, f2)])
                        ctx.true(len(out) == 1 and
                                 out[0].prefactor == f + f2,
                                 'consolidated prefactor')


def scale_unit(ctx):
    """Products with directions and functions of every magnitude."""
    from LinearResponseVariationalBayes import ModelSensitivity as ms
    sizes = (2, 3)
    g = G(2, sizes, 1)
    base = [point(m, i) for i, m in enumerate(sizes)]
    for n in (1, 2, 3):
        for seq in itertools.product((0, 1), repeat=n):
            dirs = [(w, point(sizes[w], 1 + i)) for i, w in enumerate(seq)]
            want = np.array(multi.mixed(g.ref, base, dirs))
            for gs in (1e-100, 1e-12, 1., 1e12):
                fun = lambda *x: gs * g.real(*x)        # noqa
                for w in seq:
                    fun = ms.append_jvp(fun, num_base_args=2, argnum=w)
                for scale in (1e-60, 1e-14, 1e-8, 1e-4, 1., 1e5, 1e15, 1e40):
                    for only in range(-1, n):
                        with ctx.trace(list(seq), gs, scale, only):
                            vs = [arr(d) * (scale if only in (-1, i) else 1.)
                                  for i, (_, d) in enumerate(dirs)]
                            tot = scale ** (n if only == -1 else 1)
                            got = fun(*([arr(b) for b in base] + vs))
                            ctx.close(np.asarray(got) / gs / tot, want, 'jvp',
                                      1e-8, 1e-9)
                ctx.state(list(seq), gs)


def life_unit(k, n, buffers=ref.Fresh):
    """The same table of derivatives and the same terms are evaluated again
    and again, at different points."""
    def run(ctx):
        from LinearResponseVariationalBayes import ModelSensitivity as ms
        sizes = [(2, 2), (1, 3), (3, 1)][k]
        g = G(sizes[0], sizes, k)
        table = ms.generate_two_term_derivative_array(g.real, 2)
        cells = [(i, j, w) for i in range(2) for j in range(3)
                 for w in (0, 1)]
        want, args = {}, {}
        for i, j, w in cells:
            base = [point(m, q + w) for q, m in enumerate(sizes)]
            dirs = [(0, point(sizes[0], 1 + p + w)) for p in range(i)] + \
                [(1, point(sizes[1], 3 - p - w)) for p in range(j)]
            args[i, j, w] = base + [d for _, d in dirs]
            want[i, j, w] = multi.mixed(g.ref, base, dirs)
        buf = buffers()
        with ctx.trace('life', sizes, n, buffers.__name__):
            for c in de_bruijn(cells, n):
                ctx.step(*c)
                ctx.close(table[c[0]][c[1]](
                    *[buf(a, q) for q, a in enumerate(args[c])]), want[c],
                          'derivative %s' % (c,), 1e-8, 1e-9)
            ctx.state(sizes, n)
    return run


def printed_unit(ctx):
    """What is printed lists the terms of the orders asked for."""
    import contextlib
    import io
    import LinearResponseVariationalBayes as vb
    from LinearResponseVariationalBayes import ModelSensitivity as ms
    par, hyp = vb.VectorParam('x', 2), vb.VectorParam('h', 1)
    for order in range(1, 6):
        exp = ms.ParametricSensitivityTaylorExpansion(
            lambda: anp.sum((par.get() - hyp.get()[0]) ** 2), par, hyp,
            np.zeros(2), np.zeros(1), order)
        terms = exp.taylor_terms_list
        for k in [None] + list(range(1, order + 1)) + [order + 1]:
            with ctx.trace('printed', order, k):
                if k is not None and k > order:
                    ctx.raises(ValueError, lambda: exp.print_terms(k),
                               'order %d of %d' % (k, order))
                    continue
                text = io.StringIO()
                with contextlib.redirect_stdout(text):
                    if k is None:
                        exp.print_terms()
                    else:
                        exp.print_terms(k=k)
                lines = text.getvalue().split('\n')
                want = [str(t) for i, ts in enumerate(terms)
                        for t in ts if k is None or i == k - 1]
                ctx.true([s for s in lines if s in want] == want,
                         'printed %s, expected %s' % (lines, want))
                others = [str(t) for i, ts in enumerate(terms) for t in ts
                          if k is not None and i != k - 1]
                ctx.true(not any(s in lines for s in others),
                         'terms of other orders')
                for i, ts in enumerate(terms):
                    # Bell-like counting: the totals of the prefactors
                    texts = [str(t) for t in ts]
                    ctx.true(len(set(texts)) == len(texts),
                             'two terms with the same text')
                    for t, s in zip(ts, texts):
                        ctx.true(str(t.order) in s and '%g' % t.prefactor in s
                                 and str(t.eps_order) in s,
                                 'text of a term: ' + s)
                ctx.state('printed', order, k)


def units(tier):
    quick = tier == 'quick'
    out = [('printed', printed_unit), ('prefactors', prefactor_unit), ('scales', scale_unit)]
    for k in range(len(LARGE)):
        out.append(('large-%d' % k, large_unit(k)))
    for k in range(3):
        for how, buffers in ref.BUFFERS:
            out.append(('life%s-%d' % (how, k), life_unit(
                k, 2 if quick or how else 3, buffers)))
    for k in range(4):
        out.append(('implicit-%d' % k, implicit_unit(k, 4 if quick else 5)))
    for k in range(3):
        out.append(('chain-rule-%d' % k, faa_unit(k, 5 if quick else 6)))
    for order in range(1, 5 if quick else 6):
        for k in range(3):
            again = 2 if order <= 2 or not quick else 1
            out.append(('differentiate-%d-%d' % (order, k),
                        diff_unit(order, k, again)))
    for order in (2, 3):
        for first in range(9):
            out.append(('consolidate-%d-%d' % (order, first),
                        consolidate_unit(order, first, 3 if quick else 4)))
    for k in range(len(JVP)):
        nargs = len(JVP[k][2])
        top = {1: 5, 2: 4, 3: 3}[nargs]
        out.append(('jvp-%d' % k, jvp_unit(k, top if quick else top + 1)))
    for k in range(4):
        for order in range(1, 4 if quick else 5):
            out.append(('table-%d-%d' % (k, order), table_unit(k, order)))
    out.append(('similar', similar_unit))
    return out


def BOUNDS(tier):
    return {
        'jvp': 'all sequences of argument numbers up to length 3-5 (thorough '
               '4-6) for functions of one to three vectors',
        'terms': 'all patterns of order 1-4 (thorough 1-5), three prefactors, '
                 'differentiated once or twice',
        'large, magnitudes, lives': 'up to 13 entries; prefactors 1e-200 ... '
            '1e150 (all pairs consolidated), directions 1e-60 ... 1e40; one '
            'table through every %s of 12 evaluations' % (
                'pair' if tier == 'quick' else 'triple'),
        'consolidation': 'all lists of up to %d terms from 9' % (
            3 if tier == 'quick' else 4),
        'chain rule': 'multiplicities and totals up to order %d' % (
            5 if tier == 'quick' else 6),
        'in place': 'all pairs of evaluations once more with the same arrays, whose '
                    'entries the caller changes between the calls',
    }
