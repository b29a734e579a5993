"""Analyses whose answer is known: variational approximations and estimates
with the optimum, and so its dependence on the hyperparameters, in closed form.

An analysis has
    s_in, s_hy     specs of the parameter and of the hyperparameter
    h0             vector of the hyperparameter
    opt(h)         vector of the optimum, generic over the scalars
    out(v)         the quantities of interest of the optimum v, generic
    bind(p, h)     (whole objective, the part with the hyperparameter,
                    quantities of interest) of the real parameters
    cov            the exact posterior covariance of the quantities, if the
                   hyperparameter tilts the posterior by these
"""
import math

import numpy as np
import autograd.numpy as anp

from . import jet, ref
from . import expfam as xf
from .jet import dot, matvec, matmul, inverse, transpose, log, sum_
from .ref import (Scalar, Vector, Array, PD, Simplex, Sub, Dict, point, tri,
                  pd_full, pd_forward, pd_backward)


def pos(n, which):
    return [0.4 + math.exp(0.6 * x) for x in point(n, which)]


def spd(n, which, add=0.6):
    return pd_full([float(x) for x in pd_forward(
        [0.5 * v for v in point(tri(n), which)], n, add)], n)


def vech(m):
    return [m[i][j] for i in range(len(m)) for j in range(i + 1)]


def pairs(n):
    return [(i, j) for i in range(n) for j in range(i + 1)]


def outer(a, b):
    return [[x * y for y in b] for x in a]


def plus(a, b):
    return [[x + y for x, y in zip(r, s)] for r, s in zip(a, b)]


def times(a, c):
    return [[x * c for x in r] for r in a]


def rows(flat, k):
    return [list(flat[i:i + k]) for i in range(0, len(flat), k)]


def real_vech(m):
    return anp.array([m[i, j] for i, j in pairs(m.shape[0])]) \
        if m.shape[0] else m


def lib():
    import LinearResponseVariationalBayes as vb
    from LinearResponseVariationalBayes import ExponentialFamilies as ef
    from LinearResponseVariationalBayes import regression_utils as ru
    return vb, ef, ru


A = lambda x: np.array(x, dtype=float)
cat = lambda *xs: anp.concatenate([anp.reshape(x, (-1,)) for x in xs])


class Analysis(object):
    cov = None
    vector_ok = True        # the vector parameterization has no redundancy
    forward = True          # autograd can differentiate in forward mode

    def __repr__(self):
        return self.label


# Normal mean with a normal prior ---------------------------------------------

class Normal(Analysis):
    """theta ~ N(m, P^-1); y_n ~ N(theta, L^-1).  full: MVNParam, else the
    mean field family, of which the means respond exactly as theta does."""
    n_obs = 3

    def __init__(self, d, hyper, full=True, min_info=0., which=0):
        self.d, self.hyper, self.full = d, hyper, full
        self.forward = not full
        self.label = 'normal %d %s %s %s %d' % (
            d, hyper, 'full' if full else 'mean field', min_info, which)
        self.m = point(d, which)
        self.p = spd(d, which + 1)
        self.like = spd(d, which + 2)
        self.y = rows(point(self.n_obs * d, which + 3), d)
        self.s_in = ref.mvn(d, min_info) if full else ref.uvnv(d, min_info)
        if hyper == 'tilt':
            self.s_hy = Vector(d + tri(d) if full else d)
            self.h0 = [0.] * self.s_hy.vec_size
        elif hyper == 'prior':
            self.s_hy = Dict([('mean', Vector(d)), ('info', PD(d))])
            self.h0 = self.m + vech(self.p)
        else:
            self.s_hy = Array((self.n_obs, d))
            self.h0 = [v for r in self.y for v in r]
        if hyper == 'tilt':
            self.cov = self.covariance()

    def natural(self, h):
        """Information and information times mean"""
        d = self.d
        m, p, y = self.m, self.p, self.y
        if self.hyper == 'prior':
            m, p = h[:d], pd_full(h[d:], d)
        if self.hyper == 'data':
            y = rows(h, d)
        info = plus(p, times(self.like, float(self.n_obs)))
        lin = [a + b for a, b in zip(matvec(p, m), matvec(
            self.like, [sum_(r[i] for r in y) for i in range(d)]))]
        if self.hyper == 'tilt':
            lin = [a + b for a, b in zip(lin, h[:d])]
            if self.full:
                t = h[d:]
                info = plus(info, [[t[max(i, j) * (max(i, j) + 1) // 2 +
                                      min(i, j)] * (-2. if i == j else -1.)
                                    for j in range(d)] for i in range(d)])
        return info, lin

    def opt(self, h):
        info, lin = self.natural(h)
        mean = matvec(inverse(info), lin)
        return mean + (vech(info) if self.full else
                       [info[i][i] for i in range(self.d)])

    def out(self, v):
        d = self.d
        if not self.full:
            return v[:d]
        cov = inverse(pd_full(v[d:], d))
        return v[:d] + vech(plus(cov, outer(v[:d], v[:d])))

    def covariance(self):
        d = self.d
        info, lin = self.natural(self.h0)
        s = inverse(info)
        mu = matvec(s, lin)
        if not self.full:
            return s
        k = pairs(d)
        second = [[s[i][a] * s[j][b] + s[i][b] * s[j][a] +
                   mu[i] * mu[a] * s[j][b] + mu[i] * mu[b] * s[j][a] +
                   mu[j] * mu[a] * s[i][b] + mu[j] * mu[b] * s[i][a]
                   for a, b in k] for i, j in k]
        mixed = [[mu[a] * s[b][i] + mu[b] * s[a][i] for a, b in k]
                 for i in range(d)]
        return [s[i] + mixed[i] for i in range(d)] + \
            [[mixed[i][r] for i in range(d)] + second[r]
             for r in range(len(k))]

    def bind(self, par, hyp):
        vb, ef, ru = lib()
        d = self.d
        like, y0 = A(self.like), A(self.y)

        def moments():
            return par.e(), (par.cov() if self.full else anp.diag(par.var()))

        def prior(m, p):
            e, cov = moments()
            return ef.mvn_prior(prior_mean=m, prior_info=p, e_obs=e,
                                cov_obs=cov)

        def loglik(y):
            e, cov = moments()
            return sum(ef.mvn_prior(y[n], like, e, cov)
                       for n in range(self.n_obs))

        def out():
            if not self.full:
                return 1. * par.e()
            return cat(par.e(), real_vech(par.e_outer()))

        def part():
            if self.hyper == 'tilt':
                return -1. * anp.sum(hyp.get() * out())
            if self.hyper == 'prior':
                return -1. * prior(hyp['mean'].get(), hyp['info'].get())
            return -1. * loglik(hyp.get())

        def whole():
            rest = par.entropy()
            if self.hyper != 'prior':
                rest = rest + prior(A(self.m), A(self.p))
            if self.hyper != 'data':
                rest = rest + loglik(y0)
            return part() - rest
        return whole, part, out


# Arrays of univariate normals --------------------------------------------------

class Normals(Analysis):
    """Independent entries; kind: array, vector, moment or rows (MVNArray)"""
    def __init__(self, kind, shape, hyper, which=0):
        self.kind, self.shape, self.hyper = kind, tuple(shape), hyper
        n = self.n = ref.prod(shape)
        self.label = 'normals %s %s %s %d' % (kind, shape, hyper, which)
        self.m, self.p = point(n, which), pos(n, which + 1)
        self.s_in = {
            'array': lambda: ref.uvna(self.shape),
            'vector': lambda: ref.uvnv(n),
            'scalar': lambda: ref.uvn(),
            'moment': lambda: ref.uvnm(self.shape),
            'rows': lambda: ref.mvna(self.shape)}[kind]()
        one = Scalar if kind == 'scalar' else None
        arr = (lambda lb=-ref.INF: Array(self.shape, lb)) if one is None else \
            (lambda lb=-ref.INF: Scalar(lb))
        if hyper == 'tilt':
            self.s_hy = Dict([('first', arr()), ('second', arr())])
            self.h0 = [0.] * (2 * n)
        else:
            self.s_hy = Dict([('mean', arr()), ('info', arr(0.))])
            self.h0 = self.m + self.p
        if hyper == 'tilt' and kind != 'rows':
            self.cov = [[0.] * (2 * n) for _ in range(2 * n)]
            for i in range(n):
                mu, v = self.m[i], 1. / self.p[i]
                self.cov[i][i] = v
                self.cov[i][n + i] = self.cov[n + i][i] = 2 * mu * v
                self.cov[n + i][n + i] = 2 * v * v + 4 * mu * mu * v

    def opt(self, h):
        n = self.n
        if self.hyper == 'tilt':
            info = [p - t * 2. for p, t in zip(self.p, h[n:])]
            lin = [m * p + t for m, p, t in zip(self.m, self.p, h[:n])]
        else:
            info = h[n:]
            lin = [m * p for m, p in zip(h[:n], info)]
        mean = [a / b for a, b in zip(lin, info)]
        if self.kind == 'moment':
            return mean + [m * m + 1. / i for m, i in zip(mean, info)]
        if self.kind == 'rows':
            k = self.shape[1]
            return mean + [sum_(info[r * k:(r + 1) * k]) * (1. / k)
                           for r in range(self.shape[0])]
        return mean + info

    def out(self, v):
        n = self.n
        if self.kind == 'moment':
            return v
        info = v[n:]
        if self.kind == 'rows':
            info = [x for x in info for _ in range(self.shape[1])]
        return v[:n] + [m * m + 1. / i for m, i in zip(v[:n], info)]

    def bind(self, par, hyp):
        vb, ef, ru = lib()
        shape = () if self.kind == 'scalar' else self.shape

        def second():
            return par.e2() if self.kind == 'rows' else par.e_outer()

        def prior(m, p):
            return anp.sum(ef.uvn_prior(
                prior_mean=m, prior_info=p, e_obs=par.e(),
                var_obs=second() - par.e() ** 2))

        def out():
            return cat(par.e(), second())

        def part():
            if self.hyper == 'tilt':
                return -1. * anp.sum(hyp['first'].get() * par.e()) - \
                    anp.sum(hyp['second'].get() * second())
            return -1. * prior(hyp['mean'].get(), hyp['info'].get())

        def whole():
            if self.kind == 'rows':
                rest = self.shape[1] * ef.univariate_normal_entropy(
                    par['info'].get())
            else:
                rest = par.entropy()
            if self.hyper == 'tilt':
                rest = rest + prior(A(self.m).reshape(shape),
                                    A(self.p).reshape(shape))
            return part() - rest
        return whole, part, out


# Poisson counts with a gamma prior ----------------------------------------------

class Poisson(Analysis):
    counts = [3., 0., 2., 5.]

    def __init__(self, hyper, lower=0., which=0):
        self.hyper, self.which = hyper, which
        self.label = 'poisson %s %s %d' % (hyper, lower, which)
        self.a, self.b = pos(2, which)
        self.x = [c + which for c in self.counts]
        self.s_in = ref.gamma(lower, lower)
        if hyper == 'tilt':
            self.s_hy, self.h0 = Vector(2), [0., 0.]
            a, b = self.opt(self.h0)
            self.cov = [[a / b ** 2, 1. / b],
                        [1. / b, jet.polygamma(1, a)]]
        elif hyper == 'prior':
            self.s_hy, self.h0 = Vector(2, 0.), [self.a, self.b]
        else:
            self.s_hy, self.h0 = Vector(4, 0.), [1.] * 4

    def opt(self, h):
        a, b, w = self.a, self.b, [1.] * 4
        if self.hyper == 'prior':
            a, b = h
        if self.hyper == 'weights':
            w = h
        a = a + sum_(c * u for c, u in zip(self.x, w))
        b = b + sum_(w)
        if self.hyper == 'tilt':
            a, b = a + h[1], b - h[0]
        return [a, b]

    def out(self, v):
        return [v[0] / v[1], jet.digamma(v[0]) - log(v[1])]

    def bind(self, par, hyp):
        vb, ef, ru = lib()
        x = A(self.x)

        def out():
            return cat(par.e(), par.e_log())

        def prior(a, b):
            return ef.gamma_prior(prior_shape=a, prior_rate=b, e_obs=par.e(),
                                  e_log_obs=par.e_log())

        def loglik(w):
            return anp.sum(w * (x * par.e_log() - par.e()))

        def part():
            if self.hyper == 'tilt':
                return -1. * anp.sum(hyp.get() * out())
            if self.hyper == 'prior':
                h = hyp.get()
                return -1. * prior(h[0], h[1])
            return -1. * loglik(hyp.get())

        def whole():
            rest = par.entropy()
            if self.hyper != 'prior':
                rest = rest + prior(self.a, self.b)
            if self.hyper != 'weights':
                rest = rest + loglik(np.ones(4))
            return part() - rest
        return whole, part, out


# Counts with a Dirichlet prior ---------------------------------------------------

class Categorical(Analysis):
    def __init__(self, shape, hyper, lower=0., which=0):
        self.shape, self.hyper = tuple(shape), hyper
        self.label = 'categorical %s %s %s %d' % (shape, hyper, lower, which)
        n = self.n = ref.prod(shape)
        self.alpha = pos(n, which)
        self.counts = [float((3 * i + which) % 4) + 0.5 for i in range(n)]
        self.s_in = ref.dirichlet(self.shape, lower)
        if hyper == 'tilt':
            self.s_hy, self.h0 = Array(self.shape), [0.] * n
            cols = xf.columns(self.opt(self.h0), self.shape)
            m = len(cols)
            tot = [jet.polygamma(1, sum(c)) for c in cols]
            self.cov = [[
                ((jet.polygamma(1, cols[i % m][i // m]) if i == j else 0.) -
                 tot[i % m] if i % m == j % m else 0.)
                for j in range(n)] for i in range(n)]
        elif hyper == 'prior':
            self.s_hy, self.h0 = Array(self.shape, 0.), self.alpha
        else:
            self.s_hy, self.h0 = Array(self.shape, 0.), self.counts

    def opt(self, h):
        alpha = h if self.hyper == 'prior' else self.alpha
        counts = h if self.hyper == 'counts' else self.counts
        out = [a + c for a, c in zip(alpha, counts)]
        if self.hyper == 'tilt':
            out = [a + t for a, t in zip(out, h)]
        return out

    def out(self, v):
        cols = xf.columns(v, self.shape)
        res = xf.from_columns([xf.e_log_dirichlet(c) for c in cols])
        if self.hyper != 'tilt':
            res = res + xf.from_columns([xf.e_dirichlet(c) for c in cols])
        return res

    def bind(self, par, hyp):
        vb, ef, ru = lib()
        shape = self.shape

        def out():
            if self.hyper == 'tilt':
                return cat(par.e_log())
            return cat(par.e_log(), par.e())

        def prior(alpha):
            if len(shape) == 1:
                return ef.dirichlet_prior(alpha, par.e_log())
            return sum(ef.dirichlet_prior(alpha[:, j], par.e_log()[:, j])
                       for j in range(shape[1]))

        def loglik(counts):
            return anp.sum(counts * par.e_log())

        def part():
            if self.hyper == 'tilt':
                return -1. * anp.sum(hyp.get() * par.e_log())
            if self.hyper == 'prior':
                return -1. * prior(hyp.get())
            return -1. * loglik(hyp.get())

        def whole():
            rest = anp.sum(par.entropy())
            if self.hyper != 'prior':
                rest = rest + prior(A(self.alpha).reshape(shape))
            if self.hyper != 'counts':
                rest = rest + loglik(A(self.counts).reshape(shape))
            return part() - rest
        return whole, part, out


# Normal observations with a Wishart prior on the information ---------------------

class Precision(Analysis):
    n_obs = 6
    forward = False

    def __init__(self, p, hyper, which=0, diag_lb=0.):
        self.p, self.hyper = p, hyper
        self.label = 'precision %d %s %d %s' % (p, hyper, which, diag_lb)
        self.df = p + 1.5
        self.v = spd(p, which)
        y = rows(point(self.n_obs * p, which + 1), p)
        self.scatter = [[sum(r[i] * r[j] for r in y) for j in range(p)]
                        for i in range(p)]
        self.s_in = ref.wishart(p, diag_lb)
        if hyper == 'tilt':
            self.s_hy, self.h0 = Vector(1 + tri(p)), [0.] * (1 + tri(p))
            self.cov = self.covariance()
        elif hyper == 'prior':
            self.s_hy = Dict([('df', Scalar(p - 1.)), ('v', PD(p))])
            self.h0 = [self.df] + vech(self.v)
        else:
            self.s_hy, self.h0 = PD(p), vech(plus(self.scatter,
                                                  times(spd(p, 3), 0.1)))
            self.scatter = pd_full(self.h0, p)

    def opt(self, h):
        p = self.p
        df, v, s = self.df, self.v, self.scatter
        if self.hyper == 'prior':
            df, v = h[0], pd_full(h[1:], p)
        if self.hyper == 'scatter':
            s = pd_full(h, p)
        inv = plus(inverse(v), s)
        df = df + float(self.n_obs)
        if self.hyper == 'tilt':
            df = df + h[0] * 2.
            t = pd_full(h[1:], p)
            inv = plus(inv, [[t[i][j] * (-2. if i == j else -1.)
                              for j in range(p)] for i in range(p)])
        return [df] + vech(inverse(inv))

    def out(self, x):
        p = self.p
        v = pd_full(x[1:], p)
        res = [xf.e_log_det_wishart(x[0], v)] + [x[0] * a for a in x[1:]]
        if self.hyper != 'tilt':
            res = res + [a / (x[0] - (p + 1.)) for a in vech(inverse(v))]
        return res

    def covariance(self):
        p = self.p
        x = self.opt(self.h0)
        v, k = pd_full(x[1:], p), pairs(p)
        first = [sum(jet.polygamma(1, 0.5 * (x[0] - i)) for i in range(p))] + \
            [2. * v[i][j] for i, j in k]
        return [first] + [
            [first[1 + r]] + [x[0] * (v[i][a] * v[j][b] + v[i][b] * v[j][a])
                              for a, b in k] for r, (i, j) in enumerate(k)]

    def bind(self, par, hyp):
        vb, ef, ru = lib()
        p = self.p

        def out():
            res = [par.e_log_det(), real_vech(par.e())]
            if self.hyper != 'tilt':
                res.append(real_vech(par.e_inv()))
            return cat(*res)

        def prior(df, v):
            return 0.5 * (df - p - 1) * par.e_log_det() - \
                0.5 * anp.trace(anp.dot(anp.linalg.inv(v), par.e()))

        def loglik(s):
            return 0.5 * self.n_obs * par.e_log_det() - \
                0.5 * anp.sum(s * par.e())

        def part():
            if self.hyper == 'tilt':
                return -1. * anp.sum(hyp.get() * out())
            if self.hyper == 'prior':
                return -1. * prior(hyp['df'].get(), hyp['v'].get())
            return -1. * loglik(hyp.get())

        def whole():
            rest = par.entropy()
            if self.hyper != 'prior':
                rest = rest + prior(self.df, A(self.v))
            if self.hyper != 'scatter':
                rest = rest + loglik(A(self.scatter))
            return part() - rest
        return whole, part, out


# Regression -----------------------------------------------------------------------

class Regression(Analysis):
    """Bayesian linear regression with known noise"""
    n_obs = 4
    forward = False

    def __init__(self, d, hyper, which=0):
        self.d, self.hyper = d, hyper
        self.label = 'regression %d %s %d' % (d, hyper, which)
        self.x = rows(point(self.n_obs * d, which), d)
        self.y = point(self.n_obs, which + 1)
        self.noise = 1.7
        self.m, self.p = point(d, which + 2), spd(d, which)
        self.s_in = ref.mvn(d)
        if hyper == 'y':
            self.s_hy, self.h0 = Vector(self.n_obs), self.y
        elif hyper == 'noise':
            self.s_hy, self.h0 = Scalar(0.), [self.noise]
        else:
            self.s_hy = Array((self.n_obs, d))
            self.h0 = [v for r in self.x for v in r]

    def opt(self, h):
        x, y, noise = self.x, self.y, self.noise
        if self.hyper == 'y':
            y = h
        elif self.hyper == 'noise':
            noise = h[0]
        else:
            x = rows(h, self.d)
        xt = transpose(x)
        info = plus(self.p, times(matmul(xt, x), noise))
        lin = [a + b * noise for a, b in zip(matvec(self.p, self.m),
                                             matvec(xt, y))]
        return matvec(inverse(info), lin) + vech(info)

    def out(self, v):
        return v[:self.d] + vech(inverse(pd_full(v[self.d:], self.d)))

    def updates(self):
        """What the updates of regression_utils say"""
        vb, ef, ru = lib()
        mean, info = ru.get_posterior_regression_coefficients(
            A(self.y), A(self.x), self.noise, A(self.m), A(self.p))
        return np.concatenate([mean, [info[i, j] for i, j in pairs(self.d)]])

    def bind(self, par, hyp):
        vb, ef, ru = lib()

        def out():
            return cat(par.e(), real_vech(par.cov()))

        def part():
            h = hyp.get()
            y = h if self.hyper == 'y' else A(self.y)
            x = h if self.hyper == 'x' else A(self.x)
            noise = h if self.hyper == 'noise' else self.noise
            # through the natural parameters of the likelihood
            if self.hyper == 'noise':
                one, two = ru.get_nat_params_from_likelihood(y, x, 1.)
                one, two = one * noise, two * noise
            else:
                one, two = ru.get_nat_params_from_likelihood(y, x, noise)
            return -1. * anp.sum(one * par.e()) - \
                anp.sum(two * par.e_outer())

        def whole():
            return part() - ef.mvn_prior(
                A(self.m), A(self.p), par.e(), par.cov()) - par.entropy()
        return whole, part, out


class Weighted(Analysis):
    """Maximum likelihood of the example notebook: y_n ~ N(beta x_n, lambda^-1)
    with weights."""
    n_obs = 7
    forward = False

    def __init__(self, p, q, which=0):
        self.p, self.q = p, q
        self.label = 'weighted %d %d %d' % (p, q, which)
        self.x = rows([abs(v) + 0.1 for v in point(self.n_obs * p, which)], p)
        self.beta = rows(pos(p * q, which + 1), q)
        noise = rows(point(self.n_obs * q, which + 2), q)
        self.y = plus(matmul(self.x, self.beta), times(noise, 0.15))
        self.s_in = Dict([('beta', Array((p, q), 0.)), ('lambda', PD(q))])
        self.s_hy = Vector(self.n_obs, 0.)
        self.h0 = [1. + 0.2 * (i % 3) for i in range(self.n_obs)]

    def opt(self, w):
        xt = transpose(self.x)
        xtw = [[a * b for a, b in zip(r, w)] for r in xt]
        beta = matmul(inverse(matmul(xtw, self.x)), matmul(xtw, self.y))
        res = plus(self.y, times(matmul(self.x, beta), -1.))
        rw = [[a * b for a, b in zip(r, w)] for r in transpose(res)]
        tot = sum_(w)
        cov = [[v / tot for v in r] for r in matmul(rw, res)]
        return [v for r in beta for v in r] + vech(inverse(cov))

    def out(self, v):
        k = self.p * self.q
        return v[:k] + vech(inverse(pd_full(v[k:], self.q)))

    def bind(self, par, hyp):
        x, y = A(self.x), A(self.y)

        def out():
            return cat(par['beta'].get_vector(),
                       real_vech(anp.linalg.inv(par['lambda'].get())))

        def part():
            w = hyp.get()
            r = y - anp.matmul(x, par['beta'].get())
            lam = par['lambda'].get()
            s, logdet = anp.linalg.slogdet(lam)
            return 0.5 * anp.einsum('ni,ij,nj,n', r, lam, r, w) - \
                0.5 * anp.sum(w) * logdet
        return part, part, out


class Multinomial(Analysis):
    """Maximum likelihood of rows of probabilities"""
    vector_ok = False

    def __init__(self, shape, which=0):
        self.shape = tuple(shape)
        self.label = 'multinomial %s %d' % (shape, which)
        self.s_in = Simplex(self.shape)
        self.s_hy = Array(self.shape, 0.)
        self.h0 = pos(ref.prod(shape), which)

    def opt(self, h):
        out = []
        for r in rows(h, self.shape[1]):
            tot = sum_(r)
            out += [v / tot for v in r]
        return out

    def out(self, v):
        return v

    def bind(self, par, hyp):
        def part():
            return -1. * anp.sum(hyp.get() * anp.log(par.get()))
        return part, part, lambda: cat(par.get())


class Constrained(Analysis):
    """Quadratic on a subspace"""
    vector_ok = False

    def __init__(self, d, perp=None, which=0):
        self.label = 'constrained %d %s %d' % (d, perp, which)
        self.d = d
        self.q = spd(d, which)
        self.s_in = Sub(d, perp)
        self.s_hy = Vector(d)
        self.h0 = point(d, which + 1)

    def opt(self, h):
        rws = self.s_in.perp_rows()
        qi = inverse(self.q)
        # x = h - Q^-1 R' (R Q^-1 R')^-1 R h
        qr = matmul(qi, transpose(rws))
        lam = matvec(inverse(matmul(rws, qr)), matvec(rws, h))
        return [a - b for a, b in zip(h, matvec(qr, lam))]

    def out(self, v):
        return v

    def bind(self, par, hyp):
        q = A(self.q)

        def part():
            r = par.get() - hyp.get()
            return 0.5 * anp.dot(r, anp.dot(q, r))
        return part, part, lambda: 1. * par.get()


class Together(Analysis):
    """Several analyses as one"""
    def __init__(self, items, nest=False):
        self.items = items
        self.label = 'together%s: %s' % (' nested' if nest else '',
                                         ', '.join(i.label for i in items))
        names = ['b', 'a', 'd', 'c'][:len(items)]
        self.names = names

        def spec(which):
            kids = [(n, getattr(i, which)) for n, i in zip(names, items)]
            if nest:
                kids = kids[:1] + [('rest', Dict(kids[1:]))]
            return Dict(kids)
        self.nest = nest
        self.s_in, self.s_hy = spec('s_in'), spec('s_hy')
        self.h0 = [v for i in items for v in i.h0]
        self.vector_ok = all(i.vector_ok for i in items)
        self.forward = all(i.forward for i in items)
        if all(i.cov is not None for i in items):
            n = len(self.h0)
            self.cov = [[0.] * n for _ in range(n)]
            k = 0
            for i in items:
                for r, row in enumerate(i.cov):
                    self.cov[k + r][k:k + len(row)] = row
                k += len(i.cov)

    def split(self, v, which):
        out, k = [], 0
        for i in self.items:
            n = getattr(i, which).vec_size
            out.append((i, v[k:k + n]))
            k += n
        return out

    def opt(self, h):
        return [v for i, x in self.split(h, 's_hy') for v in i.opt(x)]

    def out(self, v):
        return [y for i, x in self.split(v, 's_in') for y in i.out(x)]

    def bind(self, par, hyp):
        def child(p, k):
            if self.nest and k > 0:
                p = p['rest']
            return p[self.names[k]]
        bound = [i.bind(child(par, k), child(hyp, k))
                 for k, i in enumerate(self.items)]
        return (lambda: sum(b[0]() for b in bound),
                lambda: sum(b[1]() for b in bound),
                lambda: anp.concatenate([b[2]() for b in bound]))


def complete_autograd():
    """This version of autograd knows the derivatives of the gamma function
    in reverse mode only; expansions need forward mode."""
    from autograd.extend import defjvp
    from autograd.scipy import special
    defjvp(special.gammaln, lambda g, ans, x: g * special.psi(x))
    defjvp(special.psi, lambda g, ans, x: g * special.polygamma(1, x))
    defjvp(special.digamma, lambda g, ans, x: g * special.polygamma(1, x))
    defjvp(special.polygamma, None,
           lambda g, ans, n, x: g * special.polygamma(n + 1, x))


def singles(tier):
    out = []
    for which in (0, 1) if tier == 'quick' else (0, 1, 2, 3):
        for d in (1, 2, 3) if tier == 'quick' else (1, 2, 3, 4):
            for hyper in ('tilt', 'prior', 'data'):
                out.append(Normal(d, hyper, True, 0.1 * which, which))
                if d > 1 and hyper != 'prior':
                    out.append(Normal(d, hyper, False, 0.1 * which, which))
        for hyper in ('tilt', 'prior'):
            out.append(Normals('scalar', (1,), hyper, which))
            out.append(Normals('vector', (3,), hyper, which))
            out.append(Normals('array', (2, 2), hyper, which))
            out.append(Normals('array', (2, 1, 2), hyper, which))
            out.append(Normals('moment', (2, 2), hyper, which))
        out.append(Normals('rows', (2, 3), 'prior', which))
        for hyper in ('tilt', 'prior', 'weights'):
            out.append(Poisson(hyper, 0.2 * which, which))
        for shape in ((3, 1), (2, 1), (3, 2)) + (
                () if tier == 'quick' else ((4, 3), (2, 5))):
            for hyper in ('tilt', 'prior', 'counts'):
                out.append(Categorical(shape, hyper, 0.2 * which, which))
        for hyper in ('tilt', 'prior', 'counts'):
            out.append(Categorical((4,), hyper, 0., which))
        for p in (1, 2) if tier == 'quick' else (1, 2, 3):
            for hyper in ('tilt', 'prior', 'scatter'):
                out.append(Precision(p, hyper, which))
        for d in (1, 2, 3):
            for hyper in ('y', 'noise', 'x'):
                out.append(Regression(d, hyper, which))
        for p, q in ((1, 1), (2, 1), (1, 2), (2, 2)):
            out.append(Weighted(p, q, which))
        for shape in ((1, 2), (1, 4), (3, 3)):
            out.append(Multinomial(shape, which))
        out.append(Constrained(3, None, which))
        out.append(Constrained(4, [[1., 2., 0., -1.], [0., 1., 1., 0.5]],
                               which))
    return out


def compounds(tier):
    lists = [
        [Poisson('tilt'), Normal(2, 'tilt', True)],
        [Categorical((3, 2), 'tilt'), Poisson('tilt', 0.1, 1),
         Normals('array', (2, 2), 'tilt')],
        [Precision(2, 'tilt'), Normal(2, 'tilt', False), Poisson('tilt')],
        [Normal(2, 'prior'), Poisson('weights'), Categorical((3, 1), 'prior')],
        [Weighted(2, 1), Multinomial((2, 3)), Constrained(3)],
        [Precision(2, 'prior'), Regression(2, 'y'),
         Normals('moment', (2, 2), 'prior'), Poisson('prior')]]
    return [Together(items, nest) for items in lists
            for nest in (False, True) if not nest or len(items) > 2]


def large(tier):
    out = [Normal(5, 'tilt', False), Normal(4, 'tilt', True, 0., 1),
           Categorical((9, 2), 'tilt'), Categorical((5, 3), 'counts'),
           Normals('array', (3, 4), 'tilt'), Normals('vector', (11,), 'prior'),
           Precision(3, 'tilt'), Multinomial((3, 5)), Constrained(12)]
    if tier != 'quick':
        out += [Normal(12, 'tilt', False), Normal(6, 'tilt', True),
                Normal(5, 'prior', True), Categorical((30, 2), 'tilt'),
                Normals('array', (5, 7), 'tilt'), Precision(4, 'prior'),
                Weighted(3, 3), Multinomial((6, 6)), Constrained(30)]
    return out


def wide(tier):
    """Larger still, for the cheapest routes"""
    out = [Precision(4, 'tilt'), Precision(5, 'scatter'), Precision(4, 'prior'),
           Normal(8, 'tilt', False), Normal(5, 'prior', True),
           Categorical((12, 2), 'tilt'), Categorical((3, 9), 'counts'),
           Normals('array', (4, 2, 3), 'tilt'), Regression(5, 'y'),
           Multinomial((4, 6))]
    if tier != 'quick':
        out += [Precision(6, 'tilt'), Normal(20, 'tilt', False),
                Categorical((50, 2), 'tilt'), Normals('array', (9, 9), 'tilt'),
                Regression(8, 'noise')]
    return out
