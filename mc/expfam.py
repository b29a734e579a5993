"""Textbook formulas, generic over the scalar type."""
import math

from . import jet
from .jet import exp, log, lgamma, digamma, sum_, dot, matvec, logdet, inverse

LOG2PI = math.log(2 * math.pi)


def mv_digamma(a, p):
    return sum_(digamma(a + -0.5 * j) for j in range(p))


def mv_lgamma(a, p):
    return sum_(lgamma(a + -0.5 * j) for j in range(p)) + \
        0.25 * p * (p - 1) * math.log(math.pi)


def multinoulli_entropy(row):
    return sum_(p * log(p) for p in row if jet.value(p) != 0.) * -1.0


def uvn_entropy(info):
    return log(info) * -0.5 + 0.5 * (1. + LOG2PI)


def mvn_entropy(info):
    k = len(info)
    return logdet(info) * -0.5 + 0.5 * k * (1. + LOG2PI)


def gamma_entropy(a, b):
    return a - log(b) + lgamma(a) + (1.0 - a) * digamma(a)


def dirichlet_entropy(alpha):
    k = len(alpha)
    tot = sum_(alpha)
    return sum_(lgamma(a) for a in alpha) - lgamma(tot) + \
        (tot - float(k)) * digamma(tot) - \
        sum_((a - 1.0) * digamma(a) for a in alpha)


def wishart_entropy(n, v):
    p = len(v)
    return logdet(v) * (0.5 * (p + 1)) + 0.5 * p * (p + 1) * math.log(2.) + \
        mv_lgamma(n * 0.5, p) - \
        (n - (p + 1.0)) * 0.5 * mv_digamma(n * 0.5, p) + n * (0.5 * p)


def e_log_det_wishart(n, v):
    p = len(v)
    return mv_digamma(n * 0.5, p) + p * math.log(2.) + logdet(v)


def e_log_inv_wishart_diag(n, v):
    p = len(v)
    vi = inverse(v)
    return [log(vi[i][i]) - digamma((n - (p - 1.0)) * 0.5) - math.log(2.)
            for i in range(p)]


def expected_log_det_corr(n, v):
    """E log |R| for the correlation matrix R of inv(W), W ~ Wishart."""
    return e_log_det_wishart(n, v) * -1.0 - sum_(e_log_inv_wishart_diag(n, v))


def e_lognormal(m, v):
    return exp(m + v * 0.5)


def var_lognormal(m, v):
    return (exp(v) - 1.0) * exp(m * 2.0 + v)


def e2_lognormal(m, v):
    return exp(m * 2.0 + v * 2.0)


def e_log_gamma(a, b):
    return digamma(a) - log(b)


def e_dirichlet(alpha):
    tot = sum_(alpha)
    return [a / tot for a in alpha]


def e_log_dirichlet(alpha):
    tot = digamma(sum_(alpha))
    return [digamma(a) - tot for a in alpha]


def mvn_log_prior(mean, info, e, cov):
    d = [a - b for a, b in zip(e, mean)]
    n = len(e)
    return (dot(d, matvec(info, d)) + sum_(
        info[i][j] * cov[j][i] for i in range(n) for j in range(n))) * -0.5


def columns(flat, shape):
    """Flat (row major) values of an array -> for every index of the trailing
    dimensions, the list along dimension 0."""
    k = shape[0]
    m = len(flat) // k
    return [[flat[i * m + j] for i in range(k)] for j in range(m)]


def from_columns(cols):
    return [c[i] for i in range(len(cols[0])) for c in cols]
