"""Second-order forward-mode differentiation in plain Python.

An oracle that shares nothing with the code under test (no autograd, no numpy).
The generic functions exp, log, sqrt, lgamma, digamma accept numbers, jets,
power series (mc/series.py), and jets with power series for coefficients.
"""
import math


class Jet(object):
    __slots__ = ('n', 'v', 'g', 'h')

    def __init__(self, n, v, g, h):
        self.n = n
        self.v = v      # value
        self.g = g      # list of n first derivatives
        self.h = h      # list of n lists (lower triangle, row i has i+1 items)

    def __add__(self, o):
        if isinstance(o, Jet):
            n = self.n
            return Jet(n, self.v + o.v,
                       [self.g[i] + o.g[i] for i in range(n)],
                       [[self.h[i][j] + o.h[i][j] for j in range(i + 1)]
                        for i in range(n)])
        return Jet(self.n, self.v + o, self.g, self.h)
    __radd__ = __add__

    def __neg__(self):
        return self * -1.0

    def __sub__(self, o):
        return self + o * -1.0

    def __rsub__(self, o):
        return (self * -1.0) + o

    def __mul__(self, o):
        n = self.n
        if isinstance(o, Jet):
            a, b = self, o
            return Jet(n, a.v * b.v,
                       [a.g[i] * b.v + b.g[i] * a.v for i in range(n)],
                       [[a.h[i][j] * b.v + b.h[i][j] * a.v +
                         a.g[i] * b.g[j] + a.g[j] * b.g[i]
                         for j in range(i + 1)] for i in range(n)])
        return Jet(n, self.v * o, [x * o for x in self.g],
                   [[x * o for x in row] for row in self.h])
    __rmul__ = __mul__

    def chain(self, f0, f1, f2):
        n = self.n
        g = self.g
        return Jet(n, f0, [f1 * x for x in g],
                   [[f1 * self.h[i][j] + f2 * g[i] * g[j]
                     for j in range(i + 1)] for i in range(n)])

    def recip(self):
        r = 1.0 / self.v
        return self.chain(r, -1.0 * r * r, 2.0 * r * r * r)

    def __truediv__(self, o):
        if isinstance(o, Jet):
            return self * o.recip()
        return self * (1.0 / o)

    def __rtruediv__(self, o):
        return self.recip() * o

    def __pow__(self, k):
        assert isinstance(k, int) and k >= 0
        if k == 0:
            return self * 0.0 + 1.0
        out = self
        for _ in range(k - 1):
            out = out * self
        return out

    def grad(self):
        return list(self.g)

    def hess(self):
        n = self.n
        return [[self.h[max(i, j)][min(i, j)] for j in range(n)]
                for i in range(n)]


def variables(values):
    n = len(values)
    out = []
    for k in range(n):
        z = values[k] * 0.0
        g = [z] * n
        g[k] = z + 1.0
        out.append(Jet(n, values[k], g, [[z] * (i + 1) for i in range(n)]))
    return out


def value(x):
    while isinstance(x, Jet):
        x = x.v
    return x


def exp(x):
    if isinstance(x, Jet):
        e = exp(x.v)
        return x.chain(e, e, e)
    if hasattr(x, 'sexp'):
        return x.sexp()
    return math.exp(x)


def log(x):
    if isinstance(x, Jet):
        r = 1.0 / x.v
        return x.chain(log(x.v), r, -1.0 * r * r)
    if hasattr(x, 'slog'):
        return x.slog()
    return math.log(x)


def sqrt(x):
    if isinstance(x, Jet):
        s = sqrt(x.v)
        return x.chain(s, 0.5 / s, -0.25 / (s * x.v))
    if hasattr(x, 'slog'):
        return exp(log(x) * 0.5)
    return math.sqrt(x)


# log Gamma and its derivatives --------------------------------------------

_B = [1. / 6, -1. / 30, 1. / 42, -1. / 30, 5. / 66, -691. / 2730, 7. / 6]


def polygamma(m, x):
    """d^{m+1}/dx^{m+1} log Gamma(x), x > 0."""
    total = 0.
    sign = (-1.) ** (m + 1)
    fact = math.factorial(m)
    while x < 15.:
        if m == 0:
            total -= 1. / x
        else:
            total += sign * fact / x ** (m + 1)
        x += 1.
    if m == 0:
        s = math.log(x) - 0.5 / x
        for k, b in enumerate(_B):
            n = 2 * (k + 1)
            s -= b / (n * x ** n)
        return total + s
    s = math.factorial(m - 1) / x ** m + fact / (2. * x ** (m + 1))
    for k, b in enumerate(_B):
        n = 2 * (k + 1)
        s += b * math.factorial(n + m - 1) / (math.factorial(n) * x ** (n + m))
    return total + sign * s


def lgamma(x):
    if isinstance(x, Jet):
        return x.chain(math.lgamma(x.v), polygamma(0, x.v), polygamma(1, x.v))
    return math.lgamma(x)


def digamma(x):
    if isinstance(x, Jet):
        return x.chain(polygamma(0, x.v), polygamma(1, x.v), polygamma(2, x.v))
    return polygamma(0, x)


# Small dense linear algebra over any of these scalars -----------------------

def matmul(a, b):
    return [[sum_(a[i][k] * b[k][j] for k in range(len(b)))
             for j in range(len(b[0]))] for i in range(len(a))]


def matvec(a, v):
    return [sum_(a[i][k] * v[k] for k in range(len(v))) for i in range(len(a))]


def transpose(a):
    return [list(r) for r in zip(*a)]


def sum_(items):
    items = list(items)
    if not items:
        return 0.0
    out = items[0]
    for x in items[1:]:
        out = out + x
    return out


def dot(a, b):
    return sum_(x * y for x, y in zip(a, b))


def eliminate(a, b):
    """Gauss elimination with pivoting on the values: (solution of a x = b
    with matrix b, determinant of a)."""
    n = len(a)
    a = [list(r) for r in a]
    b = [list(r) for r in b]
    det = 1.0
    for c in range(n):
        p = max(range(c, n), key=lambda r: abs(_num(a[r][c])))
        if p != c:
            a[c], a[p] = a[p], a[c]
            b[c], b[p] = b[p], b[c]
            det = det * -1.0
        piv = a[c][c]
        det = piv * det
        for r in range(n):
            if r == c:
                continue
            f = a[r][c] / piv
            a[r] = [a[r][k] - f * a[c][k] for k in range(n)]
            b[r] = [b[r][k] - f * b[c][k] for k in range(len(b[r]))]
    return [[b[r][k] / a[r][r] for k in range(len(b[r]))] for r in range(n)], det


def _num(x):
    x = value(x)
    if hasattr(x, 'c'):
        return x.c[0]
    return x


def inverse(a):
    n = len(a)
    return eliminate(a, [[1.0 if i == j else 0.0 for j in range(n)]
                         for i in range(n)])[0]


def det(a):
    return eliminate(a, [[] for _ in a])[1]


def logdet(a):
    return log(det(a))
