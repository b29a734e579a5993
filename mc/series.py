"""Truncated power series in one variable, plain Python."""
import math


class Series(object):
    __slots__ = ('c',)

    def __init__(self, c):
        self.c = list(c)

    def _lift(self, o):
        if isinstance(o, Series):
            return o.c
        return [float(o)] + [0.] * (len(self.c) - 1)

    def __add__(self, o):
        if not isinstance(o, (Series, int, float)):
            return NotImplemented
        return Series([a + b for a, b in zip(self.c, self._lift(o))])
    __radd__ = __add__

    def __neg__(self):
        return Series([-a for a in self.c])

    def __sub__(self, o):
        if not isinstance(o, (Series, int, float)):
            return NotImplemented
        return Series([a - b for a, b in zip(self.c, self._lift(o))])

    def __rsub__(self, o):
        return (-self) + o

    def __mul__(self, o):
        if isinstance(o, (int, float)):
            return Series([a * o for a in self.c])
        if not isinstance(o, Series):
            return NotImplemented
        n = len(self.c)
        return Series([math.fsum(self.c[i] * o.c[k - i] for i in range(k + 1))
                       for k in range(n)])
    __rmul__ = __mul__

    def __truediv__(self, o):
        if isinstance(o, (int, float)):
            return Series([a / o for a in self.c])
        if not isinstance(o, Series):
            return NotImplemented
        n = len(self.c)
        out = []
        for k in range(n):
            s = self.c[k] - math.fsum(o.c[k - i] * out[i] for i in range(k))
            out.append(s / o.c[0])
        return Series(out)

    def __rtruediv__(self, o):
        return Series(self._lift(o)) / self

    def sexp(self):
        n = len(self.c)
        out = [math.exp(self.c[0])]
        for k in range(1, n):
            out.append(math.fsum(i * self.c[i] * out[k - i]
                                 for i in range(1, k + 1)) / k)
        return Series(out)

    def slog(self):
        n = len(self.c)
        out = [math.log(self.c[0])]
        for k in range(1, n):
            s = k * self.c[k] - math.fsum(
                i * out[i] * self.c[k - i] for i in range(1, k))
            out.append(s / (k * self.c[0]))
        return Series(out)


def implicit(gradient, hess0, eta0, eps_of_t, order):
    """Power series of eta(t) with gradient(eta(t), eps(t)) = 0, eta(0) = eta0.

    gradient takes lists of Series and returns a list of Series; hess0 is its
    Jacobian in eta at t = 0 (lists of floats).  Returns a list of Series."""
    from . import jet
    inv = jet.inverse(hess0)
    eta = [Series([x] + [0.] * order) for x in eta0]
    for k in range(1, order + 1):
        res = gradient(eta, eps_of_t)
        step = jet.matvec(inv, [-r.c[k] for r in res])
        for i in range(len(eta)):
            eta[i].c[k] += step[i]
    return eta
