"""Numbers a + sum over nonempty subsets S of {1..n} of c_S e_S, e_i^2 = 0.

The coefficient of the full set in f(x + e_1 v_1 + ... + e_n v_n) is the mixed
directional derivative of f along v_1, ..., v_n."""
from . import jet


class Multi(object):
    __slots__ = ('n', 'c')

    def __init__(self, n, c):
        self.n, self.c = n, c           # dict: bit mask -> coefficient

    def __add__(self, o):
        if isinstance(o, Multi):
            c = dict(self.c)
            for k, v in o.c.items():
                c[k] = c[k] + v if k in c else v
            return Multi(self.n, c)
        c = dict(self.c)
        c[0] = c[0] + o if 0 in c else o
        return Multi(self.n, c)
    __radd__ = __add__

    def __mul__(self, o):
        if isinstance(o, Multi):
            c = {}
            for k, v in self.c.items():
                for m, w in o.c.items():
                    if not k & m:
                        p = v * w
                        c[k | m] = c[k | m] + p if k | m in c else p
            return Multi(self.n, c)
        return Multi(self.n, {k: v * o for k, v in self.c.items()})
    __rmul__ = __mul__

    def __neg__(self):
        return self * -1.0

    def __sub__(self, o):
        return self + o * -1.0

    def __rsub__(self, o):
        return self * -1.0 + o

    def sexp(self):
        base = jet.exp(self.c.get(0, 0.))
        nil = Multi(self.n, {k: v for k, v in self.c.items() if k})
        out, power, fact = Multi(self.n, {0: 1.0}), Multi(self.n, {0: 1.0}), 1.
        for k in range(1, self.n + 1):
            power = power * nil
            fact *= k
            out = out + power * (1. / fact)
        return out * base


def mixed(fun, args, directions):
    """directions: list of (argument number, vector).  The mixed directional
    derivative of fun(*args) (list valued) along all of them."""
    n = len(directions)
    lifted = []
    for k, a in enumerate(args):
        row = []
        for i, x in enumerate(a):
            c = {0: x}
            for b, (which, v) in enumerate(directions):
                if which == k:
                    c[1 << b] = v[i]
            row.append(Multi(n, c))
        lifted.append(row)
    full = (1 << n) - 1
    out = []
    for y in fun(*lifted):
        out.append(y.c.get(full, 0.) if isinstance(y, Multi) else
                   (y if n == 0 else 0.))
    return out
