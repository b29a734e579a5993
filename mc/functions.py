"""Smooth test functions of parameters, twice: on the real parameter with
autograd's numpy, and on reference vectors with any scalar type."""
import numpy as np
import autograd.numpy as anp

from . import ref, jet
from .jet import exp, sum_, dot


def entries(spec, vec):
    """The entries of get(), flattened, leaf by leaf."""
    if spec.is_dict:
        return [e for _, s, v in spec.split_vec(vec) for e in entries(s, v)]
    if isinstance(spec, ref.PD):
        return [e for row in ref.pd_full(vec, spec.size) for e in row]
    if isinstance(spec, ref.PDV):
        return [e for x in spec._each(vec)
                for row in ref.pd_full(x, spec.size) for e in row]
    return list(vec)


def real_entries(par, spec):
    if spec.is_dict:
        if not spec.children:
            return anp.zeros(0)
        return anp.concatenate(
            [real_entries(par[n], s) for n, s in spec.children])
    return anp.reshape(par.get(), (-1,))


def weights(n, which):
    return ref.point(n, which)


class Fun(object):
    """value(entries, *args, **kwargs); generic over scalars."""
    takes_args = False

    def __init__(self, spec, which=0, through='get'):
        self.spec = spec
        self.through = through
        self.n = len(entries(spec, [0.] * spec.vec_size)) \
            if through == 'get' else spec.vec_size
        self.a = weights(self.n, 1 + which)
        self.b = [0.5 * w for w in weights(self.n, 3 + which)]
        self.c = weights(self.n, 2 + which)

    # reference
    def of_vec(self, vec, *args, **kwargs):
        e = entries(self.spec, vec) if self.through == 'get' else list(vec)
        return self.formula(e, self.a, self.b, self.c, dot, exp,
                            *args, **kwargs)

    def of_free(self, free, *args, **kwargs):
        return self.of_vec(self.spec.fwd(free), *args, **kwargs)

    # real
    def bind(self, par):
        a, b, c = map(np.array, (self.a, self.b, self.c))

        def fun(*args, **kwargs):
            e = real_entries(par, self.spec) if self.through == 'get' \
                else par.get_vector()
            return self.formula(e, a, b, c, lambda x, y: anp.sum(x * y),
                                anp.exp, *args, **kwargs)
        return fun

    def formula(self, e, a, b, c, dot, exp):
        s = dot(a, e)
        return s * s * 0.5 + exp(dot(b, e) * 0.4) * 1.5 + \
            dot(c, e) * s + s * s * s * 0.1


class ArgFun(Fun):
    """The arguments all matter, in different ways."""
    takes_args = True

    def formula(self, e, a, b, c, dot, exp, p, q=0.7, r=-0.3):
        s = dot(a, e)
        return s * s * (0.5 * p) + exp(dot(b, e) * (0.4 * q)) + \
            dot(c, e) * s * r + dot(c, e) * (p - 2. * q)


class QuadraticFun(Fun):
    def formula(self, e, a, b, c, dot, exp):
        s = dot(a, e)
        t = dot(b, e)
        return s * s * 0.5 - s * t * 0.3 + t * t


class LinearFun(Fun):
    def formula(self, e, a, b, c, dot, exp):
        return dot(a, e) * 1.0


class ScaledFun(Fun):
    """Fun times a constant of any magnitude."""
    scale = 1.

    def formula(self, *args, **kwargs):
        return Fun.formula(self, *args, **kwargs) * self.scale


class FlatFun(Fun):
    """Fun of the entries shrunk by a constant: every derivative has its own
    magnitude."""
    scale = 1.

    def formula(self, e, a, b, c, dot, exp):
        s, t, u = dot(a, e) * self.scale, dot(b, e) * self.scale, \
            dot(c, e) * self.scale
        return s * s * 0.5 + t * t * t + u * s + u * 0.3 + t * u * s * 0.2


class ManyFun(Fun):
    """Array valued: three outputs, or any shape."""
    shape = (3,)

    def formula(self, e, a, b, c, dot, exp, shift=0.):
        s, t, u = dot(a, e), dot(b, e), dot(c, e)
        out = [s * t + shift, exp(s * 0.3) * 1.2,
               u * u * 0.5 - t * (1. + shift)]
        size = int(np.prod(self.shape))
        return [out[i % 3] * (1. + i // 3) for i in range(size)]

    def bind(self, par):
        base = Fun.bind(self, par)
        return lambda *args, **kwargs: anp.reshape(
            anp.array(base(*args, **kwargs)), self.shape)


def derivatives(f, point, *args, **kwargs):
    """(value, gradient, Hessian) of f at a point by jets."""
    n = len(point)
    out = f(jet.variables([float(x) for x in point]), *args, **kwargs)
    if not isinstance(out, jet.Jet):
        return float(out), [0.] * n, [[0.] * n for _ in range(n)]
    return out.v, out.grad(), out.hess()


def jacobian(f, point, *args, **kwargs):
    outs = f(jet.variables([float(x) for x in point]), *args, **kwargs)
    n = len(point)
    return ([jet.value(o) for o in outs],
            [o.grad() if isinstance(o, jet.Jet) else [0.] * n for o in outs])


# Functions of two parameters -----------------------------------------------------

class Fun2(object):
    def __init__(self, spec1, spec2, which=0):
        self.spec1, self.spec2 = spec1, spec2
        n1 = len(entries(spec1, [0.] * spec1.vec_size))
        n2 = len(entries(spec2, [0.] * spec2.vec_size))
        self.w1 = [weights(n1, k + which) for k in (0, 1, 3)]
        self.w2 = [weights(n2, k + which) for k in (2, 3, 0)]

    def of_vecs(self, v1, v2, *args, **kwargs):
        return self.formula(entries(self.spec1, v1), entries(self.spec2, v2),
                            self.w1, self.w2, dot, exp, *args, **kwargs)

    def bind(self, par1, par2):
        w1 = [np.array(w) for w in self.w1]
        w2 = [np.array(w) for w in self.w2]

        def fun(*args, **kwargs):
            return self.formula(
                real_entries(par1, self.spec1), real_entries(par2, self.spec2),
                w1, w2, lambda x, y: anp.sum(x * y), anp.exp, *args, **kwargs)
        return fun

    def formula(self, e1, e2, w1, w2, dot, exp, p=1., q=0.5):
        s, t, u = (dot(w, e1) for w in w1)
        x, y, z = (dot(w, e2) for w in w2)
        return s * x * p + t * t * y + u * z * z * q + \
            exp((s + y) * 0.2) + u * y * s + t * x + z * 2. + u * (1. + q)


def mixed(spec1, spec2, f2, p1, p2, free1, free2, *args, **kwargs):
    """(value, grad1, grad2, hessian12) at a pair of points, each in the free
    or the vector representation."""
    n1, n2 = len(p1), len(p2)
    x = jet.variables([float(v) for v in list(p1) + list(p2)])
    x1, x2 = x[:n1], x[n1:]
    v1 = spec1.fwd(x1) if free1 else x1
    v2 = spec2.fwd(x2) if free2 else x2
    out = f2(v1, v2, *args, **kwargs)
    g, h = out.grad(), out.hess()
    return out.v, g[:n1], g[n1:], [row[n1:] for row in h[:n1]]


# Conversions ---------------------------------------------------------------------

class Conversion(object):
    """Sets every leaf of the output to a valid, smooth function of the input.

    The output's free value is an affine-exponential function of the input's
    entries; the converter sets the output's leaves through set_free or set."""
    def __init__(self, spec_in, spec_out, which=0, how='free'):
        self.spec_in, self.spec_out, self.how = spec_in, spec_out, how
        self.n = len(entries(spec_in, [0.] * spec_in.vec_size))
        self.rows = [weights(self.n, k + which)
                     for k in range(spec_out.free_size)]
        self.rows = [[0.4 * w for w in r[k % self.n:] + r[:k % self.n]]
                     for k, r in enumerate(self.rows)]

    def out_free(self, vec_in):
        e = entries(self.spec_in, vec_in)
        return [self.one(k, dot(r, e), exp) for k, r in enumerate(self.rows)]

    @staticmethod
    def one(k, s, exp):
        return s * 0.6 + s * s * 0.2 + exp(s * 0.3) * (0.1 * (k + 1))

    def out_vec(self, vec_in):
        return self.spec_out.fwd(self.out_free(vec_in))

    def bind(self, par_in, par_out):
        rows = [np.array(r) for r in self.rows]

        def convert():
            e = real_entries(par_in, self.spec_in)
            free = anp.array([self.one(k, anp.sum(r * e), anp.exp)
                              for k, r in enumerate(rows)])
            par_out.set_free(free)
        return convert
