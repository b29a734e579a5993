"""Objectives of an input and a hyperparameter with known optima."""
import math

import numpy as np
import autograd.numpy as anp

from . import jet, ref
from . import functions as fn
from .series import Series, implicit


class ListOps(object):
    exp = staticmethod(jet.exp)
    dot = staticmethod(jet.dot)

    @staticmethod
    def sub(x, y):
        return [a - b for a, b in zip(x, y)]

    @staticmethod
    def mul(x, y):
        return [a * b for a, b in zip(x, y)]


class ArrayOps(object):
    exp = staticmethod(anp.exp)

    @staticmethod
    def dot(x, y):
        return anp.sum(anp.array(x) * y)

    @staticmethod
    def sub(x, y):
        return x - anp.array(y)

    @staticmethod
    def mul(x, y):
        return anp.array(x) * y


class Model(object):
    """minimize base(input) + coupling(input, hyper) over the input.

    The optimum at the hyperparameter of base point 0 is known in closed form,
    the others are found by Newton steps with jets."""
    def __init__(self, s_in, s_hy, which=0):
        self.s_in, self.s_hy = s_in, s_hy
        self.in0 = [0.6 * x for x in ref.point(s_in.free_size, which)]
        self.hy0 = [0.6 * x for x in ref.point(s_hy.free_size, which + 1)]
        self.e0 = self._entries(s_in, s_in.fwd(self.in0))
        self.h0 = self._entries(s_hy, s_hy.fwd(self.hy0))
        n, m = len(self.e0), len(self.h0)
        self.w = [1.0 + 0.3 * ((3 * i + which) % 4) for i in range(n)]
        self.a, self.b, self.c = (fn.weights(n, k + which) for k in (1, 3, 2))
        self.p, self.q, self.r = (fn.weights(m, k + which) for k in (0, 2, 3))
        self.ph0 = math.exp(0.4 * jet.dot(self.p, self.h0))
        x, y = jet.dot(self.q, self.h0), jet.dot(self.r, self.h0)
        self.qh0 = x * (1. + 0.5 * y)
        self._base = {}

    @staticmethod
    def _entries(spec, vec):
        return [float(x) for x in fn.entries(spec, vec)]

    # the two parts, for lists of scalars or for arrays
    def _base_part(self, e, ops):
        d = ops.sub(e, self.e0)
        s, t, u = ops.dot(self.a, d), ops.dot(self.b, d), ops.dot(self.c, d)
        return ops.dot(self.w, ops.mul(d, d)) * 0.5 + s * s * 0.5 + \
            s * t * u * 0.3 + t * t * t * 0.15 + \
            (ops.exp(s * 0.4) - 1. - s * 0.4)

    def _coupling(self, e, h, ops):
        d = ops.sub(e, self.e0)
        s, t, u = ops.dot(self.a, d), ops.dot(self.b, d), ops.dot(self.c, d)
        ph = ops.exp(ops.dot(self.p, h) * 0.4) - self.ph0
        x, y = ops.dot(self.q, h), ops.dot(self.r, h)
        qh = x * (1. + y * 0.5) - self.qh0
        return s * ph + t * qh + u * ph * 0.6 + u * u * qh * 0.3 + \
            s * t * y * ph * 0.2 + x * y

    def reference(self, v_in, v_hy):
        e = fn.entries(self.s_in, v_in)
        h = fn.entries(self.s_hy, v_hy)
        return self._base_part(e, ListOps) + self._coupling(e, h, ListOps)

    def bind(self, par_in, par_hy):
        """(whole objective, the part with the hyperparameter)"""
        def e():
            return fn.real_entries(par_in, self.s_in)

        def h():
            return fn.real_entries(par_hy, self.s_hy)

        def whole():
            return self._base_part(e(), ArrayOps) + \
                self._coupling(e(), h(), ArrayOps)

        def part():
            return self._coupling(e(), h(), ArrayOps)
        return whole, part

    # base points ---------------------------------------------------------------
    def free_base(self, k):
        """(input, hyper) free values at an optimum."""
        if k not in self._base:
            if k == 0:
                self._base[k] = (list(self.in0), list(self.hy0))
            else:
                hy = [x + 0.12 * y for x, y in zip(
                    self.hy0, ref.point(self.s_hy.free_size, k + 1))]
                vh = self.s_hy.fwd(hy)
                x = list(self.in0)
                for _ in range(60):
                    f = self.reference(self.s_in.fwd(jet.variables(x)), vh)
                    g = f.grad()
                    step = jet.matvec(jet.inverse(f.hess()), g)
                    big = max(abs(s) for s in step)
                    if big > 0.3:
                        step = [s * 0.3 / big for s in step]
                    x = [a - s for a, s in zip(x, step)]
                    if big < 1e-14:
                        break
                assert max(abs(v) for v in g) < 1e-10, 'no optimum'
                self._base[k] = (x, hy)
        return self._base[k]

    def base(self, k, in_free, hy_free):
        x, h = self.free_base(k)
        return (x if in_free else self.s_in.fwd(x),
                h if hy_free else self.s_hy.fwd(h))

    def hessians(self, k, in_free, hy_free):
        """(Hessian in the input, cross Hessian) at a base point."""
        x, h = self.base(k, in_free, hy_free)
        return self.hessians_at(x, h, in_free, hy_free)

    def hessians_at(self, x, h, in_free, hy_free):
        n = len(x)
        v = jet.variables([float(a) for a in list(x) + list(h)])
        vi = self.s_in.fwd(v[:n]) if in_free else v[:n]
        vh = self.s_hy.fwd(v[n:]) if hy_free else v[n:]
        hess = self.reference(vi, vh).hess()
        return ([row[:n] for row in hess[:n]], [row[n:] for row in hess[:n]])

    def sensitivity(self, k, in_free, hy_free, hess=None):
        h11, h12 = self.hessians(k, in_free, hy_free)
        inv = jet.inverse(h11 if hess is None else hess)
        return [[-x for x in row] for row in jet.matmul(inv, h12)]

    def derivatives(self, k, in_free, hy_free, direction, order, hess=None):
        """[d^j eta / dt^j for j = 0..order] along h0 + t * direction.

        With a given Hessian the recursion uses it in place of the own one."""
        x, h = self.base(k, in_free, hy_free)
        h11, _ = self.hessians(k, in_free, hy_free)
        eps = [Series([a, d] + [0.] * (order - 1))
               for a, d in zip(h, direction)]

        def gradient(eta, eps_t):
            v = jet.variables(eta)
            vi = self.s_in.fwd(v) if in_free else v
            vh = self.s_hy.fwd(eps_t) if hy_free else eps_t
            return self.reference(vi, vh).grad()

        eta = implicit(gradient, h11 if hess is None else hess, x, eps, order)
        return [[s.c[j] * math.factorial(j) for s in eta]
                for j in range(order + 1)]


class Known(object):
    """An objective whose optimum is a given polynomial of the hyperparameter:
    any derivative may vanish, and all units may be chosen."""
    def __init__(self, coefs, in_unit=1., hy_unit=1., fun_unit=1., h0=0.):
        self.coefs, self.h0 = coefs, h0
        self.units = (in_unit, hy_unit, fun_unit)

    def bind(self, p_in, p_hy):
        import autograd.numpy as anp
        iu, hu, fu = self.units

        def eta():
            t = p_hy.get()[0] / hu - self.h0
            return anp.array([sum(c * t ** k for k, c in enumerate(row))
                              for row in self.coefs])

        def whole():
            x = p_in.get() / iu
            d = x - eta()
            s = anp.sum(d)
            quad = anp.sum(d * d * anp.array(
                [1. + 0.5 * i for i in range(len(self.coefs))]))
            return (0.5 * quad + 0.25 * s * s + 0.3 * s ** 3 * x[0] +
                    0.2 * quad * s) * fu

        def part():
            x = p_in.get() / iu
            return whole() - 0.5 * anp.sum(x * x) * fu
        return whole, part

    def at(self, t):
        return [sum(c * t ** k for k, c in enumerate(row))
                for row in self.coefs]

    def deriv(self, k, d):
        """k-th derivative in the direction d, input in its unit."""
        return [math.factorial(k) * (row[k] if k < len(row) else 0.) * d ** k
                for row in self.coefs]
