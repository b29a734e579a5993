"""The reference model of parameters: plain Python, generic over the scalar type.

A spec describes a parameter.  It builds the real object, and it says what the
real object should do: sizes, the map from free to vector values and back, and
the value which get() returns for a vector value.
"""
import itertools
import math

import numpy as np

from .jet import exp, log, sqrt, sum_, value
from . import jet

INF = float('inf')


def tri(n):
    return n * (n + 1) // 2


def prod(shape):
    out = 1
    for s in shape:
        out *= s
    return out


# Transforms ------------------------------------------------------------------

def bounded(x, lb, ub):
    if ub == INF:
        return x if lb == -INF else exp(x) + lb
    if lb == -INF:
        return ub - exp(x * -1.0)
    # numerically stable on both sides
    if jet._num(x) >= 0:
        return lb + (ub - lb) / (1.0 + exp(x * -1.0))
    e = exp(x)
    return lb + (ub - lb) * e / (1.0 + e)


def unbounded(v, lb, ub):
    if ub == INF:
        return v if lb == -INF else log(v - lb)
    if lb == -INF:
        return log(ub - v) * -1.0
    return log(v - lb) - log(ub - v)


def pd_forward(free, size, diag_lb):
    """The lower triangle, by rows, of L L' + diag_lb I, where L is lower
    triangular with log diagonal."""
    low = [[None] * size for _ in range(size)]
    k = 0
    for i in range(size):
        for j in range(i + 1):
            low[i][j] = exp(free[k]) if i == j else free[k]
            k += 1
    out = []
    for i in range(size):
        for j in range(i + 1):
            s = sum_(low[i][m] * low[j][m] for m in range(j + 1))
            out.append(s + diag_lb if i == j else s)
    return out


def pd_backward(vec, size, diag_lb):
    full = pd_full(vec, size)
    low = [[None] * size for _ in range(size)]
    for i in range(size):
        for j in range(i + 1):
            s = full[i][j] - diag_lb if i == j else full[i][j]
            for m in range(j):
                s = s - low[i][m] * low[j][m]
            low[i][j] = sqrt(s) if i == j else s / low[j][j]
    return [log(low[i][j]) if i == j else low[i][j]
            for i in range(size) for j in range(i + 1)]


def pd_full(vec, size):
    full = [[None] * size for _ in range(size)]
    k = 0
    for i in range(size):
        for j in range(i + 1):
            full[i][j] = full[j][i] = vec[k]
            k += 1
    return full


def simplex_row(free):
    m = max([0.] + [jet._num(f) for f in free])
    w = [exp(f - m) for f in free]
    ref = math.exp(-m)
    tot = sum_(w) + ref
    return [ref / tot] + [x / tot for x in w]


def inside(v, lb, ub):
    return (v >= lb) and (v <= ub)


# Specs -----------------------------------------------------------------------

class Spec(object):
    is_dict = False

    def desc(self):
        return repr(self)

    def slices(self, free):
        return free

    def value_array(self, vec):
        """The array (or number) which get() should return for this vector."""
        raise NotImplementedError

    def in_constraint(self, vec, tol=1e-9):
        raise NotImplementedError


class Scalar(Spec):
    def __init__(self, lb=-INF, ub=INF):
        self.lb, self.ub = lb, ub
        self.free_size = self.vec_size = 1

    def __repr__(self):
        return 'Scalar(%s,%s)' % (self.lb, self.ub)

    def build(self, name, vb):
        return vb.ScalarParam(name, lb=self.lb, ub=self.ub)

    def fwd(self, free):
        return [bounded(free[0], self.lb, self.ub)]

    def inv(self, vec):
        return [unbounded(vec[0], self.lb, self.ub)]

    def value_array(self, vec):
        return np.array(float(vec[0]))

    def for_set(self, vec):
        return float(vec[0])

    def in_constraint(self, vec, tol=1e-9):
        return inside(vec[0], self.lb, self.ub)

    def default(self):
        return default_box(1, self.lb, self.ub)


def default_box(n, lb, ub):
    if lb > -INF and ub < INF:
        v = 0.5 * (lb + ub)
    elif lb > -INF:
        v = lb + 1.
    elif ub < INF:
        v = ub - 1.
    else:
        v = 0.
    return [v] * n


class Vector(Spec):
    def __init__(self, n, lb=-INF, ub=INF):
        self.n, self.lb, self.ub = n, lb, ub
        self.free_size = self.vec_size = n

    def __repr__(self):
        return 'Vector(%d,%s,%s)' % (self.n, self.lb, self.ub)

    def build(self, name, vb):
        return vb.VectorParam(name, self.n, lb=self.lb, ub=self.ub)

    def fwd(self, free):
        return [bounded(f, self.lb, self.ub) for f in free]

    def inv(self, vec):
        return [unbounded(v, self.lb, self.ub) for v in vec]

    def value_array(self, vec):
        return np.array([float(v) for v in vec])

    for_set = value_array

    def in_constraint(self, vec, tol=1e-9):
        return all(inside(v, self.lb, self.ub) for v in vec)

    def default(self):
        return default_box(self.n, self.lb, self.ub)


class Array(Vector):
    def __init__(self, shape, lb=-INF, ub=INF):
        Vector.__init__(self, prod(shape), lb, ub)
        self.shape = tuple(shape)

    def __repr__(self):
        return 'Array(%s,%s,%s)' % (self.shape, self.lb, self.ub)

    def build(self, name, vb):
        return vb.ArrayParam(name, shape=self.shape, lb=self.lb, ub=self.ub)

    def value_array(self, vec):
        return np.array([float(v) for v in vec]).reshape(self.shape)

    for_set = value_array


class PD(Spec):
    def __init__(self, size, diag_lb=0.0):
        self.size, self.diag_lb = size, diag_lb
        self.free_size = self.vec_size = tri(size)

    def __repr__(self):
        return 'PD(%d,%s)' % (self.size, self.diag_lb)

    def build(self, name, vb):
        return vb.PosDefMatrixParam(name, self.size, diag_lb=self.diag_lb)

    def fwd(self, free):
        return pd_forward(free, self.size, self.diag_lb)

    def inv(self, vec):
        return pd_backward(vec, self.size, self.diag_lb)

    def value_array(self, vec):
        return np.array(pd_full([float(v) for v in vec], self.size))

    for_set = value_array

    def in_constraint(self, vec, tol=1e-9):
        return pd_ok(vec, self.size, self.diag_lb, tol)

    def default(self):
        return eye_vec(self.size, self.diag_lb)


def eye_vec(size, diag_lb):
    return [diag_lb + 1. if i == j else 0.
            for i in range(size) for j in range(i + 1)]


def pd_ok(vec, size, diag_lb, tol):
    """Symmetric with eigenvalues at least diag_lb, to rounding."""
    full = np.array(pd_full([float(v) for v in vec], size))
    ev = np.linalg.eigvalsh(full)
    return bool(np.all(ev >= diag_lb - tol * max(1., abs(ev[-1]))))


class PDV(Spec):
    def __init__(self, length, size, diag_lb=0.0):
        self.length, self.size, self.diag_lb = length, size, diag_lb
        self.k = tri(size)
        self.shape = (length,)
        self.free_size = self.vec_size = length * self.k

    def __repr__(self):
        return 'PDV(%d,%d,%s)' % (self.length, self.size, self.diag_lb)

    def build(self, name, vb):
        return vb.PosDefMatrixParamVector(
            name, length=self.length, matrix_size=self.size,
            diag_lb=self.diag_lb)

    def _each(self, x):
        return [x[i * self.k:(i + 1) * self.k]
                for i in range(prod(self.shape))]

    def fwd(self, free):
        return [v for f in self._each(free)
                for v in pd_forward(f, self.size, self.diag_lb)]

    def inv(self, vec):
        return [v for f in self._each(vec)
                for v in pd_backward(f, self.size, self.diag_lb)]

    def value_array(self, vec):
        return np.array([pd_full([float(v) for v in x], self.size)
                         for x in self._each(vec)]).reshape(
                             self.shape + (self.size, self.size))

    for_set = value_array

    def in_constraint(self, vec, tol=1e-9):
        return all(pd_ok(x, self.size, self.diag_lb, tol)
                   for x in self._each(vec))

    def default(self):
        return eye_vec(self.size, self.diag_lb) * prod(self.shape)


class PDA(PDV):
    def __init__(self, shape, size, diag_lb=0.0):
        PDV.__init__(self, prod(shape), size, diag_lb)
        self.shape = tuple(shape)

    def __repr__(self):
        return 'PDA(%s,%d,%s)' % (self.shape, self.size, self.diag_lb)

    def build(self, name, vb):
        return vb.PosDefMatrixParamArray(
            name, array_shape=self.shape, matrix_size=self.size,
            diag_lb=self.diag_lb)


class Simplex(Spec):
    def __init__(self, shape):
        self.shape = tuple(shape)
        self.free_size = shape[0] * (shape[1] - 1)
        self.vec_size = shape[0] * shape[1]

    def __repr__(self):
        return 'Simplex%s' % (self.shape,)

    def build(self, name, vb):
        return vb.SimplexParam(name, shape=self.shape)

    def fwd(self, free):
        k = self.shape[1] - 1
        return [v for i in range(self.shape[0])
                for v in simplex_row(free[i * k:(i + 1) * k])]

    def inv(self, vec):
        k = self.shape[1]
        out = []
        for i in range(self.shape[0]):
            row = vec[i * k:(i + 1) * k]
            out += [log(v) - log(row[0]) for v in row[1:]]
        return out

    def value_array(self, vec):
        return np.array([float(v) for v in vec]).reshape(self.shape)

    for_set = value_array

    def in_constraint(self, vec, tol=1e-9):
        k = self.shape[1]
        return all(v >= 0 for v in vec) and all(
            abs(sum(vec[i * k:(i + 1) * k]) - 1) <= tol
            for i in range(self.shape[0]))

    def default(self):
        return [1. / self.shape[1]] * self.vec_size


class Sub(Spec):
    """A vector perpendicular to the rows of perp.  The library is free to
    choose the orthonormal basis; the reference takes it from a fresh object
    and C02 checks that it is one."""
    def __init__(self, dim, perp=None):
        self.dim = dim
        self.perp = perp
        m = 1 if perp is None else len(perp)
        self.free_size = dim - m
        self.vec_size = dim
        self._basis = None

    def __repr__(self):
        return 'Sub(%d,%s)' % (self.dim, self.perp)

    def build(self, name, vb):
        if self.perp is None:
            return vb.SubspaceVectorParam(name, dim=self.dim)
        return vb.SubspaceVectorParam(
            name, dim=self.dim, perp_subspace=np.array(self.perp, dtype=float))

    def perp_rows(self):
        return self.perp if self.perp is not None else [[1.0] * self.dim]

    def basis(self):
        """Columns: the images of the unit vectors."""
        if self._basis is None:
            import LinearResponseVariationalBayes as vb
            par = self.build('basis', vb)
            cols = []
            for k in range(self.free_size):
                e = np.zeros(self.free_size)
                e[k] = 1.
                par.set_free(e)
                cols.append(np.array(par.get_vector()).tolist())
            self._basis = cols
        return self._basis

    def fwd(self, free):
        b = self.basis()
        return [sum_(b[k][i] * free[k] for k in range(self.free_size))
                for i in range(self.dim)]

    def inv(self, vec):
        b = self.basis()
        return [sum_(b[k][i] * vec[i] for i in range(self.dim))
                for k in range(self.free_size)]

    def value_array(self, vec):
        return np.array([float(v) for v in vec])

    for_set = value_array

    def in_constraint(self, vec, tol=1e-9):
        big = max([1.] + [abs(v) for v in vec])
        return all(abs(sum(r * v for r, v in zip(row, vec))) <= tol * big
                   for row in self.perp_rows())

    def default(self):
        return [0.] * self.dim


class Dict(Spec):
    is_dict = True

    def __init__(self, children):
        self.children = list(children)      # [(name, spec)]

    def __repr__(self):
        return 'Dict(%s)' % ', '.join('%s=%r' % c for c in self.children)

    @property
    def free_size(self):
        return sum(s.free_size for _, s in self.children)

    @property
    def vec_size(self):
        return sum(s.vec_size for _, s in self.children)

    def build(self, name, vb):
        par = vb.ModelParamsDict(name)
        for cname, spec in self.children:
            par.push_param(spec.build(cname, vb))
        return par

    def split_free(self, free):
        out, k = [], 0
        for n, s in self.children:
            out.append((n, s, free[k:k + s.free_size]))
            k += s.free_size
        return out

    def split_vec(self, vec):
        out, k = [], 0
        for n, s in self.children:
            out.append((n, s, vec[k:k + s.vec_size]))
            k += s.vec_size
        return out

    def fwd(self, free):
        return [v for _, s, f in self.split_free(free) for v in s.fwd(f)]

    def inv(self, vec):
        return [v for _, s, f in self.split_vec(vec) for v in s.inv(f)]

    def in_constraint(self, vec, tol=1e-9):
        return all(s.in_constraint(v, tol) for _, s, v in self.split_vec(vec))

    def default(self):
        return [v for _, s in self.children for v in s.default()]


class Dist(Dict):
    """One of the library's distribution dictionaries."""
    def __init__(self, label, cls, kwargs, children):
        Dict.__init__(self, children)
        self.label, self.cls, self.kwargs = label, cls, kwargs

    def __repr__(self):
        return self.label

    def build(self, name, vb):
        return getattr(vb, self.cls)(name, **self.kwargs)


def mvn(dim, min_info=0.0):
    return Dist('MVN(%d,%s)' % (dim, min_info), 'MVNParam',
                {'dim': dim, 'min_info': min_info},
                [('mean', Vector(dim)), ('info', PD(dim, min_info))])


def uvn(min_info=0.0):
    return Dist('UVN(%s)' % min_info, 'UVNParam', {'min_info': min_info},
                [('mean', Scalar()), ('info', Scalar(min_info))])


def uvnv(n, min_info=0.0):
    return Dist('UVNVector(%d,%s)' % (n, min_info), 'UVNParamVector',
                {'length': n, 'min_info': min_info},
                [('mean', Vector(n)), ('info', Vector(n, min_info))])


def uvna(shape, min_info=0.0):
    return Dist('UVNArray(%s,%s)' % (shape, min_info), 'UVNParamArray',
                {'shape': shape, 'min_info': min_info},
                [('mean', Array(shape)), ('info', Array(shape, min_info))])


def uvnm(shape, min_info=0.0):
    return Dist('UVNMoment(%s,%s)' % (shape, min_info), 'UVNMomentParamArray',
                {'shape': shape, 'min_info': min_info},
                [('e', Array(shape)), ('e2', Array(shape, min_info))])


def mvna(shape, min_info=0.0):
    return Dist('MVNArray(%s,%s)' % (shape, min_info), 'MVNArray',
                {'shape': shape, 'min_info': min_info},
                [('mean', Array(shape)), ('info', Vector(shape[0], min_info))])


def gamma(min_shape=0.0, min_rate=0.0):
    return Dist('Gamma(%s,%s)' % (min_shape, min_rate), 'GammaParam',
                {'min_shape': min_shape, 'min_rate': min_rate},
                [('shape', Scalar(min_shape)), ('rate', Scalar(min_rate))])


def wishart(size, diag_lb=0.0, min_df=None):
    kwargs = {'size': size, 'diag_lb': diag_lb}
    if min_df is not None:
        kwargs['min_df'] = min_df
    return Dist('Wishart(%d,%s,%s)' % (size, diag_lb, min_df), 'WishartParam',
                kwargs,
                [('df', Scalar(min_df if min_df else size - 1)),
                 ('v', PD(size, diag_lb))])


def dirichlet(shape, min_alpha=0.0):
    return Dist('Dirichlet(%s,%s)' % (shape, min_alpha), 'DirichletParamArray',
                {'shape': shape, 'min_alpha': min_alpha},
                [('alpha', Array(shape, min_alpha))])


# Comparison of a real object with the model ----------------------------------

def real_value(par, spec):
    """get() of the real object as nested lists in the order of the vector."""
    return par.get()


def check_value(ctx, par, spec, vec, what, rtol=1e-8, atol=1e-9):
    """Every leaf's get() is what the reference vector says."""
    if spec.is_dict:
        vals = par.get()
        for name, s, v in spec.split_vec(vec):
            check_value(ctx, par[name], s, v, what + '[' + name + ']',
                        rtol, atol)
            if not s.is_dict:
                ctx.close(vals[name], s.value_array(v),
                          what + '.values[' + name + ']', rtol, atol,
                          shape=not isinstance(s, Scalar))
    else:
        ctx.close(par.get(), spec.value_array(vec), what + '.get()',
                  rtol, atol, shape=not isinstance(spec, Scalar))


def check_dictval(ctx, got, spec, vec, what):
    if spec.is_dict:
        ctx.true(isinstance(got, dict) and
                 sorted(got) == sorted(n for n, _ in spec.children),
                 what + ': keys of the dictionary value')
        for name, s, v in spec.split_vec(vec):
            check_dictval(ctx, got[name], s, v, what + '[' + name + ']')
    else:
        ctx.true(isinstance(got, (list, int, float)),
                 what + ': dictionary value is not plain')
        ctx.close(got, spec.value_array(vec), what + ': dictionary value',
                  1e-8, 1e-9,
                  shape=spec.vec_size and not isinstance(spec, Scalar))


def check_layout(ctx, par, spec, what):
    ctx.true(par.free_size() == spec.free_size, '%s: free size %s, expected %s'
             % (what, par.free_size(), spec.free_size))
    ctx.true(par.vector_size() == spec.vec_size,
             '%s: vector size %s, expected %s'
             % (what, par.vector_size(), spec.vec_size))
    if spec.is_dict:
        fi = {k: list(v) for k, v in par.free_indices_dict.items()}
        vi = {k: list(v) for k, v in par.vector_indices_dict.items()}
        names = [n for n, _ in spec.children]
        wf = {n: f for n, _, f in
              spec.split_free(list(range(spec.free_size)))}
        wv = {n: f for n, _, f in spec.split_vec(list(range(spec.vec_size)))}
        ctx.true(fi == wf, '%s: free indices %s, expected %s' % (what, fi, wf))
        ctx.true(vi == wv, '%s: vector indices %s, expected %s'
                 % (what, vi, wv))
        for n, s in spec.children:
            check_layout(ctx, par[n], s, what + '[' + n + ']')


def check_state(ctx, par, spec, vec, what, free=True, rtol=1e-7, atol=1e-8):
    """Everything observable about par agrees with the reference vector."""
    ctx.close(par.get_vector(), vec, what + ': vector representation',
              rtol, atol)
    check_value(ctx, par, spec, vec, what, rtol, atol)
    if free:
        ctx.close(par.get_free(), spec.inv(vec),
                  what + ': free representation', max(rtol, 1e-6),
                  max(atol, 1e-7))


# Alphabets ---------------------------------------------------------------------

_BASE = [0.31, -0.42, 0.87, -0.93, 0.15, 0.64, -0.28, 1.12, -0.71, 0.05, 0.53,
         -1.04, 0.22, -0.17, 0.78, -0.66, 0.41, 0.98, -0.35, 0.09, 0.73, -0.58,
         0.27, -0.81, 0.49, 0.12, -0.24, 0.91, -0.47, 0.36]


def point(n, which=0):
    """Distinct, unordered-looking entries; different which, different point."""
    m = len(_BASE)
    scale = [1.0, -1.0, 0.5, 1.6, -0.7][which % 5]
    return [scale * _BASE[(i * 1 + 7 * which) % m] +
            0.013 * ((i + which) // m) + 0.004 * which + 0.0007 * i
            for i in range(n)]


def free_points(n, full=True):
    """Structured points: zero, spread, both signs, each single coordinate."""
    pts = [[0.] * n, point(n, 0), point(n, 1), point(n, 3)]
    if full:
        pts.append([2.5 if i % 2 else -2.5 for i in range(n)])
        for k in range(n):
            pts.append([0.9 if i == k else 0. for i in range(n)])
            pts.append([-1.7 if i == k else 0.2 for i in range(n)])
    return pts


def arr(x):
    return np.array([float(value(v)) for v in x], dtype=float)


class Reused(object):
    """Makes arrays as arr does, but the same ones again and again: one object
    for each shape and key, whose entries are overwritten in place."""
    def __init__(self):
        self.pool = {}

    def __call__(self, x, key=0):
        a = np.array(x, dtype=float)
        buf = self.pool.setdefault((a.shape, key), np.array(a))
        buf[...] = a
        return buf


class Fresh(object):
    def __call__(self, x, key=0):
        return np.array(x, dtype=float)


BUFFERS = (('', Fresh), (' in place', Reused))


# jets through the transforms -----------------------------------------------------

def transform_jets(spec, free):
    """(value, Jacobian rows, list of Hessians) of free -> vector."""
    out = spec.fwd(jet.variables([float(f) for f in free]))
    n = spec.free_size
    vals, jac, hess = [], [], []
    for v in out:
        if isinstance(v, jet.Jet):
            vals.append(v.v)
            jac.append(v.grad())
            hess.append(v.hess())
        else:
            vals.append(float(v))
            jac.append([0.] * n)
            hess.append([[0.] * n for _ in range(n)])
    return vals, jac, hess
