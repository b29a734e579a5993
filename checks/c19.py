"""C19: the matrix inverse square root inverts the corrected matrix."""
import itertools
import math

import numpy as np
import autograd.numpy as anp
import scipy.sparse as sps

from mc import ref, functions as fn, eigen
from mc import big
from mc.core import inputs_kept, blocks, as_array
from mc.ref import Scalar, Vector, PD, Simplex, free_points, arr, point
from checks.c01 import make

PROPERTY = 'C19'

NONE = None
# None and limits below, at, between and above the usual eigenvalues
LIMITS = [(lo, hi) for lo in (NONE, -1.0, 0.25, 1.0, 3.0, 40.0)
          for hi in (NONE, 0.5, 1.0, 2.0, 9.0)
          if lo is None or hi is None or lo <= hi]


def corrected(a, lo, hi):
    """(eigenvalues, corrected matrix, inverse root), or None if the corrected
    eigenvalues are not clearly positive."""
    values, vectors = eigen.eigh(eigen.symmetrized(a))
    top = max([abs(x) for x in values] + [1e-300])
    clipped = [eigen.clip(x, lo, hi) for x in values]
    if min(clipped) <= 1e-7 * max(top, max(clipped)):
        return None
    return (clipped, eigen.function(values, vectors,
                                    lambda x: eigen.clip(x, lo, hi)),
            eigen.function(values, vectors,
                           lambda x: 1. / math.sqrt(eigen.clip(x, lo, hi))))


def compare(ctx, root, corr, want, what):
    clipped, want_corr, want_root = want
    n = len(want_corr)
    big = max(abs(x) for row in want_root for x in row)
    cond = max(clipped) / min(clipped)
    ctx.close(corr, want_corr, what + ': corrected matrix', 1e-8,
              1e-9 * max(clipped))
    ctx.close(root, want_root, what + ': inverse root', 1e-7,
              1e-10 * big * cond)
    r, c = as_array(root), as_array(corr)
    ctx.close(r, r.T, what + ': symmetry', 1e-9, 1e-10 * big)
    ctx.close(r.dot(c).dot(r), np.eye(n), what + ': root, corrected, root',
              1e-7, 1e-9 * cond)


def check(ctx, ou, mat, lo, hi, form='positional'):
    want = corrected(mat.tolist(), lo, hi)
    if want is None:
        return False
    with inputs_kept(ctx, 'get_sym_matrix_inv_sqrt', mat):
        if form == 'positional':
            out = ou.get_sym_matrix_inv_sqrt(mat, lo, hi)
        else:
            kw = {}
            if lo is not None:
                kw['ev_min'] = lo
            if hi is not None:
                kw['ev_max'] = hi
            out = ou.get_sym_matrix_inv_sqrt(mat, **kw)
    ctx.true(len(out) == 2, 'two results')
    compare(ctx, out[0], out[1], want, 'limits %s' % ((lo, hi),))
    ctx.gstate(want[1])
    return True


def small_unit(n, values, first, tier):
    """All matrices over a set of entries, by their first entry"""
    def run(ctx):
        from LinearResponseVariationalBayes import OptimizationUtils as ou
        count = 0
        for rest in itertools.product(values, repeat=n * n - 1):
            mat = np.array((first,) + rest, dtype=float).reshape(n, n)
            with ctx.trace(mat):
                for lo, hi in LIMITS:
                    count += 1
                    check(ctx, ou, mat, lo, hi,
                          'positional' if count % 2 else 'keyword')
    return run


def symmetric_unit(n, values, first, tier):
    """All symmetric matrices over a set of entries, tilted in all the same
    way, which symmetrizing removes again."""
    def run(ctx):
        from LinearResponseVariationalBayes import OptimizationUtils as ou
        places = [(i, j) for i in range(n) for j in range(i, n)]
        tilt = np.array([[0.25 * (i - j) for j in range(n)]
                         for i in range(n)])
        count = 0
        for rest in itertools.product(values, repeat=len(places) - 1):
            mat = np.zeros((n, n))
            for (i, j), x in zip(places, (first,) + rest):
                mat[i, j] = mat[j, i] = x
            with ctx.trace(mat):
                for k, (lo, hi) in enumerate(LIMITS):
                    count += 1
                    if tier == 'quick' and count % 3:
                        continue
                    check(ctx, ou, mat if k % 2 else mat + tilt, lo, hi,
                          'keyword')
    return run


def scale_unit(n, which, tier):
    """Sizes of the entries, types of array, larger matrices"""
    def run(ctx):
        from LinearResponseVariationalBayes import OptimizationUtils as ou
        count = 0
        v = np.array([point(n, (k + which) % 5) for k in range(n)])
        bases = [v.dot(v.T) + 0.3 * np.eye(n), v + v.T,
                 np.diag(np.arange(n) + 1.0), np.eye(n), v]
        for base, scale, form in itertools.product(
                bases, (1e-8, 1e-3, 1., 1e3, 1e8),
                ('c', 'fortran', 'readonly', 'view')):
            mat = base * scale
            with ctx.trace(n, which, mat, form):
                for lo, hi in LIMITS:
                    count += 1
                    if tier == 'quick' and count % 4:
                        continue
                    check(ctx, ou, styled(mat, form),
                          None if lo is None else lo * scale,
                          None if hi is None else hi * scale, 'keyword')
        if n > 1:
            return
        for a, b, c in itertools.product(range(-1, 4), repeat=3):
            mat = np.array([[a, b], [b, c]])
            with ctx.trace('integers', mat):
                for lo, hi in ((None, None), (1, None), (1, 2), (0.5, 2.5)):
                    check(ctx, ou, mat, lo, hi, 'keyword')
    return run


def large_unit(n, tier):
    """Large matrices with distinct, repeated, negative and clustered
    eigenvalues, in every memory layout."""
    def run(ctx):
        from LinearResponseVariationalBayes import OptimizationUtils as ou
        turn = np.eye(n)
        for k in range(n - 1):      # an orthogonal matrix
            c, s = math.cos(0.5 + 0.1 * k), math.sin(0.5 + 0.1 * k)
            g = np.eye(n)
            g[k, k] = g[k + 1, k + 1] = c
            g[k, k + 1], g[k + 1, k] = -s, s
            turn = turn.dot(g)
        spectra = {'distinct': [0.2 + 0.4 * i for i in range(n)],
                   'repeated': [1. + 2. * (i % 2) for i in range(n)],
                   'mixed': [(-1.) ** i * (0.3 + 0.5 * i) for i in range(n)],
                   'clustered': [2. + 1e-6 * i for i in range(n)],
                   'geometric': [10. ** (6. * i / n - 3.) for i in range(n)],
                   'mostly zero': [5. * (i == 0) for i in range(n)]}
        for name in sorted(spectra):
            mat = turn.dot(np.diag(spectra[name])).dot(turn.T)
            for tilt in (0., 0.5):
                tilted = mat + tilt * np.array(
                    [[float((i - j) % 5 - (j - i) % 5) for j in range(n)]
                     for i in range(n)])
                for form, a in big.array_forms(tilted):
                    for lo, hi in [(None, None), (0.5, None), (0.5, 2.),
                                   (1., 1.), (1e-2, 100.), (None, 1.)]:
                        with ctx.trace(n, name, tilt, form, lo, hi):
                            check(ctx, ou, a, lo, hi, 'keyword')
    return run


def life_unit(i, tier, buffers=ref.Fresh):
    """Many preconditioners in the life of one objective."""
    def run(ctx):
        spec = SPECS[i]
        pts = free_points(spec.free_size, full=True)
        length = 60 if tier == 'quick' else 400
        for start in range(3):
            buf = buffers()
            with ctx.trace(repr(spec), 'life', start, buffers.__name__):
                p = Preconditioned(ctx, spec, 0, fn.Fun)
                for k in range(length):
                    ctx.step(k)
                    j = (k * 7 + start * 5) % 12
                    lim = SET_LIMITS[(k // 3 + start) % len(SET_LIMITS)]
                    if j % 3 == 0:
                        p.set_at(pts[j % len(pts)], *lim, buf=buf)
                    elif j % 3 == 1:
                        p.set_given(buf(given(p.n, k // 5)), *lim)
                    elif j == 2:
                        p.refuse(*lim)
                    else:
                        p.conditioned(pts[k % len(pts)])
                    p.check()
                ctx.state(repr(spec), start)
    return run


def big_objective_unit(spec, k):
    def run(ctx):
        pts = free_points(spec.free_size, full=False)
        for lo, hi in SET_LIMITS:
            with ctx.trace(repr(spec), lo, hi):
                p = Preconditioned(ctx, spec, 0, fn.Fun)
                if p.set_at(pts[1], lo, hi):
                    p.conditioned(pts[2])
                for which in range(3):
                    g = given(p.n, which)
                    for form, a in big.array_forms(g):
                        ctx.step(form)
                        p.set_given(a, lo, hi)
                    p.conditioned(pts[2])
                ctx.state(repr(spec), lo, hi)
    return run


def styled(mat, form):
    if form == 'fortran':
        return np.asfortranarray(mat)
    if form == 'readonly':
        out = mat.copy()
        out.flags.writeable = False
        return out
    if form == 'view':
        out = np.zeros((2 * len(mat), 2 * len(mat)))
        out[::2, ::2] = mat
        return out[::2, ::2]
    return mat.copy()


SPECS = [Scalar(), Vector(2, 0.), Vector(3, -1., 2.), PD(2, 0.1),
         Simplex((2, 2)), make(['.', ['.']], 'XS')]


class Preconditioned(object):
    def __init__(self, ctx, spec, which, kind):
        import LinearResponseVariationalBayes as vb
        from LinearResponseVariationalBayes import SparseObjectives as so
        from LinearResponseVariationalBayes import OptimizationUtils as ou
        self.ctx, self.spec, self.ou = ctx, spec, ou
        self.par = spec.build('p', vb)
        self.f = kind(spec, which)
        self.obj = so.Objective(self.par, self.f.bind(self.par))
        self.n = spec.free_size
        self.now = None

    def hessian(self, free):
        return fn.derivatives(self.f.of_free, free)[2]

    def set_at(self, free, lo, hi, buf=ref.Fresh()):
        """From the Hessian at a point; False if that is not defined."""
        hess = self.hessian(free)
        return self.install(hess, lo, hi, free_par=buf(free))

    def set_given(self, hess, lo, hi):
        return self.install(hess, lo, hi, hessian=hess)

    def set_both(self, free, hess, lo, hi):
        """A Hessian that is given is the one used, whatever the point."""
        return self.install(hess, lo, hi, free_par=arr(free), hessian=hess)

    def install(self, hess, lo, hi, **kw):
        ctx = self.ctx
        as_list = [list(map(float, row)) for row in np.asarray(hess)]
        want = corrected(as_list, lo, hi)
        if want is None:
            return False
        if lo is not None:
            kw['ev_min'] = lo
        if hi is not None:
            kw['ev_max'] = hi
        with inputs_kept(ctx, 'set_objective_preconditioner',
                         *[v for v in kw.values() if not np.isscalar(v)]):
            out = self.ou.set_objective_preconditioner(self.obj, **kw)
        ctx.true(len(out) == 3, 'three results')
        ctx.close(out[0], as_list, 'returned Hessian', 1e-6, 1e-8)
        compare(ctx, out[1], out[2], want, 'returned')
        self.now = want
        self.check()
        return True

    def refuse(self, lo, hi):
        self.ctx.raises(
            ValueError, lambda: self.ou.set_objective_preconditioner(
                self.obj, ev_min=lo, ev_max=hi), 'neither Hessian nor point')
        self.check()

    def check(self):
        ctx = self.ctx
        if self.now is None:
            ctx.true(self.obj.preconditioner is None,
                     'a preconditioner was installed')
            return
        clipped, _, root = self.now
        big = max(abs(x) for row in root for x in row)
        ctx.close(self.obj.preconditioner, root, 'installed preconditioner',
                  1e-6, 1e-9 * big * max(clipped) / min(clipped))

    def conditioned(self, free):
        """The objective uses what was installed."""
        if self.now is None:
            return
        root = np.array(self.now[2])
        x = np.linalg.solve(root, arr(free))
        ctx = self.ctx
        ctx.close(self.obj.fun_free_cond(x), self.f.of_free(list(free)),
                  'conditioned value', 1e-6, 1e-7, shape=False)
        v, g, h = fn.derivatives(self.f.of_free, free)
        ctx.close(self.obj.fun_free_hessian_cond(x),
                  root.dot(np.array(h)).dot(root), 'conditioned Hessian',
                  1e-5, 1e-6)


SET_LIMITS = [(None, None), (0.2, None), (1.0, None), (0.5, 2.0),
              (None, 1.5), (1.0, 1.0)]


def given(n, which):
    v = np.array([point(n, (k + which) % 5) for k in range(n)])
    return [v.dot(v.T) + 0.4 * np.eye(n), v + 0.2,
            np.diag(0.5 + np.arange(n))][which % 3]


def objective_unit(i, tier):
    def run(ctx):
        spec = SPECS[i]
        for which in (0, 1, 2):
            for kind in (fn.Fun, fn.QuadraticFun):
                frees = free_points(spec.free_size, full=tier != 'quick')
                for free in frees:
                    for lo, hi in SET_LIMITS:
                        with ctx.trace(repr(spec), which, kind.__name__,
                                       free, lo, hi):
                            p = Preconditioned(ctx, spec, which, kind)
                            p.refuse(lo, hi)
                            if p.set_at(free, lo, hi):
                                p.conditioned(frees[1])
                            p.refuse(lo, hi)
                            p.set_given(given(p.n, which), lo, hi)
                            p.conditioned(frees[2])
                            p.set_both(free, given(p.n, which + 1), lo, hi)
                            p.conditioned(frees[2])
                            ctx.state(repr(spec), which, free, lo, hi)
    return run


def history_unit(i, first, depth, tier):
    def run(ctx):
        spec = SPECS[i]
        pts = free_points(spec.free_size, full=False)
        ops = [('at', 1, (0.3, None)), ('at', 2, (0.5, 2.0)),
               ('given', 0, (None, None)), ('given', 1, (0.4, 3.0)),
               ('given', 2, (1.0, 1.0)), ('refuse', 0, (1.0, 2.0)),
               ('both', 1, (0.3, 4.0)), ('use', 1, None), ('use', 3, None)]
        for rest in itertools.product(range(len(ops)), repeat=depth - 1):
            seq = (first,) + rest
            with ctx.trace(repr(spec), [ops[o] for o in seq]):
                p = Preconditioned(ctx, spec, 0, fn.Fun)
                for o in seq:
                    name, k, lim = ops[o]
                    ctx.step(name, k, lim)
                    if name == 'at':
                        p.set_at(pts[k], *lim)
                    elif name == 'given':
                        p.set_given(given(p.n, k), *lim)
                    elif name == 'both':
                        p.set_both(pts[2], given(p.n, k), *lim)
                    elif name == 'refuse':
                        p.refuse(*lim)
                    else:
                        p.conditioned(pts[k])
                    p.check()
                ctx.state(repr(spec), seq)
    return run


def units(tier):
    out = []
    for x in (-2, -1, 0, 1, 2):
        out.append(('two-%d' % x, small_unit(2, (-2, -1, 0, 1, 2), x, tier)))
    for x in (-1, 0, 2) if tier == 'quick' else (-2, -1, 0, 1, 3):
        values = (-1, 0, 2) if tier == 'quick' else (-2, -1, 0, 1, 3)
        out.append(('three-%d' % x, symmetric_unit(3, values, x, tier)))
    out.append(('one', small_unit(1, (), 2, tier)))
    for n in (1, 2, 3, 4, 5, 6):
        for which in range(2 if tier == 'quick' else 5):
            out.append(('scales-%d-%d' % (n, which),
                        scale_unit(n, which, tier)))
    for i in range(len(SPECS)):
        out.append(('objective-%d' % i, objective_unit(i, tier)))
    for n in (7, 12) if tier == 'quick' else (7, 9, 12, 16, 25):
        out.append(('large-%d' % n, large_unit(n, tier)))
    for i in (1, 3, 5):
        for how, buffers in ref.BUFFERS:
            out.append(('life%s-%d' % (how, i),
                        life_unit(i, tier, buffers)))
    for k, spec in enumerate(big.small_medium()):
        out.append(('large objective-%d' % k, big_objective_unit(spec, k)))
    for i in (1, 3):
        for o in range(9):
            out.append(('history-%d-%d' % (i, o), history_unit(
                i, o, 3 if tier == 'quick' else 4, tier)))
    return out


def BOUNDS(tier):
    return {
        'matrices': 'all 2x2 with entries -2..2; all symmetric 3x3 over 3 or '
                    '5 values; 1x1 to 6x6 patterns in 5 scales, 4 layouts',
        'large': '6 spectra of 7 to %d dimensions, 7 layouts; objectives of '
                 'up to 20 variables; lives of %d settings' % (
                     (12, 60) if tier == 'quick' else (25, 400)),
        'limits': '%d pairs of minimum and maximum' % len(LIMITS),
        'objectives': '%d parameters, 2 kinds of function' % len(SPECS),
        'histories': 'all sequences of %d of 8 operations' % (
            3 if tier == 'quick' else 4),
        'in place': 'all steps of a life once more with the same arrays, whose '
                    'entries the caller changes between the calls',
    }
