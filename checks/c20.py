"""C20: conjugate gradient masks partition and solves accumulate."""
import itertools

import numpy as np
import scipy.sparse as sps
from scipy.sparse.linalg import LinearOperator

from mc import big, ref, functions as fn
from mc.core import inputs_kept
from mc.faults import Fault, ArithmeticFault, Stop, Faults
from mc.jet import inverse
from mc.ref import Vector, PD, Simplex, point, arr
from checks.c17 import Bowl

PROPERTY = 'C20'


# ---------------------------------------------------------------------------
# masks

def as_bools(ctx, mask, n, what):
    m = np.asarray(mask)
    ctx.true(m.shape == (n,), '%s: shape %s' % (what, m.shape))
    ctx.true(m.dtype == bool, '%s: type %s' % (what, m.dtype))
    return m.tolist()


def masks_unit(full, tier):
    """get_masks, for all sizes"""
    def run(ctx):
        from LinearResponseVariationalBayes import ConjugateGradient as cg
        for size in range(1, full):
            with ctx.trace('get_masks', full, size):
                got = [as_bools(ctx, m, full, 'mask')
                       for m in cg.get_masks(full, size)]
                want = []
                for start in range(0, full, size):
                    stop = min(start + size, full)
                    want.append([start <= i < stop for i in range(full)])
                ctx.true(got == want, 'masks %s' % (got,))
                ctx.state('masks', full, size)
    return run


def split_unit(n, tier):
    """split_vector and recursive_split, for all boolean vectors"""
    def run(ctx):
        from LinearResponseVariationalBayes import ConjugateGradient as cg
        for bits in itertools.product((False, True), repeat=n):
            for form in ('array', 'list') if n <= 4 else ('array',):
                mask = np.array(bits, dtype=bool) if form == 'array' \
                    else list(bits)
                with ctx.trace('split_vector', bits, form):
                    with inputs_kept(ctx, 'split_vector', mask):
                        out = cg.split_vector(mask)
                    ctx.true(len(out) == 2, 'two halves')
                    a, b = [as_bools(ctx, m, n, 'half') for m in out]
                    ctx.true(all(int(x) + int(y) == int(z)
                                 for x, y, z in zip(a, b, bits)),
                             'halves %s, %s of %s' % (a, b, bits))
                    ctx.true(abs(sum(a) - sum(b)) <= 1, 'sizes of the halves')
                    last = max([i for i in range(n) if a[i]] + [-1])
                    first = min([i for i in range(n) if b[i]] + [n])
                    ctx.true(last < first, 'halves %s, %s not in order' % (
                        a, b))
                    ctx.state('split', bits)
            for limit in range(1, n + 2):
                for kept in ((), ('earlier',)):
                    with ctx.trace('recursive_split', bits, limit, kept):
                        recursive(ctx, cg, bits, limit, kept)
    return run


def recursive(ctx, cg, bits, limit, kept):
    n = len(bits)
    mask = np.array(bits, dtype=bool)
    results = list(kept)
    with inputs_kept(ctx, 'recursive_split', mask):
        cg.recursive_split(mask, results=results, terminate_len=limit)
    ctx.true(tuple(results[:len(kept)]) == kept, 'earlier results')
    got = [as_bools(ctx, m, n, 'part') for m in results[len(kept):]]
    ctx.true(all(sum(m) <= limit for m in got), 'parts too large: %s' % got)
    ctx.true(all(sum(int(m[i]) for m in got) == int(bits[i])
                 for i in range(n)), 'parts %s of %s' % (got, bits))
    ctx.state('recursive', bits, limit, got)
    if sum(bits) <= limit:
        ctx.true(got == [list(bits)], 'needlessly split into %s' % (got,))


# ---------------------------------------------------------------------------
# solves

class System(object):
    """H(x0), positive definite and different at each x0"""
    def __init__(self, base):
        self.n = len(base)
        self.base = np.array(base, dtype=float)
        self.calls = []

    def at(self, x0):
        x0 = np.asarray(x0, dtype=float)
        return self.base + np.diag(0.3 * x0 ** 2) + \
            0.05 * np.outer(x0, x0)

    def product(self, x0, vec):
        return self.at(x0).dot(np.asarray(vec).ravel())


def solve(mat, vec):
    inv = np.array(inverse([[float(x) for x in row] for row in mat]))
    return inv.dot(np.asarray(vec, dtype=float))


def preconditioners(mat):
    n = len(mat)
    return {
        'none': None,
        'diagonal': sps.diags([1. / np.diag(mat)], [0]).tocsr(),
        'dense': np.diag(1.0 + 0.5 * np.arange(n)),
        'inverse': np.array(inverse([list(map(float, r)) for r in mat])),
        'operator': LinearOperator((n, n), lambda v: 0.5 * v)}


class Solver(object):
    """The real solver next to a record of what it should hold."""
    def __init__(self, ctx, product, hessian, x0):
        from LinearResponseVariationalBayes import ConjugateGradient as cg
        self.ctx, self.hess, self.n = ctx, np.array(hessian), len(x0)
        self.real = cg.ConjugateGradientSolver(product, arr(x0))
        self.record = []

    def close(self, got, want, what):
        self.ctx.close(got, want, what, 1e-5, 1e-6)

    def solve(self, vec, x0=None, how='keyword'):
        ctx = self.ctx
        with inputs_kept(ctx, 'get_hinv_vec', vec, x0):
            if x0 is None:
                out = self.real.get_hinv_vec(vec)
            elif how == 'keyword':
                out = self.real.get_hinv_vec(vec, x0=x0)
            else:
                out = self.real.get_hinv_vec(vec, x0)
        ctx.true(len(out) == 2, 'two results')
        self.close(out[0], solve(self.hess, vec), 'solution')
        ctx.true(int(out[1]) == 0, 'status %s' % out[1])
        self.check()
        return out[0]

    def subsets(self, vec, masks, verbose=False):
        ctx = self.ctx
        with inputs_kept(ctx, 'get_hinv_vec_subsets', vec, masks):
            if verbose:
                self.real.get_hinv_vec_subsets(
                    vec, masks, verbose=True, print_every=2)
            else:
                self.real.get_hinv_vec_subsets(vec, masks)
        for m in masks:
            part = [float(v) if k else 0. for v, k in zip(vec, m)]
            self.record.append((part, [bool(k) for k in m]))
        self.check()

    def check(self):
        ctx, s = self.ctx, self.real
        lists = (s.vecs, s.masks, s.hinv_vecs, s.cg_infos, s.times)
        ctx.true([len(x) for x in lists] == [len(self.record)] * 5,
                 'lengths of the records: %s, expected %d' % (
                     [len(x) for x in lists], len(self.record)))
        for i, (part, mask) in enumerate(self.record):
            ctx.close(s.vecs[i], part, 'right hand side %d' % i, 1e-14, 0.)
            ctx.true(np.asarray(s.masks[i]).tolist() == mask,
                     'mask %d is %s' % (i, s.masks[i]))
            self.close(s.hinv_vecs[i], solve(self.hess, part),
                       'solution %d' % i)
            ctx.true(int(s.cg_infos[i]) == 0, 'status %d' % i)
            ctx.true(float(s.times[i]) >= 0., 'time %d' % i)

    def reset(self):
        self.real.initialize()
        self.record = []
        self.check()

    def total(self, count, vec):
        """The last count solutions belong to a partition."""
        total = np.sum([np.asarray(v) for v in self.real.hinv_vecs[-count:]],
                       axis=0)
        self.close(total, solve(self.hess, vec), 'sum of the solutions')


def partitions(n):
    """All ordered-by-first-element set partitions, as masks"""
    def grow(i, labels, k):
        if i == n:
            yield list(labels), k
            return
        for c in range(k + 1):
            for out in grow(i + 1, labels + [c], max(k, c + 1)):
                yield out
    for labels, k in grow(0, [], 0):
        yield [np.array([lab == c for lab in labels]) for c in range(k)]


def bases(n):
    v = np.array([[0.8 * x for x in point(n, k % 5)] for k in range(n)])
    return [np.eye(n) * 1.5, v.dot(v.T) + 0.5 * np.eye(n),
            np.diag(1.0 + 2. * np.arange(n)) + 0.2,
            2.0 * np.eye(n) - 0.9 * (np.eye(n, k=1) + np.eye(n, k=-1))]


def vectors(n, tier):
    if n <= 3:
        for v in itertools.product((-1.5, 0., 2.), repeat=n):
            yield np.array(v)
        return
    for k in range(5):
        yield arr(point(n, k))
    yield np.zeros(n)
    yield np.arange(n)          # integers


def system_unit(n, which, tier):
    """All vectors, preconditioners, partitions"""
    def run(ctx):
        for x0 in ([0.] * n, point(n, 1), point(n, 3)):
            system = System(bases(n)[which])
            mat = system.at(x0)
            for name in sorted(preconditioners(mat)):
                with ctx.trace(n, which, x0, name):
                    s = Solver(ctx, system.product, mat, x0)
                    s.real.preconditioner = preconditioners(mat)[name]
                    for vec in vectors(n, tier):
                        s.solve(vec)
                        s.solve(vec, arr(point(n, 2)))
                        s.solve(vec, solve(mat, vec), 'position')
                        ctx.state(n, which, x0, name, vec)
                for vec in list(vectors(n, tier))[:9]:
                    for masks in partitions(n):
                        with ctx.trace(n, which, x0, name, vec, masks):
                            s = Solver(ctx, system.product, mat, x0)
                            s.real.preconditioner = preconditioners(mat)[name]
                            s.subsets(vec, masks, verbose=len(masks) == 2)
                            s.total(len(masks), vec)
                            ctx.state(n, which, x0, name, vec, masks)
    return run


def integers_unit(a, tier):
    """All positive definite 2x2 matrices over small integers"""
    def run(ctx):
        for b in (-2, -1, 0, 1, 2):
            for c in (1, 2, 3, 5):
                if a * c - b * b <= 0:
                    continue
                system = System([[a, b], [b, c]])
                for x0 in ([0., 0.], [1., -2.], [-1., 0.5]):
                    with ctx.trace(a, b, c, x0):
                        s = Solver(ctx, system.product, system.at(x0), x0)
                        for vec in itertools.product((-1., 0., 3.), repeat=2):
                            vec = np.array(vec)
                            s.solve(vec)
                            s.subsets(vec, [np.array([True, False]),
                                            np.array([False, True])])
                            s.total(2, vec)
                            ctx.state(a, b, c, x0, vec)
    return run


def split_solve_unit(n, tier):
    """Masks made by the package, for all sizes"""
    def run(ctx):
        from LinearResponseVariationalBayes import ConjugateGradient as cg
        for which in range(4):
            system = System(bases(n)[which])
            x0 = point(n, 2)
            vec = arr(point(n, 0))
            for size in range(1, n):
                with ctx.trace(n, which, size):
                    s = Solver(ctx, system.product, system.at(x0), x0)
                    masks = cg.get_masks(n, size)
                    s.subsets(vec, masks)
                    s.total(len(masks), vec)
                    parts = []
                    cg.recursive_split(np.full(n, True), results=parts,
                                       terminate_len=size)
                    s.subsets(vec, parts, verbose=True)
                    s.total(len(parts), vec)
                    ctx.state('made', n, which, size)
    return run


OPS = ['solve', 'guess', 'singles', 'halves', 'overlap', 'none', 'reset',
       'precondition', 'plain', 'tight']


def interrupted_unit(which, tier):
    """The Hessian vector product raises at any of its calls; later solves
    are right, and so is a new record."""
    def run(ctx):
        n = 4
        system = System(bases(n)[which])
        x0 = point(n, 1)
        mat = system.at(x0)
        masks = [np.arange(n) == 2, np.array([True, False, False, True]),
                 np.arange(n) == 1]
        vec, other = arr(point(n, 0)), arr(point(n, 3))
        for name, op in itertools.product(
                ('none', 'diagonal'), ('solve', 'guess', 'subsets')):
            faults = Faults()

            def attempt(s):
                s.real.preconditioner = preconditioners(mat)[name]
                if op == 'solve':
                    s.solve(vec)
                elif op == 'guess':
                    s.solve(vec, arr(point(n, 4)))
                else:
                    s.subsets(vec, masks)
            s = Solver(ctx, faults.guard(system.product), mat, x0)
            faults.count = 0
            attempt(s)
            for k, when, then in itertools.product(
                    range(1, faults.count + 1), ('before', 'after'),
                    ('solve', 'reset', 'same')):
                kind = (Fault, Stop, ArithmeticFault)[(k + len(then)) % 3]
                with ctx.trace('interrupted', which, name, op, k, when,
                               kind.__name__, then):
                    faults.plan = None
                    s = Solver(ctx, faults.guard(system.product), mat, x0)
                    s.subsets(other, masks[:k % 3])
                    faults.plan, faults.count = (k, when, kind), 0
                    try:
                        attempt(s)
                        ctx.fail('the exception did not reach the caller')
                    except kind:
                        pass
                    faults.plan = None
                    if op == 'subsets' or then == 'reset':
                        s.reset()
                    if then == 'solve':
                        s.solve(other)
                    elif then == 'reset':
                        s.subsets(other, [~masks[0], masks[0]])
                        s.total(2, other)
                    attempt(s)
                    ctx.state(which, name, op, k, when, then)
    return run


def history_unit(first, depth, tier):
    def run(ctx):
        n = 4
        base = bases(n)[1]
        system = System(base)
        x0 = point(n, 1)
        mat = system.at(x0)
        vecs = [arr(point(n, 0)), arr(point(n, 3))]
        singles = [np.arange(n) == i for i in (2, 0, 3, 1)]
        halves = [np.array([True, False, True, False]),
                  np.array([False, True, False, True])]
        overlap = [np.full(n, True), np.arange(n) < 3, np.full(n, False),
                   np.arange(n) < 3]
        for rest in itertools.product(OPS, repeat=depth - 1):
            with ctx.trace((first,) + rest):
                s = Solver(ctx, system.product, mat, x0)
                for i, op in enumerate((first,) + rest):
                    ctx.step(op)
                    vec = vecs[i % 2]
                    if op == 'solve':
                        s.solve(vec)
                    elif op == 'guess':
                        s.solve(vec, arr(point(n, 4)))
                    elif op == 'singles':
                        s.subsets(vec, singles)
                        s.total(n, vec)
                    elif op == 'halves':
                        s.subsets(vec, halves, verbose=True)
                        s.total(2, vec)
                    elif op == 'overlap':
                        s.subsets(vec, overlap)
                    elif op == 'none':
                        s.subsets(vec, [])
                    elif op == 'reset':
                        s.reset()
                    elif op == 'precondition':
                        s.real.preconditioner = \
                            preconditioners(mat)['diagonal']
                    elif op == 'plain':
                        s.real.preconditioner = None
                    elif op == 'tight':
                        s.real.tol = 1e-10
                ctx.state((first,) + rest, len(s.record))
    return run


SPECS = [Vector(3), Vector(3, 0.), PD(2, 0.1), Simplex((2, 3)), Vector(4, -1., 2.)]


def objective_unit(i, tier):
    """Solving with the Hessian vector products of an objective"""
    def run(ctx):
        import LinearResponseVariationalBayes as vb
        from LinearResponseVariationalBayes import SparseObjectives as so
        spec = SPECS[i]
        n = spec.free_size
        par = spec.build('p', vb)
        bowl = Bowl(spec, 0)
        obj = so.Objective(par, bowl.bind(par))
        for k in range(3):
            x0 = [a + 0.02 * k * b for a, b in zip(bowl.opt, point(n, k))]
            hess = fn.derivatives(bowl.value, x0)[2]
            with ctx.trace(repr(spec), x0):
                values = np.linalg.eigvalsh(np.array(hess))
                ctx.true(values[0] > 1e-3, 'reference is not convex here')
                s = Solver(ctx, obj.fun_free_hvp, hess, x0)
                vec = arr(point(n, 3))
                s.solve(vec)
                obj.fun_free(arr(point(n, 2)))
                s.subsets(vec, [np.arange(n) == j for j in range(n)])
                s.total(n, vec)
                ctx.state(repr(spec), x0)
    return run


def long_masks_unit(tier):
    """Long vectors: patterns of every period, phase and end."""
    def run(ctx):
        from LinearResponseVariationalBayes import ConjugateGradient as cg
        for full in (31, 32, 33, 64, 100, 129) if tier == 'quick' else \
                (31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 257, 500):
            for size in sorted({1, 2, 3, 7, 10, 15, 16, 17, full // 3,
                                full // 2, full - 1}):
                with ctx.trace('get_masks', full, size):
                    got = [as_bools(ctx, m, full, 'mask')
                           for m in cg.get_masks(full, size)]
                    want = [[a <= i < a + size for i in range(full)]
                            for a in range(0, full, size)]
                    ctx.true(got == want, 'masks %s' % (got,))
                    ctx.state('masks', full, size)
            patterns = [[(i // k + j) % m == 0 for i in range(full)]
                        for m in (1, 2, 3, 5) for k in (1, 4, 11)
                        for j in range(m)]
            patterns += [[a <= i < b for i in range(full)]
                         for a, b in [(0, 17), (5, 6), (full - 9, full),
                                      (full // 2, full), (3, 3)]]
            for t, bits in enumerate(patterns):
                for form, mask in big.array_forms(np.array(bits)):
                    mask = mask.astype(bool) if mask.dtype != bool else mask
                    with ctx.trace('split_vector', full, t, form):
                        with inputs_kept(ctx, 'split_vector', mask):
                            a, b = [as_bools(ctx, m, full, 'half')
                                    for m in cg.split_vector(mask)]
                        on = [i for i in range(full) if bits[i]]
                        ia = [i for i in range(full) if a[i]]
                        ib = [i for i in range(full) if b[i]]
                        ctx.true(ia + ib == on and
                                 abs(len(ia) - len(ib)) <= 1,
                                 'halves %s, %s of %s' % (ia, ib, on))
                for limit in (1, 2, 5, 16, full // 2, full):
                    with ctx.trace('recursive_split', full, t, limit):
                        recursive(ctx, cg, tuple(bits), limit, ())
    return run


def banded(n, k):
    return (3. + k) * np.eye(n) + 0.9 * (np.eye(n, k=1) + np.eye(n, k=-1)) + \
        np.diag(0.3 * (np.arange(n) % 5)) - \
        0.2 * (np.eye(n, k=n // 2) + np.eye(n, k=-(n // 2)))


def large_system_unit(n, tier):
    """Long vectors in any layout, many masks, several x0"""
    def run(ctx):
        from LinearResponseVariationalBayes import ConjugateGradient as cg
        for which in range(2):
            system = System(banded(n, which))
            x0 = [0.3 * x for x in point(n, which + 1)]
            mat = system.at(x0)
            pre = preconditioners(mat)
            for name in sorted(pre):
                vec = arr(point(n, 0))
                for form, v in big.array_forms(vec):
                    with ctx.trace(n, which, name, form):
                        s = Solver(ctx, system.product, mat, x0)
                        s.real.preconditioner = pre[name]
                        s.solve(v)
                        s.solve(v, v)
                        sizes = [n // 2, n - 1] if form != 'plain' else \
                            [1, 3, n // 2, n - 1]
                        for size in sizes:
                            masks = cg.get_masks(n, size)
                            s.subsets(v, masks)
                            s.total(len(masks), vec)
                        parts = []
                        cg.recursive_split(np.arange(n) % 3 != 0,
                                           results=parts, terminate_len=2)
                        rest = np.arange(n) % 3 == 0
                        s.subsets(v, parts + [rest])
                        s.total(len(parts) + 1, vec)
                        ctx.state(n, which, name, form)
                with ctx.trace(n, which, name, 'whole numbers'):
                    s = Solver(ctx, system.product, mat, x0)
                    s.solve(np.arange(n) - 3)
                    s.subsets(np.arange(n) - 3, [np.arange(n) < 2,
                                                 np.arange(n) >= 2])
                    s.total(2, np.arange(n) - 3)
    return run


def life_unit(tier, buffers=ref.Fresh):
    """Many solves in the life of one solver"""
    def run(ctx):
        n = 4
        for start in range(4):
            system = System(bases(n)[start])
            x0 = point(n, 1)
            mat = system.at(x0)
            pre = preconditioners(mat)
            buf = buffers()
            with ctx.trace('life', start, buffers.__name__):
                s = Solver(ctx, system.product, mat, x0)
                for k in range(45 if tier == 'quick' else 250):
                    ctx.step(k)
                    j = (7 * k + start * 3) % 11
                    vec = buf(arr(point(n, k % 5)) * (1. + k % 3))
                    if j < 3:
                        s.solve(vec)
                    elif j < 5:
                        s.solve(vec, buf(point(n, j), 'start'))
                    elif j < 9:
                        masks = [np.arange(n) % (j - 3) == i
                                 for i in range(j - 3)]
                        s.subsets(vec, masks, verbose=bool(k % 2))
                        s.total(len(masks), vec)
                    elif j == 9:
                        s.real.preconditioner = \
                            pre[sorted(pre)[k % len(pre)]]
                    elif k % 3 == 0 and k > 25:
                        s.reset()
                ctx.state('life', start)
    return run


def units(tier):
    quick = tier == 'quick'
    out = [('long masks', long_masks_unit(tier)), ('life', life_unit(tier)),
           ('life in place', life_unit(tier, ref.Reused))]
    for n in (9, 16) if quick else (9, 16, 33, 70):
        out.append(('large-%d' % n, large_system_unit(n, tier)))
    for n in range(2, 14 if quick else 40):
        out.append(('masks-%d' % n, masks_unit(n, tier)))
    for n in range(1, 9 if quick else 13):
        out.append(('split-%d' % n, split_unit(n, tier)))
    for n in (1, 2, 3, 4) if quick else (1, 2, 3, 4, 5):
        for which in range(4):
            out.append(('system-%d-%d' % (n, which),
                        system_unit(n, which, tier)))
    for a in (1, 2, 3, 5):
        out.append(('integers-%d' % a, integers_unit(a, tier)))
    for n in range(2, 8 if quick else 15):
        out.append(('made-%d' % n, split_solve_unit(n, tier)))
    for k in range(4):
        out.append(('interrupted-%d' % k, interrupted_unit(k, tier)))
    for op in OPS:
        out.append(('history-' + op, history_unit(op, 3 if quick else 4,
                                                  tier)))
    for i in range(len(SPECS)):
        out.append(('objective-%d' % i, objective_unit(i, tier)))
    return out


def BOUNDS(tier):
    quick = tier == 'quick'
    return {
        'masks': 'all lengths up to %d and sizes' % (13 if quick else 39),
        'splits': 'all boolean vectors up to length %d, all limits' % (
            8 if quick else 12),
        'systems': 'all set partitions up to %d entries, 4 matrices, 3 '
                   'points, 5 preconditioners; all small 2x2' % (
                       4 if quick else 5),
        'long': 'masks of 31 to %d entries, 29 patterns; systems of 9 to %d '
                'entries, 7 layouts; lives of %d operations' % (
                    (129, 16, 45) if quick else (500, 70, 250)),
        'histories': 'all sequences of %d of %d operations' % (
            3 if quick else 4, len(OPS)),
        'objectives': '%d parameters' % len(SPECS),
        'interrupted': 'the product raises one of 3 exceptions in any of its '
                       'calls, in 3 operations on 4 systems',
        'in place': 'all steps of a life once more with the same arrays, whose '
                    'entries the caller changes between the calls',
    }
