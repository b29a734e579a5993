"""C26: matrix vectors, index helpers and offset helpers agree entry by entry.
"""
import itertools
import math

import numpy as np

from mc import ref, big
from mc.core import blocks, inputs_kept
from mc.ref import (Scalar, Vector, Array, PD, PDV, PDA, Simplex, Sub, Dict,
                    INF, point, arr, tri, pd_forward, pd_full)
from checks.c01 import KINDS, KIND, make

PROPERTY = 'C26'


def entries(n, symmetric=False):
    """A matrix with distinct whole entries."""
    out = [[float(1 + 37 * i + 3 * j * j - 11 * ((i + j) % 3))
            for j in range(n)] for i in range(n)]
    if symmetric:
        for i in range(n):
            for j in range(i):
                out[j][i] = out[i][j]
    return np.array(out).reshape(n, n)


def by_rows(mat):
    return [mat[i][j] for i in range(len(mat)) for j in range(i + 1)]


# Positions -------------------------------------------------------------------

def index_unit(top):
    def run(ctx):
        from LinearResponseVariationalBayes import MatrixParameters as mp
        k = 0
        with ctx.trace('positions to', top):
            for i in range(top):
                for j in range(i + 1):
                    for a, b in ((i, j), (j, i), (np.int64(i), np.int64(j)),
                                 (np.int32(j), np.int32(i))):
                        got = mp.SymIndex(a, b)
                        ctx.true(got == k, 'SymIndex(%d, %d) is %s, expected '
                                 '%d' % (a, b, got, k))
                        # usable as an index
                        ctx.true(isinstance(got, (int, np.integer)),
                                 'SymIndex gives a %s' % type(got))
                    k += 1
                ctx.state(i)
    return run


def vec_unit(sizes):
    def run(ctx):
        from LinearResponseVariationalBayes import MatrixParameters as mp
        for n in sizes:
            for name, mat in big.array_forms(entries(n)):
                with ctx.trace('matrix to vector', n, name):
                    with inputs_kept(ctx, 'vectorize', mat):
                        got = mp.vectorize_ld_matrix(mat)
                    ctx.close(got, by_rows(mat), 'lower triangle by rows')
                    got[...] = 0.
                    ctx.close(mat, entries(n), 'the matrix afterwards')
            vec = np.array(by_rows(entries(n)))
            low = np.tril(entries(n))
            full = entries(n, True)
            for name, v in big.array_forms(vec):
                with ctx.trace('vector to matrix', n, name):
                    with inputs_kept(ctx, 'unvectorize', v):
                        got = mp.unvectorize_ld_matrix(v)
                        sym = mp.unvectorize_symmetric_matrix(v)
                    ctx.close(got, low, 'lower triangular matrix')
                    ctx.close(sym, full, 'symmetric matrix')
                    ctx.true(bool((sym == sym.T).all()), 'not symmetric')
                    ctx.close(mp.vectorize_ld_matrix(sym), vec, 'there and back')
                    ctx.close(mp.vectorize_ld_matrix(got), vec, 'there and back')
                    got[...] = 0.
                    sym[...] = 0.
                    ctx.close(v, vec, 'the vector afterwards')
            with ctx.trace('units', n):
                for k, (i, j) in enumerate(
                        (i, j) for i in range(n) for j in range(i + 1)):
                    v = np.zeros(tri(n))
                    v[k] = -2.5
                    want = np.zeros((n, n))
                    want[i, j] = -2.5
                    ctx.close(mp.unvectorize_ld_matrix(v), want,
                              'entry %d of the vector' % k)
                    want[j, i] = -2.5
                    ctx.close(mp.unvectorize_symmetric_matrix(v), want,
                              'entry %d of the vector' % k)
                    if n > 9 and k > 3 * n:
                        break
                # what is above the diagonal does not matter
                for above in (1e6, -7., 1e-300):
                    mat = entries(n)
                    mat[np.triu_indices(n, 1)] = above
                    ctx.close(mp.vectorize_ld_matrix(mat), vec, 'above')
                # whole numbers
                got = mp.unvectorize_symmetric_matrix(
                    np.array([int(v) for v in vec]))
                ctx.close(got, full, 'whole numbers')
                for s in (1e-200, 1e-9, 1e12, 1e150):
                    ctx.rel(mp.unvectorize_symmetric_matrix(s * vec),
                            s * full, 'magnitude')
                    ctx.rel(mp.unvectorize_ld_matrix(s * vec),
                            s * low, 'magnitude')
                mixed = np.array([10. ** (40 * ((7 * k) % 11 - 5))
                                  for k in range(tri(n))])
                ctx.rel(mp.vectorize_ld_matrix(
                    mp.unvectorize_symmetric_matrix(mixed)), mixed,
                        'mixed magnitudes')
            ctx.state(n)
    return run


def reject_unit(ctx):
    from LinearResponseVariationalBayes import MatrixParameters as mp
    for r, c in itertools.product(range(1, 8), repeat=2):
        if r != c:
            with ctx.trace('not square', r, c):
                ctx.raises(ValueError, lambda: mp.vectorize_ld_matrix(
                    np.ones((r, c))), 'a matrix which is not square')
    good = {tri(n) for n in range(60)}
    for size in range(1, 400):
        with ctx.trace('size', size):
            v = np.arange(1., size + 1.)
            if size in good:
                got = mp.unvectorize_symmetric_matrix(v)
                ctx.true(tri(got.shape[0]) == size, 'size of the matrix')
            else:
                ctx.raises(ValueError, lambda: mp.unvectorize_ld_matrix(v),
                           'no matrix has this size')
                ctx.raises(ValueError,
                           lambda: mp.unvectorize_symmetric_matrix(v),
                           'no matrix has this size')
            ctx.state(size)


# Diagonals and positive definite matrices -------------------------------------

def diagonal_unit(sizes):
    def run(ctx):
        from LinearResponseVariationalBayes import MatrixParameters as mp
        for n in sizes:
            diags = [point(n, 0), [0.] * n, [-3.] * n, [2.5] * n,
                     [(-30., 3., 0., -1e-9)[i % 4] for i in range(n)]]
            offs = [entries(n), -1e-3 * entries(n), np.zeros((n, n)),
                    np.tril(entries(n)), np.triu(entries(n))]
            for d, off in itertools.product(diags, offs):
                mat = np.array(off)
                np.fill_diagonal(mat, d)
                want = np.array(off)
                np.fill_diagonal(want, [math.exp(v) for v in d])
                for name, m in big.array_forms(mat):
                    with ctx.trace('diagonal', n, d, off.tolist()[0], name):
                        with inputs_kept(ctx, 'exp', m):
                            got = mp.exp_matrix_diagonal(m)
                        ctx.close(got, want, 'exp of the diagonal',
                                  1e-10, 1e-12)
                        with inputs_kept(ctx, 'log', want):
                            back = mp.log_matrix_diagonal(want)
                        ctx.close(back, mat, 'log of the diagonal',
                                  1e-9, 1e-9)
                        ctx.state(n, d)
    return run


def posdef_unit(sizes):
    def run(ctx):
        from LinearResponseVariationalBayes import MatrixParameters as mp
        for n in sizes:
            for lb in (0., 0.3, 2.):
                for which in range(4):
                    free = point(tri(n), which)
                    vec = pd_forward(free, n, lb)
                    want = np.array(pd_full(vec, n))
                    for name, x in big.array_forms(free):
                        with ctx.trace('free to matrix', n, lb, which, name):
                            with inputs_kept(ctx, 'unpack', x):
                                got = mp.unpack_posdef_matrix(x, diag_lb=lb)
                            ctx.close(got, want, 'matrix', 1e-10, 1e-11)
                            ctx.close(mp.pos_def_matrix_free_to_vector(
                                x, diag_lb=lb), vec, 'its vector',
                                      1e-10, 1e-11)
                    for name, m in big.array_forms(want):
                        with ctx.trace('matrix to free', n, lb, which, name):
                            with inputs_kept(ctx, 'pack', m):
                                got = mp.pack_posdef_matrix(m, diag_lb=lb)
                            ctx.close(got, free, 'free value', 1e-7, 1e-8)
                    if lb == 0.:
                        with ctx.trace('default bound', n, which):
                            got = mp.unpack_posdef_matrix(arr(free))
                            ctx.close(got, want, 'matrix', 1e-10, 1e-11)
                            ctx.close(mp.pack_posdef_matrix(got), free,
                                      'free value', 1e-7, 1e-8)
                    ctx.state(n, lb, which)
    return run


def derivative_unit(sizes):
    """The helpers are what everything else differentiates."""
    def run(ctx):
        import autograd
        from LinearResponseVariationalBayes import MatrixParameters as mp
        for n in sizes:
            k = tri(n)
            x = arr(point(k, 0))
            low = np.zeros((n, n, k))
            sym = np.zeros((n, n, k))
            for i in range(n):
                for j in range(i + 1):
                    low[i, j, ref.tri(i) + j] = 1.
                    sym[i, j, ref.tri(i) + j] = 1.
                    sym[j, i, ref.tri(i) + j] = 1.
            with ctx.trace('linear', n):
                ctx.close(autograd.jacobian(mp.unvectorize_ld_matrix)(x), low,
                          'derivative of the lower triangular matrix')
                ctx.close(
                    autograd.jacobian(mp.unvectorize_symmetric_matrix)(x),
                    sym, 'derivative of the symmetric matrix')
                ctx.close(autograd.jacobian(mp.vectorize_ld_matrix)(
                    entries(n)), np.moveaxis(low, 2, 0),
                          'derivative of the vector')
                weights = entries(n) + 0.5

                def quad(v):
                    m = mp.unvectorize_symmetric_matrix(v)
                    l = mp.unvectorize_ld_matrix(v)
                    return autograd.numpy.sum(weights * m * m) + \
                        autograd.numpy.sum(weights * l * m * l)
                lw = [weights[i, j] for i in range(n) for j in range(i + 1)]
                sw = [weights[i, j] + (weights[j, i] if i != j else 0.)
                      for i in range(n) for j in range(i + 1)]
                grad = [2 * s * v + 3 * l * v * v
                        for s, l, v in zip(sw, lw, x)]
                hess = np.diag([2 * s + 6 * l * v
                                for s, l, v in zip(sw, lw, x)])
                ctx.close(autograd.grad(quad)(x), grad, 'reverse')
                ctx.close(autograd.hessian(quad)(x), hess, 'twice reverse')
            for lb in (0., 0.4):
                for which in (0, 1):
                    x = arr(point(k, which))
                    free = lambda v: mp.pack_posdef_matrix(
                        mp.unvectorize_symmetric_matrix(v), diag_lb=lb)
                    with ctx.trace('of pack', n, lb, which):
                        vals, jac, hess = ref.transform_jets(PD(n, lb), x)
                        jac = np.array(jac)
                        inv = np.linalg.inv(jac)
                        ctx.close(autograd.jacobian(
                            mp.pos_def_matrix_free_to_vector)(x, lb), jac,
                                  'derivative of the vector by the free value')
                        ctx.close(autograd.jacobian(free)(np.array(vals)),
                                  inv,
                                  'derivative of the free value by the vector',
                                  1e-7, 1e-9)
                        # d2 free = -inv (d2 vec) (inv, inv)
                        want = -np.einsum('ap,pbc,bi,cj->aij', inv,
                                          np.array(hess), inv, inv)
                        if n < 4:
                            got = autograd.jacobian(autograd.jacobian(free))(
                                np.array(vals))
                            ctx.close(got, want, 'second derivatives',
                                      1e-6, 1e-8)
                    ctx.state(n, lb, which)
    return run


def forward_unit(sizes):
    """Forward mode, alone and nested."""
    def run(ctx):
        from autograd import make_jvp, grad
        from LinearResponseVariationalBayes import MatrixParameters as mp
        for n in sizes:
            k = tri(n)
            for lb in (0., 0.4):
                x, v, w = (arr(point(k, m)) for m in (0, 1, 3))
                vals, jac, hess = ref.transform_jets(PD(n, lb), x)
                jac, hess = np.array(jac), np.array(hess)
                f = lambda y: mp.pos_def_matrix_free_to_vector(y, diag_lb=lb)
                with ctx.trace('forward', n, lb):
                    val, tangent = make_jvp(f)(x)(v)
                    ctx.close(val, vals, 'value')
                    ctx.close(tangent, jac.dot(v), 'derivative')
                    inner = lambda y: make_jvp(f)(y)(v)[1]
                    got = make_jvp(inner)(x)(w)[1]
                    ctx.close(got, np.einsum('aij,i,j->a', hess, v, w),
                              'forward over forward')
                    _, got = make_jvp(mp.unvectorize_ld_matrix)(x)(v)
                    ctx.close(got, mp.unvectorize_ld_matrix(v), 'linear')
                    _, got = make_jvp(mp.unvectorize_symmetric_matrix)(x)(v)
                    ctx.close(got, mp.unvectorize_symmetric_matrix(v),
                              'linear')
                    ctx.state(n, lb)
    return run


# Indices ------------------------------------------------------------------------

def slices_unit(ctx):
    import LinearResponseVariationalBayes as vb
    for length, n in itertools.product((1, 2, 3, 7, 12), (1, 2, 3, 4)):
        with ctx.trace('vector of matrices', length, n):
            spec = PDV(length, n, 0.2)
            par = spec.build('p', vb)
            free = point(spec.free_size, 1)
            par.set_free(arr(free))
            vec = par.get_vector()
            for obs in range(length):
                for o in (obs, np.int64(obs)):
                    sl = par.free_obs_slice(o)
                    one = PD(n, 0.2).fwd(free[sl])
                    ctx.close(vec[sl], one, 'vector of matrix %d' % obs)
                    ctx.close(par.get()[obs], pd_full(one, n),
                              'matrix %d' % obs)
            ctx.raises((AssertionError, IndexError, ValueError),
                       lambda: par.free_obs_slice(length),
                       'no such matrix')
            ctx.true(par.length() == length and par.matrix_size() == n,
                     'length and size')
            ctx.state(length, n)
    for shape in ((1,), (4,), (2, 3), (3, 1), (1, 2), (2, 1, 2), (3, 4),
                  (2, 3, 2), (2, 1, 1, 3)):
        for n in (1, 2, 3):
            with ctx.trace('array of matrices', shape, n):
                spec = PDA(shape, n, 0.2)
                par = spec.build('p', vb)
                free = point(spec.free_size, 1)
                par.set_free(arr(free))
                vec = par.get_vector()
                cells = list(itertools.product(*[range(s) for s in shape]))
                ctx.true([list(r) for r in par.get_array_ranges()] ==
                         [list(range(s)) for s in shape], 'ranges')
                seen = []
                for obs in cells:
                    sl = par.stacked_obs_slice(obs)
                    seen += list(range(spec.free_size))[sl]
                    one = PD(n, 0.2).fwd(free[sl])
                    ctx.close(vec[sl], one, 'vector of matrix %s' % (obs,))
                    ctx.close(par.get()[obs], pd_full(one, n),
                              'matrix %s' % (obs,))
                ctx.true(seen == list(range(spec.free_size)),
                         'the slices of the matrices are %s' % seen)
                ctx.true(par.length() == ref.prod(shape) and
                         par.matrix_size() == n, 'length and size')
                for bad in (cells[0][1:], cells[0] + (0,)):
                    ctx.raises((AssertionError, ValueError),
                               lambda: par.stacked_obs_slice(bad),
                               'wrong number of indices')
                funs = [('trace', np.trace), ('square', lambda m: m.dot(m)),
                        ('rows', lambda m: m.sum(axis=1)),
                        ('corner', lambda m: m[-1:, :1]),
                        ('stack', lambda m: np.array([m, 2 * m])),
                        ('determinant', np.linalg.det)]
                for name, f in funs:
                    got = par.apply_matrix_function(f)
                    inner = np.shape(f(np.eye(n)))
                    want = np.zeros(shape + inner)
                    for obs in cells:
                        want[obs] = f(np.array(par.get()[obs]))
                    ctx.close(got, want, name + ' of every matrix')
                    for form, val in big.array_forms(par.get()):
                        other = spec.build('p', vb)
                        other.set(val)
                        with inputs_kept(ctx, name, val):
                            ctx.close(other.apply_matrix_function(f), want,
                                      '%s of every matrix (%s)' % (name, form))
                ctx.state(shape, n)
    for rows, cols in itertools.product((1, 2, 3, 9, 17), (2, 3, 5, 13)):
        with ctx.trace('simplexes', rows, cols):
            spec = Simplex((rows, cols))
            par = spec.build('p', vb)
            par.set_free(arr(point(spec.free_size, 1)))
            ctx.true(tuple(par.shape()) == (rows, cols), 'shape')
            ctx.true(tuple(par.free_shape()) == (rows, cols - 1),
                     'free shape')
            vec = par.get_vector()
            for r in range(rows):
                ind = np.array(par.get_vector_indices(r)).ravel().tolist()
                ctx.true(ind == list(range(r * cols, (r + 1) * cols)),
                         'indices of row %d: %s' % (r, ind))
                ctx.close(vec[par.get_vector_indices(r)].ravel(),
                          par.get()[r], 'row %d' % r)
            ctx.state(rows, cols)
    for shape in ((1,), (3,), (2, 3), (2, 1, 2)):
        with ctx.trace('array', shape):
            par = Array(shape).build('p', vb)
            ctx.true(tuple(par.shape()) == shape, 'shape')
    for n in (1, 2, 5, 20):
        with ctx.trace('sizes', n):
            ctx.true(Vector(n).build('p', vb).size() == n, 'vector')
            ctx.true(PD(n).build('p', vb).size() == n, 'matrix')
            if n > 1:
                ctx.true(Sub(n).build('p', vb).dim() == n, 'subspace')


# Offsets ------------------------------------------------------------------------

def offsets_unit(groups):
    def run(ctx):
        import LinearResponseVariationalBayes as vb
        from LinearResponseVariationalBayes import Parameters as pr
        for kinds in groups:
            specs = [KIND[k]() for k in kinds]
            both = Dict([('p%d' % i, s) for i, s in enumerate(specs)])
            nf, nv = both.free_size, both.vec_size
            free = point(nf, 1)
            vec, jac, hess = ref.transform_jets(both, free)
            jac, hess = np.array(jac), np.array(hess)
            for lead, tail in ((0, 0), (3, 0), (0, 2), (2, 5)):
                with ctx.trace('offsets', kinds, lead, tail):
                    pars = [s.build('p%d' % i, vb)
                            for i, s in enumerate(specs)]
                    pad = lambda x: np.array(
                        [77.] * lead + [float(v) for v in x] + [-99.] * tail)
                    offs = lambda sizes: [lead + sum(sizes[:i])
                                          for i in range(len(sizes) + 1)]
                    fo = offs([s.free_size for s in specs])
                    vo = offs([s.vec_size for s in specs])
                    x = pad(free)
                    with inputs_kept(ctx, 'set_free_offset', x):
                        at = lead
                        for i, p in enumerate(pars):
                            at = pr.set_free_offset(p, x, at)
                            ctx.true(at == fo[i + 1], 'offset after %d' % i)
                    for p, (_, s, v) in zip(pars, both.split_vec(vec)):
                        ref.check_state(ctx, p, s, v, 'set_free_offset')
                    out = pad([0.] * nf)
                    at = lead
                    for i, p in enumerate(pars):
                        at = pr.get_free_offset(p, out, at)
                        ctx.true(at == fo[i + 1], 'offset after %d' % i)
                    ctx.close(out, x, 'get_free_offset', 1e-7, 1e-8)
                    out = pad([0.] * nv)
                    at = lead
                    for i, p in enumerate(pars):
                        at = pr.get_vector_offset(p, out, at)
                        ctx.true(at == vo[i + 1], 'offset after %d' % i)
                    ctx.close(out, pad(vec), 'get_vector_offset')
                    other = both.fwd(point(nf, 3))
                    y = pad(other)
                    with inputs_kept(ctx, 'set_vector_offset', y):
                        at = lead
                        for i, p in enumerate(pars):
                            at = pr.set_vector_offset(p, y, at)
                            ctx.true(at == vo[i + 1], 'offset after %d' % i)
                    for p, (_, s, v) in zip(pars, both.split_vec(other)):
                        ref.check_state(ctx, p, s, v, 'set_vector_offset')
                    a, b = lead, lead
                    hessians = []
                    with inputs_kept(ctx, 'derivatives', x):
                        for i, p in enumerate(pars):
                            a, b, block = pr.free_to_vector_jac_offset(
                                p, x, a, b)
                            ctx.true((a, b) == (fo[i + 1], vo[i + 1]),
                                     'offsets %s after %d' % ((a, b), i))
                            ctx.close(block.toarray(), jac[
                                vo[i] - lead:vo[i + 1] - lead,
                                fo[i] - lead:fo[i + 1] - lead], 'Jacobian')
                        a = lead
                        total = lead + nf + tail
                        for i, p in enumerate(pars):
                            a = pr.free_to_vector_hess_offset(
                                p, x, hessians, a, (total, total))
                            ctx.true(a == fo[i + 1], 'offset after %d' % i)
                            ctx.true(len(hessians) == vo[i + 1] - lead,
                                     'number of Hessians')
                    for k, h in enumerate(hessians):
                        want = np.zeros((total, total))
                        want[lead:lead + nf, lead:lead + nf] = hess[k]
                        ctx.close(h.toarray(), want, 'Hessian %d' % k)
                    ctx.state(kinds, lead, tail)
    return run


def sparse_unit(ctx):
    """Blocks placed into larger matrices."""
    import scipy.sparse as sps
    from LinearResponseVariationalBayes import Parameters as pr
    for r, c in itertools.product((1, 2, 3), repeat=2):
        dense = entries(3)[:r, :c]
        for mask in range(2 ** (r * c)) if r * c <= 6 else \
                (0, 1, 5, 170, 257, 511):
            block = np.array([[dense[i, j] if mask >> (i * c + j) & 1 else 0.
                               for j in range(c)] for i in range(r)])
            for down, right in itertools.product((0, 1, 4), repeat=2):
                with ctx.trace('block', r, c, mask, down, right):
                    sp = sps.coo_matrix(block)
                    shape = (down + r + (mask % 3), right + c + (mask % 2))
                    want = np.zeros(shape)
                    want[down:down + r, right:right + c] = block
                    with inputs_kept(ctx, 'block', sp):
                        got = pr.offset_sparse_matrix(
                            sp, (down, right), shape)
                    ctx.close(got.toarray(), want, 'the placed block')
                    ctx.state(r, c, mask)
    with ctx.trace('repeated entries add'):
        sp = sps.coo_matrix(([1., 2., 3.5], ([0, 0, 1], [1, 1, 0])), (2, 2))
        got = pr.offset_sparse_matrix(sp, (1, 2), (4, 5)).toarray()
        want = np.zeros((4, 5))
        want[1, 3], want[2, 2] = 3., 3.5
        ctx.close(got, want, 'sum')


def units(tier):
    quick = tier == 'quick'
    out = [('positions', index_unit(70 if quick else 300)),
           ('rejected sizes', reject_unit), ('slices', slices_unit),
           ('blocks', sparse_unit)]
    for b in blocks(list(range(1, 10)) + [12, 17, 26] +
                    ([] if quick else [40, 65]), 2):
        out.append(('vectors-%d' % b[0], vec_unit(b)))
    for n in list(range(1, 7)) + [11] + ([] if quick else [20]):
        out.append(('diagonal-%d' % n, diagonal_unit([n])))
        out.append(('posdef-%d' % n, posdef_unit([n])))
    for n in (1, 2, 3, 4, 5) if quick else (1, 2, 3, 4, 5, 6, 7):
        out.append(('derivatives-%d' % n, derivative_unit([n])))
        out.append(('forward-%d' % n, forward_unit([n])))
    kinds = [k for k, _ in KINDS]
    groups = [(k,) for k in kinds] + \
        list(itertools.product('SXPUAV' if quick else kinds, repeat=2)) + \
        list(itertools.permutations('SXPUQ' if quick else 'SXPUQRV', 3))
    for i, b in enumerate(blocks(groups, 12)):
        out.append(('offsets-%d' % i, offsets_unit(b)))
    return out


def BOUNDS(tier):
    quick = tier == 'quick'
    return {
        'positions': 'all pairs of indices below %d' % (70 if quick else 300),
        'matrices': 'sizes 1 to 9, 12, 17, 26%s; every unit vector up to 9; '
                    'vectors of every length below 400; all shapes up to 7 x 7 '
                    'which are not square' % ('' if quick else ', 40, 65'),
        'diagonals and positive definite matrices': 'sizes 1 to 6 and 11, 7 '
        'memory layouts, 3 lower bounds, 4 points',
        'derivatives': 'reverse, twice reverse, forward, forward over forward '
                       'for sizes up to %d' % (5 if quick else 7),
        'slices': 'all matrices of vectors of 1 to 12 and of 9 shapes of '
                  'arrays; all rows of simplexes up to 17 x 13',
        'offsets': 'all 17 kinds, all ordered pairs and triples of %d kinds, 4 '
                   'paddings' % (6 if quick else 17),
        'blocks': 'all patterns of up to 2 x 3 entries at 9 positions',
    }
