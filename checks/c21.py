"""C21: sparse matrix and index utilities are lossless."""
import itertools
import json

import numpy as np
import scipy.sparse as sps

from mc import big, ref
from mc.core import inputs_kept, blocks
from mc.ref import point, arr
from checks.c01 import KINDS, SHAPES, SHAPES4, leaves, make

PROPERTY = 'C21'

FORMATS = ['csr', 'csc', 'coo']


def library():
    from LinearResponseVariationalBayes import SparseObjectives as so
    from LinearResponseVariationalBayes import Parameters as pm
    return so, pm


def same(ctx, got, want, dtype, what):
    """A sparse matrix with exactly these entries"""
    ctx.true(sps.issparse(got), what + ': not sparse')
    ctx.true(tuple(got.shape) == want.shape, '%s: shape %s, expected %s' % (
        what, got.shape, want.shape))
    if dtype is not None:
        ctx.true(got.dtype == dtype, '%s: type %s, expected %s' % (
            what, got.dtype, dtype))
    dense = np.asarray(got.toarray())
    bad = ~((dense == want) | ((dense != dense) & (want != want)))
    ctx.true(not bad.any(), '%s: %s, expected %s' % (
        what, dense.tolist(), want.tolist()))


# ---------------------------------------------------------------------------
# Packing

DTYPES = ['float64', 'float32', 'int64', 'int32', 'bool']


def noncanonical(dense, dtype):
    """Forms of a csr matrix with the same entries: explicit zeros, unsorted
    columns."""
    r, c = dense.shape
    full = sps.csr_matrix(
        (dense.ravel().astype(dtype), list(range(c)) * r,
         [c * i for i in range(r + 1)]), shape=(r, c))
    turned = sps.csr_matrix(
        (dense[:, ::-1].ravel().astype(dtype),
         list(range(c))[::-1] * r, [c * i for i in range(r + 1)]),
        shape=(r, c))
    return [full, turned]


def pack_unit(shape, dtype, tier):
    """All matrices of a shape with entries zero and two others"""
    def run(ctx):
        so, _ = library()
        n = shape[0] * shape[1]
        values = {'float64': (0., 0.1, -2e30), 'float32': (0., 0.1, -2.5),
                  'int64': (0, 3, -4), 'int32': (0, 1, -7),
                  'bool': (False, True)}[dtype]
        for entries in itertools.product(values, repeat=n):
            dense = np.array(entries, dtype=dtype).reshape(shape)
            forms = [sps.csr_matrix(dense)]
            if dtype in ('float64', 'int32'):
                forms += noncanonical(dense, dtype)
            for i, m in enumerate(forms):
                with ctx.trace('pack', shape, dtype, entries, i):
                    round_trips(ctx, so, m, dense, dtype)
                    ctx.state(shape, dtype, entries)
    return run


def round_trips(ctx, so, m, dense, dtype):
    with inputs_kept(ctx, 'packing', m):
        d = so.pack_csr_matrix(m)
        same(ctx, so.unpack_csr_matrix(d), dense, dtype, 'packed')
        j = so.json_pack_csr_matrix(m)
        same(ctx, so.json_unpack_csr_matrix(j), dense, dtype, 'json-packed')
        text = json.dumps(j)
        same(ctx, so.json_unpack_csr_matrix(json.loads(text)), dense, dtype,
             'through JSON text')
        same(ctx, so.json_unpack_csr_matrix(j), dense, dtype, 'unpacked again')
        same(ctx, so.unpack_csr_matrix(d), dense, dtype, 'unpacked again')


def pack_forms_unit(tier):
    """Other inputs of pack_csr_matrix, special values, larger shapes"""
    def run(ctx):
        so, _ = library()
        for shape in itertools.product((1, 2, 3, 5), repeat=2):
            n = shape[0] * shape[1]
            for which in range(4):
                dense = arr(point(n, which)).reshape(shape)
                dense[np.abs(dense) < 0.3 * which] = 0.
                for form in FORMATS + ['lil', 'dok', 'dia', 'bsr', 'dense']:
                    with ctx.trace('from', form, shape, which):
                        m = dense if form == 'dense' else \
                            sps.csr_matrix(dense).asformat(form)
                        same(ctx, so.unpack_csr_matrix(so.pack_csr_matrix(m)),
                             dense, 'float64', form)
                with ctx.trace('values', shape, which):
                    round_trips(ctx, so, sps.csr_matrix(dense), dense,
                                'float64')
                    ctx.state(shape, which)
        for value in (1e-300, 5e-324, 1.7e308, 0.1 + 0.2, -1. / 3.,
                      float('inf'), -float('inf'), float('nan')):
            dense = np.array([[0., value], [value, 0.], [0., 0.]])
            with ctx.trace('value', repr(value)):
                m = sps.csr_matrix(dense)
                if abs(value) < float('inf'):
                    round_trips(ctx, so, m, dense, 'float64')
                else:               # JSON has no such numbers
                    same(ctx, so.unpack_csr_matrix(so.pack_csr_matrix(m)),
                         dense, 'float64', 'packed')
        for shape in ((1, 40), (40, 1), (30, 30)):
            dense = np.zeros(shape)
            with ctx.trace('empty', shape):
                round_trips(ctx, so, sps.csr_matrix(dense), dense, 'float64')
            dense[-1, -1] = 1.
            with ctx.trace('corner', shape):
                round_trips(ctx, so, sps.csr_matrix(dense), dense, 'float64')
    return run


# ---------------------------------------------------------------------------
# Placing

def place_unit(shape, tier):
    """All patterns, all choices of rows and columns in any order"""
    def run(ctx):
        so, _ = library()
        r, c = shape
        dims = [(r, c), (r + 1, c), (r, c + 1), (r + 1, c + 2)]
        if tier != 'quick':
            dims.append((r + 2, c + 2))
        n = r * c
        count = 0
        for bits in itertools.product((0., 1.), repeat=n):
            sub = (np.array(bits) * (0.5 + np.arange(n)) *
                   (-1.) ** np.arange(n)).reshape(shape)
            for big in dims:
                for rows in itertools.permutations(range(big[0]), r):
                    for cols in itertools.permutations(range(big[1]), c):
                        count += 1
                        with ctx.trace('place', sub, rows, cols, big):
                            place(ctx, so, sub, rows, cols, big, count)
    return run


INDEX_FORMS = [list, lambda x: np.array(x), lambda x: np.array(x, dtype=float),
               tuple, lambda x: np.array(x, dtype='int32')]


def place(ctx, so, sub, rows, cols, big, count):
    want = np.zeros(big)
    for i, a in enumerate(rows):
        for j, b in enumerate(cols):
            want[a, b] = sub[i, j]
    form = INDEX_FORMS[count % len(INDEX_FORMS)]
    sub = [sub, np.asfortranarray(sub), sub[::-1][::-1]][count % 3]
    ri, ci = form(rows), form(cols)
    with inputs_kept(ctx, 'get_sparse_sub_matrix', sub, ri, ci):
        if count % 2:
            got = so.get_sparse_sub_matrix(sub, ri, ci, big[0], big[1])
        else:
            got = so.get_sparse_sub_matrix(
                sub_matrix=sub, row_indices=ri, col_indices=ci,
                row_dim=big[0], col_dim=big[1])
    same(ctx, got, want, None, 'sub-matrix')
    if sub.shape[0] == sub.shape[1] and rows == cols and big[0] == big[1]:
        with inputs_kept(ctx, 'get_sparse_sub_hessian', sub, ri):
            if count % 2:
                got = so.get_sparse_sub_hessian(sub, ri, big[0])
            else:
                got = so.get_sparse_sub_hessian(
                    sub_hessian=sub, full_indices=ri, full_hess_dim=big[0])
        same(ctx, got, want, None, 'sub-Hessian')
    ctx.state('place', want)


MAGNITUDES = (5e-324, 1e-300, 1e-17, 1e-13, 1e-9, 1e-5, 1., 1e8, 1e17, 1e300,
              float('inf'), float('nan'))


def magnitude_unit(ctx):
    """Entries of every magnitude, next to those of every other"""
    so, pm = library()
    count = 0
    for a, b in itertools.product(MAGNITUDES, repeat=2):
        for s in (1., -1.):
            sub = np.array([[a, s * b], [s * b, s * a]])
            for rows in itertools.permutations(range(3), 2):
                for cols in (rows, rows[::-1]):
                    count += 1
                    with ctx.trace('magnitudes', a, s * b, rows, cols):
                        place(ctx, so, sub, rows, cols, (3, 3), count)
            want = np.zeros((4, 5))
            want[1:3, 2:4] = sub
            with ctx.trace('offset of magnitudes', a, s * b):
                same(ctx, pm.offset_sparse_matrix(
                    sps.coo_matrix(sub), (1, 2), (4, 5)), want, 'float64',
                    'offset')
                got = so.unpack_csr_matrix(
                    so.pack_csr_matrix(sps.csr_matrix(sub)))
                same(ctx, got, sub, 'float64', 'packed')


POSITIONS = [0, 1, 126, 127, 128, 255, 256, 32766, 32767, 32768, 40000, 65535,
             65536, 100000]


def only(ctx, got, want, shape, what):
    """A sparse matrix of a shape with these entries and no others"""
    ctx.true(sps.issparse(got), what + ': not sparse')
    ctx.true(tuple(got.shape) == shape, '%s: shape %s' % (what, got.shape))
    m = sps.coo_matrix(got)
    entries = {}
    for r, c, x in zip(m.row.tolist(), m.col.tolist(), m.data.tolist()):
        entries[r, c] = entries.get((r, c), 0.) + x
    entries = {k: x for k, x in entries.items() if x}
    ctx.true(entries == want, '%s: %s, expected %s' % (what, entries, want))


def far_unit(ctx):
    """Rows and columns far from the corner of large matrices"""
    so, pm = library()
    dim = 100003
    count = 0
    sub = np.array([[1.5, -2.], [0.25, 4.]])
    for a, b in itertools.product(POSITIONS, repeat=2):
        for rows, cols in (((a, a + 1), (b, b + 1)), ((a + 1, a), (b, b + 2)),
                           ((a, dim - 1), (b + 2, 0))):
            if len(set(rows)) < 2 or len(set(cols)) < 2:
                continue
            count += 1
            form = INDEX_FORMS[count % len(INDEX_FORMS)]
            want = {(r, c): sub[i, j] for i, r in enumerate(rows)
                    for j, c in enumerate(cols)}
            with ctx.trace('far', rows, cols):
                only(ctx, so.get_sparse_sub_matrix(
                    sub, form(rows), form(cols), dim, dim + 7), want,
                    (dim, dim + 7), 'sub-matrix')
                want = {(r, c): sub[i, j] for i, r in enumerate(rows)
                        for j, c in enumerate(rows)}
                only(ctx, so.get_sparse_sub_hessian(sub, form(rows), dim),
                     want, (dim, dim), 'sub-Hessian')
                ctx.state('far', rows, cols)
        with ctx.trace('far offset', a, b):
            got = pm.offset_sparse_matrix(
                sps.coo_matrix(sub), (a, b), (dim, dim + 1))
            want = {(a + i, b + j): sub[i, j] for i in (0, 1) for j in (0, 1)}
            only(ctx, got, want, (dim, dim + 1), 'offset')
            m = sps.csr_matrix(got)
            only(ctx, so.unpack_csr_matrix(so.pack_csr_matrix(m)), want,
                 (dim, dim + 1), 'packed')
            if count % 7 == 0:
                only(ctx, so.json_unpack_csr_matrix(json.loads(json.dumps(
                    so.json_pack_csr_matrix(m)))), want, (dim, dim + 1),
                    'through JSON text')
            only(ctx, so.safe_matmul(m, sps.identity(dim + 1, format='csr')),
                 want, (dim, dim + 1), 'product')
    import LinearResponseVariationalBayes as vb
    for n in (129, 257, 70000):
        with ctx.trace('far index', n):
            d = vb.ModelParamsDict('d')
            d.push_param(vb.VectorParam('a', n, lb=-1., ub=2.))
            d.push_param(vb.ScalarParam('b', lb=0.))
            d.push_param(vb.ArrayParam('c', (2, 2)))
            index = so.make_index_param(d)
            ctx.true(np.array_equal(index.get_vector(), np.arange(n + 5.)),
                     'positions of %d entries' % n)
            ctx.true(np.array_equal(index['a'].get(), np.arange(float(n))) and
                     float(index['b'].get()) == n and
                     np.array_equal(index['c'].get(),
                                    [[n + 1., n + 2.], [n + 3., n + 4.]]),
                     'index of %d entries' % n)
    for n in (130, 300):
        with ctx.trace('wide', n):
            sub = arr(point(n * n, 1)).reshape(n, n)
            rows = [(7 * i) % n + 200 for i in range(n)]
            got = so.get_sparse_sub_hessian(sub, rows, 600)
            want = np.zeros((600, 600))
            want[np.ix_(rows, rows)] = sub
            same(ctx, got, want, 'float64', 'wide sub-Hessian')
            round_trips(ctx, so, sps.csr_matrix(want), want, 'float64')


def hessian_unit(k, tier):
    """Square matrices, all choices of indices in any order; several placed
    ones add up"""
    def run(ctx):
        so, _ = library()
        for dim in range(k, 6):
            total, dense = sps.csr_matrix((dim, dim)), np.zeros((dim, dim))
            for t, idx in enumerate(itertools.permutations(range(dim), k)):
                sub = arr(point(k * k, t)).reshape(k, k)
                with ctx.trace('sub-Hessian', k, dim, idx):
                    for form in INDEX_FORMS:
                        with inputs_kept(ctx, 'get_sparse_sub_hessian', sub):
                            got = so.get_sparse_sub_hessian(
                                sub, form(idx), dim)
                        want = np.zeros((dim, dim))
                        for i in range(k):
                            for j in range(k):
                                want[idx[i], idx[j]] = sub[i, j]
                        same(ctx, got, want, 'float64', 'sub-Hessian')
                    total = total + got
                    dense = dense + want
                    ctx.close(total, dense, 'sum of sub-Hessians')
                    ctx.state(k, dim, idx)
    return run


def offset_unit(shape, tier):
    def run(ctx):
        _, pm = library()
        n = shape[0] * shape[1]
        for bits in itertools.product((0., 1.), repeat=n):
            sub = (np.array(bits) * (0.5 + np.arange(n))).reshape(shape)
            full = sps.coo_matrix(
                (sub.ravel(), ([i // shape[1] for i in range(n)],
                               [i % shape[1] for i in range(n)])),
                shape=shape)
            for a in range(3):
                for b in range(3):
                    for extra in ((0, 0), (1, 2)):
                        big = (shape[0] + a + extra[0],
                               shape[1] + b + extra[1])
                        want = np.zeros(big)
                        want[a:a + shape[0], b:b + shape[1]] = sub
                        with ctx.trace('offset', sub, (a, b), big):
                            for m in (sps.coo_matrix(sub), full):
                                with inputs_kept(
                                        ctx, 'offset_sparse_matrix', m):
                                    got = pm.offset_sparse_matrix(
                                        m, (a, b), big)
                                same(ctx, got, want, 'float64', 'offset')
                            ctx.state('offset', want)
    return run


# ---------------------------------------------------------------------------
# Products and compression

def operands(shape, which):
    """The same matrix in all forms"""
    dense = arr(point(shape[0] * shape[1], which)).reshape(shape)
    if which % 2:
        dense[np.abs(dense) < 0.6] = 0.
    sp = sps.csr_matrix(dense)
    return dense, [dense, np.asfortranarray(dense)] + \
        [sp.asformat(f) for f in FORMATS + ['lil', 'dia']]


def product_unit(tier):
    def run(ctx):
        so, _ = library()
        for a, b, c in itertools.product((1, 2, 3), repeat=3):
            for which in (0, 1, 2) if tier == 'quick' else range(5):
                left, lefts = operands((a, b), which)
                right, rights = operands((b, c), which + 1)
                want = left.dot(right)
                for (i, x), (j, y) in itertools.product(
                        enumerate(lefts), enumerate(rights)):
                    with ctx.trace('product', (a, b, c), which, i, j):
                        with inputs_kept(ctx, 'safe_matmul', x, y):
                            got = so.safe_matmul(x, y)
                        ctx.close(got, want, 'product')
                        ctx.state((a, b, c), which, i, j)
                vec = arr(point(b, which + 2))
                for i, x in enumerate(lefts):
                    with ctx.trace('times vector', (a, b), which, i):
                        with inputs_kept(ctx, 'safe_matmul', x, vec):
                            got = so.safe_matmul(x, vec)
                        ctx.close(got, left.dot(vec), 'matrix by vector')
                for j, y in enumerate(rights):
                    with ctx.trace('vector times', (b, c), which, j):
                        with inputs_kept(ctx, 'safe_matmul', y, vec):
                            got = so.safe_matmul(vec, y)
                        ctx.close(got, vec.dot(right), 'vector by matrix')
        for shape in itertools.product((1, 2, 3), repeat=2):
            for which in range(3):
                dense, forms = operands(shape, which)
                want = dense.reshape([d for d in shape if d > 1])
                for i, x in enumerate(forms + [np.matrix(dense)]):
                    with ctx.trace('compress', shape, which, i):
                        with inputs_kept(ctx, 'compress', x):
                            got = so.compress(x)
                        ctx.close(got, want, 'compressed')
                        ctx.true(type(got) is np.ndarray,
                                 'compressed to %s' % type(got))
        for shape in itertools.product((1, 2), repeat=3):
            dense = np.arange(float(np.prod(shape))).reshape(shape)
            with ctx.trace('compress', shape):
                ctx.close(so.compress(dense),
                          dense.reshape([d for d in shape if d > 1]),
                          'compressed')
    return run


# ---------------------------------------------------------------------------
# Index parameters

def index_unit(specs):
    def run(ctx):
        import LinearResponseVariationalBayes as vb
        so, _ = library()
        for label, mk in specs:
            spec = mk()
            with ctx.trace('index', label):
                par = spec.build('top', vb)
                vec = spec.fwd(point(spec.free_size, 1))
                for step in ('default', 'set', 'free'):
                    if step == 'set':
                        par.set_vector(arr(vec))
                    elif step == 'free':
                        par.set_free(arr(point(spec.free_size, 1)))
                    now = vec if step != 'default' else spec.default()
                    index = so.make_index_param(par)
                    positions = [float(i) for i in range(spec.vec_size)]
                    ctx.true(index is not par, 'the parameter itself')
                    ctx.close(index.get_vector(), positions, 'positions')
                    ref.check_value(ctx, index, spec, positions, 'index')
                    ctx.true(index.vector_size() == spec.vec_size,
                             'size of the index')
                    ref.check_value(ctx, par, spec, now, 'the original')
                    # positions select the entries
                    got = np.asarray(par.get_vector())
                    for path, s, p in leaves_of(spec, index):
                        idx = [int(i) for i in np.asarray(p.get_vector())]
                        ctx.close(s.value_array(got[idx].tolist()),
                                  ref.real_value(at(par, path), s),
                                  'entries at the index of %s' % (path,),
                                  shape=False)
                    par.set_vector(arr(vec))
                    ctx.close(index.get_vector(), positions,
                              'positions after setting the original')
                ctx.state(label)
    return run


def at(par, path):
    for n in path:
        par = par[n]
    return par


def leaves_of(spec, par, path=()):
    if not spec.is_dict:
        yield path, spec, par
        return
    for n, s in spec.children:
        for item in leaves_of(s, par[n], path + (n,)):
            yield item


def index_specs(tier):
    out = [(k, mk) for k, mk in KINDS]
    for shape in SHAPES + (SHAPES4 if tier != 'quick' else []):
        n = leaves(shape)
        letters = [k for k, _ in KINDS]
        if n <= 2:
            combos = itertools.product(letters, repeat=n)
        else:
            combos = [tuple(letters[(i + j * 5) % len(letters)]
                            for j in range(n)) for i in range(len(letters))]
        if tier == 'quick' and n == 2 and shape != ['.', '.']:
            combos = [tuple(letters[(i + j * 5) % len(letters)]
                            for j in range(n)) for i in range(len(letters))]
        for kinds in combos:
            out.append(('%s %s' % (shape, ''.join(kinds)),
                        lambda shape=shape, kinds=kinds: make(shape, kinds)))
    return out


# ---------------------------------------------------------------------------
# Large instances and memory layouts

def scattered(shape, step, dtype):
    """Non-zero at every step-th entry, in a scattered order."""
    r, c = shape
    dense = np.zeros(shape, dtype=dtype)
    for k in range(0, r * c, step):
        i = (k * 7 + 3) % (r * c)
        dense[i // c, i % c] = True if dtype == 'bool' else \
            (k % 23 - 11) * (1 if 'int' in dtype else 0.37) + 1
    return dense


def large_unit(part, tier):
    def run(ctx):
        so, pm = library()
        shapes = [(17, 31), (64, 5), (1, 200), (130, 1), (40, 40)]
        if tier != 'quick':
            shapes += [(200, 300), (1, 5000), (1000, 3)]
        for shape, step, dtype in itertools.product(
                shapes[part::2], (1, 2, 5, 37), DTYPES):
            dense = scattered(shape, step, dtype)
            with ctx.trace('large', shape, step, dtype):
                round_trips(ctx, so, sps.csr_matrix(dense), dense, dtype)
                ctx.state('large', shape, step, dtype)
            if dtype != 'float64':
                continue
            r, c = shape
            row_dim, col_dim = r + 13, c + 29
            spread = [
                (list(range(2, 2 + r)), list(range(5, 5 + c))),
                ([(7 * i + 1) % row_dim for i in range(r)] if row_dim % 7
                 else list(range(r))[::-1], list(range(c))[::-1]),
                (list(range(13, 13 + r))[::-1],
                 [col_dim - 1] + list(range(c - 1)))]
            for t, (rows, cols) in enumerate(spread):
                for form, sub in big.array_forms(dense):
                    with ctx.trace('place large', shape, step, t, form):
                        place_forms(ctx, so, sub, rows, cols,
                                    (row_dim, col_dim), dense)
            for a, b in ((0, 0), (13, 29), (6, 1)):
                with ctx.trace('offset large', shape, step, a, b):
                    want = np.zeros((row_dim, col_dim))
                    want[a:a + r, b:b + c] = dense
                    m = sps.coo_matrix(dense)
                    with inputs_kept(ctx, 'offset_sparse_matrix', m):
                        got = pm.offset_sparse_matrix(
                            m, (a, b), (row_dim, col_dim))
                    same(ctx, got, want, 'float64', 'offset')
            k = min(shape)
            sub = dense[:k, :k]
            for dim in (k, k + 41):
                idx = [(11 * i + 2) % dim for i in range(k)] if dim % 11 \
                    else list(range(k))[::-1]
                want = np.zeros((dim, dim))
                want[np.ix_(idx, idx)] = sub
                with ctx.trace('large sub-Hessian', shape, step, dim):
                    for form in INDEX_FORMS:
                        same(ctx, so.get_sparse_sub_hessian(
                            sub, form(idx), dim), want, 'float64',
                            'sub-Hessian')
            right = scattered((c, 9), 2, 'float64')
            want = dense.dot(right)
            ways = list(big.array_forms(dense)) + [
                (f, sps.csr_matrix(dense).asformat(f)) for f in FORMATS]
            other = list(big.array_forms(right)) + [
                (f, sps.csr_matrix(right).asformat(f)) for f in FORMATS]
            for (f, x), (g, y) in itertools.product(ways, other):
                with ctx.trace('large product', shape, step, f, g):
                    ctx.close(so.safe_matmul(x, y), want, 'product')
    return run


def place_forms(ctx, so, sub, rows, cols, dims, dense):
    want = np.zeros(dims)
    want[np.ix_(rows, cols)] = dense
    for index in (list, lambda x: np.array(x + x)[::-1][len(x):][::-1],
                  lambda x: np.array(x, dtype=float)):
        ri, ci = index(rows), index(cols)
        with inputs_kept(ctx, 'get_sparse_sub_matrix', sub, ri, ci):
            got = so.get_sparse_sub_matrix(sub, ri, ci, *dims)
        same(ctx, got, want, None, 'sub-matrix')


def units(tier):
    quick = tier == 'quick'
    out = [('large-0', large_unit(0, tier)), ('large-1', large_unit(1, tier))]
    out += [('large index-%d' % k, index_unit(
        [(repr(s), lambda s=s: s) for s in
         (big.leaves(tier) + big.dists(tier) + big.trees(tier))[k::4]]))
        for k in range(4)]
    shapes = [(1, 1), (1, 2), (2, 1), (2, 2), (1, 3), (3, 1), (2, 3), (3, 2)]
    if not quick:
        shapes += [(1, 5), (5, 1), (2, 4), (4, 2)]
    for shape in shapes:
        for dtype in DTYPES:
            if quick and shape[0] * shape[1] == 6 and dtype not in (
                    'float64', 'int32', 'bool'):
                continue
            out.append(('pack-%dx%d-%s' % (shape + (dtype,)),
                        pack_unit(shape, dtype, tier)))
    out.append(('pack-forms', pack_forms_unit(tier)))
    for shape in shapes[:8] if not quick else shapes[:6]:
        out.append(('place-%dx%d' % shape, place_unit(shape, tier)))
        out.append(('offset-%dx%d' % shape, offset_unit(shape, tier)))
    out.append(('magnitudes', magnitude_unit))
    out.append(('far', far_unit))
    for k in (1, 2, 3):
        out.append(('hessian-%d' % k, hessian_unit(k, tier)))
    out.append(('products', product_unit(tier)))
    for i, block in enumerate(blocks(index_specs(tier), 60)):
        out.append(('index-%d' % i, index_unit(block)))
    return out


def BOUNDS(tier):
    return {
        'packing': 'all matrices up to 2x3 over three entries, five types, '
                   'explicit zeros, unsorted; special values, larger shapes',
        'magnitudes': 'all pairs of %d magnitudes from 5e-324 to 1e300, '
                      'infinity and nan' % len(MAGNITUDES),
        'far': 'all pairs of %d positions up to 100000, in three patterns' %
               len(POSITIONS),
        'placing': 'all patterns up to %s, all row and column choices' % (
            '2x2, 1x3' if tier == 'quick' else '2x3'),
        'large': 'matrices up to %s, five types, 7 layouts; parameters with up '
                 'to 131 entries, 20 children, 9 levels' % (
                     '40x40' if tier == 'quick' else '200x300'),
        'products': 'all small shapes, 7 x 7 forms of operands',
        'parameters': '%d compositions' % len(index_specs(tier)),
    }
