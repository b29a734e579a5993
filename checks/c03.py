"""C03: sparse derivatives of the free to vector transforms are exact."""
import itertools

import numpy as np
import scipy.sparse as sps

from mc import ref, big
from mc.core import blocks, de_bruijn, inputs_kept
from mc.ref import (Scalar, Vector, Array, PD, PDV, PDA, Simplex, Sub, Dict,
                    INF, point, free_points, arr, transform_jets)
from checks.c01 import make, SHAPES, SHAPES4, leaves, KINDS
from checks.c02 import BOXES, DIAG, PERPS, scaled_point

PROPERTY = 'C03'


def specs(tier):
    out = []
    for lb, ub in BOXES:
        out += [Scalar(lb, ub), Vector(1, lb, ub), Vector(3, lb, ub),
                Array((2,), lb, ub), Array((2, 2), lb, ub),
                Array((1, 3, 2), lb, ub)]
    for d in DIAG:
        for n in range(1, 5 if tier == 'quick' else 6):
            out.append(PD(n, d))
        for length in (1, 2, 3):
            for n in (1, 2, 3):
                out.append(PDV(length, n, d))
        for sh in ((1,), (2,), (2, 2), (1, 3), (3, 1), (2, 1, 2)):
            for n in (1, 2):
                out.append(PDA(sh, n, d))
        out.append(PDA((2, 1), 3, d))
    for rows in (1, 2, 3):
        for cols in (2, 3, 4, 5):
            out.append(Simplex((rows, cols)))
    for dim, perp in PERPS:
        out.append(Sub(dim, perp))
    out += [ref.mvn(1), ref.mvn(3, 0.5), ref.uvn(0.2), ref.uvnv(2, 1.),
            ref.uvna((2, 2), 0.5), ref.uvnm((1, 2), 0.5), ref.mvna((2, 3)),
            ref.gamma(0.5, 0.1), ref.wishart(1), ref.wishart(2, 0.5),
            ref.wishart(3, 0., 4.5), ref.dirichlet((3, 2), 0.1)]
    return out


def tree_specs(tier):
    out = []
    kinds = [k for k, _ in KINDS]
    for kk in itertools.product(kinds[:8], repeat=2):
        out.append(make(['.', '.'], kk))
    for shape in SHAPES[2:]:
        for kk in itertools.product('SXU' if tier == 'quick' else 'SXPUR',
                                    repeat=leaves(shape)):
            out.append(make(shape, kk))
    for shape in SHAPES4:
        for kk in (('X', 'S', 'P', 'X'), ('U', 'P', 'X', 'S'),
                   ('P', 'X', 'U', 'A')):
            out.append(make(shape, kk))
    return out


def points_for(spec, deep, tier='quick'):
    n = spec.free_size
    if tier == 'quick' and n > 6:
        return [[0.] * n, point(n, 0), point(n, 3)]
    pts = [[0.] * n, point(n, 0), point(n, 1), point(n, 3)]
    if deep:
        pts += free_points(n)[4:]
        if n <= 2:
            pts += [list(p) for p in
                    itertools.product([-3., -0.4, 1.1, 4.], repeat=n)]
    else:
        pts.append([2. if i % 2 else -2. for i in range(n)])
    return pts


def far_points(n):
    """Very different magnitudes of the derivatives."""
    return [[6.5 if (i + k) % 2 else -6.5 for i in range(n)] for k in (0, 1)] \
        + [[12. if i % 2 else 0.3 for i in range(n)], [-12.] * n,
           [(1e-4, -4., 1e-7, 2.)[i % 4] for i in range(n)],
           [(-4., 1e-4, -3.5, 1e-6)[(i + i // 4) % 4] for i in range(n)]]


def near_points(n, tier):
    """Free values which are almost, but not quite, equal."""
    out = []
    for base in (-1.3, 0.8, -9.):
        for gap in (1e-4, 1e-6, 1e-7, 1e-8):
            if tier == 'quick' and (base == 0.8) != (gap == 1e-6) and \
                    n > 3:
                continue
            out.append([base + gap * ((3 * i) % (n + 1)) for i in range(n)])
    out.append([-0.7] * n)
    return out


def rowwise(ctx, par, spec, free, rtol, atol):
    """Each entry's derivatives on their own scale."""
    x = arr(free)
    _, jac, hess = transform_jets(spec, free)
    got = par.free_to_vector_jac(x).toarray()
    ctx.true(got.shape == (spec.vec_size, spec.free_size), 'Jacobian shape')
    goth = par.free_to_vector_hess(x)
    ctx.true(len(goth) == spec.vec_size,
             'number of Hessians %d' % len(goth))
    for i in range(spec.vec_size):
        ctx.close(got[i], jac[i], 'Jacobian row %d' % i, rtol, atol)
        ctx.close(goth[i], hess[i], 'Hessian of entry %d' % i, rtol, atol,
                  shape=spec.free_size)


def run_spec(ctx, spec, pts):
    import LinearResponseVariationalBayes as vb
    par = spec.build('p', vb)
    held = spec.fwd(point(spec.free_size, 4))
    if spec.free_size <= 9:
        for free in far_points(spec.free_size):
            with ctx.trace(repr(spec), 'far', free):
                rowwise(ctx, par, spec, free, 1e-6, 1e-14)
        for free in near_points(spec.free_size, ctx.tier):
            with ctx.trace(repr(spec), 'near', free):
                rowwise(ctx, par, spec, free, 1e-10, 1e-15)
    for free in pts:
        with ctx.trace(repr(spec), free):
            par.set_vector(arr(held))
            x = arr(free)
            vals, jac, hess = transform_jets(spec, free)
            with inputs_kept(ctx, 'derivatives', x):
                got = par.free_to_vector_jac(x)
                ctx.true(sps.issparse(got), 'the Jacobian is not sparse')
                ctx.close(got, np.array(jac).reshape(
                    (spec.vec_size, spec.free_size)), 'Jacobian')
                goth = par.free_to_vector_hess(x)
                ctx.true(len(goth) == spec.vec_size,
                         'number of Hessians %d' % len(goth))
                for i in range(spec.vec_size):
                    ctx.true(sps.issparse(goth[i]), 'Hessian not sparse')
                    ctx.close(goth[i], hess[i], 'Hessian of entry %d' % i,
                              shape=spec.free_size)
            ref.check_state(ctx, par, spec, held, 'value afterwards',
                            free=False)
            ctx.state(jac)
            ctx.close(par.free_to_vector(x), vals, 'the transform',
                      shape=not isinstance(spec, Scalar))
            # and again, at the same point, after the value has moved there
            ctx.close(par.free_to_vector_jac(x), np.array(jac).reshape(
                (spec.vec_size, spec.free_size)), 'Jacobian again')


def history_unit(which):
  def run(ctx):
      """Interleaved derivatives of one object at different points: every walk
      of 4 calls over 2 derivatives and 2 points, plus setters in between."""
      import LinearResponseVariationalBayes as vb
      pool = [Scalar(0.5), Vector(2, -1., 3.), Array((1, 2), 0.), PD(2, 0.5),
              PDV(2, 1), PDA((2,), 1, 0.5), Simplex((1, 3)), Sub(3),
              ref.gamma(0.1)]
      for spec in pool[which:which + 1]:
          n = spec.free_size
          pts = [point(n, 0), point(n, 1)]
          want = [transform_jets(spec, p) for p in pts]
          for seq in itertools.product(range(6), repeat=3):
              with ctx.trace(repr(spec), 'calls', seq):
                  par = spec.build('p', vb)
                  vec = None
                  for op in seq:
                      p = op % 2
                      x = arr(pts[p])
                      if op < 2:
                          ctx.close(par.free_to_vector_jac(x),
                                    np.array(want[p][1]), 'Jacobian')
                      elif op < 4:
                          for i, h in enumerate(par.free_to_vector_hess(x)):
                              ctx.close(h, want[p][2][i], 'Hessian')
                      else:
                          par.set_free(x)
                          vec = want[p][0]
                      if vec is not None:
                          ctx.close(par.get_vector(), vec, 'value')
                  ctx.state(repr(spec), vec)
  return run


def scaled_unit(ctx):
    """Matrices whose rows differ greatly in magnitude: every derivative to its
    own relative accuracy."""
    import LinearResponseVariationalBayes as vb
    for spec in (PD(1), PD(2), PDV(2, 1), PDV(2, 2), PDA((2, 1), 2), PD(3)):
        par = spec.build('p', vb)
        scales = [-9., -4., 0., 9.] if spec.size < 3 else [-9., 0., 9.]
        for ss in itertools.product(scales, repeat=spec.size):
            with ctx.trace('scaled', repr(spec), ss):
                free = scaled_point(spec, ss)
                _, jac, hess = transform_jets(spec, free)
                ctx.rel(par.free_to_vector_jac(arr(free)).toarray(), jac,
                        'Jacobian', 1e-9)
                got = par.free_to_vector_hess(arr(free))
                ctx.true(len(got) == len(hess), 'number of Hessians')
                for i, h in enumerate(got):
                    ctx.rel(h.toarray(), hess[i], 'Hessian %d' % i, 1e-9)
                ctx.state(ss)


def forms_unit(ctx):
    """The point in every memory layout."""
    import LinearResponseVariationalBayes as vb
    for spec in (Scalar(0.5), Vector(4, -1., 3.), Array((2, 2), 0.), PD(3, 0.5),
                 PDV(2, 2), PDA((3,), 1, 0.5), Simplex((2, 3)), Sub(4),
                 ref.gamma(0.1), make(['.', ['.', '.']], 'XSP')):
        par = spec.build('p', vb)
        free = point(spec.free_size, 1)
        _, jac, hess = transform_jets(spec, free)
        for name, x in big.array_forms(free):
            with ctx.trace(repr(spec), 'form', name):
                with inputs_kept(ctx, 'derivatives', x):
                    ctx.close(par.free_to_vector_jac(x).toarray(), jac,
                              'Jacobian')
                    got = par.free_to_vector_hess(x)
                    ctx.true(len(got) == len(hess), 'number of Hessians')
                    for i, h in enumerate(got):
                        ctx.close(h, hess[i], 'Hessian %d' % i)
                ctx.state(repr(spec), name)


def life_unit(ctx, buffers=ref.Fresh):
    """One tree lives through every triple of calls at three points."""
    import LinearResponseVariationalBayes as vb
    for spec in (make(['.', ['.', '.']], 'XSP'), make([['.'], '.'], 'UX'),
                 PDV(2, 2, 0.3), Simplex((2, 3))):
        with ctx.trace(repr(spec), 'life'):
            par = spec.build('p', vb)
            pts = [point(spec.free_size, k) for k in (0, 1, 3)]
            want = [transform_jets(spec, p) for p in pts]
            vec = None
            buf = buffers()
            for op in de_bruijn(list(range(9)), 2 if ctx.tier == 'quick'
                                else 3):
                p = op % 3
                x = buf(pts[p])
                ctx.step(op)
                if op < 3:
                    ctx.close(par.free_to_vector_jac(x),
                              np.array(want[p][1]), 'Jacobian')
                elif op < 6:
                    for i, h in enumerate(par.free_to_vector_hess(x)):
                        ctx.close(h, want[p][2][i], 'Hessian')
                else:
                    par.set_free(x)
                    vec = want[p][0]
                if vec is not None:
                    ctx.close(par.get_vector(), vec, 'value')
            ctx.state(repr(spec))


# kind, one piece of it, number of pieces: the pieces do not interact
LONG = [
    (Vector(140, 0.), Scalar(0.), 140), (Vector(300, -1., 2.), Scalar(-1., 2.), 300),
    (Vector(1030), Scalar(), 1030), (Array((130,), 0.), Scalar(0.), 130),
    (Array((17, 16), -INF, 2.), Scalar(-INF, 2.), 272),
    (PDV(135, 1, 0.2), PD(1, 0.2), 135), (PDV(90, 2), PD(2), 90),
    (PDA((13, 10), 1), PD(1), 130), (PDA((9, 10), 2, 0.3), PD(2, 0.3), 90),
    (Simplex((130, 2)), Simplex((1, 2)), 130),
    (Simplex((90, 3)), Simplex((1, 3)), 90),
    (Dict([('k%03d' % i, Scalar(0.5)) for i in range(135)]), Scalar(0.5), 135),
    (Dict([('k%03d' % i, Simplex((1, 3))) for i in range(70)]),
     Simplex((1, 3)), 70),
    (Dict([('d%02d' % i, Dict([('p', PD(2, 0.1))])) for i in range(45)]),
     PD(2, 0.1), 45),
]
VERY_LONG = [(Vector(33000, 0.), Scalar(0.), 33000),
             (Array((260, 130), -1., 2.), Scalar(-1., 2.), 33800)]


def long_unit(spec, piece, count, with_hess):
    """More entries than a byte (or two) can number: every piece at one of a
    few points, its derivatives in its own place and nothing elsewhere."""
    def run(ctx):
        import LinearResponseVariationalBayes as vb
        par = spec.build('p', vb)
        pts = [point(piece.free_size, w) for w in (0, 1, 3, 4, 2)]
        want = [transform_jets(piece, p) for p in pts]
        m, n = piece.vec_size, piece.free_size
        with ctx.trace(repr(spec)[:60], count):
            which = [(i * i + i // 7) % len(pts) for i in range(count)]
            free = arr([x for w in which for x in pts[w]])
            with inputs_kept(ctx, 'derivatives', free):
                jac = par.free_to_vector_jac(free)
                hess = par.free_to_vector_hess(free) if with_hess else []
            ctx.true(tuple(jac.shape) == (count * m, count * n),
                     'Jacobian of shape %s' % (jac.shape,))
            jac = sps.csr_matrix(jac)
            ctx.true(not with_hess or len(hess) == count * m,
                     'number of Hessians')
            total = 0.
            for i, w in enumerate(which):
                block = jac[i * m:(i + 1) * m, i * n:(i + 1) * n].toarray()
                ctx.close(block, want[w][1], 'Jacobian of piece %d' % i)
                total += float(np.sum(np.abs(block)))
            ctx.close(float(np.sum(np.abs(jac.data))), total,
                      'entries elsewhere', 1e-12, 0.)
            for i, w in enumerate(which if with_hess else []):
                for j in range(m):
                    h = hess[i * m + j]
                    ctx.true(tuple(h.shape) == (count * n, count * n),
                             'Hessian of shape %s' % (h.shape,))
                    h = sps.coo_matrix(h)
                    got = np.zeros((n, n))
                    for r, c, x in zip(h.row.tolist(), h.col.tolist(),
                                       h.data.tolist()):
                        if x:
                            ctx.true(i * n <= r < (i + 1) * n and
                                     i * n <= c < (i + 1) * n,
                                     'Hessian of piece %d has an entry at '
                                     '%d, %d' % (i, r, c))
                            got[r - i * n, c - i * n] += x
                    ctx.close(got, want[w][2][j], 'Hessian of piece %d' % i)
            ctx.state(repr(spec)[:60], count)
    return run


def units(tier):
    out = []
    large = big.medium() + (big.leaves(tier)[:1] + big.trees(tier)[3:4])
    for i, b in enumerate(blocks(large, 2)):
        def run(ctx, b=b):
            for spec in b:
                run_spec(ctx, spec, [point(spec.free_size, 0)])
        out.append(('large-%d' % i, run))
    for i, (spec, piece, count) in enumerate(LONG):
        out.append(('long-%d' % i, long_unit(spec, piece, count, True)))
    for i, (spec, piece, count) in enumerate(VERY_LONG):
        out.append(('very long-%d' % i, long_unit(spec, piece, count, False)))
    out.append(('forms', forms_unit))
    out.append(('scaled', scaled_unit))
    out.append(('life', life_unit))
    out.append(('life in place', lambda ctx: life_unit(ctx, ref.Reused)))
    for i, b in enumerate(blocks(big.smallest(), 12)):
        def run(ctx, b=b):
            for spec in b:
                run_spec(ctx, spec, points_for(spec, False, tier))
        out.append(('smallest-%d' % i, run))
    for i, b in enumerate(blocks(specs(tier), 3)):
        def run(ctx, b=b):
            for spec in b:
                run_spec(ctx, spec, points_for(spec, True, tier))
        out.append(('kinds-%d' % i, run))
    for i, b in enumerate(blocks(tree_specs(tier), 12)):
        def run(ctx, b=b):
            for spec in b:
                run_spec(ctx, spec, points_for(spec, False)[1:4]
                         if tier == 'quick' else points_for(spec, False, tier))
        out.append(('trees-%d' % i, run))
    for k in range(9):
        out.append(('history-%d' % k, history_unit(k)))
    return out


def BOUNDS(tier):
    return {
        'parameters': '%d kinds, bounds and shapes; %d trees' % (
            len(specs(tier)), len(tree_specs(tier))),
        'smallest': '%d parameters with no free entries, no entries or no parts' %
        len(big.smallest()),
        'points': 'structured points of every dimension; all assignments from '
                  '4 values up to 2 free values',
        'far and near points': 'derivatives of each entry on their own scale '
                               'at free values of magnitude 1e-7 ... 12, and '
                               'at free values which differ by 1e-8 ... 1e-4',
        'scaled': 'matrices up to 3 x 3, all assignments of 4 (3) magnitudes '
                  'from exp(-9) to exp(9) to the rows',
        'large': '%d parameters of 8 to 45 entries, dictionaries of 9 children '
                 'and of 5 levels' % (len(big.medium()) + 2),
        'long': '%d parameters of 130 to 1030 entries, %d of 33000 (first '
            'derivatives only)' % (len(LONG), len(VERY_LONG)),
        'forms and lives': 'strided, reversed, partial, read-only points; one '
                           'object through every %s of 9 calls' % (
                               'pair' if tier == 'quick' else 'triple'),
        'histories': 'all sequences of 3 calls over 2 derivatives, a setter '
                     'and 2 points, 9 kinds',
        'in place': 'all pairs of 9 calls once more with the same arrays, whose '
                    'entries the caller changes between the calls',
    }
