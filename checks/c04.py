"""C04: a Hessian in the vector parameterization is converted exactly."""
import itertools

import numpy as np
import scipy.sparse as sps

from mc import ref, jet, big
from mc.core import blocks, inputs_kept, as_array
from mc.ref import (Scalar, Vector, Array, PD, PDV, PDA, Simplex, Sub, Dict,
                    INF, point, arr, transform_jets)
from checks.c01 import make, SHAPES, leaves, KINDS
from checks.c02 import BOXES

PROPERTY = 'C04'


def specs(tier):
    out = []
    for lb, ub in BOXES[::3]:
        out += [Scalar(lb, ub), Vector(2, lb, ub), Array((1, 2), lb, ub)]
    out += [PD(1), PD(2, 0.5), PD(3), PDV(2, 2, 0.5), PDA((1, 2), 2),
            Simplex((1, 2)), Simplex((2, 3)), Simplex((1, 4)), Sub(3),
            Sub(3, [[1., 2., -1.]]), ref.mvn(2), ref.uvn(0.2), ref.gamma(),
            ref.wishart(2, 0.5), ref.dirichlet((2, 2)), ref.uvnm((1, 2)),
            ref.mvna((2, 2)), ref.uvnv(2), ref.uvna((1, 2))]
    for kk in itertools.product('SXPVAU', repeat=2):
        out.append(make(['.', '.'], kk))
    for shape in SHAPES[2:]:
        for kk in itertools.product('SX' if tier == 'quick' else 'SXPU',
                                    repeat=leaves(shape)):
            if tier == 'quick' and leaves(shape) == 3 and \
                    kk.count('X') not in (1, 2):
                continue
            out.append(make(shape, kk))
    return out


def expected(jac, hess, g, h):
    nv, nf = len(jac), len(jac[0])
    jac = np.array(jac)
    out = jac.T.dot(np.array(h)).dot(jac)
    for i in range(nv):
        if g[i] != 0.:
            out = out + g[i] * np.array(hess[i])
    return out


FORMS = [('dense', np.array), ('csr', sps.csr_matrix), ('csc', sps.csc_matrix),
         ('coo', sps.coo_matrix)]


def basis(nv, tier):
    """A basis of all pairs (gradient, symmetric Hessian), and full ones."""
    zero = np.zeros((nv, nv))
    for i in range(nv):
        g = np.zeros(nv)
        g[i] = 1.
        yield 'e%d' % i, g, zero
    for i in range(nv):
        for j in range(i + 1):
            if tier == 'quick' and nv > 5 and i != j and (i + 2 * j) % 5:
                continue
            h = np.zeros((nv, nv))
            h[i, j] = h[j, i] = 1.
            yield 'E%d,%d' % (i, j), np.zeros(nv), h
    g = arr(point(nv, 1))
    a = np.array([point(nv, k) for k in range(nv)])
    yield 'full', g, a + a.T
    wide = np.array([(1., -1e4, 1e-3, 30., -1e-5)[i % 5] for i in range(nv)])
    yield 'full, wide', wide, zero
    yield 'full, narrow', wide[::-1] * 1e-4, (a + a.T) * 1e-4
    yield 'full, other sign', -2. * g, np.eye(nv) * 3. - 0.5 * (a + a.T)


def run_spec(ctx, spec, tier):
    from LinearResponseVariationalBayes import Parameters as pmod
    import LinearResponseVariationalBayes as vb
    convert = pmod.convert_vector_to_free_hessian
    par = spec.build('p', vb)
    nv, nf = spec.vec_size, spec.free_size
    count = 0
    for which in (0, 1, 3):
        free = point(nf, which)
        vals, jac, hess = transform_jets(spec, free)
        for label, g, h in basis(nv, tier):
            if tier == 'quick' and which and not label.startswith('full') \
                    and (which == 3 or label.startswith('E')):
                continue
            with ctx.trace(repr(spec), free, label):
                x = arr(free)
                want = expected(jac, hess, g, h)
                count += 1
                forms = FORMS if label.startswith('full') or \
                    tier != 'quick' else [FORMS[0], FORMS[1 + count % 3]]
                for form, mk in forms:
                    m = mk(h)
                    par.set_free(arr(point(nf, 4)))
                    with inputs_kept(ctx, 'conversion', x, g, m):
                        got = convert(par, x, g, m)
                        got = np.asarray(as_array(got))
                    ctx.close(got, want, 'free Hessian (%s)' % form, 1e-7,
                              1e-9 * min(1., float(np.max(np.abs(want)))))
                    # the parameter holds numbers at the given value
                    ref.check_state(ctx, par, spec, vals, 'parameter')
                ctx.state(want)


def large_unit(batch):
    def run(ctx):
        from LinearResponseVariationalBayes import Parameters as pmod
        import LinearResponseVariationalBayes as vb
        convert = pmod.convert_vector_to_free_hessian
        for spec in batch:
            par = spec.build('p', vb)
            nv, nf = spec.vec_size, spec.free_size
            free = point(nf, 1)
            vals, jac, hess = transform_jets(spec, free)
            hess = [np.array(h) for h in hess]
            each = [(k, 'e%d' % k) for k in range(nv)] + [(None, 'full')]
            for k, label in each:
                with ctx.trace('large', repr(spec)[:80], label):
                    g, h = np.zeros(nv), np.zeros((nv, nv))
                    if k is None:
                        g = arr(point(nv, 1))
                        h = np.array([point(nv, i) for i in range(nv)])
                        h = h + h.T
                    else:
                        g[k] = 1.
                        h[k, k] = 0.5
                        h[k, nv - 1 - k] += 1.
                        h[nv - 1 - k, k] += 1.
                    want = expected(jac, hess, g, h)
                    x = arr(free)
                    for form, mk in FORMS[:2 if k is None else 1]:
                        got = convert(par, x, g, mk(h))
                        ctx.close(as_array(got), want, form, 1e-7, 1e-8)
                    ref.check_state(ctx, par, spec, vals, 'parameter',
                                    free=False)
                    ctx.state(label, want)
    return run


def forms_unit(ctx):
    """Every memory layout of the three arguments."""
    import LinearResponseVariationalBayes as vb
    from LinearResponseVariationalBayes import Parameters as pmod
    for spec in (Vector(3, -1., 2.), PD(2, 0.5), Simplex((2, 2)), Sub(3),
                 make(['.', ['.', '.']], 'XSP')):
        par = spec.build('p', vb)
        nv = spec.vec_size
        free = point(spec.free_size, 1)
        vals, jac, hess = transform_jets(spec, free)
        g = point(nv, 1)
        h = np.array([point(nv, i) for i in range(nv)])
        h = h + h.T
        want = expected(jac, hess, g, h)
        for xn, x in big.array_forms(free):
            for gn, gg in big.array_forms(g):
                for hn, hh in big.array_forms(h):
                    if ctx.tier == 'quick' and 'plain' not in (xn, gn, hn):
                        continue
                    with ctx.trace(repr(spec), 'forms', xn, gn, hn):
                        with inputs_kept(ctx, 'conversion', x, gg, hh):
                            got = pmod.convert_vector_to_free_hessian(
                                par, x, gg, hh)
                        ctx.close(as_array(got), want, 'free Hessian')
                        ctx.state(repr(spec), xn)


def patterns_unit(ctx):
    """Every pattern of entries of a symmetric Hessian."""
    import LinearResponseVariationalBayes as vb
    from LinearResponseVariationalBayes import Parameters as pmod
    pool = [Vector(2, -1., 2.), Vector(3, 0.5), Simplex((1, 3)), PD(2, 0.5),
            make(['.', '.'], 'SS'), make(['.', ['.', '.']], 'SSS')]
    if ctx.tier != 'quick':
        pool += [Simplex((2, 2)), Vector(4)]
    for spec in pool:
        par = spec.build('p', vb)
        nv = spec.vec_size
        free = point(spec.free_size, 1)
        vals, jac, hess = transform_jets(spec, free)
        places = [(i, j) for i in range(nv) for j in range(i + 1)]
        for bits in itertools.product((0, 1), repeat=len(places)):
            h = np.zeros((nv, nv))
            for k, ((i, j), bit) in enumerate(zip(places, bits)):
                h[i, j] = h[j, i] = bit * (1. + 0.7 * k) * (-1.) ** k
            for g in (np.zeros(nv), arr(point(nv, 1))):
                with ctx.trace(repr(spec), 'pattern', bits, g.tolist()):
                    want = expected(jac, hess, g, h)
                    for form, mk in FORMS:
                        m = mk(h)
                        got = pmod.convert_vector_to_free_hessian(
                            par, arr(free), g, m)
                        ctx.close(as_array(got), want,
                                  'free Hessian (%s)' % form, 1e-7, 1e-9)
                    ctx.state(repr(spec), bits)


def function_unit(ctx):
    """End to end: the conversion of the library's own vector derivatives is
    the library's free Hessian and that of an independent calculation."""
    import LinearResponseVariationalBayes as vb
    import autograd.numpy as anp
    from LinearResponseVariationalBayes import Parameters as pmod
    from LinearResponseVariationalBayes import SparseObjectives as so
    pool = [Scalar(0.3), Vector(2, -1., 2.), PD(2, 0.4), PDV(2, 1),
            PDA((2,), 1), Simplex((2, 2)), Sub(3), ref.mvn(2), ref.gamma(0.2),
            make([['.'], '.', '.'], 'XPS'), make(['.', ['.', '.']], 'SXU')]
    for spec in pool:
        for which in (0, 1, 3):
            with ctx.trace(repr(spec), which):
                par = spec.build('p', vb)
                nv, nf = spec.vec_size, spec.free_size
                a = np.array(point(nv, 1))
                b = np.array(point(nv, 3))

                def fun():
                    v = par.get_vector()
                    return anp.sum(a * v) ** 2 + anp.exp(0.3 * anp.sum(b * v))
                obj = so.Objective(par, fun)
                free = point(nf, which)
                x = arr(free)
                v = arr(spec.fwd(free))
                g = obj.fun_vector_grad(v)
                h = obj.fun_vector_hessian(v)
                vj = spec.fwd(jet.variables(free))
                f = jet.dot(a.tolist(), vj) ** 2 + \
                    jet.exp(0.3 * jet.dot(b.tolist(), vj))
                got = as_array(pmod.convert_vector_to_free_hessian(
                    par, x, g, h))
                ctx.close(got, f.hess(), 'converted Hessian', 1e-6, 1e-8)
                ctx.close(obj.fun_free_hessian(x), f.hess(), 'free Hessian',
                          1e-6, 1e-8)
                ctx.state(f.hess())


def units(tier):
    out = []
    for i, b in enumerate(blocks(specs(tier) + [
            s for s in big.smallest() if s.free_size], 4)):
        def run(ctx, b=b):
            for spec in b:
                run_spec(ctx, spec, tier)
        out.append(('basis-%d' % i, run))
    for i, b in enumerate(blocks(big.medium(), 1)):
        out.append(('large-%d' % i, large_unit(b)))
    out.append(('forms', forms_unit))
    out.append(('patterns', patterns_unit))
    out.append(('end-to-end', function_unit))
    return out


def BOUNDS(tier):
    return {
        'parameters': '%d kinds and trees, 3 points each' % len(specs(tier)),
        'gradients and Hessians': 'a basis of all gradients and symmetric '
                                  'Hessians (the conversion is linear in '
                                  'them; thinned above 5 entries in the quick tier), 2 full '
                                  'pairs; dense, csr, csc and coo',
        'patterns': 'every set of nonzero entries of a symmetric Hessian of '
                    '2 to %d rows, with and without a gradient, dense, csr, '
                    'csc and coo' % (3 if tier == 'quick' else 4),
        'large': '%d parameters of 8 to 45 entries' % len(big.medium()),
        'forms': 'strided, reversed, Fortran, partial and read-only '
                 'arguments: all combinations%s, 5 parameters' % (
                     ' with one plain' if tier == 'quick' else ''),
    }
