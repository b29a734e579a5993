"""C23: values of the wrong size are rejected and change nothing."""
import itertools

import numpy as np

from mc import big, ref
from mc.core import sequences, blocks
from mc.ref import (Scalar, Vector, Array, PD, PDV, PDA, Simplex, Sub, Dict,
                    INF, point, arr)
from checks import c01
from checks.c01 import KINDS, SHAPES, SHAPES4, Node, make, leaves

PROPERTY = 'C23'


def wrong_sizes(n, tier='quick'):
    top = n + 4 if tier == 'quick' else 2 * n + 6
    return [k for k in range(0, top) if k != n]


def filled(shape, which=0):
    n = int(np.prod(shape)) if len(shape) else 1
    return arr(point(n, which)).reshape(shape)


def spread(size, scale=1.0):
    """A positive definite matrix"""
    return np.eye(size) * (1.5 * scale) + 0.25


def wrong_values(spec):
    """(label, value) which set() must refuse."""
    out = []
    if isinstance(spec, Scalar):
        for k in (0, 2, 3):
            out.append(('size %d' % k, filled((k,))))
        out.append(('matrix', filled((2, 2))))
        return out
    if isinstance(spec, (PDV, Simplex, Array)) or \
            (isinstance(spec, (Vector, Sub)) and not isinstance(spec, Array)):
        shape = tuple(spec.value_array([0.] * spec.vec_size).shape)
        n = int(np.prod(shape))
        for k in wrong_sizes(n):
            out.append(('size %d' % k, filled((k,))))
    if isinstance(spec, PD):
        n = spec.size
        for k in range(1, n + 3):
            if k != n:
                out.append(('size %d' % k, spread(k)))
                out.append(('%d rows' % k, filled((k, n))))
                out.append(('%d columns' % k, filled((n, k))))
        for i, j in itertools.permutations(range(n), 2):
            for d in (-0.5, 3., 1e-3, -1e-5, 1e-6, 1e-7, -1e-8, 1e-9, -1e-10,
                      1e-12):
                m = spread(n)
                m[i, j] += d
                out.append(('asymmetric at %d, %d by %g' % (i, j, d), m))
            for scale in (1e-12, 1e-9, 1e-6, 1e6, 1e12):
                m = spread(n) * scale
                m[i, j] *= 1.5
                out.append(('asymmetric at %d, %d of scale %g' % (
                    i, j, scale), m))
        if n > 1:
            out.append(('triangular', np.tril(spread(n))))
        return out
    if isinstance(spec, (Array, Simplex, PDV)):
        # every other shape near the right one
        shape = tuple(spec.value_array([0.] * spec.vec_size).shape)
        for delta in itertools.product((-1, 0, 1), repeat=len(shape)):
            other = tuple(a + b for a, b in zip(shape, delta))
            if other != shape and min(other) >= 1:
                out.append(('shape %s' % (other,), abs(filled(other))))
        for perm in itertools.permutations(shape):
            if perm != shape:
                out.append(('shape %s' % (perm,), abs(filled(perm))))
        for other in ((n,), shape + (1,), (1,) + shape):
            if other != shape:
                out.append(('shape %s' % (other,), abs(filled(other))))
    return out


def unique(pairs):
    seen, out = set(), []
    for label, v in pairs:
        if (label, v.shape) not in seen or label.startswith('asymm'):
            seen.add((label, v.shape))
            out.append((label, v))
    return out


class Wrong(object):
    """All wrong settings of a parameter, and checks around each"""
    def __init__(self, ctx, spec, tier):
        import LinearResponseVariationalBayes as vb
        self.ctx, self.spec, self.tier = ctx, spec, tier
        self.par = spec.build('p', vb)
        self.vec = spec.default()

    def kept(self, what):
        ref.check_layout(self.ctx, self.par, self.spec, what)
        ref.check_state(self.ctx, self.par, self.spec, self.vec, what)

    def refuse(self, fun, what):
        self.ctx.step(what)
        self.ctx.raises(ValueError, fun, what)
        self.kept('after refused ' + what)

    def everything(self):
        spec, par = self.spec, self.par
        for k in wrong_sizes(spec.free_size, self.tier):
            self.refuse(lambda: par.set_free(filled((k,))),
                        'free value of size %d' % k)
            self.refuse(lambda: par.free_to_vector(filled((k,))),
                        'free value of size %d to convert' % k)
        for k in wrong_sizes(spec.vec_size, self.tier):
            self.refuse(lambda: par.set_vector(filled((k,), 1)),
                        'vector of size %d' % k)
        if not spec.is_dict:
            for label, v in unique(wrong_values(spec)):
                self.refuse(lambda: par.set(v), 'value of ' + label)
            return
        for name, s in spec.children:
            if not s.is_dict:
                for label, v in unique(wrong_values(s)):
                    self.refuse(lambda: put(par.values, name, v),
                                '%s: value of %s' % (name, label))
            for k in (s.free_size - 1, s.free_size + 1):
                if k < 0:
                    continue
                self.refuse(lambda: par[name].set_free(filled((k,))),
                            '%s: free value of size %d' % (name, k))
            for k in (s.vec_size - 1, s.vec_size + 1):
                if k < 0:
                    continue
                self.refuse(lambda: par[name].set_vector(filled((k,))),
                            '%s: vector of size %d' % (name, k))

    def use(self, which):
        spec, par = self.spec, self.par
        free = point(spec.free_size, which)
        self.vec = spec.fwd(free)
        par.set_free(arr(free))
        self.kept('free value')
        if not spec.is_dict:
            self.vec = spec.fwd(point(spec.free_size, which + 1))
            par.set(spec.for_set(self.vec))
            self.kept('value')
        self.vec = spec.fwd(point(spec.free_size, which + 2))
        par.set_vector(arr(self.vec))
        self.kept('vector')


def put(values, name, v):
    values[name] = v


def spec_unit(pairs, tier):
    def run(ctx):
        for label, mk in pairs:
            with ctx.trace(label):
                w = Wrong(ctx, mk(), tier)
                w.everything()
                w.use(0)
                w.everything()
                w.use(1)
                ctx.state(label)
    return run


LEAVES = [Scalar(), Scalar(-1.), Scalar(-INF, 2.), Scalar(0., 1.),
          Vector(1), Vector(2, 0.), Vector(3, -1., 1.), Vector(5),
          Array((1, 1)), Array((2, 3)), Array((3, 2), 0.),
          Array((2, 1, 2), -1., 4.), Array((4,)), Array((2, 2)),
          PD(1), PD(2), PD(3, 0.5), PD(4),
          PDV(1, 1), PDV(2, 2), PDV(3, 2, 0.2), PDV(2, 3),
          PDA((1,), 2), PDA((2, 3), 2), PDA((2, 2), 1), PDA((1, 2, 2), 2),
          Simplex((1, 2)), Simplex((2, 3)), Simplex((3, 2)), Simplex((3, 3)),
          Simplex((2, 5)), Sub(2), Sub(3), Sub(4, ((1., 0., 2., 0.),
                                                   (0., 1., 0., -1.)))]


def construct_unit(tier):
    """Wrong initial values"""
    def run(ctx):
        import LinearResponseVariationalBayes as vb
        for spec in LEAVES:
            for label, v in unique(wrong_values(spec)):
                with ctx.trace('construct', repr(spec), label):
                    ctx.raises(ValueError,
                               lambda: construct(vb, spec, v),
                               'initial value of ' + label)
                    ctx.state(repr(spec), label)
        for shape in ((3, 2), (2, 2), (1, 2)):
            for other in ((2, 3), (3, 3), (3,), (1, 1), (6,), (2,)):
                with ctx.trace('construct Dirichlet', shape, other):
                    ctx.raises(ValueError, lambda: vb.DirichletParamArray(
                        'd', shape=shape, val=abs(filled(other)) + 1.),
                        'initial value')
        for dim in range(2, 7):
            for n, m in itertools.product(range(1, 8), range(1, 9)):
                perp = filled((n, m))
                ok = m == dim and n < dim
                for val in (None, np.zeros(dim)):
                    with ctx.trace('construct subspace', dim, n, m,
                                   val is None):
                        make = lambda: vb.SubspaceVectorParam(
                            'p', dim=dim, val=val, perp_subspace=perp)
                        if ok:
                            par = make()
                            ctx.true(par.vector_size() == dim and
                                     par.free_size() == dim - n,
                                     'sizes of the subspace')
                        else:
                            ctx.raises(ValueError, make, 'subspace of %d '
                                       'vectors of %d entries' % (n, m))
                        ctx.state('subspace', dim, n, m, val is None)
        for lo, up in itertools.product((-INF, -2., 0., 1.5, INF), repeat=2):
            if lo == INF or up == -INF:
                continue
            makers = {
                'scalar': lambda: vb.ScalarParam('p', lb=lo, ub=up),
                'vector': lambda: vb.VectorParam('p', 2, lb=lo, ub=up),
                'array': lambda: vb.ArrayParam('p', (2, 1), lb=lo, ub=up)}
            for what in sorted(makers):
                with ctx.trace('construct', what, lo, up):
                    if lo < up:
                        val = np.ravel(makers[what]().get())
                        ctx.true(np.all((val >= lo) & (val <= up)),
                                 'default value %s' % val)
                    else:
                        ctx.raises(ValueError, makers[what],
                                   'bounds %s, %s' % (lo, up))
                    ctx.state('bounds', what, lo, up)
    return run


def construct(vb, spec, val):
    if isinstance(spec, Scalar):
        return vb.ScalarParam('p', lb=spec.lb, ub=spec.ub, val=val)
    if isinstance(spec, Array):
        return vb.ArrayParam('p', shape=spec.shape, lb=spec.lb, ub=spec.ub,
                             val=val)
    if isinstance(spec, Vector):
        return vb.VectorParam('p', spec.n, lb=spec.lb, ub=spec.ub, val=val)
    if isinstance(spec, PD):
        return vb.PosDefMatrixParam('p', spec.size, diag_lb=spec.diag_lb,
                                    val=val)
    if isinstance(spec, PDA):
        return vb.PosDefMatrixParamArray(
            'p', array_shape=spec.shape, matrix_size=spec.size,
            diag_lb=spec.diag_lb, val=val)
    if isinstance(spec, PDV):
        return vb.PosDefMatrixParamVector(
            'p', length=spec.length, matrix_size=spec.size,
            diag_lb=spec.diag_lb, val=val)
    if isinstance(spec, Simplex):
        return vb.SimplexParam('p', shape=spec.shape, val=val)
    kw = {} if spec.perp is None else {'perp_subspace': np.array(spec.perp)}
    return vb.SubspaceVectorParam('p', dim=spec.dim, val=val, **kw)


def forms_unit(pairs):
    """Wrong and right sizes in every memory layout; right values are still
    accepted after any number of refused ones."""
    def run(ctx):
        for label, mk in pairs:
            spec = mk()
            with ctx.trace('forms', label):
                w = Wrong(ctx, spec, 'quick')
                par = w.par
                for t in range(3):
                    for d in (-1, 1, 2):
                        for n, put_, what in (
                                (spec.free_size, par.set_free, 'free'),
                                (spec.vec_size, par.set_vector, 'vector')):
                            if n + d < 0:
                                continue
                            for form, a in big.array_forms(filled((n + d,))):
                                ctx.step(what, d, form)
                                ctx.raises(ValueError, lambda: put_(a),
                                           '%s value of size %d' % (what,
                                                                    n + d))
                            w.kept('after refused values')
                    w.use(t)
                ctx.state('forms', label)
    return run


def life_unit(tier):
    """Many refused and accepted values in the life of one parameter."""
    def run(ctx):
        for label, mk in KINDS + [('tree', c01.start_spec)]:
            spec = mk()
            with ctx.trace('life', label):
                w = Wrong(ctx, spec, 'quick')
                par = w.par
                for k in range(60 if tier == 'quick' else 400):
                    d = (-1, 1, 2, 3)[k % 4]
                    for n, put_ in ((spec.free_size, par.set_free),
                                    (spec.vec_size, par.set_vector)):
                        if n + d >= 0:
                            w.refuse(lambda: put_(filled((n + d,), k % 5)),
                                     'size %d' % (n + d))
                    if k % 7 == 0:
                        w.use(k % 3)
                ctx.state('life', label)
    return run


# Histories: right and wrong settings, the dictionary growing meanwhile

def wrong_op(what, delta):
    def op(par, node, vb):
        spec = node.as_spec()
        if what == 'free':
            par.set_free(filled((spec.free_size + delta,), 2))
        elif what == 'vector':
            par.set_vector(filled((spec.vec_size + delta,), 2))
        elif what == 'child free':
            par['m'].set_free(filled((node.kid('m').as_spec().free_size +
                                      delta,), 2))
        else:
            name, kid = node.kids[-1]
            spec = kid.as_spec()
            par[name].set_vector(filled((spec.vec_size + delta,), 1))
    return op


WRONG = [('%s %+d' % (what, d), wrong_op(what, d))
         for what in ('free', 'vector', 'child free', 'child vector')
         for d in (-1, 1)]

RIGHT = [(n, op) for n, op in c01.OPS
         if n in ('set_free0', 'set_vector', 'child.set', 'child.set_free',
                  'push new', 'push replacement', 'push into nested',
                  'replace nested')]


def history_unit(first, depth):
    def run(ctx):
        import LinearResponseVariationalBayes as vb
        for rest in sequences(RIGHT + WRONG, depth - 1, 0):
            seq = (first,) + rest
            with ctx.trace([n for n, _ in seq]):
                spec = c01.start_spec()
                par = spec.build('top', vb)
                node = Node.of(spec, spec.default())
                for item in seq:
                    ctx.step(item[0])
                    if item in WRONG:
                        ctx.raises(ValueError,
                                   lambda: item[1](par, node, vb), item[0])
                    else:
                        item[1](par, node, vb)
                spec, vec = node.as_spec(), node.as_vec()
                ref.check_layout(ctx, par, spec, 'after ' + seq[-1][0])
                ref.check_state(ctx, par, spec, vec, 'after ' + seq[-1][0])
                ctx.gstate(repr(spec), vec)
    return run


def compositions(tier):
    out = []
    kinds = [k for k, _ in KINDS]
    for shape in SHAPES + SHAPES4:
        n = leaves(shape)
        combos = [tuple(kinds[(i + 5 * j) % len(kinds)] for j in range(n))
                  for i in range(len(kinds))]
        if shape == ['.', '.'] or (n == 2 and tier != 'quick'):
            combos = list(itertools.product(kinds, repeat=2))
        if tier == 'quick' and n > 2:
            combos = combos[::4]
        for kk in combos:
            out.append(('%s %s' % (shape, ''.join(kk)),
                        lambda shape=shape, kk=kk: make(shape, kk)))
    return out


def units(tier):
    quick = tier == 'quick'
    out = []
    single = [(repr(s), lambda s=s: s) for s in LEAVES] + \
        [(k, mk) for k, mk in KINDS]
    for i, b in enumerate(blocks(single, 4)):
        out.append(('leaves-%d' % i, spec_unit(b, tier)))
    for i, b in enumerate(blocks(compositions(tier), 16)):
        out.append(('compositions-%d' % i, spec_unit(b, tier)))
    out.append(('construct', construct_unit(tier)))
    large = [(repr(s), lambda s=s: s) for s in
             big.medium() + big.leaves(tier)[::2] + big.trees(tier)[::3]]
    for i, b in enumerate(blocks([(repr(s), lambda s=s: s) for s in
                                  big.smallest()], 12)):
        out.append(('smallest-%d' % i, spec_unit(b, tier)))
    for i, b in enumerate(blocks(large, 3)):
        out.append(('large-%d' % i, spec_unit(b, 'quick')))
    for i, b in enumerate(blocks(
            single[::2] + large[::2] + compositions(tier)[::9], 8)):
        out.append(('forms-%d' % i, forms_unit(b)))
    out.append(('life', life_unit(tier)))
    for i, op in enumerate(RIGHT + WRONG):
        out.append(('history-%d' % i, history_unit(op, 3 if quick else 4)))
    return out


def BOUNDS(tier):
    quick = tier == 'quick'
    return {
        'parameters': '%d leaves, %d kinds, %d compositions' % (
            len(LEAVES), len(KINDS), len(compositions(tier))),
        'large': 'parameters with up to 131 entries, 20 children; 7 layouts; '
                 'lives of %d refusals' % (120 if quick else 800),
        'wrong sizes': 'all from 0 to %s' % (
            'size + 3' if quick else '2 size + 5'),
        'wrong shapes': 'all with every dimension off by at most one, '
                        'permuted, flat, with a dimension more',
        'asymmetric matrices': 'one entry changed by 3 ... 1e-12, matrices of '
                               'magnitude 1e-12 ... 1e12',
        'histories': 'all sequences of %d of %d operations' % (
            3 if quick else 4, len(RIGHT + WRONG)),
    }
