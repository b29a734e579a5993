"""C11: Taylor expansions of the optimum in the hyperparameter."""
import itertools
import math

import numpy as np

from mc import ref, jet, big
from mc import functions as fn
from mc.faults import Faults, Fault, Stop, ArithmeticFault
from mc.core import inputs_kept, de_bruijn
from mc.models import Model, Known
from mc.ref import (Scalar, Vector, Array, PD, PDV, PDA, Simplex, Sub, Dict,
                    INF, point, arr)
from checks.c01 import make
from checks.c10 import INPUTS, HYPERS, FLAGS, pd_matrix

PROPERTY = 'C11'


class Taylor(object):
    def __init__(self, ctx, model, in_free, hy_free, order, partial=False,
                 hess=None, keyword=True, buffers=ref.Fresh,
                 guard=lambda f: f):
        import LinearResponseVariationalBayes as vb
        from LinearResponseVariationalBayes import ModelSensitivity as ms
        self.ctx, self.model, self.buf = ctx, model, buffers()
        self.in_free, self.hy_free = in_free, hy_free
        self.p_in, self.p_hy = (model.s_in.build('in', vb),
                                model.s_hy.build('hy', vb))
        whole, part = map(guard, model.bind(self.p_in, self.p_hy))
        x, h = model.base(0, in_free, hy_free)
        x, h = self.buf(x, 'x'), self.buf(h, 'h')
        kw = {}
        if partial:
            kw['hyper_par_objective_functor'] = part
        if hess is not None:
            kw['hess0'] = self.buf(hess, 'hess')
        if keyword or not in_free:
            kw['input_is_free'] = in_free
        if keyword or hy_free:
            kw['hyper_is_free'] = hy_free
        with inputs_kept(ctx, 'construction', x, h, kw.get('hess0')):
            self.real = ms.ParametricSensitivityTaylorExpansion(
                whole, self.p_in, self.p_hy, x, h, order, **kw)
        x += 1.
        h += 1.
        self.base, self.hess, self.order = 0, hess, order
        self.cache = {}
        self.numeric()

    def numeric(self):
        fi, fh = self.model.free_base(self.base)
        ref.check_state(self.ctx, self.p_in, self.model.s_in,
                        self.model.s_in.fwd(fi), 'input parameter')
        ref.check_state(self.ctx, self.p_hy, self.model.s_hy,
                        self.model.s_hy.fwd(fh), 'hyperparameter')

    def direction(self, which):
        h = self.model.base(self.base, self.in_free, self.hy_free)[1]
        scale = [0.8, 1.5, -0.6][which % 3]
        d = [scale * x for x in point(len(h), which + 1)]
        if which == 2:                   # a single coordinate
            d = [1.3 if i == len(h) - 1 else 0. for i in range(len(h))]
        return d

    def want(self, which):
        key = (self.base, self.hess is not None, which)
        if key not in self.cache:
            self.cache[key] = derivs(
                self.model, self.base, self.in_free, self.hy_free, which,
                self.direction(which), max(3, self.order), self.hess)
        return self.cache[key]

    def deriv(self, k, which):
        want = self.want(which)[k]
        d = self.buf(self.direction(which), 'd')
        with inputs_kept(self.ctx, 'derivative', d):
            got = self.real.evaluate_dkinput_dhyperk(d, k)
        self.ctx.close(got, want, 'derivative of order %d' % k, 1e-5, 1e-7)
        self.ctx.gstate(repr(self.model.s_in), repr(self.model.s_hy), k, want)
        self.numeric()

    def series(self, which, max_order=None, offset=None):
        m = self.order if max_order is None else max_order
        ders = self.want(which)
        want = [sum(ders[k][i] / math.factorial(k) for k in range(1, m + 1))
                for i in range(len(ders[0]))]
        if offset is not False:
            want = [a + b for a, b in zip(want, ders[0])]
        kw = {}
        if max_order is not None:
            kw['max_order'] = max_order
        if offset is not None:
            kw['add_offset'] = offset
        d = self.buf(self.direction(which), 'd')
        with inputs_kept(self.ctx, 'series', d):
            got = self.real.evaluate_taylor_series(d, **kw)
        self.ctx.close(got, want, 'series to order %s of %d' % (
            max_order, self.order), 1e-5, 1e-7)
        self.ctx.gstate(repr(self.model.s_in), repr(self.model.s_hy), 's', m,
                        want)
        got += 1.                        # the result belongs to the caller
        self.numeric()

    def refused(self):
        d = arr(self.direction(0))
        for k in (0, -1, self.order + 1, self.order + 3):
            self.ctx.raises(
                ValueError, lambda: self.real.evaluate_dkinput_dhyperk(d, k),
                'derivative %d of %d' % (k, self.order))
            self.ctx.raises(
                ValueError, lambda: self.real.evaluate_taylor_series(
                    d, max_order=k), 'series %d of %d' % (k, self.order))

    def rebase(self, k, hess):
        x, h = self.model.base(k, self.in_free, self.hy_free)
        x, h = self.buf(x, 'x'), self.buf(h, 'h')
        args = {} if hess is None else {'hess0': self.buf(hess, 'hess')}
        with inputs_kept(self.ctx, 'set_base_values', x, h,
                         args.get('hess0')):
            self.real.set_base_values(x, h, **args)
        x -= 2.
        h -= 2.
        self.base, self.hess = k, hess
        self.numeric()

    def set_order(self, order):
        self.real.set_order(order)
        self.order = order
        self.cache = {}

    def disturb(self):
        self.p_in.set_free(arr(point(self.model.s_in.free_size, 3)))
        self.p_hy.set_free(arr(point(self.model.s_hy.free_size, 4)))


MEMO = {}
TOP = 6


def derivs(model, base, in_free, hy_free, which, direction, order, hess):
    key = (id(model), base, in_free, hy_free, which, hess is not None)
    if key not in MEMO or len(MEMO[key][1]) <= order:
        MEMO[key] = (model, model.derivatives(
            base, in_free, hy_free, direction, order, hess))
    return MEMO[key][1]


def all_orders_unit(i, tier):
    """Every order, with the representation flags in rotation."""
    def run(ctx):
        s_in = INPUTS[i]
        for j, s_hy in enumerate(HYPERS):
            model = Model(s_in, s_hy, (i + j) % 3)
            for f, (in_free, hy_free) in enumerate(FLAGS):
                order = 3 if tier == 'quick' or f else 4
                quick = tier == 'quick'
                if quick and (i + j + f) % 4:
                    order = 2
                for partial in (False, True):
                    if quick and int(partial) != (i + j + f // 2) % 2:
                        continue
                    n = s_in.free_size if in_free else s_in.vec_size
                    for given in (None, 'other'):
                        if quick and (given is not None) != \
                                ((i + 2 * j + f) % 3 == 0):
                            continue
                        with ctx.trace(repr(s_in), repr(s_hy), in_free,
                                       hy_free, order, partial, given):
                            one = Taylor(ctx, model, in_free, hy_free, order,
                                         partial, pd_matrix(n) if given
                                         else None, (i + j) % 2)
                            one.disturb()
                            for k in range(order, 0, -1):
                                one.deriv(k, (i + j) % 3)
                            one.series((i + j) % 3)
                            one.refused()
    return run


DEEP = [(Scalar(0.2), Vector(2)), (Simplex((1, 3)), Scalar(0.2)),
        (Vector(2, -1., 2.), Simplex((1, 3))), (Vector(3), Vector(2)),
        (ref.gamma(0.1), Vector(1)), (PD(2, 0.3), Scalar(0.))]


def deep_unit(k, top):
    """High orders: prefactors of many kinds of terms."""
    def run(ctx):
        s_in, s_hy = DEEP[k]
        model = Model(s_in, s_hy, k % 3)
        for partial in (False, True):
            with ctx.trace(repr(s_in), repr(s_hy), top, partial):
                one = Taylor(ctx, model, k % 2 == 0, k % 3 == 0, top, partial)
                for order in range(1, top + 1):
                    one.deriv(order, k % 3)
                    if order < top:
                        one.series(k % 3, order, order % 2 == 0)
                one.series(k % 3)
    return run


def known_case(ctx, known, order, ds, partial, in_free):
    import LinearResponseVariationalBayes as vb
    from LinearResponseVariationalBayes import ModelSensitivity as ms
    n = len(known.coefs)
    iu, hu, fu = known.units
    p_in, p_hy = vb.VectorParam('in', n), vb.VectorParam('hy', 1)
    whole, part = known.bind(p_in, p_hy)
    kw = {'hyper_par_objective_functor': part} if partial else {}
    x0 = [r[0] * iu for r in known.coefs]
    real = ms.ParametricSensitivityTaylorExpansion(
        whole, p_in, p_hy, arr(x0), arr([known.h0 * hu]), order,
        input_is_free=in_free, hyper_is_free=not in_free, **kw)
    for d in ds:
        step = arr([d * hu])
        total = np.zeros(n)
        for k in range(1, order + 1):
            want = np.array(known.deriv(k, d))
            size = abs(d) ** k
            got = real.evaluate_dkinput_dhyperk(step, k)
            ctx.close(np.asarray(got) / iu / size, want / size,
                      'derivative %d' % k, 1e-6, 1e-7)
            total = total + want / math.factorial(k)
            if k < order - 1:
                continue
            got = real.evaluate_taylor_series(step, max_order=k,
                                              add_offset=False)
            ctx.close(np.asarray(got) / iu / abs(d), total / abs(d),
                      'series to %d' % k, 1e-6, 1e-7)
        got = real.evaluate_taylor_series(step)
        ctx.close(np.asarray(got) / iu,
                  total + np.array([r[0] for r in known.coefs]), 'series',
                  1e-6, 1e-7)
        ctx.state(known.coefs, known.units, d)


def vanishing_unit(first, tier):
    """Every pattern of vanishing derivatives."""
    size = [0.7, -1.1, 0.9, -0.6]

    def run(ctx):
        order = 3 if tier == 'quick' else 4
        pats = list(itertools.product((0, 1), repeat=order))
        for i, second in enumerate(pats):
            if tier == 'quick' and (i + first) % 2:
                continue
            rows = [[0.3] + [c * on for c, on in zip(size, pats[first])],
                    [-0.2] + [c * on for c, on in zip(size[::-1], second)]]
            for coefs in (rows, rows[:1]) if i < 2 else (rows,):
                for partial in (False, True):
                    if tier == 'quick' and partial != (i % 4 < 2):
                        continue
                    with ctx.trace(coefs, partial):
                        known_case(ctx, Known(coefs, h0=0.4), order,
                                   [1., -0.5][:1 if tier == 'quick' else 2],
                                   partial, i % 2 == 0)
    return run


def units_unit(k, tier):
    """All units of the input, the hyperparameter, the objective and steps of
    every size."""
    def run(ctx):
        coefs = [[[0.3, 0.7, -0.5, 0.4], [-0.2, -0.6, 0.8, 0.3]],
                 [[0.3, 0., 0.8, 0.], [-0.2, 0., 0., -0.5]]][k]
        scales = [1e-8, 1e-3, 1., 1e4, 1e9]
        for n, (iu, hu, fu) in enumerate(itertools.product(
                scales, scales, [1e-14, 1e-6, 1., 1e8])):
            if tier == 'quick' and (iu != 1.) + (hu != 1.) + (fu != 1.) > 1:
                continue
            # the tensors of the objective are of order fu * iu ** -k * hu ** -l
            with ctx.trace(coefs, iu, hu, fu):
                known_case(ctx, Known(coefs, iu, hu, fu, 0.4), 3,
                           [-0.7, 1e-3, 1e-7, -1e-12, -1e8]
                           if iu == hu == fu == 1. or tier != 'quick' else
                           [[-0.7], [1e-7], [-1e8]][n % 3], fu == 1e8,
                           iu < 1.)
    return run


OPS = ['d1', 'd2', 'd3', 's', 's1', 's2n', 'o2', 'o3', 'o1', 'b0', 'b1', 'b2h',
       'x', 'bad']


def perform(one, op, other):
    if op[0] == 'd':
        if int(op[1]) <= one.order:
            one.deriv(int(op[1]), 0)
    elif op == 's':
        one.series(0)
    elif op[0] == 's':
        if int(op[1]) <= one.order:
            one.series(1, int(op[1]), False if op[2:] else None)
    elif op[0] == 'o':
        one.set_order(int(op[1]))
    elif op[0] == 'b' and op != 'bad':
        one.rebase(int(op[1]), other if op[2:] else None)
    elif op == 'x':
        one.disturb()
    else:
        one.refused()


def history_unit(k, first, depth):
    def run(ctx):
        s_in, s_hy, in_free, hy_free, partial = [
            (Scalar(0.2), Vector(2), True, False, False),
            (Vector(2, -1., 2.), Scalar(0.2), False, True, True)][k]
        model = Model(s_in, s_hy, k)
        n = s_in.free_size if in_free else s_in.vec_size
        other = pd_matrix(n)
        for rest in itertools.product(OPS, repeat=depth - 1):
            seq = (first,) + rest
            with ctx.trace(repr(s_in), repr(s_hy), in_free, hy_free, list(seq)):
                one = Taylor(ctx, model, in_free, hy_free, 2, partial)
                for op in seq + ('s',):
                    ctx.step(op)
                    perform(one, op, other)
    return run


def large_unit(i, tier):
    """Many entries in the input or in the hyperparameter."""
    def run(ctx):
        for s_in, s_hy in LARGE[i:i + 1]:
            model = Model(s_in, s_hy, i % 3)
            for f, (in_free, hy_free) in enumerate(FLAGS):
                if tier == 'quick' and f % 2 != i % 2:
                    continue
                with ctx.trace('large', repr(s_in)[:60], repr(s_hy)[:60],
                               in_free, hy_free):
                    one = Taylor(ctx, model, in_free, hy_free, 2, f % 2 == 1)
                    one.deriv(2, i % 3)
                    one.deriv(1, 2)
                    one.series(i % 3)
    return run


LARGE = [(Vector(10, -1.), Vector(2)), (Vector(1, 0.), Vector(14)),
         (Simplex((3, 4)), Scalar(0.2)), (Scalar(), Simplex((2, 6))),
         (PD(3, 0.1), Vector(3)), (Vector(2), PD(4)), (Sub(8), Array((2, 3))),
         (PDV(3, 2), Scalar(0.)), (big.wide(5), Vector(2, 0.)),
         (Vector(2, 0.), big.deep(3)), (Vector(9), Vector(9))]


def forms_unit(ctx):
    """Base values, Hessian and direction in every memory layout."""
    import LinearResponseVariationalBayes as vb
    from LinearResponseVariationalBayes import ModelSensitivity as ms
    for s_in, s_hy in ((Vector(3, -1.), Vector(2)), (Simplex((1, 3)), PD(2))):
        for in_free, hy_free in FLAGS:
            model = Model(s_in, s_hy, 0)
            x0, h0 = model.base(0, in_free, hy_free)
            hess = pd_matrix(len(x0))
            d = point(len(h0), 2)
            want = model.derivatives(0, in_free, hy_free, d, 2, hess)
            for (xn, x), (hn, h), (mn, m), (dn, dd) in zip(*[
                    list(f) * 2 for f in (
                        rotate(big.array_forms(x0), 0),
                        rotate(big.array_forms(h0), 1),
                        rotate(big.array_forms(hess), 2),
                        rotate(big.array_forms(d), 3))]):
                with ctx.trace(repr(s_in), in_free, hy_free, xn, hn, mn, dn):
                    p_in, p_hy = s_in.build('in', vb), s_hy.build('hy', vb)
                    whole, part = model.bind(p_in, p_hy)
                    with inputs_kept(ctx, 'construction', x, h, m, dd):
                        real = ms.ParametricSensitivityTaylorExpansion(
                            whole, p_in, p_hy, x, h, 2, hess0=m,
                            input_is_free=in_free, hyper_is_free=hy_free)
                        for k in (1, 2):
                            ctx.close(real.evaluate_dkinput_dhyperk(dd, k),
                                      want[k], 'derivative', 1e-6, 1e-8)
                        ctx.close(real.evaluate_taylor_series(dd), [
                            a + b + c / 2 for a, b, c in zip(*want[:3])],
                            'series', 1e-6, 1e-8)
                    ctx.state(xn, hn, mn, dn, in_free)


def rotate(items, k):
    items = list(items)
    return items[k:] + items[:k]


def life_unit(k, n, buffers=ref.Fresh):
    """One expansion lives through every sequence of n operations."""
    def run(ctx):
        s_in, s_hy, in_free, hy_free, partial = [
            (Scalar(0.2), Vector(2), True, False, False),
            (Vector(2, -1., 2.), Scalar(0.2), False, True, True),
            (Simplex((1, 3)), Vector(2, 0.), True, True, False)][k]
        model = Model(s_in, s_hy, k)
        other = pd_matrix(s_in.free_size if in_free else s_in.vec_size)
        with ctx.trace(repr(s_in), repr(s_hy), 'life', n):
            one = Taylor(ctx, model, in_free, hy_free, 2, partial,
                         buffers=buffers)
            for op in de_bruijn(OPS, n):
                ctx.step(op)
                perform(one, op, other)
                one.series(0)
    return run


def interrupted_unit(k):
    """The objective raises in any one of its calls during any operation; the
    operations after it give what they should."""
    def run(ctx):
        s_in, s_hy, in_free, hy_free, partial = [
            (Scalar(0.2), Vector(2), True, False, False),
            (Vector(2, -1., 2.), Scalar(0.2), False, True, True)][k]
        model = Model(s_in, s_hy, k)
        other = pd_matrix(s_in.free_size if in_free else s_in.vec_size)
        faults = Faults()
        one = Taylor(ctx, model, in_free, hy_free, 2, partial,
                     guard=faults.guard)
        firsts = ['d1', 'd2', 's', 's1', 'b0', 'b1', 'b2h']
        for first, then in itertools.product(firsts, OPS):
            faults.plan, faults.count = None, 0
            one.set_order(2)
            perform(one, first, other)
            calls = faults.count
            # (with a Hessian given nothing is evaluated)
            ctx.true(calls >= 1 or first == 'b2h', 'nothing was evaluated')
            at = sorted({1, 2, (calls + 1) // 2, calls} & set(
                range(1, calls + 1)))
            for i, n in enumerate(at if ctx.tier == 'quick'
                                  else range(1, calls + 1)):
                when = ('before', 'after')[(i + len(first)) % 2]
                kind = (Fault, Stop, ArithmeticFault)[(i + len(then)) % 3]
                with ctx.trace(repr(s_in), 'interrupted', first, then, n,
                               when, kind.__name__):
                    one.set_order(2)
                    faults.plan, faults.count = (n, when, kind), 0
                    try:
                        ctx.step(first)
                        perform(one, first, other)
                        ctx.fail('the exception did not reach the caller')
                    except kind:
                        pass
                    faults.plan = None
                    if first[0] == 'b':
                        ctx.step('b1')
                        one.rebase(1, None)
                    ctx.step(then)
                    perform(one, then, other)
                    one.series(0)
                    one.numeric()
    return run


def units(tier):
    out = [('forms', forms_unit)]
    for k in range(2):
        out.append(('interrupted-%d' % k, interrupted_unit(k)))
    for i in range(len(LARGE)):
        out.append(('large-%d' % i, large_unit(i, tier)))
    for k in range(3):
        for how, buffers in ref.BUFFERS:
            out.append(('life%s-%d' % (how, k), life_unit(
                k, 2 if tier == 'quick' or how else 3, buffers)))
    for k in range(len(DEEP)):
        top = (5 if k in (0, 3) else 4) if tier == 'quick' else \
            (5 if DEEP[k][0].free_size > 2 else 6)
        out.append(('deep-%d' % k, deep_unit(k, top)))
    for i in range(len(INPUTS)):
        out.append(('orders-%d' % i, all_orders_unit(i, tier)))
    for k in range(8 if tier == 'quick' else 16):
        out.append(('vanishing-%d' % k, vanishing_unit(k, tier)))
    for k in range(2):
        out.append(('units-%d' % k, units_unit(k, tier)))
    depth = 2 if tier == 'quick' else 3
    for k in range(2):
        for op in OPS:
            out.append(('history-%d-%s' % (k, op),
                        history_unit(k, op, depth)))
    return out


def BOUNDS(tier):
    return {
        'parameters': 'all pairs of %d input and %d hyperparameters' % (
            len(INPUTS), len(HYPERS)),
        'orders': 'up to 3 on all pairs (quick: 2 or 3), up to %d on 6 pairs'
                  % (5 if tier == 'quick' else 6),
        'configurations': 'representation flags, partial objectives and '
                          'supplied Hessians: %s' % (
                              'all flags, the rest in rotation'
                              if tier == 'quick' else 'all combinations'),
        'vanishing derivatives': 'polynomial optima of one and two inputs with '
                                 'every pattern of zero coefficients up to '
                                 'order %s' % (
                                     '3, half of the pairs'
                                     if tier == 'quick' else '4, all pairs'),
        'magnitudes': 'units of input, hyperparameter and objective 1e-14 ... '
                      '1e9, steps 1e-12 ... 1e8',
        'large': '%d pairs of up to 14 entries' % len(LARGE),
        'forms': 'memory layouts of base values, Hessians and directions, in '
                 'rotation',
        'lives': 'one expansion through every %s of %d operations, 3 models' % (
            'pair' if tier == 'quick' else 'triple', len(OPS)),
        'histories': 'all sequences of %d operations from %d on 2 models' % (
            2 if tier == 'quick' else 3, len(OPS)),
        'interrupted': 'the objective raises one of 3 exceptions in %s of its '
            'calls, in each of 7 operations, followed by each operation' % (
                'up to 4' if tier == 'quick' else 'each'),
        'in place': 'all pairs of operations once more with the same arrays, whose '
                    'entries the caller changes between the calls',
    }
