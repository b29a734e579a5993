"""C10: linear sensitivity of the optimum to hyperparameters."""
import itertools

import numpy as np

from mc import ref, jet, big
from mc import functions as fn
from mc.faults import Faults, Fault, Stop, ArithmeticFault
from mc.core import inputs_kept, de_bruijn
from mc.models import Model, Known
from mc.ref import (Scalar, Vector, Array, PD, PDV, PDA, Simplex, Sub, Dict,
                    INF, point, arr)
from checks.c01 import make

PROPERTY = 'C10'

INPUTS = [Scalar(0.2), Vector(2, -1., 2.), Array((1, 3), -2.), PD(2, 0.3),
          PDV(2, 1), Simplex((1, 3)), Simplex((2, 2)), Sub(3),
          ref.gamma(0.1), ref.mvn(2, 0.2), make(['.', ['.']], 'XS'),
          ref.dirichlet((2, 2))]
HYPERS = [Vector(2), Scalar(0.2), Array((2, 2), -1., 2.), PD(2, 0.1),
          Simplex((1, 3)), ref.gamma(0.1), make(['.', ['.']], 'SX')]
FLAGS = list(itertools.product((True, False), repeat=2))


def pd_matrix(n):
    b = [[0.3 * x for x in fn.weights(n, k % 5)[k:] + fn.weights(n, k % 5)[:k]]
         for k in range(n)]
    m = jet.matmul(b, jet.transpose(b))
    return [[m[i][j] + (1.5 + 0.2 * i if i == j else 0.) for j in range(n)]
            for i in range(n)]


def shifted(h, which, scale):
    return [a + scale * b for a, b in zip(h, point(len(h), which))]


def matvec(m, v):
    return [sum(a * b for a, b in zip(row, v)) for row in m]


def spoil(x):
    """What a user may do to an answer must not show in the next one."""
    x = np.asarray(x)
    if x.flags.writeable:
        x += 77.


class Linear(object):
    """The real linear approximation and what it should know."""
    def __init__(self, ctx, model, in_free, hy_free, partial, hess, keyword,
                 buffers=ref.Fresh,
                 guard=lambda f: f):
        import LinearResponseVariationalBayes as vb
        from LinearResponseVariationalBayes import ModelSensitivity as ms
        self.ctx, self.model, self.buf = ctx, model, buffers()
        self.in_free, self.hy_free = in_free, hy_free
        self.p_in, self.p_hy = (model.s_in.build('in', vb),
                                model.s_hy.build('hy', vb))
        whole, part = map(guard, model.bind(self.p_in, self.p_hy))
        x, h = model.base(0, in_free, hy_free)
        x, h = self.buf(x, 'x'), self.buf(h, 'h')
        kw = {}
        if partial:
            kw['hyper_par_objective_functor'] = part
        if hess is not None:
            kw['hess0'] = self.buf(hess, 'hess')
        if keyword or not in_free:
            kw['input_is_free'] = in_free
        if keyword or hy_free:
            kw['hyper_is_free'] = hy_free
        with inputs_kept(ctx, 'construction', x, h, kw.get('hess0')):
            self.real = ms.ParametricSensitivityLinearApproximation(
                whole, self.p_in, self.p_hy, x, h, **kw)
        x += 1.                     # base values are copied
        h += 1.
        self.base, self.hess = 0, hess
        self.numeric()

    def numeric(self):
        fi, fh = self.model.free_base(self.base)
        ref.check_state(self.ctx, self.p_in, self.model.s_in,
                        self.model.s_in.fwd(fi), 'input parameter')
        ref.check_state(self.ctx, self.p_hy, self.model.s_hy,
                        self.model.s_hy.fwd(fh), 'hyperparameter')

    def want(self):
        return self.model.sensitivity(
            self.base, self.in_free, self.hy_free, self.hess)

    def sens(self):
        want = self.want()
        self.ctx.close(self.real.get_dinput_dhyper(), want, 'sensitivity',
                       1e-6, 1e-8)
        self.ctx.gstate(repr(self.model.s_in), repr(self.model.s_hy), want)

    def predict(self, which, scale=0.7):
        x, h = self.model.base(self.base, self.in_free, self.hy_free)
        new = self.buf(shifted(h, which, scale), 'h')
        want = [a + b for a, b in zip(x, matvec(
            self.want(), [a - b for a, b in zip(new.tolist(), h)]))]
        with inputs_kept(self.ctx, 'prediction', new):
            got = self.real.predict_input_par_from_hyperparameters(new)
        self.ctx.close(got, want, 'linear prediction', 1e-6, 1e-8)
        spoil(got)

    def rebase(self, k, hess):
        x, h = self.model.base(k, self.in_free, self.hy_free)
        x, h = self.buf(x, 'x'), self.buf(h, 'h')
        args = {} if hess is None else {'hess0': self.buf(hess, 'hess')}
        with inputs_kept(self.ctx, 'set_base_values', x, h,
                         args.get('hess0')):
            self.real.set_base_values(x, h, **args)
        x -= 2.
        h -= 2.
        self.base, self.hess = k, hess
        self.numeric()

    def disturb(self):
        self.p_in.set_free(arr(point(self.model.s_in.free_size, 3)))
        self.p_hy.set_free(arr(point(self.model.s_hy.free_size, 4)))



def config_unit(i, tier):
    def run(ctx):
        s_in = INPUTS[i]
        for j, s_hy in enumerate(HYPERS):
            for w in ((0,) if tier == 'quick' else (0, 1, 2)):
                model = Model(s_in, s_hy, w)
                for in_free, hy_free in FLAGS:
                    for partial in (False, True):
                        n = s_in.free_size if in_free else s_in.vec_size
                        for given in (None, 'other'):
                            if tier == 'quick' and given and \
                                    (i + j) % 2 == int(partial):
                                continue
                            hess = pd_matrix(n) if given else None
                            with ctx.trace(repr(s_in), repr(s_hy), w, in_free,
                                           hy_free, partial, given):
                                one = Linear(ctx, model, in_free, hy_free,
                                             partial, hess, (i + j) % 2)
                                one.sens()
                                one.predict(1, 0.)
                                one.predict(1)
                                one.disturb()
                                one.predict(3, 2.)
                                one.sens()
    return run


OPS = ['sens', 'predict', 'base0', 'base1', 'base2h', 'disturb']


def history_unit(k, first, depth):
    def run(ctx):
        s_in, s_hy, in_free, hy_free, partial = HISTORIES[k]
        model = Model(s_in, s_hy, k % 3)
        n = s_in.free_size if in_free else s_in.vec_size
        other = pd_matrix(n)
        for rest in itertools.product(OPS, repeat=depth - 1):
            seq = (first,) + rest
            with ctx.trace(repr(s_in), repr(s_hy), in_free, hy_free, list(seq)):
                one = Linear(ctx, model, in_free, hy_free, partial, None, True)
                for op in seq + ('sens', 'predict'):
                    ctx.step(op)
                    if op == 'sens':
                        one.sens()
                    elif op == 'predict':
                        one.predict(2)
                    elif op == 'disturb':
                        one.disturb()
                    else:
                        one.rebase(int(op[4]), other if op[5:] else None)
    return run


HISTORIES = [
    (Scalar(0.2), Vector(2), True, False, False),
    (Simplex((1, 3)), Scalar(0.2), True, True, True),
    (Vector(2, -1., 2.), Simplex((1, 3)), False, True, False),
    (PD(2, 0.3), ref.gamma(0.1), False, False, True),
]


# The deprecated class --------------------------------------------------------------

class Old(object):
    def __init__(self, ctx, model, s_out, partial, hess, given):
        import LinearResponseVariationalBayes as vb
        from LinearResponseVariationalBayes import SparseObjectives as so
        self.ctx, self.model, self.s_out = ctx, model, s_out
        self.p_in = model.s_in.build('in', vb)
        self.p_hy = model.s_hy.build('hy', vb)
        self.p_out = s_out.build('out', vb)
        self.conv = fn.Conversion(model.s_in, s_out, 1)
        whole, part = model.bind(self.p_in, self.p_hy)
        fi, _ = model.free_base(0)
        vh = model.base(0, True, False)[1]
        self.p_hy.set_vector(arr(vh))
        self.current = list(fi)
        x = arr(fi)
        if given:
            self.p_in.set_free(arr(point(len(fi), 3)))
        else:
            self.p_in.set_free(x)
        kw = {}
        if given:
            kw['optimal_input_par'] = x
        if hess is not None:
            kw['objective_hessian'] = np.array(hess)
        if partial:
            kw['hyper_par_objective_fun'] = part
        with inputs_kept(ctx, 'construction', x, kw.get('objective_hessian')):
            self.real = so.ParametricSensitivity(
                whole, self.p_in, self.p_out, self.p_hy,
                self.conv.bind(self.p_in, self.p_out), **kw)
        if given:
            x += 1.
        self.hess = hess
        self.x, self.h = list(fi), list(vh)
        self.refresh()

    def refresh(self):
        self.hh = self.model.hessians_at(self.x, self.h, True, False)
        inv = jet.inverse(self.hh[0] if self.hess is None else self.hess)
        self.dx = [[-v for v in r] for r in jet.matmul(inv, self.hh[1])]
        vals, jac = fn.jacobian(
            lambda z: self.conv.out_vec(self.model.s_in.fwd(z)), self.x)
        self.out0, self.dout = vals, jet.matmul(jac, self.dx)
        ref.check_state(self.ctx, self.p_in, self.model.s_in,
                        self.model.s_in.fwd(self.x), 'input parameter')
        ref.check_state(self.ctx, self.p_hy, self.model.s_hy, self.h,
                        'hyperparameter')

    def sens(self):
        c = self.ctx
        c.close(self.real.get_dinput_dhyper(), self.dx, 'input sensitivity',
                1e-6, 1e-8)
        c.close(self.real.get_doutput_dhyper(), self.dout,
                'output sensitivity', 1e-6, 1e-8)
        c.gstate(self.dx, self.dout)

    def predict(self, which, mode, scale=0.3):
        new = arr(shifted(self.h, which, scale))
        diff = [a - b for a, b in zip(new.tolist(), self.h)]
        lin = [a + b for a, b in zip(self.x, matvec(self.dx, diff))]
        with inputs_kept(self.ctx, 'prediction', new):
            if mode == 'input':
                got = self.real.predict_input_par_from_hyperparameters(new)
                want = lin
            elif mode == 'linear':
                got = self.real.predict_output_par_from_hyperparameters(
                    new, True)
                want = [a + b for a, b in zip(
                    self.out0, matvec(self.dout, diff))]
            else:
                got = self.real.predict_output_par_from_hyperparameters(
                    new, linear=False)
                want = self.conv.out_vec(self.model.s_in.fwd(lin))
        self.ctx.close(got, want, 'prediction (%s)' % mode, 1e-6, 1e-8)
        spoil(got)

    def rebase(self, k, hess, given):
        fi, _ = self.model.free_base(k)
        vh = self.model.base(k, True, False)[1]
        self.p_hy.set_vector(arr(vh))
        x = arr(fi)
        kw = {}
        if given:
            kw['optimal_input_par'] = x
        else:
            self.p_in.set_free(x)
        if hess is not None:
            kw['objective_hessian'] = np.array(hess)
        with inputs_kept(self.ctx, 'set_optimal_input_par', x,
                         kw.get('objective_hessian')):
            self.real.set_optimal_input_par(**kw)
        self.x, self.h, self.hess = list(fi), list(vh), hess
        self.refresh()


def old_config_unit(i, tier):
    def run(ctx):
        s_in = INPUTS[i]
        for j, s_hy in enumerate(HYPERS):
            s_out = INPUTS[(i + 2 * j + 1) % len(INPUTS)]
            model = Model(s_in, s_hy, (i + j) % 2)
            other = pd_matrix(s_in.free_size)
            for n, (partial, hess, given) in enumerate(itertools.product(
                    (False, True), (None, other), (False, True))):
                if tier == 'quick' and n not in (0, 7, 1 + (i + j) % 6):
                    continue
                with ctx.trace(repr(s_in), repr(s_hy), repr(s_out), partial,
                               hess is not None, given):
                    one = Old(ctx, model, s_out, partial, hess, given)
                    one.sens()
                    for mode in ('input', 'linear', 'nonlinear', 'linear'):
                        one.predict(1, mode)
                    one.sens()
    return run


OLD_OPS = ['sens', 'input', 'linear', 'nonlinear', 'base0', 'base1g', 'base2h']


def old_history_unit(k, first, depth):
    def run(ctx):
        s_in, s_hy, s_out = [
            (Vector(2, -1., 2.), Vector(2), Simplex((1, 3))),
            (Simplex((1, 3)), Scalar(0.2), Vector(2, 0.))][k]
        model = Model(s_in, s_hy, k)
        other = pd_matrix(s_in.free_size)
        for rest in itertools.product(OLD_OPS, repeat=depth - 1):
            seq = (first,) + rest
            with ctx.trace(repr(s_in), repr(s_hy), repr(s_out), list(seq)):
                one = Old(ctx, model, s_out, k == 1, None, k == 0)
                for op in seq + ('sens', 'linear'):
                    ctx.step(op)
                    if op == 'sens':
                        one.sens()
                    elif op.startswith('base'):
                        one.rebase(int(op[4]), other if op[5:] == 'h' else None,
                                   op[5:] != '')
                    else:
                        one.predict(2, op)
    return run


def actual_unit(ctx):
    """The sensitivity is the derivative of the optimum that one gets by
    solving again at nearby hyperparameters."""
    for k, (s_in, s_hy) in enumerate([
            (Scalar(0.2), Vector(2)), (Simplex((1, 3)), Scalar(0.2)),
            (ref.gamma(0.1), Vector(2)), (PD(2, 0.3), Scalar(0.))]):
        with ctx.trace(repr(s_in), repr(s_hy)):
            model = Model(s_in, s_hy, 0)
            fi, fh = model.free_base(0)
            eps = 1e-4
            cols = []
            for i in range(len(fh)):
                ends = []
                for sign in (1, -1):
                    m2 = Model(s_in, s_hy, 0)
                    hy = list(fh)
                    hy[i] += sign * eps
                    x = list(fi)
                    vh = s_hy.fwd(hy)
                    for _ in range(6):
                        f = m2.reference(s_in.fwd(jet.variables(x)), vh)
                        x = [a - b for a, b in zip(x, jet.matvec(
                            jet.inverse(f.hess()), f.grad()))]
                    ends.append(x)
                cols.append([(a - b) / (2 * eps) for a, b in zip(*ends)])
            one = Linear(ctx, model, True, True, False, None, True)
            ctx.close(one.real.get_dinput_dhyper(), jet.transpose(cols),
                      'derivative of the re-solved optimum', 1e-5, 1e-6)
            ctx.state(cols)


LARGE = [(s, Vector(2, -1.)) for s in big.small_medium()] + [
    (Scalar(0.2), Vector(21)), (Vector(2, 0.), Simplex((3, 5))),
    (Simplex((1, 3)), PD(5)), (Vector(2), big.wide(8)),
    (ref.gamma(0.1), Array((3, 2, 2))), (Vector(12), Vector(12))]


def large_unit(i, tier):
    def run(ctx):
        s_in, s_hy = LARGE[i]
        model = Model(s_in, s_hy, i % 3)
        for f, (in_free, hy_free) in enumerate(FLAGS):
            if tier == 'quick' and f % 2 != i % 2:
                continue
            for given in (False, True):
                n = s_in.free_size if in_free else s_in.vec_size
                hess = pd_matrix(n) if given else None
                with ctx.trace('large', repr(s_in)[:60], repr(s_hy)[:60],
                               in_free, hy_free, given):
                    one = Linear(ctx, model, in_free, hy_free, f % 2 == 1,
                                 hess, True)
                    one.sens()
                    one.predict(1)
        with ctx.trace('large deprecated', repr(s_in)[:60], repr(s_hy)[:60]):
            one = Old(ctx, model, (Simplex((2, 5)), Vector(9, 0.))[i % 2],
                      i % 3 == 0, None, i % 2 == 0)
            one.sens()
            one.predict(1, 'linear')
            one.predict(1, 'nonlinear')
    return run


def units_unit(ctx):
    """All units of input, hyperparameter, objective, and steps."""
    import LinearResponseVariationalBayes as vb
    from LinearResponseVariationalBayes import ModelSensitivity as ms
    from LinearResponseVariationalBayes import SparseObjectives as so
    scales = [1e-9, 1e-4, 1., 1e5, 1e10]
    for coefs in ([[0.3, 0.7, -0.5], [-0.2, -0.6, 0.8]],
                  [[0.3, 0., 0.8], [-0.2, 1e-7, 0.3]], [[0.1, -2.]]):
        n = len(coefs)
        for iu, hu, fu in itertools.product(scales, scales,
                                            [1e-14, 1e-6, 1., 1e8]):
            for partial in (False, True):
                with ctx.trace(coefs, iu, hu, fu, partial):
                    known = Known(coefs, iu, hu, fu, 0.4)
                    p_in = vb.VectorParam('in', n)
                    p_hy = vb.VectorParam('hy', 1)
                    whole, part = known.bind(p_in, p_hy)
                    kw = {'hyper_par_objective_functor': part} if partial \
                        else {}
                    x0 = arr([r[0] * iu for r in coefs])
                    h0 = arr([0.4 * hu])
                    real = ms.ParametricSensitivityLinearApproximation(
                        whole, p_in, p_hy, x0, h0, **kw)
                    want = np.array([[r[1]] for r in coefs])
                    ctx.close(np.asarray(real.get_dinput_dhyper()) * hu / iu,
                              want, 'sensitivity', 1e-6, 1e-12)
                    for d in (-0.7, 1e-9, 1e7):
                        got = np.asarray(
                            real.predict_input_par_from_hyperparameters(
                                h0 + d * hu))
                        step = ((h0 + d * hu) - h0) / hu
                        ctx.close(got / iu, x0 / iu + want[:, 0] * step[0],
                                  'prediction', 1e-9, 1e-12)
                    p_in.set_free(x0)
                    p_hy.set_vector(h0)
                    kw = {'hyper_par_objective_fun': part} if partial else {}
                    p_out = vb.VectorParam('out', n)

                    def convert():
                        p_out.set(p_in.get() * 3.)
                    old = so.ParametricSensitivity(
                        whole, p_in, p_out, p_hy, convert, **kw)
                    ctx.close(np.asarray(old.get_dinput_dhyper()) * hu / iu,
                              want, 'input sensitivity', 1e-6, 1e-12)
                    ctx.close(np.asarray(old.get_doutput_dhyper()) * hu / iu,
                              3. * want, 'output sensitivity', 1e-6, 1e-12)
                    ctx.state(coefs, iu, hu, fu)


def forms_unit(ctx):
    """Base values, Hessian and prediction in every memory layout."""
    import LinearResponseVariationalBayes as vb
    from LinearResponseVariationalBayes import ModelSensitivity as ms
    for s_in, s_hy in ((Vector(3, -1.), Vector(2)), (Simplex((1, 3)), PD(2))):
        for in_free, hy_free in FLAGS:
            model = Model(s_in, s_hy, 0)
            x0, h0 = model.base(0, in_free, hy_free)
            hess = pd_matrix(len(x0))
            want = np.array(model.sensitivity(0, in_free, hy_free, hess))
            new = shifted(h0, 1, 0.5)
            lin = np.array(x0) + want.dot(np.array(new) - np.array(h0))
            plain = [list(big.array_forms(v))[0] for v in (x0, h0, hess, new)]
            for k, v in enumerate((x0, h0, hess, new)):
                for form in big.array_forms(v):
                    case = plain[:k] + [form] + plain[k + 1:]
                    (xn, x), (hn, h), (mn, m), (nn, z) = case
                    with ctx.trace(repr(s_in), in_free, hy_free, xn, hn, mn,
                                   nn):
                        p_in, p_hy = s_in.build('i', vb), s_hy.build('h', vb)
                        whole, part = model.bind(p_in, p_hy)
                        with inputs_kept(ctx, 'construction', x, h, m, z):
                            real = \
                                ms.ParametricSensitivityLinearApproximation(
                                    whole, p_in, p_hy, x, h, hess0=m,
                                    input_is_free=in_free,
                                    hyper_is_free=hy_free)
                            ctx.close(real.get_dinput_dhyper(), want,
                                      'sensitivity', 1e-6, 1e-8)
                            ctx.close(
                                real.predict_input_par_from_hyperparameters(
                                    z), lin, 'prediction', 1e-6, 1e-8)
                        ctx.state(k, form[0], in_free, hy_free)


def life_unit(k, n, buffers=ref.Fresh):
    """One object lives through every sequence of n operations."""
    def run(ctx):
        s_in, s_hy, in_free, hy_free, partial = HISTORIES[k]
        model = Model(s_in, s_hy, k % 3)
        other = pd_matrix(s_in.free_size if in_free else s_in.vec_size)
        with ctx.trace(repr(s_in), repr(s_hy), 'life', n):
            one = Linear(ctx, model, in_free, hy_free, partial, None, True,
                         buffers)
            for op in de_bruijn(OPS, n):
                ctx.step(op)
                if op == 'sens':
                    one.sens()
                elif op == 'predict':
                    one.predict(2)
                elif op == 'disturb':
                    one.disturb()
                else:
                    one.rebase(int(op[4]), other if op[5:] else None)
                if op != 'disturb':
                    one.sens()
                    one.predict(1)
    return run


def interrupted_unit(k):
    """The objective raises in any one of its calls while new base values are
    set; after the next base values were set everything is as they say."""
    def run(ctx):
        s_in, s_hy, in_free, hy_free, partial = HISTORIES[k]
        model = Model(s_in, s_hy, k % 3)
        other = pd_matrix(s_in.free_size if in_free else s_in.vec_size)
        faults = Faults()
        one = Linear(ctx, model, in_free, hy_free, partial, None, True,
                     guard=faults.guard)
        bases = [(0, None), (1, None), (2, other)]
        for first, then in itertools.product(bases, repeat=2):
            faults.plan, faults.count = None, 0
            one.rebase(*first)
            calls = faults.count
            ctx.true(calls >= 1, 'nothing was evaluated')
            for n in range(1, calls + 1):
                for when, kind in itertools.product(
                        ('before', 'after'), (Fault, Stop, ArithmeticFault)):
                    with ctx.trace(repr(s_in), 'interrupted', first[0],
                                   then[0], n, when, kind.__name__):
                        faults.plan, faults.count = (n, when, kind), 0
                        try:
                            ctx.step('set_base_values', first[0])
                            one.rebase(*first)
                            ctx.fail('the exception did not reach the caller')
                        except kind:
                            pass
                        faults.plan = None
                        ctx.step('set_base_values', then[0])
                        one.rebase(*then)
                        one.sens()
                        one.predict(2)
    return run


def units(tier):
    out = [('units', units_unit), ('forms', forms_unit)]
    for k in range(len(HISTORIES)):
        out.append(('interrupted-%d' % k, interrupted_unit(k)))
    for i in range(len(LARGE)):
        out.append(('large-%d' % i, large_unit(i, tier)))
    for k in range(len(HISTORIES)):
        for how, buffers in ref.BUFFERS:
            out.append(('life%s-%d' % (how, k), life_unit(
                k, 3 if tier == 'quick' or how else 4, buffers)))
    for i in range(len(INPUTS)):
        out.append(('linear-%d' % i, config_unit(i, tier)))
        out.append(('deprecated-%d' % i, old_config_unit(i, tier)))
    depth = 3 if tier == 'quick' else 4
    for k in range(len(HISTORIES)):
        for op in OPS:
            out.append(('history-%d-%s' % (k, op),
                        history_unit(k, op, depth)))
    for k in range(2):
        for op in OLD_OPS:
            out.append(('deprecated-history-%d-%s' % (k, op),
                        old_history_unit(k, op, depth)))
    out.append(('re-solved', actual_unit))
    return out


def BOUNDS(tier):
    return {
        'parameters': 'all pairs of %d input and %d hyperparameters' % (
            len(INPUTS), len(HYPERS)),
        'configurations': 'all representation flags, whole or partial '
                          'objective, own or supplied Hessian',
        'large': '%d pairs of up to 25 entries' % len(LARGE),
        'units': 'all units of input, hyperparameter and objective from '
                 '1e-14 ... 1e10, 3 optima',
        'forms': 'memory layouts of base values, Hessian, new hyperparameter',
        'lives': 'one object through all sequences of %d operations' % (
            3 if tier == 'quick' else 4),
        'histories': 'all sequences of %d operations (sensitivities, '
                     'predictions, three base points, disturbed parameters) '
                     'on 4 + 2 models' % (3 if tier == 'quick' else 4),
        'interrupted': 'the objective raises one of 3 exceptions in each of '
            'its calls, before or after its work, at all pairs of base values',
        'in place': 'all sequences of 3 operations once more with the same arrays, whose '
                    'entries the caller changes between the calls',
    }
