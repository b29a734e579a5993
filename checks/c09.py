"""C09: parameter converters."""
import itertools

import numpy as np
import autograd.numpy as anp

from mc import ref, jet, big
from mc import functions as fn
from mc.core import blocks, de_bruijn, as_array, inputs_kept
from mc.ref import (Scalar, Vector, Array, PD, PDV, PDA, Simplex, Sub, Dict,
                    INF, point, arr)
from checks.c01 import make
from checks.c08 import POOL

PROPERTY = 'C09'

CALLS = [
    ('converter_free_to_vec', 'free', 'vec', False),
    ('converter_free_to_free', 'free', 'free', False),
    ('converter_vec_to_vec', 'vec', 'vec', False),
    ('converter_vec_to_free', 'vec', 'free', False),
    ('free_to_vec_jacobian', 'free', 'vec', True),
    ('free_to_free_jacobian', 'free', 'free', True),
    ('vec_to_vec_jacobian', 'vec', 'vec', True),
    ('vec_to_free_jacobian', 'vec', 'free', True),
]


class Setup(object):
    def __init__(self, s_in, s_out, which=0):
        import LinearResponseVariationalBayes as vb
        from LinearResponseVariationalBayes import SparseObjectives as so
        self.s_in, self.s_out = s_in, s_out
        self.par_in, self.par_out = s_in.build('in', vb), s_out.build('out', vb)
        self.conv = fn.Conversion(s_in, s_out, which)
        self.real = so.ParameterConverter(
            self.par_in, self.par_out,
            self.conv.bind(self.par_in, self.par_out))
        self.vin = s_in.fwd(point(s_in.free_size, 4))
        self.vout = s_out.fwd(point(s_out.free_size, 2))
        self.par_in.set_vector(arr(self.vin))
        self.par_out.set_vector(arr(self.vout))


def expected(conv, s_in, name, how_in, how_out, jac, x):
    vin = s_in.fwd(x) if how_in == 'free' else list(x)
    out = conv.out_vec if how_out == 'vec' else conv.out_free
    pre = s_in.fwd if how_in == 'free' else (lambda z: z)
    if jac:
        return vin, fn.jacobian(lambda z: out(pre(z)), x)[1]
    return vin, out(vin)


def step(ctx, st, call, which, memo, buf=arr):
    name, how_in, how_out, jac = call
    x = point(st.s_in.free_size, which)
    if how_in == 'vec':
        x = st.s_in.fwd(x)
    key = (name, which)
    if key not in memo:
        memo[key] = expected(st.conv, st.s_in, name, how_in, how_out, jac, x)
    vin, want = memo[key]
    arg = buf(x)
    with inputs_kept(ctx, name, arg):
        got = getattr(st.real, name)(arg)
    ctx.step(name, which)
    ctx.close(got, want, name, 1e-6, 1e-8)
    st.vin = vin
    if not jac:
        st.vout = st.conv.out_vec(vin)
    ref.check_state(ctx, st.par_in, st.s_in, st.vin, 'input after ' + name)
    ref.check_state(ctx, st.par_out, st.s_out, st.vout, 'output after ' + name)
    ctx.state(name, want)


def pairs_unit(i, tier):
    def run(ctx):
        s_in = POOL[i]
        for s_out in POOL:
            memo = {}
            with ctx.trace(repr(s_in), repr(s_out)):
                st = Setup(s_in, s_out)
                for call in CALLS[4:] + CALLS:
                    step(ctx, st, call, 0, memo)
            for call in CALLS:
                with ctx.trace(repr(s_in), repr(s_out), call[0], 1):
                    if tier == 'quick' and not call[3]:
                        continue
                    step(ctx, st, call, 1, memo)
    return run


def orders_unit(k, depth):
    def run(ctx):
        s_in, s_out = [(Scalar(0.2), Simplex((1, 3))), (PD(1), Vector(2, 0.)),
                       (Simplex((1, 3)), Scalar(-1., 3.)),
                       (ref.gamma(), Sub(3))][k]
        memo = {}
        for seq in itertools.product(CALLS, repeat=depth):
            with ctx.trace(repr(s_in), repr(s_out), [c[0] for c in seq]):
                st = Setup(s_in, s_out)
                for i, call in enumerate(seq):
                    step(ctx, st, call, i % 2, memo)
    return run


def by_moments_unit(ctx):
    """Conversions written the way users write them: setting the parts of an
    output from moments of the input."""
    import LinearResponseVariationalBayes as vb
    from LinearResponseVariationalBayes import SparseObjectives as so

    # normal -> (mean, second moment); and arrays -> moment parameterization
    for which in (0, 1, 3):
        with ctx.trace('moments of normals', which):
            s_in = ref.uvna((2, 1), 0.2)
            s_out = ref.uvnm((2, 1))
            p_in, p_out = s_in.build('i', vb), s_out.build('o', vb)
            conv = so.ParameterConverter(
                p_in, p_out, lambda: p_out.set_from_uvn_param_array(p_in))

            def out_vec(v):
                return list(v[:2]) + [v[i] * v[i] + 1. / v[2 + i]
                                      for i in range(2)]
            x = point(4, which)
            v = s_in.fwd(x)
            ctx.close(conv.free_to_vec_jacobian(arr(x)), fn.jacobian(
                lambda z: out_vec(s_in.fwd(z)), x)[1], 'free to vec')
            ctx.close(conv.vec_to_vec_jacobian(arr(v)), fn.jacobian(
                out_vec, v)[1], 'vec to vec')
            ctx.close(conv.vec_to_free_jacobian(arr(v)), fn.jacobian(
                lambda z: s_out.inv(out_vec(z)), v)[1], 'vec to free')
            ctx.close(conv.free_to_free_jacobian(arr(x)), fn.jacobian(
                lambda z: s_out.inv(out_vec(s_in.fwd(z))), x)[1],
                'free to free')
            ctx.close(conv.converter_free_to_vec(arr(x)), out_vec(v), 'value')
            ctx.state(v)
        with ctx.trace('matrix of a normal', which):
            s_in, s_out = ref.mvn(2, 0.1), PD(2)
            p_in, p_out = s_in.build('i', vb), s_out.build('o', vb)
            conv = so.ParameterConverter(
                p_in, p_out, lambda: p_out.set(p_in['info'].get()))
            x = point(5, which)
            v = s_in.fwd(x)
            ctx.close(conv.free_to_vec_jacobian(arr(x)), fn.jacobian(
                lambda z: s_in.fwd(z)[2:], x)[1], 'free to vec')
            ctx.close(conv.free_to_free_jacobian(arr(x)), fn.jacobian(
                lambda z: s_out.inv(s_in.fwd(z)[2:]), x)[1], 'free to free')
            ctx.close(conv.vec_to_vec_jacobian(arr(v)), fn.jacobian(
                lambda z: [w * 1. for w in z[2:]], v)[1], 'vec to vec')
            ctx.close(conv.vec_to_free_jacobian(arr(v)), fn.jacobian(
                lambda z: s_out.inv(z[2:]), v)[1], 'vec to free')
            ctx.close(p_out.get(), np.eye(2), 'output untouched')
            ctx.state(v)


def any_value_unit(ctx):
    """The output may hold any value before a Jacobian is taken, also one
    which its free representation does not determine or which is outside the
    constraints, and it holds it afterwards."""
    for s_out in POOL:
        s_in = Vector(2, 0.)
        n = s_out.vec_size
        raws = [point(n, 0), point(n, 3), [0.] * n, [5. - i for i in range(n)],
                [-1e3] * n, [1e-9 * (i + 1) for i in range(n)]]
        raws = [(raw, float) for raw in raws] + [
            ([(7 * i + 3) % 5 for i in range(n)], int),
            ([n + 2 - i for i in range(n)], int),
            ([2. - 0.5 * i for i in range(n)], np.float32)]
        for raw, kind in raws:
            for call in CALLS[4:]:
                with ctx.trace('any value', repr(s_out), raw, call[0],
                               kind.__name__):
                    st = Setup(s_in, s_out)
                    memo = {}
                    name, how_in, how_out, jac = call
                    for which in (0, 1):
                        st.par_out.set_vector(np.array(raw, dtype=kind))
                        x = point(2, which)
                        if how_in == 'vec':
                            x = s_in.fwd(x)
                        _, want = expected(st.conv, s_in, name, how_in,
                                           how_out, jac, x)
                        ctx.close(getattr(st.real, name)(arr(x)), want, name,
                                  1e-6, 1e-8)
                        ctx.close(st.par_out.get_vector(), raw,
                                  'output after ' + name, 1e-12, 1e-15)
                        raw = [-2 * r for r in raw]
                    ctx.state(repr(s_out), raw)


LARGE = [(s, Simplex((1, 3))) for s in big.small_medium()] + [
    (Vector(2, 0.), s) for s in big.small_medium()] + [
        (Vector(12), Vector(12, 0.)), (Simplex((3, 4)), PD(4))]


def large_unit(i, tier):
    def run(ctx):
        s_in, s_out = LARGE[i]
        with ctx.trace('large', repr(s_in)[:60], repr(s_out)[:60]):
            st = Setup(s_in, s_out)
            w = 2. / len(st.conv.rows[0]) ** 0.5
            for row in st.conv.rows:
                if w < 1.:
                    row[:] = [w * x for x in row]
            st.real = type(st.real)(st.par_in, st.par_out,
                                    st.conv.bind(st.par_in, st.par_out))
            for call in CALLS[4:] + CALLS[:4]:
                step(ctx, st, call, 0, {})
    return run


def forms_unit(ctx):
    for s_in, s_out in ((Vector(3, -1.), Simplex((1, 3))),
                        (PD(2), Vector(2, 0.)), (Simplex((2, 2)), PD(2))):
        for name, how_in, how_out, jac in CALLS:
            conv = fn.Conversion(s_in, s_out)
            x = point(s_in.free_size, 1)
            if how_in == 'vec':
                x = s_in.fwd(x)
            vin, want = expected(conv, s_in, name, how_in, how_out, jac, x)
            st = Setup(s_in, s_out)
            for form, z in big.array_forms(x):
                with ctx.trace(repr(s_in), repr(s_out), name, form):
                    with inputs_kept(ctx, name, z):
                        ctx.close(getattr(st.real, name)(z), want, name)
                    ctx.close(st.par_in.get_vector(), vin, 'input')
                    ctx.state(name, form)


def life_unit(k, n, buffers=ref.Fresh):
    """One converter lives through every sequence of n calls, and the output
    is changed in between."""
    def run(ctx):
        s_in, s_out = [(Scalar(0.2), Simplex((1, 3))), (PD(1), Vector(2, 0.)),
                       (Simplex((1, 3)), Scalar(-1., 3.)),
                       (ref.gamma(), Sub(3)), (Vector(2), ref.mvn(2))][k]
        memo = {}
        buf = buffers()
        ops = [(c, w) for c in CALLS for w in (0, 1)] + [('set out', 1),
                                                         ('set out', 3)]
        with ctx.trace(repr(s_in), repr(s_out), 'life', n):
            st = Setup(s_in, s_out)
            for call, w in de_bruijn(ops, n):
                if call == 'set out':
                    ctx.step(call, w)
                    st.vout = s_out.fwd(point(s_out.free_size, w))
                    st.par_out.set_vector(buf(st.vout, 'out'))
                else:
                    step(ctx, st, call, w, memo, buf)
    return run


def scaled_unit(ctx):
    """Conversions with derivatives of any magnitude."""
    import LinearResponseVariationalBayes as vb
    from LinearResponseVariationalBayes import SparseObjectives as so
    for n, m in ((1, 1), (2, 3), (3, 2)):
        for scale in (1e-200, 1e-60, 1e-17, 1e-9, 1e-5, 1., 1e6, 1e17, 1e100):
            with ctx.trace(n, m, scale):
                p_in, p_out = vb.VectorParam('i', n), vb.VectorParam('o', m)
                a = np.array([point(n, k) for k in range(m)])
                b = np.array([point(n, k + 1) for k in range(m)])

                def convert():
                    x = p_in.get()
                    p_out.set(scale * (anp.dot(a, x) +
                                       anp.dot(b, x) ** 2))
                conv = so.ParameterConverter(p_in, p_out, convert)
                x = arr(point(n, 0))
                val = a.dot(x) + b.dot(x) ** 2
                jac = a + 2. * (b.dot(x))[:, None] * b
                for name, how_in, how_out, is_jac in CALLS:
                    got = as_array(getattr(conv, name)(x)) / scale
                    ctx.close(got, jac if is_jac else val, name, 1e-9, 1e-10)
                ctx.state(n, m, scale)
        # constant and partly constant conversions
        with ctx.trace(n, m, 'constant'):
            p_in, p_out = vb.VectorParam('i', n, lb=0.), vb.VectorParam('o', m)
            e = np.zeros(m)
            e[0] = 1.
            conv = so.ParameterConverter(
                p_in, p_out, lambda: p_out.set(
                    e * p_in.get()[n - 1] + np.arange(m)))
            x = arr(point(n, 0))
            want = np.zeros((m, n))
            want[0, n - 1] = 1.
            ctx.close(conv.vec_to_vec_jacobian(np.exp(x)), want, 'vec to vec')
            ctx.close(conv.vec_to_free_jacobian(np.exp(x)), want,
                      'vec to free')
            want[0, n - 1] = np.exp(x[n - 1])
            ctx.close(conv.free_to_vec_jacobian(x), want, 'free to vec')
            ctx.close(conv.free_to_free_jacobian(x), want, 'free to free')


def units(tier):
    out = [('forms', forms_unit), ('scaled', scaled_unit)]
    for i in range(len(LARGE)):
        out.append(('large-%d' % i, large_unit(i, tier)))
    for k in range(5):
        for how, buffers in ref.BUFFERS:
            out.append(('life%s-%d' % (how, k), life_unit(
                k, 2 if tier == 'quick' or how else 3, buffers)))
    for i in range(len(POOL)):
        out.append(('pairs-%d' % i, pairs_unit(i, tier)))
    for k in range(4):
        out.append(('orders-%d' % k, orders_unit(
            k, 2 if tier == 'quick' else 3)))
    out.append(('moments', by_moments_unit))
    out.append(('any value', any_value_unit))
    return out


def BOUNDS(tier):
    return {
        'parameters': 'all ordered pairs of %d parameters' % len(POOL),
        'calls': 'all four values and Jacobians, 2 points',
        'values of the output before': '9 vectors, inside and outside of the '
                                       'constraints, also of integers and of '
                                       'single precision, changed in '
                                       'between',
        'large': '%d pairs of up to 25 entries' % len(LARGE),
        'forms and scales': 'memory layouts of the point; conversions scaled '
                            'by 1e-200 ... 1e100, partly constant ones',
        'lives': 'one converter through every %s of 18 operations, 5 pairs' % (
            'pair' if tier == 'quick' else 'triple'),
        'orders': 'all sequences of %d calls on 4 pairs' % (
            2 if tier == 'quick' else 3),
        'in place': 'all pairs of operations once more with the same arrays, whose '
                    'entries the caller changes between the calls',
    }
