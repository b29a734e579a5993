"""C08: cross derivatives of functions of two parameters."""
import itertools

import numpy as np

from mc import ref, jet, big
from mc import functions as fn
from mc import arguments
from mc.core import blocks, de_bruijn, as_array, inputs_kept
from mc.ref import (Scalar, Vector, Array, PD, PDV, PDA, Simplex, Sub, Dict,
                    INF, point, arr)
from checks.c01 import make

PROPERTY = 'C08'

POOL = [Scalar(0.2), Vector(2, -1., 2.), Vector(1, 0.), Array((1, 3), -2.),
        PD(2, 0.3), PDV(2, 1), PDA((1, 2), 1), Simplex((1, 3)),
        Simplex((2, 2)), Sub(3), ref.gamma(0.1), ref.uvn(), ref.mvn(2, 0.2),
        make(['.', ['.']], 'XS'), ref.dirichlet((2, 2))]

METHODS = [
    ('fun_free_hessian12', True, True, False),
    ('fun_free_hessian21', True, True, True),
    ('fun_vector_hessian12', False, False, False),
    ('fun_vector_hessian21', False, False, True),
    ('fun_hessian_free1_vector2', True, False, False),
    ('fun_hessian_vector1_free2', False, True, False),
]
ARGS = [((), {}), ((1.7,), {}), ((0.4, -1.1), {}), ((), {'q': 2.2}),
        ((0.8,), {'q': -0.6}), ((), {'q': 0.3, 'p': -1.4})]


def points(s1, s2, w1, w2, free1, free2):
    a, b = point(s1.free_size, w1), point(s2.free_size, w2)
    return (a if free1 else s1.fwd(a)), (b if free2 else s2.fwd(b))


def check_all(ctx, two, s1, s2, f2, w1, w2, args, kw, order=METHODS):
    par_state = {}
    for name, free1, free2, flip in order:
        a, b = points(s1, s2, w1, w2, free1, free2)
        v, g1, g2, h12 = fn.mixed(s1, s2, f2.of_vecs, a, b, free1, free2,
                                  *args, **kw)
        x, y = arr(a), arr(b)
        with inputs_kept(ctx, name, x, y, list(args), kw):
            got = getattr(two, name)(x, y, *args, **kw)
        ctx.close(got, np.array(h12).T if flip else h12, name, 1e-7, 1e-8)
        ctx.close(two.fun_grad1(x, y, free1, free2, *args, **kw), g1,
                  'gradient 1 (%s, %s)' % (free1, free2), 1e-7, 1e-8)
        ctx.close(two.fun_grad2(x, y, free1, free2, *args, **kw), g2,
                  'gradient 2 (%s, %s)' % (free1, free2), 1e-7, 1e-8)
        ctx.close(two.eval_fun(x, y, free1, free2, *args, **kw), v,
                  'value (%s, %s)' % (free1, free2), shape=False)
        if free1 and free2:
            ctx.close(two.fun_free(x, y, *args, **kw), v, 'free value',
                      shape=False)
        if not free1 and not free2:
            ctx.close(two.fun_vector(x, y, *args, **kw), v, 'vector value',
                      shape=False)
        ctx.state(name, h12)
    va = s1.fwd(point(s1.free_size, w1))
    vb_ = s2.fwd(point(s2.free_size, w2))
    ref.check_state(ctx, two.par1, s1, va, 'first parameter')
    ref.check_state(ctx, two.par2, s2, vb_, 'second parameter')


def build(s1, s2, many=False):
    import LinearResponseVariationalBayes as vb
    from LinearResponseVariationalBayes import SparseObjectives as so
    p1, p2 = s1.build('one', vb), s2.build('two', vb)
    f2 = fn.Fun2(s1, s2)
    if many:
        # weights that suit many entries
        for w in (f2.w1, f2.w2):
            for q in w:
                q[:] = [x * 0.6 / len(q) ** 0.5 for x in q]
    return so.TwoParameterObjective(p1, p2, f2.bind(p1, p2)), f2


def pairs_unit(i, tier):
    def run(ctx):
        s1 = POOL[i]
        for j, s2 in enumerate(POOL):
            two, f2 = build(s1, s2)
            combos = [(0, 1), (1, 0), (0, 0), (3, 2)]
            if tier == 'quick':
                combos = combos[:2] if (i + j) % 3 == 0 else combos[:1]
            for w1, w2 in combos:
                with ctx.trace(repr(s1), repr(s2), w1, w2):
                    check_all(ctx, two, s1, s2, f2, w1, w2, (), {})
    return run


def args_unit(k):
    def run(ctx):
        s1, s2 = [(Scalar(0.2), Simplex((1, 3))), (PD(2), Vector(2, 0.)),
                  (ref.gamma(), Vector(2, -1., 2.)),
                  (make(['.', ['.']], 'XS'), Sub(3))][k]
        two, f2 = build(s1, s2)
        for args, kw in ARGS:
            for w1, w2 in ((0, 1), (1, 0)):
                with ctx.trace(repr(s1), repr(s2), list(args), kw, w1, w2):
                    check_all(ctx, two, s1, s2, f2, w1, w2, args, kw)
    return run


def order_unit(k):
    """All ordered triples of cross derivatives, at alternating points."""
    def run(ctx):
        s1, s2 = [(Scalar(0.2), Simplex((1, 3))), (Vector(2, 0.), PD(1)),
                  (Simplex((1, 3)), Vector(2, -1., 2.))][k]
        memo = {}
        for seq in itertools.product(range(6), repeat=3):
            with ctx.trace(repr(s1), repr(s2), [METHODS[m][0] for m in seq]):
                two, f2 = build(s1, s2)
                for step, m in enumerate(seq):
                    name, free1, free2, flip = METHODS[m]
                    w = step % 2
                    a, b = points(s1, s2, w, 1 - w, free1, free2)
                    if (m, w) not in memo:
                        memo[m, w] = np.array(fn.mixed(
                            s1, s2, f2.of_vecs, a, b, free1, free2)[3])
                    h = memo[m, w]
                    ctx.close(getattr(two, name)(arr(a), arr(b)),
                              h.T if flip else h, name, 1e-7, 1e-8)
                    ctx.gstate(repr(s1), name, h)
                ref.check_state(ctx, two.par1, s1, s1.fwd(
                    point(s1.free_size, 0)), 'first parameter')
    return run


def large_unit(i):
    """Many entries on either side or both."""
    def run(ctx):
        pool = big.small_medium()
        s1 = pool[i]
        others = [Scalar(0.2), pool[(i + 3) % len(pool)]]
        for s2 in others:
            for one, other in ((s1, s2), (s2, s1)):
                two, f2 = build(one, other, True)
                with ctx.trace('large', repr(one)[:60], repr(other)[:60]):
                    check_all(ctx, two, one, other, f2, 0, 1, (), {})
    return run


def forms_unit(ctx):
    """Points in every memory layout."""
    for s1, s2 in ((Vector(3, -1.), Simplex((2, 2))), (PD(2), Sub(3))):
        two, f2 = build(s1, s2)
        for name, free1, free2, flip in METHODS:
            a, b = points(s1, s2, 0, 1, free1, free2)
            v, g1, g2, h = fn.mixed(s1, s2, f2.of_vecs, a, b, free1, free2)
            for an, x in big.array_forms(a):
                for bn, y in big.array_forms(b):
                    with ctx.trace(repr(s1), repr(s2), name, an, bn):
                        with inputs_kept(ctx, name, x, y):
                            ctx.close(getattr(two, name)(x, y),
                                      np.array(h).T if flip else h, name)
                            ctx.close(two.eval_fun(x, y, free1, free2), v,
                                      'value', shape=False)
                        ctx.state(name, an, bn)


def life_unit(k, buffers=ref.Fresh):
    """One objective lives through every pair of calls."""
    def run(ctx):
        s1, s2 = [(Scalar(0.2), Simplex((1, 3))), (PD(2), Vector(2, 0.)),
                  (Vector(1, 0.), Vector(3, -1.))][k]
        two, f2 = build(s1, s2)
        ops = []
        buf = buffers()
        combos = [(0, 1), (1, 0)]
        if buffers is ref.Reused:
            combos += [(0, 0), (1, 1)]
        for name, free1, free2, flip in METHODS:
            for w in combos:
                args = ((), (0.8, -0.6))[w == (1, 0) and len(combos) == 2]
                a, b = points(s1, s2, w[0], w[1], free1, free2)
                v, g1, g2, h = fn.mixed(s1, s2, f2.of_vecs, a, b, free1,
                                        free2, *args)
                x, y = arr(a), arr(b)
                ops.append((name, w, (x, y) + args,
                            np.array(h).T if flip else h))
                if not flip:
                    ops.append(('fun_grad1', w, (x, y, free1, free2) + args,
                                g1))
                    ops.append(('fun_grad2', w, (x, y, free1, free2) + args,
                                g2))
                    ops.append(('eval_fun', w, (x, y, free1, free2) + args, v))
        with ctx.trace(repr(s1), repr(s2), 'life', len(ops)):
            for name, w, args, want in de_bruijn(ops, 2):
                ctx.step(name, *w)
                args = (buf(args[0], 1), buf(args[1], 2)) + args[2:]
                ctx.close(getattr(two, name)(*args), want, name,
                          shape=name != 'eval_fun')
                for p, s, q in ((two.par1, s1, w[0]), (two.par2, s2, w[1])):
                    ctx.close(p.get_vector(), s.fwd(point(s.free_size, q)),
                              'parameter')
            ctx.state(k)
    return run


class Scaled2(fn.Fun2):
    scale = 1.

    def formula(self, *args, **kwargs):
        return fn.Fun2.formula(self, *args, **kwargs) * self.scale


def magnitudes_unit(ctx):
    import LinearResponseVariationalBayes as vb
    from LinearResponseVariationalBayes import SparseObjectives as so
    for s1, s2 in ((Scalar(0.2), Vector(2, -1.)), (Simplex((1, 3)), PD(2)),
                   (Vector(2, 0.), ref.gamma())):
        p1, p2 = s1.build('one', vb), s2.build('two', vb)
        f2 = Scaled2(s1, s2)
        two = so.TwoParameterObjective(p1, p2, f2.bind(p1, p2))
        for name, free1, free2, flip in METHODS:
            a, b = points(s1, s2, 0, 1, free1, free2)
            f2.scale = 1.
            v, g1, g2, h = fn.mixed(s1, s2, f2.of_vecs, a, b, free1, free2)
            h = np.array(h)
            for scale in (1e-150, 1e-60, 1e-16, 1e-9, 1e-5, 1e6, 1e15, 1e100):
                with ctx.trace(repr(s1), repr(s2), name, scale):
                    f2.scale = scale
                    x, y = arr(a), arr(b)
                    ctx.close(as_array(getattr(two, name)(x, y)) / scale,
                              h.T if flip else h, name)
                    ctx.close(as_array(two.fun_grad1(x, y, free1, free2)) /
                              scale, g1, 'gradient 1')
                    ctx.close(as_array(two.fun_grad2(x, y, free1, free2)) /
                              scale, g2, 'gradient 2')
                    ctx.close(as_array(two.eval_fun(x, y, free1, free2)) /
                              scale, v, 'value', shape=False)
                    ctx.state(name, scale)


class Separate(fn.Fun2):
    """Depends on one of the two only, or on sums of the two."""
    which = 0

    def formula(self, e1, e2, w1, w2, dot, exp, p=1., q=0.5):
        s, x = dot(w1[0], e1), dot(w2[0], e2)
        return [s * s + exp(s * 0.3), x * x * 0.5 + exp(x * 0.2),
                s * s + x * x * x, s * x, s * 2. + x * 3.][self.which]


def separate_unit(ctx):
    """Cross derivatives which vanish."""
    import LinearResponseVariationalBayes as vb
    from LinearResponseVariationalBayes import SparseObjectives as so
    for s1, s2 in itertools.product((Scalar(0.2), Vector(2, -1.), PD(2, 0.1),
                                     Simplex((1, 3)), Sub(3), ref.gamma()),
                                    repeat=2):
        p1, p2 = s1.build('one', vb), s2.build('two', vb)
        f2 = Separate(s1, s2)
        two = so.TwoParameterObjective(p1, p2, f2.bind(p1, p2))
        for which in range(5):
            f2.which = which
            with ctx.trace(repr(s1), repr(s2), 'separate', which):
                check_all(ctx, two, s1, s2, f2, 0, 1, (), {})


def passed_unit(ctx):
    """Arguments of every type reach the function as the same objects."""
    from LinearResponseVariationalBayes import SparseObjectives as so
    s1, s2 = Vector(2, -1., 2.), Simplex((1, 3))
    two, f2 = build(s1, s2)
    rec = arguments.Recorder(f2.bind(two.par1, two.par2))
    two = so.TwoParameterObjective(two.par1, two.par2, rec)
    want = {}
    for name, free1, free2, flip in METHODS:
        a, b = points(s1, s2, 0, 1, free1, free2)
        want[name] = fn.mixed(s1, s2, f2.of_vecs, a, b, free1, free2)
    for args, kw in arguments.lists():
        with ctx.trace([arguments.label(a) for a in args],
                       {k: arguments.label(a) for k, a in kw.items()}):
            for name, free1, free2, flip in METHODS:
                a, b = points(s1, s2, 0, 1, free1, free2)
                x, y = arr(a), arr(b)
                v, g1, g2, h = want[name]
                for call, w in (
                        (lambda: getattr(two, name)(x, y, *args, **kw),
                         np.array(h).T if flip else h),
                        (lambda: two.fun_grad1(x, y, free1, free2, *args,
                                               **kw), g1),
                        (lambda: two.fun_grad2(x, y, free1, free2, *args,
                                               **kw), g2),
                        (lambda: two.eval_fun(x, y, free1, free2, *args,
                                              **kw), v)):
                    ctx.step(name)
                    ctx.close(call(), w, name, 1e-7, 1e-8, shape=w is not v)
                    rec.check(ctx, name, args, kw)
            for name, free in (('fun_free', True), ('fun_vector', False)):
                a, b = points(s1, s2, 0, 1, free, free)
                getattr(two, name)(arr(a), arr(b), *args, **kw)
                rec.check(ctx, name, args, kw)
            ctx.state([arguments.label(a) for a in args], sorted(kw))


def units(tier):
    out = [('forms', forms_unit), ('magnitudes', magnitudes_unit),
           ('separate', separate_unit), ('passed', passed_unit)]
    for k in range(3):
        for how, buffers in ref.BUFFERS:
            out.append(('life%s-%d' % (how, k), life_unit(k, buffers)))
    for i in range(len(big.small_medium())):
        out.append(('large-%d' % i, large_unit(i)))
    for i in range(len(POOL)):
        out.append(('pairs-%d' % i, pairs_unit(i, tier)))
    for k in range(4):
        out.append(('arguments-%d' % k, args_unit(k)))
    for k in range(3):
        out.append(('orders-%d' % k, order_unit(k)))
    return out


def BOUNDS(tier):
    return {
        'parameters': 'all ordered pairs of %d parameters' % len(POOL),
        'representations': 'all six cross Hessians, values and both gradients '
                           'with all flags they use',
        'points': '%s pairs of points' % ('1 or 2' if tier == 'quick' else 4),
        'arguments': '%d argument lists on 4 pairs' % len(ARGS),
        'passed arguments': '26 values of every type, in each position and as '
            'keywords, 25 pairs and long lists: the same objects arrive',
        'large': '10 parameters of 8 to 25 entries, on either side',
        'forms, magnitudes, separate': 'memory layouts of both points; '
            'functions scaled by 1e-150 ... 1e100; functions of only one '
            'parameter or without interaction',
        'life': 'one object through every pair of 30 calls',
        'orders': 'all sequences of 3 cross Hessians on 3 pairs',
        'in place': 'all pairs of 72 calls once more with the same arrays, whose '
                    'entries the caller changes between the calls',
    }
