"""C05: evaluations leave parameters numeric, at the evaluation point, and do
not depend on history."""
import itertools

import numpy as np

from mc import ref, jet
from mc import functions as fn
from mc.faults import Faults, Fault, Stop, ArithmeticFault
from mc.core import sequences, de_bruijn, blocks, inputs_kept, freeze
from mc.ref import (Scalar, Vector, Array, PD, PDV, PDA, Simplex, Sub, Dict,
                    INF, point, arr)

PROPERTY = 'C05'

SYSTEMS = [
    ('scalar/scalar', Scalar(0.2), Scalar(-1., 2.), Scalar(0.)),
    ('matrix/vector', PD(2, 0.3), Vector(2, 0.), Scalar(-1., 3.)),
    ('dict/dict', Dict([('x', Simplex((1, 3))), ('s', Scalar(0.5))]),
     Dict([('v', Vector(1, -1.)), ('p', PD(1))]),
     Dict([('p', PD(2)), ('a', Array((1, 2)))])),
    ('mvn/gamma', ref.mvn(2), ref.gamma(), ref.uvn(0.1)),
    ('array/simplex', Array((2, 1), -1., 3.), Simplex((2, 2)), Sub(3)),
    ('matrices', PDV(2, 1, 0.2), PDA((1, 2), 1), PDV(1, 2)),
    ('subspace/vector', Sub(3), Vector(2, -INF, 4.), Vector(2)),
    ('nested', Dict([('d', Dict([('s', Scalar()), ('x', Simplex((1, 2)))])),
                     ('v', Vector(2, 0., 2.))]), Scalar(), Simplex((1, 2))),
]


class System(object):
    """The real objects, and the reference state: the vectors of the input,
    the hyperparameter and the output."""
    def __init__(self, spec_in, spec_hyp, spec_out, guard=lambda f: f):
        import LinearResponseVariationalBayes as vb
        from LinearResponseVariationalBayes import SparseObjectives as so
        self.specs = {'in': spec_in, 'hyp': spec_hyp, 'out': spec_out}
        self.par = {k: s.build(k, vb) for k, s in self.specs.items()}
        f = fn.Fun(spec_in)
        f2 = fn.Fun2(spec_in, spec_hyp)
        conv = fn.Conversion(spec_in, spec_out)
        self.obj = so.Objective(self.par['in'], guard(f.bind(self.par['in'])))
        self.two = so.TwoParameterObjective(
            self.par['in'], self.par['hyp'],
            guard(f2.bind(self.par['in'], self.par['hyp'])))
        self.conv = so.ParameterConverter(
            self.par['in'], self.par['out'],
            guard(conv.bind(self.par['in'], self.par['out'])))
        n = spec_in.free_size
        self.obj.preconditioner = precond(n)
        self.vec = {}
        for k, s in self.specs.items():
            self.vec[k] = s.fwd(point(s.free_size, 4))
            self.par[k].set_vector(arr(self.vec[k]))


def precond(n):
    a = np.array([point(n, k) for k in range(n)]) * 0.3
    return a + np.diag(1. + 0.1 * np.arange(n))


class Oracle(object):
    """All expected results for a system, computed once by jets."""
    def __init__(self, spec_in, spec_hyp, spec_out):
        f = fn.Fun(spec_in)
        f2 = fn.Fun2(spec_in, spec_hyp)
        conv = fn.Conversion(spec_in, spec_out)
        self.ops = []
        n, m = spec_in.free_size, spec_hyp.free_size
        a = precond(n)
        for w in (0, 1):
            x = point(n, w)
            v = spec_in.fwd(x)
            h = point(m, 1 - w)
            hv = spec_hyp.fwd(h)
            dirf = point(n, 2 + w)
            dirv = point(spec_in.vec_size, 2 + w)
            y = a.dot(np.array(x)).tolist()
            f0, fg, fh = fn.derivatives(f.of_free, x)
            v0, vg, vh = fn.derivatives(f.of_vec, v)
            c0, cg, ch = fn.derivatives(f.of_free, y)
            ch = np.array(ch)
            yv = spec_in.fwd(y)
            A = self.add
            fx = (x,)
            A('value', w, 'obj', 'fun_free', fx, f0, {'in': v})
            A('gradient', w, 'obj', 'fun_free_grad', fx, fg, {'in': v})
            A('hessian', w, 'obj', 'fun_free_hessian', fx, fh, {'in': v})
            A('jacobian', w, 'obj', 'fun_free_jacobian', fx, fg, {'in': v})
            A('hvp', w, 'obj', 'fun_free_hvp', (x, dirf),
              np.array(fh).dot(dirf), {'in': v})
            A('value', w, 'obj', 'fun_vector', (v,), v0, {'in': v})
            A('gradient', w, 'obj', 'fun_vector_grad', (v,), vg, {'in': v})
            A('hessian', w, 'obj', 'fun_vector_hessian', (v,), vh, {'in': v})
            A('jacobian', w, 'obj', 'fun_vector_jacobian', (v,), vg,
              {'in': v})
            A('hvp', w, 'obj', 'fun_vector_hvp', (v, dirv),
              np.array(vh).dot(dirv), {'in': v})
            A('value', w, 'obj', 'fun_free_cond', fx, c0, {'in': yv})
            A('gradient', w, 'obj', 'fun_free_grad_cond', fx, a.T.dot(cg),
              {'in': yv})
            A('hessian', w, 'obj', 'fun_free_hessian_cond', fx,
              a.T.dot(ch).dot(a), {'in': yv})
            A('hvp', w, 'obj', 'fun_free_hvp_cond', (x, dirf),
              a.T.dot(ch).dot(a.dot(dirf)), {'in': yv})
            both = {'in': v, 'hyp': hv}
            ff = fn.mixed(spec_in, spec_hyp, f2.of_vecs, x, h, True, True)
            vv = fn.mixed(spec_in, spec_hyp, f2.of_vecs, v, hv, False, False)
            fv = fn.mixed(spec_in, spec_hyp, f2.of_vecs, x, hv, True, False)
            vf = fn.mixed(spec_in, spec_hyp, f2.of_vecs, v, h, False, True)
            A('two value', w, 'two', 'fun_free', (x, h), ff[0], both)
            A('two value', w, 'two', 'fun_vector', (v, hv), vv[0], both)
            A('two cross', w, 'two', 'fun_free_hessian12', (x, h), ff[3], both)
            A('two cross', w, 'two', 'fun_free_hessian21', (x, h),
              np.array(ff[3]).T, both)
            A('two cross', w, 'two', 'fun_vector_hessian12', (v, hv), vv[3],
              both)
            A('two cross', w, 'two', 'fun_vector_hessian21', (v, hv),
              np.array(vv[3]).T, both)
            A('two cross', w, 'two', 'fun_hessian_free1_vector2', (x, hv),
              fv[3], both)
            A('two cross', w, 'two', 'fun_hessian_vector1_free2', (v, h),
              vf[3], both)
            A('two grad', w, 'two', 'fun_grad1', (x, hv, True, False), fv[1],
              both)
            A('two grad', w, 'two', 'fun_grad2', (v, h, False, True), vf[2],
              both)
            ov = conv.out_vec(v)
            of = conv.out_free(v)
            A('convert', w, 'conv', 'converter_free_to_vec', fx, ov,
              {'in': v, 'out': ov})
            A('convert', w, 'conv', 'converter_vec_to_free', (v,), of,
              {'in': v, 'out': ov})
            jobs = [('free_to_vec_jacobian', x,
                     lambda z: conv.out_vec(spec_in.fwd(z))),
                    ('free_to_free_jacobian', x,
                     lambda z: conv.out_free(spec_in.fwd(z))),
                    ('vec_to_vec_jacobian', v, conv.out_vec),
                    ('vec_to_free_jacobian', v, conv.out_free)]
            for name, at, g in jobs:
                A('convert jacobian', w, 'conv', name, (at,),
                  fn.jacobian(g, at)[1], {'in': v})
            _, jac, hess = ref.transform_jets(spec_in, x)
            self.ops.append(('transform jacobian', w, 'in',
                             'free_to_vector_jac', (x,), jac, {}))
            self.ops.append(('transform hessian', w, 'in',
                             'free_to_vector_hess', (x,), hess, {}))

    def add(self, kind, w, target, name, args, want, changes):
        self.ops.append((kind, w, target, name, args, want, changes))


def apply_op(ctx, system, op, buf=None):
    kind, w, target, name, args, want, changes = op
    obj = system.par['in'] if target == 'in' else getattr(system, target)
    buf = buf or ref.Fresh()
    real = [buf(a, i) if isinstance(a, list) else a
            for i, a in enumerate(args)]
    ctx.step(name, w)
    with inputs_kept(ctx, name, *real):
        got = getattr(obj, name)(*real)
    if kind == 'transform hessian':
        ctx.true(len(got) == len(want), name + ': number of Hessians')
        for g, h in zip(got, want):
            ctx.close(g, h, name)
    else:
        ctx.close(got, np.asarray(want), name, 1e-6, 1e-8,
                  shape=kind not in ('value', 'two value'))
    for k, v in changes.items():
        system.vec[k] = v


def check_all(ctx, system, what):
    for k, s in system.specs.items():
        ref.check_state(ctx, system.par[k], s, system.vec[k],
                        'after %s: parameter %s' % (what, k))
    ctx.gstate(repr(system.specs), system.vec)


def run_seq(ctx, specs, seq, every=False, buffers=ref.Fresh):
    system = System(*specs)
    buf = buffers()
    for i, op in enumerate(seq):
        apply_op(ctx, system, op, buf)
        if every or i == len(seq) - 1:
            check_all(ctx, system, op[3])


def label(seq):
    return ['%s(%d)' % (op[3], op[1]) for op in seq]


_ORACLES = {}


def oracle(name, specs):
    if name not in _ORACLES:
        _ORACLES[name] = Oracle(*specs).ops
    return _ORACLES[name]


def pair_unit(name, specs, part, parts):
    def run(ctx):
        ops = oracle(name, specs)
        for i, op in enumerate(ops):
            if i % parts != part:
                continue
            with ctx.trace(name, label((op,))):
                run_seq(ctx, specs, (op,))
            for op2 in ops:
                with ctx.trace(name, label((op, op2))):
                    run_seq(ctx, specs, (op, op2))
    return run


def triple_unit(name, specs, part, parts):
    """One representative of each kind of call, at alternating points."""
    def run(ctx):
        ops = oracle(name, specs)
        seen, reps = set(), []
        for op in ops:
            if op[1] == 0 and (op[0], op[2]) not in seen:
                seen.add((op[0], op[2]))
                reps.append(op)
        other = {op[3]: op for op in ops if op[1] == 1}
        for i, op in enumerate(reps):
            if i % parts != part:
                continue
            for op2 in reps:
                for op3 in reps:
                    seq = (op, other[op2[3]], op3)
                    with ctx.trace(name, label(seq)):
                        run_seq(ctx, specs, seq)
    return run


def walk_unit(name, specs, half, buffers=ref.Fresh):
    """One object that lives through every ordered pair of calls (of the
    calls with even or with odd number in the table)."""
    def run(ctx):
        ops = oracle(name, specs)
        with ctx.trace(name, 'walk over all pairs', buffers.__name__):
            run_seq(ctx, specs, de_bruijn(ops[half::2], 2), True, buffers)
    return run


def interrupted_unit(name, specs, part, parts):
    """The function raises, before or after its work, in any one of its calls
    in any evaluation: the exception reaches the caller, and whatever is
    evaluated next on the same objects is right."""
    def run(ctx):
        ops = oracle(name, specs)
        faults = Faults()
        system = System(*specs, guard=faults.guard)
        follow = ops[part % 2::2] if ctx.tier == 'quick' else ops
        for i, op in enumerate(ops):
            faults.plan = None
            faults.count = 0
            with ctx.trace(name, label((op,))):
                apply_op(ctx, system, op)
            calls = faults.count
            if i % parts != part:
                continue
            for k in range(1, calls + 1):
                for when in ('before', 'after'):
                    for j, op2 in enumerate(follow):
                        kind = (Fault, Stop, ArithmeticFault)[(j + k) % 3]
                        with ctx.trace(name, 'interrupted', label((op, op2)),
                                       k, when, kind.__name__):
                            faults.plan, faults.count = (k, when, kind), 0
                            fails(ctx, system, op, kind)
                            faults.plan = None
                            apply_op(ctx, system, op2)
                            for p in op2[6]:
                                ref.check_state(
                                    ctx, system.par[p], system.specs[p],
                                    system.vec[p], 'after %s: parameter %s'
                                    % (op2[3], p))
                            ctx.gstate(name, op[3], op[1], k, when, op2[3],
                                       op2[1])
    return run


def fails(ctx, system, op, kind):
    obj = system.par['in'] if op[2] == 'in' else getattr(system, op[2])
    real = [arr(a) if isinstance(a, list) else a for a in op[4]]
    ctx.step(op[3], 'interrupted')
    try:
        with inputs_kept(ctx, op[3], *real):
            getattr(obj, op[3])(*real)
    except kind:
        return
    ctx.fail('%s: the exception of the function did not reach the caller' %
             op[3])


# Parameters whose setters take values that violate their constraints.
LOOSE = [
    (Simplex((1, 3)), [0.2, 0.5, 0.4]), (Simplex((1, 3)), [1., 2., -3.]),
    (Simplex((2, 2)), [0.2, 0.9, 0., 0.]), (Sub(3), [1., 2., 3.]),
    (Sub(4), [0., 0., 0., 1.]), (PD(2, 0.3), [1., 3., 1.]),
    (PD(2), [-1., 0., 2.]), (PDV(2, 1), [-1., 0.]),
    (PDA((1, 2), 1, 0.5), [0.1, -0.4]),
    (Dict([('s', Scalar(0.5)), ('x', Simplex((1, 2))), ('z', Sub(2))]),
     [0.75, 2., 3., 0.5, 0.5]),
]


def outside_unit(ctx):
    """An output parameter which holds a value that violates its constraints
    (which the setters take) still has that very value after a Jacobian."""
    import LinearResponseVariationalBayes as vb
    from LinearResponseVariationalBayes import SparseObjectives as so
    spec_in = Vector(2, -1., 2.)
    for spec, held in LOOSE:
        conv = fn.Conversion(spec_in, spec)
        for name in ('free_to_vec_jacobian', 'free_to_free_jacobian',
                     'vec_to_vec_jacobian', 'vec_to_free_jacobian'):
            for setter in ('set_vector', 'set'):
                with ctx.trace(repr(spec), held, name, setter):
                    p_in, p_out = spec_in.build('in', vb), spec.build('out', vb)
                    c = so.ParameterConverter(p_in, p_out,
                                              conv.bind(p_in, p_out))
                    if setter == 'set' and spec.is_dict:
                        for (n, s), v in zip(spec.children,
                                             (held[:1], held[1:3], held[3:])):
                            p_out[n].set(v[0] if isinstance(s, Scalar) else
                                         np.reshape(arr(v), np.shape(
                                             p_out[n].get())))
                    elif setter == 'set' and isinstance(
                            spec, (Simplex, Sub)):
                        p_out.set(np.reshape(arr(held),
                                             np.shape(p_out.get())))
                    else:
                        p_out.set_vector(arr(held))
                    before = np.array(p_out.get_vector())
                    ctx.close(before, held, 'the value set')
                    free = point(2, 0)
                    at = free if name.startswith('free') else spec_in.fwd(free)
                    out = conv.out_free if name.endswith('free_jacobian') \
                        else conv.out_vec
                    want = fn.jacobian(
                        (lambda z: out(spec_in.fwd(z)))
                        if name.startswith('free') else out, at)[1]
                    for again in (0, 1):
                        ctx.step(name)
                        ctx.close(getattr(c, name)(arr(at)), want, name,
                                  1e-6, 1e-8)
                        now = np.asarray(p_out.get_vector())
                        ctx.true(now.dtype == float and
                                 np.array_equal(now, before),
                                 'the output parameter was %s, is %s' % (
                                     before.tolist(), now.tolist()))
                        ctx.close(p_in.get_vector(), spec_in.fwd(free),
                                  'input parameter')
                    ctx.state(repr(spec), held, name)


def directions_unit(name, specs):
    """Hessian vector products with directions of every kind: zero, the unit
    vectors and their negatives, tiny, huge, the point itself, integers."""
    def run(ctx):
        spec = specs[0]
        s = System(*specs)
        f = fn.Fun(spec)
        a = precond(spec.free_size)
        for w in (0, 1):
            x = point(spec.free_size, w)
            for how in ('free', 'vector', 'free_cond'):
                at = spec.fwd(x) if how == 'vector' else x
                n = len(at)
                if how == 'vector':
                    h = fn.derivatives(f.of_vec, at)[2]
                    vec = at
                elif how == 'free':
                    h = fn.derivatives(f.of_free, at)[2]
                    vec = spec.fwd(x)
                else:
                    y = a.dot(np.array(x)).tolist()
                    h = a.T.dot(np.array(fn.derivatives(f.of_free,
                                                        y)[2])).dot(a)
                    vec = spec.fwd(y)
                h = np.array(h)
                unit = np.eye(n)
                dirs = [np.zeros(n), -np.zeros(n), np.ones(n), arr(at),
                        1e-12 * arr(point(n, 3)), 1e9 * arr(point(n, 3)),
                        np.arange(n) - 1, np.zeros(n, dtype=int)]
                for k in range(n):
                    dirs += [unit[k], -3. * unit[k], 1e-200 * unit[k]]
                fun = {'free': s.obj.fun_free_hvp,
                       'vector': s.obj.fun_vector_hvp,
                       'free_cond': s.obj.fun_free_hvp_cond}[how]
                for d in dirs:
                    with ctx.trace(name, how, w, d.tolist()):
                        s.par['in'].set_vector(
                            arr(spec.fwd(point(spec.free_size, 4))))
                        want = h.dot(d)
                        z = arr(at)
                        with inputs_kept(ctx, 'hvp', z, d):
                            got = fun(z, d)
                        size = float(np.max(np.abs(want))) if n else 0.
                        ctx.close(got, want, 'product', 1e-6,
                                  1e-9 * size + 1e-14 * float(np.max(np.abs(
                                      h))) * float(np.max(np.abs(d))))
                        s.vec['in'] = vec
                        check_all(ctx, s, 'after the product')
                        ctx.state(name, how, w, d.tolist())
    return run


def units(tier):
    out = [('outside', outside_unit)]
    out += [('directions ' + s[0], directions_unit(s[0], s[1:]))
            for s in SYSTEMS]
    systems = [(s[0], s[1:]) for s in SYSTEMS]
    if tier == 'quick':
        pairs, triples, walks = systems[2:3], systems[:1], systems[1:]
    else:
        pairs, triples, walks = systems, systems, systems
    for name, specs in walks:
        for half in (0, 1):
            for how, buffers in ref.BUFFERS:
                out.append(('walk%s %s %d' % (how, name, half),
                            walk_unit(name, specs, half, buffers)))
    for name, specs in (systems[:1] + systems[3:5] if tier == 'quick'
                        else systems):
        for part in range(8):
            out.append(('interrupted %s %d' % (name, part),
                        interrupted_unit(name, specs, part, 8)))
    for name, specs in triples:
        for part in range(11):
            out.append(('triples %s %d' % (name, part),
                        triple_unit(name, specs, part, 11)))
    for name, specs in pairs:
        for part in range(16):
            out.append(('pairs %s %d' % (name, part),
                        pair_unit(name, specs, part, 16)))
    return out


def BOUNDS(tier):
    return {
        'systems': [s[0] for s in SYSTEMS],
        'operations': '32 evaluations of an objective, a two-parameter '
                      'objective, a converter and the transforms, at 2 points',
        'directions': 'products of 3 Hessians with zero, every unit vector, '
                      'its negative and a tiny multiple, tiny, huge and '
                      'integer directions, 8 systems',
        'outside': 'each Jacobian with each of %d output values that violate '
                   'the constraints' % len(LOOSE),
        'depth': 'all pairs from fresh objects (%s systems), all triples over '
                 'one operation of each kind (%s), and one long-lived object '
                 'going through every pair (%s)' % (
                     ('1', '1', '7') if tier == 'quick' else
                     ('8', '8', '8')),
        'interrupted': 'the function raises one of 3 exceptions in each of '
            'its calls, before or after its work, in each of the operations, '
            'followed by every (quick: every other) operation, %d systems' % (
                3 if tier == 'quick' else 8),
        'in place': 'all pairs of calls of a walk once more with the same arrays, whose '
                    'entries the caller changes between the calls',
    }
