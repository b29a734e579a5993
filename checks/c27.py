"""C27: names, dictionary values and printed forms follow the contents."""
import itertools
import json

import numpy as np

from mc import ref, big
from mc.core import sequences, blocks, de_bruijn
from mc.ref import (Scalar, Vector, Array, PD, PDV, PDA, Simplex, Sub, Dict,
                    INF, point, arr)
from checks import c01
from checks.c01 import KINDS, SHAPES, SHAPES4, Node, make, leaves

PROPERTY = 'C27'


def want_names(spec, name):
    """Entries of vectors have a name each, other parts one name."""
    if spec.is_dict:
        return [x for n, s in spec.children for x in want_names(s, n)]
    if isinstance(spec, Sub) or (isinstance(spec, Vector) and
                                 not isinstance(spec, Array)):
        return ['%s_%d' % (name, k) for k in range(spec.vec_size)]
    return [name]


def renew(real, spec, name, vb):
    """A new parameter with the value of the real one."""
    if spec.is_dict:
        out = vb.ModelParamsDict(name)
        for n, s in spec.children:
            out.push_param(renew(real[n], s, n, vb))
        return out
    out = spec.build(name, vb)
    out.set(np.array(real.get()) if not np.isscalar(real.get())
            else real.get())
    return out


def all_names(spec, name):
    out = [name]
    if spec.is_dict:
        for n, s in spec.children:
            out += all_names(s, n)
    return out


def numbers_in(value):
    if isinstance(value, dict):
        return [v for k in value for v in numbers_in(value[k])]
    if isinstance(value, list):
        return [v for x in value for v in numbers_in(x)]
    return [value]


def check_report(ctx, par, spec, vec, name, what, vb):
    got = par.names()
    got = [str(x) for x in np.atleast_1d(got)]
    ctx.true(got == want_names(spec, name), '%s: names %s, expected %s' % (
        what, got, want_names(spec, name)))
    val = par.dictval()
    ref.check_dictval(ctx, val, spec, vec, what)
    text = json.dumps(val)
    ref.check_dictval(ctx, json.loads(text), spec, vec, what + ', as JSON')
    shown = str(par)
    at = 0
    for n in all_names(spec, name):
        at = shown.find(n, at)
        ctx.true(at >= 0, '%s: the printed form does not name %s in order: %s'
                 % (what, n, shown[:200]))
        at += len(n)
    ctx.true(shown == str(renew(par, spec, name, vb)),
             '%s: the printed form is not that of the current value: %s' % (
                 what, shown[:300]))
    # the answers are snapshots
    scribble(val)
    if isinstance(got, list):
        got[:] = ['?'] * len(got)
    ref.check_value(ctx, par, spec, vec, what + ', after changing the answer')
    return shown


def scribble(val):
    if isinstance(val, dict):
        for v in val.values():
            scribble(v)
        val.clear()
    elif isinstance(val, list):
        for v in val:
            scribble(v)
        for i in range(len(val)):
            if not isinstance(val[i], list):
                val[i] = 55.
        val.append(0.)


def exact(ctx, par, val, what):
    """The numbers of a dictval are those of the parts, to the last digit."""
    if isinstance(val, dict):
        for name in val:
            exact(ctx, par[name], val[name], what + ', part ' + name)
    else:
        ctx.rel(np.array(val).ravel(), np.array(par.get()).ravel(), what, 0.)


def layout_unit(specs):
    def run(ctx):
        import LinearResponseVariationalBayes as vb
        for label, mk in specs:
            with ctx.trace(label):
                spec = mk()
                par = spec.build('top', vb)
                shown = [check_report(ctx, par, spec, spec.default(), 'top',
                                      'fresh', vb)]
                for which in (0, 1, 3):
                    free = point(spec.free_size, which)
                    vec = spec.fwd(free)
                    if which == 1:
                        par.set_vector(arr(vec))
                    else:
                        par.set_free(arr(free))
                    ctx.step('set', which)
                    shown.append(check_report(ctx, par, spec, vec, 'top',
                                              'after setting', vb))
                    ctx.state(vec)
                # a change of a single entry is seen
                nf = spec.free_size
                for k in sorted({0, 1, nf // 3, nf // 2, nf - 2, nf - 1} &
                                set(range(nf))):
                    free = free[:k] + [0.8 * free[k] + 0.3] + free[k + 1:]
                    vec = spec.fwd(free)
                    if k % 2:
                        par.set_vector(arr(vec))
                    else:
                        par.set_free(arr(free))
                    ctx.step('set entry', k)
                    check_report(ctx, par, spec, vec, 'top',
                                 'after changing entry %d' % k, vb)
                # far values are reported with all their digits
                for scale in (12., 30.) if nf < 60 else ():
                    par.set_free(arr([scale * v for v in free]))
                    exact(ctx, par, par.dictval(), 'far')
                par.set_vector(arr(vec))
                ctx.true(len(set(shown)) == len(shown) or not spec.free_size,
                         'different values are printed alike: %s' % shown[:2])
                if spec.is_dict:
                    par.set_name('renamed')
                    check_report(ctx, par, spec, vec, 'renamed', 'renamed',
                                 vb)
                    for n, s in spec.children:
                        v = dict((m, x) for m, _, x in spec.split_vec(vec))[n]
                        check_report(ctx, par[n], s, v, n, 'part ' + n, vb)
    return run


def op_values_nested(par, node, vb):
    """A dictionary within a dictionary by a new one of the same names."""
    kid = node.kid('m')
    if kid.kids is not None:
        spec = kid.as_spec()
        vec = spec.fwd(point(spec.free_size, 1))
        par['m'].set_vector(arr(vec))
        kid.set_vec(vec)


def op_write(par, node, vb):
    """In place, where the value is an array which can be written to."""
    for (n, kid) in node.kids:
        if kid.kids is None:
            val = par[n].get()
            vec = kid.spec.fwd(point(kid.spec.free_size, 3))
            if isinstance(val, np.ndarray) and val.flags.writeable:
                val[...] = np.reshape(kid.spec.for_set(vec), val.shape)
            else:
                par[n].set(kid.spec.for_set(vec))
            kid.vec = vec


OPS = c01.OPS + [('m.set_vector', op_values_nested), ('write', op_write)]


def history(ctx, seq, always):
    import LinearResponseVariationalBayes as vb
    spec = c01.start_spec()
    par = spec.build('top', vb)
    node = Node.of(spec, spec.default())
    for i, (name, op) in enumerate(seq):
        op(par, node, vb)
        ctx.step(name)
        if always:
            # ask for everything, so that an answer kept from before would show
            par.names(), par.dictval(), str(par)
        if always or i == len(seq) - 1:
            spec, vec = node.as_spec(), node.as_vec()
            check_report(ctx, par, spec, vec, 'top', 'after ' + name, vb)
            ctx.gstate(repr(spec), vec)


def history_unit(first, depth):
    def run(ctx):
        for rest in itertools.chain([()], sequences(OPS, depth - 1)):
            for always in (True,) if len(rest) < depth - 1 else (True, False):
                seq = (first,) + rest
                with ctx.trace([n for n, _ in seq], always):
                    history(ctx, seq, always)
    return run


def special_unit(ctx):
    """Values which are printed and listed in unusual ways."""
    import LinearResponseVariationalBayes as vb
    values = [0., -0.5, 1e-9, 123456.789, -1e12, 1. / 3.]
    for val in values:
        with ctx.trace('scalar', val):
            p = vb.ScalarParam('s', val=val)
            for v in (val, np.float64(val), np.array(val), np.array([val])):
                p.set(v)
                ctx.close(p.dictval(), val, 'scalar', shape=False)
                ctx.true(isinstance(p.dictval(), (float, int, list)),
                         'a plain value')
                ctx.close(json.loads(json.dumps(p.dictval())), val, 'as JSON',
                          shape=False)
            ctx.true(p.names() == ['s'], 'names')
    for n in (1, 2, 9, 10, 11, 100, 101, 250):
        with ctx.trace('names', n):
            got = vb.VectorParam('v', n).names()
            ctx.true(list(got) == ['v_%d' % k for k in range(n)], 'names')
            if n > 1:
                got = vb.SubspaceVectorParam('u', n).names() \
                    if n < 60 else None
                ctx.true(got is None or
                         list(got) == ['u_%d' % k for k in range(n)], 'names')
            d = vb.ModelParamsDict('d')
            d.push_param(vb.VectorParam('v', n))
            d.push_param(vb.ScalarParam('a' * n))
            d.push_param(vb.ArrayParam('bb', (n, 2)))
            ctx.true([str(x) for x in d.names()] ==
                     ['v_%d' % k for k in range(n)] + ['a' * n, 'bb'],
                     'names of a dictionary: %s' % list(d.names())[-3:])
            ctx.state(n)
    for name in ('', 'x', 'a b', 'z_1', 'long_' * 40, u'\u03bc'):
        for kind, mk in KINDS:
            with ctx.trace('name', name, kind):
                spec = mk()
                par = spec.build(name, vb)
                check_report(ctx, par, spec, spec.default(), name, 'named', vb)
                ctx.state(name, kind)


def units(tier):
    quick = tier == 'quick'
    out = [('special', special_unit)]
    kinds = [k for k, _ in KINDS]
    items = [('kind ' + k, mk) for k, mk in KINDS] + \
        [('pair %s%s' % kk, (lambda kk=kk: make(['.', '.'], kk)))
         for kk in itertools.product(kinds, repeat=2)]
    for shape in SHAPES + SHAPES4:
        pool = ('SVXU' if leaves(shape) < 3 else 'SVU' if leaves(shape) < 4
                else 'SU') if quick else 'SVXUP'
        for kk in itertools.product(pool, repeat=leaves(shape)):
            items.append(('tree %s %s' % (str(shape).replace("'", ''),
                                          ''.join(kk)),
                          (lambda shape=shape, kk=kk: make(shape, kk))))
    items += [('large ' + repr(s)[:60], (lambda s=s: s)) for s in
              big.leaves(tier) + big.dists(tier)] + \
        [('large tree %d' % i, (lambda s=s: s))
         for i, s in enumerate(big.trees(tier))]
    items += [('smallest ' + repr(s), (lambda s=s: s))
              for s in big.smallest()]
    for i, b in enumerate(blocks(items, 12)):
        out.append(('layout-%d' % i, layout_unit(b)))
    for i, op in enumerate(OPS):
        out.append(('history-%d' % i, history_unit(op, 3 if quick else 4)))

    def walk(ctx):
        with ctx.trace('life'):
            history(ctx, de_bruijn(OPS[:7], 2 if quick else 3), True)
    out.append(('life', walk))
    return out


def BOUNDS(tier):
    quick = tier == 'quick'
    return {
        'layouts': 'every kind, all ordered pairs of 17 kinds, all ordered '
                   'trees with up to 4 leaves over %d kinds, the large '
                   'parameters and dictionaries; 4 values each' % (
                       4 if quick else 5),
        'histories': 'all sequences of at most %d of %d operations, asked '
                     'after every one and only at the end; one object through '
                     'every %s of 7 setters' % (
                         3 if quick else 4, len(OPS),
                         'pair' if quick else 'triple'),
        'names': '6 names, vectors of up to 250 entries',
    }
