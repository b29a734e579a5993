"""C01: packing and layout of composed parameters."""
import itertools

import numpy as np

from mc import ref, big
from mc.core import sequences, de_bruijn, blocks
from mc.ref import (Scalar, Vector, Array, PD, PDV, PDA, Simplex, Sub, Dict,
                    INF, point, arr)

PROPERTY = 'C01'

NAMES = ['z', 'a', 'm', 'b', 'y']      # push order is not alphabetical

KINDS = [
    ('S', lambda: Scalar(-0.5)),
    ('X', lambda: Simplex((2, 3))),
    ('P', lambda: PD(2, 0.3)),
    ('V', lambda: Vector(3, -INF, 3.)),
    ('A', lambda: Array((2, 2), -1., 2.)),
    ('U', lambda: Sub(3)),
    ('Q', lambda: PDV(2, 2)),
    ('R', lambda: PDA((1, 2), 2)),
    ('M', lambda: ref.mvn(2)),
    ('N', lambda: ref.uvn(0.1)),
    ('D', lambda: ref.dirichlet((3, 2))),
    ('W', lambda: ref.wishart(2)),
    ('G', lambda: ref.gamma()),
    ('E', lambda: ref.uvnm((1, 2), 0.05)),
    ('F', lambda: ref.mvna((2, 2))),
    ('H', lambda: ref.uvnv(2)),
    ('I', lambda: ref.uvna((2, 1))),
]
KIND = dict(KINDS)

# Ordered trees: '.' is a leaf, a list is a dictionary.
SHAPES = [
    ['.'], ['.', '.'], [['.'], '.'], ['.', ['.']], [['.', '.']],
    [[['.']]], [['.'], ['.']], [['.', '.'], '.'], ['.', ['.', '.']],
    [['.'], '.', ['.']], ['.', [['.'], '.']], [[['.', '.']], '.'],
    ['.', '.', '.'],
]
SHAPES4 = [[[['.', '.'], '.'], '.'], ['.', ['.', ['.', '.']]],
           ['.', ['.', '.'], '.'], [['.', '.'], ['.', '.']]]


def leaves(shape):
    return 1 if shape == '.' else sum(leaves(s) for s in shape)


def make(shape, kinds):
    kinds = iter(kinds)

    def rec(sh):
        if sh == '.':
            return KIND[next(kinds)]()
        return Dict([(NAMES[i], rec(s)) for i, s in enumerate(sh)])
    return rec(shape)


def walk(spec, par, path=()):
    """All (path, spec, real) of the tree."""
    yield path, spec, par
    if spec.is_dict:
        for n, s in spec.children:
            for item in walk(s, par[n], path + (n,)):
                yield item


def offsets(spec, path):
    k = 0
    for n in path:
        for name, s in spec.children:
            if name == n:
                spec = s
                break
            k += s.vec_size
    return k


def check_layout_trace(ctx, spec, vb):
    import LinearResponseVariationalBayes as vb
    par = spec.build('top', vb)
    ref.check_layout(ctx, par, spec, 'fresh')
    vec = spec.default()
    ctx.close(par.get_vector(), vec, 'fresh: vector representation')
    for which in range(2):
        free = point(spec.free_size, which)
        vec = spec.fwd(free)
        par.set_free(arr(free))
        ctx.step('set_free', free)
        ref.check_state(ctx, par, spec, vec, 'after set_free')
        ctx.close(par.get_free(), free, 'round trip of the free value',
                  1e-7, 1e-8)
        ctx.state(vec)
    # the free representation is made of those of the parts, in order
    parts = [par[n].get_free() for n, _ in spec.children]
    ctx.close(par.get_free(), np.concatenate([np.zeros(0)] + parts), 'free parts')
    got = par.get_free()
    for n, _ in spec.children:
        idx = list(par.free_indices_dict[n])
        ctx.close(got[idx], par[n].get_free(), 'free slice of ' + n)
        idx = list(par.vector_indices_dict[n])
        ctx.close(par.get_vector()[idx], par[n].get_vector(),
                  'vector slice of ' + n)
    ref.check_dictval(ctx, par.dictval(), spec, vec, 'top')
    vec = spec.fwd(point(spec.free_size, 3))
    par.set_vector(arr(vec))
    ctx.step('set_vector', vec)
    ref.check_state(ctx, par, spec, vec, 'after set_vector')
    ctx.close(par.free_to_vector(arr(point(spec.free_size, 4))),
              spec.fwd(point(spec.free_size, 4)), 'free_to_vector')
    vec = spec.fwd(point(spec.free_size, 4))
    # Set every part on its own; only its slice changes.
    for path, s, p in list(walk(spec, par))[1:]:
        new = s.fwd(point(s.free_size, 2))
        if s.is_dict:
            p.set_free(arr(point(s.free_size, 2)))
        else:
            p.set(s.for_set(new))
        k = offsets(spec, path)
        vec = list(vec)
        vec[k:k + s.vec_size] = new
        ctx.step('set part', path, new)
        ctx.close(par.get_vector(), vec, 'after setting a part', 1e-7, 1e-8)
        ctx.state(vec)
    ref.check_layout(ctx, par, spec, 'at the end')
    ref.check_value(ctx, par, spec, vec, 'at the end')


def layout_unit(specs):
    def run(ctx):
        for label, mk in specs:
            with ctx.trace(label):
                check_layout_trace(ctx, mk(), None)
    return run


# Histories ---------------------------------------------------------------------

class Node(object):
    def __init__(self, spec=None, vec=None, kids=None):
        self.spec, self.vec, self.kids = spec, vec, kids

    @classmethod
    def of(cls, spec, vec):
        if spec.is_dict:
            return cls(kids=[[n, cls.of(s, v)]
                             for n, s, v in spec.split_vec(vec)])
        return cls(spec=spec, vec=list(vec))

    def as_spec(self):
        if self.kids is None:
            return self.spec
        return Dict([(n, k.as_spec()) for n, k in self.kids])

    def as_vec(self):
        if self.kids is None:
            return list(self.vec)
        return [v for _, k in self.kids for v in k.as_vec()]

    def kid(self, name):
        for n, k in self.kids:
            if n == name:
                return k
        return None

    def push(self, name, node):
        for pair in self.kids:
            if pair[0] == name:
                pair[1] = node
                return
        self.kids.append([name, node])

    def set_vec(self, vec):
        if self.kids is None:
            self.vec = list(vec)
        else:
            spec = self.as_spec()
            for (n, s, v), (_, k) in zip(spec.split_vec(vec), self.kids):
                k.set_vec(v)


def start_spec():
    return Dict([('z', Scalar(-0.5)), ('a', Simplex((1, 3))),
                 ('m', Dict([('q', Vector(2, -INF, 3.)), ('c', PD(2))]))])


def op_set_free(which):
    def op(par, node, vb):
        spec = node.as_spec()
        free = point(spec.free_size, which)
        par.set_free(arr(free))
        node.set_vec(spec.fwd(free))
    return op


def op_set_vector(which):
    def op(par, node, vb):
        spec = node.as_spec()
        vec = spec.fwd(point(spec.free_size, which))
        par.set_vector(arr(vec))
        node.set_vec(vec)
    return op


def op_child_set(par, node, vb):
    name, kid = node.kids[1]
    if kid.kids is None:
        vec = kid.spec.fwd(point(kid.spec.free_size, 2))
        par[name].set(kid.spec.for_set(vec))
        kid.vec = vec


def op_values_set(par, node, vb):
    name, kid = node.kids[0]
    vec = kid.spec.fwd(point(kid.spec.free_size, 4))
    par.values[name] = kid.spec.for_set(vec)
    kid.vec = vec


def op_child_free(par, node, vb):
    kid = node.kid('m')
    spec = kid.as_spec()
    free = point(spec.free_size, 4)
    par['m'].set_free(arr(free))
    kid.set_vec(spec.fwd(free))


def op_nested_values(par, node, vb):
    kid = node.kid('m')
    if kid.kids:
        name, g = kid.kids[0]
        vec = g.spec.fwd(point(g.spec.free_size, 1))
        par['m'].values[name] = g.spec.for_set(vec)
        g.vec = vec


def op_push_new(par, node, vb):
    spec = Vector(2, 0.)
    name = 'k%d' % len(node.kids)
    par.push_param(spec.build(name, vb))
    node.push(name, Node.of(spec, spec.default()))


def op_replace(par, node, vb):
    # same name, other sizes
    old = node.kid('a')
    spec = Simplex((2, 2)) if old.spec.vec_size == 3 else Simplex((1, 3))
    par.push_param(spec.build('a', vb))
    node.push('a', Node.of(spec, spec.default()))


def op_push_nested(par, node, vb):
    kid = node.kid('m')
    if kid.kids is not None:
        spec = Simplex((1, 2))
        name = 'k%d' % len(kid.kids)
        par['m'].push_param(spec.build(name, vb))
        kid.push(name, Node.of(spec, spec.default()))


def op_replace_dict(par, node, vb):
    kid = node.kid('m')
    spec = Sub(3) if kid.kids is not None else \
        Dict([('q', Scalar()), ('c', Simplex((1, 2)))])
    par.push_param(spec.build('m', vb))
    node.push('m', Node.of(spec, spec.default()))


def op_empty_nested(par, node, vb):
    par.push_param(vb.ModelParamsDict('m'))
    node.push('m', Node(kids=[]))


OPS = [('set_free0', op_set_free(0)), ('set_free1', op_set_free(1)),
       ('set_vector', op_set_vector(3)), ('child.set', op_child_set),
       ('values[]=', op_values_set), ('child.set_free', op_child_free),
       ('nested values[]=', op_nested_values), ('push new', op_push_new),
       ('push replacement', op_replace), ('push into nested', op_push_nested),
       ('replace nested', op_replace_dict),
       ('replace nested by an empty one', op_empty_nested)]


def run_history(ctx, seq, observe_all):
    import LinearResponseVariationalBayes as vb
    spec = start_spec()
    par = spec.build('top', vb)
    node = Node.of(spec, spec.default())
    for i, (name, op) in enumerate(seq):
        op(par, node, vb)
        ctx.step(name)
        if observe_all or i == len(seq) - 1:
            spec, vec = node.as_spec(), node.as_vec()
            ref.check_layout(ctx, par, spec, 'after ' + name)
            ref.check_state(ctx, par, spec, vec, 'after ' + name)
            ref.check_dictval(ctx, par.dictval(), spec, vec, 'after ' + name)
            ctx.gstate('history', repr(spec), vec)


def walk_unit(ops, n, label):
    def run(ctx):
        with ctx.trace(label):
            run_history(ctx, de_bruijn(ops, n), True)
    return run


def shared_unit(ctx):
    """The same parameter below two dictionaries, and one dictionary twice."""
    import LinearResponseVariationalBayes as vb
    for kind, mk in KINDS:
        with ctx.trace('shared', kind):
            spec = mk()
            leaf = spec.build('p', vb)
            one, two = vb.ModelParamsDict('one'), vb.ModelParamsDict('two')
            one.push_param(Scalar().build('s', vb))
            one.push_param(leaf)
            two.push_param(leaf)
            two.push_param(Vector(2).build('v', vb))
            s1 = Dict([('s', Scalar()), ('p', spec)])
            s2 = Dict([('p', spec), ('v', Vector(2))])
            free = point(s1.free_size, 1)
            one.set_free(arr(free))
            v1 = s1.fwd(free)
            ref.check_state(ctx, one, s1, v1, 'first')
            ref.check_state(ctx, two, s2, v1[1:] + [0., 0.], 'second')
            free = point(s2.free_size, 2)
            two.set_free(arr(free))
            v2 = s2.fwd(free)
            ref.check_state(ctx, one, s1, v1[:1] + v2[:-2], 'first again')
            ctx.state(kind)


def replaced_unit(ctx):
    """A part is replaced by another parameter of the same name: whatever the
    two have in common, the new one is the part and the old one is not."""
    import LinearResponseVariationalBayes as vb
    specs = [Scalar(), Scalar(-1.), Scalar(-3., 4.), Vector(2), Vector(2, -2.),
             Vector(2, -3., 4.), Vector(1, -1.), Vector(3), Array((2,), -2.),
             Array((1, 2)), Array((2, 1)), PD(1), PD(1, 0.1), PD(2), PD(2, 0.1),
             PDV(2, 1), PDV(1, 2), PDA((2,), 1), PDA((1,), 2), Simplex((1, 2)),
             Simplex((1, 3)), Simplex((2, 2)), Sub(2), Sub(3),
             Dict([('q', Scalar())]), Dict([('q', Scalar(-1.))])]
    for old_spec, new_spec in itertools.product(specs, repeat=2):
        for place in (0, 1, 2):
            with ctx.trace(repr(old_spec), repr(new_spec), place):
                names = ['z', 'b']
                names.insert(place, 'a')

                def tree(s):
                    return Dict([(n, s if n == 'a' else Vector(1, 0.))
                                 for n in names])
                par = tree(old_spec).build('p', vb)
                old = par['a']
                par.set_free(arr(point(tree(old_spec).free_size, 0)))
                kept = np.array(old.get_vector())
                new, spec = new_spec.build('a', vb), tree(new_spec)
                at = point(new_spec.free_size, 1)
                new.set_free(arr(at))
                par.push_param(new)
                ctx.step('push')
                vec = spec.fwd(point(spec.free_size, 0))
                start = sum(1 for n in names[:place])
                vec[start:start + new_spec.vec_size] = new_spec.fwd(at)
                vec[:start] = tree(old_spec).fwd(point(
                    tree(old_spec).free_size, 0))[:start]
                if place < 2:
                    vec[start + new_spec.vec_size:] = tree(old_spec).fwd(
                        point(tree(old_spec).free_size, 0))[place - 2:]
                ctx.true(par['a'] is new, 'the part is not the new parameter')
                ref.check_layout(ctx, par, spec, 'replaced')
                ref.check_state(ctx, par, spec, vec, 'replaced')
                free = point(spec.free_size, 3)
                vec = spec.fwd(free)
                par.set_free(arr(free))
                ctx.step('set_free')
                ref.check_state(ctx, new, new_spec,
                                vec[start:start + new_spec.vec_size], 'part')
                at = point(new_spec.free_size, 2)
                new.set_free(arr(at))
                ctx.step('set_free of the part')
                vec[start:start + new_spec.vec_size] = new_spec.fwd(at)
                ref.check_state(ctx, par, spec, vec, 'changed in the part')
                ctx.close(old.get_vector(), kept, 'the old parameter')
                ctx.gstate(repr(old_spec), repr(new_spec), place)


def in_place_unit(ctx):
    """The caller uses the same arrays again, with other entries."""
    import LinearResponseVariationalBayes as vb
    for spec in [mk() for _, mk in KINDS] + [
            make(['.', ['.', '.']], 'XSP'), Dict([('v', Vector(2, -1.)),
                                                  ('w', Vector(2, -1.))])]:
        par, twin = spec.build('p', vb), spec.build('q', vb)
        buf = ref.Reused()
        frees = [point(spec.free_size, w) for w in (0, 1, 3)]
        ops = [(name, w) for name in ('set_free', 'set_vector',
                                      'free_to_vector', 'twin')
               for w in range(3)]
        with ctx.trace('in place', repr(spec)):
            for name, w in de_bruijn(ops, 2):
                ctx.step(name, w)
                vec = spec.fwd(frees[w])
                if name == 'twin':
                    twin.set_free(buf(frees[w]))
                    ref.check_state(ctx, twin, spec, vec, 'twin')
                    continue
                got = getattr(par, name)(
                    buf(vec if name == 'set_vector' else frees[w]))
                if name == 'free_to_vector':
                    ctx.close(got, vec, name)
                ref.check_state(ctx, par, spec, vec, name)
            ctx.gstate(repr(spec))


def units(tier):
    out = []
    kinds = [k for k, _ in KINDS]
    singles = [('leaf ' + k, (lambda k=k: make(['.'], [k]))) for k in kinds]
    pairs = [('pair %s%s' % kk, (lambda kk=kk: make(['.', '.'], kk)))
             for kk in itertools.product(kinds, repeat=2)]
    trees = []
    for shape in SHAPES:
        pool = 'SXPU' if tier == 'quick' else 'SXPVAU'
        for kk in itertools.product(pool, repeat=leaves(shape)):
            trees.append(('tree %s %s' % (
                str(shape).replace("'", ''), ''.join(kk)),
                (lambda shape=shape, kk=kk: make(shape, kk))))
    for shape in SHAPES4:
        pool = 'SX' if tier == 'quick' else 'SXPU'
        for kk in itertools.product(pool, repeat=4):
            trees.append(('tree %s %s' % (
                str(shape).replace("'", ''), ''.join(kk)),
                (lambda shape=shape, kk=kk: make(shape, kk))))
    for i, b in enumerate(blocks(singles + pairs + trees, 12)):
        out.append(('layout-%d' % i, layout_unit(b)))
    depth = 4 if tier == 'quick' else 5
    for i, op in enumerate(OPS):
        for j, op2 in enumerate(OPS):
            def run(ctx, op=op, op2=op2):
                for rest in itertools.chain([()], sequences(OPS, depth - 2)):
                    seq = (op, op2) + rest
                    with ctx.trace([n for n, _ in seq]):
                        run_history(ctx, seq, False)
            out.append(('history-%d-%d' % (i, j), run))

    def single(ctx):
        for op in OPS:
            with ctx.trace([op[0]]):
                run_history(ctx, (op,), True)
    out.append(('history-single', single))
    out.append(('walk', walk_unit(
        OPS[:7], 2 if tier == 'quick' else 3, 'setters, all pairs in one life')))
    out.append(('shared', shared_unit))
    out.append(('replaced', replaced_unit))
    out.append(('in place', in_place_unit))
    large = [('large ' + repr(s)[:60], (lambda s=s: Dict([('z', Scalar(0.5)),
                                                  ('a', s),
                                                  ('m', Simplex((1, 3)))])))
             for s in big.leaves(tier) + big.dists(tier)] + \
        [('large tree %d' % i, (lambda s=s: s))
         for i, s in enumerate(big.trees(tier))]
    small = [('smallest ' + repr(s), (lambda s=s: s)) for s in big.smallest()
             if s.is_dict]
    for i, b in enumerate(blocks(small, 12)):
        out.append(('smallest-%d' % i, layout_unit(b)))
    for i, b in enumerate(blocks(large, 3)):
        out.append(('large-%d' % i, layout_unit(b)))
    return out


def BOUNDS(tier):
    return {
        'layouts': 'every kind alone; all ordered pairs of the 17 kinds; all '
                   'ordered trees with at most 3 leaves over %d kinds and 4 '
                   'tree shapes with 4 leaves over %d kinds' % (
                       (4, 2) if tier == 'quick' else (6, 4)),
        'histories': 'all sequences of at most %d of 12 operations' % (
            4 if tier == 'quick' else 5),
        'large': '%d parameters of up to %d entries; dictionaries of 9 to 20 '
                 'children and of up to 9 levels' % (
                     len(big.leaves(tier) + big.dists(tier)),
                     131 if tier == 'quick' else 400),
        'smallest': '%d parameters with no free entries, no entries at all or '
                    'no parts, at every position' % len(big.smallest()),
        'walk': 'one object living through every %s of 7 setters' % (
            'pair' if tier == 'quick' else 'triple'),
        'replaced': 'all ordered pairs of 26 parameters of the same name, at '
                    'three places: the new one becomes the part',
        'in place': 'all pairs of 12 calls with the same arrays, whose '
                    'entries the caller changes, 19 parameters',
    }
