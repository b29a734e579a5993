"""C24: free and vector representations are snapshots."""
import itertools

import numpy as np

from mc import big, ref
from mc import functions as fn
from mc.core import sequences, blocks, inputs_kept
from mc.ref import Scalar, Vector, Array, PD, Simplex, Sub, INF, point, arr
from checks import c01
from checks.c01 import KINDS, SHAPES, SHAPES4, Node, make, leaves
from checks.c22 import all_leaves

PROPERTY = 'C24'


class Life(object):
    """A parameter and all arrays that went in or came out."""
    def __init__(self, ctx, spec, build=None):
        import LinearResponseVariationalBayes as vb
        from LinearResponseVariationalBayes import SparseObjectives as so
        self.ctx, self.spec, self.so = ctx, spec, so
        self.par = spec.build('p', vb)
        self.vec = spec.default()
        self.arrays = []            # [(where from, array, its content)]
        self.obj = None
        self.count = 0

    def keep(self, what, a):
        """Remember an array and what it has to hold from now on."""
        if isinstance(a, np.ndarray):
            self.arrays.append([what, a, np.array(a, copy=True)])

    def objective(self):
        if self.obj is None:
            self.obj = self.so.Objective(
                self.par, fn.QuadraticFun(self.spec, 0).bind(self.par))
        return self.obj

    # operations
    def set_free(self, which):
        free = arr(point(self.spec.free_size, which))
        self.vec = self.spec.fwd(free.tolist())
        with inputs_kept(self.ctx, 'set_free', free):
            self.par.set_free(free)
        self.keep('argument of set_free', free)

    def set_vector(self, which):
        self.vec = self.spec.fwd(point(self.spec.free_size, which))
        vec = arr(self.vec)
        with inputs_kept(self.ctx, 'set_vector', vec):
            self.par.set_vector(vec)
        self.keep('argument of set_vector', vec)

    def slices(self, which):
        """From parts of one longer array"""
        n, m = self.spec.free_size, self.spec.vec_size
        long = np.full(n + m + 3, 7.5)
        long[1:n + 1] = point(n, which)
        self.vec = self.spec.fwd(point(n, which + 1))
        long[n + 2:n + 2 + m] = self.vec
        with inputs_kept(self.ctx, 'set from a slice', long):
            self.par.set_free(long[1:n + 1])
            self.par.set_vector(long[n + 2:n + 2 + m])
        self.keep('array of which a slice was set', long)

    def get(self, _):
        self.keep('free representation', self.par.get_free())
        self.keep('vector representation', self.par.get_vector())
        self.keep('vector representation again', self.par.get_vector())

    def transform(self, which):
        free = arr(point(self.spec.free_size, which))
        self.vec = self.spec.fwd(free.tolist())
        with inputs_kept(self.ctx, 'free_to_vector', free):
            out = self.par.free_to_vector(free)
        self.keep('argument of free_to_vector', free)
        self.keep('result of free_to_vector', out)

    def derive(self, which):
        free = arr(point(self.spec.free_size, which))
        with inputs_kept(self.ctx, 'derivatives', free):
            self.par.free_to_vector_jac(free)
            self.par.free_to_vector_hess(free)
        self.keep('argument of the derivatives', free)

    def gradient(self, which):
        free = arr(point(self.spec.free_size, which))
        self.vec = self.spec.fwd(free.tolist())
        direction = arr(point(self.spec.free_size, which + 1))
        obj = self.objective()
        with inputs_kept(self.ctx, 'objective', free, direction):
            obj.fun_free(free)
            obj.fun_free_grad(free)
            obj.fun_free_hvp(free, direction)
        self.keep('argument of an objective', free)

    def vector_gradient(self, which):
        self.vec = self.spec.fwd(point(self.spec.free_size, which))
        vec = arr(self.vec)
        obj = self.objective()
        with inputs_kept(self.ctx, 'objective', vec):
            obj.fun_vector(vec)
            obj.fun_vector_grad(vec)
        self.keep('vector argument of an objective', vec)

    def scribble_first(self, _):
        self.scribble(0)

    def scribble_last(self, _):
        self.scribble(-1)

    def scribble_all(self, _):
        for i in range(len(self.arrays)):
            self.scribble(i)

    def scribble(self, i):
        if not self.arrays:
            return
        item = self.arrays[i]
        if item[1].flags.writeable:
            self.count += 1
            junk = -100. - self.count - np.arange(item[1].size)
            item[1][...] = junk.reshape(item[1].shape)
            item[2][...] = item[1]

    def write(self, _):
        """Into the value, in place"""
        node = Node.of(self.spec, self.vec)
        for leaf, p in all_leaves(node, self.par):
            val = p.get()
            if isinstance(val, np.ndarray) and val.flags.writeable:
                leaf.vec = leaf.spec.fwd(point(leaf.spec.free_size, 4))
                val[...] = np.reshape(leaf.spec.for_set(leaf.vec), val.shape)
        self.vec = node.as_vec()

    def set_value(self, _):
        node = Node.of(self.spec, self.vec)
        for leaf, p in all_leaves(node, self.par):
            leaf.vec = leaf.spec.fwd(point(leaf.spec.free_size, 2))
            p.set(leaf.spec.for_set(leaf.vec))
        self.vec = node.as_vec()

    def check(self, after):
        ctx = self.ctx
        for what, a, content in self.arrays:
            ctx.true(a.tobytes() == content.tobytes(),
                     '%s changed from %s to %s by %s' % (
                         what, content.tolist(), a.tolist(), after))
        ref.check_state(ctx, self.par, self.spec, self.vec, 'after ' + after)


OPS = [('set_free', lambda k: k.set_free(0)),
       ('set_vector', lambda k: k.set_vector(1)),
       ('slices', lambda k: k.slices(2)),
       ('get', lambda k: k.get(0)),
       ('free_to_vector', lambda k: k.transform(3)),
       ('derivatives', lambda k: k.derive(1)),
       ('objective', lambda k: k.gradient(2)),
       ('vector objective', lambda k: k.vector_gradient(0)),
       ('scribble first', lambda k: k.scribble_first(0)),
       ('scribble last', lambda k: k.scribble_last(0)),
       ('scribble all', lambda k: k.scribble_all(0)),
       ('write value', lambda k: k.write(0)),
       ('set value', lambda k: k.set_value(0))]


def run_history(ctx, spec, seq, every=False):
    life = Life(ctx, spec)
    for name, op in seq:
        ctx.step(name)
        op(life)
        if every:
            life.check(name)
    life.check(seq[-1][0])
    ctx.state(repr(spec), life.vec, [a.tolist() for _, a, _ in life.arrays])


def history_unit(label, mk, first, depth):
    def run(ctx):
        for rest in sequences(OPS, depth - 1, 0):
            seq = (first,) + rest
            with ctx.trace(label, [n for n, _ in seq]):
                run_history(ctx, mk(), seq)
    return run


FORMS = ['plain', 'strided', 'reversed', 'part of a larger array', 'read-only']


def forms_unit(pairs):
    """Arguments in every memory layout, written over afterwards"""
    def run(ctx):
        for label, mk in pairs:
            for form in FORMS:
                with ctx.trace('forms', label, form):
                    life = Life(ctx, mk())
                    spec, par = life.spec, life.par
                    for which in range(3):
                        a = in_form(arr(point(spec.free_size, which)), form)
                        life.vec = spec.fwd(np.array(a).tolist())
                        with inputs_kept(ctx, 'set_free', a):
                            par.set_free(a)
                        life.keep('argument of set_free', a)
                        life.check('set_free')
                        life.scribble(-1)
                        life.check('scribble')
                        life.get(0)
                        life.vec = spec.fwd(point(spec.free_size, which + 1))
                        a = in_form(arr(life.vec), form)
                        with inputs_kept(ctx, 'set_vector', a):
                            par.set_vector(a)
                        life.keep('argument of set_vector', a)
                        life.check('set_vector')
                        life.scribble(-1)
                        life.check('scribble')
                        life.get(0)
                        a = in_form(arr(point(spec.free_size, which + 2)),
                                    form)
                        life.vec = spec.fwd(np.array(a).tolist())
                        with inputs_kept(ctx, 'free_to_vector', a):
                            out = par.free_to_vector(a)
                            obj = life.objective()
                            obj.fun_free(a)
                            obj.fun_free_grad(a)
                        life.keep('argument', a)
                        life.keep('result', out)
                        life.scribble_all(0)
                        life.check('scribble')
                        life.write(0)
                        life.check('write')
                ctx.state('forms', label, form)
    return run


def in_form(x, form):
    return dict(big.array_forms(x))[form]


def life_unit(label, mk, tier):
    """Everything that ever went in or came out is still what it was."""
    def run(ctx):
        for start in range(3):
            with ctx.trace('life', label, start):
                life = Life(ctx, mk())
                for k in range(40 if tier == 'quick' else 250):
                    name, op = OPS[(k * 5 + start * 4) % 8 if k % 6 else
                                   8 + (k // 6 + start) % 5]
                    ctx.step(name)
                    op(life)
                    if k % 4 == 3:
                        life.check(name)
                life.check('all')
                ctx.state('life', label, start)
    return run


def cycle_unit(pairs):
    """Every composition: everything once, with scribbling in between"""
    ops = dict(OPS)
    scribble = ('scribble all', ops['scribble all'])
    last = ('scribble last', ops['scribble last'])

    def run(ctx):
        for label, mk in pairs:
            for order in (1, -1):
                seq = []
                for name, op in OPS[:8][::order]:
                    seq += [(name, op), last, ('get', ops['get']), scribble]
                seq += [('write value', ops['write value']),
                        ('get', ops['get']),
                        ('write value', ops['write value']), scribble,
                        ('set value', ops['set value']), scribble]
                with ctx.trace(label, order):
                    run_history(ctx, mk(), seq, True)
    return run


MORE = [Scalar(), Scalar(-INF, 2.), Scalar(-1., 3.), Vector(1), Vector(3),
        Vector(2, 0.), Vector(2, -1., 3.), Array((2, 2)), Array((3, 1), -1.),
        Array((1,)), Array((1, 2), -INF, 4.), PD(1), PD(3, 0.4),
        Simplex((1, 2)), Simplex((3, 2)), Sub(2),
        Sub(4, ((1., 0., 2., 0.), (0., 1., 0., -1.)))]


def compositions(tier):
    out = [(repr(s), lambda s=s: s) for s in MORE]
    kinds = [k for k, _ in KINDS]
    for shape in SHAPES + SHAPES4:
        n = leaves(shape)
        combos = [tuple(kinds[(i + 5 * j) % len(kinds)] for j in range(n))
                  for i in range(len(kinds))]
        if n == 2 and tier != 'quick':
            combos = list(itertools.product(kinds, repeat=2))
        if tier == 'quick' and n > 2:
            combos = combos[::3]
        for kk in combos:
            out.append(('%s %s' % (shape, ''.join(kk)),
                        lambda shape=shape, kk=kk: make(shape, kk)))
    return out


def units(tier):
    quick = tier == 'quick'
    out = []
    full = {'S', 'V', 'A', 'P', 'X', 'U', 'Q', 'R'}
    for k, mk in KINDS + [('free scalar', Scalar), ('tree', c01.start_spec),
                          ('free vector', lambda: Vector(2))]:
        if k == 'tree' or (len(k) == 1 and k not in full):
            depth = 2
        else:
            depth = 3
        if not quick:
            depth += 1
        for i, op in enumerate(OPS):
            out.append(('history-%s-%d' % (k, i),
                        history_unit(k, mk, op, depth)))
    for i, b in enumerate(blocks(compositions(tier), 12)):
        out.append(('compositions-%d' % i, cycle_unit(b)))
    large = [(repr(s), lambda s=s: s) for s in
             big.medium() + big.leaves(tier)[::4]]
    for i, b in enumerate(blocks([(repr(s), lambda s=s: s) for s in
                                  big.smallest()], 12)):
        out.append(('smallest-%d' % i, cycle_unit(b)))
    for i, b in enumerate(blocks(large, 3)):
        out.append(('large-%d' % i, cycle_unit(b)))
    for i, b in enumerate(blocks(compositions(tier)[::2] + large[::3], 12)):
        out.append(('forms-%d' % i, forms_unit(b)))
    for k, mk in KINDS + [('tree', c01.start_spec)]:
        out.append(('life-' + k, life_unit(k, mk, tier)))
    return out


def BOUNDS(tier):
    d = 3 if tier == 'quick' else 4
    return {
        'histories': 'all sequences of %d of %d operations on each kind of '
                     'simple parameter, %d on the distributions and a '
                     'nested dictionary' % (d, len(OPS), d - 1),
        'layouts': '%d of each argument' % len(FORMS),
        'lives': '%d operations' % (40 if tier == 'quick' else 250),
        'large': 'up to 131 entries; trees of 5 levels, 9 children',
        'compositions': '%d, everything once in two orders' %
                        len(compositions(tier)),
    }
