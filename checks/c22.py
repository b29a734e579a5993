"""C22: deep copies of parameters are independent."""
import copy
import itertools

import numpy as np

from mc import big, ref
from mc import functions as fn
from mc.core import sequences, blocks
from mc.ref import point, arr
from checks import c01
from checks.c01 import KINDS, SHAPES, Node, make, leaves

PROPERTY = 'C22'


class Side(object):
    """A real parameter and what it should be."""
    def __init__(self, real, node):
        self.real, self.node = real, node

    def copied(self):
        return Side(copy.deepcopy(self.real), copy.deepcopy(self.node))

    def check(self, ctx, what):
        spec, vec = self.node.as_spec(), self.node.as_vec()
        ref.check_layout(ctx, self.real, spec, what)
        ref.check_state(ctx, self.real, spec, vec, what)


def all_leaves(node, par):
    if node.kids is None:
        yield node, par
        return
    for n, k in node.kids:
        for item in all_leaves(k, par[n]):
            yield item


def op_write(par, node, vb):
    """Write into the value in place."""
    for leaf, p in all_leaves(node, par):
        val = p.get()
        if isinstance(val, np.ndarray) and val.flags.writeable:
            vec = leaf.spec.fwd(point(leaf.spec.free_size, 1))
            val[...] = np.reshape(leaf.spec.for_set(vec), val.shape)
            leaf.vec = vec


def op_set(par, node, vb):
    for leaf, p in all_leaves(node, par):
        vec = leaf.spec.fwd(point(leaf.spec.free_size, 4))
        p.set(leaf.spec.for_set(vec))
        leaf.vec = vec


def op_derive(par, node, vb):
    """Derivatives of the transform at another point"""
    free = arr(point(node.as_spec().free_size, 2))
    par.free_to_vector_jac(free)
    par.free_to_vector_hess(free)


def op_objective(par, node, vb):
    """Derivatives through an objective, which leave the point behind"""
    from LinearResponseVariationalBayes import SparseObjectives as so
    spec = node.as_spec()
    obj = so.Objective(par, fn.Fun(spec, 0).bind(par))
    free = point(spec.free_size, 3)
    obj.fun_free_grad(arr(free))
    node.set_vec(spec.fwd(free))


SIMPLE = [('set_free', c01.op_set_free(0)), ('set_vector',
                                             c01.op_set_vector(3)),
          ('set', op_set), ('write', op_write), ('derive', op_derive),
          ('gradient', op_objective)]

TREE = [('set_free', c01.op_set_free(0)), ('child.set', c01.op_child_set),
        ('values[]=', c01.op_values_set),
        ('nested values[]=', c01.op_nested_values),
        ('child.set_free', c01.op_child_free),
        ('push new', c01.op_push_new), ('push replacement', c01.op_replace),
        ('push into nested', c01.op_push_nested),
        ('replace nested', c01.op_replace_dict), ('write', op_write),
        ('derive', op_derive), ('gradient', op_objective)]

COPIES = ['copy := original', 'copy := copy', 'original := copy']


def alphabet(ops):
    return [(side, name, op) for side in ('original', 'copy')
            for name, op in ops] + [(None, c, None) for c in COPIES]


def run_history(ctx, spec, seq, when):
    """Start with an original, used by some operation before the copy"""
    import LinearResponseVariationalBayes as vb
    real = spec.build('top', vb)
    node = Node.of(spec, spec.default())
    sides = {'original': Side(real, node)}
    if when is not None:
        when[1](real, node, vb)
        ctx.step('original', when[0])
    sides['copy'] = sides['original'].copied()
    ctx.true(type(sides['copy'].real) is type(real) and
             sides['copy'].real is not real, 'type of the copy')
    for side, name, op in seq:
        ctx.step(side, name)
        if side is not None:
            op(sides[side].real, sides[side].node, vb)
        elif name == COPIES[0]:
            sides['copy'] = sides['original'].copied()
        elif name == COPIES[1]:
            sides['copy'] = sides['copy'].copied()
        else:
            sides['original'] = sides['copy'].copied()
    for name in ('original', 'copy'):
        sides[name].check(ctx, name)
        ctx.gstate(repr(spec), sides['original'].node.as_vec(),
                   sides['copy'].node.as_vec())


def kind_unit(kind, depth):
    """All interleavings on one parameter"""
    def run(ctx):
        spec = dict(KINDS)[kind]()
        for when in [None] + SIMPLE:
            for seq in sequences(alphabet(SIMPLE), depth if when is None
                                 else depth - 1, 0):
                with ctx.trace(kind, when and when[0],
                               [s[:2] for s in seq]):
                    run_history(ctx, spec, seq, when)
    return run


def tree_unit(first, depth):
    """All interleavings on a nested dictionary"""
    def run(ctx):
        for rest in sequences(alphabet(TREE), depth - 1, 0):
            seq = (first,) + rest
            with ctx.trace([s[:2] for s in seq]):
                run_history(ctx, c01.start_spec(), seq, None)
    return run


def shape_unit(specs):
    """Every composition: copy it, change each side in each way."""
    def run(ctx):
        for label, mk in specs:
            spec = mk()
            for when in (None, SIMPLE[5]):
                for side in ('original', 'copy'):
                    with ctx.trace(label, when and when[0], side):
                        seq = [(side,) + op for op in SIMPLE]
                        run_history(ctx, spec, seq, when)
    return run


def separate_unit(specs):
    """Parameters which were built separately have nothing in common."""
    def run(ctx):
        import LinearResponseVariationalBayes as vb
        for label, mk in specs:
            for name, op in SIMPLE:
                with ctx.trace('separate', label, name):
                    spec = mk()
                    first = Side(spec.build('p', vb),
                                 Node.of(spec, spec.default()))
                    second = Side(spec.build('p', vb),
                                  Node.of(spec, spec.default()))
                    op(first.real, first.node, vb)
                    if name == 'write':     # into what was returned, too
                        for a in (second.real.get_vector(),
                                  second.real.get_free()):
                            if isinstance(a, np.ndarray) and a.flags.writeable:
                                a[...] = 77.
                    third = Side(spec.build('p', vb),
                                 Node.of(spec, spec.default()))
                    first.check(ctx, 'used')
                    second.check(ctx, 'built before')
                    third.check(ctx, 'built after')
                    op(third.real, third.node, vb)
                    op_write(second.real, second.node, vb)
                    first.check(ctx, 'used')
                    second.check(ctx, 'built before')
                    third.check(ctx, 'built after')
                    ctx.state('separate', label, name)
    return run


def together_unit(specs):
    """What is copied together keeps the parts that it shares."""
    def run(ctx):
        import LinearResponseVariationalBayes as vb
        for label, mk in specs:
            for form in ('tree first', 'part first', 'dictionary', 'two trees',
                         'twice'):
                for name, op in SIMPLE[:4]:
                    with ctx.trace('together', label, form, name):
                        part_spec = mk()
                        spec = ref.Dict([('a', ref.Vector(2, 0.)),
                                         ('x', part_spec)])
                        tree = spec.build('tree', vb)
                        part = tree['x']
                        node = Node.of(spec, spec.default())
                        if form == 'tree first':
                            tree2, part2 = copy.deepcopy((tree, part))
                        elif form == 'part first':
                            part2, tree2 = copy.deepcopy([part, tree])
                        elif form == 'dictionary':
                            both = copy.deepcopy({'t': tree, 'p': part})
                            tree2, part2 = both['t'], both['p']
                        elif form == 'two trees':
                            other = vb.ModelParamsDict('other')
                            other.push_param(part)
                            tree2, other2 = copy.deepcopy((tree, other))
                            part2 = other2[part.name]
                        else:
                            tree2, again = copy.deepcopy((tree, tree))
                            ctx.true(tree2 is again, 'one copy of one tree')
                            part2 = again['x']
                        new = copy.deepcopy(node)
                        op(part2, dict(new.kids)['x'], vb)
                        Side(tree2, new).check(ctx, 'copied tree')
                        Side(tree, node).check(ctx, 'original')
                        ctx.true(part2 is tree2['x'] and
                                 part2 is not part, 'the part of the copy')
                        op_set(tree2, new, vb)
                        Side(part2, dict(new.kids)['x']).check(
                            ctx, 'copied part')
                        Side(tree, node).check(ctx, 'original')
                        op_set(tree, node, vb)
                        op(tree2['x'], dict(new.kids)['x'], vb)
                        Side(tree2, new).check(ctx, 'copied tree')
                        Side(tree, node).check(ctx, 'original')
                        ctx.state('together', label, form, name)
    return run


def life_unit(start, tier):
    """Many copies, of copies of copies, and operations on all of them."""
    def run(ctx):
        import LinearResponseVariationalBayes as vb
        ops = SIMPLE + [o for o in TREE if o[0] not in dict(SIMPLE)
                        and not o[0].startswith('push')]
        with ctx.trace('life', start):
            spec = c01.start_spec()
            sides = [Side(spec.build('top', vb),
                          Node.of(spec, spec.default()))]
            for k in range(30 if tier == 'quick' else 150):
                j = (5 * k + start * 3) % 13
                who = (k * (start + 2)) % len(sides)
                if j % 3 == 0:
                    ctx.step('copy', who)
                    sides.append(sides[who].copied())
                    if len(sides) > 6:
                        sides.pop((k + start) % len(sides))
                else:
                    name, op = ops[(k + j) % len(ops)]
                    ctx.step(name, who)
                    op(sides[who].real, sides[who].node, vb)
                for i, side in enumerate(sides):
                    side.check(ctx, 'side %d' % i)
            ctx.state('life', start)
    return run


def methods_unit(ctx):
    """The expectations of a copied distribution follow the copy."""
    import LinearResponseVariationalBayes as vb
    for kind in 'MNDWGEFHI':
        spec = dict(KINDS)[kind]()
        for first, second in itertools.product(range(3), repeat=2):
            with ctx.trace('methods', kind, first, second):
                real = spec.build('p', vb)
                real.set_free(arr(shifted(spec, first)))
                other = copy.deepcopy(real)
                other.set_free(arr(shifted(spec, second)))
                for par, which in ((real, first), (other, second)):
                    fresh = spec.build('p', vb)
                    fresh.set_free(arr(shifted(spec, which)))
                    for name in ('e', 'entropy', 'e_log', 'e_outer'):
                        if hasattr(fresh, name):
                            ctx.close(getattr(par, name)(),
                                      getattr(fresh, name)(),
                                      '%s of %s' % (name, kind))
                ctx.state(kind, first, second)


def shifted(spec, which):
    """Free values; the second moments well above the squares"""
    out = point(spec.free_size, which)
    if spec.label.startswith('UVNMoment'):
        k = spec.free_size // 2
        out = [0.3 * v for v in out[:k]] + [0.5 + abs(v) for v in out[k:]]
    return out


def specs(tier):
    out = []
    kinds = [k for k, _ in KINDS]
    for shape in SHAPES:
        n = leaves(shape)
        combos = [tuple(kinds[(i + 5 * j) % len(kinds)] for j in range(n))
                  for i in range(len(kinds))]
        if n == 2 and tier != 'quick':
            combos = list(itertools.product(kinds, repeat=2))
        for kk in combos:
            out.append(('%s %s' % (shape, ''.join(kk)),
                        lambda shape=shape, kk=kk: make(shape, kk)))
    return out


def units(tier):
    quick = tier == 'quick'
    out = []
    for kind, _ in KINDS:
        out.append(('kind-' + kind, kind_unit(kind, 2 if quick else 3)))
    for i, first in enumerate(alphabet(TREE)):
        out.append(('tree-%d' % i, tree_unit(first, 2 if quick else 3)))
    for i, b in enumerate(blocks(specs(tier), 12)):
        out.append(('shapes-%d' % i, shape_unit(b)))
    out.append(('methods', methods_unit))
    for i, b in enumerate(blocks([(k, mk) for k, mk in KINDS] +
                                 specs(tier)[::3], 12)):
        out.append(('separate-%d' % i, separate_unit(b)))
    for i, b in enumerate(blocks([(k, mk) for k, mk in KINDS] +
                                 specs(tier)[::9], 12)):
        out.append(('together-%d' % i, together_unit(b)))
    large = [(repr(s), lambda s=s: s) for s in
             big.medium() + big.leaves(tier)[::3]]
    for i, b in enumerate(blocks([(repr(s), lambda s=s: s) for s in
                                  big.smallest() if s.vec_size], 10)):
        out.append(('smallest-%d' % i, shape_unit(b)))
        out.append(('separate smallest-%d' % i, separate_unit(b)))
    for i, b in enumerate(blocks(large, 3)):
        out.append(('large-%d' % i, shape_unit(b)))
        out.append(('separate large-%d' % i, separate_unit(b)))
    for start in range(4):
        out.append(('life-%d' % start, life_unit(start, tier)))
    return out


def BOUNDS(tier):
    quick = tier == 'quick'
    return {
        'kinds': 'each of %d alone: all sequences of %d operations of %d, '
                 'after none or any first use' % (
                     len(KINDS), 2 if quick else 3, len(alphabet(SIMPLE))),
        'nested': 'all sequences of %d of %d operations' % (
            2 if quick else 3, len(alphabet(TREE))),
        'compositions': len(specs(tier)),
        'large': 'up to 131 entries; trees of 5 levels and 9 children',
        'separately built': 'each kind, every third composition, large ones; '
                            'each of %d operations' % len(SIMPLE),
        'copied together': 'a tree and its part, in five containers; each '
                           'kind and some compositions',
        'lives': '%d steps, up to 6 copies at once' % (30 if quick else 150),
    }
