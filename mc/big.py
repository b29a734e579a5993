"""Large instances: nothing may depend on the number of entries, rows,
children, dimensions or levels being small."""
from . import ref
from .ref import (Scalar, Vector, Array, PD, PDV, PDA, Simplex, Sub, Dict,
                  INF)


def perp_rows(dim, rows):
    return [[float((3 * i * (r + 2) + r * r + i * i * (r + 1)) % 11 - 4)
             for i in range(dim)] for r in range(rows)]


def wide(n):
    """A dictionary of n children of all kinds."""
    kinds = [lambda: Scalar(-0.5), lambda: Simplex((1, 3)),
             lambda: Vector(2, -INF, 3.), lambda: PD(2, 0.3),
             lambda: Array((1, 2), -1., 2.), lambda: Sub(3),
             lambda: ref.gamma(0.2), lambda: PDV(2, 1)]
    # the names are not in alphabetical order
    return Dict([('c%02d' % ((7 * i + 3) % 53), kinds[i % len(kinds)]())
                 for i in range(n)])


def deep(levels, both=True):
    """Dictionaries within dictionaries; leaves on both sides at each level."""
    spec = Dict([('z', Simplex((1, 3))), ('a', Scalar(0.5))])
    for i in range(levels):
        kids = [('in', spec)]
        if both or i % 2:
            kids = [('w%d' % i, Vector(2, 0.))] + kids
        if both or i % 3 == 0:
            kids = kids + [('b%d' % i, Simplex((1, 2)))]
        spec = Dict(kids)
    return spec


def leaves(tier='quick'):
    out = [Vector(40, 0.), Vector(131, -INF, INF), Vector(33, -1., 4.),
           Vector(65, -INF, 2.), Array((6, 7)), Array((2, 3, 2, 3), 0.),
           Array((2, 1, 2, 1, 3), -2., 1.), Array((17, 1)), Array((1, 19), 0.),
           PD(6), PD(9, 0.3), PDV(7, 2), PDV(12, 1, 0.5), PDV(3, 5),
           PDV(10, 3, 0.2), PDA((3, 4), 2), PDA((2, 2, 3), 1),
           PDA((5, 1), 3, 0.4), PDA((2, 1, 2, 2), 2), Simplex((12, 3)),
           Simplex((2, 11)), Simplex((1, 30)), Simplex((17, 2)), Sub(12),
           Sub(9, perp_rows(9, 3)), Sub(20, perp_rows(20, 2))]
    if tier != 'quick':
        out += [Vector(400, 0.), Array((11, 13), -1., 1.), PD(12), PDV(20, 3),
                PDA((4, 5), 3), Simplex((40, 5)), Simplex((3, 70)), Sub(40)]
    return out


def dists(tier='quick'):
    out = [ref.mvn(6, 0.2), ref.uvnv(20, 0.1), ref.uvna((5, 4), 0.1),
           ref.uvna((2, 2, 2, 2)), ref.uvnm((4, 5)), ref.mvna((6, 4), 0.2),
           ref.mvna((2, 9)), ref.wishart(5, 0.1), ref.dirichlet((8, 3)),
           ref.dirichlet((2, 3, 4)), ref.dirichlet((3, 14), 0.2)]
    if tier != 'quick':
        out += [ref.mvn(9), ref.uvnv(60), ref.wishart(7),
                ref.dirichlet((12, 5))]
    return out


def trees(tier='quick'):
    return [wide(9), wide(14), wide(20), deep(4), deep(6), deep(9, False),
            Dict([('a', wide(11)), ('m', deep(5)), ('b', Vector(35, 0.)),
                  ('z', Simplex((9, 3)))])]


def medium():
    """For second derivatives."""
    return [Vector(11, 0.), Array((3, 4), -1., 3.), Array((2, 1, 2, 2), 0.),
            PD(5, 0.2), PDV(6, 1), PDV(5, 2, 0.3), PDA((2, 3), 2),
            PDA((2, 2, 2), 1, 0.5), Simplex((7, 3)), Simplex((2, 8)),
            Simplex((9, 2)), Sub(9), Sub(8, perp_rows(8, 3)), ref.mvn(4, 0.1),
            ref.uvnv(6, 0.2), ref.mvna((4, 2)), ref.uvna((2, 3)),
            ref.wishart(3, 0.1), ref.dirichlet((3, 4)), wide(9), deep(5)]


def small_medium():
    """A few of each, for the slowest calculations."""
    return [Vector(11, 0.), PD(4, 0.2), PDV(5, 2, 0.3), PDA((2, 3), 1),
            Simplex((4, 3)), Simplex((1, 8)), Sub(8, perp_rows(8, 3)),
            ref.mvn(3, 0.1), wide(7), deep(5, False)]


def smallest():
    """Nothing to be free about: one category, no entries, no parts."""
    one = [Simplex((1, 1)), Simplex((3, 1)), Vector(0), Vector(0, 0.),
           Array((0, 2), -1., 1.), Array((2, 0, 3)), Dict([])]
    out = [Dict([('m', s)]) for s in one] + [Dict([])]
    for s in one:
        parts = [('z', Scalar(-0.5)), ('b', Simplex((2, 3)))]
        for at in range(3):
            out.append(Dict(parts[:at] + [('m', s)] + parts[at:]))
        out.append(Dict([('d', Dict([('m', s)])), ('a', Vector(2, 0.))]))
        out.append(Dict([('a', PD(2, 0.3)), ('d', Dict(
            [('e', Dict([])), ('m', s), ('q', Sub(3))])), ('c', s)]))
    return one[:-1] + out


# The same numbers in every form of array ---------------------------------------

def array_forms(x, frozen=True):
    """(name, array): equal arrays which differ in memory layout only."""
    import numpy as np
    x = np.array(x)
    yield 'plain', x.copy()
    wide = np.full(tuple(2 * n + 1 for n in x.shape), 7.5)
    every = tuple(slice(1, None, 2) for _ in x.shape)
    wide[every] = x
    yield 'strided', wide[every]
    back = tuple(slice(None, None, -1) for _ in x.shape)
    yield 'reversed', np.array(x[back])[back]
    if x.ndim > 1:
        yield 'Fortran', np.array(x, order='F')
        yield 'transposed', np.array(x.T).T
    inner = np.full(tuple(n + 2 for n in x.shape), -3.5)
    mid = tuple(slice(1, -1) for _ in x.shape)
    inner[mid] = x
    yield 'part of a larger array', inner[mid]
    if frozen:
        out = x.copy()
        out.flags.writeable = False
        yield 'read-only', out
