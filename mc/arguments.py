"""Arguments of every type: the function must receive the very objects which
the caller gave, in every call and every derivative."""
import itertools

import numpy as np


class Token(object):
    """An object that the package cannot know."""
    def __repr__(self):
        return 'Token()'


def values():
    return [None, False, True, 0, 1, -0.0, 2.5, '', 'text', (), (1, 2), [],
            [0.5], {}, {'a': 1}, np.array(3.), np.zeros((0,)),
            np.array([1., 2.]), np.array([True, False]), np.float64(0.25),
            float('nan'), 1j, Token(), Token, len, slice(1, None)]


def label(v):
    return '%s %s' % (type(v).__name__, v if not callable(v) else '')


class Recorder(object):
    """Wraps a function of parameters: keeps the arguments of every call."""
    def __init__(self, fun):
        self.fun, self.calls = fun, []

    def __call__(self, *args, **kw):
        self.calls.append((args, kw))
        return self.fun()

    def check(self, ctx, what, args, kw):
        ctx.true(len(self.calls) >= 1, what + ': the function was not called')
        for a, k in self.calls:
            ctx.true(len(a) == len(args) and
                     all(x is y for x, y in zip(a, args)),
                     '%s: positional arguments %s, given %s' % (
                         what, [label(x) for x in a],
                         [label(x) for x in args]))
            ctx.true(sorted(k) == sorted(kw) and
                     all(k[n] is kw[n] for n in kw),
                     '%s: keyword arguments %s, given %s' % (
                         what, {n: label(x) for n, x in k.items()},
                         {n: label(x) for n, x in kw.items()}))
        self.calls = []


def lists(tier='quick'):
    """(args, kwargs): each value alone in each position, all pairs of an odd
    few, and long lists."""
    vals = values()
    for v in vals:
        yield (v,), {}
        yield (), {'x': v}
        yield (v, 1.5), {}
        yield (1.5, v), {'x': 2.}
        yield (1.5,), {'y': v, 'x': 0}
    few = [None, False, 0.5, vals[17], vals[22]]
    for a, b in itertools.product(few, repeat=2):
        yield (a, b), {}
        yield (), {'b': a, 'a': b}
        yield (a,), {'long_name_of_an_argument': b}
    yield tuple(vals), {}
    yield (), {'k%d' % i: v for i, v in enumerate(vals)}
    yield tuple(vals), {'k%d' % i: v for i, v in enumerate(vals)}
