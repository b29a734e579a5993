"""C25: the optimization log records exactly the logged evaluations."""
import io
import itertools
import sys

import numpy as np
import scipy.optimize
import scipy.sparse as sps

from mc import big, functions as fn
from mc.core import sequences
from mc.ref import Scalar, Vector, PD, Simplex, point, arr
from checks.c01 import make
from checks.c17 import Bowl, starts

PROPERTY = 'C25'


class Failure(Exception):
    pass


class Life(object):
    """An objective with its log, next to what the log should hold."""
    def __init__(self, ctx, spec, kind=fn.ArgFun):
        import LinearResponseVariationalBayes as vb
        from LinearResponseVariationalBayes import SparseObjectives as so
        self.ctx, self.spec, self.so = ctx, spec, so
        self.n = spec.free_size
        self.par = spec.build('p', vb)
        self.f = kind(spec, 0)
        bound = self.f.bind(self.par)
        self.broken = False

        def fun(*args, **kwargs):
            if self.broken:
                raise Failure()
            return bound(*args, **kwargs)
        self.obj = so.Objective(self.par, fun)
        self.log = []
        self.every = 1
        self.callback = None
        self.called = []            # what the callback saw
        self.expected_calls = []
        self.buffer = np.zeros(self.n)
        self.conditioned = None

    # -- operations --------------------------------------------------------
    def evaluate(self, which, verbose, args=(1.3,), kwargs=None, x=None,
                 cond=False):
        """An evaluation, plain or conditioned"""
        kwargs = kwargs or {}
        free = point(self.n, which)
        if x is None:
            x = arr(free)
        else:
            x[...] = free
        kw = dict(kwargs)
        if verbose is not None:
            kw['verbose'] = verbose
        real = free
        if cond:
            if self.conditioned is None:
                return
            real = np.dot(self.conditioned, free).tolist()
        value = self.f.of_free(real, *args, **kwargs)
        due = bool(verbose) and len(self.log) % self.every == 0
        out = io.StringIO()
        old, sys.stdout = sys.stdout, out
        try:
            got = (self.obj.fun_free_cond if cond else self.obj.fun_free)(
                x, *args, **kw)
        finally:
            sys.stdout = old
        self.ctx.close(got, value, 'value of the evaluation', shape=False)
        if verbose:
            self.record(value, real, due, out.getvalue())
        else:
            self.ctx.true(not out.getvalue(), 'output without logging')

    def record(self, value, x, due, output):
        number = len(self.log)
        self.log.append((list(x), float(value)))
        if due and self.callback is not None:
            self.expected_calls.append((self.callback, number, value))
        message = due and self.callback is None
        self.ctx.true(bool(output.strip()) == message,
                      'evaluation %d with print_every %d: output %r' % (
                          number, self.every, output))

    def direct(self, which):
        """An entry made by the user"""
        x = point(self.n, which)
        due = len(self.log) % self.every == 0
        out = io.StringIO()
        old, sys.stdout = sys.stdout, out
        try:
            self.obj.logger.log(0.25 + which, arr(x))
        finally:
            sys.stdout = old
        self.record(0.25 + which, x, due, out.getvalue())

    def derive(self, which):
        free = arr(point(self.n, which))
        v = arr(point(self.n, which + 1))
        o = self.obj
        o.fun_free_grad(free, 1.3)
        o.fun_free_hvp(free, 1.3, v)
        o.fun_vector(arr(self.spec.fwd(free.tolist())), 1.3)
        if self.conditioned is not None:
            o.fun_free_grad_cond(free, 1.3)
            o.fun_free_hvp_cond(free, 1.3, v)

    def fail(self, cond):
        """An evaluation that raises is not logged."""
        self.broken = True
        f = self.obj.fun_free_cond \
            if cond and self.conditioned is not None else self.obj.fun_free
        out = io.StringIO()
        old, sys.stdout = sys.stdout, out
        try:
            self.ctx.raises(Failure, lambda: f(
                arr(point(self.n, 2)), 1.3, verbose=True), 'failing function')
        finally:
            sys.stdout = old
            self.broken = False
        self.ctx.true(not out.getvalue(), 'output of a failing evaluation')

    def set_callback(self, name):
        self.callback = name
        if name is None:
            self.obj.logger.callback = None
            return

        def callback(logger):
            self.called.append((name, logger is self.obj.logger, logger.iter,
                                float(logger.value),
                                np.array(logger.x, dtype=float).tolist()))
        self.obj.logger.callback = callback

    def set_every(self, every):
        self.every = every
        self.obj.logger.print_every = every

    def initialize(self):
        self.obj.logger.initialize()
        self.log = []

    def replace(self):
        self.obj.logger = self.so.Logger(print_every=2)
        self.log, self.every, self.callback = [], 2, None

    def condition(self, which):
        n = self.n
        a = np.eye(n) * (0.5 + which) + 0.1 * np.tril(np.ones((n, n)))
        self.conditioned = a
        self.obj.preconditioner = sps.csr_matrix(a) if which else a

    # -- observation -------------------------------------------------------
    def check(self):
        ctx, lg = self.ctx, self.obj.logger
        n = len(self.log)
        ctx.true(lg.iter == n, 'counter %s, expected %d' % (lg.iter, n))
        ctx.true(len(lg.x_array) == n and len(lg.val_array) == n,
                 'lengths %d, %d, expected %d' % (
                     len(lg.x_array), len(lg.val_array), n))
        for i, (x, v) in enumerate(self.log):
            ctx.close(lg.x_array[i], x, 'point %d' % i)
            ctx.close(lg.val_array[i], v, 'value %d' % i, shape=False)
        if n:
            x, v = self.log[-1]
            for name in ('x', 'last_x'):
                ctx.close(getattr(lg, name), x, name)
            for name in ('value', 'last_value'):
                ctx.close(getattr(lg, name), v, name, shape=False)
        else:
            for name in ('x', 'last_x', 'value', 'last_value'):
                ctx.true(getattr(lg, name) is None, name + ' of an empty log')
        ctx.true(lg.print_every == self.every, 'print_every')
        ctx.true((lg.callback is None) == (self.callback is None), 'callback')
        ctx.true([c[:3] for c in self.called] ==
                 [(name, True, i) for name, i, _ in self.expected_calls],
                 'calls of the callback %s, expected %s' % (
                     [c[:3] for c in self.called], self.expected_calls))
        for seen, want in zip(self.called, self.expected_calls):
            ctx.close(seen[3], want[2], 'value seen by the callback')
        ctx.state(repr(self.spec), self.log, self.every, self.callback)


OPS = [
    ('logged', lambda k: k.evaluate(0, True)),
    ('logged, other arguments',
     lambda k: k.evaluate(1, True, (0.4,), {'q': 1.1})),
    ('logged, array reused', lambda k: k.evaluate(
        len(k.log) % 3, True, x=k.buffer)),
    ('not logged', lambda k: k.evaluate(2, False)),
    ('plain', lambda k: k.evaluate(3, None, x=k.buffer)),
    ('conditioned, logged', lambda k: k.evaluate(1, True, cond=True)),
    ('conditioned', lambda k: k.evaluate(2, None, cond=True)),
    ('derivatives', lambda k: k.derive(1)),
    ('failing', lambda k: k.fail(False)),
    ('every second', lambda k: k.set_every(2)),
    ('every third', lambda k: k.set_every(3)),
    ('callback', lambda k: k.set_callback('first')),
    ('no callback', lambda k: k.set_callback(None)),
    ('initialize', lambda k: k.initialize()),
    ('by hand', lambda k: k.direct(2)),
    ('new log', lambda k: k.replace()),
]


def history_unit(first, depth, spec, when):
    def run(ctx):
        for rest in sequences(OPS, depth - 1, 0):
            seq = (first,) + rest
            with ctx.trace(repr(spec), when, [n for n, _ in seq]):
                k = Life(ctx, spec)
                if when is not None:
                    k.condition(when)
                for name, op in seq:
                    ctx.step(name)
                    op(k)
                k.check()
    return run


def long_unit(which, tier):
    """Long logs: which evaluations are announced"""
    def run(ctx):
        spec = [Vector(2, 0.), Scalar(), Simplex((2, 3)), PD(2),
                make(['.', ['.']], 'XS')][which]
        for every in (1, 2, 3, 4, 7, 20):
            for callback in (None, 'first'):
                for gap in (0, 1, 2):
                    with ctx.trace(repr(spec), every, callback, gap):
                        k = Life(ctx, spec)
                        k.condition(which % 2)
                        k.set_every(every)
                        k.set_callback(callback)
                        for i in range(23):
                            k.evaluate(i % 5, True, x=k.buffer,
                                       cond=i % 4 == 3)
                            for _ in range(gap):
                                k.evaluate(2, False)
                            k.check()
                        k.initialize()
                        k.check()
                        for i in range(5):
                            k.evaluate(i % 5, True)
                        k.check()
    return run


def life_unit(which, tier):
    """Hundreds of entries, and every way to change the logging meanwhile"""
    def run(ctx):
        spec = [Vector(2, 0.), Vector(40), big.wide(9)][which]
        for every in (1, 10, 16, 50, 64, 100, 128):
            with ctx.trace(repr(spec), 'life', every):
                k = Life(ctx, spec)
                k.condition(which % 2)
                k.set_every(every)
                k.set_callback('first')
                total = (150, 135, 70)[which] * (1 if tier == 'quick' else 5)
                for i in range(total):
                    k.evaluate(i % 5, True, x=k.buffer, cond=i % 4 == 3)
                    if i % 25 == 24:
                        k.check()
                for i, (name, op) in enumerate(OPS[3:13] + OPS[14:15]):
                    ctx.step(name)
                    op(k)
                    for j in range(3):
                        k.evaluate(j, True)
                    k.check()
                k.initialize()
                k.set_every(every)
                for i in range(every + 3):
                    k.evaluate(i % 5, True)
                k.check()
    return run


def thousands_unit(which, tier):
    """Logs of long optimizations are complete."""
    def run(ctx):
        spec = [Vector(1), Vector(3, 0.)][which]
        for every in (100, 997):
            with ctx.trace(repr(spec), 'thousands', every):
                k = Life(ctx, spec)
                k.condition(which)
                k.set_every(every)
                k.set_callback('first')
                total = 1300 if tier == 'quick' else 5000
                for i in range(total):
                    k.evaluate(i % 7, True, x=k.buffer, cond=i % 4 == 3)
                    if i in (260, 520, 1030):
                        k.check()
                k.check()
        with ctx.trace(repr(spec), 'by hand'):
            log = Life(ctx, spec).so.Logger(print_every=10 ** 6)
            log.callback = lambda logger: None
            total = 12000 if tier == 'quick' else 100000
            for again in (0, 1):
                for i in range(total):
                    log.log(0.5 * i, np.array([i, -i, again]))
                ctx.true(log.iter == total, 'counter %s' % log.iter)
                ctx.true(np.array_equal(np.array(log.val_array),
                                        0.5 * np.arange(total)), 'values')
                xs = np.array(log.x_array)
                ctx.true(xs.shape == (total, 3) and
                         np.array_equal(xs[:, 0], np.arange(total)) and
                         np.array_equal(xs[:, 1], -np.arange(total)) and
                         np.all(xs[:, 2] == again), 'points')
                log.initialize()
                ctx.true(log.iter == 0 and not len(log.x_array) and
                         not len(log.val_array), 'emptied')
            ctx.state(which, total)
    return run


class SpecialFun(fn.Fun):
    """Returns the special value which is asked for."""
    def formula(self, e, a, b, c, dot, exp, p):
        return dot(a, e) * 0. + p


def special_unit(spec, when):
    """Values of every kind are logged: zero, negative, repeated, tiny, huge,
    infinite, not a number.  All sequences of three."""
    values = [0., -0., -1.5, 1e-300, 1e300, float('inf'), -float('inf'),
              float('nan')]

    def run(ctx):
        for seq in itertools.product(values, repeat=3):
            for every in (1, 2):
                with ctx.trace(repr(spec), [str(v) for v in seq], every):
                    k = Life(ctx, spec, SpecialFun)
                    if when is not None:
                        k.condition(when)
                    k.set_every(every)
                    k.set_callback(None if every == 2 else 'first')
                    for i, v in enumerate(seq):
                        k.evaluate(i % 2, True, (v,), cond=i == 1)
                        k.check()
    return run


METHODS = ['L-BFGS-B', 'SLSQP', 'COBYLA', 'BFGS', 'CG', 'Newton-CG', 'TNC',
           'Powell', 'Nelder-Mead']


def optimizer_unit(method):
    """The log during an optimization by scipy is its sequence of points."""
    def run(ctx):
        import LinearResponseVariationalBayes as vb
        from LinearResponseVariationalBayes import SparseObjectives as so
        for spec in (Vector(2, 0.), Vector(3, -1., 2.), Simplex((1, 3))):
            for which, every in itertools.product((1, 2, 3), (1, 5)):
                with ctx.trace(method, repr(spec), which, every):
                    bowl = Bowl(spec, 0)
                    par = spec.build('p', vb)
                    obj = so.Objective(par, bowl.bind(par))
                    obj.logger.print_every = every
                    seen = []

                    def fun(x):
                        value = obj.fun_free(x, verbose=True)
                        seen.append((np.array(x), float(value)))
                        return value
                    jac = obj.fun_free_grad if method in (
                        'L-BFGS-B', 'SLSQP', 'BFGS', 'CG', 'Newton-CG',
                        'TNC') else None
                    scipy.optimize.minimize(
                        fun, arr(starts(bowl)[which]), jac=jac, method=method,
                        options={'maxiter': 30})
                    lg = obj.logger
                    ctx.true(lg.iter == len(seen) == len(lg.x_array) ==
                             len(lg.val_array), 'lengths')
                    for i, (x, v) in enumerate(seen):
                        ctx.close(lg.x_array[i], x, 'point %d' % i)
                        ctx.close(lg.val_array[i], v, 'value %d' % i,
                                  shape=False)
                    ctx.state(method, repr(spec), which, len(seen))
    return run


def units(tier):
    quick = tier == 'quick'
    out = []
    for i, op in enumerate(OPS):
        for spec, when in ((Vector(2, 0.), 0), (Simplex((1, 3)), 1),
                           (Vector(2), None)):
            depth = 3 if quick else 4
            out.append(('history-%d-%s' % (i, when),
                        history_unit(op, depth, spec, when)))
    for i in range(5):
        out.append(('long-%d' % i, long_unit(i, tier)))
    for i in range(3):
        out.append(('life-%d' % i, life_unit(i, tier)))
    for i in range(2):
        out.append(('thousands-%d' % i, thousands_unit(i, tier)))
    out.append(('special values', special_unit(Vector(2, 0.), 0)))
    out.append(('special values, unconditioned',
                special_unit(Scalar(), None)))
    for m in METHODS:
        out.append(('optimizer-' + m, optimizer_unit(m)))
    return out


def BOUNDS(tier):
    return {
        'histories': 'all sequences of %d of %d operations, without, with '
                     'dense and with sparse preconditioner' % (
                         3 if tier == 'quick' else 4, len(OPS)),
        'lives': '%d logged evaluations, print_every up to 128' % (
            150 if tier == 'quick' else 750),
        'thousands': '%d logged evaluations, %d entries made by hand' % (
            (1300, 12000) if tier == 'quick' else (5000, 100000)),
        'long logs': '23 logged evaluations, 6 values of print_every',
        'special values': 'all sequences of 3 of 8 values (zeros, tiny, huge, '
                          'infinite, nan)',
        'optimizers': METHODS,
    }
