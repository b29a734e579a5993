"""C28: calculations and objects in one process do not influence each other.

The values that a fresh process gives for every call and every life of the
catalogue are taken first, each in a process of its own.  Then every pair of
calls is made one after another, and every pair of lives is interleaved, in
processes that go on."""
import itertools
import os

import numpy as np

from mc import catalog, ref, big
from mc import functions as fn
from mc.catalog import agree, canonical, alone
from mc.core import inputs_kept, de_bruijn, Timeout, UnitAbort
from mc.ref import Vector, Simplex, Dict, Scalar, PD, point, arr
from checks.c01 import KINDS

PROPERTY = 'C28'


def surroundings():
    """What every other calculation in the process relies on."""
    import sys
    import warnings
    return {'error state': repr(sorted(np.geterr().items())),
            'error callback': repr(np.geterrcall()),
            'print options': repr(sorted(np.get_printoptions().items())),
            'buffer size': np.getbufsize(),
            'warning filters': repr(warnings.filters),
            'standard output': id(sys.stdout),
            'recursion limit': sys.getrecursionlimit(),
            'directory': os.getcwd(),
            'environment': repr(sorted(os.environ.items()))}


def same_surroundings(ctx, before, what):
    after = surroundings()
    for k in before:
        if before[k] != after[k]:
            restore(before)
            ctx.fail('%s: %s changed from %s to %s' % (
                what, k, str(before[k])[:300], str(after[k])[:300]))


def restore(before):
    np.seterr(all='ignore')
    np.set_printoptions(**dict(eval(before['print options'])))


def call(ctx, entry, alone_value, what, tol=1e-9):
    name, make = entry
    args, thunk = make()
    around = surroundings()
    with inputs_kept(ctx, '%s: %s' % (what, name), *args):
        try:
            raw = thunk(*args)
            got = canonical(raw)
        except Exception as err:
            raw = got = 'raised %s: %s' % (type(err).__name__, err)
    if not agree(got, alone_value, tol):
        ctx.fail('%s: %s gives %s; alone it gives %s' % (
            what, name, str(got)[:300], str(alone_value)[:300]))
    same_surroundings(ctx, around, '%s: %s' % (what, name))
    ctx.transitions += 1
    return raw, got


def still(ctx, name, kept, what):
    """A result keeps its value."""
    ctx.true(agree(canonical(kept[0]), kept[1]), '%s: the result of %s has '
             'become %s' % (what, name, str(canonical(kept[0]))[:300]))


def job_of_call(entry):
    def job():
        args, thunk = entry[1]()
        return thunk(*args)
    return job


def life(steps):
    def job():
        s = {}
        return [canonical(st(s)) for st in steps]
    return job


def job_of_life(entry):
    return life(entry[1])


def calls_unit(entries, wants, mine):
    """Each call of mine, alternating with every later call."""
    def unit(ctx):
        for i in mine:
            with ctx.trace('call', entries[i][0]):
                last, other = 'nothing', None
                for j in range(i, len(entries)):
                    a, b = entries[i][0], entries[j][0]
                    one = call(ctx, entries[i], wants[i], 'after ' + last)
                    if other:
                        still(ctx, last, other, 'after ' + a)
                    other = call(ctx, entries[j], wants[j], 'after ' + a)
                    still(ctx, a, one, 'after ' + b)
                    last = b
                    ctx.gstate('pair', i, j)
                call(ctx, entries[i], wants[i], 'after all others')
    return unit


def family_jobs(families):
    """Values of every variant of every function, each in its own process."""
    return [lambda make=make, fun=fun: fun(*make())
            for _, fun, variants in families for _, make in variants]


def family_unit(group):
    def unit(ctx):
        for (name, fun, variants), wants in group:
            entries = [('%s (%s)' % (name, v), lambda make=make: (make(), fun))
                       for v, make in variants]
            with ctx.trace('family', name):
                kept = []
                for k in de_bruijn(list(range(len(entries))), 2):
                    last = kept[-1][0] if kept else 'nothing'
                    # (far arguments may magnify the last bit)
                    got = call(ctx, entries[k], wants[k], 'after ' + last,
                               1e-6)
                    kept.append((entries[k][0], got))
                    ctx.gstate('family', name, last, k)
                for label, pair in kept:
                    still(ctx, label, pair, 'at the end')
            with ctx.trace('family in place', name):
                # always the same arrays, with other entries
                buf = ref.Reused()

                def refill(make):
                    return tuple(
                        buf(a, k) if type(a) is np.ndarray and
                        a.dtype == float else a for k, a in enumerate(make()))
                entries = [('%s (%s)' % (name, v), lambda make=make: (
                    refill(make), fun)) for v, make in variants]
                last = 'nothing'
                for k in de_bruijn(list(range(len(entries))), 2):
                    call(ctx, entries[k], wants[k], 'in place, after ' + last,
                         1e-6)
                    last = entries[k][0]
    return unit


# What is done to results ------------------------------------------------------------

def overwrite(raw, kept=()):
    """The caller does what he likes with the arrays that he got."""
    if isinstance(raw, np.ndarray):
        if raw.dtype == float and raw.flags.writeable and raw.size and \
                not any(np.may_share_memory(raw, k) for k in kept):
            raw[...] = raw[...] * 0.5 + 0.3
    elif hasattr(raw, 'tocsr') and hasattr(raw, 'data'):
        if isinstance(raw.data, np.ndarray):
            overwrite(raw.data, kept)
    elif isinstance(raw, dict):
        for v in raw.values():
            overwrite(v, kept)
    elif isinstance(raw, (list, tuple)):
        for v in raw:
            overwrite(v, kept)


def spoiled_unit(entries, wants, mine):
    """Results belong to the caller: what he writes into them changes neither
    the same call nor any other one later."""
    def unit(ctx):
        for i in mine:
            with ctx.trace('spoiled', entries[i][0]):
                for again in range(3):
                    raw, _ = call(ctx, entries[i], wants[i],
                                  'after %d results overwritten' % again)
                    overwrite(raw)
                for j in range(len(entries)):
                    if entries[j][0].split('(')[0].split(' ')[0] == \
                            entries[i][0].split('(')[0].split(' ')[0]:
                        raw, _ = call(ctx, entries[j], wants[j], 'after the '
                                      'result of %s was overwritten' %
                                      entries[i][0])
                        overwrite(raw)
                        ctx.gstate('spoiled', i, j)
                call(ctx, entries[i], wants[i], 'after all were overwritten')
    return unit


def spoiled_lives_unit(pairs, machines, wants):
    """Whatever is done to the results of one life, another one goes on as it
    does alone."""
    def unit(ctx):
        for i, j in pairs:
            for order in ('ABABAB', 'AAABBB', 'BAABAB'):
                with ctx.trace('spoiled lives', machines[i][0],
                               machines[j][0], order):
                    state = {'A': {}, 'B': {}}
                    at = {'A': 0, 'B': 0}
                    dead = False
                    for x in order:
                        k = at[x]
                        at[x] += 1
                        if x == 'A':
                            if dead:
                                continue
                            try:
                                overwrite(machines[i][1][k](state['A']))
                                for value in state['A'].values():
                                    overwrite(value)
                            except (Timeout, UnitAbort):
                                raise
                            except Exception:
                                dead = True     # its own results are gone
                            continue
                        got = canonical(machines[j][1][k](state['B']))
                        ctx.true(agree(got, wants[j][k]),
                                 '%s, step %d of %s: %s; alone it gives %s' % (
                                     order, k, machines[j][0], str(got)[:300],
                                     str(wants[j][k])[:300]))
                    ctx.gstate('spoiled lives', i, j, order)
    return unit


def spoiled_values_unit(kinds):
    """A new parameter has its initial value, whatever was written into the
    arrays of other ones."""
    def unit(ctx):
        import LinearResponseVariationalBayes as vb
        for label, mk in kinds:
            spec = mk()
            want = spec.default()
            with ctx.trace('spoiled values', label):
                for again in range(3):
                    pars = [spec.build('p', vb), spec.build('q', vb)]
                    for p in pars:
                        ctx.close(p.get_vector(), want, 'initial value')
                    spoil_leaves(pars[0])
                    ctx.close(pars[1].get_vector(), want,
                              'the value of the other one')
                    for got in (pars[1].get_vector(), pars[1].get_free(),
                                pars[1].free_to_vector(
                                    arr(point(spec.free_size, 1)))):
                        overwrite(got)
                    spoil_leaves(pars[1])
                    ctx.gstate('spoiled values', label, again)
    return unit


def spoil_leaves(par):
    if hasattr(par, 'param_dict'):
        for p in par.param_dict.values():
            spoil_leaves(p)
    else:
        overwrite(par.get())


# What is handed to a parameter -----------------------------------------------------

def handed_unit(kinds):
    """Whatever an object does with an array, the array stays as it is."""
    def unit(ctx):
        import LinearResponseVariationalBayes as vb
        for label, mk in kinds:
            spec = mk()
            free = point(spec.free_size, 1)
            for scale in (1., 1e-7, 25., 300., 900.):
                far = [scale * v for v in free]
                vec = arr(spec.fwd(free))
                jobs = [('set_free', arr(far)), ('free_to_vector', arr(far)),
                        ('free_to_vector_jac', arr(far)),
                        ('free_to_vector_hess', arr(far)),
                        ('set_vector', scale * vec)]
                if not spec.is_dict:
                    p = spec.build('p', vb)
                    p.set_vector(vec)
                    jobs.append(('set', scale * np.array(p.get())))
                for name, x in jobs:
                    for form, y in big.array_forms(x):
                        with ctx.trace('handed', label, scale, name, form):
                            p = spec.build('p', vb)
                            with inputs_kept(ctx, name, y):
                                try:
                                    getattr(p, name)(y)
                                    p.get_vector()
                                    p.get_free()
                                    str(p), p.dictval()
                                    if name == 'set':
                                        p.set_free(arr(free))
                                        p.set_vector(vec)
                                except (Timeout, UnitAbort):
                                    raise
                                except Exception:
                                    pass      # far values may be refused
                            ctx.state(label, scale, name, form)
    return unit


def interleavings(n, m):
    for where in itertools.combinations(range(n + m), n):
        yield ['A' if k in where else 'B' for k in range(n + m)]


def pair_unit(pairs, machines, wants, full):
    def unit(ctx):
        for i, j in pairs:
            orders = list(interleavings(3, 3))
            if i == j:
                orders = [o for o in orders if o[0] == 'A']
            elif not full and machines[i][0][:-2] != machines[j][0][:-2]:
                orders = ['ABABAB', 'BABABA']
            for order in orders:
                order = ''.join(order)
                with ctx.trace('lives', machines[i][0], machines[j][0], order):
                    state = {'A': {}, 'B': {}}
                    at = {'A': 0, 'B': 0}
                    which = {'A': i, 'B': j}
                    kept = []
                    for x in order:
                        k, m = at[x], which[x]
                        around = surroundings()
                        raw = machines[m][1][k](state[x])
                        got = canonical(raw)
                        same_surroundings(ctx, around, '%s, step %d of %s' % (
                            order, k, machines[m][0]))
                        kept.append((machines[m][0], (raw, got)))
                        at[x] += 1
                        ctx.true(agree(got, wants[m][k]),
                                 '%s, step %d of %s: %s; alone it gives %s' % (
                                     order, k, machines[m][0], str(got)[:300],
                                     str(wants[m][k])[:300]))
                    for name, pair in kept:
                        still(ctx, name, pair, order)
                    ctx.gstate('order', i, j, order)
    return unit


# Several objects that share a parameter --------------------------------------------

S1 = Dict([('z', Vector(2, -1., 3.)), ('x', Simplex((1, 3)))])
S2 = Dict([('h', Scalar(0.)), ('c', PD(2, 0.2))])
N1, N2 = S1.free_size, S2.free_size


def company():
    """Objectives and converters on the same two parameters; name -> call"""
    import LinearResponseVariationalBayes as vb
    from LinearResponseVariationalBayes import (
        SparseObjectives as so, ModelSensitivity as ms)
    p, q = S1.build('p', vb), S2.build('q', vb)
    one = so.Objective(p, fn.Fun(S1, 0).bind(p))
    other = so.Objective(p, fn.Fun(S1, 1).bind(p))
    second = so.Objective(q, fn.Fun(S2, 1).bind(q))
    other.preconditioner = catalog.spd(N1, 1)
    both = so.TwoParameterObjective(p, q, fn.Fun2(S1, S2, 0).bind(p, q))
    swapped = so.TwoParameterObjective(q, p, fn.Fun2(S2, S1, 1).bind(q, p))
    conv = so.ParameterConverter(p, q, fn.Conversion(S1, S2, 0).bind(p, q))
    back = so.ParameterConverter(q, p, fn.Conversion(S2, S1, 1).bind(q, p))
    x, y = arr(point(N1, 0)), arr(point(N2, 1))
    x2 = arr(point(N1, 3))
    vx, vy = arr(S1.fwd(point(N1, 2))), arr(S2.fwd(point(N2, 3)))
    dense = lambda m: m.toarray()
    return [
        ('value', lambda: one.fun_free(x)),
        ('value at a vector', lambda: one.fun_vector(vx)),
        ('gradient', lambda: one.fun_free_grad(x2)),
        ('Hessian of the other', lambda: other.fun_free_hessian(x)),
        ('conditioned', lambda: (other.fun_free_cond(x),
                                 other.fun_free_grad_cond(x2))),
        ('products', lambda: (one.fun_free_hvp(x, x2),
                              other.fun_free_hvp_cond(x2, x))),
        ('second', lambda: (second.fun_free(y), second.fun_vector_grad(vy))),
        ('both', lambda: both.fun_free(x, y)),
        ('cross', lambda: both.fun_free_hessian12(x2, y)),
        ('swapped', lambda: (swapped.fun_free(y, x),
                             swapped.fun_vector_hessian21(vy, vx))),
        ('convert', lambda: conv.converter_free_to_vec(x)),
        ('conversion jacobian', lambda: conv.vec_to_free_jacobian(vx)),
        ('convert back', lambda: back.converter_vec_to_free(vy)),
        ('back jacobian', lambda: back.free_to_vec_jacobian(y)),
        ('jacobian', lambda: dense(p.free_to_vector_jac(x2))),
        ('Hessians', lambda: [dense(h) for h in q.free_to_vector_hess(y)]),
        ('logged', lambda: one.fun_free(x2, verbose=True)),
        ('logged by the other', lambda: other.fun_free_cond(x, verbose=True)),
        ('set', lambda: (p.set_free(x2), q.set_vector(vy))),
        ('read', lambda: (p.free_to_vector(x), q.vector_to_free(vy))
         if hasattr(p, 'vector_to_free') else p.free_to_vector(x)),
    ], {'logged': one.logger, 'logged by the other': other.logger,
        'second': second.logger}


def company_job(k):
    def job():
        return company()[0][k][1]()
    return job


def company_unit(walks, names, wants, depth):
    def unit(ctx):
        for walk in walks:
            with ctx.trace('company', [names[k] for k in walk]):
                calls, logs = company()
                calls = [f for _, f in calls]
                values = {'logged': [], 'logged by the other': [],
                          'second': []}
                kept = []
                for n, k in enumerate(walk):
                    before = [names[m] for m in walk[max(0, n - 4):n]]
                    around = surroundings()
                    raw = calls[k]()
                    got = canonical(raw)
                    same_surroundings(ctx, around, names[k])
                    kept = kept[-3:] + [(names[k], (raw, got))]
                    if names[k].startswith('logged'):
                        values[names[k]].append(wants[k])
                    for n2, log in logs.items():
                        ctx.true(log.iter == len(values[n2]) and
                                 agree(canonical(log.val_array), values[n2]),
                                 'the log of %s after %s' % (n2, before))
                    ctx.true(agree(got, wants[k]),
                             '%s after %s: %s; alone it gives %s' % (
                                 names[k], before, str(got)[:300],
                                 str(wants[k])[:300]))
                    for name, pair in kept:
                        still(ctx, name, pair, 'after ' + names[k])
                    ctx.gstate('company', walk[max(0, n - depth + 1):n + 1])
    return unit


def units(tier):
    quick = tier == 'quick'
    entries = catalog.calls()
    machines = catalog.machines()
    members = [n for n, _ in company()[0]]
    families = catalog.families()
    got = alone([job_of_call(e) for e in entries] +
                [job_of_life(m) for m in machines] +
                [company_job(k) for k in range(len(members))] +
                family_jobs(families))
    wants = got[:len(entries)]
    lives = got[len(entries):len(entries) + len(machines)]
    at = len(entries) + len(machines) + len(members)
    shared = got[len(entries) + len(machines):at]
    grouped = []
    for family in families:
        grouped.append((family, got[at:at + len(family[2])]))
        at += len(family[2])

    def sound(ctx):
        """Every call and every life of the catalogue gives numbers"""
        for n, w in zip([e[0] for e in entries] + [m[0] for m in machines] +
                        members, got):
            with ctx.trace('alone', n):
                ctx.true(w is not None and not isinstance(w, str) and
                         'raised' not in repr(w), '%s: %s' % (n, w))
                ctx.gstate('alone', n)
    out = [('alone', sound)]
    for k in range(64):
        mine = range(k, len(entries), 64)
        out.append(('calls-%d' % k, calls_unit(entries, wants, mine)))
    pairs = [(i, j) for i in range(len(machines))
             for j in range(i, len(machines))]
    for k in range(64):
        out.append(('lives-%d' % k, pair_unit(
            pairs[k::64], machines, lives, not quick)))
    for k in range(16):
        out.append(('families-%d' % k, family_unit(grouped[k::16])))
    for k in range(8):
        out.append(('handed-%d' % k, handed_unit(KINDS[k::8])))
        out.append(('spoiled-%d' % k, spoiled_unit(
            entries, wants, range(k, len(entries), 8))))
        out.append(('spoiled values-%d' % k, spoiled_values_unit(KINDS[k::8])))
    both = [(i, j) for i in range(len(machines)) for j in range(len(machines))
            if not quick or i == j or
            machines[i][0][:-2] == machines[j][0][:-2] or (i + j) % 4 == 0]
    for k in range(16):
        out.append(('spoiled lives-%d' % k, spoiled_lives_unit(
            both[k::16], machines, lives)))
    depth = 3 if quick else 4
    walk = de_bruijn(list(range(len(members))), depth)
    size = 48
    walks = [walk[i:i + size + depth - 1] for i in range(0, len(walk), size)]
    for k in range(32):
        out.append(('company-%d' % k, company_unit(
            walks[k::32], members, shared, depth)))
    return out


def BOUNDS(tier):
    quick = tier == 'quick'
    n = len(catalog.calls())
    return {
        'calls': 'all ordered pairs of %d calls (functions of every module, '
                 'values and gradients, different and equal sizes)' % n,
        'families': 'all ordered pairs of the variants of each function: the '
                    'arguments of the catalogue, one argument exchanged, one '
                    'argument scaled by 50, 1e-9 or 900',
        'handed': 'every array handed to every kind of parameter, 6 methods, '
                  '5 magnitudes, 7 memory layouts',
        'lives': 'all pairs of 44 lives of three steps (parameters, '
                 'distributions, objectives, converters, sensitivities, '
                 'solvers, minimizers); %s' % (
                     'all 20 interleavings of two of a kind, the alternating '
                     'ones of others' if quick else 'all 20 interleavings'),
        'results': 'every call and every life with the arrays of its results '
                   'overwritten by the caller, followed by the same call, '
                   'those of the same name, and other lives; every kind of '
                   'parameter after the value of another one was overwritten',
        'company': 'all sequences of %d of 20 calls, in walks of 48, on '
                   'objectives and converters that share two parameters' % (
                       3 if quick else 4),
        'reference': 'the value in a process of its own',
        'surroundings': 'error state, print options, warning filters, '
            'directory and environment are the same after every call',
        'in place': 'all ordered pairs of variants once more with the same '
                    'arrays, whose entries the caller changes',
    }
