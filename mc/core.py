"""Bounded exhaustive exploration of the real code.

A check module (checks/cNN.py) defines

    PROPERTY, TITLE, BOUNDS(tier) -> dict, units(tier) -> [(name, function)]

A unit is a deterministic function of a Ctx.  It enumerates a finite family of
traces.  A trace is a sequence of operations on the real code, run from a fresh
object; each operation's observable result is compared with a reference model
(mc/ref.py, mc/jet.py, mc/series.py, ...).  The union of all units is the
declared bounded space, and every run visits all of it: nothing is sampled.

Units are dealt to 8 forked workers in a fixed order, so that a run is
reproducible, including anything a trace might leave behind in the process.
"""
import argparse
import contextlib
import gc
import hashlib
import importlib
import io
import itertools
import json
import os
import pickle
import signal
import sys
import time
import traceback
import warnings

import numpy as np

N_WORKERS = 8
UNIT_LIMIT_S = 300
RUN_LIMIT_S = {'quick': 780, 'thorough': 10800}
MAX_PER_UNIT = 2


# ---------------------------------------------------------------------------
# Loading the code under test

REPO = '/repo'


def load_library():
    """Import the package from /repo, never from stale bytecode."""
    import scipy, scipy.sparse, scipy.stats, scipy.optimize, scipy.special  # noqa
    import scipy.sparse.linalg, scipy.linalg  # noqa
    import autograd, autograd.numpy, autograd.scipy  # noqa
    import json_tricks  # noqa
    sys.dont_write_bytecode = True
    sys.pycache_prefix = '/nonexistent-pycache'
    if sys.path[0] != REPO:
        sys.path.insert(0, REPO)
    import LinearResponseVariationalBayes as vb
    where = os.path.realpath(vb.__file__)
    if not where.startswith(REPO + '/'):
        raise RuntimeError('package was imported from ' + where)
    return vb


# ---------------------------------------------------------------------------
# Canonical values

def plain(x):
    """A plain nested list / number for messages and samples."""
    import scipy.sparse as sps
    if sps.issparse(x):
        x = x.toarray()
    if isinstance(x, np.ndarray):
        return plain(x.tolist())
    if isinstance(x, (np.floating, float)):
        return float('%.10g' % float(x))
    if isinstance(x, (np.bool_, bool)):
        return bool(x)
    if isinstance(x, (np.integer, int)):
        return int(x)
    if isinstance(x, dict):
        return {str(k): plain(v) for k, v in x.items()}
    if isinstance(x, (list, tuple, range)):
        return [plain(v) for v in x]
    if x is None or isinstance(x, str):
        return x
    return '<' + type(x).__name__ + '>'


def is_number_type(x):
    return isinstance(x, (int, float, np.number, np.bool_))


class NotNumeric(Exception):
    pass


def as_array(x):
    """A float array of x; anything but plain numbers is an error."""
    import scipy.sparse as sps
    if sps.issparse(x):
        return np.asarray(x.toarray(), dtype=float)
    if type(x) is np.ndarray or isinstance(x, np.matrix):
        if x.dtype == object:
            for v in x.ravel().tolist():
                if not is_number_type(v):
                    raise NotNumeric('array element of type %s' % type(v))
        return np.asarray(x, dtype=float)
    if is_number_type(x):
        return np.asarray(float(x))
    if isinstance(x, (list, tuple, range)):
        return np.array([as_array(v) for v in x], dtype=float) \
            if len(x) else np.zeros((0,))
    raise NotNumeric('value of type %s' % type(x))


def digest(key):
    return int.from_bytes(
        hashlib.blake2b(repr(key).encode(), digest_size=8).digest(), 'big')


class Broken(Exception):
    """The current trace violates the property."""


class Timeout(Exception):
    pass


class UnitAbort(Exception):
    pass


class Ctx(object):
    def __init__(self, prop, unit, tier):
        self.prop = prop
        self.unit = unit
        self.tier = tier
        self.states = set()
        self.outcomes = set()
        self.transitions = 0
        self.traces = 0
        self.samples = []
        self.violations = []
        self._trace = None
        self._log = []

    # -- traces ------------------------------------------------------------
    @contextlib.contextmanager
    def trace(self, *desc):
        self._trace = plain(list(desc))
        self._log = []
        self.traces += 1
        try:
            yield self
        except Broken as err:
            self._violation(str(err))
        except (Timeout, UnitAbort):
            raise
        except Exception as err:          # the code under test raised
            tb = traceback.extract_tb(sys.exc_info()[2])
            where = ['%s:%s' % (os.path.basename(f.filename), f.name)
                     for f in tb][-6:]
            self._violation('unexpected %s: %s (%s)' % (
                type(err).__name__, str(err)[:300], ' < '.join(where[::-1])))
        finally:
            if len(self.samples) < 2:
                self.samples.append({'unit': self.unit, 'trace': self._trace,
                                     'steps': self._log[:12]})
            self._trace = None
        if len(self.violations) >= MAX_PER_UNIT:
            raise UnitAbort()

    def _violation(self, what):
        self.violations.append({
            'property': self.prop, 'unit': self.unit, 'tier': self.tier,
            'trace': self._trace, 'steps': self._log[-40:], 'what': what[:1500]})

    def step(self, *desc):
        """Log an operation of the current trace (for the replay file)."""
        self._log.append(plain(list(desc)))

    # -- states ------------------------------------------------------------
    def state(self, *key):
        """Count a (canonical) state."""
        self.states.add(digest((self.unit, plain(list(key)))))

    def gstate(self, *key):
        """Count a state that different units may share."""
        self.states.add(digest(plain(list(key))))

    # -- verdicts ----------------------------------------------------------
    def fail(self, what):
        raise Broken(what)

    def true(self, cond, what):
        self.transitions += 1
        if not cond:
            raise Broken(what)

    def close(self, got, want, what, rtol=1e-7, atol=1e-9, shape=True):
        """got (from the code) must equal want (from the reference)."""
        self.transitions += 1
        try:
            got_a = as_array(got)
        except NotNumeric as err:
            raise Broken('%s: not a numeric result (%s)' % (what, err))
        except ValueError as err:
            raise Broken('%s: %s' % (what, err))
        want_a = as_array(want)
        if shape:
            if got_a.shape != want_a.shape:
                raise Broken('%s: shape %s, expected %s' % (
                    what, got_a.shape, want_a.shape))
        else:
            got_a = got_a.ravel()
            want_a = want_a.ravel()
            if got_a.shape != want_a.shape:
                raise Broken('%s: size %s, expected %s' % (
                    what, got_a.size, want_a.size))
        g = got_a.ravel().tolist()
        w = want_a.ravel().tolist()
        scale = 0.
        for v in w:
            if v == v and abs(v) != float('inf') and abs(v) > scale:
                scale = abs(v)
        for i in range(len(w)):
            a, b = g[i], w[i]
            if a == b:
                continue
            if a != a and b != b:
                continue
            if not abs(a - b) <= atol + rtol * max(abs(b), 1e-3 * scale):
                raise Broken('%s: got %s, expected %s' % (
                    what, json.dumps(plain(got_a))[:500],
                    json.dumps(plain(want_a))[:500]))
        self.outcomes.add(digest(plain(w[:64])))

    def rel(self, got, want, what, rtol=1e-11):
        """Every entry to its own relative accuracy, however small."""
        try:
            g, w = as_array(got), as_array(want)
        except (NotNumeric, ValueError) as err:
            raise Broken('%s: not a numeric result (%s)' % (what, err))
        self.true(g.shape == w.shape, '%s: shape %s, expected %s' % (
            what, g.shape, w.shape))
        for a, b in zip(g.ravel().tolist(), w.ravel().tolist()):
            if not (a == b or abs(a - b) <= rtol * abs(b)):
                raise Broken('%s: got %r, expected %r' % (what, a, b))

    def raises(self, exc, fun, what):
        self.transitions += 1
        try:
            fun()
        except exc:
            return
        except (Timeout, UnitAbort):
            raise
        except Exception as err:
            raise Broken('%s: raised %s (%s) instead of %s' % (
                what, type(err).__name__, str(err)[:200], exc))
        raise Broken('%s: accepted, expected %s' % (what, exc))


def freeze(x):
    """A deep snapshot of inputs, to see whether a call modified them."""
    import scipy.sparse as sps
    if sps.issparse(x):
        return ('sp', x.format, freeze(x.toarray()))
    if isinstance(x, np.ndarray):
        return ('nd', x.shape, str(x.dtype), x.tobytes())
    if isinstance(x, (list, tuple)):
        return tuple(freeze(v) for v in x)
    if isinstance(x, dict):
        return tuple(sorted((k, freeze(v)) for k, v in x.items()))
    return repr(x)


@contextlib.contextmanager
def inputs_kept(ctx, what, *inputs):
    before = [freeze(x) for x in inputs]
    yield
    after = [freeze(x) for x in inputs]
    ctx.true(before == after, what + ': an argument was modified')


# ---------------------------------------------------------------------------
# Enumeration helpers

def sequences(alphabet, depth, min_depth=1):
    """All sequences over alphabet of length min_depth..depth, shortest first"""
    for n in range(min_depth, depth + 1):
        for seq in itertools.product(alphabet, repeat=n):
            yield seq


def de_bruijn(alphabet, n):
    """One walk in which every length-n sequence over the alphabet occurs."""
    k = len(alphabet)
    if k == 1:
        return list(alphabet) * n
    a = [0] * (k * n)
    out = []

    def db(t, p):
        if t > n:
            if n % p == 0:
                out.extend(a[1:p + 1])
        else:
            a[t] = a[t - p]
            db(t + 1, p)
            for j in range(a[t - p] + 1, k):
                a[t] = j
                db(t + 1, t)
    db(1, 1)
    walk = out + out[:n - 1]
    return [alphabet[i] for i in walk]


def blocks(items, size):
    items = list(items)
    return [items[i:i + size] for i in range(0, len(items), size)]


# ---------------------------------------------------------------------------
# Running

@contextlib.contextmanager
def silence():
    old_out = sys.stdout
    sys.stdout = io.StringIO()
    try:
        yield
    finally:
        sys.stdout = old_out


def _alarm(signum, frame):
    raise Timeout()


def run_unit(check, tier, name, fun):
    ctx = Ctx(check.PROPERTY, name, tier)
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(UNIT_LIMIT_S if tier == 'quick' else 6 * UNIT_LIMIT_S)
    try:
        with silence():
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                with np.errstate(all='ignore'):
                    fun(ctx)
    except UnitAbort:
        pass
    except Timeout:
        ctx._violation('no answer within the time limit of the unit')
    except Broken as err:
        ctx._violation(str(err))
    except Exception as err:
        ctx._violation('unexpected %s: %s\n%s' % (
            type(err).__name__, err, traceback.format_exc()[-900:]))
    finally:
        signal.alarm(0)
    return ctx


def _worker(check, tier, units, out_path):
    """Runs in a forked child; writes its progress after every unit."""
    result = {'done': [], 'current': None, 'states': set(), 'outcomes': set(),
              'transitions': 0, 'traces': 0, 'samples': [], 'violations': [],
              'unit_s': {}}
    marker = open(out_path + '.cur', 'w')
    for index, (name, fun) in enumerate(units):
        marker.seek(0)
        marker.truncate()
        marker.write(name)
        marker.flush()
        t0 = time.time()
        ctx = run_unit(check, tier, name, fun)
        result['unit_s'][name] = time.time() - t0
        result['states'] |= ctx.states
        result['outcomes'] |= ctx.outcomes
        result['transitions'] += ctx.transitions
        result['traces'] += ctx.traces
        if len(result['samples']) < 2:
            result['samples'] += ctx.samples[:2]
        for v in ctx.violations:
            v['prefix'] = [u[0] for u in units[:index]]
            result['violations'].append(v)
        result['done'].append(name)
        gc.collect(0)
    with open(out_path + '.tmp', 'wb') as f:
        pickle.dump(result, f)
    os.rename(out_path + '.tmp', out_path)


def _fork(check, tier, units, out_path):
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 3
        try:
            os.setpgid(0, 0)
            _worker(check, tier, units, out_path)
            code = 0
        except BaseException:
            traceback.print_exc()
        finally:
            sys.stdout.flush()
            sys.stderr.flush()
            os._exit(code)
    return pid


def run_parallel(check, tier, work, tmp, deadline):
    """Run the lists of units in work, one child each.  Returns results,
    crashes: a list of (units, current unit, status)."""
    results, crashes = [], []
    pids = {}
    for i, units in enumerate(work):
        if units:
            path = os.path.join(tmp, 'w%d' % i)
            for p in (path, path + '.cur', path + '.tmp'):
                if os.path.exists(p):
                    os.remove(p)
            pids[_fork(check, tier, units, path)] = (units, path)
    while pids:
        pid, status = os.waitpid(-1, os.WNOHANG)
        if pid == 0:
            if time.time() > deadline:
                for p in pids:
                    try:
                        os.killpg(p, signal.SIGKILL)
                    except OSError:
                        pass
                deadline = time.time() + 60
            time.sleep(0.02)
            continue
        if pid not in pids:
            continue
        units, path = pids.pop(pid)
        if status == 0 and os.path.exists(path):
            with open(path, 'rb') as f:
                results.append(pickle.load(f))
        else:
            cur = ''
            if os.path.exists(path + '.cur'):
                with open(path + '.cur') as f:
                    cur = f.read()
            crashes.append((units, cur, status))
    return results, crashes


def explore(check, tier, units, tmp, start):
    deadline = start + RUN_LIMIT_S[tier]
    work = [units[w::N_WORKERS] for w in range(N_WORKERS)]
    results, crashes = run_parallel(check, tier, work, tmp, deadline)
    violations = []
    lost = []
    # A child that died is run once more, unit by unit in order; only a unit
    # on which it dies again is reported.
    for units_w, cur, status in crashes:
        if time.time() > deadline:
            lost.append({'unit': cur, 'status': status})
            violations.append({
                'property': check.PROPERTY, 'unit': cur, 'tier': tier,
                'trace': None, 'steps': [], 'prefix': [u[0] for u in units_w],
                'what': 'no answer within the time limit of the run'})
            continue
        again, crashed = run_parallel(check, tier, [units_w], tmp, deadline)
        results += again
        for _, cur2, status2 in crashed:
            violations.append({
                'property': check.PROPERTY, 'unit': cur2, 'tier': tier,
                'trace': None, 'steps': [], 'prefix': [u[0] for u in units_w],
                'what': 'the process died (status %d, before: %s in %s)' % (
                    status2, status, cur)})
    for r in results:
        violations += r['violations']
    return results, violations


# ---------------------------------------------------------------------------
# Known findings

def load_findings(here):
    path = os.path.join(here, 'known_findings.json')
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return json.load(f)['findings']


def match_finding(findings, v):
    for f in findings:
        if f.get('status') != 'known' or f['property'] != v['property']:
            continue
        if f['unit'] != v['unit']:
            continue
        if f.get('trace') is not None and f['trace'] != v['trace']:
            continue
        if f.get('what') is not None and f['what'] not in v['what']:
            continue
        return f
    return None


# ---------------------------------------------------------------------------

def main(here, argv):
    parser = argparse.ArgumentParser()
    parser.add_argument('property')
    parser.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    parser.add_argument('--replay')
    parser.add_argument('--unit')
    parser.add_argument('--list', action='store_true')
    parser.add_argument('--profile', action='store_true')
    args = parser.parse_args(argv)
    tier = args.tier if args.tier in ('quick', 'thorough') else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '0') or 0)
    start = time.time()

    try:
        load_library()
        check = importlib.import_module('checks.' + args.property.lower())
        units = check.units(tier)
    except Exception as err:
        # The library cannot even be imported, or building the harness raised.
        what = 'cannot load: %s: %s\n%s' % (
            type(err).__name__, err, traceback.format_exc()[-1500:])
        if not os.path.exists(
                os.path.join(here, 'checks', args.property.lower() + '.py')):
            print(what)
            return 2
        return report(here, args.property, tier, seed, start, [], [{
            'property': args.property, 'unit': '<load>', 'tier': tier,
            'trace': None, 'steps': [], 'prefix': [], 'what': what}], {}, 0)

    names = [n for n, _ in units]
    assert len(set(names)) == len(names), 'unit names must be distinct'
    if args.list:
        print('\n'.join(names))
        return 0
    if args.unit:
        units = [u for u in units if args.unit in u[0]]

    if args.replay:
        return replay(check, tier, dict(units), args.replay)

    tmp = os.path.join(here, '.work', '%s-%d' % (args.property, os.getpid()))
    os.makedirs(tmp, exist_ok=True)
    try:
        results, violations = explore(check, tier, units, tmp, start)
        violations = confirm(check, tier, units, violations, tmp, start, results)
    finally:
        for f in os.listdir(tmp):
            os.remove(os.path.join(tmp, f))
        os.rmdir(tmp)
    if args.profile:
        unit_s = {}
        for r in results:
            unit_s.update(r['unit_s'])
        for n in sorted(unit_s, key=unit_s.get, reverse=True)[:25]:
            print('%8.2f s  %s' % (unit_s[n], n))
    return report(here, check.PROPERTY, tier, seed, start, results, violations,
                  check.BOUNDS(tier), len(units))


def confirm(check, tier, units, violations, tmp, start, results):
    """Replay before trusting: a violation has to show again, in its unit alone
    or after the units which ran before it in its process."""
    if not violations:
        return violations
    by_name = dict(units)
    deadline = start + RUN_LIMIT_S[tier] + 60
    confirmed, seen = [], {}
    for v in violations:
        if v['unit'] in seen:
            if seen[v['unit']]:
                v['reproduced'] = seen[v['unit']]
                confirmed.append(v)
            continue
        if any('time limit' in v['what'] or 'process died' in v['what']
               for _ in [0]) or len(seen) >= 3 and confirmed:
            v['reproduced'] = 'not attempted'
            confirmed.append(v)
            continue
        how = None
        for kind, names in (('alone', [v['unit']]),
                            ('after prefix', v['prefix'] + [v['unit']])):
            work = [(n, by_name[n]) for n in names]
            res, crashed = run_parallel(check, tier, [work], tmp, deadline)
            hit = bool(crashed) or any(
                w['unit'] == v['unit'] for r in res for w in r['violations'])
            if hit:
                how = kind
                break
        seen[v['unit']] = how
        if how:
            v['reproduced'] = how
            confirmed.append(v)
        else:
            for r in results:
                r.setdefault('unreproduced', []).append(v['unit'])
                break
    return confirmed


def replay(check, tier, by_name, path):
    with open(path) as f:
        rec = json.load(f)
    tier = rec.get('tier', tier)
    by_name = dict(check.units(tier))
    hit = []
    names = [rec['unit']] if rec.get('reproduced') != 'after prefix' \
        else rec['prefix'] + [rec['unit']]
    for n in names:
        ctx = run_unit(check, tier, n, by_name[n])
        if n == rec['unit']:
            hit = ctx.violations
    for v in hit:
        print(json.dumps(v, indent=1))
    print('REPRODUCED' if hit else 'not reproduced')
    return 1 if hit else 0


def report(here, prop, tier, seed, start, results, violations, bounds, n_units):
    states, outcomes = set(), set()
    transitions = traces = done = 0
    samples, unreproduced = [], []
    for r in results:
        states |= r['states']
        outcomes |= r['outcomes']
        transitions += r['transitions']
        traces += r['traces']
        done += len(r['done'])
        samples += r['samples'][:1]
        unreproduced += r.get('unreproduced', [])
    findings = load_findings(here)
    listed, fresh = {}, []
    for v in violations:
        f = match_finding(findings, v)
        if f is not None:
            listed[f['id']] = f
        else:
            fresh.append(v)
    for f in listed.values():
        print('KNOWN-FINDING: property=%s %s' % (prop, f['summary']))
    os.makedirs(os.path.join(here, 'evidence'), exist_ok=True)
    evidence = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'model_checking',
        'coverage': {
            'states': len(states),
            'transitions': transitions,
            'traces_validated_against_impl': traces,
            'distinct_expected_outcomes': len(outcomes),
            'units': n_units, 'units_completed': done,
            'exhaustive': done == n_units and not fresh,
            'bounds': bounds,
            'samples': samples[:4] or [{'note': 'nothing ran'}],
            'unreproduced_alarms': unreproduced,
        },
        'assumptions': [
            'behaviour outside the stated alphabet and bounds is not covered',
            'the reference models in mc/ are right; every trace is executed on '
            'the real code and compared with them step by step'],
        'wall_s': round(time.time() - start, 2),
        'violations': len(fresh),
    }
    with open(os.path.join(here, 'evidence', prop + '.json'), 'w') as f:
        json.dump(evidence, f, indent=1)
        f.write('\n')
    print('%s %s: units %d/%d traces %d states %d transitions %d outcomes %d '
          'in %.1f s' % (prop, tier, done, n_units, traces, len(states),
                         transitions, len(outcomes), time.time() - start))
    if unreproduced:
        print('alarms that did not show again: %s' % unreproduced)
    if fresh:
        os.makedirs(os.path.join(here, 'replays'), exist_ok=True)
        for i, v in enumerate(fresh[:5]):
            path = os.path.join('replays', '%s-%d.json' % (prop, i))
            with open(os.path.join(here, path), 'w') as f:
                json.dump(v, f, indent=1)
                f.write('\n')
            print('%s | %s | %s' % (v['unit'], json.dumps(v['trace'])[:400],
                                    v['what'][:600]))
            print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    if done != n_units:
        print('%d units did not complete' % (n_units - done))
        return 2
    return 0
