#!/usr/bin/env python3
"""Make, confirm and try the planted bugs of tools/bugs*.py.

plant.py make [ID...]    write /verif/seeded/ID/{patch.diff,demo.sh,demo.py,meta.json}
                         after confirming in a scratch copy: applies, changes
                         original lines only, builds, passes the tests, the
                         demonstration passes without and fails with it.
plant.py try [ID...]     apply each to /repo, run the check of its property,
                         undo; prints CAUGHT or missed.
"""
import concurrent.futures, glob, importlib.util, json, os, re, shutil, subprocess, sys, tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
SEEDED = os.path.join(VERIF, 'seeded')
PKG = 'LinearResponseVariationalBayes'
PY = '/opt/venv/bin/python'

DEMO_SH = '''#!/bin/bash
# Run with the repository as the working directory.
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 OPENBLAS_NUM_THREADS=1
export PYTHONPYCACHEPREFIX="$(mktemp -d)"
/opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"
rc=$?
rm -rf "$PYTHONPYCACHEPREFIX"
exit $rc
'''

DEMO_HEAD = '''import copy
import numpy as np
import scipy as sp
import scipy.optimize, scipy.sparse, scipy.sparse.linalg
import autograd
import autograd.numpy as anp
import LinearResponseVariationalBayes as vb
import LinearResponseVariationalBayes.SparseObjectives

def close(a, b, tol=1e-8):
    a = np.asarray(a, dtype=float); b = np.asarray(b, dtype=float)
    assert a.shape == b.shape, (a.shape, b.shape)
    scale = 1.0 + np.max(np.abs(b)) if b.size else 1.0
    assert np.all(np.isfinite(a)) and np.all(np.abs(a - b) <= tol * scale), (a, b)

'''


def bugs():
    out = {}
    for f in sorted(glob.glob(os.path.join(HERE, 'bugs*.py'))):
        spec = importlib.util.spec_from_file_location(os.path.basename(f)[:-3], f)
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
        for b in m.BUGS:
            assert b['id'] not in out, b['id']
            out[b['id']] = b
    return out


def sh(cmd, cwd=None, env=None, timeout=900):
    e = dict(os.environ)
    e.update(env or {})
    return subprocess.run(cmd, cwd=cwd, env=e, timeout=timeout, shell=isinstance(cmd, str),
                          stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)


def original_lines(path):
    root = sh('git -C /repo rev-list --max-parents=0 HEAD').stdout.split()[0]
    return sh('git -C /repo show %s:%s' % (root, path)).stdout.split('\n')


def make(b):
    d = tempfile.mkdtemp(prefix='plant_%s_' % b['id'], dir='/tmp')
    try:
        work = os.path.join(d, 'repo')
        sh('cp -a /repo %s' % work)
        for fname, old, new in b['edits']:
            p = os.path.join(work, PKG, fname)
            s = open(p).read()
            if s.count(old) != 1:
                return b['id'], 'edit matches %d times: %r' % (s.count(old), old[:80])
            with open(p, 'w') as f:
                f.write(s.replace(old, new))
        diff = sh('git diff', cwd=work).stdout
        # every removed line is a line of the original repository
        removed = 0
        cur = None
        for line in diff.split('\n'):
            if line.startswith('--- a/'):
                cur = original_lines(line[6:])
            elif line.startswith('-'):
                removed += 1
                if line[1:].strip() and line[1:] not in cur:
                    return b['id'], 'removes a line that is not original: ' + line
        if not removed:
            return b['id'], 'changes no original line'
        env = {'PYTHONPATH': work, 'PYTHONDONTWRITEBYTECODE': '1', 'OPENBLAS_NUM_THREADS': '1',
               'PYTHONPYCACHEPREFIX': os.path.join(d, 'pyc'), 'MPLBACKEND': 'Agg', 'PYTHONHASHSEED': '0'}
        t = sh([PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '-x'], cwd=work, env=env)
        m = re.search(r'(\d+) passed', t.stdout)
        if t.returncode or not m or int(m.group(1)) < 68:
            return b['id'], 'tests: ' + '\n'.join(t.stdout.strip().split('\n')[-8:])
        dd = os.path.join(d, 'demo')
        os.makedirs(dd)
        open(os.path.join(dd, 'demo.sh'), 'w').write(DEMO_SH)
        open(os.path.join(dd, 'demo.py'), 'w').write(DEMO_HEAD + b['demo'].strip('\n') + '\n')
        r0 = sh(['bash', os.path.join(dd, 'demo.sh')], cwd='/repo')
        if r0.returncode:
            return b['id'], 'demo fails on the unchanged tree: ' + r0.stdout[-600:]
        r1 = sh(['bash', os.path.join(dd, 'demo.sh')], cwd=work)
        if not r1.returncode:
            return b['id'], 'demo passes with the patch'
        out = os.path.join(SEEDED, b['id'])
        os.makedirs(out, exist_ok=True)
        shutil.copy(os.path.join(dd, 'demo.sh'), out)
        shutil.copy(os.path.join(dd, 'demo.py'), out)
        open(os.path.join(out, 'patch.diff'), 'w').write(diff)
        json.dump({'property': b['property'], 'needs': b['needs'],
                   'what_it_breaks': b['what_it_breaks']},
                  open(os.path.join(out, 'meta.json'), 'w'), indent=1)
        a = sh(['git', '-C', '/repo', 'apply', '--check', os.path.join(out, 'patch.diff')])
        if a.returncode:
            return b['id'], 'does not apply: ' + a.stdout
        return b['id'], 'ok   (demo: %s)' % (r1.stdout.strip().split('\n') or [''])[-1][:90]
    finally:
        sh(['rm', '-rf', d])


def attempt(bid, props=None):
    """Run checks against a copy with the bug, mounted over /repo in a private
    mount namespace, so that neither /repo nor /verif changes."""
    meta = json.load(open(os.path.join(SEEDED, bid, 'meta.json')))
    d = tempfile.mkdtemp(prefix='try_%s_' % bid, dir='/tmp')
    try:
        sh('git -C /repo worktree list >/dev/null; cp -a /repo %s/repo' % d)
        sh('mkdir %s/verif; cd /verif && cp -a check.sh run.py mc checks known_findings.json %s/verif' % (d, d))
        sh('git -C %s/repo checkout -q -- .' % d)
        a = sh(['git', '-C', d + '/repo', 'apply', os.path.join(SEEDED, bid, 'patch.diff')])
        assert not a.returncode, a.stdout
        res = []
        for prop in props or [meta['property']]:
            r = sh(['unshare', '-Urm', 'bash', '-c',
                    'mount --bind %s/repo /repo && mount --bind %s/verif /verif && '
                    'cd /verif && exec ./check.sh %s' % (d, d, prop)],
                   env={'VERIF_SEED': '1', 'VERIF_TIER': 'quick'}, timeout=2000)
            lines = [l for l in r.stdout.split('\n') if l.startswith('VIOLATION property=' + prop)]
            res.append((prop, r.returncode, len(lines), lines[0] if lines else r.stdout.strip()[-200:]))
        return res
    finally:
        sh(['rm', '-rf', d])


def main():
    cmd, ids = sys.argv[1], sys.argv[2:]
    if cmd == 'make':
        bs = bugs()
        todo = [bs[i] for i in ids] if ids else [b for b in bs.values()
                if not os.path.exists(os.path.join(SEEDED, b['id'], 'patch.diff'))]
        with concurrent.futures.ThreadPoolExecutor(4) as ex:
            for bid, msg in ex.map(make, todo):
                print('%-28s %s' % (bid, msg), flush=True)
    elif cmd == 'try':
        for bid in ids or sorted(os.listdir(SEEDED)):
            for prop, rc, n, line in attempt(bid):
                print('%-28s %s %s rc=%d n=%d %s' % (
                    bid, prop, 'CAUGHT' if rc == 1 and n else 'missed', rc, n,
                    '' if rc == 1 and n else line), flush=True)
    elif cmd == 'matrix':
        allp = sorted(os.path.basename(f)[:-3].upper() for f in glob.glob(VERIF + '/checks/c*.py'))
        for bid in ids or sorted(os.listdir(SEEDED)):
            res = attempt(bid, allp)
            print('%-28s %s' % (bid, ' '.join(p for p, rc, n, l in res if rc == 1 and n)), flush=True)


if __name__ == '__main__':
    main()
