#!/usr/bin/env python3
"""Development tool: builds /verif/seeded/<id>/ from tools/bugs.py, and verifies each in a scratch copy of /repo.

  tools/seed.py verify [ids]   build the patch, check that it applies, that the stable tests pass and the demo tells the trees apart
  tools/seed.py catch  [ids]   run the property's quick check against the patched scratch copy
"""
import os, sys, subprocess, json, shutil, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/pypyvenv/bin/python'
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1')
STABLE = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
ns = {}
exec(open(os.path.join(V, 'tools', 'bugs.py')).read(), ns)
BUGS = ns['BUGS']
HEAD = '''import sys, os, gc, pickle, copy
sys.path.insert(0, os.getcwd())
import warnings; warnings.simplefilter('ignore')
import numpy as np, scipy.sparse as sp
import chumpy as ch
def D(J, *shape):
    if J is None: return np.zeros(shape)
    return J.toarray() if sp.issparse(J) else np.atleast_2d(np.asarray(J))
def need(ok, what=''):
    if not ok:
        print('FAIL', what); sys.exit(1)
def eq(a, b, what='', tol=1e-6):
    a, b = np.asarray(a), np.asarray(b)
    need(a.shape == b.shape and np.allclose(a, b, rtol=tol, atol=tol), '%s\\n%s\\n%s' % (what, a, b))
'''
DEMO = '#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1\nexec timeout 200 /opt/pypyvenv/bin/python -B -W ignore "$(cd "$(dirname "$0")" && pwd)/demo.py"\n'


def scratch():
    d = tempfile.mkdtemp(prefix='seed_')
    r = os.path.join(d, 'repo')
    shutil.copytree('/repo', r, symlinks=True)
    return d, r


def apply(b, r):
    for f, old, new in b['edits']:
        p = os.path.join(r, f)
        s = open(p).read()
        if s.count(old) != 1:
            return 'edit text occurs %d times in %s: %r' % (s.count(old), f, old[:80])
        open(p, 'w').write(s.replace(old, new))


def demo(d, r):
    return subprocess.run(['bash', os.path.join(d, 'demo.sh')], cwd=r, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)


def tests(r):
    x = os.path.join(r, '..', 'junit.xml')
    subprocess.run([PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '--timeout=300', '-o', 'junit_family=xunit2', '--junitxml=' + x, 'chumpy'],
                   cwd=r, env=ENV, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    out = x + '.json'
    subprocess.run(['/usr/bin/python3', '/opt/vp/results.py', out, 'junit:' + x], stdout=subprocess.DEVNULL)
    return STABLE - set(json.load(open(out))['passed'])


def verify(b):
    i = b['id']
    d, r = scratch()
    try:
        sd = os.path.join(d, 'bug')
        os.makedirs(sd)
        open(os.path.join(sd, 'demo.py'), 'w').write(HEAD + b['demo'])
        open(os.path.join(sd, 'demo.sh'), 'w').write(DEMO)
        p = demo(sd, r)
        if p.returncode:
            return 'demo fails on the unchanged tree: ' + p.stdout[-600:]
        e = apply(b, r)
        if e:
            return e
        diff = subprocess.run(['git', '-C', r, 'diff'], stdout=subprocess.PIPE, text=True).stdout
        open(os.path.join(sd, 'patch.diff'), 'w').write(diff)
        miss = tests(r)
        if miss:
            return 'stable tests fail: %s' % sorted(miss)
        p = demo(sd, r)
        if p.returncode == 0:
            return 'demo passes with the change'
        json.dump(dict(property=b['property'], needs=b['needs'], what_it_breaks=b['breaks']), open(os.path.join(sd, 'meta.json'), 'w'), indent=1)
        dst = os.path.join(V, 'seeded', i)
        shutil.rmtree(dst, ignore_errors=True)
        shutil.copytree(sd, dst)
        return 'OK   (demo says: %s)' % p.stdout.strip().replace('\n', ' | ')[-150:]
    finally:
        shutil.rmtree(d, ignore_errors=True)


def catch(b):
    d, r = scratch()
    try:
        e = apply(b, r)
        if e:
            return e
        out = []
        for pr in [b['property']] + (b.get('also', []) if os.environ.get('ALSO') else []):
            p = subprocess.run([os.path.join(V, 'check'), pr], env=dict(ENV, MC_REPO=r), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            viol = [l for l in p.stdout.splitlines() if l.startswith('VIOLATION')]
            out.append('%s %s' % (pr, 'CAUGHT' if p.returncode == 1 and viol else 'MISSED rc=%d' % p.returncode) + ' ' + p.stdout.strip().split('\n')[1 if viol and len(p.stdout.strip().split('\n')) > 1 else 0][:200])
        return '; '.join(out)
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == '__main__':
    ids = sys.argv[2:]
    if ids and not [b for b in BUGS if b['id'] in ids]:
        ids = [b['id'] for b in BUGS if b['property'] in ids]
    if sys.argv[1] == 'verify':
        from concurrent.futures import ThreadPoolExecutor
        bs = [b for b in BUGS if not ids or b['id'] in ids]
        with ThreadPoolExecutor(6) as ex:
            for b, res in zip(bs, ex.map(verify, bs)):
                print('%-28s %s' % (b['id'], res), flush=True)
    else:
        for b in BUGS:
            if not ids or b['id'] in ids:
                print('%-28s %s' % (b['id'], catch(b)), flush=True)
