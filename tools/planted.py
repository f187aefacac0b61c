#!/usr/bin/env python3
"""Confirm planted bugs in scratch copies of /repo and run the property's check on each.

usage: planted.py [-j N] [--no-check] [--all-checks] [ID...]

For every seeded/<id>: copy /repo, bind the copy over /repo in a mount namespace of its own,
demo must pass, apply the patch, build, stable tests must pass, demo must fail; then the quick
check of the property runs with ULZ_REPO set to the patched copy and must exit 1.
"""
import json, os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
STABLE = json.load(open('/opt/vp/BASELINE.json'))

def stable():
    b = STABLE
    for k in ('stable', 'pass', 'passed', 'tests'):
        if isinstance(b, dict) and k in b:
            b = b[k]
    if isinstance(b, dict):
        b = [k for k, v in b.items() if v in (True, 'pass', 'passed')]
    return set(b)

def sh(cmd, t=900, env=None):
    try:
        p = subprocess.run(cmd, capture_output=True, text=True, timeout=t, errors='replace', env=env)
        return p.returncode, p.stdout + p.stderr
    except subprocess.TimeoutExpired:
        return 124, 'timeout'

def inns(copy, cmd, t=900):
    return sh(['unshare', '-rm', 'bash', '-c', 'mount --bind %s /repo && cd /repo && %s' % (copy, cmd)], t)

def one(sid, check=True):
    d = os.path.join(V, 'seeded', sid)
    meta = json.load(open(d + '/meta.json'))
    tmp = tempfile.mkdtemp(prefix='pl.', dir='/tmp')
    os.chmod(tmp, 0o755)
    try:
        copy = tmp + '/repo'
        subprocess.check_call(['cp', '-a', '/repo', copy])
        seed = tmp + '/s'
        shutil.copytree(d, seed)
        for f in os.listdir(seed):
            if f.endswith('.diff') or f == 'meta.json':
                os.unlink(seed + '/' + f)
        rc, out = inns(copy, 'bash /opt/vp/build.sh >/dev/null 2>&1; bash %s/demo.sh' % seed, 300)
        if rc: return sid, 'DEMO-FAILS-CLEAN', out[-600:]
        rc, out = sh(['git', '-C', copy, 'apply', d + '/patch.diff'])
        if rc: return sid, 'NO-APPLY', out
        rc, out = inns(copy, 'bash /opt/vp/build.sh')
        if rc: return sid, 'NO-BUILD', out[-600:]
        rc, out = inns(copy, 'bash %s/demo.sh' % seed, 300)
        if rc == 0: return sid, 'DEMO-PASSES-PATCHED', ''
        dem = rc
        rc, out = inns(copy, 'bash /opt/vp/test.sh %s/t.json' % tmp)
        try:
            t = json.load(open(tmp + '/t.json'))
        except Exception as e:
            return sid, 'NO-TESTS', out[-400:]
        bad = stable() - passed(t)
        if bad: return sid, 'TESTS-FAIL', ' '.join(sorted(bad))
        if not check: return sid, 'OK', 'demo %d' % dem
        env = dict(os.environ, ULZ_REPO=copy, VERIF_SEED='1', VERIF_TIER='quick')
        rc, out = sh([V + '/check', meta['property'], 'quick'], 900, env)
        v = re.search(r'^VIOLATION property=%s .*$' % meta['property'], out, re.M)
        return sid, ('caught' if rc == 1 and v else 'MISSED rc=%d' % rc), (v.group(0) if v else out[-300:])
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

def passed(t):
    for k in ('passed', 'pass'):
        if isinstance(t, dict) and isinstance(t.get(k), list):
            return set(t[k])
    if isinstance(t, dict):
        t = t.get('tests', t.get('results', t))
    if isinstance(t, dict):
        return {k for k, v in t.items() if v in (True, 'pass', 'passed', 'PASS')}
    return {x.get('id') or x.get('name') for x in t if x.get('status', x.get('outcome', x.get('result'))) in ('pass', 'passed', 'PASS', True)}

if __name__ == '__main__':
    a = sys.argv[1:]
    j, chk = 3, True
    if '-j' in a:
        i = a.index('-j'); j = int(a[i + 1]); del a[i:i + 2]
    if '--no-check' in a:
        a.remove('--no-check'); chk = False
    ids = a or sorted(os.listdir(V + '/seeded'))
    with ThreadPoolExecutor(j) as ex:
        for sid, r, info in ex.map(lambda s: one(s, chk), ids):
            print('%-28s %-20s %s' % (sid, r, info), flush=True)
