#!/usr/bin/env python3
"""Development aid: validates the planted bugs and shows which checks catch them. No check uses this.
seedrun.py [--checks C01,C02|own|all|none] [ids...]"""
import json, os, subprocess, sys, tempfile, shutil, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); SD = os.environ.get('SEEDS', V + '/seeded')
def run(c, **k): return subprocess.run(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def passed():
    o = tempfile.mktemp(suffix='.json'); run(['bash', '/opt/vp/test.sh', o]); d = json.load(open(o)); os.remove(o); return d
base = json.load(open('/opt/vp/BASELINE.json'))
stable = base.get('stable') or base.get('tests') or base.get('passed') or base
def ok_tests():
    if run(['bash', '/opt/vp/build.sh']).returncode: return 'BUILD FAILS'
    d = passed(); p = d.get('passed', d)
    p = set(p) if isinstance(p, list) else {k for k, v in p.items() if v in ('pass', 'passed', True)}
    s = set(stable) if isinstance(stable, (list, dict)) else set()
    return 'ok' if s <= p else 'TESTS FAIL %s' % sorted(s - p)[:4]
def demo(d):
    t = tempfile.mkdtemp()
    for f in os.listdir(d):
        if f not in ('patch.diff', 'meta.json'): shutil.copy(os.path.join(d, f), t)
    r = run(['bash', os.path.join(t, 'demo.sh')], cwd='/repo', timeout=300); shutil.rmtree(t); return r
a = sys.argv[1:]; checks = 'own'
if a and a[0] == '--checks': checks = a[1]; a = a[2:]
ids = a or sorted(os.listdir(SD))
for i in ids:
    d = SD + '/' + i; m = json.load(open(d + '/meta.json'))
    r0 = demo(d)
    if run(['git', '-C', '/repo', 'status', '--porcelain']).stdout: sys.exit('/repo is not clean')
    if run(['git', '-C', '/repo', 'apply', d + '/patch.diff']).returncode: print(i, 'PATCH DOES NOT APPLY', flush=True); continue
    try:
        t = ok_tests() if checks != 'skip' else '-'
        r1 = demo(d)
        cs = {'own': [m['property']], 'skip': [m['property']], 'none': [], 'all': ['C%02d' % k for k in range(1, 22)]}.get(checks) or checks.split(',')
        if checks == 'none': cs = []
        res = []
        for c in cs:
            t0 = time.time(); r = run(['python3', V + '/check.py', c, 'quick'], cwd=V)
            v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
            res.append('%s:%s(%ds)' % (c, 'CAUGHT' if r.returncode == 1 and v else 'missed' if r.returncode == 0 else 'rc%d %s' % (r.returncode, r.stdout[-300:]), time.time() - t0))
    finally:
        run(['git', '-C', '/repo', 'checkout', '--', '.'])
    print(i, m['property'], 'tests', t, 'demo', r0.returncode, '->', r1.returncode, 'BAD-DEMO ' + r0.stdout[-300:] if r0.returncode else '', 'DEMO-PASSES' if not r1.returncode else '', *res, flush=True)
