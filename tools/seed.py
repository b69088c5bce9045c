#!/usr/bin/env python3
"""try seeded bugs in a scratch copy of /repo: seed.py [--all-checks] ID...   (builds, tests, runs demo with/without, runs the property's check)
   seed.py --edit ID   prepares /tmp/seed-ID (a scratch tree to edit); seed.py --save ID writes patch.diff from it"""
import sys, os, subprocess, shutil, json, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)
def prep(t):
    sh('rm -rf %s && mkdir -p %s && git -C /repo archive HEAD | tar -x -C %s && cd %s && git init -q && git add -A && git -c user.name=a -c user.email=a@b commit -qm base' % (t, t, t, t))
def build(t):
    s = open('/opt/vp/build.sh').read().replace('/repo', t)
    open(t + '.build.sh', 'w').write(s)
    return sh('bash %s.build.sh' % t)
def test(t):
    s = open('/opt/vp/test.sh').read().replace('/repo', t).replace('/opt/vp/build.sh', t + '.build.sh')
    open(t + '.test.sh', 'w').write(s)
    sh('flock /tmp/seed-test.lock bash %s.test.sh %s.out.json' % (t, t))
    d = json.load(open(t + '.out.json'))
    base = json.load(open('/opt/vp/BASELINE.json'))
    want = base.get('stable') or base.get('passed') or base.get('stable_tests') or []
    want = [w if isinstance(w, str) else w.get('name') for w in want]
    return sorted(set(want) - set(d['passed'])), len(d['passed'])
def clean(t):
    for s in ('', '.build.sh', '.test.sh', '.out.json'):
        sh('rm -rf %s%s' % (t, s))
if sys.argv[1] == '--edit':
    prep('/tmp/seed-' + sys.argv[2]); sys.exit()
if sys.argv[1] == '--save':
    i = sys.argv[2]; t = '/tmp/seed-' + i
    os.makedirs(V + '/seeded/' + i, exist_ok=True)
    d = sh('git -C %s diff' % t).stdout
    open(V + '/seeded/%s/patch.diff' % i, 'wb').write(d); print(d.decode()); clean(t); sys.exit()
args = sys.argv[1:]
opt = [a for a in args if a.startswith('--')]
for i in [a for a in args if not a.startswith('--')]:
    d = V + '/seeded/' + i; t = '/tmp/seedrun-%s-%d' % (i, os.getpid())
    m = json.load(open(d + '/meta.json'))
    prep(t)
    dd = t + '.demo'; shutil.rmtree(dd, ignore_errors=True); shutil.copytree(d, dd, ignore=shutil.ignore_patterns('*.diff', 'meta.json'))
    line = [i, m['property']]
    if '--check-only' not in opt:
        build(t)
        r0 = sh('bash %s/demo.sh' % dd, cwd=t)
        line.append('demo-clean=%d' % r0.returncode)
        if r0.returncode: print(r0.stdout.decode()[-1500:])
    a = sh('git -C %s apply %s/patch.diff' % (t, d))
    if a.returncode: print(i, 'PATCH DOES NOT APPLY', a.stdout.decode()); clean(t); continue
    if '--check-only' not in opt:
        b = build(t)
        if b.returncode: print(i, 'BUILD FAILS', b.stdout.decode()[-2000:]); clean(t); continue
        miss, n = test(t)
        line.append('tests-lost=%s/%d' % (miss[:3], n))
        r1 = sh('bash %s/demo.sh' % dd, cwd=t)
        line.append('demo-bug=%d' % r1.returncode)
        if r1.returncode: line.append(r1.stdout.decode().strip().split('\n')[-1][:150])
    props = [m['property']]
    for p in props:
        t0 = time.time()
        c = sh('python3 %s/checks/%s.py' % (V, p.lower()), env=dict(os.environ, VERIF_REPO=t, VERIF_BUILD=t + '/_vb', VERIF_SEED='1', VERIF_TIER='quick'))
        out = c.stdout.decode()
        ok = c.returncode == 1 and ('VIOLATION property=%s ' % p) in out
        line.append('%s rc=%d %s %.0fs' % (p, c.returncode, 'CAUGHT' if ok else 'MISSED', time.time() - t0))
        if c.returncode not in (0, 1): line.append(out[-1500:])
    print(' | '.join(line), flush=True)
    clean(t); sh('rm -rf ' + dd)
