"""seed.py ID  -- validate /verif/seeded/ID quickly against /repo (apply, build, demo, tests, check, undo)."""
import subprocess, sys, json, os
ids = sys.argv[1:]
opts = [i for i in ids if i.startswith('-')]
ids = [i for i in ids if not i.startswith('-')]
def sh(c, t=900):
    p = subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t, cwd='/repo')
    return p.returncode, p.stdout
base = json.load(open('/opt/vp/BASELINE.json'))
def stable(o):
    for k in ('stable', 'passed', 'pass', 'stable_pass', 'tests'):
        if k in o: return o[k]
    raise SystemExit(list(o))
for i in ids:
    d = '/verif/seeded/' + i
    meta = json.load(open(d + '/meta.json'))
    demo = 'cp -r %s /tmp/demo_%s; cd /repo; bash /tmp/demo_%s/demo.sh; r=$?; rm -rf /tmp/demo_%s; exit $r' % (d, i, i, i)
    assert sh('git status --porcelain')[1].strip() == '', 'dirty'
    r0, o0 = sh(demo)
    try:
        r, o = sh('git apply %s/patch.diff' % d)
        if r: print(i, 'NO APPLY', o); continue
        rb, ob = sh('bash /opt/vp/build.sh')
        r1, o1 = sh(demo)
        res = ''
        if '-notest' not in opts:
            rt, ot = sh('bash /opt/vp/test.sh /tmp/out.json')
            got = json.load(open('/tmp/out.json'))
            a, b = set(map(str, stable(base))), set(map(str, stable(got)))
            res = 'missing tests: %s' % sorted(a - b)[:5]
        rc = []
        if '-nocheck' not in opts:
            rc_, oc = sh('cd /verif && VERIF_SEED=1 VERIF_TIER=quick python3 run.py %s' % meta['property'])
            rc = [rc_, oc.strip().splitlines()[-2:] ]
    finally:
        sh('git checkout -- .'); sh('bash /opt/vp/build.sh')
    print(i, meta['property'], 'demo clean=%s patched=%s build=%s' % (r0, r1, rb), res)
    if r0: print(o0[-800:])
    if not r1: print('DEMO DID NOT FAIL', o1[-800:])
    print('    check:', rc and rc[0], *[x[:400] for x in (rc[1] if rc else [])])
