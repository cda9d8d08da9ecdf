"""mutb.py WORKER NWORKERS SECONDS: run checks on the survivors of the tests."""
import json, glob, os, subprocess, sys, time
w, nw, end = int(sys.argv[1]), int(sys.argv[2]), time.time() + float(sys.argv[3])
R = '/tmp/mut/r%d' % w; V = '/tmp/mut/v%d' % w
for d in (R, V): subprocess.run(['rm', '-rf', d])
subprocess.check_call(['git', 'clone', '-q', '/tmp/rw', R])
subprocess.check_call('rsync -a --exclude .git --exclude evidence --exclude replays --exclude seeded /tmp/vw/ %s/' % V, shell=True)
PRI = {'pyangbind/lib/yangtypes.py': '12 13 09 08 20 03 04 05 22 19 18', 'pyangbind/lib/serialise.py': '15 16 18 17 14 11 23 22', 'pyangbind/lib/pybindJSON.py': '18 17 14', 'pyangbind/lib/xpathhelper.py': '19 20', 'pyangbind/lib/base.py': '09 17 11 15 22', 'pyangbind/plugin/pybind.py': '01 02 07 06 05 03 09 08 22 10 21 20 19'}
hits = {}
env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', VERIF_REPO=R, PATH='/usr/bin:/bin', PBT_FAST='1')
log = open('/tmp/mut/B%d.txt' % w, 'a')
done = set()
for g in glob.glob('/tmp/mut/B*.txt'):
    for l in open(g): done.add(l.split('\t')[1])
skip = set(open('/tmp/mut/skip.txt').read().split('\n')) if os.path.exists('/tmp/mut/skip.txt') else set()
L = []
for g in sorted(glob.glob('/tmp/mut/A*.jsonl')):
    for l in open(g):
        o = json.loads(l)
        key = '%s:%d:%s' % (o['f'].split('/')[-1], o['line'], o['what'])
        if o['ok'] and o['id'] not in done and key not in skip: L.append(o)
for o in L[w::nw]:
    if time.time() > end: break
    f = o['f']; p = os.path.join(R, f)
    orig = open(p, 'rb').read()
    assert orig[o['s']:o['e']].decode() == o['old'], o
    open(p, 'wb').write(orig[:o['s']] + o['new'].encode() + orig[o['e']:])
    caught, odd = None, []
    try:
        order = ['C' + x for x in PRI[f].split()]
        for c in order:
            r = subprocess.run(['nice', '-n', '12', 'timeout', '400', 'python3', 'run.py', c, '--shards', '4'], cwd=V, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode == 1: caught = c; break
            if r.returncode: odd.append((c, r.returncode, r.stdout[-200:]))
    finally:
        open(p, 'wb').write(orig)
    print('%s\t%s\t%s %r -> %r\t%s' % ('CAUGHT ' + caught if caught else 'SURVIVED', o['id'], o['what'], o['old'][:100], o['new'][:100], odd or ''), file=log, flush=True)
