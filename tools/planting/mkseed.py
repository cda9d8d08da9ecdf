import os, subprocess, json, shutil, sys
SH = '''#!/bin/bash
# exit 0: the property holds for this example; nonzero: it does not
D=$(cd "$(dirname "$0")" && pwd)
R=$(pwd)
export PATH=/opt/venv/bin:/usr/local/bin:/usr/bin:/bin PYTHONDONTWRITEBYTECODE=1
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
cd "$T"
PYTHONPATH="$R" REPO="$R" python "$D/demo.py"
'''
PRE = '''import importlib.util, json, os, subprocess, sys
REPO = os.environ["REPO"]


def bindings(yang, *flags, name="bindings"):
    """Bindings of {module: text} or of one text, written to and read from the working directory."""
    if isinstance(yang, str):
        yang = {"m": yang}
    for k, v in yang.items():
        with open(k + ".yang", "w") as f:
            f.write(v)
    p = subprocess.run(["pyang", "--plugindir", REPO + "/pyangbind/plugin", "-f", "pybind", "-p", ".", "-o", name + ".py"]
                       + list(flags) + [k + ".yang" for k in yang if not k.startswith("_")],
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    if p.returncode:
        sys.exit("pyang failed: " + p.stderr[-2000:])
    spec = importlib.util.spec_from_file_location(name, name + ".py")
    m = importlib.util.module_from_spec(spec)
    sys.modules[name] = m
    spec.loader.exec_module(m)
    return m


def mod(body, name="m"):
    return 'module %s { yang-version 1.1; namespace "urn:%s"; prefix "%s"; %s }' % (name, name, name, body)


def refused(fn, *a, exc=Exception, **k):
    try:
        fn(*a, **k)
    except exc:
        return True
    return False


'''
def mk(id, prop, edits, demo, needs, breaks):
    d = '/verif/seeded/' + id
    w = '/tmp/mkseed_w'
    subprocess.run(['rm', '-rf', w]); subprocess.run(['git', '-C', '/repo', 'worktree', 'prune'])
    subprocess.check_call(['git', 'clone', '-q', '/repo', w])
    for f, old, new in edits:
        p = os.path.join(w, f); s = open(p).read()
        if s.count(old) != 1: raise SystemExit('%s: %d matches in %s of %r' % (id, s.count(old), f, old))
        open(p, 'w').write(s.replace(old, new))
    diff = subprocess.check_output(['git', '-C', w, 'diff'], text=True)
    # only lines of the original repository
    orig = set()
    for f, _, _ in edits:
        orig |= set(subprocess.check_output(['git', '-C', '/repo', 'show', 'cef15d5:' + f], text=True).splitlines())
    for l in diff.splitlines():
        if l.startswith('-') and not l.startswith('---') and l[1:] not in orig:
            print(id, 'WARNING: removed line is not original:', l)
    os.makedirs(d, exist_ok=True)
    open(d + '/patch.diff', 'w').write(diff)
    open(d + '/demo.sh', 'w').write(SH); os.chmod(d + '/demo.sh', 0o755)
    open(d + '/demo.py', 'w').write(PRE + demo.lstrip('\n'))
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
    subprocess.run(['rm', '-rf', w])
Y = 'pyangbind/lib/yangtypes.py'; P = 'pyangbind/plugin/pybind.py'; S = 'pyangbind/lib/serialise.py'; J = 'pyangbind/lib/pybindJSON.py'; X = 'pyangbind/lib/xpathhelper.py'; B = 'pyangbind/lib/base.py'
