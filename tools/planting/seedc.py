import subprocess, sys, json, os, shutil
notest='-notest' in sys.argv
R='/tmp/sc'
for i in [a for a in sys.argv[1:] if a[0]!='-']:
    d='/verif/seeded/'+i; meta=json.load(open(d+'/meta.json'))
    shutil.rmtree(R,True); subprocess.check_call(['git','clone','-q','/tmp/rw',R])
    shutil.copytree(d,'/tmp/sc_demo',dirs_exist_ok=True)
    def sh(c,cwd=R,env=None):
        p=subprocess.run(c,shell=True,cwd=cwd,env=env,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True); return p.returncode,p.stdout
    r0,o0=sh('bash /tmp/sc_demo/demo.sh')
    r,o=sh('git apply %s/patch.diff'%d); assert not r,o
    r1,o1=sh('bash /tmp/sc_demo/demo.sh')
    env=dict(os.environ,PATH='/opt/venv/bin:/usr/bin:/bin',PYTHONDONTWRITEBYTECODE='1',PYTHONHASHSEED='0',PYTHONPATH=R)
    t='-' if notest else sh('python -m pytest -q -p no:cacheprovider --timeout=300 -o python_files="run.py test_*.py 00_*.py" --ignore=tests/integration --ignore=tests/serialise/openconfig-serialise 2>&1 | tail -4',env=env)[1][-400:]
    rc,oc=sh('VERIF_REPO=%s VERIF_SEED=1 python3 run.py %s'%(R,meta['property']),cwd='/tmp/vw')
    print(i,'clean',r0,'patched',r1,'|',t,'| check',rc,'\n'.join(oc.strip().splitlines()[-2:])[:500])
    if r0: print(o0[-600:])
    shutil.rmtree(R); shutil.rmtree('/tmp/sc_demo')
