"""mutk.py W NW: keyword arguments that are not passed; tests first."""
import ast, sys, os, json, subprocess, random, time
w, nw = int(sys.argv[1]), int(sys.argv[2])
R='/tmp/mut/k%d'%w
subprocess.run(['rm','-rf',R]); subprocess.check_call(['git','clone','-q','/tmp/rw',R])
FS=['pyangbind/lib/yangtypes.py','pyangbind/lib/base.py','pyangbind/lib/serialise.py','pyangbind/lib/pybindJSON.py','pyangbind/lib/xpathhelper.py','pyangbind/plugin/pybind.py']
ALL=[]
for f in FS:
    src=open(os.path.join(R,f)).read(); b=src.encode()
    ls=[0]
    for l in b.split(b'\n'): ls.append(ls[-1]+len(l)+1)
    off=lambda ln,c: ls[ln-1]+c
    for n in ast.walk(ast.parse(src)):
        if isinstance(n,ast.Call):
            items=list(n.args)+[k.value for k in n.keywords]
            for k in n.keywords:
                if k.arg is None: continue
                s=off(k.lineno,k.col_offset); e=off(k.end_lineno,k.end_col_offset)
                t=e
                rest=b[e:]
                m=len(rest)-len(rest.lstrip())
                if rest.lstrip()[:1]==b',': e2=e+m+1
                else: e2=e
                new=b[:s]+b[e2:]
                # trailing comma before the end is fine in Python
                try: compile(new,f,'exec')
                except SyntaxError: continue
                ALL.append((f,s,e2,'','delkw '+k.arg,k.lineno))
        if isinstance(n,(ast.FunctionDef,)):
            for d in list(n.args.defaults)+[x for x in n.args.kw_defaults if x]:
                if isinstance(d,ast.Constant) and d.value in (True,False,None):
                    new={True:'False',False:'True',None:'True'}[d.value]
                    ALL.append((f,off(d.lineno,d.col_offset),off(d.end_lineno,d.end_col_offset),new,'default '+n.name,d.lineno))
if nw==0: print(len(ALL)); sys.exit()
random.Random(5).shuffle(ALL)
env=dict(os.environ,PATH='/opt/venv/bin:/usr/local/bin:/usr/bin:/bin',PYTHONDONTWRITEBYTECODE='1',PYTHONHASHSEED='0')
log=open('/tmp/mut/K%d.jsonl'%w,'a')
for f,s,e,new,what,line in ALL[w::nw]:
    p=os.path.join(R,f); orig=open(p,'rb').read()
    open(p,'wb').write(orig[:s]+new.encode()+orig[e:])
    try:
        t=subprocess.run('nice -n 10 timeout 300 python -m pytest -q --maxfail=3 -p no:cacheprovider --timeout=60 -o python_files="run.py test_*.py 00_*.py" --ignore=tests/integration --ignore=tests/serialise/openconfig-serialise 2>&1 | tail -1',shell=True,cwd=R,env=env,stdout=subprocess.PIPE,text=True).stdout
        print(json.dumps({'f':f,'s':s,'e':e,'new':new,'old':orig[s:e].decode(),'line':line,'what':what,'ok':'2 failed, 350 passed' in t}),file=log,flush=True)
    finally:
        open(p,'wb').write(orig); subprocess.run('git -C %s clean -fdxq'%R,shell=True)
