import json,glob,os,subprocess
T='''yangtypes.py 1618 delassign C05 C09
yangtypes.py 1627 iffalse C05 C09
yangtypes.py 1659 delcall C05 C09
yangtypes.py 1545 cmp C20
yangtypes.py 1540 drop2 C20
yangtypes.py 1540 drop1 C20
yangtypes.py 859 delraise C20
yangtypes.py 1459 drop0 C20
yangtypes.py 1508 delassign C20
yangtypes.py 1483 delassign C20
yangtypes.py 949 iffalse C12
yangtypes.py 992 const C12 C22
yangtypes.py 1021 const C12 C22 C10
serialise.py 158 iffalse C20
serialise.py 866 const C15 C12
serialise.py 682 bool C18
serialise.py 199 delassign C14
serialise.py 495 bool C17
serialise.py 893 drop1 C18
serialise.py 764 const C15 C19
xpathhelper.py 361 delassign C19
xpathhelper.py 150 delassign C19 C20
xpathhelper.py 209 delctl C20
xpathhelper.py 174 iffalse C19
pybindJSON.py 109 delassign C17
pybind.py 404 iffalse C05
pybind.py 518 iftrue C05
pybind.py 436 iftrue C01
pybind.py 631 const C06 C07
pybind.py 1717 const C07
pybind.py 1814 const C07
pybind.py 1788 iftrue C07
pybind.py 1784 drop1 C07 C06
pybind.py 688 delassign C07
pybind.py 669 delcall C06 C03
pybind.py 617 delcall C05 C02
pybind.py 1443 const C03
pybind.py 1389 drop0 C03'''
R='/tmp/mut/r0'; V='/tmp/mut/v0'
for d in (R,V): subprocess.run(['rm','-rf',d])
subprocess.check_call(['git','clone','-q','/tmp/rw',R])
subprocess.check_call('rsync -a --exclude .git --exclude evidence --exclude replays --exclude seeded /tmp/vw/ %s/'%V,shell=True)
M={}
for g in sorted(glob.glob('/tmp/mut/A*.jsonl')):
    for l in open(g):
        o=json.loads(l)
        if o['ok']: M.setdefault((o['f'].split('/')[-1],o['line'],o['what']),[]).append(o)
env=dict(os.environ,PYTHONDONTWRITEBYTECODE='1',VERIF_REPO=R,PATH='/usr/bin:/bin',PBT_FAST='1')
for l in T.splitlines():
    f,ln,what,*cs=l.split()
    for o in M.get((f,int(ln),what),[]):
        p=os.path.join(R,o['f']); orig=open(p,'rb').read()
        assert orig[o['s']:o['e']].decode()==o['old']
        open(p,'wb').write(orig[:o['s']]+o['new'].encode()+orig[o['e']:])
        res='SURVIVED'
        try:
            for c in cs:
                r=subprocess.run(['nice','-n','19','timeout','600','python3','run.py',c,'--shards','8'],cwd=V,env=env,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True)
                if r.returncode==1: res='CAUGHT '+c; break
                if r.returncode: res+=' odd%d'%r.returncode
        finally: open(p,'wb').write(orig)
        print(res,f,ln,what,o['old'][:60].replace('\n',' '),'->',o['new'][:60],flush=True)
