import os,subprocess,sys
s=open('/tmp/mut/mutk.py').read(); i=s.index("if nw==0")
exec(s[:i].replace("sys.argv[1]","'9'").replace("sys.argv[2]","'0'"))
b={f:open('/tmp/rw/'+f,'rb').read() for f in FS}
T='''serialise 545 extmethods= C21
serialise 545 extmethods= C21
serialise 640 extmethods= C21
serialise 783 extmethods= C21
serialise 633 extmethods= C21 C19
serialise 783 path_helper= C19
serialise 545 path_helper= C19
serialise 640 path_helper= C19
pybindJSON 74 extmethods= C21
pybindJSON 74 path_helper= C19
pybindJSON 74 overwrite= C18
pybindJSON 64 overwrite= C18
pybindJSON 55 overwrite= C18
pybindJSON 82 overwrite= C18
pybindJSON 164 filter= C17
pybindJSON 164 skip_subtrees= C17
pybindJSON 164 indent= C17
pybindJSON 105 with_defaults= C17
serialise 483 with_defaults= C17
serialise 490 with_defaults= C17
serialise 490 flt= C17
serialise 483 flt= C17
serialise 483 parent_namespace= C15 C16
serialise 434 flt= C17 C16
serialise 441 filter= C17 C16
serialise 442 pretty_print= C16 C17
serialise 521 remove_comments= C16
serialise 521 remove_pis= C16
serialise 521 remove_blank_text= C16
serialise 673 skip_unknown= C18
serialise 717 skip_unknown= C18
serialise 838 skip_unknown= C18
serialise 883 skip_unknown= C18
serialise 837 overwrite= C18
serialise 882 overwrite= C18
yangtypes 773 parent= C12 C08
yangtypes 776 path_helper= C19
yangtypes 698 parent= C12 C22
yangtypes 815 load= C12
yangtypes 828 register_path= C19
yangtypes 829 extmethods= C21
yangtypes 830 extensions= C21
yangtypes 831 choice= C10
yangtypes 843 register_path= C19
yangtypes 844 extmethods= C21
yangtypes 845 load= C12 C22
yangtypes 846 extensions= C21
yangtypes 847 choice= C10
yangtypes 854 load= C12
yangtypes 877 register_paths= C19
yangtypes 878 extmethods= C21
yangtypes 879 extensions= C21
yangtypes 880 choice= C10
yangtypes 997 filter= C17 C09
yangtypes 1320 choice= C10 C13
yangtypes 1450 caller= C20
yangtypes 1483 caller= C20
yangtypes 1515 caller= C20
xpathhelper 184 normalise_namespace= C19 C20
xpathhelper 363 caller= C19
pybind 484 register_paths= C19 C01
pybind 498 register_paths= C19 C01
pybind 484 path= C01
pybind 498 path= C01
pybind 736 parent_cfg= C01
pybind 748 parent_cfg= C01
pybind 834 parent_cfg= C01
pybind 1651 parent_cfg= C01
pybind 737 choice= C10
pybind 749 choice= C10
pybind 835 choice= C10
pybind 738 register_paths= C19
pybind 750 register_paths= C01
pybind 836 register_paths= C19
pybind 1652 register_paths= C19
yangtypes 1311 default C13 C09
yangtypes 1386 default C11
base 31 default C09 C11
base 49 filter= C09 C17
pybind 1812 native_type= C07'''
R='/tmp/mut/r2'
subprocess.run(['rm','-rf',R]); subprocess.check_call(['git','clone','-q','/tmp/rw',R])
V='/tmp/mut/v2'; subprocess.run(['rm','-rf',V]); subprocess.check_call('rsync -a --exclude .git --exclude evidence --exclude replays --exclude seeded /tmp/vw/ %s/'%V,shell=True)
env=dict(os.environ,PYTHONDONTWRITEBYTECODE='1',VERIF_REPO=R,PATH='/usr/bin:/bin',PBT_FAST='1')
for l in T.splitlines():
    f,ln,pat,*cs=l.split()
    ms=[m for m in ALL if m[0].endswith('/'+f+'.py') and m[5]==int(ln) and (m[4].startswith('default') if pat=='default' else m[4]=='delkw '+pat[:-1])]
    for m in ms:
        p=os.path.join(R,m[0]); orig=open(p,'rb').read()
        open(p,'wb').write(orig[:m[1]]+m[3].encode()+orig[m[2]:])
        res='SURVIVED'
        try:
            for c in cs:
                r=subprocess.run(['nice','-n','19','timeout','600','python3','run.py',c,'--shards','3'],cwd=V,env=env,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True)
                if r.returncode==1: res='CAUGHT '+c; break
                if r.returncode: res='ERR '+c+r.stdout[-200:]; break
        finally: open(p,'wb').write(orig)
        print(res,l,flush=True)
