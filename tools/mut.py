"""mut.py CHECK[,CHECK] file 'old' 'new' [runs]"""
import sys,subprocess,os
checks,f,old,new=sys.argv[1:5]
M='/tmp/p/m1'
subprocess.run('cd %s && git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD'%M,shell=True)
p=os.path.join(M,f); s=open(p).read()
old=old.encode().decode('unicode_escape'); new=new.encode().decode('unicode_escape')
assert s.count(old)>=1,(s.count(old),old)
open(p,'w').write(s.replace(old,new,1))
env=dict(os.environ,VERIF_REPO=M)
if len(sys.argv)>5: env['VERIF_RUNS']=sys.argv[5]
for c in checks.split(','):
    o=subprocess.run(['python3','check.py','run',c,'--tier','quick'],cwd='/verif',env=env,capture_output=True,text=True).stdout.strip().splitlines()
    print(c,'|'.join(o[-4:])[:330])
subprocess.run('cd %s && git checkout -q -- .'%M,shell=True)
