"""plant.py DEF.py...: each defines ID, PROP, EDITS=[(file,old,new)], NEEDS, BREAKS, DEMO (python source)."""
import sys,os,subprocess,json,shutil,runpy
W='/tmp/p/m2'
for d in sys.argv[1:]:
    m=runpy.run_path(d); out='/verif/seeded/'+m['ID']
    if not os.path.isdir(W): subprocess.run(['cp','-a','/repo',W],check=True)
    subprocess.run('cd %s && git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD'%W,shell=True,check=True)
    for f,o,n in m['EDITS']:
        p=os.path.join(W,f); s=open(p).read(); assert s.count(o)==1,(f,s.count(o),o)
        open(p,'w').write(s.replace(o,n))
    os.makedirs(out,exist_ok=True)
    diff=subprocess.run('git diff',shell=True,cwd=W,capture_output=True,text=True).stdout
    open(out+'/patch.diff','w').write(diff)
    shutil.copy('/tmp/p/plant/kit.py',out); shutil.copy('/tmp/p/plant/demo.sh',out); os.chmod(out+'/demo.sh',0o755)
    open(out+'/demo.py','w').write(m['DEMO'])
    json.dump(dict(property=m['PROP'],needs=m['NEEDS'],what_it_breaks=m['BREAKS']),open(out+'/meta.json','w'),indent=1)
    nat=any(f.endswith(('.f','.pyx','.c')) for f,_,_ in m['EDITS'])
    if nat: subprocess.run('cd %s && bash -c "make >/dev/null 2>&1; /opt/venv/bin/python setup.py build_ext -i >/dev/null 2>&1"'%W,shell=True)
    r=[]
    for cwd in ('/repo',W):
        p=subprocess.run(['bash',out+'/demo.sh'],cwd=cwd,capture_output=True,text=True)
        r.append(p.returncode); 
        if (cwd=='/repo')!=(p.returncode==0): print(p.stdout[-600:],p.stderr[-1500:])
        elif cwd==W: print(p.stdout[-200:].strip(), p.stderr[-300:].strip())
    print(m['ID'],'demo clean/patched',r)
    env=dict(os.environ,VERIF_REPO=W)
    for c in m['PROP'].split(',')+list(m.get('ALSO',[])):
        o=subprocess.run(['python3','check.py','run',c,'--tier','quick'],cwd='/verif',env=env,capture_output=True,text=True).stdout.strip().splitlines()
        print('  ',c,'|'.join(o[-4:])[:360])
