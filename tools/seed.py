#!/usr/bin/env python3
# seed.py new ID PROP PKG FILE OLDFILE NEWFILE DEMO NEEDS BREAKS is driven by seed specs: python dicts in a file.
# usage: seed.py SPEC.py   (SPEC defines SEEDS=[dict(id,prop,pkg,edits=[(file,old,new)],needs,breaks,demo)])
import sys,os,subprocess,json,shutil,tempfile
V='/verif'
def run(c,**k): return subprocess.run(c,shell=True,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,**k)
ns={}
exec(open(sys.argv[1]).read(),ns)
only=sys.argv[2:]
for s in ns['SEEDS']:
    if only and s['id'] not in only: continue
    w=tempfile.mkdtemp(prefix='seed'); r=w+'/repo'
    run(f'cp -a /repo {r}')
    ok=True
    for f,a,b in s['edits']:
        t=open(f'{r}/{f}').read()
        if t.count(a)!=1: print(s['id'],'edit does not match once:',f,t.count(a)); ok=False; break
        open(f'{r}/{f}','w').write(t.replace(a,b))
    if not ok: continue
    d=f"{V}/seeded/{s['id']}"
    if os.path.exists(d): shutil.rmtree(d)
    os.makedirs(d)
    open(d+'/patch.diff','w').write(subprocess.run('git diff',shell=True,cwd=r,stdout=subprocess.PIPE,text=True).stdout)
    open(d+'/demo.sh','w').write(open(V+'/tools/demo.sh').read().replace('@PKG@',s['pkg'])); os.chmod(d+'/demo.sh',0o755)
    open(d+'/demo_test.go','w').write(s['demo'])
    json.dump(dict(property=s['prop'],needs=s['needs'],what_it_breaks=s['breaks']),open(d+'/meta.json','w'),indent=1)
    # demo on clean tree
    c=run(f'bash {d}/demo.sh',cwd='/repo'); 
    if c.returncode!=0: print(s['id'],'demo FAILS on clean tree\n',c.stdout[-1500:]); 
    m=run(f'bash {d}/demo.sh',cwd=r)
    if m.returncode==0: print(s['id'],'demo PASSES with bug')
    elif 'FAIL' not in m.stdout and 'panic' not in m.stdout: print(s['id'],'odd demo output',m.stdout[-500:])
    if 'build failed' in m.stdout or 'setup failed' in m.stdout: print(s['id'],m.stdout[-800:])
    # stable tests
    t=run('. /opt/vp/env.sh; go test -vet=off -count=1 -skip "^TestCheckRingSignature$" -json ./...',cwd=r)
    base=json.load(open('/opt/vp/BASELINE.json'))
    fails=[json.loads(l).get('Test') for l in t.stdout.splitlines() if l.startswith('{') and json.loads(l).get('Action')=='fail']
    stable=json.dumps(base)
    bad=[f for f in fails if f and f in stable]
    if bad: print(s['id'],'breaks stable tests',bad)
    if 'build failed' in t.stdout: print(s['id'],'does not build')
    k=run(f'VERIF_REPO={r} bash {V}/check.sh {s["prop"]}',cwd=V)
    print(s['id'],s['prop'],'clean',c.returncode,'bug',m.returncode,'CAUGHT' if k.returncode==1 and 'VIOLATION' in k.stdout else f'MISSED rc={k.returncode}', [l for l in k.stdout.splitlines() if l.startswith('  ') and ': ' in l and 'paths=' not in l][:1], k.stdout.splitlines()[-1:] )
    sys.stdout.flush()
    shutil.rmtree(w)
