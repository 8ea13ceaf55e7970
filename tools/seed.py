"""seed.py FILE...: each FILE defines ID, PROP, EDITS, DEMO, NEEDS, BREAKS"""
import sys, os, subprocess, json, shutil, runpy, concurrent.futures as cf
V='/verif/seeded'
def sh(c, cwd, env=None, t=900):
    return subprocess.run(c, shell=True, cwd=cwd, env=env, capture_output=True, text=True, timeout=t)
def envf(w):
    e=dict(os.environ); e.pop('PYTHONPATH',None)
    e.update(PYTHONPYCACHEPREFIX=w+'/pyc', NUMBA_CACHE_DIR=w+'/numba', PYTHONHASHSEED='0', MPLBACKEND='Agg', OMP_NUM_THREADS='1', PYTHONWARNINGS='ignore')
    return e
def go(f):
    s=runpy.run_path(f); i=s['ID']; w='/tmp/w/'+i
    shutil.rmtree(w, ignore_errors=True); os.makedirs(w)
    sh('git archive HEAD | tar x -C %s && cd %s && git init -q . && git add -A && git -c user.name=a -c user.email=a@b commit -qm x'%(w,w),'/repo')
    for (p,a,b) in s.get('EDITS',[]):
        t=open(w+'/'+p,newline='').read()
        if '\r\n' in t: a=a.replace('\n','\r\n'); b=b.replace('\n','\r\n')
        if t.count(a)<1: return i+': text not found: '+a[:80]
        n = s.get('COUNT',1)
        if n==1 and t.count(a)>1: return i+': ambiguous: '+a[:80]
        t=t.replace(a,b); open(w+'/'+p,'w',newline='').write(t)
    for (p,n,a,b) in s.get('LINES',[]):
        L=open(w+'/'+p,newline='').read().split('\n')
        if L[n-1].count(a)!=1: return i+': line text not found: '+L[n-1]
        L[n-1]=L[n-1].replace(a,b); open(w+'/'+p,'w',newline='').write('\n'.join(L))
    diff=subprocess.run(['git','diff'],cwd=w,capture_output=True).stdout
    d='/tmp/seeds/out/'+i; shutil.rmtree(d,ignore_errors=True); os.makedirs(d)
    open(d+'/patch.diff','wb').write(diff)
    open(d+'/demo.sh','w').write('''#!/bin/bash
# run in the repository's root; exit 0 when the property holds
export NUMBA_CACHE_DIR=$(mktemp -d) PYTHONPYCACHEPREFIX=$(mktemp -d) PYTHONWARNINGS=ignore
trap 'rm -rf "$NUMBA_CACHE_DIR" "$PYTHONPYCACHEPREFIX"' EXIT
/opt/venv/bin/python "$(dirname "$0")/demo.py"
''')
    open(d+'/demo.py','w').write('import os, sys\nsys.path.insert(0, os.getcwd())\nimport numpy as np\n'+s['DEMO'].lstrip())
    json.dump({"property":s['PROP'],"needs":s['NEEDS'],"what_it_breaks":s['BREAKS']},open(d+'/meta.json','w'),indent=1)
    e=envf(w+'/.s')
    bad=sh('bash %s/demo.sh'%d,w,e); 
    good=sh('bash %s/demo.sh'%d,'/repo',envf('/tmp/w/.good'))
    r=[]
    if good.returncode!=0: r.append('DEMO FAILS ON CLEAN: '+(good.stderr+good.stdout)[-400:])
    if bad.returncode==0: r.append('DEMO PASSES WITH BUG')
    else: r.append('demo: '+((bad.stderr+bad.stdout).strip().split('\n')[-1])[:150])
    t=sh('/opt/venv/bin/python -m pytest -q -n 2 -p no:cacheprovider interpolation 2>&1 | tail -8; ',w,e)
    base=json.load(open('/opt/vp/BASELINE.json'))['stable']
    fails=[l for l in t.stdout.split('\n') if l.startswith(('FAILED','ERROR'))]
    r.append(t.stdout.strip().split('\n')[-1][:100]); r+=fails
    ok = good.returncode==0 and bad.returncode!=0 and not [x for x in fails if any(x.split('::')[-1].split()[0]==b.split('::')[-1] for b in base)]
    if ok:
        shutil.rmtree(V+'/'+i,ignore_errors=True); shutil.copytree(d,V+'/'+i)
    shutil.rmtree(w,ignore_errors=True)
    return ('KEPT ' if ok else 'REJECTED ')+i+': '+' | '.join(r)
os.makedirs(V,exist_ok=True)
with cf.ThreadPoolExecutor(3) as ex:
    for x in ex.map(go, sys.argv[1:]): print(x, flush=True)
