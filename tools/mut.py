# usage: mut.py PROP[,PROP] file  old new [old new ...]  -- each mutant separately, NOCON unless CON=1; works on a scratch copy
import subprocess,sys,os,shutil,tempfile
props,f=sys.argv[1:3]; pairs=list(zip(sys.argv[3::2],sys.argv[4::2]))
d=tempfile.mkdtemp(prefix='mr-'); subprocess.run(['cp','-a','/repo',d+'/r'])
ev=tempfile.mkdtemp(prefix='ev-',dir=d)
try:
  p=d+'/r/'+f; s=open(p).read()
  for o,n in pairs:
    if s.count(o)<1: print('NOT FOUND',o); continue
    open(p,'w').write(s.replace(o,n,1))
    for prop in props.split(','):
        env={**os.environ,'PYVC_REPO':d+'/r','PYVC_EV':ev}
        if not os.environ.get('CON'): env['PYVC_NOCON']='1'
        r=subprocess.run(['/opt/venv/bin/python','check.py',prop,'-v']+(['--only',os.environ['ONLY']] if os.environ.get('ONLY') else []),cwd='/verif',capture_output=True,text=True,env=env)
        L=[l for l in r.stdout.splitlines() if 'VIOLATION' in l or 'unsupported:' in l or 'exit' in l]
        print(repr(o[:50]),'->',repr(n[:50]),'|',' ; '.join(x[:100].replace('property=','').replace('replay=','') for x in L),flush=True)
    open(p,'w').write(s)
finally: shutil.rmtree(d)
