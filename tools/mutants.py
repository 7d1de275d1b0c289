#!/usr/bin/env python3
"""mutants.py OUT.jsonl FRACTION SEED [path-prefix...]: for a random sample of the syntactic
changes made by tools/mutants, keeps those that build and pass the existing tests and runs
the relevant checks (quick tier) on each, in a private clone of /repo and a private copy of the harness.
One JSON line per change: file, n, what, result (nobuild | tests | caught:ID | survived)."""
import json, os, random, shutil, subprocess, sys, tempfile
ROOT=os.path.abspath(os.path.join(os.path.dirname(os.path.abspath(__file__)),'..'))
ENV=dict(os.environ,HOME='/root',GOTOOLCHAIN='local',GOFLAGS='-mod=mod',GOPROXY='off',GODEBUG='',VERIF_SEED='1')
MAP=[('algorithm/evaluator','T11 T14 T23 T12 T24 T15'),('algorithm/','T23 T14 T13 T12 T24 T15'),('color/','T19'),
 ('fitness/cache','T11 T10 T09 T24'),('fitness/pixels','T09 T10'),('fitness/polygons','T10 T11 T24'),('fitness/triangles','T09 T11 T24'),('fitness/util','T09 T10 T11'),
 ('generator/','T17'),('geom/','T22 T19 T07 T10'),('image/','T18'),('mutation/','T16'),('normgeom/','T22 T16 T17'),('polygonation/','T04 T08 T19 T24'),
 ('random/','T20'),('rasterize/','T07 T08 T19 T09'),('render/','T19 T24'),('triangulation/triangulator','T06 T08 T22 T24'),
 ('triangulation/incrdelaunay/voronoi','T04 T05 T02 T10 T11 T08 T25'),('triangulation/incrdelaunay/polygonmap','T05 T02 T04 T11'),('triangulation/incrdelaunay/','T01 T03 T02 T05 T04 T11 T25'),('utils/','T21 T23')]
def sh(c,cwd,t=300,env=ENV):
    p=subprocess.Popen(c,shell=True,cwd=cwd,env=env,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,start_new_session=True)
    try: o,_=p.communicate(timeout=t); return p.returncode,o
    except subprocess.TimeoutExpired:
        os.killpg(p.pid,9); p.wait(); return 124,'timeout'
out,frac,seed=sys.argv[1],float(sys.argv[2]),int(sys.argv[3]); pre=sys.argv[4:]
t=tempfile.mkdtemp(prefix='mut-'); r=t+'/repo'
try:
    subprocess.run(['git','clone','-q','/repo',r],check=True)
    shutil.copytree(ROOT+'/harness',t+'/harness'); shutil.copy(ROOT+'/known-findings.txt',t); os.makedirs(t+'/evidence')
    m=open(t+'/harness/go.mod').read(); open(t+'/harness/go.mod','w').write(m.replace('=> /repo','=> '+r))
    subprocess.run('go build -o %s/mutants %s/tools/mutants/main.go'%(t,ROOT),shell=True,env=ENV,check=True)
    files=[f for f in subprocess.check_output(['git','-C',r,'ls-files','*.go'],text=True).split() if not f.endswith('_test.go')]
    done={(d['file'],d['n']) for d in map(json.loads,open(out))} if os.path.exists(out) else set()
    todo=[]
    for f in files:
        if pre and not any(f.startswith(p) for p in pre): continue
        for l in subprocess.check_output([t+'/mutants',r+'/'+f],text=True).splitlines():
            n,pos,what=l.split('\t'); todo.append((f,int(n),pos,what))
    rnd=random.Random(seed); rnd.shuffle(todo); todo=[x for x in todo[:int(len(todo)*frac)] if x[:2] not in done]
    print(len(todo),'changes',flush=True)
    orig={}
    for k,(f,n,pos,what) in enumerate(todo):
        p=r+'/'+f
        o=orig.setdefault(f,open(p).read())
        new=subprocess.check_output([t+'/mutants',p,str(n)],text=True)
        open(p,'w').write(new)
        try:
            rc,log=sh('go build ./...',r)
            if rc: res='nobuild'
            else:
                rc,log=sh('ulimit -v 8000000; go test -vet=off ./...',r,90)
                if rc: res='tests'
                else:
                    res='survived'
                    rc,log=sh('go build -o ../h .',t+'/harness')
                    if rc: res='caught:harnessbuild'
                    else:
                        for c in [c for q,c in MAP if f.startswith(q)][0].split():
                            e=dict(ENV,VERIF_ROOT=t); b=t+'/h'
                            lim='ulimit -v 8000000;'
                            if c=='T15':
                                e['MON_RACE']='1'; b=t+'/hr'; lim=''
                                if sh('go build -race -o ../hr .',t+'/harness')[0]: continue
                            rc,log=sh('%s %s run %s quick'%(lim,b,c),t,400,e)
                            if rc: res='caught:'+c+('' if rc==1 else '(%d)'%rc); break
            open(out,'a').write(json.dumps(dict(file=f,n=n,pos=pos,what=what,result=res))+'\n')
        finally: open(p,'w').write(o)
        subprocess.run('rm -rf %s/out /tmp/mon-*-%s'%(t,'x'),shell=True)
finally: shutil.rmtree(t,ignore_errors=True)
