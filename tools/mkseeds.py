#!/usr/bin/env python3
"""mkseeds.py SPEC.py... : makes /verif/seeded/<id>/ from planted-bug specifications and
confirms each in a scratch copy of /repo (builds, tests pass, demo passes without and
fails with it). A SPEC defines BUGS = {id: dict(property, edits=[(file, old, new)], demo, needs, breaks[, race])}."""
import json, os, shutil, subprocess, sys, tempfile
ROOT=os.path.abspath(os.path.join(os.path.dirname(os.path.abspath(__file__)),'..'))
ENV=dict(os.environ,HOME='/root',GOTOOLCHAIN='local',GOFLAGS='-mod=mod',GOPROXY='off')
DEMO='''#!/bin/bash
# Run in a tree of Triangula: exit 0 if the property holds in the demonstrated case.
d=$(cd "$(dirname "$0")" && pwd)
export HOME=${HOME:-/root} GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
echo '{"Replace":{"'"$PWD"'/zz_demo/main.go":"'"$d"'/demo.go"}}' >"$t/overlay.json"
go build %s -overlay "$t/overlay.json" -o "$t/demo" ./zz_demo || exit 5
cd "$t" && timeout 120 ./demo
'''
def sh(cmd,cwd,**k): return subprocess.run(cmd,shell=True,cwd=cwd,env=ENV,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,**k)
def tests(cwd):
    return sh('go build ./... && go test -vet=off -count=1 ./... ',cwd)
only=None
specs=[]
args=sys.argv[1:]
for a in args:
    if a.startswith('only='): only=a[5:].split(',')
    else: specs.append(a)
for s in specs:
    g={}
    exec(open(s).read(),g)
    for id,b in g['BUGS'].items():
        if only and id not in only: continue
        wt=tempfile.mkdtemp(prefix='wt-')
        try:
            subprocess.run(['git','clone','-q','/repo',wt+'/r'],check=True)
            r=wt+'/r'
            d=os.path.join(ROOT,'seeded',id); os.makedirs(d,exist_ok=True)
            open(d+'/demo.go','w').write(b['demo'].lstrip('\n'))
            open(d+'/demo.sh','w').write(DEMO%('-race' if b.get('race') else ''))
            clean=sh('gofmt -w %s/demo.go; bash %s/demo.sh'%(d,d),r)
            bad=False
            for f,old,new in b['edits']:
                t=open(r+'/'+f).read()
                if t.count(old)!=1: print(id,'EDIT matches',t.count(old),f,repr(old[:50])); bad=True; break
                open(r+'/'+f,'w').write(t.replace(old,new))
            if bad: shutil.rmtree(d); continue
            sh('gofmt -w '+' '.join({e[0] for e in b['edits']}),r)
            diff=sh('git diff',r).stdout
            open(d+'/patch.diff','w').write(diff)
            t=tests(r)
            dirty=sh('bash %s/demo.sh'%d,r)
            json.dump(dict(property=b['property'],needs=b['needs'],what_it_breaks=b['breaks']),open(d+'/meta.json','w'),indent=1)
            ok=clean.returncode==0 and t.returncode==0 and dirty.returncode not in (0,5)
            print(id,'OK' if ok else 'NOT OK','clean',clean.returncode,'tests',t.returncode,'patched',dirty.returncode, dirty.stdout.strip()[-150:] if ok else '')
            if not ok:
                print(clean.stdout[-600:]); print('\n'.join(l for l in t.stdout.splitlines() if 'no test files' not in l and not l.startswith('ok'))[-1500:] if t.returncode else ''); print(dirty.stdout[-600:])
                shutil.move(d,'/tmp/seed/rejected-'+id+'-'+str(os.getpid()))
        finally: shutil.rmtree(wt)
