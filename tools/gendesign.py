#!/usr/bin/env python3
# Writes DESIGN.md: the text below plus tables made from seeded/ and tools/catches.json.
import json, os, glob
root=os.path.abspath(os.path.join(os.path.dirname(os.path.abspath(__file__)),'..'))
props=[json.loads(l) for l in open(root+'/properties.jsonl')]
title={p['id']:p['title'] for p in props}
head=open(root+'/tools/design_head.md').read()
per=open(root+'/tools/design_props.md').read()
tail=open(root+'/tools/design_tail.md').read()
for i,t in title.items(): per=per.replace('## %s\n'%i,'## %s — %s\n'%(i,t))
c={}
f=root+'/tools/catches.json'
if os.path.exists(f): c=json.load(open(f))
rows=['| planted bug | property | needs | caught by |','|---|---|---|---|']
for d in sorted(glob.glob(root+'/seeded/*/meta.json')):
    m=json.load(open(d)); i=os.path.basename(os.path.dirname(d))
    rows.append('| %s | %s | %s | %s |'%(i,m['property'],m['needs'].replace('|','/'),' '.join(c.get(i,[])) or 'not yet run'))
open(root+'/DESIGN.md','w').write(head+'\n'+per+'\n'+tail.replace('@CATCHES@','\n'.join(rows)))
