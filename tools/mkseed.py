#!/usr/bin/env python3
"""mkseed.py ID PROP FILE[,FILE2]  (stdin: edit blocks / %%%% needs / %%%% breaks / %%%% demo body)
Records /verif/seeded/ID from an edit of /tmp/wt (a copy of /repo with its own git). Edit blocks are
old\\n====\\nnew separated by @@@@; a block may start with `FILE: path` to change file."""
import sys,subprocess,os,shutil,json
ID,PROP,FILE=sys.argv[1:4]
edits,needs,breaks,demo=[x.strip('\n') for x in sys.stdin.read().split('\n%%%%\n')]
W='/tmp/wt'
def sh(c,**k): return subprocess.run(c,shell=True,text=True,capture_output=True,**k)
sh(f'cd {W} && git checkout -q -- .')
f=FILE
for b in edits.split('\n@@@@\n'):
    if b.startswith('FILE: '):
        h,b=b.split('\n',1); f=h[6:]
    old,new=b.split('\n====\n') if '\n====\n' in b else (b.removesuffix('\n===='),'')
    p=os.path.join(W,f); s=open(p).read()
    if s.count(old)!=1: sys.exit(f'{ID}: block occurs {s.count(old)} times: {old[:80]}')
    open(p,'w').write(s.replace(old,new))
d=f'/verif/seeded/{ID}'
os.makedirs(d,exist_ok=True)
open(d+'/patch.diff','w').write(sh(f'cd {W} && git diff').stdout)
sh(f'cd {W} && git checkout -q -- .')
for x in ('cm.rs','lib.sh'): shutil.copy(f'/verif/tools/demo/{x}',d)
open(d+'/demo.sh','w').write('''#!/bin/bash
D=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
'''+('''. "$D/lib.sh"; build_demo "$D/cm.rs" "$T/cm" || exit 3
''' if '$T/cm' in demo else '')+('''. "$D/lib.sh"; build_init "$T/ci" || exit 3
''' if '$T/ci' in demo else '')+demo+'\n')
os.chmod(d+'/demo.sh',0o755)
json.dump({"property":PROP,"needs":needs,"what_it_breaks":breaks},open(d+'/meta.json','w'),indent=1)
