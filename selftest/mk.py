#!/usr/bin/env python3
"""mk.py KIND ID FILE <<< 'old\n====\nnew' : record an edit of /tmp/wt as a patch (several blocks separated by a line of @@@@)"""
import sys,subprocess
kind,i,f=sys.argv[1:4]
p='/tmp/wt/'+f
s=open(p).read()
for blk in sys.stdin.read().split('\n@@@@\n'):
    old,new=blk.split('\n====\n')
    old=old.strip('\n'); new=new.strip('\n')
    if s.count(old)!=1:
        sys.exit(f'{i}: {s.count(old)} matches of:\n{old[:200]}')
    s=s.replace(old,new)
open(p,'w').write(s)
d=subprocess.run(['git','-C','/tmp/wt','diff'],capture_output=True,text=True).stdout
open(f'/verif/selftest/{kind}/{i}.patch','w').write(d)
subprocess.run(['git','-C','/tmp/wt','checkout','-q','--','.'])
