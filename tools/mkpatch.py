#!/usr/bin/env python3
"""mkpatch.py ID FILE <<< 'old\n====\nnew' : write seeded/ID/patch.diff replacing old by new (once) in FILE; several FILE edits separated by '@@@@ FILE' lines"""
import subprocess,sys,os,tempfile,shutil
id=sys.argv[1]
w='/tmp/mkpatch.%d'%os.getpid()
subprocess.run(['git','-C','/repo','worktree','prune'])
shutil.copytree('/repo',w,ignore=shutil.ignore_patterns('target'))
body=sys.stdin.read()
for part in body.split('@@@@ ')[1:]:
    fn,_,rest=part.partition('\n')
    old,_,new=rest.partition('\n====\n')
    new=new.rstrip('\n'); old=old.rstrip('\n')
    p=os.path.join(w,fn.strip()); s=open(p).read()
    assert s.count(old)==1,(id,fn,s.count(old),old)
    open(p,'w').write(s.replace(old,new))
d=subprocess.run(['git','-C',w,'diff','HEAD'],capture_output=True,text=True).stdout
os.makedirs(f'/verif/seeded/{id}',exist_ok=True)
open(f'/verif/seeded/{id}/patch.diff','w').write(d)
shutil.rmtree(w)
