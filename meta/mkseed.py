"""mk(id, prop, [(file, old, new[, nth])], demo, needs, breaks)"""
import os, subprocess, json, shutil
W='/tmp/mkwt'
def mk(id, prop, edits, demo, needs, breaks):
    subprocess.run(['rm','-rf',W],check=True)
    subprocess.run(['git','-C','/repo','worktree','prune'])
    os.makedirs(W)
    subprocess.run('git -C /repo archive HEAD | tar x -C %s && cd %s && git init -q && git add -A -f && git -c user.name=x -c user.email=x commit -qm x'%(W,W),shell=True,check=True)
    for e in edits:
        f,old,new=e[:3]
        p=W+'/'+f; s=open(p).read()
        n=s.count(old)
        if n==0 or (n>1 and len(e)<4):
            print(id,'BAD EDIT',n,f,old[:60]); return
        k=e[3] if len(e)>3 else 0
        i=-1
        for _ in range(k+1): i=s.index(old,i+1)
        s=s[:i]+new+s[i+len(old):]
        open(p,'w').write(s)
    d='/verif/seeded/'+id
    os.makedirs(d,exist_ok=True)
    diff=subprocess.run(['git','-C',W,'diff'],capture_output=True,text=True).stdout
    open(d+'/patch.diff','w').write(diff)
    open(d+'/demo.sh','w').write('#!/bin/bash\n# exit 0 when the property holds on this input\nexport LC_ALL=C.UTF-8\nA=/repo/apertium\nT=$(mktemp -d) || exit 1\ntrap \'rm -rf "$T"\' EXIT\neq() { [ "$1" = "$2" ] || { echo "got: $1"; echo "expected: $2"; exit 1; }; }\n'+demo.strip()+'\nexit 0\n')
    os.chmod(d+'/demo.sh',0o755)
    json.dump(dict(property=prop,needs=needs,what_it_breaks=breaks),open(d+'/meta.json','w'),indent=1)
    subprocess.run(['rm','-rf',W])
