#!/usr/bin/env python3
"""Lists planted bugs whose removed lines were all added by fix commits (they would not count)."""
import subprocess,re,glob,os
B='e0b34eb'
def blame(f):
    o=subprocess.run(['git','-C','/repo','blame','-s','--root',f],capture_output=True,text=True).stdout
    return [l.split()[0].lstrip('^').startswith(B[:7]) for l in o.splitlines()]
for d in sorted(glob.glob('/verif/seeded/*/patch.diff')):
    f=None;orig=new=0;add=0
    for l in open(d):
        if l.startswith('--- a/'): f=l[6:].strip(); bl=blame(f)
        elif l.startswith('--- '): f=None
        elif m:=re.match(r'@@ -(\d+)',l): n=int(m[1])
        elif l.startswith('+++') or l.startswith('diff') or l.startswith('index'): pass
        elif l.startswith('-') and f:
            if l[1:].strip():
                if bl[n-1]: orig+=1
                else: new+=1
            n+=1
        elif l.startswith('+'): add+=1
        elif l.startswith(' '): n+=1
    if not orig: print(os.path.basename(os.path.dirname(d)),'original lines removed:',orig,'others:',new,'added:',add)
