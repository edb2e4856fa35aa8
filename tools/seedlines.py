#!/usr/bin/env python3
"""Which planted bugs change lines of the original repository: lists, per bug, removed/neighbouring lines and how many of them are from bc38e14."""
import subprocess,glob,os,re
BASE="bc38e14"
bl={}
def blame(f):
    if f not in bl:
        r=subprocess.run(["git","blame","-s",BASE+"..HEAD","--",f],cwd="/repo",stdout=subprocess.PIPE,text=True).stdout.split("\n")
        bl[f]=[l.startswith("^") for l in r]
    return bl[f]
for d in sorted(glob.glob("/verif/seeded/*/patch.diff")):
    f=None; rem=[];nb=[]
    for l in open(d):
        if l.startswith("--- a/"): f=l[6:].strip()
        elif l.startswith("+++") : pass
        elif l.startswith("@@"): n=int(re.match(r"@@ -(\d+)",l).group(1)); last=None
        elif f is None or l.startswith(("diff","index")): pass
        elif l.startswith("-"): rem.append(blame(f)[n-1]); n+=1
        elif l.startswith("+"): nb+= [blame(f)[n-2], blame(f)[n-1]] if n>1 else [blame(f)[n-1]]
        else: n+=1
    flag = "" if any(rem) else ("ADD-ONLY original-neighbours %d/%d"%(sum(nb),len(nb)) if not rem else "REMOVES ONLY OWN LINES")
    print("%-28s removed %d (original %d) %s"%(d.split("/")[3],len(rem),sum(rem),flag))
