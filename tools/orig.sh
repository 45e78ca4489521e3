#!/bin/bash
# orig.sh ID: number of removed lines of the planted bug, and how many of them are of the original repository
base=4614401; s=/verif/seeded/$1/patch.diff
python3 - $s <<'P'
import re,subprocess,sys
f=None; tot=orig=0
for l in open(sys.argv[1]):
    if l.startswith("--- a/"): f=l[6:].strip()
    m=re.match(r"@@ -(\d+)",l)
    if m: n=int(m.group(1)); continue
    if l.startswith(("---","+++","diff","index")): continue
    if l[0] in " -":
        if l[0]=="-":
            b=subprocess.run(["git","-C","/repo","blame","-s","-L%d,%d"%(n,n),"HEAD","--",f],capture_output=True,text=True).stdout
            tot+=1; orig+=b.startswith(("^4614401","4614401"))
        n+=1
print(sys.argv[1].split("/")[-2],"removed",tot,"original",orig)
P
