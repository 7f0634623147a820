#!/bin/bash
# viols.sh MON FROM N: runs cases and prints what is violated
echo "$2 $3" | TW_SLOW=1 timeout ${T:-600} "${TW:-/verif/harness/target/debug/tw}" work "$1" 2>&1 | python3 -c '
import sys,json
n=0
for l in sys.stdin:
    if l[0]=="V": j=json.loads(l[2:]); n+=1; print(j["seed"],j["what"][:'${W:-500}'].replace("\n"," | "))
    elif l.startswith("D"): j=json.loads(l[2:]); print({k:v for k,v in j["n"].items()}, {k:len(v) for k,v in j["sets"].items()})
    elif l[0]!="U": print(l.rstrip()[:300])
print(n,"violations")'
