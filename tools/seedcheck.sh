#!/bin/bash
# run the check of each planted change's property against it (in /repo, undone afterwards): seedcheck.sh ID...
cd /verif
for id in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$id/patch.diff || { echo "$id: does not apply"; continue; }
  python3 check.py $p > /tmp/seedcheck.log 2>&1; c=$?
  git -C /repo checkout -q -- .
  python3 - $id $c <<'P'
import json,re,sys
i,c=sys.argv[1],int(sys.argv[2]); t=open('/tmp/seedcheck.log').read()
fn=sorted(set(re.findall(r'failed obligation: ([^(\n]*?) \(',t))); gen=re.findall(r'^  ([a-z0-9_]+): ',t,re.M)
gen=[g for g in dict.fromkeys(gen)]
und='not decided by proof' in t
r=('MISSED' if c==0 else '; '.join(x for x in (('proof: '+', '.join(fn[:3])) if fn else '',('stand-in: '+', '.join(gen[:2])) if gen else '',) if x) or 'yes')
if und and c: r+=' (proof undecided)'
p='tools/caught.json'
try: d=json.load(open(p))
except OSError: d={}
d[i]=r; json.dump(d,open(p,'w'),indent=1,sort_keys=True)
print(i,'exit',c,'|',r)
P
done
