#!/bin/bash
# developer helper: extract and verify a list of templates: vx.sh NAME... [-- verus args]
set -e
cd /verif; n=(); while [ $# -gt 0 ] && [ "$1" != "--" ]; do n+=("contracts/$1.vt"); shift; done; [ "$1" = "--" ] && shift
o=/tmp/v/$(basename ${n[-1]} .vt); mkdir -p /tmp/v
xtract/target/release/xtract --repo ${REPO:-/repo} --out $o.rs --report $o.json contracts/prelude.vt contracts/std.vt "${n[@]}" || exit 3
python3 -c "
import json;r=json.load(open('$o.json'))
if r['lost']: print('LOST',r['lost'])"
cd /tmp/v
python3 - $o.rs "$@" <<'P'
import sys,subprocess,json,re,time
f=sys.argv[1]; t=time.time()
p=subprocess.run(['verus',f,'--triggers-mode','silent','--multiple-errors','6','--rlimit','30','--error-format=json']+sys.argv[2:],capture_output=True,text=True)
src=open(f).read().split('\n')
for l in (p.stderr+p.stdout).split('\n'):
    if not l.startswith('{'):
        if l.strip() and not l.startswith('[rust_verify/src/verifier'): print(l[:300])
        continue
    d=json.loads(l)
    if d.get('level') not in('error',): continue
    print('E:',d['message'][:600])
    for s in d['spans']:
        print('   ',s['line_start'],(s.get('label') or '')[:60],'|',src[s['line_start']-1].strip()[:150])
    for c in d.get('children',[]):
        if c['message'] and 'automatically' not in c['message'] : print('    +',c['message'][:400])
print('%.1fs'%(time.time()-t))
P
