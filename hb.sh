#!/bin/bash
# dev: build the harness with the given features (comma list) and run each
cd /verif/harness && RUSTFLAGS= cargo build --offline --no-default-features --features "$1" 2>&1 | awk '/^error/{p=1} /^warning/{p=0} p' | head -60
shift
for p in "$@"; do timeout 300 ./target/debug/harness $p --secs 100 --out /tmp/h_$p.json; echo "$p rc=$?"; python3 - /tmp/h_$p.json <<'P'
import json,sys
d=json.load(open(sys.argv[1])); print(d['evaluations'],d['nontrivial'],d['distinct_nontrivial'],d['exhaustive'],round(d['wall_s'],1))
for f in d['failures']: print('FAIL',f['gen'],f['message'][:700]); print('\n'.join('   '+x[:300] for x in f['input'][:15]))
P
done
