#!/usr/bin/env python3
# mkseed.py FILE: FILE defines SEEDS = [dict(id, prop, edits=[(file, old, new)], demo, deps, needs, breaks)]; writes /verif/seeded/<id>
import sys, os, json, subprocess, shutil
ns = {}
exec(open(sys.argv[1]).read(), ns)
R = '/tmp/sc/repo'
subprocess.check_call(['git', '-C', R, 'checkout', '-q', '--', '.'])
subprocess.check_call('git -C /tmp/sc/repo fetch -q /repo HEAD && git -C /tmp/sc/repo reset -q --hard FETCH_HEAD', shell=True)
DEP = {'rope': 'xi-rope rust/rope', 'core': 'xi-core-lib rust/core-lib', 'plugin': 'xi-plugin-lib rust/plugin-lib', 'trace': 'xi-trace rust/trace', 'unicode': 'xi-unicode rust/unicode', 'rpc': 'xi-rpc rust/rpc'}
for s in ns['SEEDS']:
    if len(sys.argv) > 2 and s['id'] not in sys.argv[2:]: continue
    d = f"/verif/seeded/{s['id']}"
    os.makedirs(d, exist_ok=True)
    for f, old, new in s['edits']:
        p = f'{R}/rust/{f}'
        t = open(p).read()
        assert t.count(old) == 1, (s['id'], f, t.count(old))
        open(p, 'w').write(t.replace(old, new))
    diff = subprocess.check_output(['git', '-C', R, 'diff'], text=True)
    open(d + '/patch.diff', 'w').write(diff)
    subprocess.check_call(['git', '-C', R, 'checkout', '-q', '--', '.'])
    open(d + '/demo.rs', 'w').write(''.join(f'//dep {DEP[k]}\n' for k in s['deps']) + s['demo'].lstrip('\n'))
    shutil.copy('/verif/tools/demo_template.sh', d + '/demo.sh'); os.chmod(d + '/demo.sh', 0o755)
    json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'), indent=1)
    print(s['id'])
