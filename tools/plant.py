#!/usr/bin/env python3
"""plant.py SPEC.py: SPEC defines bugs = [dict(id, property, pkg, edits=[(file, old, new)], needs, breaks, demo, args?)]."""
import sys, os, json, subprocess, shutil, tempfile, runpy
V = '/verif'
for b in runpy.run_path(sys.argv[1])['bugs']:
    if len(sys.argv) > 2 and b['id'] not in sys.argv[2:]: continue
    tmp = tempfile.mkdtemp(prefix='plant.')
    c = tmp + '/repo'
    subprocess.run(['git', 'clone', '-q', '/repo', c], check=True)
    for f, old, new in b['edits']:
        s = open(f'{c}/{f}').read()
        if s.count(old) != 1:
            print(b['id'], f, 'matches', s.count(old)); sys.exit(1)
        open(f'{c}/{f}', 'w').write(s.replace(old, new))
    d = f"{V}/seeded/{b['id']}"
    os.makedirs(d, exist_ok=True)
    open(d + '/patch.diff', 'wb').write(subprocess.run(['git', 'diff'], cwd=c, stdout=subprocess.PIPE, check=True).stdout)
    open(d + '/pkg', 'w').write(b['pkg'] + '\n')
    if b.get('args'): open(d + '/args', 'w').write(b['args'] + '\n')
    open(d + '/demo_test.go', 'w').write(b['demo'].lstrip())
    shutil.copy(V + '/tools/demo/demo.sh', d + '/demo.sh')
    json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(d + '/meta.json', 'w'), indent=1)
    shutil.rmtree(tmp)
    print('planted', b['id'])
