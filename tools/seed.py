#!/usr/bin/env python3
"""Plants a bug and says whether it counts and which check catches it.

seed.py new ID PROPERTY DIR   make seeded/ID from the edited copy DIR (git diff), with
                              DIR/../ID.demo_test.go etc. beside it already in seeded/ID
seed.py check ID... [--all-props] [--seeds 1,2]   verify and run the check
"""
import json, os, subprocess, sys, shutil, tempfile
V = '/verif'
ENV = dict(os.environ, HOME='/root', GOTOOLCHAIN='local', GOFLAGS='-mod=mod', GOPROXY='off', GOMODCACHE='/root/go/pkg/mod', GOCACHE='/root/.cache/go-build')

def sh(cmd, cwd, timeout=900, env=None):
    try:
        p = subprocess.run(cmd, cwd=cwd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=env or ENV)
        return p.returncode, p.stdout.decode(errors='replace')
    except subprocess.TimeoutExpired as e:
        return 124, (e.stdout or b'').decode(errors='replace') + 'TIMEOUT'

def stable(copy):
    b = json.load(open('/opt/vp/BASELINE.json'))
    st = b.get('stable') or b.get('passed') or b
    log = os.path.join(os.path.dirname(copy), 'log.json')
    rc, o = sh('go build ./... && go vet ./... >/dev/null 2>&1; go test -json -vet=off -count=1 -timeout 100s ./... >%s 2>/dev/null' % log, copy)
    out = os.path.join(os.path.dirname(copy), 'out.json')
    sh('python3 /opt/vp/results.py %s gojson:%s' % (out, log), copy)
    o = json.load(open(out))
    return [t for t in st if t not in set(o['passed'])]

def one(i, props=None, seeds=('1',)):
    d = f'{V}/seeded/{i}'
    meta = json.load(open(d + '/meta.json'))
    tmp = tempfile.mkdtemp(prefix='seed.')
    res = []
    try:
        copy = tmp + '/repo'
        sh(f'cp -a /repo {copy}', '/')
        sh('git checkout -q -- . && git clean -fdq', copy)
        demo = tmp + '/demo'
        shutil.copytree(d, demo)
        for f in os.listdir(demo):
            if f.endswith(('.diff', '.patch')) or f == 'meta.json':
                os.remove(f'{demo}/{f}')
        rc, o = sh(f'bash {demo}/demo.sh', copy, 300)
        res.append('demo-clean=%s' % ('ok' if rc == 0 else 'BAD(%d) %s' % (rc, o[-1500:])))
        rc, o = sh(f'git apply {d}/patch.diff', copy)
        if rc: res.append('APPLY-FAILED ' + o)
        rc, o = sh('go build ./...', copy)
        res.append('build=%s' % ('ok' if rc == 0 else 'BAD ' + o))
        miss = stable(copy)
        res.append('tests=%s' % ('ok' if not miss else 'BAD %s' % miss[:5]))
        rc, o = sh(f'bash {demo}/demo.sh', copy, 300)
        res.append('demo-bug=%s' % ('ok' if rc != 0 else 'BAD(passes)'))
        for p in props or [meta['property']]:
            for s in seeds:
                env = dict(ENV, VF_REPO=copy, VERIF_SEED=s)
                rc, o = sh(f'bash ./check {p} quick', V, 900, env)
                hit = rc == 1 and f'VIOLATION property={p}' in o
                ln = [l for l in o.splitlines() if l.strip()]
                res.append(f'{p}/{s}={"caught" if hit else "MISSED rc=%d" % rc} {ln[1][:200] if hit and len(ln) > 1 else (ln[-1][:300] if ln and not hit else "")}')
    finally:
        shutil.rmtree(tmp)
    print(i, meta['property'], ' | '.join(res), flush=True)

if __name__ == '__main__':
    a = sys.argv[1:]
    if a[0] == 'new':
        i, p, copy = a[1:4]
        d = f'{V}/seeded/{i}'
        os.makedirs(d, exist_ok=True)
        rc, o = sh('git diff', copy)
        open(d + '/patch.diff', 'w').write(o)
    else:
        props = None; seeds = ('1',)
        ids = []
        for x in a[1:]:
            if x.startswith('--props='): props = x[8:].split(',')
            elif x.startswith('--seeds='): seeds = x[8:].split(',')
            else: ids.append(x)
        for i in ids or sorted(os.listdir(V + '/seeded')):
            one(i, props, seeds)
