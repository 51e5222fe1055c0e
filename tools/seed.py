#!/usr/bin/env python3
"""Writes and confirms /verif/seeded from tools/seeds.py. Usage: seed.py [ID...] [-f]
For each definition: apply the change to a scratch copy, diff it, build, run the stable tests, run the
demonstration with and without the change, and say which checks catch it."""
import sys, os, shutil, subprocess, tempfile, json, difflib
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'tools'))
import seeds
CF = os.environ.get('CFCHECK', V + '/bin/cfcheck')
DEMO = r'''#!/bin/bash
# run in the repository's root: exit 0 when the behaviour demonstrated in demo_test.go holds
here=$(cd "$(dirname "$0")" && pwd) || exit 2
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
mkdir -p "$tmp/gopath/src/github.com/ryanbressler" "$tmp/t"
ln -s "$PWD" "$tmp/gopath/src/github.com/ryanbressler/CloudForest"
export GO111MODULE=off GOTOOLCHAIN=local GOPROXY=off GOFLAGS= GOPATH="$tmp/gopath" GODEBUG=randautoseed=0 TMPDIR="$tmp/t"
[ -d /opt/vp/gocache ] && [ -w /opt/vp/gocache ] && export GOCACHE=/opt/vp/gocache || export GOCACHE="$tmp/cache"
cd "$tmp/gopath/src/github.com/ryanbressler/CloudForest/@PKG@" || exit 2
@RUN@
'''
RUNTEST = r'''echo "{\"Replace\": {\"$PWD/zz_seed_demo_test.go\": \"$here/demo_test.go\"}}" > "$tmp/o.json"
timeout 250 go test -vet=off -count=1 -overlay "$tmp/o.json" -run 'TestSeedDemo$' . '''
ENV = dict(os.environ)

def sh(cmd, cwd, timeout=600):
    r = subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, timeout=timeout)
    return r.returncode, r.stdout + r.stderr

def copy():
    d = tempfile.mkdtemp(prefix='cfseed')
    shutil.copytree('/repo', d + '/repo', symlinks=True)
    return d

def env(d):
    g = d + '/gp/src/github.com/ryanbressler'
    if not os.path.isdir(g):
        os.makedirs(g); os.symlink(d + '/repo', g + '/CloudForest')
    return ('export GO111MODULE=off GOTOOLCHAIN=local GOPROXY=off GOFLAGS= GOPATH=%s/gp GODEBUG=randautoseed=0 GOCACHE=/opt/vp/gocache; '
            'cd %s/CloudForest; ' % (d, g))

def one(s):
    id, prop = s['id'], s['prop']
    out = os.path.join(V, 'seeded', id)
    d = copy()
    try:
        r = d + '/repo'
        for f, old, new in s['edits']:
            p = r + '/' + f
            t = open(p).read(); nth = 0
            if isinstance(old, tuple): old, nth = old
            ps = t.split(old)
            if len(ps) < 2 + nth: return id, 'NOTFOUND ' + repr(old)[:70]
            t = old.join(ps[:nth + 1]) + new + old.join(ps[nth + 1:])
            open(p, 'w').write(t)
        rc, o = sh('gofmt -l . ; git diff', r)
        diff = sh('git diff', r)[1]
        # original lines only
        fixed = []
        for f in {e[0] for e in s['edits']}:
            bl = sh('git blame -s 68b1bbd..HEAD HEAD -- %s' % f, '/repo')[1].splitlines()
            mine = [not l.startswith('^') for l in bl]
            hunks = subprocess.run('git diff -U0 -- %s' % f, shell=True, cwd=r, capture_output=True, text=True).stdout
            for l in hunks.splitlines():
                if l.startswith('@@'):
                    a = l.split()[1][1:].split(',')
                    st, n = int(a[0]), int(a[1]) if len(a) > 1 else 1
                    for i in range(st, st + n):
                        if i - 1 < len(mine) and mine[i - 1]: fixed.append('%s:%d' % (f, i))
        rc, o = sh(env(d) + 'go build ./...', r)
        if rc: return id, 'BUILD ' + o[:300]
        rc, o = sh(env(d) + 'go test -json -vet=off -count=1 ./... > %s/log; python3 /opt/vp/results.py %s/res.json gojson:%s/log' % (d, d, d), r)
        want = json.load(open('/opt/vp/BASELINE.json'))['stable']
        rs = open(d + '/res.json').read()
        res = json.loads(rs)
        bad = [t for t in want if t not in str(res.get('passed', res.get('pass', res)))]
        if bad: return id, 'TESTS FAIL ' + str(bad)
        if isinstance(res, dict):
            fl = res.get('failed', res.get('fail', []))
            if [t for t in want if t in str(fl)]: return id, 'TESTS FAIL ' + str(fl)
        os.makedirs(out, exist_ok=True)
        open(out + '/patch.diff', 'w').write(diff)
        open(out + '/demo.sh', 'w').write(DEMO.replace('@PKG@', s.get('pkg', '.')).replace('@RUN@', s.get('run', RUNTEST)))
        os.chmod(out + '/demo.sh', 0o755)
        for n, t in s.get('files', {}).items(): open(out + '/' + n, 'w').write(t)
        if 'demo' in s: open(out + '/demo_test.go', 'w').write(s['demo'])
        json.dump({'property': prop, 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(out + '/meta.json', 'w'), indent=1)
        rc0, o0 = sh('bash %s/demo.sh' % out, '/repo')
        rc1, o1 = sh('bash %s/demo.sh' % out, r)
        if rc0: return id, 'DEMO FAILS UNCHANGED ' + o0[-600:]
        if not rc1: return id, 'DEMO PASSES WITH THE CHANGE ' + o1[-300:]
        if 'build failed' in o1 or 'setup failed' in o1: return id, 'DEMO DOES NOT BUILD ' + o1[-300:]
        rc2, o2 = sh('%s -repo %s -verif %s -noevidence -prop all' % (CF, r, V), r)
        caught = sorted({w.split('=')[1] for l in o2.splitlines() if l.startswith('VIOLATION') for w in l.split() if w.startswith('property=')})
        caughtall[id] = caught
        return id, ('ok   ' if prop in caught else 'MISS ') + prop + ' caught by ' + (','.join(caught) or 'none') + (' MINE:' + str(fixed[:3]) if fixed else '')
    except Exception as e:
        return id, 'ERROR %r' % e
    finally:
        shutil.rmtree(d)

cf = os.path.join(V, 'tools', 'caught.json')
caughtall = json.load(open(cf)) if os.path.exists(cf) else {}
ids = [a for a in sys.argv[1:] if not a.startswith('-')]
todo = [s for s in seeds.S if not ids or s['id'] in ids or s['prop'] in ids]
with ThreadPoolExecutor(6) as ex:
    for id, r in ex.map(one, todo):
        print(id, r, flush=True)
json.dump({k: v for k, v in sorted(caughtall.items()) if os.path.isdir(V + '/seeded/' + k)}, open(cf, 'w'), indent=1)
