#!/usr/bin/env python3
"""Development aid: applies the text changes of tools/mutants.py to scratch copies of /repo and
compares what the checks say with what is expected. Usage: mut.py [PROP...] [-q]"""
import sys, os, shutil, subprocess, tempfile
from concurrent.futures import ThreadPoolExecutor
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
import mutants
REPO = os.environ.get('REPO', '/repo')
CF = os.environ.get('CFCHECK', '/tmp/cfcheck')

def one(m):
    prop, file, pairs, expect = m[:4]
    d = tempfile.mkdtemp(prefix='cfmut')
    try:
        t = d + '/r'
        shutil.copytree(REPO, t, ignore=shutil.ignore_patterns('.git', 'data', 'benchmarks'))
        for f, old, new in pairs:
            p = f'{t}/{f or file}'
            s = open(p).read()
            nth = 0
            if isinstance(old, tuple):
                old, nth = old
            ps = s.split(old)
            if len(ps) < 2 + nth:
                return 'NOTFOUND', m, ''
            s = old.join(ps[:nth + 1]) + new + old.join(ps[nth + 1:])
            open(p, 'w').write(s)
        r = subprocess.run([CF, '-repo', t, '-prop', prop, '-noevidence'], capture_output=True, text=True)
        res = 'quiet' if r.returncode == 0 else 'bad'
        out = r.stdout
        if 'cannot be analysed' in out or 'the analysis failed' in out:
            res = 'broken'
        if res == 'bad' and 'undecided' in out.splitlines()[0]:
            res = 'bad'
        return res, m, out + r.stderr[-300:]
    finally:
        shutil.rmtree(d)

args = [a for a in sys.argv[1:] if not a.startswith('-')]
ms = [m for m in mutants.M if not args or m[0] in args]
ok = 0
with ThreadPoolExecutor(6) as ex:
    for res, m, out in ex.map(one, ms):
        good = res == m[3]
        ok += good
        if not good or '-v' in sys.argv:
            print(('   ' if good else '!! ') + res, m[0], m[1], repr(m[2][0][1])[:60], '->', repr(m[2][0][2])[:60])
            for l in out.splitlines()[:3]:
                print('        ', l[:240])
print(f'{ok} of {len(ms)} as expected')
