#!/usr/bin/env python3
"""seed.py ID PROPERTY FILE OLD NEW NEEDS BREAKS DEMO.cpp  (helper: validates a planted bug in /repo, then undoes it)
OLD/NEW may be @file.  With --rerun ID: revalidate.  Writes seeded/ID/."""
import sys, os, subprocess, json, shutil
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = '/repo'
DEMO = '''#!/bin/bash
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
g++ -std=c++17 -O1 -w -DFMT_HEADER_ONLY -Iinclude "$d/demo.cpp" -o "$t/demo" -lboost_serialization || exit 3
timeout 60 "$t/demo"
'''


def sh(c): return subprocess.run(c, shell=True, capture_output=True, text=True)


def clean(): sh(f'git -C {R} checkout -- .')


def validate(d, check=True):
    r = {}
    assert not sh(f'git -C {R} status --porcelain').stdout.strip()
    q = sh(f'cd {R} && bash {d}/demo.sh'); r['demo_clean'] = q.returncode
    if q.returncode: print(q.stderr[-800:])
    a = sh(f'git -C {R} apply {d}/patch.diff')
    if a.returncode: print('apply', a.stderr); clean(); return r
    try:
        b = sh('bash /opt/vp/build.sh'); r['build'] = b.returncode
        if b.returncode: print((b.stdout + b.stderr)[-1500:])
        sh('bash /opt/vp/test.sh /tmp/seedt.json')
        t = json.load(open('/tmp/seedt.json')); r['tests'] = f"{len(t['passed'])}/{len(t['failed'])}"
        q = sh(f'cd {R} && bash {d}/demo.sh'); r['demo_bug'] = q.returncode
        pid = json.load(open(f'{d}/meta.json'))['property']
        if check:
            import time
            t0 = time.time()
            c = subprocess.run(['./check', pid, 'quick'], cwd=ROOT, capture_output=True, text=True)
            r['check'] = [c.returncode, [l for l in c.stdout.splitlines() if 'VIOLATION' in l], round(time.time() - t0)]
            r['why'] = [l for l in c.stderr.splitlines() if 'failing input' in l or 'open obl' in l or 'reach' in l][:3]
    finally:
        clean()
        sh('bash /opt/vp/build.sh targets')
    ok = r.get('demo_clean') == 0 and r.get('build') == 0 and r.get('tests') == '41/0' and r.get('demo_bug', 0) != 0
    r['VALID'] = ok
    return r


if sys.argv[1] == '--rerun':
    for i in sys.argv[2:]: print(i, json.dumps(validate(f'{ROOT}/seeded/{i}')))
    sys.exit()
ID, prop, f, old, new, needs, breaks, demo = sys.argv[1:9]
g = lambda x: open(x[1:]).read() if x.startswith('@') else x
old, new = g(old), g(new)
p = f'{R}/include/bwsl/{f}'
s = open(p).read()
assert s.count(old) == 1, f'old text occurs {s.count(old)} times'
open(p, 'w').write(s.replace(old, new))
d = f'{ROOT}/seeded/{ID}'
os.makedirs(d, exist_ok=True)
open(f'{d}/patch.diff', 'w').write(sh(f'git -C {R} diff').stdout)
clean()
open(f'{d}/demo.sh', 'w').write(DEMO)
shutil.copy(demo, f'{d}/demo.cpp')
json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(f'{d}/meta.json', 'w'), indent=1)
r = validate(d)
print(ID, json.dumps(r))
if not r.get('VALID'): print('*** NOT VALID'); 
