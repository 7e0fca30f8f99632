#!/usr/bin/env python3
"""mkbug.py SPEC.py: for every BUG in the spec: make seeded/<id>, confirm (build, stable tests, demo both ways) and run the check. Uses /repo in place and restores it."""
import sys, os, subprocess, json, runpy, stat
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
base = json.load(open('/opt/vp/BASELINE.json'))
stable = set(base.get('stable') or base.get('passed') or base)
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, errors='replace', **k)
DEMO = '''#!/bin/bash
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 3
trap 'rm -rf "$t"' EXIT
g++ -std=c++11 -O1 -w %(flags)s -I"$PWD/src" -o "$t/demo" "$d/demo.cpp" %(srcs)s %(libs)s -lpthread || exit 4
cd "$t" && timeout %(to)s ./demo
'''
spec = runpy.run_path(sys.argv[1])
only = sys.argv[2:]
for b in spec['BUGS']:
    if only and b['id'] not in only: continue
    d = os.path.join(V, 'seeded', b['id']); os.makedirs(d, exist_ok=True)
    assert sh('git -C /repo status --porcelain').stdout.strip() == '', 'dirty /repo'
    ok = True
    try:
        for f, old, new in b['edits']:
            p = '/repo/' + f; s = open(p, encoding='utf-8', errors='surrogateescape', newline='').read()
            if s.count(old) != 1: print(b['id'], 'EDIT matches', s.count(old), 'times in', f); ok = False; break
            open(p, 'w', encoding='utf-8', errors='surrogateescape', newline='').write(s.replace(old, new))
        if not ok: continue
        open(d + '/patch.diff', 'wb').write(subprocess.run('git -C /repo diff', shell=True, capture_output=True).stdout)
        open(d + '/demo.cpp', 'w').write(b['demo'])
        open(d + '/demo.sh', 'w').write(DEMO % dict(srcs=' '.join('"$PWD/src/%s"' % s for s in b.get('srcs', [])), libs=b.get('libs', ''), flags=b.get('flags', ''), to=b.get('timeout', 60)))
        os.chmod(d + '/demo.sh', 0o755)
        json.dump(dict(property=b['prop'], needs=b['needs'], what_it_breaks=b['breaks']), open(d + '/meta.json', 'w'), indent=1)
        r = sh('bash /opt/vp/test.sh /tmp/mkbug.json')
        res = json.load(open('/tmp/mkbug.json')); miss = stable - set(res['passed'])
        if miss: print(b['id'], 'TESTS FAIL', sorted(miss)[:5], r.stdout[-500:] if len(miss) > 50 else ''); ok = False
        r = sh('bash %s/demo.sh' % d, cwd='/repo')
        if r.returncode == 0: print(b['id'], 'DEMO passes with the patch', r.stdout[-300:]); ok = False
        dm = (r.returncode, (r.stdout + r.stderr)[-200:])
        c = sh('%s/check %s' % (V, b['prop']))
        print(b['id'], 'demo:', dm, 'check rc', c.returncode, [l for l in c.stdout.split('\n') if l.startswith(('VIOL', 'failing input', 'undecided'))][:3])
        fo = [l for l in c.stdout.split('\n') if l.startswith('failed obl')]
        print('    ', fo[:1])
    finally:
        sh('git -C /repo checkout -- .')
    r = sh('bash %s/demo.sh' % d, cwd='/repo')
    if r.returncode != 0: print(b['id'], 'DEMO fails on the unchanged tree', r.stdout[-500:], r.stderr[-500:]); ok = False
    print(b['id'], 'CONFIRMED' if ok else 'REJECTED')
sh('bash /opt/vp/build.sh')
