#!/usr/bin/env python3
"""caught.py [ID...]: apply each planted change to a scratch copy of /repo, run its check there (VREPO) and record the outcome in doc/caught.jsonl"""
import sys, os, json, subprocess, glob, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = '/tmp/caught'; R = T + '/repo'; W = T + '/verif'
def sh(c): return subprocess.run(c, shell=True, capture_output=True, text=True, errors='replace')
sh('rm -rf /tmp/caught'); os.makedirs(T); sh('git clone -q /repo %s' % R); sh('git clone -q %s %s' % (V, W))
F = V + '/doc/caught.jsonl'; C = {}
if os.path.exists(F):
    for l in open(F): d = json.loads(l); C[d['id']] = d
for m in sorted(glob.glob(V + '/seeded/*/meta.json')):
    i = os.path.basename(os.path.dirname(m))
    if sys.argv[1:] and i not in sys.argv[1:]: continue
    if not sys.argv[1:] and i in C: continue
    p = json.load(open(m))['property']; sh('git -C %s checkout -q -- .' % R)
    a = sh('git -C %s apply %s/seeded/%s/patch.diff' % (R, V, i))
    if a.returncode: print(i, 'patch does not apply'); continue
    c = sh('cd %s && VREPO=%s timeout 900 ./check %s' % (W, R, p)); o = c.stdout
    ob = re.findall(r'^failed obligation: (.*?)(?:; counterexample.*)?$', o, re.M); fi = re.findall(r'^failing input: (.*)$', o, re.M)
    by = 'missed' if c.returncode != 1 else (('obligation "%s"' % ob[0][:150] if ob else '') + (' and ' if ob and fi else '') + ('input' if fi else ''))
    C[i] = dict(id=i, property=p, rc=c.returncode, by=by.replace('|', '/')); print(i, p, c.returncode, by, flush=True)
    open(F, 'w').write(''.join(json.dumps(C[k]) + '\n' for k in sorted(C)))
sh('rm -rf /tmp/caught')
