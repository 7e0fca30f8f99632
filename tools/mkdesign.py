#!/usr/bin/env python3-vt
"""write DESIGN.md from doc/, propdata, manifest_data, props metadata, known findings and the table of planted changes"""
import sys, os, json, importlib, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); os.chdir(V)
sys.path[:0] = [V + '/engine', V + '/props', V]
import manifest_data as MD
P = [json.loads(l) for l in open('properties.jsonl')]
out = [open('doc/head.md').read(), '## The properties\n\n']
for p in P:
    c = p['id']; out.append('### %s %s\n\n%s\n\n' % (c, p['title'], p['statement']))
    if c not in MD.CHECKS: out.append('Not claimed, see below.\n\n'); continue
    m = importlib.import_module(c)
    out.append('*Contract:* %s\n\n' % ' '.join((m.__doc__ or '').split()))
    out.append('*Decided:* %s.\n\n' % MD.CHECKS[c]['note'].rstrip('.'))
    fs = []
    for q in m.PROOFS:
        for x in q.get('functions', []):
            if x not in fs: fs.append(x)
    names = [q['name'] for q in m.PROOFS]
    out.append('*Proofs* (%d): %s.\n\n*Functions under contract* (%d): %s.\n\n' % (len(names), '; '.join(names), len(fs), ', '.join('`%s`' % x for x in fs)))
    if m.HARNESS: out.append('*Replay and bounded stand-in:* %s.\n\n' % '; '.join('`replay/%s`: %s' % (h['src'], h['bound']) for h in m.HARNESS))
    a = list(getattr(m, 'ASSUMPTIONS', []))
    for q in m.PROOFS:
        for x in q.get('assumptions', []):
            if x not in a: a.append(x)
    out.append('*Assumed:* ' + ('; '.join(a) if a else 'only the general list above') + '.\n\n')
    out.append('*Why tests cannot:* %s\n\n' % p['why_tests_cant'])
out.append(open('doc/tail.md').read())
out.append('\n## Genuine defects found and repaired\n\n')
for l in open('known-findings.jsonl'):
    d = json.loads(l); out.append('* %s\n' % d['what'])
out.append('\nNone is left unrepaired, so no check prints a KNOWN-FINDING line.\n\n## Planted changes and what catches them\n\nEach is in `seeded/<id>`, confirmed to build, to pass the stable tests and to fail its demonstration; no check reads that folder. "obligation" means that a named obligation fails, "input" that the replay also found a failing input on the real code.\n\n| change | property | caught by |\n|---|---|---|\n')
C = {}
if os.path.exists('doc/caught.jsonl'):
    for l in open('doc/caught.jsonl'):
        d = json.loads(l); C[d['id']] = d
for d in sorted(glob.glob('seeded/*/meta.json')):
    i = os.path.basename(os.path.dirname(d)); m = json.load(open(d)); k = C.get(i, {})
    out.append('| %s: %s | %s | %s |\n' % (i, m['what_it_breaks'], m['property'], k.get('by', '(not recorded)')))
open('DESIGN.md', 'w').write(''.join(out))
