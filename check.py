#!/usr/bin/env python3-vt
"""./check ID [--tier quick|thorough]: decides one property on /repo's current tree."""
import sys, os, json, time, tempfile, shutil, subprocess, importlib, multiprocessing as mp, traceback, signal
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(HERE, 'engine'), os.path.join(HERE, 'props'), HERE]
REPO = os.environ.get('VREPO', '/repo')


def run_proof(args):
    mod, idx, work, tier, limit = args
    signal.signal(signal.SIGTERM, signal.SIG_DFL)
    import symex, models, irgen
    m = importlib.import_module(mod)
    pr = m.PROOFS[idx]
    t = time.time()
    out = dict(name=pr['name'], functions=pr.get('functions', []), status='', obligations=0, discharged=0, failed=[], unsupported=None,
               solver_time=0.0, backends={}, models=[], executed=[], paths=0, queries=0, kinds={}, assumptions=pr.get('assumptions', []))
    E = None
    try:
        w = os.path.join(work, '%s_%d' % (mod, idx)); os.makedirs(w, exist_ok=True)
        irm = irgen.build(pr['src'], w, pr.get('flags', ()))
        E = symex.Engine(irm, models.MODELS, time_limit=limit, tier=tier)
        E.prefix = pr['name'] + ': '
        E.work = w
        pr['fn'](E)
        if not E.obls: raise symex.Unsupported('no obligation was generated')
        if E.npaths == 0: raise symex.Unsupported('no execution path was completed (vacuous)')
    except irgen.BuildError as e:
        out['unsupported'] = 'sources do not compile to IR: ' + str(e)[-600:]
    except symex.Unsupported as e:
        out['unsupported'] = str(e)
    except symex.Infeasible:
        out['unsupported'] = 'contradictory precondition'
    except Exception as e:
        out['unsupported'] = 'internal: ' + repr(e)[:300] + ' ' + traceback.format_exc()[-500:]
    if E is not None:
        for o in E.obls:
            out['obligations'] += 1
            out['kinds'][o.kind] = out['kinds'].get(o.kind, 0) + 1
            if o.status == 'discharged':
                out['discharged'] += 1
                out['backends'][o.backend] = out['backends'].get(o.backend, 0) + 1
            elif o.status == 'failed':
                out['failed'].append(dict(obligation=o.name, kind=o.kind, at=o.loc, counterexample=o.model, condition=o.why[:1500]))
        out['solver_time'] = round(E.solver_time, 2); out['paths'] = E.npaths; out['queries'] = E.nq
        out['models'] = sorted(E.used_models); out['executed'] = sorted(E.used_funcs)
        out['cross'] = getattr(E, 'crossed', None)
        out['notes'] = getattr(E, 'notes', [])
    out['status'] = 'violated' if out['failed'] else 'undecided' if out['unsupported'] else 'proved'
    out['wall'] = round(time.time() - t, 2)
    return out


def harness_build(h, work):
    src = os.path.join(HERE, 'replay', h['src'])
    exe = os.path.join(work, os.path.basename(h['src']) + '.exe')
    cmd = [h.get('cxx', 'g++'), '-std=c++11', '-O1', '-g', '-w', '-D_REENTRANT', '-I' + REPO + '/src', '-I' + os.path.join(HERE, 'replay'),
           '-I' + os.path.join(HERE, 'inst/include'), '-D_GLIBCXX_ASSERTIONS', '-o', exe]
    if h.get('asan', True): cmd += ['-fsanitize=address', '-fno-omit-frame-pointer']
    cmd += h.get('flags', [])
    cmd += [src] + [os.path.join(REPO, 'src', s) for s in h.get('repo', [])] + h.get('libs', []) + ['-lpthread']
    p = subprocess.run(cmd, capture_output=True, text=True)
    if p.returncode: return None, p.stderr[-3000:]
    return exe, ''


def run_harness(args):
    h, work, tier, seed, extra = args
    r = dict(src=h['src'], status='', cases=0, nontrivial=0, samples=[], out='', bound=h.get('bound', ''))
    exe, err = harness_build(h, work)
    if exe is None:
        r['status'] = 'build-failed'; r['out'] = err; return r
    budget = h.get('budget', 8) * (1 if tier == 'quick' else 8)
    rep = os.path.join(work, h['src'] + '.case')
    env = dict(os.environ); env['ASAN_OPTIONS'] = 'detect_leaks=%d:abort_on_error=0:exitcode=99:allocator_may_return_null=1:detect_odr_violation=0' % h.get('leaks', 0)
    scratch = os.path.join(work, 'scratch_' + h['src']); os.makedirs(scratch, exist_ok=True)
    env['VH_SCRATCH'] = scratch
    cmd = [exe, '--seed', str(seed), '--budget', str(budget), '--out', rep] + (['--thorough'] if tier == 'thorough' else []) + extra
    try:
        p = subprocess.run(cmd, capture_output=True, timeout=budget * 4 + 60, env=env, cwd=scratch)
        so = p.stdout.decode('latin-1'); se = p.stderr.decode('latin-1')
        rc = p.returncode
    except subprocess.TimeoutExpired as e:
        so = (e.stdout or b'').decode('latin-1'); se = (e.stderr or b'').decode('latin-1'); rc = 'timeout'
    for l in so.split('\n'):
        if l.startswith('OK '):
            kv = dict(x.split('=') for x in l.split()[1:]); r['cases'] += int(kv['cases']); r['nontrivial'] += int(kv['nontrivial'])
        if l.startswith('SAMPLE '): r['samples'].append(l[7:])
    fails = [l for l in so.split('\n') if l.startswith('FAIL ')]
    r['rc'] = rc
    if rc == 0 and not fails: r['status'] = 'held'
    elif fails:
        r['status'] = 'violated'; r['fail'] = fails[0][5:]; r['out'] = (so[-3000:] + '\n' + se[-4000:])
        r['cmd'] = ' '.join(cmd)
    else:
        r['status'] = 'error'; r['out'] = 'rc=%s\n%s\n%s' % (rc, so[-2000:], se[-4000:])
    return r


def write_ce(viol, work):
    fn = os.path.join(work, 'ce.txt')
    with open(fn, 'w') as f:
        for _, r in viol:
            for x in r['failed']:
                ce = x['counterexample']
                for v in (ce.values() if isinstance(ce, dict) else []):
                    if isinstance(v, dict) and 'data' in v:
                        n = min(len(v['data']), v.get('len', 64))
                        f.write('s ' + ''.join('%02x' % (int(b) & 255) for b in v['data'][:n] if isinstance(b, int)) + '\n')
                    elif isinstance(v, int): f.write('i %d\n' % (v & (2**64 - 1)))
    return fn


def worker(fn, arg, q, key):
    try: q.put((key, fn(arg)))
    except BaseException as e: q.put((key, dict(status='undecided', unsupported='worker: ' + repr(e), name=str(key), crashed=True)))


def main():
    a = sys.argv[1:]
    pid = a[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in a: tier = a[a.index('--tier') + 1]
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.time()
    m = importlib.import_module(pid)
    work = tempfile.mkdtemp(prefix='vchk_%s_' % pid)
    only = a[a.index('--only') + 1] if '--only' in a else None
    noh = '--no-harness' in a
    try:
        return decide(m, pid, tier, seed, work, t0, only, noh)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def decide(m, pid, tier, seed, work, t0, only, noh):
    limit = 240 if tier == 'quick' else 1500
    hard = limit + 60
    ctx = mp.get_context('fork')
    q = ctx.Queue()
    jobs = []
    for j, h in enumerate(getattr(m, 'HARNESS', [])):
        if not noh: jobs.append((run_harness, (h, work, tier, seed, []), ('h', j)))
    for i, pr in enumerate(m.PROOFS):
        if only and only not in pr['name']: continue
        jobs.append((run_proof, (pid, i, work, tier, pr.get('limit', limit) if tier == 'quick' else limit), ('p', i)))
    run = {}; res = {}; pend = list(jobs)
    ncpu = max(2, os.cpu_count() or 4)
    while pend or run:
        while pend and len(run) < ncpu:
            fn, arg, key = pend.pop(0)
            p = ctx.Process(target=worker, args=(fn, arg, q, key)); p.start(); run[key] = (p, time.time())
        try:
            key, r = q.get(timeout=0.5)
            res[key] = r
            p, _ = run.pop(key); p.join()
            continue
        except Exception: pass
        for key, (p, ts) in list(run.items()):
            if not p.is_alive() and q.empty():
                time.sleep(0.2)
                if q.empty():
                    res[key] = dict(status='undecided', unsupported='verifier process ended (rc %s)' % p.exitcode, name=str(key), crashed=True); run.pop(key)
            elif key[0] == 'p' and time.time() - ts > hard:
                p.terminate(); p.join(); res[key] = dict(status='undecided', unsupported='time limit', name=str(key), crashed=True); run.pop(key)
    proofs = [res[k] for k in sorted(res) if k[0] == 'p']
    hs = [res[k] for k in sorted(res) if k[0] == 'h']
    known = load_known(pid)
    viol = []; lines = []
    for r in proofs:
        if r['status'] == 'violated':
            viol.append(('proof', r))
    hviol = [h for h in hs if h['status'] == 'violated']
    # try the verifier's counterexamples / a longer directed search on the real code
    herr = [h for h in hs if h['status'] in ('build-failed', 'error')]
    exitcode = 0
    nviol = 0
    if viol or hviol:
        if viol and not hviol and not noh:
            for j, h in enumerate(getattr(m, 'HARNESS', [])):
                extra = ['--ce', write_ce(viol, work)]
                r2 = run_harness((dict(h, budget=h.get('budget', 8) * 3), work, tier, seed + 7919, extra))
                hs.append(r2)
                if r2['status'] == 'violated': hviol.append(r2); break
        rd = os.path.join(HERE, 'evidence', 'replay'); os.makedirs(rd, exist_ok=True)
        rp = os.path.join(rd, pid + '.txt')
        knownhit = [k for k in known if hviol and not viol and k['match'] in hviol[0].get('fail', '')]
        with open(rp, 'w') as f:
            f.write('property %s (%s)\n' % (pid, REPO))
            for _, r in viol:
                for x in r['failed']:
                    f.write('failed obligation: %s\n  kind: %s\n  at: %s\n  verifier counterexample: %s\n  condition: %s\n' % (x['obligation'], x['kind'], x['at'], json.dumps(x['counterexample'])[:3000], x['condition']))
            for h in hviol:
                f.write('failing input on the real code (%s): %s\nrerun: %s\n%s\n' % (h['src'], h.get('fail'), h.get('cmd'), h['out']))
        for _, r in viol[:4]:
            for x in r['failed'][:2]:
                print('failed obligation: %s at %s; counterexample %s' % (x['obligation'], x['at'], json.dumps(x['counterexample'])[:400]))
        for h in hviol: print('failing input: %s' % h.get('fail'))
        nviol = 1
        exitcode = 1
        print('VIOLATION property=%s replay=%s%s' % (pid, rp, '' if hviol else ' no-failing-input-found'))
    for r in proofs:
        print('%-10s %-40s obligations=%d discharged=%d paths=%d solver=%.1fs wall=%.1fs %s' % (r['status'], r['name'], r.get('obligations', 0), r.get('discharged', 0), r.get('paths', 0), r.get('solver_time', 0), r.get('wall', 0), (r['unsupported'] or '')[:700]))
    for h in hs:
        print('%-10s stand-in %-30s cases=%d %s' % (h['status'], h['src'], h.get('cases', 0), h['out'][-1500:] if h['status'] in ('build-failed', 'error') else ''))
    und = [r for r in proofs if r['status'] == 'undecided']
    if not exitcode and (not proofs or (len(und) == len(proofs) and not any(h['status'] == 'held' for h in hs))):
        exitcode = 3
    if not exitcode and herr and und: exitcode = 3
    # evidence
    ob = sum(r.get('obligations', 0) for r in proofs); di = sum(r.get('discharged', 0) for r in proofs)
    be = {}
    for r in proofs:
        for k, v in r.get('backends', {}).items(): be[k] = be.get(k, 0) + v
    models = sorted({x for r in proofs for x in r.get('models', [])})
    execd = sorted({x for r in proofs for x in r.get('executed', [])})
    ev = dict(property=pid, tier=tier, seed=seed, level=getattr(m, 'LEVEL', 'proof'), wall_s=round(time.time() - t0, 2), violations=nviol,
              coverage=dict(obligations=ob, discharged=di, checker_cmd='./check %s --tier %s' % (pid, tier),
                            trusted_base=['clang 18 front end and sroa/simplifycfg/instsimplify/lcssa passes (C++ to LLVM IR)', 'engine/ (VC generator)', 'z3 %s, cvc5' % z3v(),
                                          'assumed contracts of library functions: ' + ('; '.join(models) or 'none')],
                            functions_under_contract=sorted({f for r in proofs for f in r.get('functions', [])}),
                            functions_executed=[x for x in execd if 'pfi::' in x][:200], backends=be,
                            solver_time_s=round(sum(r.get('solver_time', 0) for r in proofs), 2),
                            proofs=[dict(name=r['name'], status=r['status'], obligations=r.get('obligations', 0), discharged=r.get('discharged', 0), kinds=r.get('kinds', {}),
                                         paths=r.get('paths', 0), wall_s=r.get('wall', 0), undecided_because=r['unsupported'], cross_checked=r.get('cross')) for r in proofs],
                            evaluations=sum(h.get('cases', 0) for h in hs), distinct_nontrivial=sum(h.get('nontrivial', 0) for h in hs),
                            rule='bounded stand-in (not counted as proof): ' + '; '.join(h.get('bound', '') for h in hs),
                            samples=[s for h in hs for s in h.get('samples', [])][:6] or ['(no stand-in)'],
                            bounded=[dict(program=h['src'], status=h['status'], cases=h.get('cases', 0), bound=h.get('bound', '')) for h in hs]),
              assumptions=list(getattr(m, 'ASSUMPTIONS', [])) + sorted({x for r in proofs for x in r.get('assumptions', [])}) + COMMON)
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, 'evidence', pid + '.json'), 'w'), indent=1)
    for k in known:
        print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
    print('%s %s: %d/%d obligations discharged, %d undecided proofs, %d stand-in cases, %.1fs' % (pid, 'VIOLATED' if nviol else 'ok', di, ob, len(und), sum(h.get('cases', 0) for h in hs), time.time() - t0))
    return exitcode


COMMON = ['memory allocation does not fail and no object exceeds 2^40 elements', 'x86-64 data layout as compiled by clang 18 -std=c++11 (the project itself is built with g++)',
          'signed overflow is treated as wrapping', 'the assumed library contracts listed in the trusted base']


def z3v():
    import z3
    return z3.get_version_string()


def load_known(pid):
    out = []
    fn = os.path.join(HERE, 'known-findings.jsonl')
    if os.path.exists(fn):
        for l in open(fn):
            l = l.strip()
            if not l: continue
            d = json.loads(l)
            if d.get('status') == 'open' and d.get('property') == pid: out.append(d)
    return out


if __name__ == '__main__':
    sys.exit(main())
