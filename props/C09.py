"""Locks over nondeterministic system operations: every pthread call may succeed or fail, other threads may change the mutex's bookkeeping whenever the lock is not held."""
from monitor import *
SRC = ['inst/c09.cpp', 'concurrent/mutex.cpp', 'concurrent/condition.cpp', 'concurrent/rwmutex.cpp', 'concurrent/internal.cpp', 'system/time_util.cpp']
ASSUMPTIONS = ['pthread operations return 0 on success and a nonzero code otherwise, and behave as POSIX specifies (mutual exclusion, atomic release-and-wait)', 'thread ids are positive and distinct for live threads', 'the recursion depth fits an int',
               'the conversion of a clock time to double is taken as an arbitrary double (its rounding is the subject of the stand-in)', 'the deadline in seconds fits the range of time_t']
SELF = z3.BitVec('self', 64)
NOW = z3.FP('now', z3.Float64())


def pthreads(E, st, during=None):
    """during(E, st, op): called while other threads may run (blocked in the operation)"""
    st.ghost.update(ev=())
    def op(name, blocking=False):
        def f(E, st, a, ins):
            ts = None
            if name.startswith('timed'):
                p = a[-1]; ts = (E.loadw(st, p, 8), E.loadw(st, Ptr(p.r, add64(p.o, 8)), 8))
            res = E.fresh(name + '.result', 32)
            if st.ghost.get('hook'): st.ghost['hook'](E, st, name)
            st.ghost['ev'] = st.ghost['ev'] + ((name, a, res, ts),)
            return res
        return f
    for n in ['mutex_init', 'mutex_destroy', 'mutex_lock', 'mutex_trylock', 'mutex_timedlock', 'mutex_unlock', 'cond_init', 'cond_destroy', 'cond_wait', 'cond_signal', 'cond_broadcast', 'rwlock_init', 'rwlock_destroy', 'rwlock_rdlock', 'rwlock_tryrdlock', 'rwlock_wrlock', 'rwlock_trywrlock', 'rwlock_unlock']:
        E.local_models.append(('pthread_' + n + '$', op(n)))
    for n in ['cond_timedwait', 'rwlock_timedrdlock', 'rwlock_timedwrlock']:
        E.local_models.append(('pthread_' + n + '$', op('timed ' + n)))
    E.local_models += [('pthread_rwlockattr_', ret0), (r'pfi::concurrent::thread::id\(\)', lambda E, st, a, ins: SELF)]
    def gtod(E, st, a, ins):
        s = E.fresh('now.s'); u = E.fresh('now.us'); E.assume(st, z3.And(z3.ULT(s, 1 << 40), z3.ULT(u, 1000000)))
        E.storew(st, a[0], s, 8); E.storew(st, Ptr(a[0].r, add64(a[0].o, 8)), u, 8)
        return 0
    E.local_models += [(r'pfi::concurrent::to_timespec\(double\)', tsmodel), ('gettimeofday$', gtod), (r'pfi::system::time::clock_time::operator double\(\) const', lambda E, st, a, ins: NOW)]


def one(E, st, f, a):
    done = []; E.start(st, E.func('^' + f + r'\('), a); E.run(st, lambda E, s, o: done.append((s, o)))
    if len(done) != 1: raise Unsupported(f + ' forks')
    E.prove(done[0][0], z3.BoolVal(done[0][1][0] == 'ret'), f + ' succeeds')
    return done[0][0]


def names(st): return [e[0] for e in st.ghost['ev']]
def reported(E, st, r, what): E.prove(st, tob(r) == (bv(st.ghost['ev'][-1][2], 32) == 0), what + ': reports success exactly when the system operation succeeded')
def only(E, st, ops, what): E.prove(st, z3.BoolVal(names(st) == ops), what + ': performs exactly the system operations ' + (', '.join(ops) or '(none)')); return names(st) == ops


def mk(E, rec):
    """a mutex made by the real constructor; its bookkeeping cells (holder, depth) are found by their initial values"""
    st = with_globals(E); E.local_models = []; E.mcache = {}; pthreads(E, st)
    E.assume(st, z3.And(SELF > 0, SELF < (1 << 31)))
    m = E.alloc(st, 64, 'mutex')
    st = one(E, st, 'vp_mk_rmutex' if rec else 'vp_mk_mutex', [m])
    only(E, st, ['mutex_init'], 'construction')
    mid = st.ghost['ev'][0][1][0]; st.ghost['ev'] = ()
    cs = st.mem[mid.r].cells
    iv = lambda v, w: v if isint(v) else conc(v)
    h = [o for o, (w, v) in cs.items() if w == 8 and isint(iv(v, 8)) and iv(v, 8) % (1 << 64) == (1 << 64) - 1]
    c = [o for o, (w, v) in cs.items() if w == 4 and isint(iv(v, 4)) and iv(v, 4) % (1 << 32) == (0 if rec else (1 << 32) - 1)]
    if len(h) != 1 or len(c) != 1: raise Unsupported('mutex bookkeeping not recognised')
    return st, m, mid, Ptr(mid.r, h[0]), Ptr(mid.r, c[0])


def setst(E, st, H, C, rec, own, n):
    """arbitrary bookkeeping consistent with: this thread holds the mutex (own) to depth n / does not hold it"""
    if own: E.storew(st, H, SELF, 8)
    else:
        h = E.fresh('holder'); E.assume(st, h != SELF); E.storew(st, H, h, 8)
    if rec:
        if own: E.storew(st, C, n, 4)
        else:
            d = E.fresh('depth', 32); E.assume(st, d >= 0); E.storew(st, C, d, 4)


def mutexes(rec):
    def p(E):
        st0, m, mid, H, C = mk(E, rec)
        n = E.fresh('depth', 32); E.assume(st0, z3.And(n >= 1, n < 0x7fffffff))
        ld = lambda st: (bv(E.loadw(st, H, 8), 64), bv(E.loadw(st, C, 4), 32))

        def hook(E, st, op):
            if op == 'mutex_lock': setst(E, st, H, C, rec, False, n)     # others ran while we were blocked
            if op == 'mutex_unlock':
                E.prove(st, ld(st)[0] != SELF, 'the bookkeeping no longer names this thread when the lock is released')
                if rec: E.prove(st, ld(st)[1] == 0, 'depth zero when the lock is released')
                setst(E, st, H, C, rec, False, n)
        # lock, not held by this thread
        st = st0.copy(); st.ghost['hook'] = hook; setst(E, st, H, C, rec, False, n)
        def l1(E, st, o):
            if not expect_ret(E, st, o) or not only(E, st, ['mutex_lock'], 'lock'): return
            reported(E, st, o[1], 'lock')
            E.prove(st, z3.BoolVal(st.ghost['ev'][0][1][0].r == mid.r), 'its own system mutex is locked')
            h, c = ld(st); r = tob(o[1])
            E.prove(st, r == (h == SELF), 'the bookkeeping names this thread exactly after success')
            if rec: E.prove(st, z3.Implies(r, c == 1), 'depth one after the first lock')
            else: E.prove(st, c == -1, 'a non-recursive mutex stays non-recursive')
        run(E, st, E.func(r'^vp_lock\('), [m], l1)
        # unlock, held by this thread
        st = st0.copy(); st.ghost['hook'] = hook; setst(E, st, H, C, rec, True, n)
        def u1(E, st, o):
            if not expect_ret(E, st, o): return
            h, c = ld(st)
            if not rec or 'mutex_unlock' in names(st):
                if not only(E, st, ['mutex_unlock'], 'unlock'): return
                if rec: E.prove(st, n == 1, 'the system mutex is released only by the outermost unlock')
                reported(E, st, o[1], 'unlock')
                E.prove(st, z3.BoolVal(st.ghost['ev'][0][1][0].r == mid.r), 'its own system mutex is released')
            else:
                only(E, st, [], 'nested unlock')
                E.prove(st, z3.And(n > 1, h == SELF, c == n - 1, tob(o[1])), 'nested unlock: counts down and stays held')
        run(E, st, E.func(r'^vp_unlock\('), [m], u1)
        if rec:
            st = st0.copy(); st.ghost['hook'] = hook; setst(E, st, H, C, rec, True, n)
            def l2(E, st, o):
                if not expect_ret(E, st, o) or not only(E, st, [], 'nested lock'): return
                h, c = ld(st); E.prove(st, z3.And(tob(o[1]), h == SELF, c == n + 1), 'nested lock: succeeds and counts up')
            run(E, st, E.func(r'^vp_lock\('), [m], l2)
            st = st0.copy(); st.ghost['hook'] = hook; setst(E, st, H, C, rec, False, n); b = ld(st)
            def u2(E, st, o):
                if not expect_ret(E, st, o) or not only(E, st, [], 'unlock of a mutex held by another thread'): return
                E.prove(st, z3.And(z3.Not(tob(o[1])), ld(st)[0] == b[0], ld(st)[1] == b[1]), 'unlock of a mutex held by another thread fails and changes nothing')
            run(E, st, E.func(r'^vp_unlock\('), [m], u2)
        st = st0.copy(); st.ghost['hook'] = None; st.ghost['ev'] = ()
        run(E, st, E.func(r'^vp_del_rmutex\(' if rec else r'^vp_del_mutex\('), [m], lambda E, st, o: expect_ret(E, st, o) and only(E, st, ['mutex_destroy'], 'destruction'))
    return p


def tsspec(s, ns, x):
    big = z3.fpToSBV(z3.RTZ(), x, z3.BitVecSort(64))
    ws = z3.If(big > 0, big, V64(0))
    fr = z3.fpToSBV(z3.RTZ(), z3.fpMul(z3.RNE(), z3.fpSub(z3.RNE(), x, z3.fpSignedToFP(z3.RNE(), s, z3.Float64())), z3.FPVal(1e9, z3.Float64())), z3.BitVecSort(64))
    return [('the deadline is a normalised time', z3.And(s >= 0, ns >= 0, ns < 1000000000)), ('the deadline is now plus the delay (seconds)', s == ws),
            ('the deadline is now plus the delay (fraction)', z3.Or(ns == fr, z3.And(fr < 0, ns == 0), z3.And(fr > 999999999, ns == 999999999)))]


UF = z3.Function('timespec.s', z3.Float64(), z3.BitVecSort(64)), z3.Function('timespec.ns', z3.Float64(), z3.BitVecSort(64))


def tsmodel(E, st, a, ins):
    """callers of to_timespec see its contract: the normalised time denoting the argument (S(x), N(x)), which the proof 'to_timespec' discharges"""
    s, n = UF[0](a[0]), UF[1](a[0])
    E.assume(st, z3.And(s >= 0, n >= 0, n < 1000000000))
    st.ghost['contract'] = True
    return [s, n]


def tospec(E):
    st = with_globals(E); E.local_models = []; E.mcache = {}
    x = z3.FP('x', z3.Float64()); E.assume(st, z3.And(z3.fpLT(x, z3.FPVal(9.0e18, z3.Float64())), z3.fpGT(x, z3.FPVal(-9.0e9, z3.Float64()))))
    def post(E, st, o):
        if not expect_ret(E, st, o): return
        for nm, f in tsspec(bv(o[1][0], 64), bv(o[1][1], 64), x): E.prove(st, f, nm)
    run(E, st, E.func(r'^pfi::concurrent::to_timespec\(double\)'), [x], post)


def deadline(E, st, ts, sec, what):
    s, ns = bv(ts[0], 64), bv(ts[1], 64)
    x = z3.fpAdd(z3.RNE(), NOW, sec)
    if st.ghost.get('contract'):
        E.prove(st, z3.And(s == UF[0](x), ns == UF[1](x)), what + ': the deadline is the normalised time of now plus the delay'); return
    for nm, f in tsspec(s, ns, x): E.prove(st, f, what + ': ' + nm)


def inrange(E, st, sec):
    x = z3.fpAdd(z3.RNE(), NOW, sec)
    E.assume(st, z3.And(z3.fpLT(x, z3.FPVal(9.0e18, z3.Float64())), z3.fpGT(x, z3.FPVal(-9.0e9, z3.Float64())), z3.fpGEQ(NOW, z3.FPVal(0, z3.Float64()))))


def conds(rec):
    def p(E):
        st0, m, mid, H, C = mk(E, rec)
        n = E.fresh('depth', 32); E.assume(st0, z3.And(n >= 1, n < 0x7fffffff))
        c = E.alloc(st0, 64, 'condition')
        st0 = one(E, st0, 'vp_mk_cond', [c])
        only(E, st0, ['cond_init'], 'construction'); cid = st0.ghost['ev'][0][1][0]; st0.ghost['ev'] = ()
        sec = z3.FP('sec', z3.Float64()); inrange(E, st0, sec)
        ld = lambda st: (bv(E.loadw(st, H, 8), 64), bv(E.loadw(st, C, 4), 32))

        def hook(E, st, op):
            if 'wait' in op:
                if rec: E.prove(st, z3.And(ld(st)[0] != SELF), 'while waiting the bookkeeping of a recursive mutex does not name this thread')
                E.storew(st, H, E.fresh('holder'), 8)       # other threads held it meanwhile
                if rec: E.storew(st, C, E.fresh('depth', 32), 4)
        for own in (True, False):
            for timed in (False, True):
                st = st0.copy(); st.ghost['hook'] = hook; setst(E, st, H, C, rec, own, n); b = ld(st)
                op = 'timed cond_timedwait' if timed else 'cond_wait'
                def post(E, st, o):
                    if not expect_ret(E, st, o): return
                    what = 'timed wait' if timed else 'wait'
                    if not own:
                        only(E, st, [], what + ' without holding the mutex')
                        if timed: E.prove(st, z3.Not(tob(o[1])), 'a timed wait without holding the mutex reports failure')
                        E.prove(st, z3.And(ld(st)[0] == b[0], ld(st)[1] == b[1]), 'nothing changes')
                        return
                    if not only(E, st, [op], what): return
                    a = st.ghost['ev'][0][1]
                    E.prove(st, z3.BoolVal(a[0].r == cid.r and a[1].r == mid.r), what + ': on this condition and this mutex')
                    h, d = ld(st)
                    E.prove(st, h == SELF, what + ': this thread is the holder again afterwards')
                    E.prove(st, d == (n if rec else -1), what + ': the recursion depth is restored')
                    if timed:
                        reported(E, st, o[1], what)
                        deadline(E, st, st.ghost['ev'][0][3], sec, what)
                run(E, st, E.func(r'^vp_%s\(' % ('twait' if timed else 'wait')), [c, m] + ([sec] if timed else []), post)
        for f, op in (('vp_notify', 'cond_signal'), ('vp_notify_all', 'cond_broadcast')):
            run(E, st0.copy(), E.func('^' + f + r'\('), [c], lambda E, st, o: expect_ret(E, st, o) and only(E, st, [op], f[3:]) and E.prove(st, z3.BoolVal(st.ghost['ev'][0][1][0].r == cid.r), 'on this condition'))
    return p


def mkrw(E, body):
    """body(st, m) is run on every outcome of the real constructor"""
    st = with_globals(E); E.local_models = []; E.mcache = {}; pthreads(E, st)
    m = E.alloc(st, 64, 'rw_mutex')
    def made(E, s, o):
        E.prove(s, z3.BoolVal(o[0] == 'ret'), 'construction returns')
        if not only(E, s, ['rwlock_init'], 'construction'): return
        s = s.copy(); s.ghost['ok'] = bv(s.ghost['ev'][0][2], 32) == 0; s.ghost['lid'] = s.ghost['ev'][0][1][0].r; s.ghost['ev'] = ()
        body(s, m)
    run(E, st, E.func(r'^vp_mk_rw\('), [m], made)


TINY = z3.FPVal(1e-9, z3.Float64())


def rwexpect(E, st, kind, sec):
    """(condition, operation) alternatives"""
    if sec is None: return [(z3.BoolVal(True), 'rwlock_' + kind)]
    return [(z3.fpLT(sec, TINY), 'rwlock_try' + kind), (z3.Not(z3.fpLT(sec, TINY)), 'timed rwlock_timed' + kind)]


def rwlocks(E):
    sec = z3.FP('sec', z3.Float64())
    def body(st0, m):
        inrange(E, st0, sec); ok = st0.ghost['ok']
        for f, kind, s in (('vp_rl', 'rdlock', None), ('vp_rlt', 'rdlock', sec), ('vp_wl', 'wrlock', None), ('vp_wlt', 'wrlock', sec), ('vp_ul', 'unlock', None)):
            def post(E, st, o):
                if not expect_ret(E, st, o): return
                ev = st.ghost['ev']
                if not ev:
                    E.prove(st, z3.Not(ok), f + ': an initialised lock performs the system operation')
                    E.prove(st, z3.Not(tob(o[1])), f + ': a lock that could not be initialised always fails')
                    return
                E.prove(st, ok, f + ': a lock that could not be initialised is not used')
                E.prove(st, z3.BoolVal(len(ev) == 1), f + ': exactly one system operation')
                for c, op in rwexpect(E, st, kind, s): E.prove(st, z3.Implies(c, z3.BoolVal(ev[0][0] == op)), f + ': the matching system operation ' + op)
                E.prove(st, z3.BoolVal(ev[0][1][0].r == st.ghost['lid']), f + ': on its own lock')
                reported(E, st, o[1], f)
                if ev[0][3]: deadline(E, st, ev[0][3], sec, f)
            sub(E, st0, E.func('^' + f + r'\('), [m] + ([s] if s is not None else []), post)
        def de(E, st, o):
            if not expect_ret(E, st, o): return
            E.prove(st, z3.If(ok, z3.BoolVal(names(st) == ['rwlock_destroy']), z3.BoolVal(names(st) == [])), 'destroyed exactly if initialised')
        sub(E, st0, E.func(r'^vp_del_rw\('), [m], de)
    mkrw(E, body)


def scoped(E):
    st0 = with_globals(E); E.local_models = []; E.mcache = {}; pthreads(E, st0)
    def log(n, ret):
        def f(E, st, a, ins):
            st.ghost['ev'] = st.ghost['ev'] + ((n, a, None, None),)
            if ret == 'b':
                b = E.fresh(n, 1); return Outcomes([(b, lambda E, s: (s.ghost.__setitem__('won', True), 1)[1]), (z3.Not(b), lambda E, s: (s.ghost.__setitem__('won', False), 0)[1])])
            return Outcomes([(None, lambda E, s: None), (None, lambda E, s: Throw(Exc('_ZTIi')))]) if ret == 't' else 1
        return f
    E.local_models += [(r'ext_lock\(\)', log('lock', 'b')), (r'ext_unlock\(\)', log('unlock', 1)), (r'ext_body\(bool\)', log('body', 't'))]
    for f in ('vp_scoped', 'vp_sync', 'vp_scoped_ptr'):
        st = st0.copy(); st.ghost['ev'] = (); st.ghost['won'] = None
        def post(E, st, o):
            ev = st.ghost['ev']; ns = [e[0] for e in ev]; won = st.ghost['won']
            E.prove(st, z3.BoolVal(ns.count('lock') == 1 and ns[0] == 'lock'), f + ': locks exactly once, first')
            E.prove(st, z3.BoolVal(ns.count('unlock') == (1 if won else 0)), f + ': unlocks exactly once if the lock was obtained, never otherwise, also when the block throws')
            if won: E.prove(st, z3.BoolVal(ns[-1] == 'unlock'), f + ': released after the block')
            if f == 'vp_sync': E.prove(st, z3.BoolVal(('body' in ns) == bool(won)), f + ': the block runs exactly if the lock is held')
            for n, a, _, _ in ev:
                if n == 'body': E.prove(st, tob(a[0]) == z3.BoolVal(bool(won)), f + ': the lock reports itself held exactly if it was obtained')
        run(E, st, E.func('^' + f + r'\('), [], post)


def scopedrw(E):
    sec = z3.FP('sec', z3.Float64())
    def block(E, st, a, ins):
        st.ghost['ev'] = st.ghost['ev'] + (('body', a, None, None),)
        return Outcomes([(None, lambda E, s: None), (None, lambda E, s: Throw(Exc('_ZTIi')))])
    def body(st0, m):
        E.local_models.append((r'ext_body\(bool\)', block)); E.mcache = {}
        inrange(E, st0, sec); ok = st0.ghost['ok']
        for f, kind, s in (('vp_srl', 'rdlock', None), ('vp_swl', 'wrlock', None), ('vp_srlt', 'rdlock', sec), ('vp_swlt', 'wrlock', sec), ('vp_srl_copy', 'rdlock', None), ('vp_rlock', 'rdlock', None), ('vp_wlock', 'wrlock', None), ('vp_rlockt', 'rdlock', sec), ('vp_wlockt', 'wrlock', sec)):
            st = st0.copy(); st.ghost['ev'] = ()
            # scoped_rwlock documents a negative delay as "no time limit"
            if f in ('vp_srlt', 'vp_swlt'): E.assume(st, z3.fpGEQ(sec, z3.FPVal(0, z3.Float64())))
            def post(E, st, o):
                ev = st.ghost['ev']; lk = [e for e in ev if e[0] not in ('body', 'rwlock_unlock')]; un = [e for e in ev if e[0] == 'rwlock_unlock']
                E.prove(st, z3.BoolVal(len(lk) <= 1), f + ': at most one lock operation')
                if lk:
                    for c, op in rwexpect(E, st, kind, s): E.prove(st, z3.Implies(c, z3.BoolVal(lk[0][0] == op)), f + ': the matching system operation ' + op)
                else: E.prove(st, z3.Not(ok), f + ': an initialised lock is locked')
                won = z3.And(ok, bv(lk[0][2], 32) == 0) if lk else z3.BoolVal(False)
                E.prove(st, z3.If(won, z3.BoolVal(len(un) == 1), z3.BoolVal(not un)), f + ': released exactly once if obtained, never otherwise')
                E.prove(st, z3.Implies(won, z3.BoolVal(ev[-1][0] == 'rwlock_unlock' if ev else False)), f + ': released after the block')
                for e in ev:
                    if e[0] == 'body': E.prove(st, tob(e[1][0]) == won, f + ': reports itself held exactly if obtained')
            sub(E, st, E.func('^' + f + r'\('), [m] + ([s] if s is not None else []), post)
    mkrw(E, body)


PROOFS = [dict(name='to_timespec', src=SRC, fn=tospec, functions=['pfi::concurrent::to_timespec']), dict(name='mutex', src=SRC, fn=mutexes(False), functions=['mutex_base::lock', 'mutex_base::unlock', 'mutex_base::impl::*']), dict(name='recursive mutex', src=SRC, fn=mutexes(True), functions=['mutex_base::lock', 'mutex_base::unlock', 'mutex_base::impl::*']),
          dict(name='condition on a mutex', src=SRC, fn=conds(False), functions=['condition::*', 'condition_impl::*', 'to_timespec']), dict(name='condition on a recursive mutex', src=SRC, fn=conds(True), functions=['condition::*', 'condition_impl::*', 'to_timespec']),
          dict(name='read-write mutex', src=SRC, fn=rwlocks, functions=['rw_mutex::*', 'rw_mutex::impl::*', 'to_timespec']), dict(name='scoped_lock', src=SRC, fn=scoped, functions=['scoped_lock::*', 'safe_bool<scoped_lock>']),
          dict(name='scoped read-write locks', src=SRC, fn=scopedrw, functions=['scoped_rwlock<LF>::*', 'rlocker::*', 'wlocker::*', 'rlock', 'wlock'])]
WR = ['pthread_' + x for x in 'mutex_init mutex_destroy mutex_lock mutex_trylock mutex_unlock cond_init cond_destroy cond_wait cond_timedwait cond_signal cond_broadcast rwlock_init rwlock_destroy rwlock_rdlock rwlock_wrlock rwlock_tryrdlock rwlock_trywrlock rwlock_timedrdlock rwlock_timedwrlock rwlock_unlock'.split()] + ['gettimeofday']
HARNESS = [dict(src='c09.cpp', repo=['concurrent/mutex.cpp', 'concurrent/condition.cpp', 'concurrent/rwmutex.cpp', 'concurrent/internal.cpp', 'system/time_util.cpp'], budget=2, bound='random results of every system operation, delays 0 to 1e9 s, recursion depth up to 12',
                flags=['-D_REENTRANT'], libs=['-Wl,' + ','.join('--wrap=' + x for x in WR), '-lpthread'])]
