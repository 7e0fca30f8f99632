"""Monitor rule for mutex-protected state: on acquiring the lock (and after every condition wait) the protected state is arbitrary
within the invariant; on release and before every wait it must satisfy the invariant again; a changed state must be followed by a
notify_all made in the same critical section or after it.  Every critical section is recorded as a transition (before, after)."""
from common import *

MB = r'pfi::concurrent::mutex_base::'
CO = r'pfi::concurrent::condition::'


class Shared:
    """abstract protected value: fresh(E, st) -> value; inv(E, v) -> formula; eq(E, a, b) -> formula (at the fixed ghost index)"""
    def __init__(self, ptr, w, fresh, inv, eq, scalar=False):
        self.scalar = scalar; self.ptr = ptr; self.w = w; self.fresh = fresh; self.inv = inv; self.eq = eq


class Opt:
    """abstract owning pointer to an int: full flag and the region holding the content; val: the content in a snapshot"""
    def __init__(self, full, cell, val=None): self.full = full; self.cell = cell; self.val = val
    def havoc(self, E): return Opt(E.fresh('full', 1), None, E.fresh('content', 32))


SP = r'std::(__shared_ptr|__shared_ptr_access)<int, .*>::'


def opt_fresh(E, st, full=None, val=None):
    c = E.alloc(st, 4, 'content')
    st.mem[c.r].cells[0] = (4, E.fresh('content', 32) if val is None else val)
    return Opt(E.fresh('full', 1) if full is None else full, c)


def opt_models(E):
    get = lambda E, st, p: E.obj(st, p)
    def tobool(E, st, a, ins): return tob(get(E, st, a[0]).full)
    def deref(E, st, a, ins):
        v = get(E, st, a[0]); E.prove(st, tob(v.full), 'only a full variable is dereferenced', 'memory')
        if v.cell is None: v = opt_fresh(E, st, v.full, v.val); E.setobj(st, a[0], v, 16)
        return v.cell
    def rst(E, st, a, ins): E.setobj(st, a[0], opt_fresh(E, st, 0), 16); return None
    def rst1(E, st, a, ins):
        x = E.loadw(st, a[1], 4); E.setobj(st, a[0], opt_fresh(E, st, 1, x), 16)
        return None
    E.local_models += [('^' + SP + r'operator bool\(\) const', tobool), ('.*' + SP + r'operator\*\(\) const', deref), ('^(void )?' + SP + r'reset\(\)', rst), (r'.*::reset<int>\(int\*\)', rst1),
                       ('^' + SP + r'__shared_ptr\(\)', rst), ('^' + SP + r'__shared_ptr<int, void>\(int\*\)', rst1), ('^' + SP + r'~__shared_ptr\(\)', nop)]


def opt_shared(E, ptr):
    sh = Shared(ptr, 16, lambda E, st: opt_fresh(E, st), lambda E, v: z3.BoolVal(True),
                lambda E, a, b: z3.And(tob(a.full) == tob(b.full), z3.Implies(tob(a.full), bv(a.val, 32) == bv(b.val, 32))))
    sh.snap = lambda E, st, v: Opt(v.full, v.cell, E.loadw(st, v.cell, 4) if v.cell is not None else v.val)
    return sh


class Monitor:
    def __init__(self, E, st, sh, recursive, can_wait=None):
        self.sh = sh; self.snap = getattr(sh, 'snap', lambda E, st, v: v); self.recursive = recursive; self.can_wait = can_wait
        self.g = E.alloc(st, 8 + sh.w, 'ghost')
        st.ghost.update(held=0, trans=(), note=(), seen=())
        self.outside(E, st)
        E.local_models += [(MB + r'lock\(\)', self.lock), (MB + r'unlock\(\)', self.unlock), (MB + r'mutex_base\(bool\)', nop), (MB + r'~mutex_base\(\)', nop),
                           (CO + r'condition\(\)', nop), (CO + r'~condition\(\)', nop), (CO + r'notify_all\(\)', self.notify_all), (CO + r'notify\(\)', self.notify),
                           (CO + r'wait\(pfi::concurrent::mutex_base const&\)', self.wait), (CO + r'wait\(pfi::concurrent::mutex_base const&, double\)', self.timedwait)]
        E.loopspecs.append(LoopSpec(self.inv, name='wait loop', peel=1, func=lambda E, st, fr, label: st.ghost['held'] > 0 and self.has_wait(E, fr.f, label)))

    def has_wait(self, E, f, label):
        for b in f.loops()[label]:
            for i in f.blocks[b]:
                if i.op in ('call', 'invoke') and i.x['callee'].k == 'global' and 'condition::wait' in demangle(i.x['callee'].v): return True
        return False

    def put(self, E, st, v):
        if self.sh.scalar: E.storew(st, self.sh.ptr, v, self.sh.w)
        else: E.setobj(st, self.sh.ptr, v, self.sh.w)

    def cur(self, E, st): return E.loadw(st, self.sh.ptr, self.sh.w) if self.sh.scalar else self.snap(E, st, E.obj(st, self.sh.ptr))
    def acq(self, E, st): return E.loadw(st, Ptr(self.g.r, 8), self.sh.w) if self.sh.scalar else E.obj(st, Ptr(self.g.r, 8))
    def same(self, E, st): return self.sh.eq(E, self.acq(E, st), self.cur(E, st))

    def inv(self, E, st, k, entry):
        return [('lock held across the wait', z3.BoolVal(st.ghost['held'] == entry.ghost['held'])), ('no earlier effect', z3.BoolVal(st.ghost['trans'] == entry.ghost['trans'])),
                ('state unchanged since it was acquired', self.same(E, st)), ('invariant', self.sh.inv(E, self.cur(E, st)))]

    def havoc(self, E, st):
        v = self.sh.fresh(E, st)
        E.assume(st, self.sh.inv(E, v))
        self.put(E, st, v)
        if self.sh.scalar: E.storew(st, Ptr(self.g.r, 8), v, self.sh.w)
        else: E.setobj(st, Ptr(self.g.r, 8), self.snap(E, st, v), self.sh.w)
        st.ghost['insec'] = False

    def outside(self, E, st):
        """while the lock is not held the state is arbitrary to a reader, and must not be written"""
        v = self.sh.fresh(E, st)
        self.put(E, st, v)
        if self.sh.scalar: E.storew(st, Ptr(self.g.r, 8), v, self.sh.w)
        else: E.setobj(st, Ptr(self.g.r, 8), self.snap(E, st, v), self.sh.w)

    def lock(self, E, st, a, ins):
        h = st.ghost['held']
        if h == 0:
            E.prove(st, self.same(E, st), 'the state is not written without the lock', 'monitor')
            self.havoc(E, st)
        else: E.prove(st, z3.BoolVal(self.recursive), 'a non-recursive mutex is not locked twice', 'lock')
        st.ghost['held'] = h + 1
        return 1

    def unlock(self, E, st, a, ins):
        h = st.ghost['held']
        E.prove(st, z3.BoolVal(h > 0), 'only a held lock is released', 'lock')
        st.ghost['held'] = h - 1
        if h == 1:
            E.prove(st, self.sh.inv(E, self.cur(E, st)), 'invariant re-established at release', 'monitor')
            st.ghost['trans'] = st.ghost['trans'] + ((self.acq(E, st), self.cur(E, st)),)
            st.ghost['note'] = st.ghost['note'] + (bool(st.ghost.get('insec')),)
            st.ghost['seen'] = st.ghost['seen'] + (self.acq(E, st),)
            self.outside(E, st)
        return 1

    def notify_all(self, E, st, a, ins):
        st.ghost['insec'] = True; st.ghost['note'] = tuple(True for _ in st.ghost['note'])
        return None

    def notify(self, E, st, a, ins): return None

    def prewait(self, E, st):
        E.prove(st, z3.BoolVal(st.ghost['held'] > 0), 'the lock is held when waiting', 'lock')
        E.prove(st, self.sh.inv(E, self.cur(E, st)), 'invariant holds when waiting', 'monitor')
        if not st.ghost.get('insec'): E.prove(st, self.same(E, st), 'no unnotified change is left before waiting', 'monitor')
        if self.can_wait: E.prove(st, self.can_wait(E, st, self.cur(E, st)), 'waits only while the operation cannot proceed', 'monitor')

    def wait(self, E, st, a, ins):
        self.prewait(E, st); st.ghost['seen'] = st.ghost['seen'] + (self.cur(E, st),); self.havoc(E, st)
        return None

    def timedwait(self, E, st, a, ins):
        self.prewait(E, st); st.ghost['seen'] = st.ghost['seen'] + (self.cur(E, st),); self.havoc(E, st)
        b = E.fresh('signalled', 1)
        return Outcomes([(b, lambda E, s: 1), (z3.Not(b), lambda E, s: 0)])

    def finish(self, E, st, rel, what, must=True):
        """at return: exactly the transitions in rel's sense; rel(before, after) -> list of (name, formula), None: no effect allowed"""
        E.prove(st, z3.BoolVal(st.ghost['held'] == 0), 'the lock is released on return', 'lock')
        E.prove(st, self.same(E, st), what + ': the state is not written without the lock', 'monitor')
        ts = st.ghost['trans']
        if rel is None:
            for a, b in ts: E.prove(st, self.sh.eq(E, a, b), what + ': the state is unchanged')
            return
        E.prove(st, z3.BoolVal(len(ts) > 0), what + ': the state was accessed under the lock')
        if not ts: return
        for a, b in ts[:-1]: E.prove(st, self.sh.eq(E, a, b), what + ': a single atomic effect')
        for nm, fm in rel(*ts[-1]): E.prove(st, fm, what + ': ' + nm)
        if must:
            E.prove(st, z3.Or(z3.BoolVal(st.ghost['note'][-1]), self.sh.eq(E, *ts[-1])), what + ': the change is followed by notify_all', 'monitor')


def deque_shared(E, ptr, bound, J, idx):
    """a std::deque<int> at ptr holding at most bound elements, compared at the indices idx"""
    def fresh(E, st):
        n = E.fresh('len'); E.assume(st, z3.ULT(n, 1 << 40))
        return Seq(ArrN(E.fresharr('q', 32)), n, 4, 'deque', next(E.cnt), None)
    inv = (lambda E, v: z3.ULE(b64(v.len), bound)) if bound is not None else (lambda E, v: z3.BoolVal(True))
    def eq(E, a, b): return z3.And(b64(a.len) == b64(b.len), *[z3.Implies(z3.ULT(b64(i), b64(a.len)), bv(a.at(i), 32) == bv(b.at(i), 32)) for i in idx])
    return Shared(ptr, 80, fresh, inv, eq)


def sched(src, bound, budget=4, repo=()):
    """stand-in that explores schedules of the real code: pthread operations replaced at link time by scheduling points"""
    w = ['pthread_mutex_init', 'pthread_mutex_destroy', 'pthread_cond_init', 'pthread_cond_destroy', 'pthread_mutex_lock', 'pthread_mutex_trylock', 'pthread_mutex_unlock', 'pthread_cond_wait', 'pthread_cond_timedwait', 'pthread_cond_signal',
         'pthread_cond_broadcast', 'gettimeofday']
    return dict(src=src, repo=['concurrent/mutex.cpp', 'concurrent/condition.cpp', 'concurrent/internal.cpp', 'system/time_util.cpp'] + list(repo), budget=budget, bound=bound, asan=False, leaks=False,
                flags=['-D_REENTRANT'], libs=['-Wl,' + ','.join('--wrap=' + x for x in w), '-lpthread'])
