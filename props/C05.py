"""pcbuf under the monitor rule."""
from monitor import *
SRC = ['inst/c05.cpp', 'system/time_util.cpp']
N = r'pfi::concurrent::pcbuf<int>::'
ASSUMPTIONS = ['locking a valid mutex succeeds and mutual exclusion, atomic release-and-wait and broadcast behave as POSIX specifies (the wrappers are the subject of C09)',
               'element type int; the template is instantiated for it', 'liveness is reduced to: every change is notified to all waiters, and waiters re-check their condition under the lock (fairness of the scheduler is not modelled)']


def setup(E, can_wait=None):
    st = with_globals(E)
    cap = E.fresh('capacity'); E.assume(st, z3.ULT(cap, 1 << 39))
    obj = E.alloc(st, 400, 'pcbuf')
    st.ghost.update(held=0)
    f = E.func('^' + N + r'pcbuf\(unsigned long\)')
    E.local_models += [(MB + r'mutex_base\(bool\)', nop), (CO + r'condition\(\)', nop)]
    done = []
    E.start(st, f, [obj, cap]); E.run(st, lambda E, s, o: done.append((s, o)))
    if len(done) != 1: raise Unsupported('constructor forks')
    st = done[0][0]
    E.prove(st, z3.BoolVal(done[0][1][0] == 'ret'), 'construction succeeds')
    off = [o for o, (w, v) in st.mem[obj.r].cells.items() if isinstance(v, Seq)]
    if len(off) != 1: raise Unsupported('the buffer does not hold exactly one queue')
    E.prove(st, z3.BoolVal(st.mem[obj.r].cells[off[0]][1].len == 0) if isint(st.mem[obj.r].cells[off[0]][1].len) else b64(st.mem[obj.r].cells[off[0]][1].len) == 0, 'a new buffer is empty')
    E.local_models = []; E.mcache = {}
    J = E.fresh('J')
    sh = deque_shared(E, Ptr(obj.r, off[0]), cap, J, [J, simp(J + 1), V64(0)])
    m = Monitor(E, st, sh, False, can_wait and (lambda E, st, v: can_wait(v, cap)))
    clock(E)
    E.input_terms = [('capacity', cap), ('J', J)]
    return st, obj, cap, J, m


def clock(E):
    def gtod(E, st, a, ins):
        s = E.fresh('now.s'); u = E.fresh('now.us'); E.assume(st, z3.And(z3.ULT(s, 1 << 40), z3.ULT(u, 1000000)))
        E.storew(st, a[0], s, 8); E.storew(st, Ptr(a[0].r, add64(a[0].o, 8)), u, 8)
        return 0
    E.local_models.append(('gettimeofday$', gtod))
    E.local_models.append((r'pfi::system::time::clock_time::operator double\(\) const', lambda E, st, a, ins: z3.FP('now!%d' % next(E.cnt), z3.Float64())))


def pushed(E, cap, J, v):
    def rel(a, b):
        return [('there was room', z3.ULT(b64(a.len), cap)), ('one element more', b64(b.len) == b64(a.len) + 1), ('the new element is last', bv(b.at(a.len), 32) == v),
                ('the elements before it are unchanged', z3.Implies(z3.ULT(J, b64(a.len)), bv(b.at(J), 32) == bv(a.at(J), 32)))]
    return rel


def popped(E, cap, J, out):
    def rel(a, b):
        return [('there was an element', b64(a.len) != 0), ('one element less', b64(b.len) == b64(a.len) - 1), ('the oldest element is delivered', out == bv(a.at(0), 32)),
                ('the rest keeps its order', z3.Implies(z3.ULT(J, b64(b.len)), bv(b.at(J), 32) == bv(a.at(simp(J + 1)), 32)))]
    return rel


def push(timed):
    def p(E):
        st, obj, cap, J, m = setup(E, lambda v, cap: z3.UGE(b64(v.len), cap))
        vp = E.alloc(st, 4, 'value'); v = E.fresh('value', 32); st.mem[vp.r].cells[0] = (4, v)
        sec = z3.FP('sec', z3.Float64())

        def post(E, st, o):
            if not expect_ret(E, st, o): return
            if timed and isint(o[1]) or timed:
                r = conc(o[1]) if not isint(o[1]) else o[1]
                if not isint(r): raise Unsupported('undecided result')
                if not r & 1: E.prove(st, z3.Or(*[z3.UGE(b64(a.len), cap) for a in st.ghost['seen']]), 'timed push gives up only after finding the buffer full')
                m.finish(E, st, pushed(E, cap, J, v) if r & 1 else None, 'timed push returning ' + ('true' if r & 1 else 'false'))
            else: m.finish(E, st, pushed(E, cap, J, v), 'push')
        run(E, st, E.func('^(void |bool )?' + N + (r'push\(int const&, double\)' if timed else r'push\(int const&\)')), [obj, vp] + ([sec] if timed else []), post)
    return p


def pop(timed):
    def p(E):
        st, obj, cap, J, m = setup(E, lambda v, cap: b64(v.len) == 0)
        vp = E.alloc(st, 4, 'value'); v0 = E.fresh('old', 32); st.mem[vp.r].cells[0] = (4, v0)
        sec = z3.FP('sec', z3.Float64())

        def post(E, st, o):
            if not expect_ret(E, st, o): return
            out = bv(E.loadw(st, vp, 4), 32)
            if timed:
                r = conc(o[1]) if not isint(o[1]) else o[1]
                if not isint(r): raise Unsupported('undecided result')
                if not r & 1: E.prove(st, out == v0, 'a pop that timed out leaves its argument alone')
                if not r & 1: E.prove(st, z3.Or(*[b64(a.len) == 0 for a in st.ghost['seen']]), 'timed pop gives up only after finding the buffer empty')
                m.finish(E, st, popped(E, cap, J, out) if r & 1 else None, 'timed pop returning ' + ('true' if r & 1 else 'false'))
            else: m.finish(E, st, popped(E, cap, J, out), 'pop')
        run(E, st, E.func('^(void |bool )?' + N + (r'pop\(int&, double\)' if timed else r'pop\(int&\)')), [obj, vp] + ([sec] if timed else []), post)
    return p


def queries(E):
    st0, obj, cap, J, m = setup(E)

    def chk(sp, nm):
        def post(E, st, o):
            if not expect_ret(E, st, o): return
            m.finish(E, st, None, nm)
            ts = st.ghost['trans']
            E.prove(st, sp(ts[-1][0] if ts else None, o[1]), nm + ': result')
        return post
    run(E, st0.copy(), E.func('^' + N + r'size\(\) const'), [obj], chk(lambda a, r: b64(r) == b64(a.len), 'size'))
    run(E, st0.copy(), E.func('^' + N + r'empty\(\) const'), [obj], chk(lambda a, r: tob(r) == (b64(a.len) == 0), 'empty'))
    run(E, st0.copy(), E.func('^' + N + r'capacity\(\) const'), [obj], chk(lambda a, r: b64(r) == cap, 'capacity'))

    def cl(E, st, o):
        if not expect_ret(E, st, o): return
        m.finish(E, st, lambda a, b: [('no element left', b64(b.len) == 0)], 'clear')
    run(E, st0.copy(), E.func('^' + N + r'clear\(\)'), [obj], cl)


F = lambda *n: ['pfi::concurrent::pcbuf<T>::' + x for x in n] + ['pfi::concurrent::scoped_lock']
PROOFS = [dict(name='push', src=SRC, fn=push(False), functions=F('push(const T&)')), dict(name='timed push', src=SRC, fn=push(True), functions=F('push(const T&,double)')),
          dict(name='pop', src=SRC, fn=pop(False), functions=F('pop(T&)')), dict(name='timed pop', src=SRC, fn=pop(True), functions=F('pop(T&,double)')),
          dict(name='queries and clear', src=SRC, fn=queries, functions=F('pcbuf', 'size', 'empty', 'capacity', 'clear'))]
HARNESS = [sched('c05.cpp', bound='2 to 4 threads of 1 to 5 operations, capacity 0 to 3, random schedules with spurious wake-ups and time-outs')]
