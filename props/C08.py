"""qsem under the monitor rule: the protected state is the number of available units."""
from monitor import *
SRC = ['inst/c08.cpp']
ASSUMPTIONS = ['locking a valid mutex succeeds and mutual exclusion, atomic release-and-wait and broadcast behave as POSIX specifies (the wrappers are the subject of C09)',
               'initial quantity and requests are not negative, and the units supplied in total fit an int', 'liveness is reduced to: every signal is notified to all waiters, and waiters re-check their condition under the lock']


def setup(E, q, can_wait=True, limit=None):
    st = with_globals(E)
    obj = E.alloc(st, 400, 'qsem')
    st.ghost.update(held=0)
    E.local_models += [(MB + r'mutex_base\(bool\)', nop), (CO + r'condition\(\)', nop)]
    done = []; q0 = E.fresh('initial', 32); E.assume(st, q0 >= 0)
    E.start(st, E.func('vp_make'), [obj, q0]); E.run(st, lambda E, s, o: done.append((s, o)))
    if len(done) != 1: raise Unsupported('constructor forks')
    st = done[0][0]
    E.prove(st, z3.BoolVal(done[0][1][0] == 'ret'), 'construction succeeds')
    off = [o for o, (w, x) in st.mem[obj.r].cells.items() if w == 4 and not isint(x) and z3.is_expr(x) and x.eq(q0)]
    if len(off) != 1: raise Unsupported('the number of units is not one int member initialised with the argument')
    E.local_models = []; E.mcache = {}
    def fresh(E, st):
        v = E.fresh('units', 32)
        if limit is not None: E.assume(st, v <= 0x7fffffff - limit)
        return v
    sh = Shared(Ptr(obj.r, off[0]), 4, fresh, lambda E, v: bv(v, 32) >= 0, lambda E, a, b: bv(a, 32) == bv(b, 32), scalar=True)
    m = Monitor(E, st, sh, True, lambda E, st, v: bv(v, 32) < q)
    E.input_terms = [('q', q)]
    return st, obj, m


def waits(E):
    for fn, q in (('vp_wait', E.fresh('q', 32)), ('vp_wait1', z3.BitVecVal(1, 32)), ('vp_lock', z3.BitVecVal(1, 32))):
        E.local_models = []; E.loopspecs = []; E.mcache = {}
        st, obj, m = setup(E, q); E.assume(st, q >= 0)
        def post(E, st, o):
            if not expect_ret(E, st, o): return
            E.prove(st, tob(o[1]), fn + ': reports success')
            m.finish(E, st, lambda a, b: [('enough units were available', bv(a, 32) >= q), ('exactly q units are taken', bv(b, 32) == bv(a, 32) - q)], fn[3:], must=False)
        run(E, st, E.func('^' + fn + r'\('), [obj] + ([q] if fn == 'vp_wait' else []), post)


def signals(E):
    for fn, q in (('vp_signal', E.fresh('q', 32)), ('vp_signal1', z3.BitVecVal(1, 32)), ('vp_unlock', z3.BitVecVal(1, 32))):
        E.local_models = []; E.loopspecs = []; E.mcache = {}
        st, obj, m = setup(E, q, limit=q); E.assume(st, q >= 0)
        def post(E, st, o):
            if not expect_ret(E, st, o): return
            E.prove(st, tob(o[1]), fn + ': reports success')
            m.finish(E, st, lambda a, b: [('exactly q units are added', bv(b, 32) == bv(a, 32) + q)], fn[3:])
        run(E, st, E.func('^' + fn + r'\('), [obj] + ([q] if fn == 'vp_signal' else []), post)


F = lambda *n: ['pfi::concurrent::qsem::' + x for x in n] + ['pfi::concurrent::scoped_lock']
PROOFS = [dict(name='wait and lock', src=SRC, fn=waits, functions=F('qsem', 'wait', 'lock')), dict(name='signal and unlock', src=SRC, fn=signals, functions=F('signal', 'unlock'))]
HARNESS = [sched('c08.cpp', bound='2 to 4 threads of 1 to 4 operations, quantities 0 to 4, random schedules with spurious wake-ups')]
