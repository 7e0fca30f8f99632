"""mvar under the monitor rule; the content is an abstract optional value."""
from monitor import *
SRC = ['inst/c06.cpp']
N = r'pfi::concurrent::mvar<int>::'
ASSUMPTIONS = ['locking a valid mutex succeeds and mutual exclusion, atomic release-and-wait and broadcast behave as POSIX specifies (the wrappers are the subject of C09)', 'element type int',
               'std::shared_ptr is modelled as an optional value (reset, test and dereference); its reference counting is trusted', 'liveness is reduced to: every change is notified to all waiters, and waiters re-check their condition under the lock']


def setup(E, can_wait=None, full=False):
    st = with_globals(E)
    obj = E.alloc(st, 400, 'mvar')
    st.ghost.update(held=0)
    E.local_models += [(MB + r'mutex_base\(bool\)', nop), (CO + r'condition\(\)', nop)]
    opt_models(E)
    done = []
    if full:
        vp = E.alloc(st, 4, 'value'); v = E.fresh('value', 32); st.mem[vp.r].cells[0] = (4, v)
        E.start(st, E.func('^' + N + r'mvar\(int const&\)'), [obj, vp])
    else: E.start(st, E.func('^' + N + r'mvar\(\)'), [obj])
    E.run(st, lambda E, s, o: done.append((s, o)))
    if len(done) != 1: raise Unsupported('constructor forks')
    st = done[0][0]
    E.prove(st, z3.BoolVal(done[0][1][0] == 'ret'), 'construction succeeds')
    off = [o for o, (w, x) in st.mem[obj.r].cells.items() if isinstance(x, Opt)]
    if len(off) != 1: raise Unsupported('not exactly one optional content')
    x = st.mem[obj.r].cells[off[0]][1]
    if full: E.prove(st, z3.And(tob(x.full), bv(E.loadw(st, x.cell, 4), 32) == v), 'a variable made from a value holds it'); return
    E.prove(st, z3.Not(tob(x.full)), 'a default variable is empty')
    E.local_models = []; E.mcache = {}
    opt_models(E)
    m = Monitor(E, st, opt_shared(E, Ptr(obj.r, off[0])), True, can_wait and (lambda E, st, v: can_wait(v)))
    return st, obj, m


empty = lambda v: z3.Not(tob(v.full))
full = lambda v: tob(v.full)


def arg(E, st):
    vp = E.alloc(st, 4, 'value'); v = E.fresh('value', 32); st.mem[vp.r].cells[0] = (4, v)
    return vp, v


def took(out): return lambda a, b: [('it was full', full(a)), ('it is empty afterwards', empty(b)), ('the value is delivered', out == bv(a.val, 32))]
def filled(v): return lambda a, b: [('it was empty', empty(a)), ('it is full afterwards', full(b)), ('it holds the value', bv(b.val, 32) == v)]


def take(E):
    st, obj, m = setup(E, empty)
    run(E, st, E.func('^' + N + r'take\(\)'), [obj], lambda E, st, o: expect_ret(E, st, o) and m.finish(E, st, took(bv(o[1], 32)), 'take'))


def put(E):
    st, obj, m = setup(E, full); vp, v = arg(E, st)
    run(E, st, E.func('^' + N + r'put\('), [obj, vp], lambda E, st, o: expect_ret(E, st, o) and m.finish(E, st, filled(v), 'put'))


def read(E):
    st, obj, m = setup(E, empty)
    def post(E, st, o):
        if not expect_ret(E, st, o): return
        out = bv(o[1], 32)
        m.finish(E, st, lambda a, b: [('it was full', full(a)), ('the value is delivered', out == bv(a.val, 32)), ('it is unchanged', m.sh.eq(E, a, b))], 'read')
    run(E, st, E.func('^' + N + r'read\(\)'), [obj], post)


def swap(E):
    st, obj, m = setup(E, empty); vp, v = arg(E, st)
    def post(E, st, o):
        if not expect_ret(E, st, o): return
        out = bv(o[1], 32)
        m.finish(E, st, lambda a, b: [('it was full', full(a)), ('it is full afterwards', full(b)), ('the old value is delivered', out == bv(a.val, 32)), ('it holds the new value', bv(b.val, 32) == v)], 'swap')
    run(E, st, E.func('^' + N + r'swap\('), [obj, vp], post)


def tries(E):
    st0, obj, m = setup(E); vp, v = arg(E, st0)
    def tr(what, rel, noeff, unch):
        def post(E, st, o):
            if not expect_ret(E, st, o): return
            r = o[1] if isint(o[1]) else conc(o[1])
            if not isint(r): raise Unsupported('undecided result')
            out = bv(E.loadw(st, vp, 4), 32)
            m.finish(E, st, rel(out) if r & 1 else (lambda a, b: [('fails only when the blocking form would wait', noeff(a)), ('changes nothing', m.sh.eq(E, a, b))]), what)
            if not r & 1 or unch: E.prove(st, out == v, what + ': the argument is left alone')
        return post
    run(E, st0.copy(), E.func('^' + N + r'try_take\('), [obj, vp], tr('try_take', took, empty, False))
    run(E, st0.copy(), E.func('^' + N + r'try_put\('), [obj, vp], tr('try_put', lambda out: filled(v), full, True))
    def em(E, st, o):
        if not expect_ret(E, st, o): return
        m.finish(E, st, lambda a, b: [('result', tob(o[1]) == empty(a)), ('unchanged', m.sh.eq(E, a, b))], 'empty')
    run(E, st0.copy(), E.func('^' + N + r'empty\(\) const'), [obj], em)


F = lambda *n: ['pfi::concurrent::mvar<T>::' + x for x in n] + ['pfi::concurrent::scoped_lock']
PROOFS = [dict(name=n, src=SRC, fn=f, functions=F(*fs)) for n, f, fs in [('take', take, ['take']), ('put', put, ['put']), ('read', read, ['read']), ('swap', swap, ['swap', 'take', 'put']), ('try_take, try_put, empty', tries, ['try_take', 'try_put', 'empty']),
          ('construction from a value', lambda E: setup(E, full=True), ['mvar(const T&)'])]]
HARNESS = [sched('c06.cpp', bound='2 to 4 threads of 1 to 4 operations over all operations, random schedules with spurious wake-ups')]
