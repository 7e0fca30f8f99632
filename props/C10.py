"""mmapper over arbitrary results of the system calls."""
from sysc import *
SRC = ['inst/c10.cpp', 'system/mmapper.cpp']
ASSUMPTIONS = ['open, fstat, mmap, munmap and close follow POSIX: each may fail with any errno; close releases the descriptor whatever it returns; a successful mmap has nonzero length', 'the file does not change its size between fstat and mmap']


def snapshot(st, p): return {o: (w, str(v)) for o, (w, v) in st.mem[p.r].cells.items()}


def setup(E):
    st = with_globals(E); S = Sys(E, st)
    f = E.alloc(st, 32, 'filename'); E.setobj(st, f, Seq(ArrN(E.fresharr('name', 8)), E.fresh('namelen'), 1, 'str', next(E.cnt), None), 32)
    E.assume(st, z3.ULT(b64(E.obj(st, f).len), 1 << 20))
    return st, S, f


def call(E, st, f, a, post): sub(E, st, E.func('^' + f + r'\('), a, post)


def observe(E, st, p, mapping, what):
    """public observers: closed (mapping None) or open on the given (region, length, fd)"""
    def chk(f, sp):
        def post(E, s, o):
            if expect_ret(E, s, o): E.prove(s, sp(o[1]), what + ': ' + f[3:])
        call(E, st, f, [p], post)
    null = lambda v: z3.BoolVal(isinstance(v, Ptr) and v.r is None and isint(v.o) and v.o == 0) if isinstance(v, Ptr) else b64(v) == 0
    if mapping is None:
        chk('vp_is_open', lambda r: z3.Not(tob(r))); chk('vp_size', lambda r: b64(r) == 0); chk('vp_begin', null)
        chk('vp_end', null)
    else:
        r0, ln, fd = mapping
        chk('vp_is_open', lambda r: tob(r)); chk('vp_size', lambda r: b64(r) == ln)
        chk('vp_begin', lambda r: z3.BoolVal(isinstance(r, Ptr) and r.r == r0 and isint(r.o) and r.o == 0)); chk('vp_end', lambda r: b64(r.o) == ln if isinstance(r, Ptr) and r.r == r0 else z3.BoolVal(False))


def table(E, st, owned, what):
    """exactly the given mappings with their descriptors are live"""
    E.prove(st, z3.BoolVal(sorted(str(x) for x in st.ghost['fds']) == sorted(str(m[2]) for m in owned)), what + ': exactly the descriptors in use are open')
    E.prove(st, z3.BoolVal(sorted(str(x[0]) for x in st.ghost['maps']) == sorted(str(m[0]) for m in owned)), what + ': exactly the mappings in use exist')


def on_made(E, body):
    st, S, f = setup(E); p = E.alloc(st, 64, 'mmapper')
    def made(E, s, o):
        if expect_ret(E, s, o): body(s, p, f)
    run(E, st, E.func(r'^vp_make\('), [p], made)


def with_open(E, s, p, f, body, fail=None):
    """runs open(); body(state, mapping) for success, fail(state) otherwise"""
    before = snapshot(s, p); m0 = s.ghost['maps']; f0 = s.ghost['fds']
    def post(E, st, o):
        if not expect_ret(E, st, o): return
        r = o[1] if isint(o[1]) else conc(o[1])
        new = [m for m in st.ghost['maps'] if m not in m0]
        if not isint(r): raise Unsupported('undecided result')
        if r == 0:
            E.prove(st, z3.BoolVal(len(new) == 1), 'open reports success with a new mapping')
            if len(new) == 1: body(st, new[0])
        else:
            E.prove(st, z3.BoolVal(r & 0x80000000 != 0), 'open fails with a negative result')
            if fail: fail(st, before)
    call(E, s, 'vp_open', [p, f], post)


def first_open(E):
    def body(s, p, f):
        observe(E, s, p, None, 'after construction'); init = snapshot(s, p)
        def ok(st, m):
            table(E, st, [m], 'after open'); observe(E, st, p, m, 'after open')
            def closed(E, s2, o):
                if not expect_ret(E, s2, o): return
                table(E, s2, [], 'after close'); observe(E, s2, p, None, 'after close')
                E.prove(s2, z3.BoolVal(snapshot(s2, p) == init), 'a closed object is as newly constructed')
            call(E, st, 'vp_close', [p], closed)
            call(E, st, 'vp_destroy', [p], lambda E, s2, o: expect_ret(E, s2, o) and table(E, s2, [], 'after destruction'))
        def bad(st, before):
            table(E, st, [], 'after a failed open'); E.prove(st, z3.BoolVal(snapshot(st, p) == before), 'a failed open leaves the object as it was')
        with_open(E, s, p, f, ok, bad)
        call(E, s, 'vp_close', [p], lambda E, s2, o: expect_ret(E, s2, o) and (table(E, s2, [], 'close of a closed object'), E.prove(s2, z3.BoolVal(snapshot(s2, p) == init), 'closing a closed object changes nothing')))
        call(E, s, 'vp_destroy', [p], lambda E, s2, o: expect_ret(E, s2, o) and table(E, s2, [], 'destruction of a closed object'))
    on_made(E, body)


def reopen(E):
    def body(s, p, f):
        def ok(st, m):
            def ok2(s2, m2):
                table(E, s2, [m2], 'after re-opening'); observe(E, s2, p, m2, 'after re-opening')
            def bad2(s2, before):
                table(E, s2, [m], 'after a failed re-opening'); E.prove(s2, z3.BoolVal(snapshot(s2, p) == before), 'a failed re-opening keeps the old mapping')
            with_open(E, st, p, f, ok2, bad2)
        with_open(E, s, p, f, ok)
    on_made(E, body)


def moves(E):
    def body(s, p, f):
        init = snapshot(s, p)
        q = E.alloc(s, 64, 'other')
        def both(st, pm):
            def moved(E, s2, o):
                if not expect_ret(E, s2, o): return
                table(E, s2, [pm] if pm else [], 'after move construction'); observe(E, s2, q, pm, 'move target')
                E.prove(s2, z3.BoolVal(snapshot(s2, p) == init), 'a moved-from object is as newly constructed')
            call(E, st, 'vp_move', [p, q], moved)
            def made(E, s2, o):
                if not expect_ret(E, s2, o): return
                def pair(s3, qm):
                    def asg(E, s4, o):
                        if not expect_ret(E, s4, o): return
                        table(E, s4, [qm] if qm else [], 'after move assignment'); observe(E, s4, p, qm, 'assigned object')
                        E.prove(s4, z3.BoolVal(snapshot(s4, q) == init), 'the moved-from object is as newly constructed')
                    call(E, s3, 'vp_assign', [p, q], asg)
                    def sw(E, s4, o):
                        if not expect_ret(E, s4, o): return
                        table(E, s4, [x for x in (pm, qm) if x], 'after swap'); observe(E, s4, p, qm, 'swapped left'); observe(E, s4, q, pm, 'swapped right')
                    call(E, s3, 'vp_swap', [p, q], sw)
                pair(s2, None)
                with_open(E, s2, q, f, pair)
            call(E, st, 'vp_make', [q], made)
        both(s, None)
        with_open(E, s, p, f, both)
    on_made(E, body)


F = ['mmapper::mmapper', 'mmapper::open', 'mmapper::close', 'mmapper::~mmapper', 'is_open', 'size', 'begin', 'end']
PROOFS = [dict(name='open, close, destroy', src=SRC, fn=first_open, functions=F), dict(name='re-open', src=SRC, fn=reopen, functions=F), dict(name='move and swap', src=SRC, fn=moves, functions=F + ['mmapper(mmapper&&)', 'operator=(mmapper&&)', 'swap'])]
HARNESS = [dict(src='c10.cpp', repo=['system/mmapper.cpp'], budget=2, bound='random sequences of 10 operations over three objects with random failures and interruptions of every system call', asan=False, libs=['-Wl,--wrap=open,--wrap=close,--wrap=fstat,--wrap=mmap,--wrap=munmap'])]
