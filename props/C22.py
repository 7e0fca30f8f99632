"""clock_time arithmetic and the conversions to and from calendar time."""
from common import *
SRC = ['inst/c22.cpp', 'system/time_util.cpp']
ASSUMPTIONS = ['mktime inverts localtime_r (same fields and daylight-saving flag give the same instant back); gettimeofday returns a normalised time',
               'operands are normalised (microseconds in [0,1000000)); second counts are unsigned 64-bit, i.e. exact unless the mathematical result leaves that range']


def ct(E, st, name):
    p = E.alloc(st, 16, name); s = E.fresh(name + '.sec'); u = E.fresh(name + '.usec', 32)
    st.mem[p.r].cells[0] = (8, s); st.mem[p.r].cells[8] = (4, u)
    E.assume(st, z3.And(u >= 0, u < 1000000))
    E.input_terms += [(name + '.sec', s), (name + '.usec', u)]
    return p, s, u


def get(E, st, p): return bv(E.loadw(st, p, 8), 64), bv(E.loadw(st, Ptr(p.r, 8), 4), 32)


def arith(E):
    E.unroll = 6
    for fn, sg in (('t_add', 1), ('t_sub', -1), ('t_addeq', 1), ('t_subeq', -1)):
        st = State(); E.input_terms = []
        a, s1, u1 = ct(E, st, 'a'); b, s2, u2 = ct(E, st, 'b')
        r = E.alloc(st, 16, 'r') if not fn.endswith('eq') else a

        def post(E, st, o, sg=sg, fn=fn):
            if not expect_ret(E, st, o): return
            s, u = get(E, st, r)
            E.prove(st, z3.And(u >= 0, u < 1000000), fn + ': microseconds normalised')
            c = z3.If(u1 + u2 >= 1000000, V64(1), V64(0)) if sg > 0 else z3.If(u1 < u2, V64(-1), V64(0))
            S = s1 + s2 + c if sg > 0 else s1 - s2 + c
            U = u1 + u2 - z3.If(u1 + u2 >= 1000000, z3.BitVecVal(1000000, 32), z3.BitVecVal(0, 32)) if sg > 0 else u1 - u2 + z3.If(u1 < u2, z3.BitVecVal(1000000, 32), z3.BitVecVal(0, 32))
            E.prove(st, z3.And(s == S, u == U), fn + ': exact result')
            if not fn.endswith('eq'):
                E.prove(st, z3.And(*[x == y for x, y in zip(get(E, st, a) + get(E, st, b), (s1, u1, s2, u2))]), fn + ': operands unchanged')
                inv = E.func('^t_%s\\(' % ('sub' if sg > 0 else 'add'))
                r2 = E.alloc(st, 16, 'r2')

                def post2(E, st, o):
                    if not expect_ret(E, st, o): return
                    x, y = get(E, st, r2)
                    E.prove(st, z3.And(x == s1, y == u1), fn + ': undone by the inverse operation')
                sub(E, st, inv, [r2, r, b], post2)
        run(E, st, E.func('^%s\\(' % fn), [a, b] if fn.endswith('eq') else [r, a, b], post)
    # aliasing a += a, a -= a
    for fn, sg in (('t_addeq', 1), ('t_subeq', -1)):
        st = State(); E.input_terms = []
        a, s1, u1 = ct(E, st, 'a')

        def post(E, st, o, sg=sg):
            if not expect_ret(E, st, o): return
            s, u = get(E, st, a)
            if sg > 0: E.prove(st, z3.And(s == 2 * s1 + z3.If(2 * u1 >= 1000000, V64(1), V64(0)), u == 2 * u1 - z3.If(2 * u1 >= 1000000, z3.BitVecVal(1000000, 32), z3.BitVecVal(0, 32))), 'a += a doubles')
            else: E.prove(st, z3.And(s == 0, u == 0), 'a -= a is zero')
        run(E, st, E.func('^%s\\(' % fn), [a, a], post)


def less(E):
    st = State(); a, s1, u1 = ct(E, st, 'a'); b, s2, u2 = ct(E, st, 'b')

    def post(E, st, o):
        if not expect_ret(E, st, o): return
        E.prove(st, tob(o[1]) == z3.Or(z3.ULT(s1, s2), z3.And(s1 == s2, u1 < u2)), 'comparison is the order of the represented times')
    run(E, st, E.func(r'^t_less\('), [a, b], post)


TM = [('sec', 0), ('min', 4), ('hour', 8), ('mday', 12), ('mon', 16), ('year', 20), ('wday', 24), ('yday', 28), ('isdst', 32)]


def libc(E):
    """assumed contracts of localtime_r and mktime: broken-down fields are functions of the instant; mktime inverts them"""
    B64, B32 = z3.BitVecSort(64), z3.BitVecSort(32)
    fld = {n: z3.Function('tm_' + n, B64, B32) for n, _ in TM}
    MK = z3.Function('mktime', *([B32] * 7 + [B64]))

    def lt(E, st, a, ins):
        t = bv(E.loadw(st, a[0], 8), 64)
        for n, o in TM: E.storew(st, Ptr(a[1].r, add64(a[1].o, o)), fld[n](t), 4)
        E.assume(st, z3.And(z3.Or(fld['isdst'](t) == 0, fld['isdst'](t) == 1), MK(*[fld[n](t) for n in ('sec', 'min', 'hour', 'mday', 'mon', 'year', 'isdst')]) == t))
        return a[1]

    def mk(E, st, a, ins):
        vs = []
        for n, o in TM:
            if n in ('wday', 'yday'): continue
            v = E.loadw(st, Ptr(a[0].r, add64(a[0].o, o)), 4)
            if isinstance(v, Undef): E.prove(st, z3.BoolVal(False), 'mktime reads an initialised tm_' + n, 'pre'); v = E.fresh('undef', 32)
            vs.append(bv(v, 32))
        t = MK(*vs)
        st.ghost['mk'] = st.ghost.get('mk', ()) + (tuple(vs),)
        E.assume(st, z3.Or(fld['isdst'](t) == 0, fld['isdst'](t) == 1))
        return t
    E.local_models += [('localtime_r$', lt), ('mktime$', mk)]
    return fld, MK


def calendar(E):
    libc(E)
    st = State(); a, s1, u1 = ct(E, st, 'a'); r = E.alloc(st, 16, 'r')

    def post(E, st, o):
        if not expect_ret(E, st, o): return
        s, u = get(E, st, r)
        E.prove(st, z3.And(s == s1, u == u1), 'calendar conversion and back is the identity')
    run(E, st, E.func(r'^t_cal\('), [r, a], post)


def fields(E):
    fld, MK = libc(E)
    st = State(); r = E.alloc(st, 16, 'r'); c = E.alloc(st, 40, 'cal')
    A = {n: E.fresh(n, 32) for n in ('year', 'mon', 'mday', 'hour', 'min', 'sec', 'usec')}
    E.input_terms = list(A.items())

    def post(E, st, o):
        if not expect_ret(E, st, o): return
        s, u = get(E, st, r)
        first = st.ghost['mk'][0]
        E.prove(st, z3.And(first[0] == A['sec'], first[1] == A['min'], first[2] == A['hour'], first[3] == A['mday'], first[4] == A['mon'] - 1, first[5] == A['year'] - 1900), 'the given fields are converted')
        E.prove(st, first[6] == -1, 'whether daylight saving applies is left to the conversion')
        t = MK(*first)
        E.prove(st, z3.And(s == t, u == A['usec']), 'the calendar time denotes the instant of its fields')
        for n, o2 in (('yday', 0), ('wday', 4), ('year', 8), ('mon', 12), ('mday', 16), ('hour', 20), ('min', 24), ('sec', 28)):
            ofs = {'year': 1900, 'mon': 1}.get(n, 0)
            E.prove(st, bv(E.loadw(st, Ptr(c.r, o2), 4), 32) == fld[n](t) + ofs, 'field %s is normalised' % n)
    run(E, st, E.func(r'^t_fields\('), [r, c] + [A[n] for n in ('year', 'mon', 'mday', 'hour', 'min', 'sec', 'usec')], post)


def now(E):
    st = State(); r = E.alloc(st, 16, 'r'); s0 = E.fresh('s'); u0 = E.fresh('u')

    def gtod(E, st, a, ins):
        def ok(E, s):
            E.storew(s, a[0], s0, 8); E.storew(s, Ptr(a[0].r, add64(a[0].o, 8)), u0, 8)
            E.assume(s, z3.ULT(u0, 1000000)); s.ghost['ok'] = True
            return 0
        c = E.fresh('gtod', 1)
        return Outcomes([(c, ok), (z3.Not(c), lambda E, s: (1 << 32) - 1)])
    E.local_models.append(('gettimeofday$', gtod))

    def post(E, st, o):
        if not expect_ret(E, st, o): return
        s, u = get(E, st, r)
        E.prove(st, z3.And(s == s0, z3.ZeroExt(32, u) == u0) if st.ghost.get('ok') else z3.And(s == 0, u == 0), 'the current time is the system time')
    run(E, st, E.func(r'^t_now\('), [r], post)


N = 'pfi::system::time::'
PROOFS = [dict(name='arithmetic', src=SRC, fn=arith, functions=[N + 'clock_time::operator' + x for x in ('+', '-', '+=', '-=')]),
          dict(name='comparison', src=SRC, fn=less, functions=[N + 'clock_time::operator<']),
          dict(name='calendar round trip', src=SRC, fn=calendar, functions=[N + 'calendar_time(clock_time)', N + 'clock_time(calendar_time)']),
          dict(name='calendar from fields', src=SRC, fn=fields, functions=[N + 'calendar_time(int...)']),
          dict(name='current time', src=SRC, fn=now, functions=[N + 'get_clock_time'])]
HARNESS = [dict(src='c22.cpp', repo=['system/time_util.cpp'], budget=2, bound='random times and extreme microseconds; calendar conversions of years 1970..2100 in five time zones')]
