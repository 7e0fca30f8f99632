"""IPv4 addresses."""
from common import *
SRC = ['inst/c28.cpp', 'network/ipv4.cpp']
ASSUMPTIONS = ['sscanf stores the integers it reports as converted; sprintf writes the decimal text of its arguments (C library contracts)']


def addr(E, st, name):
    p = E.alloc(st, 4, name); b = [E.fresh('%s%d' % (name, i), 8) for i in range(4)]
    for i in range(4): st.mem[p.r].cells[i] = (1, b[i])
    return p, b


def octets(E, st, p): return [bv(E.loadw(st, Ptr(p.r, add64(p.o, i)), 1), 8) for i in range(4)]


def compare(E):
    st0 = with_globals(E)
    st = st0.copy(); a, A = addr(E, st, 'a'); b, B = addr(E, st, 'b')
    E.input_terms = [('a', z3.Concat(*A)), ('b', z3.Concat(*B))]
    X, Y = z3.Concat(*A), z3.Concat(*B)
    for fn, sp in (('eq', X == Y), ('ne', X != Y), ('lt', z3.ULT(X, Y))):
        run(E, st.copy(), E.func('^ip_%s\\(' % fn), [a, b], lambda E, st, o, sp=sp, fn=fn: expect_ret(E, st, o) and E.prove(st, tob(o[1]) == sp, 'operator %s is the numeric one' % fn))


def make(E):
    st0 = with_globals(E)
    st = st0.copy(); r = E.alloc(st, 4, 'r'); b = [E.fresh('b', 8) for _ in range(4)]
    run(E, st, E.func('^ip_make\\('), [r] + b, lambda E, st, o: expect_ret(E, st, o) and [E.prove(st, x == y, 'octets kept') for x, y in zip(octets(E, st, r), b)])
    st = st0.copy(); r2 = E.alloc(st, 4, 'r')
    run(E, st, E.func('^ip_def\\('), [r2], lambda E, st, o: expect_ret(E, st, o) and [E.prove(st, x == 0, 'default address is 0.0.0.0') for x in octets(E, st, r2)])
    st = st0.copy(); r3 = E.alloc(st, 16, 'r')

    def post(E, st, o):
        if not expect_ret(E, st, o): return
        for i, w in enumerate(((0, 0, 0, 0), (255,) * 4, (127, 0, 0, 1), (255,) * 4)):
            for x, y in zip(octets(E, st, Ptr(r3.r, 4 * i)), w): E.prove(st, x == y, 'predefined address %d' % i)
    run(E, st, E.func('^ip_consts\\('), [r3], post)


def parse(E):
    st = with_globals(E); s, sv = E.sym_str(st, 's'); r = E.alloc(st, 4, 'r')
    v = [E.fresh('field%d' % i, 32) for i in range(4)]
    E.input_terms = [('field%d' % i, v[i]) for i in range(4)]

    def scan(E, st, a, ins):
        fmt = litbytes(E, st, a[1]); m = fmt and re.fullmatch(rb'%(\d*)d\.%(\d*)d\.%(\d*)d\.%(\d*)d', fmt)
        if m: E.prove(st, z3.BoolVal(all(g and int(g) <= 9 for g in m.groups())), 'conversions of long digit strings cannot overflow', 'pre')
        if not m: raise Unsupported('sscanf format %r' % (fmt,))
        E.prove(st, z3.BoolVal(len(a) == 6), 'four destinations for four conversions', 'pre')

        def alt(n):
            def g(E, s):
                for i in range(max(n, 0)): E.storew(s, a[2 + i], v[i], 4)
                s.ghost['n'] = n
                return n & 0xffffffff
            return g
        c = E.fresh('converted', 8)
        return Outcomes([(c == (n & 255), alt(n)) for n in range(-1, 4)] + [(z3.And(*[c != (n & 255) for n in range(-1, 4)]), alt(4))])
    E.local_models.append(('(__isoc99_|__isoc23_)?sscanf$', scan))

    def post(E, st, o):
        if not expect_ret(E, st, o): return
        ok = z3.And(z3.BoolVal(st.ghost['n'] == 4), *[z3.And(x >= 0, x <= 255) for x in v])
        for i, x in enumerate(octets(E, st, r)):
            E.prove(st, z3.If(ok, z3.ZeroExt(24, x) == v[i], x == 255), 'octet %d is field %d of an accepted text, else the address is none' % (i, i))
    run(E, st, E.func('^ip_parse\\('), [r, s], post)


def text(E):
    st = with_globals(E); a, A = addr(E, st, 'a'); r = E.alloc(st, 32, 'r'); st.mem[r.r].cells[0] = (32, cstring(b''))
    E.input_terms = [('a', z3.Concat(*A))]

    def dlen(x): return z3.If(z3.ULT(x, 10), V64(1), z3.If(z3.ULT(x, 100), V64(2), V64(3)))
    want = [('n', 0), '.', ('n', 1), '.', ('n', 2), '.', ('n', 3)]
    tot = 3 + dlen(A[0]) + dlen(A[1]) + dlen(A[2]) + dlen(A[3])

    def spr(E, st, ar, ins):
        sn = len(ar) == 7
        fmt = litbytes(E, st, ar[2 if sn else 1]); args = ar[3:] if sn else ar[2:]
        if fmt is None or fmt != b'%d.%d.%d.%d': raise Unsupported('sprintf format %r' % (fmt,))
        for i in range(4): E.prove(st, bv(args[i], 32) == z3.ZeroExt(24, A[i]), 'argument %d of the text is octet %d' % (i, i))
        reg = st.mem[ar[0].r]
        if sn: E.prove(st, z3.ULT(tot, b64(ar[1])), 'the text is not cut', 'pre'); E.prove(st, z3.ULE(b64(ar[1]), b64(reg.size)), 'buffer size', 'pre')
        E.prove(st, z3.ULT(tot, b64(reg.size)), 'the text and its terminator fit the buffer', 'pre')
        arr = E.fresharr('text'); st.ghost['T'] = arr
        st.mem[ar[0].r] = reg.copy(); st.mem[ar[0].r].seq = Seq(UpdN(ArrN(arr), tot, 0), reg.size, 1, 'buf', next(E.cnt)); st.mem[ar[0].r].cells = {}
        st.ghost[('cstrlen', ar[0].r)] = tot
        return simp(z3.Extract(31, 0, tot))
    E.local_models.append(('sn?printf$', spr))

    def ctor(E, st, ar, ins):
        if isinstance(ar[1], Ptr) and st.ghost.get(('cstrlen', ar[1].r)) is not None and ar[1].o == 0:
            newstr(E, st, ar[0], Seq(ArrN(st.ghost['T']), tot, 1, 'str', next(E.cnt)))
            return None
        raise Unsupported('string from another buffer')
    E.local_models.append((S(r'basic_string(<.*>)?\(char const\*, std::allocator<char> const&\)'), ctor))

    def post(E, st, o):
        if not expect_ret(E, st, o): return
        sv = E.obj(st, r)
        E.prove(st, b64(sv.len) == tot, 'length of the dotted text')
        J = E.fresh('J'); E.prove(st, z3.Implies(z3.ULT(J, tot), bv(sv.at(J), 8) == z3.Select(st.ghost['T'], J)), 'the dotted text is returned')
    run(E, st, E.func('^ip_str\\('), [r, a], post)


N = 'pfi::network::ipv4_address::'
PROOFS = [dict(name='comparison', src=SRC, fn=compare, functions=[N + 'operator' + x for x in ('==', '!=', '<')]), dict(name='construction', src=SRC, fn=make, functions=[N + 'ipv4_address', N + 'any/broadcast/loopback/none']),
          dict(name='parsing', src=SRC, fn=parse, functions=[N + 'ipv4_address(string)']), dict(name='text', src=SRC, fn=text, functions=[N + 'to_string'])]
HARNESS = [dict(src='c28.cpp', repo=['network/ipv4.cpp'], budget=3, bound='every octet value in every position, random addresses, all texts with fields -1..300, malformed texts')]
