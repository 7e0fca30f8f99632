"""MD5: padded block stream, block transform and chaining against RFC 1321, text form, order."""
from common import *
import math
SRC = ['inst/c04.cpp', 'data/digest/md5.cpp']
ASSUMPTIONS = ['sin at the integers 0..64 has the value the C library of this machine computes (used for the table of constants)',
               'ostream: a 32-bit unsigned insertion with hex base, fill 0 and width 2 writes two lower-case hexadecimal digits for values below 256 (C++ library contract)']
K = [int(4294967296 * abs(math.sin(i + 1))) for i in range(64)]
R = [7, 12, 17, 22] * 4 + [5, 9, 14, 20] * 4 + [4, 11, 16, 23] * 4 + [6, 10, 15, 21] * 4


def W32(x): return z3.BitVecVal(x, 32)


def compress(h, x):
    """RFC 1321 section 3.4 on symbolic words"""
    a, b, c, d = h
    for i in range(64):
        if i < 16: f = (b & c) | (~b & d); g = i
        elif i < 32: f = (b & d) | (c & ~d); g = (5 * i + 1) % 16
        elif i < 48: f = b ^ c ^ d; g = (3 * i + 5) % 16
        else: f = c ^ (b | ~d); g = (7 * i) % 16
        t = simp(a + f + x[g] + W32(K[i]))
        a, d, c, b = d, c, b, simp(b + (simp((t << R[i])) | simp(z3.LShR(t, 32 - R[i]))))
    return [simp(p + q) for p, q in zip(h, (a, b, c, d))]


def mainloop(E, st, fr, label):
    """the loop that fetches blocks (not the one filling the constant table)"""
    if 'calc' not in fr.f.dem: return False
    for bl in fr.f.loops()[label]:
        for i in fr.f.blocks[bl]:
            if i.op in ('call', 'invoke') and i.x['callee'].k != 'global': return True
    return False


def calc(E):
    st = with_globals(E)
    m = E.alloc(st, 16, 'md5sum')
    H = [z3.Function('H%s' % c, z3.BitVecSort(64), z3.BitVecSort(32)) for c in 'abcd']
    X = [z3.Function('X%d' % i, z3.BitVecSort(64), z3.BitVecSort(32)) for i in range(16)]
    nblk = E.fresh('blocks'); E.assume(st, z3.And(z3.UGE(nblk, 1), z3.ULT(nblk, 1 << 40)))
    init = [0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476]
    cell = E.alloc(st, 8, 'ghost position'); st.mem[cell.r].cells[0] = (8, 0)
    pos = lambda s: b64(E.loadw(s, cell, 8))

    def empty(E, s, a, ins): return pos(s) == nblk
    def get(E, s, a, ins):
        p = pos(s); E.prove(s, z3.ULT(p, nblk), 'no block is requested after the last one', 'pre')
        for i in range(16): E.storew(s, Ptr(a[0].r, add64(a[0].o, 4 * i)), simp(X[i](simp(p))), 4)
        E.storew(s, cell, simp(p + 1), 8)
    def sin(E, s, a, ins):
        x = z3.simplify(a[0])
        if not isinstance(x, z3.FPNumRef): raise Unsupported('sin of a symbolic value')
        val = float(eval(str(x))) if not x.isZero() else 0.0
        return z3.FPVal(math.sin(val), z3.Float64())
    E.local_models += [('vp_src_empty', empty), ('vp_src_get', get), (r'sin$', sin)]
    words = lambda s: [bv(E.loadw(s, Ptr(m.r, 4 * i), 4), 32) for i in range(4)]

    def chain(k):
        """chaining values after k blocks, by their recursive definition"""
        if isint(k) and k == 0: return [W32(v) for v in init]
        k = simp(b64(k))
        if z3.is_app(k) and k.decl().kind() == z3.Z3_OP_BADD and k.num_args() == 2 and z3.is_bv_value(k.arg(0)) and k.arg(0).as_long() == 1:
            return compress(chain(k.arg(1)), [f(k.arg(1)) for f in X])
        return [h(k) for h in H]

    def inv(E, s, k, entry):
        return [('one block per iteration', pos(s) == b64(k)), ('blocks remain or all are done', z3.ULE(b64(k), nblk))] + \
               [('state word %s is the RFC 1321 chaining value' % n, w == h) for n, w, h in zip('ABCD', words(s), chain(k))]
    E.loopspecs = [LoopSpec(inv, name='block loop', func=mainloop)]

    def post(E, s, o):
        if not expect_ret(E, s, o): return
        for n, w, h in zip('ABCD', words(s), H): E.prove(s, w == h(nblk), 'digest word %s is the final chaining value' % n)
    run(E, st, E.func(r'^vp_calc\('), [m], post)


LAYOUT = dict(p=8, q=16, ovr=24, end=25, cnt=32)


def mkbuf(E, kind, n, then):
    """constructs the buffer over an arbitrary byte string and checks the field layout"""
    st = with_globals(E); b = E.alloc(st, 40, 'itr_buf')
    data = Seq(ArrN(E.fresharr('s')), n, 1, 'str')
    if kind == 'sb': s = E.alloc(st, 32, 's'); E.setobj(st, s, data, 32); args = [b, s]
    else: p, data = E.sym_buf(st, 's', n); args = [b, p, Ptr(p.r, n)]
    E.input_terms = [('s', ('seq', data, 130))]

    def made(E, s, o):
        if not expect_ret(E, s, o): return
        c = s.mem[b.r].cells
        try:
            P, Q, O, N, C = [c[LAYOUT[x]][1] for x in ('p', 'q', 'ovr', 'end', 'cnt')]
            ok = isinstance(P, Ptr) and isinstance(Q, Ptr) and P.r == Q.r and all(isint(x) for x in (O, N, C))
        except KeyError: ok = False
        if not ok: raise Unsupported('buffer layout')
        E.prove(s, z3.BoolVal(isint(P.o) and P.o == 0), 'starts at the first byte'); E.prove(s, b64(Q.o) == n, 'ends after the last byte')
        E.prove(s, z3.BoolVal(O == 0x80 and N & 1 == 0 and C == 0), 'nothing read, padding not yet emitted')
        then(s, b, data, n, P, Q)
    run(E, st, E.func('^vp_%s_make' % kind), args, made)


def get(E, kind, rs):
    for r in rs:
        E.local_models = []; E.mcache = {}
        get1(E, kind, r)


def get1(E, kind, r):
    """block k of a message of n bytes; n - 64k is r (-8..63), or at least 64 (r = 64)"""
    k = E.fresh('block'); base = k * 64; n = simp(base + r)
    if r == 64: m = E.fresh('more'); n = simp(n + m)
    case = 'full' if r == 64 else 'part' if r >= 0 else 'tail'

    def then(s, b, data, n, P, Q):
        E.assume(s, z3.And(z3.ULT(k, 1 << 36), z3.ULT(n, 1 << 42)))
        if r < 0: E.assume(s, z3.UGE(k, 1))
        if r == 64: E.assume(s, z3.ULT(m, 1 << 40))
        cons = simp(base) if case != 'tail' else n
        w = lambda o, v, z: E.storew(s, Ptr(b.r, LAYOUT[o]), v, z)
        w('p', Ptr(P.r, cons), 8); w('cnt', cons, 8); w('ovr', 0x80 if case != 'tail' else 0, 1); w('end', 0, 1)
        x = E.alloc(s, 64, 'x')

        fin = z3.BoolVal(r + 9 <= 64)

        def spec(i):
            idx = simp(base + i)
            v = z3.If(z3.BoolVal(i == r), z3.BitVecVal(0x80, 8), z3.BitVecVal(0, 8))
            if i >= 56: v = z3.If(fin, z3.Extract(8 * (i - 56) + 7, 8 * (i - 56), n * 8), v)
            if case == 'full': return bv(data.at(idx), 8)
            if case == 'tail': return v
            return bv(data.at(idx), 8) if i < r else v

        def got(E, t, o):
            if not expect_ret(E, t, o): return
            for i in range(16):
                E.prove(t, bv(E.loadw(t, Ptr(x.r, 4 * i), 4), 32) == z3.Concat(*[spec(4 * i + j) for j in (3, 2, 1, 0)]), 'word %d of the block is that of the padded message' % i)
            rd = lambda o, z: E.loadw(t, Ptr(b.r, LAYOUT[o]), z)
            nc = simp(base + 64) if r == 64 else n
            p = rd('p', 8); E.prove(t, z3.And(z3.BoolVal(isinstance(p, Ptr) and p.r == P.r), b64(p.o) == nc), 'exactly the bytes of the block are consumed')
            E.prove(t, b64(rd('cnt', 8)) == nc, 'the length so far is counted')
            E.prove(t, z3.Implies(z3.Not(fin), bv(rd('ovr', 1), 8) == (0x80 if r == 64 else 0)), 'the padding bit is emitted once')
            def em(E, u, o):
                if expect_ret(E, u, o): E.prove(u, tob(o[1]) == fin, 'the stream ends exactly after the last padded block')
            sub(E, t, E.func('^vp_%s_empty' % kind), [b], em)
        sub(E, s, E.func('^vp_%s_get' % kind), [b, x], got)
    mkbuf(E, kind, n, then)


def ctor(E, kind):
    """the constructor hands calc a fresh buffer over the whole message, with the verified operations"""
    st = with_globals(E); m = E.alloc(st, 16, 'md5sum')
    if kind == 'str': s, sv = E.sym_str(st, 's'); args = [m, s]; n = b64(sv.len)
    else: p, d = E.sym_buf(st, 's', E.fresh('n')); n = b64(d.len); E.assume(st, z3.ULT(n, 1 << 40)); args = [m, p, Ptr(p.r, n)]
    seen = []

    def calc(E, t, a, ins):
        b = a[1]; seen.append(1)
        E.prove(t, z3.BoolVal(a[0].r == m.r and a[0].o == 0), 'digest is computed into the new object')
        c = t.mem[b.r].cells
        if not all(LAYOUT[x] in c for x in LAYOUT): raise Unsupported('buffer layout')
        P, Q = c[8][1], c[16][1]
        E.prove(t, z3.And(z3.BoolVal(P.r == Q.r and isint(P.o) and P.o == 0), b64(Q.o) == n), 'the buffer covers the whole message')
        E.prove(t, z3.BoolVal(c[24][1] == 0x80 and c[25][1] == 0 and c[32][1] == 0), 'the buffer is fresh')
    E.local_models.append((r'.*md5sum::calc\(', calc))
    run(E, st, E.func('^vp_md5_%s' % kind), args, lambda E, s, o: expect_ret(E, s, o) and E.prove(s, z3.BoolVal(len(seen) == 1), 'calc is called once'))


def less(E):
    st = with_globals(E); W = {}
    P = {}
    for q in 'xy':
        P[q] = E.alloc(st, 16, q); W[q] = [E.fresh('%s%d' % (q, i), 32) for i in range(4)]
        for i in range(4): st.mem[P[q].r].cells[4 * i] = (4, W[q][i])
    E.input_terms = [('x', z3.Concat(*W['x'])), ('y', z3.Concat(*W['y']))]
    run(E, st, E.func(r'^vp_less\('), [P['x'], P['y']], lambda E, s, o: expect_ret(E, s, o) and E.prove(s, tob(o[1]) == z3.ULT(z3.Concat(*W['x']), z3.Concat(*W['y'])), 'lexicographic order of the four words'))


def text(E):
    st = with_globals(E); m = E.alloc(st, 16, 'md5sum'); W = [E.fresh('w%d' % i, 32) for i in range(4)]
    for i in range(4): st.mem[m.r].cells[4 * i] = (4, W[i])
    os = E.alloc(st, 8, 'ostream'); fl0 = E.fresh('flags', 32)
    E.assume(st, z3.And(fl0 & 0x4200 == 0, fl0 & 0xb0 != 0x20, fl0 & 0x10 == 0))   # neither showbase nor uppercase, not left/internal adjusted
    fill0 = E.fresh('fill', 8)
    st.ghost.update(flags=fl0, fill=fill0, width=0, out=())

    def ins(E, t, a, i):
        g = t.ghost
        E.prove(t, z3.And(bv(g['flags'], 32) & 0x4a == 8, bv(g['fill'], 8) == 48, bv(g['width'], 64) == 2), 'hexadecimal, zero fill and width two are in force')
        E.prove(t, z3.ULT(bv(a[1], 64), 256), 'two digits suffice'); g['out'] = g['out'] + (bv(a[1], 64),); g['width'] = 0
        return a[0]
    def hexm(E, t, a, i):
        t.ghost['flags'] = simp((bv(t.ghost['flags'], 32) & ~W32(0x4a)) | 8); return a[0]
    def setw(E, t, a, i): t.ghost['width'] = a[1]; return a[0]
    def fill(E, t, a, i): r = t.ghost['fill']; t.ghost['fill'] = a[1]; return r
    def flags(E, t, a, i):
        r = t.ghost['flags']
        if len(a) > 1: t.ghost['flags'] = a[1]
        return r
    E.local_models += [(r'.*_M_insert<unsigned long>\(', ins), (r'std::hex\(', hexm), (r'.*operator<<.*std::_Setw\)', setw), (r'std::basic_ios<.*>::fill\(char\)', fill), (r'std::ios_base::flags\(', flags)]

    def post(E, t, o):
        if not expect_ret(E, t, o): return
        out = t.ghost['out']; E.prove(t, z3.BoolVal(len(out) == 16), 'sixteen bytes are printed')
        for i, v in enumerate(out[:16]): E.prove(t, v == z3.ZeroExt(56, z3.Extract(8 * (i % 4) + 7, 8 * (i % 4), W[i // 4])), 'digits %d and %d' % (2 * i, 2 * i + 1))
        E.prove(t, z3.And(bv(t.ghost['flags'], 32) == fl0, bv(t.ghost['fill'], 8) == fill0), 'stream formatting is restored')
    # the ostream is abstract: its vtable (virtual base offset) is not modelled
    vt = E.alloc(st, 64, 'vtable'); st.mem[vt.r].cells[0] = (8, 0); st.mem[os.r].cells[0] = (8, Ptr(vt.r, 24))
    run(E, st, E.func(r'^vp_print\('), [os, m], post)


B = 'pfi::data::digest::itr_buf::'; C = 'pfi::data::digest::md5sum::'
PROOFS = [dict(name='block transform and chaining', src=SRC, fn=calc, functions=[C + 'calc'])] + \
    [dict(name='padded stream %s/%d..%d' % (k, min(c), max(c)), src=SRC, fn=(lambda k, c: lambda E: get(E, k, c))(k, c), functions=[B + 'itr_buf', B + 'get', B + 'empty']) for k in ('sb', 'pb') for c in ([64] + list(range(-8, 8)), range(8, 36), range(36, 64))] + \
    [dict(name='constructor %s' % k, src=SRC, fn=(lambda k: lambda E: ctor(E, k))(k), functions=[C + 'md5sum']) for k in ('str', 'ptr')] + \
    [dict(name='order', src=SRC, fn=less, functions=['operator<(md5sum, md5sum)']), dict(name='text form', src=SRC, fn=text, functions=['operator<<(ostream, md5sum)'])]
HARNESS = [dict(src='c04.cpp', repo=['data/digest/md5.cpp'], budget=3, bound='all lengths 0..300, random lengths to 5000, some to 2^20, four construction forms; text under several stream states')]
