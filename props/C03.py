"""UTF-8: the decoder accepts exactly the well-formed sequences of Unicode 3-7 and yields their scalar value."""
from common import *

SRC = ['data/string/ustring.cpp', 'inst/c03.cpp']
NS = 'pfi::data::string::'


def Z(b): return z3.ZeroExt(24, b)


def wf(b, avail):
    """(well-formed?, length, scalar) of the sequence starting with bytes b[0..3], avail bytes present (Unicode Table 3-7)"""
    b0, b1, b2, b3 = b
    rng = lambda x, lo, hi: z3.And(z3.UGE(x, lo), z3.ULE(x, hi))
    c = lambda x: rng(x, 0x80, 0xbf)
    av = lambda n: z3.UGE(avail, n)
    one = z3.And(av(1), z3.ULE(b0, 0x7f))
    two = z3.And(av(2), rng(b0, 0xc2, 0xdf), c(b1))
    three = z3.And(av(3), c(b2), z3.Or(z3.And(b0 == 0xe0, rng(b1, 0xa0, 0xbf)), z3.And(z3.Or(rng(b0, 0xe1, 0xec), rng(b0, 0xee, 0xef)), c(b1)), z3.And(b0 == 0xed, rng(b1, 0x80, 0x9f))))
    four = z3.And(av(4), c(b2), c(b3), z3.Or(z3.And(b0 == 0xf0, rng(b1, 0x90, 0xbf)), z3.And(rng(b0, 0xf1, 0xf3), c(b1)), z3.And(b0 == 0xf4, rng(b1, 0x80, 0x8f))))
    ok = z3.Or(one, two, three, four)
    ln = z3.If(one, V64(1), z3.If(two, V64(2), z3.If(three, V64(3), V64(4))))
    cp = z3.If(one, Z(b0), z3.If(two, (Z(b0 & 0x1f) << 6) | Z(b1 & 0x3f),
               z3.If(three, (Z(b0 & 0x0f) << 12) | (Z(b1 & 0x3f) << 6) | Z(b2 & 0x3f),
                     (Z(b0 & 7) << 18) | (Z(b1 & 0x3f) << 12) | (Z(b2 & 0x3f) << 6) | Z(b3 & 0x3f))))
    return ok, ln, cp


def wfat(s, n, o):
    b = [bv(s.at(simp(b64(o) + i)), 8) for i in range(4)]
    return wf(b, b64(n) - b64(o))


def decode(E, fn):
    st = with_globals(E)
    buf, s = E.sym_buf(st, 'in'); n = b64(s.len)
    o = E.fresh('o')
    E.assume(st, z3.And(z3.ULT(n, 1 << 40), z3.ULE(o, n)))
    E.input_terms = [('bytes', ('seq', s)), ('offset', o)]
    it = E.alloc(st, 8, 'it'); st.mem[it.r].cells[0] = (8, Ptr(buf.r, o))
    ok, ln, cp = wfat(s, n, o)

    def post(E, st, out):
        now = b64(E.loadw(st, it, 8).o)
        empty = n == o
        if out[0] == 'throw':
            E.prove(st, z3.BoolVal(fn == 'exc' and out[1].ti == '_ZTISt16invalid_argument'), 'only the error handler raises')
            E.prove(st, z3.And(z3.Not(ok), z3.Not(empty)), 'only ill-formed sequences are rejected')
            return
        r = bv(out[1], 32)
        if fn == 'exc': E.prove(st, z3.Or(empty, ok), 'ill-formed sequences are rejected')
        else: E.prove(st, z3.Implies(z3.And(z3.Not(ok), z3.Not(empty)), r == 0xfffd), 'ill-formed sequences give U+FFFD')
        E.prove(st, z3.Implies(ok, r == cp), 'the scalar value denoted by the sequence is returned')
        E.prove(st, z3.Implies(ok, now == o + ln), 'exactly the sequence is consumed')
        E.prove(st, z3.And(z3.ULE(now, n), z3.Implies(z3.Not(empty), z3.UGT(now, o))), 'progress without passing the end')
        E.prove(st, z3.Implies(empty, z3.And(now == n)), 'nothing is consumed at the end')
    run(E, st, E.func(r'^vf_decode_%s\(' % fn), [it, Ptr(buf.r, n)], post)


def enc_len(c):
    return z3.If(z3.ULE(c, 0x7f), V64(1), z3.If(z3.ULE(c, 0x7ff), V64(2), z3.If(z3.ULE(c, 0xffff), V64(3), z3.If(z3.ULE(c, 0x10ffff), V64(4), V64(0)))))


def enc_byte(c, i):
    """byte i of the encoding of scalar c"""
    X = lambda e: z3.Extract(7, 0, e)
    l = enc_len(c)
    t = lambda sh: X((z3.LShR(c, sh) & 0x3f) | 0x80)
    first = z3.If(l == 1, X(c), z3.If(l == 2, X(z3.LShR(c, 6) | 0xc0), z3.If(l == 3, X(z3.LShR(c, 12) | 0xe0), X(z3.LShR(c, 18) | 0xf0))))
    back = l - 1 - i       # distance from the end
    return z3.If(i == 0, first, z3.If(back == 0, t(0), z3.If(back == 1, t(6), t(12))))


def scalar(c): return z3.And(z3.ULE(c, 0x10ffff), z3.Or(z3.ULT(c, 0xd800), z3.UGT(c, 0xdfff)))


def encode(E):
    st = with_globals(E)
    c = E.fresh('c', 32); E.assume(st, scalar(c))
    out, s0 = E.sym_str(st, 'out'); n0 = b64(s0.len)
    J = E.fresh('J'); E.input_terms = [('c', c)]

    def post(E, st, o):
        if not expect_ret(E, st, o): return
        s = E.obj(st, out)
        E.prove(st, b64(s.len) == n0 + enc_len(c), 'length of the encoding')
        E.prove(st, z3.Implies(z3.ULT(J, n0), bv(s.at(J), 8) == bv(s0.at(J), 8)), 'earlier output unchanged')
        for i in range(4):
            E.prove(st, z3.Implies(z3.ULT(i, enc_len(c)), bv(s.at(simp(n0 + i)), 8) == enc_byte(c, V64(i))), 'byte %d of the encoding' % i)
        ok, ln, cp = wf([bv(s.at(simp(n0 + i)), 8) for i in range(4)], b64(s.len) - n0)
        E.prove(st, z3.And(ok, ln == b64(s.len) - n0, cp == c), 'the encoding is well-formed and denotes the scalar (decode after encode is the identity)')
    run(E, st, E.func(r'^vf_encode\('), [c, out], post)


def text_to_ustring(E, fn):
    """valid text: code points in order; check_utf8 is exact"""
    st = with_globals(E)
    E.merge.append(r'chars_to_uchar_impl')
    if fn == 'ptr':
        buf, s = E.sym_buf(st, 'text'); n = b64(s.len); E.assume(st, z3.ULT(n, 1 << 40))
        args = [buf, n]; f = E.func(r'^' + NS + r'string_to_ustring\(char const\*, unsigned long\)')
    else:
        p, s = E.sym_str(st, 'text'); n = b64(s.len); args = [p]
        f = E.func('^' + NS + (r'string_to_ustring\(std::' if fn == 'str' else r'check_utf8\('))
    L = z3.Function('L', z3.BitVecSort(64), z3.BitVecSort(64))   # start of character k
    K = E.fresh('K'); J = E.fresh('J')
    E.input_terms = [('text', ('seq', s)), ('K', K)]
    bad = E.fresh('bad', 1) if fn == 'check' else z3.BoolVal(False)   # an ill-formed sequence starts at L(K)
    E.assume(st, z3.And(L(V64(0)) == 0, z3.ULT(K, 1 << 40), z3.ULE(L(K), n), z3.If(bad, z3.ULT(L(K), n), L(K) == n)))
    if fn == 'check': E.assume(st, z3.Implies(bad, z3.Not(wfat(s, n, L(K))[0])))
    out = E.alloc(st, 32, 'result') if fn != 'check' else None

    def step(k):
        ok, ln, cp = wfat(s, n, L(k))
        return z3.Implies(z3.ULT(k, K), z3.And(ok, L(k + 1) == L(k) + ln, z3.ULT(L(k), n), z3.ULE(L(k + 1), n)))

    def facts(E, st, k, e): return [step(k)]

    def cur(E, st, fr):
        pass

    def inv(E, st, k, e):
        r = [('characters consumed', z3.ULE(b64(k), K))]
        if fn != 'check':
            o = E.obj(st, out)
            r += [('one code point per character', b64(o.len) == b64(k)),
                  ('code points in order', z3.Implies(z3.ULT(J, b64(o.len)), bv(o.at(J), 32) == wfat(s, n, L(J))[2]))]
        its = iters(E, st)
        if its is not None: r.append(('position is the start of character k', its == L(b64(k))))
        return r

    def iters(E, st):
        """position of the iterator over the text: the unique local pointing into it that moves"""
        fr = [x for x in st.frames if x.f is f][0]
        for rid in fr.allocas:
            r = st.mem[rid]
            c = r.cells.get(0)
            if c and isinstance(c[1], Ptr) and not isint(c[1].o) or (c and isinstance(c[1], Ptr) and isint(c[1].o) and c[1].o == 0):
                if base(c[1]) and not (not isint(c[1].o) and c[1].o.eq(n)): return b64(c[1].o)
        raise Unsupported('iterator over the text not found')

    def base(p): return p.r == (args[0].r) or (isinstance(p.r, tuple) and p.r[0] == 'D' and p.r[1] == args[0].r)
    E.loopspecs = [LoopSpec(inv, facts, name='conversion loop', func=outer_of(re.escape(f.dem)))]

    def post(E, st, o):
        if not expect_ret(E, st, o): return
        if fn == 'check':
            E.prove(st, tob(o[1]) == z3.Not(bad), 'true exactly for well-formed text')
            return
        r = E.obj(st, out)
        E.prove(st, b64(r.len) == K, 'one code point per character')
        E.prove(st, z3.Implies(z3.ULT(J, K), bv(r.at(J), 32) == wfat(s, n, L(J))[2]), 'code points in order')
    run(E, st, f, ([out] if out else []) + args, post)


def ustring_to_text(E):
    st = with_globals(E)
    un = E.fresh('us.len'); E.assume(st, z3.ULT(un, 1 << 36))
    us = Seq(ArrN(E.fresharr('us', 32)), un, 4, 'ustr', next(E.cnt))
    p = E.alloc(st, 32, 'us'); st.mem[p.r].cells[0] = (32, us)
    out = E.alloc(st, 32, 'result')
    f = E.func('^' + NS + r'ustring_to_string(\[abi:cxx11\])?\(')
    L = z3.Function('L', z3.BitVecSort(64), z3.BitVecSort(64))
    B = E.fresh('B'); I = E.fresh('I')
    E.assume(st, L(V64(0)) == 0)
    u = lambda k: bv(us.at(k), 32)
    E.assume(st, z3.And(z3.ULT(B, un), scalar(u(B)), z3.ULT(I, enc_len(u(B))), L(B + 1) == L(B) + enc_len(u(B))))
    E.input_terms = [('us', ('seq', us)), ('B', B)]

    def facts(E, st, k, e):    # prefix lengths: definition at k, monotone (a consequence of the definition) at B
        return [z3.Implies(z3.ULT(k, un), z3.And(scalar(u(k)), L(k + 1) == L(k) + enc_len(u(k)), z3.ULE(L(k + 1), 4 * (k + 1)), z3.ULE(L(k), 4 * k))),
                z3.Implies(z3.ULE(B + 1, k), z3.ULE(L(B + 1), L(k)))]

    def inv(E, st, k, e):
        o = E.obj(st, out)
        return [('range', z3.ULE(b64(k), un)), ('length is the sum of the encodings', b64(o.len) == L(b64(k))),
                ('bytes of every character', z3.Implies(z3.ULT(B, b64(k)), bv(o.at(simp(L(B) + I)), 8) == enc_byte(u(B), I)))]
    E.loopspecs = [LoopSpec(inv, facts, name='encoding loop', func=outer_of(re.escape(f.dem)))]

    def post(E, st, o):
        if not expect_ret(E, st, o): return
        r = E.obj(st, out)
        E.prove(st, b64(r.len) == L(un), 'length is the sum of the encodings')
        E.prove(st, bv(r.at(simp(L(B) + I)), 8) == enc_byte(u(B), I), 'bytes of every character')
    run(E, st, f, [out, p], post)


def sanitize(E):
    """every piece appended to the result is one well-formed sequence"""
    st = with_globals(E)
    E.merge += [r'utf8_invalid', r'utf8_skip']
    p, s = E.sym_str(st, 's')
    E.input_terms = [('s', ('seq', s))]
    out = E.alloc(st, 32, 'result')
    f = E.func('^' + NS + r'sanitize_utf8\(')

    def app(E, st, a, ins):
        d = sget(E, st, a[0]); x = sget(E, st, a[1])
        if a[0].r == out.r:
            ok, ln, cp = wf([bv(x.at(i), 8) for i in range(4)], b64(x.len))
            E.prove(st, z3.Or(b64(x.len) == 0, z3.And(ok, ln == b64(x.len))), 'only whole well-formed sequences are appended to the result')
        sset(E, st, a[0], d.cat(x)); return a[0]
    E.local_models.append((RSTR + r'::(operator\+=|append)\(%s const&\)$' % RSTR, app))

    def other(E, st, a, ins):
        if a[0].r == out.r: raise Unsupported('the result is built by another operation than append(string)')
        return MODEL_PUSH(E, st, a)
    E.local_models.append((RSTR + r'::(operator\+=|push_back)\(char\)$', other))
    E.loopspecs = [LoopSpec(lambda E, st, k, e: [], name='sanitize loop', func=outer_of('sanitize_utf8'))]

    def post(E, st, o):
        if not expect_ret(E, st, o): return
    run(E, st, f, [out, p], post)


def MODEL_PUSH(E, st, a):
    sset(E, st, a[0], sget(E, st, a[0]).push(a[1])); return a[0]


F = lambda *x: [NS + y for y in x]
PROOFS = [
    dict(name='decode (raising)', src=SRC, fn=lambda E: decode(E, 'exc'), functions=F('detail::chars_to_uchar_impl', 'exception_fallback::fallback')),
    dict(name='decode (replacing)', src=SRC, fn=lambda E: decode(E, 'rep'), functions=F('detail::chars_to_uchar_impl', 'replacement_fallback::fallback')),
    dict(name='encode', src=SRC, fn=encode, functions=F('uchar_to_chars')),
    dict(name='string_to_ustring(ptr,len)', src=SRC, fn=lambda E: text_to_ustring(E, 'ptr'), functions=F('string_to_ustring(char const*,size_t)')),
    dict(name='string_to_ustring(string)', src=SRC, fn=lambda E: text_to_ustring(E, 'str'), functions=F('string_to_ustring(std::string)')),
    dict(name='check_utf8', src=SRC, fn=lambda E: text_to_ustring(E, 'check'), functions=F('check_utf8')),
    dict(name='ustring_to_string', src=SRC, fn=ustring_to_text, functions=F('ustring_to_string')),
    dict(name='sanitize_utf8', src=SRC, fn=sanitize, functions=F('sanitize_utf8')),
]
HARNESS = [dict(src='c03.cpp', repo=['data/string/ustring.cpp'], budget=5, bound='all code points; all byte strings of length up to 2, boundary-biased strings of length up to 8, every truncation')]
