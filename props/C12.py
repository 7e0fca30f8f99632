"""Percent-encoding and decoding of byte strings of every length (below 2^31)."""
from streams import *
SRC = ['network/uri.cpp']
ASSUMPTIONS = [OS_ASSUME, CT_ASSUME, 'texts are shorter than 2^31 bytes (the code indexes with int)']
LIM = (1 << 31) - 1
Fn = lambda n: z3.Function(n, z3.BitVecSort(64), z3.BitVecSort(64))


def plain(c): return z3.Or(c_alnum(c), c == 45, c == 95, c == 46, c == 126, c == 32)
def hexup(n): return z3.If(z3.ULT(n, 10), n + 48, n + 55)
def enc(c, j):
    """character j of the encoding of byte c"""
    hi, lo = z3.LShR(c, 4), c & 15
    return [z3.If(c == 32, z3.BitVecVal(43, 8), z3.If(plain(c), c, z3.BitVecVal(37, 8))), hexup(hi), hexup(lo)][j]
def width(c): return z3.If(plain(c), V64(1), V64(3))
def safe(c): return z3.Or(c_alnum(c), c == 45, c == 95, c == 46, c == 126, c == 43, c == 37)
def hexval(c): return z3.If(c_digit(c), c - 48, z3.If(rng(c, 65, 70), c - 55, z3.If(rng(c, 97, 102), c - 87, z3.BitVecVal(0, 8))))


def models(E): E.local_models += ostream_models() + ctype_models()


def encode(E):
    st = with_globals(E); models(E)
    s, sv = E.sym_str(st, 's', LIM); n = b64(sv.len); out = E.alloc(st, 32, 'result')
    P = E.fresh('P'); J = E.fresh('J'); L = Fn('L'); ch = lambda k: bv(sv.at(simp(b64(k))), 8)
    E.input_terms = [('s', ('seq', sv)), ('P', P)]
    E.assume(st, z3.ULT(P, n)); E.assume(st, L(V64(0)) == 0)
    stream = [None]

    def facts(E, st, k, entry): return [L(simp(b64(k) + 1)) == L(b64(k)) + width(ch(k)), z3.ULE(L(b64(k)), 3 * b64(k)), L(P + 1) == L(P) + width(ch(P))]

    def props(o, k, ln):
        c = ch(P)
        at = lambda i: bv(o.at(simp(L(P) + i)), 8)
        return [('encoding of each byte at its place', z3.Implies(z3.ULT(P, b64(k)), z3.And(z3.ULE(L(P) + width(c), ln), at(0) == enc(c, 0), z3.Implies(z3.Not(plain(c)), z3.And(at(1) == enc(c, 1), at(2) == enc(c, 2)))))),
                ('only safe characters', z3.Implies(z3.ULT(J, ln), safe(bv(o.at(J), 8))))]

    def inv(E, st, k, entry):
        o = osget(E, st, stream[0]); ln = b64(o.len)
        return [('length so far', ln == L(b64(k))), ('within the text', z3.ULE(b64(k), n))] + props(o, k, ln)
    base = ostream_models()
    def note(E, st, a, ins): stream[0] = a[0]; osset(E, st, a[0], ESTR(E))
    E.local_models.insert(0, (base[0][0], note))
    E.loopspecs = [LoopSpec(inv, facts, name='encode loop', phis=cursor(lambda k: k))]

    def post(E, st, o):
        if not expect_ret(E, st, o): return
        r = sget(E, st, out); ln = b64(r.len)
        E.prove(st, ln == L(n), 'one or three characters per byte')
        for nm, f in props(r, n, ln): E.prove(st, f, nm)
    run(E, st, E.func(r'^pfi::network::uri_encode'), [out, s], post)


def decode(E, inverse):
    st = with_globals(E); models(E)
    s, sv = E.sym_str(st, 's', LIM); n = b64(sv.len); out = E.alloc(st, 32, 'result')
    J = E.fresh('J'); S = Fn('S'); at = lambda i: bv(sv.at(simp(i)), 8)
    E.assume(st, S(V64(0)) == 0)
    if inverse:                                         # s is the encoding of x
        xl = E.fresh('x.len'); E.assume(st, z3.ULT(xl, LIM)); x = ArrN(E.fresharr('x')); xa = lambda k: bv(x.at(simp(b64(k))), 8)
        E.input_terms = [('x', ('seq', Seq(x, xl, 1, 'str')))]
        E.assume(st, S(xl) == n)
        def facts(E, st, k, entry):
            k = b64(k); c = xa(k); w = width(c)
            return [z3.Implies(z3.ULT(k, xl), z3.And(S(simp(k + 1)) == S(k) + w, z3.ULE(S(k) + w, n), at(S(k)) == enc(c, 0), z3.Implies(z3.Not(plain(c)), z3.And(at(S(k) + 1) == enc(c, 1), at(S(k) + 2) == enc(c, 2)))))]
        val = lambda k: xa(k)
        more = lambda k: [('every byte is decoded once', z3.ULE(b64(k), xl)), ('position is that of the byte', z3.ULE(S(b64(k)), n))]
    else:
        E.input_terms = [('s', ('seq', sv))]
        pct = lambda k: z3.And(at(S(k)) == 37, z3.ULT(S(k) + 2, n))
        def facts(E, st, k, entry): k = b64(k); return [S(simp(k + 1)) == S(k) + z3.If(pct(k), V64(3), V64(1))]
        val = lambda k: z3.If(pct(k), hexval(at(S(k) + 1)) * 16 + hexval(at(S(k) + 2)), z3.If(at(S(k)) == 43, z3.BitVecVal(32, 8), at(S(k))))
        more = lambda k: [('inside the text', z3.ULE(S(b64(k)), n))]
    # escapes with digits that are not hexadecimal have no specified value
    okval = lambda k: z3.BoolVal(True) if inverse else z3.Or(z3.Not(pct(k)), z3.And(c_xdigit(at(S(k) + 1)), c_xdigit(at(S(k) + 2))))
    stream = [None]
    def note(E, st, a, ins): stream[0] = a[0]; osset(E, st, a[0], ESTR(E))
    E.local_models.insert(0, (ostream_models()[0][0], note))

    def inv(E, st, k, entry):
        o = osget(E, st, stream[0])
        return [('one byte per token', b64(o.len) == b64(k)), ('bytes so far', z3.Implies(z3.And(z3.ULT(J, b64(k)), okval(J)), bv(o.at(J), 8) == val(J)))] + more(k)
    E.loopspecs = [LoopSpec(inv, facts, name='decode loop', phis=cursor(S))]

    def post(E, st, o):
        if not expect_ret(E, st, o): return
        r = sget(E, st, out)
        if inverse: E.prove(st, b64(r.len) == xl, 'decoded length is the original length')
        else: E.prove(st, S(b64(r.len)) == n, 'the whole text is consumed')
        E.prove(st, z3.Implies(z3.And(z3.ULT(J, b64(r.len)), okval(J)), bv(r.at(J), 8) == val(J)), 'every decoded byte is the one the text denotes')
    run(E, st, E.func(r'^pfi::network::uri_decode'), [out, s], post)


PROOFS = [dict(name='encode', src=SRC, fn=encode, functions=['uri_encode', 'tochar']), dict(name='decode inverts encode', src=SRC, fn=lambda E: decode(E, True), functions=['uri_decode', 'tohex']),
          dict(name='decode of any text', src=SRC, fn=lambda E: decode(E, False), functions=['uri_decode', 'tohex'])]
HARNESS = [dict(src='c12.cpp', repo=['network/uri.cpp'], budget=2, bound='all strings of up to 2 bytes, random strings to 300 bytes, texts with truncated escapes')]
