"""Base64: encode == RFC 4648 text for every byte string; decode inverts it; malformed texts are rejected."""
from common import *

SRC = ['data/encoding/base64.cpp']
ALPHA = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"
T = ConstN(list(ALPHA), 8)
ASSUMPTIONS = ['the abstract string contracts (push_back, size, operator[], c_str, substr) of libstdc++']


def enc_at(sv, B, P):
    """character 4B+P of the RFC 4648 text of the byte string sv"""
    n = b64(sv.len)
    q = lambda i: z3.ZeroExt(16, bv(sv.at(simp(i)), 8))
    b0 = z3.If(z3.ULT(3 * B, n), q(3 * B), 0); b1 = z3.If(z3.ULT(3 * B + 1, n), q(3 * B + 1), 0); b2 = z3.If(z3.ULT(3 * B + 2, n), q(3 * B + 2), 0)
    v = (b0 << 16) | (b1 << 8) | b2
    six = lambda k: z3.ZeroExt(40, z3.LShR(v, 18 - 6 * k) & 63)
    e = [T.at(six(0)), T.at(six(1)), z3.If(z3.ULT(3 * B + 1, n), T.at(six(2)), z3.BitVecVal(61, 8)), z3.If(z3.ULT(3 * B + 2, n), T.at(six(3)), z3.BitVecVal(61, 8))]
    if isint(P): return e[P]
    return z3.If(P == 0, e[0], z3.If(P == 1, e[1], z3.If(P == 2, e[2], e[3])))


def nblocks(E, st, n):
    q, r = E.divmod_const(st, n, 3, 64)
    return q + z3.If(r != 0, V64(1), V64(0)), q, r


def encode(E, P):
    st = with_globals(E)
    f = E.func(r'^pfi::data::encoding::base64_encode')
    s, sv = E.sym_str(st, 's'); n = b64(sv.len)
    out = E.alloc(st, 32, 'result')
    B = E.fresh('B'); J = 4 * B + P
    E.input_terms = [('s', ('seq', sv)), ('J', J)]
    E.assume(st, z3.ULT(B, 1 << 50))
    enc = enc_at(sv, B, P)

    def inv(E, st, k, entry):
        o = E.obj(st, out)
        return [('4 characters per 3 bytes', b64(o.len) == 4 * b64(k)), ('input range', z3.ULE(3 * b64(k), n)),
                ('every character written is the RFC 4648 one', z3.Implies(z3.ULT(J, b64(o.len)), bv(o.at(simp(J)), 8) == enc))]
    E.loopspecs = [LoopSpec(inv, name='encode loop')]

    def post(E, st, o):
        if not expect_ret(E, st, o): return
        r = E.obj(st, out)
        nb, _, _ = nblocks(E, st, n)
        E.prove(st, b64(r.len) == 4 * nb, 'length is 4*ceil(n/3)')
        E.prove(st, z3.Implies(z3.ULT(J, b64(r.len)), bv(r.at(simp(J)), 8) == enc), 'character %d of every block is the RFC 4648 one' % P)
    run(E, st, f, [out, s], post)


def decode_valid(E):
    st = with_globals(E)
    f = E.func(r'^pfi::data::encoding::base64_decode')
    xl = E.fresh('x.len'); E.assume(st, z3.ULT(xl, 1 << 40))
    xv = Seq(ArrN(E.fresharr('x')), xl, 1, 'str')
    s, sv = E.sym_str(st, 's', 1 << 42)
    nb, qn, rn = nblocks(E, st, xl)
    E.assume(st, b64(sv.len) == 4 * nb)          # s is the RFC 4648 text of x (characters instantiated block by block)
    out = E.alloc(st, 32, 'result')
    J = E.fresh('J')
    E.input_terms = [('x', ('seq', xv)), ('J', J)]

    def facts(E, st, k, entry):
        return [z3.Implies(z3.ULT(k, nb), bv(sv.at(simp(4 * k + i)), 8) == enc_at(xv, k, i)) for i in range(4)]

    def inv(E, st, k, entry):
        o = E.obj(st, out)
        return [('3 bytes per full block', b64(o.len) == 3 * b64(k)), ('whole blocks so far', z3.ULE(3 * b64(k), xl)),
                ('bytes decoded so far are the original ones', z3.Implies(z3.ULT(J, b64(o.len)), bv(o.at(J), 8) == bv(xv.at(J), 8)))]
    E.loopspecs = [LoopSpec(inv, facts, name='decode loop')]

    def post(E, st, o):
        if not expect_ret(E, st, o, 'valid text is accepted'): return
        r = E.obj(st, out)
        E.prove(st, b64(r.len) == xl, 'decoded length is the original length')
        E.prove(st, z3.Implies(z3.ULT(J, xl), bv(r.at(J), 8) == bv(xv.at(J), 8)), 'decoded bytes are the original bytes')
    run(E, st, f, [out, s], post)


def is_alpha(c):
    return z3.Or(z3.And(z3.UGE(c, 65), z3.ULE(c, 90)), z3.And(z3.UGE(c, 97), z3.ULE(c, 122)), z3.And(z3.UGE(c, 48), z3.ULE(c, 57)), c == 43, c == 47)


def decode_invalid(E):
    st = with_globals(E)
    f = E.func(r'^pfi::data::encoding::base64_decode')
    s, sv = E.sym_str(st, 's'); n = b64(sv.len)
    out = E.alloc(st, 32, 'result')
    p = E.fresh('p'); E.input_terms = [('s', ('seq', sv)), ('bad position', p)]
    bad = z3.And(z3.ULT(p, n), z3.Not(is_alpha(bv(sv.at(p), 8))), bv(sv.at(p), 8) != 61)
    E.assume(st, z3.Or(bad, (n & 3) != 0))

    def facts(E, st, k, entry):      # no padding character before position p
        return [z3.Implies(z3.ULT(4 * k + i, p), bv(sv.at(simp(4 * k + i)), 8) != 61) for i in range(4)]

    def inv(E, st, k, entry):
        return [('blocks read', z3.ULE(4 * b64(k), n)), ('the bad character is still ahead', z3.ULE(4 * b64(k), p))]
    E.loopspecs = [LoopSpec(inv, facts, name='decode loop')]

    def post(E, st, o):
        E.prove(st, z3.BoolVal(o[0] == 'throw' and o[1].ti == '_ZTISt16invalid_argument'), 'a malformed text raises invalid_argument')
    run(E, st, f, [out, s], post)


def decode_any(E):
    st = with_globals(E)
    f = E.func(r'^pfi::data::encoding::base64_decode')
    s, sv = E.sym_str(st, 's'); n = b64(sv.len)
    out = E.alloc(st, 32, 'result')
    E.input_terms = [('s', ('seq', sv))]
    E.loopspecs = [LoopSpec(lambda E, st, k, e: [('blocks read', z3.ULE(4 * b64(k), n))], name='decode loop')]

    def post(E, st, o):
        E.prove(st, z3.BoolVal(o[0] == 'ret' or o[1].ti == '_ZTISt16invalid_argument'), 'returns or raises invalid_argument')
    run(E, st, f, [out, s], post)


FE = 'pfi::data::encoding::base64_encode'; FD = 'pfi::data::encoding::base64_decode'
PROOFS = [dict(name='encode[%d]' % P, src=SRC, fn=(lambda P: lambda E: encode(E, P))(P), functions=[FE]) for P in range(4)] + [
    dict(name='decode inverts encode', src=SRC, fn=decode_valid, functions=[FD]),
    dict(name='decode rejects malformed text', src=SRC, fn=decode_invalid, functions=[FD]),
    dict(name='decode is memory safe', src=SRC, fn=decode_any, functions=[FD])]
HARNESS = [dict(src='c01.cpp', repo=['data/encoding/base64.cpp'], budget=4, bound='all lengths 0..70 and 200 random byte strings each, all single-byte contents, all 1-character corruptions')]
