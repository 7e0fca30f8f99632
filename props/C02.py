"""Bit codes: for an encoder in an arbitrary state at every bit alignment, writing then reading gives the value back,
earlier bits are untouched, the representation invariant is kept and exactly the written bits are consumed."""
from common import *

SRC = ['data/code/code.cpp', 'system/endian_util.cpp']
NS = 'pfi::data::code::'
ASSUMPTIONS = ['the decoder buffer is followed by 8 readable bytes (decoder::attach(istream) provides them; attach(buf) leaves it to the caller)',
               'the encoded stream is shorter than 2^31 bytes', 'round trips of sequences follow from the per-write contract by induction over the sequence']


def setup(E, bit):
    """encoder in an arbitrary state with cursor `bit` in the last byte"""
    st = E.st0.copy()
    n32 = E.fresh('n', 32); n = z3.simplify(z3.ZeroExt(32, n32)); E.n32 = n32
    E.assume(st, z3.And(z3.ULT(n32, 1 << 31), z3.UGE(n32, 1 if bit else 0)))
    arr = E.fresharr('bytes')
    seq = Seq(FunN(lambda i: simp(z3.Select(arr, b64(i)))), n, 1, 'vector', next(E.cnt), None)
    if bit:   # representation invariant: the unused bits of the last byte are zero
        seq = seq.with_(n=UpdN(seq.n, simp(n - 1), z3.Concat(z3.BitVecVal(0, 8 - bit), E.fresh('last', bit) if bit > 1 else z3.If(E.fresh('last', 1), z3.BitVecVal(1, 1), z3.BitVecVal(0, 1)))))
    enc = E.alloc(st, 32, 'encoder')
    st.mem[enc.r].cells[0] = (4, bit)
    st.mem[enc.r].cells[8] = (24, seq)
    return st, enc, seq


def state(E, st, enc):
    return E.loadw(st, enc, 4), E.obj(st, Ptr(enc.r, 8))


def aligned(n, bit):
    """number of complete bytes"""
    if isint(bit): return simp(b64(n) - (1 if bit else 0))
    return simp(b64(n) - z3.If(bit != 0, V64(1), V64(0)))


def check_write(E, st, enc, old, bit0, skip):
    """frame: bits written earlier are unchanged; invariant of the encoder"""
    bit, s = state(E, st, enc)
    n0 = b64(old.len)
    J = E.fresh('J')
    E.prove(st, z3.ULT(bv(bit, 32), 8), 'cursor below 8')
    E.prove(st, z3.Implies(bv(bit, 32) != 0, z3.UGE(b64(s.len), 1)), 'a partial byte exists')
    E.prove(st, z3.UGE(b64(s.len), n0), 'no byte is removed')
    E.prove(st, z3.Implies(z3.ULT(J, aligned(n0, bit0)), bv(s.at(J), 8) == bv(old.at(J), 8)), 'bytes written earlier are unchanged')
    if bit0:
        m = (1 << bit0) - 1
        l = simp(n0 - 1)
        E.prove(st, (bv(s.at(l), 8) & m) == (bv(old.at(l), 8) & m), 'bits written earlier in the last byte are unchanged')
        if skip: pass
    nl = simp(b64(s.len) - 1)
    b8 = z3.Extract(7, 0, bv(bit, 32))
    E.prove(st, z3.Implies(b8 != 0, z3.LShR(bv(s.at(nl), 8), b8) == 0), 'unused bits of the last byte are zero')
    return bit, s


def decoder(E, st, s, bit1, n0, bit0):
    """decoder at the position where the write started, on a buffer that agrees with the encoder on the bits written so far only"""
    A = ArrN(E.fresharr('later'))
    if not isint(bit1):
        bb = simp(bit1)
        bit1 = bb
    full = aligned(s.len, bit1)
    b8 = bv(bit1, 32)
    b8 = z3.Extract(7, 0, b8)
    mask = (z3.BitVecVal(1, 8) << b8) - 1

    def f(i):
        i = norm(E, st, b64(i))
        d = simp(i - full)
        if isint(d):
            d = signed(d, 64)
            if d < 0: return bv(s.at(i), 8)
            if d > 0 or (isint(bit1) and bit1 == 0): return bv(A.at(i), 8)
            if isint(bit1): return simp((bv(s.at(i), 8) & ((1 << bit1) - 1)) | (bv(A.at(i), 8) & (255 ^ ((1 << bit1) - 1))))
        e = bv(s.at(simp(i)), 8); a = bv(A.at(simp(i)), 8)
        return simp(z3.If(z3.ULT(i, full), e, z3.If(z3.And(i == full, b8 != 0), (e & mask) | (a & ~mask), a)))
    buf = Seq(FunN(f), simp(b64(s.len) + 8), 1, 'buf')
    rid = E.seqregion(st, buf, 'stream'); st.mem[rid].const = True
    dec = E.alloc(st, 24, 'decoder')
    c = st.mem[dec.r].cells
    c[0] = (1, 0)
    c[4] = (4, simp(z3.Extract(31, 0, aligned(n0, bit0)))); c[8] = (4, bit0); c[16] = (8, Ptr(rid, 0))
    return dec


def check_read(E, st, dec, s, bit1, rv, want, what):
    E.prove(st, bv(rv, 32) == want, what + ': the value read is the value written')
    pos = E.loadw(st, Ptr(dec.r, 4), 4); b = E.loadw(st, Ptr(dec.r, 8), 4)
    # the cursor is exactly after the written bits
    E.prove(st, b64(z3.ZeroExt(32, bv(pos, 32))) * 8 + z3.ZeroExt(32, bv(b, 32)) == aligned(s.len, bit1) * 8 + z3.ZeroExt(32, bv(bit1, 32)),
            what + ': exactly the written bits are consumed')
    E.prove(st, z3.ULT(bv(b, 32), 8), what + ': decoder cursor below 8')


def roundtrip(E, bit, wfn, wargs, rfn, rargs, want, what, skip=False, prep=None):
    E.S.push()
    try:
        st, enc, old = setup(E, bit)
        if prep: prep(st)
        E.input_terms = [('value', want), ('n', old.len)]
        w = E.func('^' + NS + wfn); r = E.func('^' + NS + rfn)
        nm = '%s at bit %d' % (what, bit)

        def mid(E, st, o):
            if not expect_ret(E, st, o): return
            E.prefix = PFX + nm + ': '
            bit1, s = check_write(E, st, enc, old, bit, skip)
            b0 = bit; n0 = b64(old.len)
            dec = decoder(E, st, s, bit1, n0, b0)

            def post(E, st, o):
                if not expect_ret(E, st, o): return
                check_read(E, st, dec, s, bit1, o[1], want, nm)
            save = E.on_exit
            E.S.push()
            st2 = st.copy(); st2.frames = []
            E.start(st2, r, [dec] + rargs)
            E.run(st2, post)
            E.on_exit = save
            E.S.pop()
        E.start(st, w, [enc] + wargs)
        E.run(st, mid)
    finally:
        E.S.pop()


PFX = ''


def norm(E, st, i):
    """zext(n+c) -> zext(n)+c (no wrap-around for streams below 2^31 bytes); the rewriting is itself an obligation"""
    n32 = E.n32
    c, ts = linear(i)
    r = V64(c); ch = False
    for co, x in ts.values():
        y = x
        e = None
        if x.decl().kind() == z3.Z3_OP_ZERO_EXT: e = x.arg(0)
        elif x.decl().kind() == z3.Z3_OP_CONCAT and x.num_args() == 2 and isinstance(x.arg(0), z3.BitVecNumRef) and x.arg(0).as_long() == 0: e = x.arg(1)
        if e is not None and e.size() == 32:
            d = simp(e - n32)
            if isint(d) and d: y = z3.ZeroExt(32, n32) + (signed(d, 32) & M64); ch = True
        r = r + y * co
    r = simp(r)
    if ch: E.prove(st, i == r, 'stream index does not wrap', 'ub')
    return b64(r)


def lens(p):
    """32-bit value with exactly p+1 significant bits"""
    return z3.simplify(z3.Concat(*([z3.BitVecVal(0, 31 - p)] if p < 31 else []), z3.BitVecVal(1, 1), *([z3.BitVec('low%d' % p, p)] if p else [])))


def words(E, bits):
    E.st0 = with_globals(E)
    for bit in bits:
        for ln in range(33):
            v = z3.BitVec('v', 32)
            want = v & ((1 << ln) - 1) if ln < 32 else v
            roundtrip(E, bit, r'encoder::word_with_length\(', [v, ln], r'decoder::word_with_length\(', [ln], want, 'word %d bits' % ln)


def gammas(E, bits):
    E.st0 = with_globals(E)
    for bit in bits:
        for p in range(32):
            v = lens(p)
            roundtrip(E, bit, r'encoder::gamma\(', [v], r'decoder::gamma\(', [], v, 'gamma of a %d-bit value' % (p + 1))


def deltas(E, bits):
    E.st0 = with_globals(E)
    for bit in bits:
        for p in range(32):
            v = lens(p)
            roundtrip(E, bit, r'encoder::delta\(', [v], r'decoder::delta\(', [], v, 'delta of a %d-bit value' % (p + 1))


def prefix(E):
    E.st0 = with_globals(E)
    for bit in range(8):
        v = z3.BitVec('v', 32)
        roundtrip(E, bit, r'encoder::prefix_code\(', [v], r'decoder::prefix_code\(', [], v, 'prefix code', skip=True)


def byte(E):
    E.st0 = with_globals(E)
    for bit in range(8):
        v = z3.BitVec('v', 8)
        def fix(E): pass
        E.S.push()
        st, enc, old = setup(E, bit)
        w = E.func('^' + NS + r'encoder::byte\('); r = E.func('^' + NS + r'decoder::byte\(')

        def mid(E, st, o, bit=bit, enc=enc, old=old):
            if not expect_ret(E, st, o): return
            bit1, s = check_write(E, st, enc, old, bit, True)
            dec = decoder(E, st, s, bit1, b64(old.len), bit)

            def post(E, st, o):
                if not expect_ret(E, st, o): return
                check_read(E, st, dec, s, bit1, z3.ZeroExt(24, bv(o[1], 8)), z3.ZeroExt(24, v), 'byte at bit %d' % bit)
            save = E.on_exit
            E.S.push(); st2 = st.copy(); st2.frames = []
            E.start(st2, r, [dec]); E.run(st2, post); E.on_exit = save; E.S.pop()
        E.start(st, w, [enc, v]); E.run(st, mid)
        E.S.pop()


def rice(E):
    """rice against the contracts of delta and word_with_length (proved separately): the sub-codes form a queue of
    (code, parameter, value) items; reading item i with the same code and parameter returns its value"""
    st = State()
    enc = E.alloc(st, 32, 'encoder'); dec = E.alloc(st, 24, 'decoder')
    st.ghost['items'] = (); st.ghost['rd'] = 0

    def wr(code):
        def m(E, st, a, ins):
            v = a[1]; par = a[2] if code == 'word' else None
            if code in ('gamma', 'delta'): E.prove(st, bv(v, 32) != 0, '%s is given a positive value' % code, 'pre')
            if code == 'word': E.prove(st, z3.ULE(bv(par, 32), 32), 'width at most 32', 'pre')
            st.ghost['items'] = st.ghost['items'] + ((code, par, v),)
            return None
        return m

    def rd(code):
        def m(E, st, a, ins):
            i = st.ghost['rd']
            if i >= len(st.ghost['items']) or st.ghost['items'][i][0] != code: raise Unsupported('rice is not decoded by the mirrored sub-codes')
            c, par, v = st.ghost['items'][i]
            if code == 'word':
                E.prove(st, bv(a[1], 32) == bv(par, 32), 'same width is read')
                p = bv(par, 32)
                v = simp(z3.If(p == 32, bv(v, 32), bv(v, 32) & ((z3.BitVecVal(1, 32) << p) - 1)))
            st.ghost['rd'] = i + 1
            return v
        return m
    for code, fn in (('delta', 'delta'), ('gamma', 'gamma'), ('word', 'word_with_length')):
        E.local_models.append((NS + r'encoder::%s\(.*' % fn, wr(code)))
        E.local_models.append((NS + r'decoder::%s\(.*' % fn, rd(code)))
    v = E.fresh('v', 32); k = E.fresh('k', 32)
    E.input_terms = [('v', v), ('k', k)]
    E.assume(st, z3.And(z3.ULT(k, 32), z3.LShR(v, k) != (1 << 32) - 1))
    r = E.func('^' + NS + r'decoder::rice\(')

    def mid(E, st, o):
        if not expect_ret(E, st, o): return

        def post(E, st, o):
            if not expect_ret(E, st, o): return
            E.prove(st, bv(o[1], 32) == v, 'rice: the value read is the value written')
            E.prove(st, z3.BoolVal(st.ghost['rd'] == len(st.ghost['items'])), 'rice: every sub-code written is consumed')
        save = E.on_exit
        st2 = st.copy(); st2.frames = []
        E.start(st2, r, [dec, k]); E.run(st2, post); E.on_exit = save
    run(E, st, E.func('^' + NS + r'encoder::rice\('), [enc, v, k], mid)


def fs(*n): return [NS + x for x in n]


PROOFS = []
for b in range(8):
    PROOFS.append(dict(name='words at bit %d' % b, src=SRC, fn=(lambda b: lambda E: words(E, [b]))(b), functions=fs('encoder::word_with_length', 'decoder::word_with_length')))
    PROOFS.append(dict(name='gamma at bit %d' % b, src=SRC, fn=(lambda b: lambda E: gammas(E, [b]))(b), functions=fs('encoder::gamma', 'decoder::gamma')))
    PROOFS.append(dict(name='delta at bit %d' % b, src=SRC, fn=(lambda b: lambda E: deltas(E, [b]))(b), functions=fs('encoder::delta', 'decoder::delta')))
PROOFS += [dict(name='prefix code', src=SRC, fn=prefix, functions=fs('encoder::prefix_code', 'decoder::prefix_code')),
           dict(name='byte', src=SRC, fn=byte, functions=fs('encoder::byte', 'decoder::byte')),
           dict(name='rice', src=SRC, fn=rice, functions=fs('encoder::rice', 'decoder::rice'))]
HARNESS = [dict(src='c02.cpp', repo=['data/code/code.cpp', 'system/file.cpp', 'system/endian_util.cpp'], budget=5, bound='random sequences of up to 40 mixed writes with extreme values; stream attach/flush')]
