"""JSON: string printing (both escape modes), string parsing, numbers, white space, arrays and objects over code point streams of every length."""
from streams import *
SRC = ['inst/c14.cpp', 'text/json/parser.cpp', 'data/string/ustring.cpp']
LIM = 1 << 28
W64 = z3.BitVecSort(64)
Fn = lambda n, w=64: z3.Function(n, W64, z3.BitVecSort(w))
ASSUMPTIONS = [OS_ASSUME, CT_ASSUME, 'texts below 2^28 characters', 'the input stream delivers the text once, in order (std::istreambuf_iterator); UTF-8 decoding of it by the contract proved for C03 (ill-formed sequences come out as U+0000 or U+FFFD)',
               'strtoll/strtod denote the number whose text they are given; operator<< writes an int64 in decimal', 'realloc grows in place in the proof (moving buffers by the bounded stand-in)',
               'parse_impl, parse_string_prim and ss by contract in the array and object proofs (parse_string_prim and ss proved here; parse_impl by induction over the nesting depth)',
               'the json value tree (builder, containers, clone) and floating-point text only by the bounded stand-in']
B8 = lambda x: z3.BitVecVal(x, 8)
ESC = [(0x22, '"'), (0x5C, '\\'), (0x2F, '/'), (8, 'b'), (12, 'f'), (10, 'n'), (13, 'r'), (9, 't')]
HEX = lambda v: z3.If(z3.ULT(v, 10), v + 48, v + 55)


def cntrl(E, st, a, ins):
    c = bv(a[0], 32); E.prove(st, z3.And(c >= -128, c <= 255), 'character class of a character value', 'pre'); nz = E.fresh('ctype', 32); E.assume(st, nz != 0)
    return simp(z3.If(z3.Or(z3.And(c >= 0, c < 32), c == 127), nz, z3.BitVecVal(0, 32)))


def short(c, w):   # has a two-character escape
    return z3.Or([c == z3.BitVecVal(x, w) for x, _ in ESC])
def shortc(c, w):
    r = B8(0)
    for x, y in ESC: r = z3.If(c == z3.BitVecVal(x, w), B8(ord(y)), r)
    return r


def enc(u, esc):
    """width and characters of the printed form of unit u (32-bit code point, or byte when not escaping)"""
    low = lambda v: z3.Extract(7, 0, v); nib = lambda v, s: low(HEX(z3.LShR(v, s) & 15)); isc = z3.Or(z3.ULT(u, 32), u == 127)
    h = 0xD800 + z3.UDiv(u - 0x10000, z3.BitVecVal(0x400, 32)); l = 0xDC00 + z3.URem(u - 0x10000, z3.BitVecVal(0x400, 32)); u4 = z3.Or(isc, z3.And(z3.UGE(u, 0x80), z3.ULT(u, 0x10000))) if esc else isc
    big = z3.UGE(u, 0x10000) if esc else z3.BoolVal(False); sh = short(u, 32)
    w = z3.If(sh, V64(2), z3.If(big, V64(12), z3.If(u4, V64(6), V64(1))))
    def at(j):
        four = [B8(92), B8(117), nib(u, 12), nib(u, 8), nib(u, 4), nib(u, 0)]; hh = [B8(92), B8(117)] + [nib(h, s) for s in (12, 8, 4, 0)] + [B8(92), B8(117)] + [nib(l, s) for s in (12, 8, 4, 0)]
        r = low(u) if j == 0 else B8(0)
        if j < 6: r = z3.If(u4, four[j], r)
        r = z3.If(big, hh[j], r)
        if j < 2: r = z3.If(sh, [B8(92), shortc(u, 32)][j], r)
        return r
    return w, at


def printing(E, esc):
    st = with_globals(E); E.local_models += ostream_models() + [('iscntrl$', cntrl)]; s, v = E.sym_str(st, 's', LIM); n = b64(v.len); os = E.alloc(st, 112, 'os'); osset(E, st, os, ESTR(E)); L = Fn('L'); P = Fn('P'); U = Fn('U', 32); F = E.fresh('F'); J = E.fresh('J'); m = E.fresh('m')
    E.input_terms = [('s', ('seq', v))]
    unit = (lambda k: U(k)) if esc else (lambda k: z3.ZeroExt(24, bv(v.at(simp(k)), 8)))
    if not esc: E.assume(st, m == n)
    scalar = lambda u: z3.And(z3.ULE(u, 0x10FFFF), z3.Or(z3.ULT(u, 0xD800), z3.UGE(u, 0xE000)))
    D = E.fresh('D'); UF = E.fresh('UF', 32); E.assume(st, z3.And(z3.ULT(F, m), L(V64(0)) == 1, D == L(F), UF == unit(F), z3.ULT(D, 1 << 40), z3.ULE(m, n)))
    wF, atF = enc(UF, esc)
    def defs(k): return [z3.UGE(L(k), 1), L(simp(k + 1)) == L(k) + enc(unit(k), esc)[0], z3.ULE(L(k), 16 * k + 1), z3.Implies(z3.ULT(F, k), z3.ULE(D + wF, L(k))), z3.Implies(F == k, z3.And(D == L(k), UF == unit(k)))] + ([scalar(U(k)), z3.ULE(k, P(k)), z3.ULE(P(k), n), z3.Implies(k == 0, P(k) == 0), z3.Implies(z3.ULT(k, m), z3.And(z3.ULT(P(k), P(k + 1)), z3.ULE(P(k + 1), n))), (P(k) == n) == (k == m)] if esc else [])
    def content(o, k): return [('printed form of each character, in its place', z3.Implies(z3.ULT(F, k), z3.And(*[z3.Implies(z3.UGT(wF, j), bv(o.at(simp(D + j)), 8) == atF(j)) for j in range(12 if esc else 6)]))), ('opening quote', bv(o.at(V64(0)), 8) == 34)]
    def inv(E, s2, k, e): o = osget(E, s2, os); s2.ghost['k'] = b64(k); return [('length so far', b64(o.len) == L(b64(k))), ('within the text', z3.ULE(b64(k), m))] + content(o, b64(k))
    def phis(E, s2, k, e, init, cur, steps): return [b64(p.o) == (P(b64(k)) if esc else b64(k)) for x, p in cur.items() if isinstance(p, Ptr) and x not in steps]
    E.loopspecs = [LoopSpec(inv, lambda E, s2, k, e: defs(b64(k)), 'print loop', r'json_string::print\(std', phis, cells=True)]
    def dec(E, s2, a, ins):
        p = E.loadw(s2, a[0], 8); k = s2.ghost['k']; E.prove(s2, z3.And(b64(p.o) == P(k), z3.ULT(k, m), b64(a[1].o) == n), 'decoding continues at the next character, within the text', 'pre'); E.storew(s2, a[0], Ptr(p.r, P(simp(k + 1))), 8); return U(k)
    if esc: E.local_models += [(r'.*chars_to_uchar<char const\*>\(', dec)]
    for f in defs(V64(0)): E.assume(st, f)
    def post(E, s2, o):
        if not expect_ret(E, s2, o): return
        r = osget(E, s2, os); E.prove(s2, b64(r.len) == L(m) + 1, 'length of the printed string'); E.prove(s2, bv(r.at(simp(L(m))), 8) == 34, 'closing quote')
        for nm, f in content(r, m): E.prove(s2, f, nm)
    for f in defs(m): E.assume(st, f)
    run(E, st, E.func(r'^vp_print\('), [os, s, 1 if esc else 0], post)


# ---------------------------------------------------------------- parser over a stream of code points
class Src:
    def __init__(self, E, st):
        self.E = E; self.N = E.fresh('N'); self.CP = Fn('CP', 32); self.this = E.alloc(st, 64, 'parser'); E.assume(st, z3.ULT(self.N, LIM))
        self.pos = E.alloc(st, 8, 'stream position'); sb = E.alloc(st, 64, 'streambuf')
        for o in (0, 16): E.storew(st, Ptr(self.this.r, o), sb, 8); E.storew(st, Ptr(self.this.r, o + 8), E.fresh('it', 32), 4)
        for r in self.this, : E.storew(st, Ptr(r.r, 32), E.fresh('lineno', 32), 4); E.storew(st, Ptr(r.r, 36), E.fresh('charno', 32), 4)
        self.cb = self.off(st, 'cbuf'); self.bl = self.off(st, 'buflen'); self.buf = self.off(st, 'buf')
        def more(E, s, a, ins): return z3.ULT(self.at(s), self.N)
        def done(E, s, a, ins): return z3.UGE(self.at(s), self.N)
        def take(E, s, a, ins):
            p = self.at(s); E.prove(s, z3.ULT(p, self.N), 'only text that is there is decoded', 'pre'); c = self.CP(p); E.assume(s, z3.And(z3.ULE(c, 0x10FFFF), z3.Or(z3.ULT(c, 0xD800), z3.UGE(c, 0xE000)))); E.storew(s, self.pos, simp(p + 1), 8); return c
        def err(E, s, a, ins): return Throw(Exc('parse_error'))
        E.local_models += [(r'.*std::operator!=<.*istreambuf_iterator', more), (r'.*std::operator==<.*istreambuf_iterator', done), (r'.*chars_to_uchar<std::istreambuf_iterator', take), (r'pfi::text::json::json_parser::error\(', err), (r'.*end_of_data::end_of_data', lambda E, s, a, ins: Throw(Exc('end_of_data'))), (r'snprintf$', lambda E, s, a, ins: (E.storew(s, a[0], 0, 1), 0)[1]),
                           (r'.*uchar_to_string', lambda E, s, a, ins: newstr(E, s, a[0], Seq(ArrN(E.fresharr('u')), 1, 1, 'str', next(E.cnt))))] + ctype_models()
    def off(self, st, nm):
        out = []; E = self.E; sub(E, st, E.func('^vp_%s\\(' % nm), [self.this], lambda E, s, o: out.append(o[1]))
        if len(out) != 1 or not isinstance(out[0], Ptr) or out[0].r != self.this.r: raise Unsupported('parser layout')
        return out[0]
    def at(self, s): return b64(self.E.loadw(s, self.pos, 8))
    def cbuf(self, s): return bv(self.E.loadw(s, self.cb, 4), 32)
    def logical(self, s): return simp(z3.If(self.cbuf(s) == -1, self.at(s), self.at(s) - 1))
    def put(self, st, q, cached):
        """logical position q, with or without the lookahead character read"""
        c = z3.And(tob(cached), z3.ULT(q, self.N)); E = self.E
        E.storew(st, self.pos, simp(z3.If(c, q + 1, q)), 8); E.storew(st, self.cb, simp(z3.If(c, self.CP(q), z3.BitVecVal(-1, 32))), 4); E.assume(st, z3.Implies(c, z3.ULE(self.CP(q), 0x10FFFF)))
    def is_at(self, s, q):
        return z3.Or(z3.And(self.cbuf(s) == -1, self.at(s) == q), z3.And(self.cbuf(s) == self.CP(q), z3.ULE(self.CP(q), 0x10FFFF), self.at(s) == q + 1, z3.ULT(q, self.N)))


def c32(x): return z3.BitVecVal(ord(x) if isinstance(x, str) else x, 32)
def space(c): return z3.Or(c == 32, z3.And(z3.UGE(c, 9), z3.ULE(c, 13)))
def digit(c): return z3.And(z3.UGE(c, 48), z3.ULE(c, 57))


def skip(E):
    st = with_globals(E); S = Src(E, st); q = E.fresh('q'); END = E.fresh('end'); E.assume(st, z3.And(z3.ULE(q, END), z3.ULE(END, S.N))); S.put(st, q, E.fresh('cached', 1))
    J = E.fresh('J')
    def defs(x): return [z3.Implies(z3.And(z3.ULE(q, x), z3.ULT(x, END)), space(S.CP(x))), z3.Or(END == S.N, z3.Not(space(S.CP(END))))]
    def inv(E, s, k, e): return [('position', z3.And(S.is_at(s, q + b64(k)), z3.ULE(q + b64(k), END)))]
    E.loopspecs = [LoopSpec(inv, lambda E, s, k, e: defs(q + b64(k)), 'skip loop', r'::ss\(')]
    for f in defs(q): E.assume(st, f)
    def post(E, s, o):
        if not expect_ret(E, s, o): return
        E.prove(s, S.is_at(s, END), 'exactly the white space is skipped'); E.prove(s, (S.cbuf(s) == -1) == (END == S.N), 'the next character is looked at')
    run(E, st, E.func(r'^vp_ss\('), [S.this], post)


def hexv(c): return z3.If(digit(c), c - 48, z3.If(z3.ULE(c, 70), c - 55, c - 87))
def ishex(c): return z3.Or(digit(c), z3.And(z3.UGE(c, 65), z3.ULE(c, 70)), z3.And(z3.UGE(c, 97), z3.ULE(c, 102)))
def hexcontract(S):
    def m(E, s, a, ins):
        cb = S.cbuf(s); cached = cb != -1; p = S.at(s); c = simp(z3.If(cached, cb, S.CP(p)))
        def adv(s2): E.storew(s2, S.pos, simp(z3.If(cached, p, p + 1)), 8); E.storew(s2, S.cb, z3.BitVecVal(-1, 32), 4)
        def ok(E, s2): adv(s2); return simp(hexv(c))
        def bad(E, s2): adv(s2); return Throw(Exc('parse_error'))
        have = z3.Or(cached, z3.ULT(p, S.N)); E.assume(s, z3.Implies(have, z3.ULE(c, 0x10FFFF)))
        return Outcomes([(simp(z3.And(have, ishex(c))), ok), (simp(z3.And(have, z3.Not(ishex(c)))), bad), (simp(z3.Not(have)), lambda E, s2: Throw(Exc('end_of_data')))])
    return [(r'pfi::text::json::json_parser::parse_hex\(', m)]


def hexdigit(E):
    st = with_globals(E); S = Src(E, st); q = E.fresh('q'); E.assume(st, z3.ULE(q, S.N)); S.put(st, q, E.fresh('cached', 1)); c = S.CP(q)
    E.input_terms = [('text', [z3.Extract(7, 0, c)])]
    def post(E, s, o):
        if o[0] == 'ret': E.prove(s, z3.And(z3.ULT(q, S.N), ishex(c), bv(o[1], 32) == hexv(c)), 'value of the hexadecimal digit'); E.prove(s, S.is_at(s, q + 1), 'one character is consumed'); E.prove(s, S.cbuf(s) == -1, 'the next character is not read')
        elif o[1].ti == 'parse_error': E.prove(s, z3.And(z3.ULT(q, S.N), z3.Not(ishex(c))), 'only characters that are no digits are refused')
        else: E.prove(s, z3.And(z3.BoolVal(o[1].ti == 'end_of_data'), q == S.N), 'end of data only at the end')
    run(E, st, E.func(r'json_parser::parse_hex\('), [S.this], post)


def u8w(u): return z3.If(z3.ULT(u, 0x80), V64(1), z3.If(z3.ULT(u, 0x800), V64(2), z3.If(z3.ULT(u, 0x10000), V64(3), V64(4))))
def u8at(u, j):
    low = lambda v: z3.Extract(7, 0, v); t = lambda s: low((z3.LShR(u, s) & 63) | 0x80)
    a = [low(u), B8(0), B8(0), B8(0)]; b = [low(z3.LShR(u, 6) | 0xC0), t(0), B8(0), B8(0)]; c = [low(z3.LShR(u, 12) | 0xE0), t(6), t(0), B8(0)]; d = [low(z3.LShR(u, 18) | 0xF0), t(12), t(6), t(0)]
    return z3.If(z3.ULT(u, 0x80), a[j], z3.If(z3.ULT(u, 0x800), b[j], z3.If(z3.ULT(u, 0x10000), c[j], d[j])))


def strings(E, exact, kind=None):
    if exact: E.ft = 300; E.S.set('timeout', 300)
    st = with_globals(E); S = Src(E, st); q = E.fresh('q'); S.put(st, q, E.fresh('cached', 1)); bl0 = E.fresh('buflen', 32); E.assume(st, z3.And(z3.UGE(bl0, 16), z3.ULT(bl0, 1 << 29), z3.ULE(q, S.N)))
    bp = Ptr(E.seqregion(st, Seq(ArrN(E.fresharr('buf')), z3.ZeroExt(32, bl0), 1, 'buf', next(E.cnt)), 'buffer'), 0); E.storew(st, S.buf, bp, 8); E.storew(st, S.bl, bl0, 4); ln = E.alloc(st, 4, 'length')
    def realloc(E, s, a, ins):
        if not isinstance(a[0], Ptr) or a[0].r != bp.r: raise Unsupported('realloc of another block')
        old = s.mem[bp.r].seq; nl = b64(a[1]) if not isint(a[1]) else V64(a[1]); E.prove(s, z3.And(z3.UGE(nl, b64(old.len)), z3.ULT(nl, 1 << 31)), 'the buffer only grows', 'memory')
        r = s.mem[bp.r].copy(); r.seq = Seq(CatN(old.n, old.len, ArrN(E.fresharr('grown'))), simp(nl), 1, 'buf', next(E.cnt)); s.mem[bp.r] = r; return bp
    E.local_models += [('realloc$', realloc)] + hexcontract(S)
    data = lambda s: s.mem[bp.r].seq
    TP = Fn('TP'); VAL = Fn('VAL', 32); OUT = Fn('OUT'); m = E.fresh('m'); CP = S.CP
    E.input_terms = [('text', [z3.Extract(7, 0, CP(q + i)) for i in range(24)])]
    if exact:
        F = E.fresh('F'); D = E.fresh('D'); VF = E.fresh('VF', 32); E.assume(st, z3.And(z3.ULT(F, m), D == OUT(F), VF == VAL(F), z3.ULT(D, 1 << 33), CP(q) == 34, TP(V64(0)) == q + 1, OUT(V64(0)) == 0, z3.ULT(q, S.N), z3.ULT(m, LIM)))
        hx = hexv
        def u4(p): return z3.And(CP(p) == 92, CP(p + 1) == 117, *[ishex(CP(p + i)) for i in range(2, 6)]), (hx(CP(p + 2)) << 12) | (hx(CP(p + 3)) << 8) | (hx(CP(p + 4)) << 4) | hx(CP(p + 5))
        def tok(k, kind):         # token k of a well-formed string: raw character, short escape, \uXXXX, surrogate pair
            p = TP(k); w = TP(k + 1) - p; v = VAL(k); fx, x = u4(p); fy, y = u4(p + 6); sur = lambda a: z3.And(z3.UGE(a, 0xD800), z3.ULE(a, 0xDFFF))
            alt = [z3.And(w == 1, v == CP(p), z3.UGE(v, 32), v != 34, v != 92), z3.And(w == 2, CP(p) == 92, z3.Or([z3.And(CP(p + 1) == ord(y_), v == x_) for x_, y_ in ESC])), z3.And(w == 6, fx, z3.Not(sur(x)), v == x),
                   z3.And(w == 12, fx, fy, z3.UGE(x, 0xD800), z3.ULE(x, 0xDBFF), z3.UGE(y, 0xDC00), z3.ULE(y, 0xDFFF), v == 0x10000 + ((x - 0xD800) << 10) + (y - 0xDC00))]
            return z3.Or(alt) if kind is None else alt[kind]
        def defs(k, kind=None): return [z3.Implies(z3.ULT(k, m), z3.And(tok(k, kind), z3.ULE(VAL(k), 0x10FFFF), z3.ULE(TP(k + 1), TP(m)), z3.ULT(TP(k), TP(k + 1)))), z3.ULE(TP(k), TP(m)), z3.ULT(TP(m), S.N), CP(TP(m)) == 34, z3.Implies(z3.And(z3.ULT(k, m)), z3.ULT(TP(k), TP(m))), (TP(k) == TP(m)) == (k == m), OUT(k + 1) == OUT(k) + u8w(VAL(k)), z3.ULE(OUT(k), 4 * k), z3.ULE(k, LIM), z3.Implies(z3.ULT(F, k), z3.ULE(D + u8w(VF), OUT(k))), z3.Implies(F == k, z3.And(D == OUT(k), VF == VAL(k)))]
        def content(s, k):
            g = lambda c: z3.And(c, *[z3.Implies(z3.UGT(u8w(VF), j), bv(data(s).at(simp(D + j)), 8) == u8at(VF, j)) for j in range(4)])
            return [('last character decoded', z3.Implies(z3.And(z3.ULT(F, k), F + 1 == k), g(z3.BoolVal(True)))), ('earlier characters kept', z3.Implies(z3.And(z3.ULT(F, k), F + 1 != k), g(z3.BoolVal(True))))]
        for f in defs(V64(0)) + defs(m): E.assume(st, f)
    else: defs = lambda k, kind=None: []; content = lambda s, k: []
    bl = lambda s: z3.ZeroExt(32, bv(E.loadw(s, S.bl, 4), 32))
    def inv(E, s, k, e):
        p = E.loadw(s, S.buf, 8)
        if not isinstance(p, Ptr) or p.r != bp.r: raise Unsupported('buffer pointer')
        s.ghost['k'] = b64(k)
        r = [('the buffer is the one owned', z3.And(b64(p.o) == 0, bl(s) == b64(data(s).len), z3.UGE(bl(s), 16), z3.ULT(bl(s), 1 << 30))), ('within the text', z3.And(S.is_at(s, TP(b64(k))), z3.ULE(b64(k), m)) if exact else z3.And(z3.ULE(S.at(s), S.N), z3.Or(S.cbuf(s) == -1, z3.ULE(S.cbuf(s), 0x10FFFF))))]
        return r + content(s, b64(k))
    def phis(E, s, k, e, init, cur, steps): return [z3.And(z3.ULT(b64(p.o), bl(s)), z3.ULT(b64(p.o) + 4, bl(s)), (b64(p.o) == OUT(b64(k))) if exact else z3.BoolVal(True)) for x, p in cur.items() if isinstance(p, Ptr) and p.r == bp.r and x[:2] != ('cell', S.this.r)]
    def isprim(E, s, fr, label): return re.search('parse_string_prim', fr.f.dem) is not None and outermost(E, s, fr, label)
    E.loopspecs = [LoopSpec(inv, lambda E, s, k, e: (S.put(s, TP(b64(k)), E.fresh('cached', 1)) if exact else None, defs(b64(k), kind))[1] + ([] if exact else [z3.ULT(bl(s), 1 << 29)]), 'character loop', isprim, phis, cells=True)]
    def post(E, s, o):
        if exact:
            if not expect_ret(E, s, o, 'a well-formed string is accepted'): return
            n = z3.ZeroExt(32, bv(E.loadw(s, ln, 4), 32)); k = s.ghost['k']; E.prove(s, k == m, 'every character is read'); E.prove(s, n == OUT(m), 'length of the decoded string'); E.prove(s, S.is_at(s, TP(m) + 1), 'exactly the string is consumed')
            for nm, f in content(s, m): E.prove(s, f, nm)
        elif o[0] == 'ret':
            n = z3.ZeroExt(32, bv(E.loadw(s, ln, 4), 32)); E.prove(s, z3.ULE(n, bl(s)), 'the decoded string lies in the buffer'); E.prove(s, z3.ULE(S.at(s), S.N), 'parsing stops within the text')
        else: E.prove(s, z3.BoolVal(o[1].ti in ('parse_error', 'end_of_data') or 'bad_alloc' in str(o[1].ti)), 'malformed strings are reported as an error')
    run(E, st, E.func(r'^vp_prim\('), [S.this, S.buf, S.bl, ln], post)


# ---------------------------------------------------------------- values, arrays, objects: callees by contract
def skcontract(S, SK):
    def m(E, s, a, ins): q = S.logical(s); e = SK(q); E.assume(s, z3.And(z3.ULE(q, e), SK(e) == e, z3.ULE(e, S.N), z3.Or(e == S.N, z3.And(z3.Not(space(S.CP(e))), z3.ULE(S.CP(e), 0x10FFFF))))); S.put(s, e, z3.BoolVal(True))
    return [(r'pfi::text::json::json_parser::ss\(', m)]
def events(E, st, names):
    """observed callbacks: counters in memory"""
    r = {n: E.alloc(st, 8, 'events ' + n) for n in names}
    for p in r.values(): E.storew(st, p, 0, 8)
    return r, lambda s, n: b64(E.loadw(s, r[n], 8)), lambda s, n: E.storew(s, r[n], simp(b64(E.loadw(s, r[n], 8)) + 1), 8)


def items(E, obj):
    st = with_globals(E); S = Src(E, st); SK = Fn('SK'); EL = Fn('EL'); KE = Fn('KE'); KL = Fn('KL', 32); OK = z3.Function('OK', W64, z3.BoolSort()); KOK = z3.Function('KOK', W64, z3.BoolSort()); A = Fn('A'); CP = S.CP
    q = E.fresh('q'); E.assume(st, z3.ULE(q, S.N)); S.put(st, q, E.fresh('cached', 1)); ev, cnt, inc = events(E, st, ['start', 'key', 'value', 'end']); F = E.fresh('F'); OPEN, CLOSE = (123, 125) if obj else (91, 93)
    bp = E.alloc(st, 64, 'buffer'); E.storew(st, S.buf, bp, 8); E.storew(st, S.bl, 64, 4)
    SKb = lambda e: z3.And(z3.ULE(e, SK(e)), z3.ULE(SK(e), S.N)); start = lambda k: z3.If(k == 0, A(k), SK(A(k)) + 1)                 # where element k begins
    kpos = lambda k: SK(start(k)); colon = lambda k: SK(KE(kpos(k))); vpos = lambda k: (colon(k) + 1) if obj else start(k)
    def good(k): return z3.And(*([z3.ULT(SK(A(k)), S.N), CP(SK(A(k))) != CLOSE, z3.Or(k == 0, CP(SK(A(k))) == 44)] + ([KOK(kpos(k)), z3.ULT(colon(k), S.N), CP(colon(k)) == 58] if obj else []) + [OK(vpos(k))]))
    def defs(k): return [A(V64(0)) == SK(q) + 1, A(k + 1) == EL(vpos(k)), SKb(A(k)), SK(SK(A(k))) == SK(A(k)), OK(A(k)) == OK(SK(A(k))), EL(A(k)) == EL(SK(A(k))), SKb(start(k)), SKb(KE(kpos(k)))]
    def impl(E, s, a, ins):
        p = S.logical(s); E.prove(s, z3.And(cnt(s, 'start') == 1, cnt(s, 'end') == 0), 'values lie between start and end', 'pre')
        if obj: E.prove(s, cnt(s, 'key') == cnt(s, 'value') + 1, 'each value follows its key', 'pre')
        E.assume(s, z3.And(OK(p) == OK(SK(p)), EL(p) == EL(SK(p))))
        def ok(E, s2): E.assume(s2, z3.And(z3.ULT(p, EL(p)), z3.ULE(EL(p), S.N))); S.put(s2, EL(p), E.fresh('cached', 1)); inc(s2, 'value')
        return Outcomes([(OK(p), ok), (z3.Not(OK(p)), lambda E, s2: Throw(Exc('element')))])
    def prim(E, s, a, ins):
        p = S.logical(s)
        def ok(E, s2): E.assume(s2, z3.And(z3.ULT(p, KE(p)), z3.ULE(KE(p), S.N))); S.put(s2, KE(p), E.fresh('cached', 1)); E.storew(s2, a[3], KL(p), 4); s2.ghost['key'] = p
        return Outcomes([(KOK(p), ok), (z3.Not(KOK(p)), lambda E, s2: Throw(Exc('element')))])
    def key(E, s, a, ins):
        E.prove(s, z3.BoolVal(isinstance(a[0], Ptr) and a[0].r == bp.r), 'the key reported is the decoded string', 'pre'); E.prove(s, z3.And(b64(a[1]) == z3.SignExt(32, KL(s.ghost['key'])), cnt(s, 'key') == cnt(s, 'value'), cnt(s, 'start') == 1), 'key length and order', 'pre'); inc(s, 'key')
    def once(n): return lambda E, s, a, ins: (E.prove(s, z3.And(cnt(s, n) == 0, z3.BoolVal(bv(a[0], 32).eq(z3.BitVecVal(obj, 32)) if not isint(a[0]) else a[0] == obj)), '%s reported once' % n, 'pre'), inc(s, n))[1]
    never = lambda E, s, a, ins: E.prove(s, z3.BoolVal(False), 'no other event', 'pre')
    E.local_models += skcontract(S, SK) + [(r'pfi::text::json::json_parser::parse_impl\(', impl), (r'pfi::text::json::json_parser::parse_string_prim\(', prim), (r'ev_start', once('start')), (r'ev_end', once('end')), (r'ev_key', key), (r'ev_', never)]
    def done(k): return z3.Implies(z3.ULT(F, k), good(F))
    def inv(E, s, k, e): s.ghost['k'] = b64(k); return [('position and count', z3.And(S.is_at(s, A(b64(k))), z3.ULE(A(b64(k)), S.N), cnt(s, 'value') == b64(k), cnt(s, 'key') == (b64(k) if obj else 0), cnt(s, 'start') == 1, cnt(s, 'end') == 0)), ('every item so far is well formed', done(b64(k)))]
    E.loopspecs = [LoopSpec(inv, lambda E, s, k, e: (S.put(s, A(b64(k)), E.fresh('cached', 1)), defs(b64(k)) + [z3.ULT(b64(k), 1 << 30)])[1], 'item loop', r'parse_(array|object)')]
    for f in defs(V64(0)) + [SKb(q)]: E.assume(st, f)
    def post(E, s, o):
        k = s.ghost.get('k')
        if o[0] == 'ret':
            E.prove(s, z3.And(CP(SK(q)) == OPEN, z3.ULT(SK(A(k)), S.N), CP(SK(A(k))) == CLOSE), 'accepted text is bracketed'); E.prove(s, done(k), 'accepted text has well-formed items'); E.prove(s, S.is_at(s, SK(A(k)) + 1), 'exactly the text is consumed')
            E.prove(s, z3.And(cnt(s, 'value') == k, cnt(s, 'end') == 1, cnt(s, 'start') == 1), 'one event for each item')
        elif k is None: E.prove(s, z3.Or(SK(q) == S.N, CP(SK(q)) != OPEN), 'text that opens properly is not refused')
        else: E.prove(s, z3.Or(SK(A(k)) == S.N, z3.And(CP(SK(A(k))) != CLOSE, z3.Not(good(k)))), 'only malformed text is refused')
    run(E, st, E.func('^vp_object2' if obj else '^vp_array2'), [S.this], post)


def dispatch(E):
    st = with_globals(E); S = Src(E, st); SK = Fn('SK'); q = E.fresh('q'); E.assume(st, z3.ULE(q, S.N)); S.put(st, q, E.fresh('cached', 1)); E.assume(st, z3.And(z3.ULE(q, SK(q)), z3.ULE(SK(q), S.N))); c = S.CP(SK(q)); called = []
    E.input_terms = [('text', [z3.Extract(7, 0, c)])]
    want = dict(object=[123], array=[91], number=list(range(48, 58)) + [45], string=[34], false=[102], null=[110], true=[116])
    def mk(n):
        def m(E, s, a, ins): E.prove(s, z3.And(z3.BoolVal('d' not in s.ghost), S.is_at(s, SK(q)), z3.ULT(SK(q), S.N), z3.Or([c == x for x in want[n]])), 'a value beginning like this is read as %s' % n, 'pre'); s.ghost['d'] = n
        return (r'pfi::text::json::json_parser::parse_%s\(' % n, m)
    E.local_models += skcontract(S, SK) + [mk(n) for n in want]
    def post(E, s, o):
        if o[0] == 'ret': E.prove(s, z3.BoolVal('d' in s.ghost), 'a value is read')
        else: E.prove(s, z3.And(z3.BoolVal('d' not in s.ghost), z3.Or(SK(q) == S.N, z3.Not(z3.Or([c == x for v in want.values() for x in v])))), 'no value begins like this')
    run(E, st, E.func('^vp_impl2'), [S.this], post)


def literal(E, word, evn, arg):
    st = with_globals(E); S = Src(E, st); q = E.fresh('q'); E.assume(st, z3.ULE(q, S.N)); S.put(st, q, E.fresh('cached', 1)); n = len(word); ok = z3.And(z3.ULE(q + n, S.N), *[S.CP(q + i) == ord(x) for i, x in enumerate(word)])
    E.input_terms = [('text', [z3.Extract(7, 0, S.CP(q + i)) for i in range(n)])]; ev, cnt, inc = events(E, st, ['e'])
    def m(E, s, a, ins):
        if arg is not None: E.prove(s, bv(a[0], 8) == arg if not z3.is_bool(a[0]) else tob(a[0]) == bool(arg), 'value reported', 'pre')
        inc(s, 'e')
    E.local_models += [(evn + r'\(', m), ('ev_', lambda E, s, a, ins: E.prove(s, z3.BoolVal(False), 'no other event', 'pre'))]
    def post(E, s, o):
        if o[0] == 'ret': E.prove(s, ok, 'only the word itself is accepted'); E.prove(s, z3.And(cnt(s, 'e') == 1, S.is_at(s, q + n)), 'one event, exactly the word consumed')
        else: E.prove(s, z3.Not(ok), 'the word is not refused')
    run(E, st, E.func('^vp_%s2' % word), [S.this], post)


def digits(E):
    st = with_globals(E); S = Src(E, st); q = E.fresh('q'); END = E.fresh('end'); J = E.fresh('J'); E.assume(st, z3.And(z3.ULE(q, END), z3.ULE(END, S.N))); S.put(st, q, E.fresh('cached', 1)); d, v0 = E.sym_str(st, 'dst', LIM); n0 = b64(v0.len)
    E.input_terms = [('text', [z3.Extract(7, 0, S.CP(q + i)) for i in range(8)])]
    def defs(x): return [z3.Implies(z3.And(z3.ULE(q, x), z3.ULT(x, END)), digit(S.CP(x))), z3.Or(END == S.N, z3.Not(digit(S.CP(END))))]
    def content(s, k): v = sget(E, s, d); return [('length', b64(v.len) == n0 + k), ('text before kept', z3.Implies(z3.ULT(J, n0), bv(v.at(J), 8) == bv(v0.at(J), 8))), ('digits appended', z3.Implies(z3.ULT(J, k), bv(v.at(simp(n0 + J)), 8) == z3.Extract(7, 0, S.CP(q + J))))]
    def inv(E, s, k, e): return [('position', z3.And(S.is_at(s, q + b64(k)), z3.ULE(q + b64(k), END)))] + content(s, b64(k))
    E.loopspecs = [LoopSpec(inv, lambda E, s, k, e: defs(q + b64(k)), 'digit loop', r'parse_digits')]
    for f in defs(q): E.assume(st, f)
    def post(E, s, o):
        if o[0] == 'ret':
            E.prove(s, z3.And(S.is_at(s, END), q != END), 'one digit at least; exactly the digits are consumed'); E.prove(s, (S.cbuf(s) == -1) == (END == S.N), 'the next character is looked at')
            for nm, f in content(s, END - q): E.prove(s, f, nm)
        else: E.prove(s, q == END, 'digits are not refused')
    run(E, st, E.func('^vp_digits'), [S.this, d], post)


def number(E, shape):
    st = with_globals(E); S = Src(E, st); q = E.fresh('q'); DG = Fn('DG'); CP = S.CP; J = E.fresh('J'); E.assume(st, z3.And(z3.ULE(q, S.N), z3.ULT(S.N, 1 << 20))); S.put(st, q, E.fresh('cached', 1)); ev, cnt, inc = events(E, st, ['e']); R = E.fresh('value'); eno = E.alloc(st, 4, 'errno'); E.storew(st, eno, E.fresh('errno', 32), 4); RG = E.fresh('range', 1); RF = z3.FP('RF', z3.Float64()); E.ft = 500; E.S.set('timeout', 500)
    E.input_terms = [('text', [z3.Extract(7, 0, CP(q + i)) for i in range(12)])]
    at = lambda p, *cs: z3.And(z3.ULT(p, S.N), z3.Or([CP(p) == ord(c) for c in cs])); dg = lambda p: DG(p) != p
    I = z3.If(at(q, '-'), q + 1, q); D1 = DG(I); frac = at(D1, '.'); D2 = z3.If(frac, DG(D1 + 1), D1); ex = at(D2, 'e', 'E'); G = z3.If(at(D2 + 1, '+', '-'), D2 + 2, D2 + 1); END = z3.If(ex, DG(G), D2)
    wf = z3.And(dg(I), z3.Or(z3.Not(frac), dg(D1 + 1)), z3.Or(z3.Not(ex), dg(G)))
    for p in (I, D1 + 1, G): E.assume(st, z3.Implies(z3.ULE(p, S.N), z3.And(z3.ULE(p, DG(p)), z3.ULE(DG(p), S.N), dg(p) == z3.And(z3.ULT(p, S.N), digit(CP(p))), z3.Or(DG(p) == S.N, z3.Not(digit(CP(DG(p))))))))
    E.assume(st, z3.And(frac == bool(shape & 1), ex == bool(shape & 2)))
    def pd(E, s, a, ins):
        p = S.logical(s); e = DG(p)
        def ok(E, s2): E.assume(s2, z3.And(z3.ULT(p, e), z3.ULE(e, S.N))); v = sget(E, s2, a[1]); sset(E, s2, a[1], v.cat(Seq(FunN(lambda i: z3.Extract(7, 0, CP(simp(p + b64(i))))), simp(e - p), 1, 'str', next(E.cnt)))); S.put(s2, e, z3.BoolVal(True))
        return Outcomes([(dg(p), ok), (z3.Not(dg(p)), lambda E, s2: Throw(Exc('parse_error')))])
    def conv(fl):
        def m(E, s, a, ins):
            E.prove(s, z3.And(z3.BoolVal('c' not in s.ghost), z3.Or(frac, ex) if fl else z3.Not(z3.Or(frac, ex))), 'numbers with a fraction or an exponent, and only those, are floating-point', 'pre'); s.ghost['c'] = fl
            v = E.view(s, a[0]); E.prove(s, z3.And(b64(a[0].o) == 0, b64(v.len) == END - q), 'the text converted is as long as the number', 'pre'); E.prove(s, z3.Implies(z3.ULT(J, END - q), bv(v.at(J), 8) == z3.Extract(7, 0, CP(q + J))), 'the text converted is the number', 'pre')
            if not fl: E.prove(s, bv(a[2], 32) == 10, 'decimal', 'pre')
            E.storew(s, eno, simp(z3.If(tob(RG), z3.BitVecVal(34, 32), bv(E.loadw(s, eno, 4), 32))), 4); return RF if fl else R
        return m
    def evm(fl):
        def m(E, s, a, ins): E.prove(s, z3.And(z3.BoolVal(s.ghost.get('c') == fl), z3.Not(tob(RG)), z3.BoolVal(z3.is_fp(a[0]) and a[0].eq(RF)) if fl else b64(a[0]) == R), 'the converted value is reported', 'pre'); inc(s, 'e')
        return m
    E.local_models += [(r'pfi::text::json::json_parser::parse_digits\(', pd), ('__errno_location', lambda E, s, a, ins: eno), (r'(__isoc23_)?strtoll$', conv(0)), (r'strtod$', conv(1)), (r'ev_int', evm(0)), (r'ev_num', evm(1)), ('ev_', lambda E, s, a, ins: E.prove(s, z3.BoolVal(False), 'no other event', 'pre'))]
    def post(E, s, o):
        if o[0] == 'ret': E.prove(s, z3.And(wf, S.is_at(s, END), cnt(s, 'e') == 1), 'only numbers are accepted; exactly the number is consumed')
        else: E.prove(s, z3.Or(z3.Not(wf), tob(RG)), 'numbers in range are not refused')
    run(E, st, E.func('^vp_number2'), [S.this], post)


PROOFS = [dict(name='print string, not escaped', src=SRC, fn=lambda E: printing(E, 0), functions=['json_string::print', 'print_char_without_escape', 'tohex']), dict(name='print string, escaped', src=SRC, fn=lambda E: printing(E, 1), functions=['json_string::print', 'print_char', 'tohex']),
          dict(name='hexadecimal digit', src=SRC, fn=hexdigit, functions=['parse_hex', 'incr', 'peek']), dict(name='white space', src=SRC, fn=skip, functions=['json_parser::ss', 'peek', 'incr', 'more']), dict(name='value dispatch', src=SRC, fn=dispatch, functions=['parse_impl']), dict(name='array', src=SRC, fn=lambda E: items(E, 0), functions=['parse_array', 'speek', 'smatch']), dict(name='object', src=SRC, fn=lambda E: items(E, 1), functions=['parse_object', 'speek', 'smatch'])] + [
          dict(name='word ' + w, src=SRC, fn=lambda E, x=(w, e, v): literal(E, *x), functions=['parse_' + w, 'match']) for w, e, v in (('null', 'ev_null', None), ('true', 'ev_bool', 1), ('false', 'ev_bool', 0))] + [
          dict(name='digits', src=SRC, fn=digits, functions=['parse_digits']), ] + [dict(name='number, ' + nm, src=SRC, fn=lambda E, i=i: number(E, i), functions=['parse_number']) for i, nm in enumerate(['integer', 'with a fraction', 'with an exponent', 'with a fraction and an exponent'])] + [
          dict(name='any string text: memory safety', src=SRC, fn=lambda E: strings(E, 0), functions=['parse_string_prim', 'parse_hex', 'match', 'uchar_to_chars']),
          ] + [dict(name='well-formed string text: ' + nm, src=SRC, fn=lambda E, i=i: strings(E, 1, i), functions=['parse_string_prim', 'parse_hex', 'match', 'uchar_to_chars']) for i, nm in enumerate(['plain characters', 'short escapes', 'u escapes', 'surrogate pairs'])]
PROOFS.sort(key=lambda p: -max([i for i, w in enumerate(('exponent', 'plain', 'short', 'u escapes', 'and an exponent', 'surrogate')) if w in p['name']] or [-1]))      # longest first
HARNESS = [dict(src='c14.cpp', repo=['text/json/parser.cpp', 'data/string/ustring.cpp'], budget=3, bound='random values to depth 4 with strings of arbitrary code points to 1400 characters (around the buffer sizes), all one-character strings and escapes, about 80 fixed and random malformed texts, several documents per stream', asan=True)]
