"""HTTP bodies: counted and chunked stream buffers against a ghost of the framing on the wire; header names compared without case."""
from streams import *
SRC = ['network/http/base.cpp']
ASSUMPTIONS = ['stream_socket::getc/read/getline by contract (proved for C11): the next byte as an unsigned character value or EOF, as many bytes as asked for unless the stream ends, one line', 'std::istringstream and its extraction of a hexadecimal int by contract (any int; the grammar of the size line is the library\'s)',
               'std::shared_ptr as a pointer value (operator bool, ->, reset); reference counting is trusted', 'size and trailer lines are shorter than the line limit of 4096 bytes', 'the contract covers a stream up to the first exception (the iostream layer sets badbit then)',
               'the iostream layer (std::istream over a streambuf) by its library contract; header parsing and message serialisation by the bounded stand-in; std::vector<pair> by its library contract', CT_ASSUME]
SS = r'pfi::network::stream_socket::'
SP = r'std::(__shared_ptr|__shared_ptr_access|shared_ptr|__shared_count)<.*>::'
EOFV = z3.BitVecVal(0xffffffff, 32)
CH = r'basic_httpbody_chunked_streambuf<char, .*>::'
CN = r'basic_httpbody_streambuf<char, .*>::'


class W:
    """an object with a socket pointer, and the ghost of the wire: bp body bytes taken off the wire, d delivered, phase of the framing"""
    SIZE, DATA, FOOT, FOOTLF, TRAIL, END, BAD, SIZELINE, CUT = range(9)
    def __init__(w, E, size, names):
        w.E = E; w.st = st = with_globals(E); w.B = E.fresharr('body'); w.g = E.alloc(st, 64, 'ghost'); w.sock = E.alloc(st, 80, 'socket'); w.this = E.alloc(st, size, 'streambuf')
        vt = E.alloc(st, 256, 'vtable')
        # virtual calls of the class resolve to its own functions
        w.slots(E, st, vt, names); E.storew(st, w.f(0), Ptr(vt.r, 16), 8)
        E.local_models += [('.*' + SP + r'operator bool\(\) const', lambda E, s, a, ins: w.nonnull(s, a[0])), ('.*' + SP + r'operator->\(\) const', w.deref), ('.*' + SP + r'operator\*\(\) const', w.deref), ('.*' + SP + r'get\(\) const', lambda E, s, a, ins: E.loadw(s, a[0], 8)),
                           ('(void )?' + SP + r'reset\(\)', lambda E, s, a, ins: E.storew(s, a[0], Ptr(0, 0), 8)), (r'.*std::operator==<.*>\(std::shared_ptr', lambda E, s, a, ins: z3.Not(w.nonnull(s, a[0])))]
        E.local_models += [(r'.*http_exception::http_exception\(', nop), (r'.*http_exception::~http_exception\(', nop)]
        E.local_models += [(SS + r'getc\(\)', w.getc), (SS + r'read\(', w.read), (SS + r'getline\(', w.getline)]
        w.trunc = E.fresh('t', 1)
    def slots(w, E, st, vt, names):
        for k, off in names.items():
            f = E.func(k); E.storew(st, Ptr(vt.r, 16 + off), Ptr(('F', f.name), 0), 8)
    def f(w, o): return Ptr(w.this.r, o)
    def nonnull(w, s, p): v = w.E.loadw(s, p, 8); return z3.BoolVal(isinstance(v, Ptr) and v.r == w.sock.r)
    def deref(w, E, s, a, ins):
        v = E.loadw(s, a[0], 8); E.prove(s, w.nonnull(s, a[0]), 'the socket is used only while it is held', 'memory')
        return w.sock
    def gh(w, s, i): return w.E.loadw(s, Ptr(w.g.r, 8 * i), 8)
    def sgh(w, s, i, v): w.E.storew(s, Ptr(w.g.r, 8 * i), simp(v), 8)
    bp = lambda w, s: b64(w.gh(s, 0)); rest = lambda w, s: b64(w.gh(s, 1)); phase = lambda w, s: w.gh(s, 2)
    def body(w, i): return z3.Select(w.B, i)
    def step(w, s, ok, what): w.E.prove(s, z3.BoolVal(ok), 'the wire is read in step with the framing: ' + what, 'pre')


class Counted(W):
    def __init__(w, E):
        W.__init__(w, E, 96, {'^' + '.*' + CN + r'underflow\(\)': 72, '^' + '.*' + CN + r'uflow\(\)': 80}); st = w.st
        w.L = E.fresh('length'); w.d0 = E.fresh('delivered'); w.buf0 = E.fresh('buffered', 32); w.rest0 = E.fresh('rest'); w.cut0 = E.fresh('cut', 1); held = E.fresh('held', 1); w.held = held
        E.assume(st, z3.And(z3.ULE(w.d0, 1 << 62), w.L < (1 << 62), w.L > -(1 << 62)))
        E.storew(st, w.f(80), w.rest0, 8); E.storew(st, w.f(88), w.buf0, 4); w.sgh(st, 3, z3.If(w.cut0, V64(1), V64(0))); w.sgh(st, 0, simp(w.d0 + z3.If(w.buf0 == EOFV, V64(0), V64(1))))
        E.input_terms = [('length', w.L), ('delivered', w.d0), ('buffered', w.buf0)]
    def cut(w, s): return b64(w.gh(s, 3)) != 0
    def inv(w, s, d):
        """what is known between calls after d delivered bytes"""
        buf = bv(w.E.loadw(s, w.f(88), 4), 32); rest = b64(w.E.loadw(s, w.f(80), 8)); k = w.bp(s); h = w.nonnull(s, w.f(64))
        return [('the buffered byte is the next body byte', z3.If(buf == EOFV, k == d, z3.And(k == d + 1, buf == z3.ZeroExt(24, w.body(d))))), ('never more bytes taken than the length', z3.Or(k == 0, k <= w.L)),
                ('bytes left', z3.And(z3.Implies(z3.Not(w.cut(s)), z3.And(rest == w.L - k)), z3.Implies(w.cut(s), rest < w.L - k + 1), rest <= w.L, rest > -(1 << 63) + 4)), ('the socket is held while bytes are left', z3.Implies(z3.Not(h), rest <= 0))]
    def getc(w, E, s, a, ins):
        k = w.bp(s)
        E.prove(s, k < w.L, 'no byte beyond the length is taken from the connection', 'pre'); ok = E.fresh('got', 1)
        def yes(E, s): w.sgh(s, 0, k + 1); return simp(z3.ZeroExt(24, w.body(k)))
        def no(E, s): w.sgh(s, 3, V64(1)); return 0xffffffff
        return Outcomes([(z3.And(ok, z3.Not(w.cut(s))), yes), (z3.Not(z3.And(ok, z3.Not(w.cut(s)))), no)])
    def read(w, E, s, a, ins): raise Unsupported('block read')
    getline = read


def counted(E, fn):
    w0 = Counted(E); st0 = w0.st
    for held in (0, 1):
        st = st0.copy(); w = w0; E.storew(st, w.f(64), Ptr(w.sock.r, 0) if held else Ptr(0, 0), 8); E.storew(st, w.f(72), Ptr(0, 0), 8)
        E.S.push()
        for nm, fm in w.inv(st, w.d0): E.assume(st, tob(fm))
        def post(E, s, o):
            if not expect_ret(E, s, o): return
            r = bv(o[1], 32); d = w.d0 if fn == 'underflow' else simp(w.d0 + z3.If(r == EOFV, V64(0), V64(1)))
            E.prove(s, z3.Or(r == EOFV, z3.And(w.d0 < w.L, r == z3.ZeroExt(24, w.body(w.d0)))), 'the next body byte, or end of file')
            E.prove(s, z3.Implies(r == EOFV, z3.Or(w.d0 >= w.L, w.cut(s))), 'end of file only after the whole body, or when the connection ended')
            for nm, fm in w.inv(s, d): E.prove(s, fm, 'invariant kept: ' + nm, 'invariant')
        run(E, st, E.func('^.*' + CN + fn + r'\(\)'), [w.this], post); E.S.pop()


class Chunked(W):
    BUF = 4096
    def __init__(w, E):
        W.__init__(w, E, 120, {'^' + '.*' + CH + r'underflow\(\)': 72, '^' + '.*' + CH + r'uflow\(\)': 80}); st = w.st
        w.d0 = E.fresh('delivered'); w.pos0 = E.fresh('pos', 32); w.end0 = E.fresh('end', 32); w.n0 = E.fresh('rest', 32); w.Y = E.fresh('Y'); w.bl = E.fresh('buflen')
        E.assume(st, z3.And(z3.ULE(w.d0, 1 << 62), w.pos0 >= 0, w.end0 >= 0)); w.v0 = Seq(ArrN(E.fresharr('buf')), w.bl, 1, 'vec', next(E.cnt), None); E.setobj(st, w.f(88), w.v0, 24)
        E.storew(st, w.f(112), w.pos0, 4); E.storew(st, w.f(116), w.end0, 4); E.storew(st, w.f(72), Ptr(0, 0), 8)
        have = z3.If(w.pos0 < w.end0, z3.ZeroExt(32, w.end0 - w.pos0), V64(0)); w.sgh(st, 0, simp(w.d0 + have)); w.line = {}
        E.input_terms = [('delivered', w.d0), ('buffer position', w.pos0), ('buffer end', w.end0), ('chunk rest', w.n0)]
        I = r'.*std::__cxx11::basic_istringstream<char, .*>::'
        E.local_models += [(I + r'basic_istringstream\(', w.iss), (I + r'~basic_istringstream\(\)', nop), (r'.*std::(istream|basic_istream<.*>)::operator>>\(std::ios_base& \(\*\)', lambda E, s, a, ins: a[0]), (r'.*std::(istream|basic_istream<.*>)::operator>>\(int&\)', w.number), (r'.*std::(ios|basic_ios<.*>)::operator!\(\) const', lambda E, s, a, ins: E.fresh('bad', 1)), (r'.*std::(ios|basic_ios<.*>)::(fail|eof|bad)\(\) const', lambda E, s, a, ins: E.fresh('bad', 1))]
    def start(w, st, phase):
        E = w.E; w.sgh(st, 2, phase); over = phase in (W.END, W.CUT)
        E.storew(st, w.f(64), Ptr(0, 0) if over else Ptr(w.sock.r, 0), 8)
        n = w.n0 if phase == W.DATA else z3.BitVecVal(0, 32); E.storew(st, w.f(80), simp(n), 4)
        w.sgh(st, 1, z3.SignExt(32, n)); 
        if phase == W.DATA: E.assume(st, w.n0 > 0)
    def inv(w, s, d):
        E = w.E; pos = bv(E.loadw(s, w.f(112), 4), 32); end = bv(E.loadw(s, w.f(116), 4), 32); n = bv(E.loadw(s, w.f(80), 4), 32); v = E.obj(s, w.f(88)); ph = w.phase(s); h = w.nonnull(s, w.f(64)); Y = w.Y
        have = z3.If(pos < end, z3.SignExt(32, end) - z3.SignExt(32, pos), V64(0))
        return [('buffered bytes are the next body bytes', z3.And(w.bp(s) == d + have, z3.Implies(z3.ULT(Y, have), bv(v.at(simp(z3.SignExt(32, pos) + Y)), 8) == w.body(d + Y)))), ('buffer bounds', z3.And(pos >= 0, end >= 0, z3.ULE(z3.SignExt(32, end), b64(v.len)), b64(v.len) == w.BUF)),
                ('the chunk counter agrees with the wire', z3.And(z3.BoolVal(ph in (W.SIZE, W.DATA, W.END, W.CUT)), z3.BoolVal(True) if ph == W.CUT else z3.And(z3.SignExt(32, n) == w.rest(s), n >= 0, (n > 0) == z3.BoolVal(ph == W.DATA)))),
                ('the connection is held exactly until the end', h == z3.BoolVal(ph not in (W.END, W.CUT)))]
    def getline(w, E, s, a, ins):
        ph = w.phase(s); w.step(s, ph in (W.SIZE, W.TRAIL), 'a line is read where one is'); got = E.fresh('line', 1); line = a[1]
        def yes(E, s):
            t = Seq(ArrN(E.fresharr('line')), E.fresh('line.len'), 1, 'str'); E.assume(s, z3.ULE(b64(t.len), 4096)); E.setobj(s, line, t, 32)
            if ph == W.SIZE: w.sgh(s, 2, W.SIZELINE)
            return 1
        def no(E, s): w.sgh(s, 2, W.CUT if ph == W.SIZE else W.TRAIL); return 0
        return Outcomes([(got, yes), (z3.Not(got), no)])
    def iss(w, E, s, a, ins):      # stream object: virtual base at offset 120, format flags 24 bytes into it
        vt = E.alloc(s, 32, 'vtable'); E.storew(s, vt, V64(120), 8); E.storew(s, a[0], Ptr(vt.r, 24), 8); E.storew(s, Ptr(a[0].r, add64(a[0].o, 144)), z3.BitVecVal(0x1002, 32), 4)
    def number(w, E, s, a, ins):
        w.step(s, w.phase(s) == W.SIZELINE, 'a size is taken from a size line'); v = E.fresh('size', 32)
        def mk(ph):
            def f(E, s): E.storew(s, a[1], v, 4); w.sgh(s, 2, ph); w.sgh(s, 1, z3.SignExt(32, v)); return a[0]
            return f
        return Outcomes([(v > 0, mk(W.DATA)), (v == 0, mk(W.TRAIL)), (v < 0, mk(W.BAD))])
    def read(w, E, s, a, ins):
        n = bv(a[2], 32); n64 = z3.SignExt(32, n); w.step(s, w.phase(s) == W.DATA, 'data is read inside a chunk'); E.prove(s, z3.And(n > 0, n64 <= w.rest(s)), 'never more data is read than is left of the chunk', 'pre')
        m = E.fresh('got', 32); bp = w.bp(s)
        def fill(E, s, k):
            src = Ptr(E.seqregion(s, Seq(FunN(lambda i: w.body(simp(bp + b64(i)))), k, 1, 'buf'), 'received'), 0); E.memcpy(s, a[1], src, k)
        def all_(E, s): fill(E, s, simp(n64)); w.sgh(s, 0, bp + n64); w.sgh(s, 1, w.rest(s) - n64); return n
        def full(E, s): r = all_(E, s); w.sgh(s, 2, W.FOOT); return r
        def part(E, s): return all_(E, s)
        def short(E, s): E.assume(s, z3.And(m >= 0, m < n)); fill(E, s, simp(z3.SignExt(32, m))); w.sgh(s, 2, W.CUT); return m
        ok = E.fresh('complete', 1)
        return Outcomes([(z3.And(ok, n64 == w.rest(s)), full), (z3.And(ok, n64 != w.rest(s)), part), (z3.Not(ok), short)])
    def getc(w, E, s, a, ins):
        ph = w.phase(s); w.step(s, ph in (W.FOOT, W.FOOTLF), 'the end of a chunk is read after its data'); c = E.fresh('c', 32); E.assume(s, z3.And(c >= -1, c <= 255))
        def to(p):
            def f(E, s): w.sgh(s, 2, p); return c
            return f
        alts = [(c == 10, to(W.SIZE))] + ([(c == 13, to(W.FOOTLF))] if ph == W.FOOT else []) + [(z3.And(c != 10, c != 13) if ph == W.FOOT else c != 10, to(W.BAD))]
        return Outcomes(alts)


def chunked(E, fn, phase):
    w = Chunked(E); st = w.st; w.start(st, phase)
    for nm, fm in w.inv(st, w.d0): E.assume(st, tob(fm))
    for y in (V64(0),): E.assume(st, z3.Implies(w.bp(st) != w.d0, bv(w.v0.at(simp(z3.SignExt(32, w.pos0) + y)), 8) == w.body(w.d0 + y)))      # the invariant for the next byte (Y is arbitrary)
    E.assume(st, z3.Implies(z3.ULT(w.Y + 1, w.bp(st) - w.d0), bv(w.v0.at(simp(z3.SignExt(32, w.pos0) + w.Y + 1)), 8) == w.body(w.d0 + w.Y + 1)))
    def inv(E, s, k, e): return [('trailer lines only', z3.BoolVal(w.phase(s) == W.TRAIL))]
    E.loopspecs += [LoopSpec(inv, None, 'trailer loop', CH)]
    def post(E, s, o):
        if o[0] != 'ret': E.prove(s, z3.BoolVal(w.phase(s) == W.BAD), 'an exception only for malformed framing'); return
        if w.phase(s) == W.TRAIL: w.sgh(s, 2, W.END)          # the trailer was read to its end
        r = bv(o[1], 32); d = w.d0 if fn == 'underflow' else simp(w.d0 + z3.If(r == EOFV, V64(0), V64(1)))
        E.prove(s, z3.BoolVal(w.phase(s) != W.BAD), 'malformed framing is reported')
        E.prove(s, z3.Or(r == EOFV, z3.And(z3.ULE(w.d0 + 1, w.bp(s)), r == z3.ZeroExt(24, w.body(w.d0)))), 'the next body byte, or end of file')
        E.prove(s, z3.Implies(r == EOFV, z3.And(w.bp(s) == w.d0, z3.BoolVal(w.phase(s) in (W.END, W.CUT)))), 'end of file only after the last chunk, or when the connection ended')
        for nm, fm in w.inv(s, d): E.prove(s, fm, 'invariant kept: ' + nm, 'invariant')
    run(E, st, E.func('^.*' + CH + fn + r'\(\)'), [w.this], post)


def flagged(W):
    """loop variable relation of a search for W"""
    def rel(E, s, k, entry, init, cur, steps):
        # a loop that goes on after a match keeps a flag for it; one without a flag has not met a match yet
        fl = []
        for m, v in cur.items():
            if m in steps: continue
            if isinstance(v, z3.BoolRef): fl.append(v == z3.Xor(tob(init[m]), z3.ULT(W, b64(k))))
            elif isinstance(v, z3.BitVecRef) and v.size() in (1, 8): fl.append(v == (bv(init[m], v.size()) ^ z3.If(z3.ULT(W, b64(k)), z3.BitVecVal(1, v.size()), z3.BitVecVal(0, v.size()))))
        return fl or [z3.ULE(b64(k), W)]
    return rel


def cicmp(E):
    st = with_globals(E); E.local_models += ctype_models(); s, v = E.sym_str(st, 's', 1 << 31); t, u = E.sym_str(st, 't', 1 << 31); P = E.fresh('P'); E.input_terms = [('s', ('seq', v)), ('t', ('seq', u))]
    low = lambda c: z3.If(z3.And(z3.UGE(c, 65), z3.ULE(c, 90)), c + 32, c); same = lambda i: low(bv(v.at(i), 8)) == low(bv(u.at(i), 8))
    # W: the first place where the names differ, their length when there is none
    n = b64(v.len); W = E.fresh('W'); first = lambda k: z3.Implies(z3.ULT(k, W), same(k)); E.assume(st, z3.And(z3.ULE(W, n), z3.Implies(z3.ULT(W, n), z3.Not(same(W))), first(P), first(V64(0))))
    def inv(E, st, k, e): return [('within the name', z3.ULE(b64(k), n))]
    def facts(E, st, k, e): return [first(b64(k)), first(b64(k) + 1)]
    E.loopspecs += [LoopSpec(inv, facts, 'comparison loop', phis=flagged(W))]
    def post(E, st, o):
        if expect_ret(E, st, o): E.prove(st, tob(o[1]) == z3.And(n == b64(u.len), W == n), 'true exactly for names equal up to case')
    run(E, st, E.func(r'^pfi::network::http::cicmp\('), [s, t], post)


def lookup(E, fn):
    """header lookup: cicmp by its contract (a predicate on the field), the fields as a vector of pairs"""
    st = with_globals(E); this = E.alloc(st, 24, 'header'); key, kv = E.sym_str(st, 'key', 1 << 31); n = E.fresh('fields'); P = E.fresh('P'); same = z3.Function('same_name', z3.BitVecSort(64), z3.BoolSort()); dat = E.region(st, None, 'fields'); g = E.alloc(st, 8, 'added')
    E.assume(st, z3.ULT(n, 1 << 40)); E.storew(st, g, V64(0), 8); E.input_terms = [('fields', n), ('P', P)]
    added = lambda s: b64(E.loadw(s, g, 8)); size = lambda s: simp(n + added(s))
    V = r'(.* )?std::vector<std::pair<std::(__cxx11::)?basic_string<.*>::'
    def elem(E, s, a, ins): i = b64(a[1]); E.prove(s, z3.ULT(i, size(s)), 'index of a field', 'pre'); return Ptr(dat, simp(64 * i))
    def back(E, s, a, ins): E.prove(s, size(s) != 0, 'last field of an empty header', 'pre'); return Ptr(dat, simp(64 * (size(s) - 1)))
    def push(E, s, a, ins): s.ghost['pushed'] = s.ghost.get('pushed', ()) + ((sget(E, s, a[1]), sget(E, s, Ptr(a[1].r, add64(a[1].o, 32)))),); r = Ptr(dat, simp(64 * size(s))); E.storew(s, g, simp(added(s) + 1), 8); return r
    def cmp(E, s, a, ins):
        p, q = a[0], a[1]
        if isinstance(q, Ptr) and q.r == dat: p, q = q, p
        if not (isinstance(p, Ptr) and p.r == dat and isinstance(q, Ptr)) or sget(E, s, q).n is not kv.n: raise Unsupported('comparison of other names')
        i = simp(z3.LShR(b64(p.o), 6)); E.prove(s, z3.And(z3.ULT(i, n), 64 * i == b64(p.o)), 'the name of a field is compared', 'pre'); return same(i)
    E.local_models += [(V + r'size\(\)', lambda E, s, a, ins: size(s)), (V + r'empty\(\)', lambda E, s, a, ins: size(s) == 0), (V + r'(operator\[\]|at)\(', elem), (V + r'back\(\)', back), (V + r'c?begin\(\)', lambda E, s, a, ins: Ptr(dat, 0)), (V + r'c?end\(\)', lambda E, s, a, ins: Ptr(dat, simp(64 * size(s)))),
                       (V + r'(push_back|emplace_back(<.*>)?)\(', push), (r'pfi::network::http::cicmp\(', cmp), (r'__cxa_guard_acquire', lambda E, s, a, ins: 1), (r'__cxa_guard_release|__cxa_guard_abort|__cxa_atexit', lambda E, s, a, ins: 0)]
    # W: the first field whose name matches, n when there is none
    W = E.fresh('W'); first = lambda k: z3.Implies(z3.ULT(k, W), z3.Not(same(k)))
    E.assume(st, z3.And(z3.ULE(W, n), z3.Implies(z3.ULT(W, n), same(W)), first(P), first(V64(0)))); none = W == n
    def inv(E, s, k, e): return [('within the fields', z3.ULE(b64(k), n)), ('nothing added', added(s) == 0)]
    def facts(E, s, k, e): return [first(b64(k)), first(b64(k) + 1)]
    E.loopspecs += [LoopSpec(inv, facts, 'lookup loop', phis=flagged(W))]
    def post(E, s, o):
        if not expect_ret(E, s, o): return
        r = o[1]; pushed = s.ghost.get('pushed', ())
        if fn == 'has_key':
            E.prove(s, tob(r) == (W != n), 'true exactly when a name matches'); E.prove(s, z3.BoolVal(not pushed), 'a test adds no field'); return
        if not isinstance(r, Ptr): raise Unsupported('result is not a reference')
        if r.r == dat and not pushed:
            i = simp(z3.LShR(b64(r.o), 6)); E.prove(s, z3.And(b64(r.o) == 64 * i + 32, z3.ULT(i, n), i == W), 'the value of the first field whose name matches'); return
        E.prove(s, none, 'not found only when no name matches')
        if fn == 'const': E.prove(s, z3.BoolVal(not pushed and r.r != dat), 'a lookup adds no field'); E.prove(s, b64(sget(E, s, r).len) == 0, 'the value of an absent field is empty'); return
        E.prove(s, z3.BoolVal(r.r == dat and len(pushed) == 1), 'an absent field is added once'); nm, vl = pushed[0]; J = E.fresh('J')
        E.prove(s, z3.And(b64(r.o) == 64 * n + 32, b64(vl.len) == 0), 'its value is empty'); E.prove(s, z3.And(b64(nm.len) == b64(kv.len), z3.Implies(z3.ULT(J, b64(kv.len)), bv(nm.at(J), 8) == bv(kv.at(J), 8))), 'under the name asked for')
    run(E, st, E.func(r'^pfi::network::http::header::' + dict(has_key=r'has_key\(', find=r'operator\[\]\(.*&\)$', const=r'operator\[\]\(.*\) const$')[fn]), [this, key], post)



PROOFS = [dict(name='counted body: %s' % f, src=SRC, fn=lambda E, f=f: counted(E, f), functions=['basic_httpbody_streambuf::' + f]) for f in ('underflow', 'uflow')] + [
          dict(name='chunked body: %s, %s' % (f, {W.SIZE: 'between chunks', W.DATA: 'inside a chunk', W.END: 'after the end', W.CUT: 'after a truncation'}[p]), src=SRC, fn=lambda E, f=f, p=p: chunked(E, f, p), functions=['basic_httpbody_chunked_streambuf::' + f, 'basic_httpbody_chunked_streambuf::fill', 'basic_httpbody_chunked_streambuf::read_chunk_size']) for f in ('underflow', 'uflow') for p in (W.SIZE, W.DATA, W.END, W.CUT)] + [
          dict(name='header names', src=SRC, fn=cicmp, functions=['pfi::network::http::cicmp'])]
PROOFS += [dict(name='lookup: ' + f, src=SRC, fn=lambda E, f=f: lookup(E, f), functions=[dict(has_key='header::has_key', find='header::operator[]', const='header::operator[] const')[f]]) for f in ('has_key', 'find', 'const')]
HARNESS = [dict(src='c29.cpp', repo=['network/http/base.cpp', 'network/uri.cpp', 'network/socket.cpp', 'network/dns.cpp', 'network/ipv4.cpp', 'concurrent/condition.cpp', 'concurrent/internal.cpp', 'concurrent/mutex.cpp', 'concurrent/rwmutex.cpp', 'concurrent/thread.cpp', 'system/syscall.cpp', 'system/time_util.cpp'], budget=5, bound='random bodies of up to 20000 bytes of all values, chunk splits, truncations and malformed chunks, header histories and messages sent and read back, over socket stand-ins with short and interrupted transfers', asan=True)]
