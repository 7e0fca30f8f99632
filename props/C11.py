"""Stream sockets over system calls with arbitrary partial, interrupted, failing and end-of-stream results: ghost output OUT (bytes accepted by the kernel) and ghost input IN with a kernel position."""
from common import *
SRC = ['network/socket.cpp', 'network/ipv4.cpp']
ASSUMPTIONS = ['send accepts the first m bytes, 0 < m <= n, or returns a value <= 0 and accepts none; recv delivers the next m bytes, 0 < m <= n, or returns a value <= 0 and delivers none; both with any errno (system call contract)',
               'vectors and strings behave as sequences (C++ library contract, no allocation failure)', 'sizes passed to read and write are not negative, and a line is shorter than 2^31 bytes', 'connect, accept and the name resolver are only exercised by the bounded stand-in']
CON, SOCK, RD, RDP, RDE, WR, WRN = 0, 4, 16, 40, 44, 48, 72
BS = 8192
RX = r'^pfi::network::stream_socket::'


def vec(E, nm, n=BS): return Seq(ArrN(E.fresharr(nm)), n, 1, 'vec', next(E.cnt), None)


class U:
    def __init__(u, E, wmax=BS - 1):
        u.E = E; st = u.st = State()
        u.this = E.alloc(st, 80, 'socket'); g = u.g = E.alloc(st, 256, 'ghost')
        u.c0 = E.fresh('connected', 8); E.assume(st, z3.ULE(u.c0, 1)); E.storew(st, u.f(CON), u.c0, 1)
        u.s0 = E.fresh('sock', 32); E.storew(st, u.f(SOCK), u.s0, 4); E.assume(st, z3.Implies(u.c0 == 1, u.s0 >= 0))
        for o in (8, 9, 10, 11): E.storew(st, u.f(o), E.fresh('addr', 8), 1)
        E.storew(st, u.f(12), E.fresh('rport', 16), 2)
        u.rd0 = vec(E, 'rdbuf'); u.wr0 = vec(E, 'wrbuf'); E.setobj(st, u.f(RD), u.rd0, 24); E.setobj(st, u.f(WR), u.wr0, 24)
        E.lift = True; lo = lambda x: simp(z3.Extract(31, 0, x)); u.P64 = E.fresh('rdbuf_p'); u.b0 = E.fresh('buffered'); u.W64 = E.fresh('wrbuf_size'); u.p0 = lo(u.P64); u.e0 = lo(u.P64 + u.b0); u.w0 = lo(u.W64)
        E.assume(st, z3.And(z3.ULE(u.P64, BS), z3.ULE(u.b0, BS - u.P64), z3.ULE(u.W64, wmax)))
        E.storew(st, u.f(RDP), u.p0, 4); E.storew(st, u.f(RDE), u.e0, 4); E.storew(st, u.f(WRN), u.w0, 4)
        u.L0 = E.fresh('sent'); u.K0 = E.fresh('received'); u.IN = E.fresharr('input'); u.out0 = Seq(ArrN(E.fresharr('output')), u.L0, 1, 'buf')
        E.assume(st, z3.And(z3.ULT(u.L0, 1 << 40), z3.ULT(u.K0, 1 << 40), z3.UGE(u.K0, 1 << 14)))
        E.setobj(st, u.at(g, 0), u.out0, 64); E.storew(st, u.at(g, 64), V64(0), 8)
        u.X = E.fresh('X'); u.Y = E.fresh('Y'); u.err = E.alloc(st, 8, 'errno'); E.storew(st, u.err, E.fresh('errno', 32), 4)
        u.P0 = u.K0 - u.b0       # first byte of the input that has not been handed to the user
        E.assume(st, z3.Implies(z3.ULT(u.Y, u.b0), bv(u.rd0.at(simp(u.P64 + u.Y)), 8) == u.inp(u.P0 + u.Y)))
        E.local_models += [('__errno_location$', lambda E, s, a, ins: u.err), ('send$', u.send), ('recv$', u.recv), ('close$', u.close), ('socket$', u.socket)]
        u.stream = None; u.signs = {}
        E.input_terms = [('buffered output', u.w0), ('connected', u.c0), ('buffered input', u.b0)]

    def at(u, p, o): return Ptr(p.r, add64(p.o, o))
    def f(u, o): return u.at(u.this, o)
    def inp(u, i): return z3.Select(u.IN, i)
    def out(u, s): return u.E.obj(s, u.g)
    def rcv(u, s): return b64(u.E.loadw(s, u.at(u.g, 64), 8))
    def kpos(u, s): return u.K0 + u.rcv(s)
    def i32(u, s, o): return bv(u.E.loadw(s, u.f(o), 4), 32)
    def con(u, s): return bv(u.E.loadw(s, u.f(CON), 1), 8)
    def fail(u, s): u.E.storew(s, u.err, u.E.fresh('errno', 32), 4)

    def sx(u, s, t):
        t = simp(t)
        if isint(t): return V64(signed(t, 32) & (1 << 64) - 1)
        h = u.E.lifted(s, t); return z3.SignExt(32, t) if h is None else h

    # system calls
    def fd(u, s, v, what): u.E.prove(s, z3.And(bv(v, 32) == u.i32(s, SOCK), bv(v, 32) >= 0, u.con(s) == 1), what + ' is applied to the connected descriptor', 'pre')

    def send(u, E, s, a, ins):
        u.fd(s, a[0], 'send'); n = b64(a[2]); E.prove(s, z3.And(n > 0, n < (1 << 31)), 'send of a positive length', 'pre')
        m = E.fresh('accepted'); r = E.fresh('send.result'); ok = E.fresh('send.ok', 1)
        def yes(E, s): E.assume(s, z3.And(m > 0, m <= n)); E.setobj(s, u.g, u.out(s).cat(bufseq(E, s, a[1], m)).with_(kind='buf'), 64); u.fail(s); return m
        def no(E, s): E.assume(s, z3.And(r <= 0, r >= -1)); u.fail(s); return r
        return Outcomes([(ok, yes), (z3.Not(ok), no)])

    def recv(u, E, s, a, ins):
        u.fd(s, a[0], 'recv'); n = b64(a[2]); E.prove(s, z3.And(n > 0, n < (1 << 31)), 'recv of a positive length', 'pre')
        m = E.fresh('delivered'); r = E.fresh('recv.result'); ok = E.fresh('recv.ok', 1)
        def yes(E, s):
            E.assume(s, z3.And(m > 0, m <= n, z3.ULT(u.rcv(s), 1 << 40))); k = u.kpos(s)
            src = Ptr(E.seqregion(s, Seq(FunN(lambda i: u.inp(simp(k + b64(i)))), m, 1, 'buf'), 'received'), 0)
            E.memcpy(s, a[1], src, m); E.storew(s, u.at(u.g, 64), simp(u.rcv(s) + m), 8); u.fail(s); return m
        def no(E, s): E.assume(s, z3.And(r <= 0, r >= -1)); u.fail(s); return r
        return Outcomes([(ok, yes), (z3.Not(ok), no)])

    def close(u, E, s, a, ins):
        E.prove(s, z3.And(bv(a[0], 32) == u.i32(s, SOCK), bv(a[0], 32) >= 0), 'close is applied to the open descriptor', 'pre'); u.fail(s); return E.fresh('close.result', 32)

    def socket(u, E, s, a, ins): u.fail(s); return E.fresh('socket.result', 32)

    # loops: how far the variables of a transfer loop have advanced
    def rel(u, E, s, k, entry, init, cur, steps):
        d = u.out(s).len - u.out(entry).len if u.mode == 'w' else u.rcv(s) - u.rcv(entry); d = b64(d); out = []
        for n, v in cur.items():
            if n in steps: continue
            x = b64(v.o) if isinstance(v, Ptr) else v; y = b64(init[n].o) if isinstance(v, Ptr) else init[n]
            if isint(x) or isint(y) or not isinstance(x, z3.BitVecRef):
                x = b64(x); y = b64(y)
            w = x.size()
            if n not in u.signs or isint(k):
                back, syms = E.lastback; sg = 1
                for bk in back:
                    p, q = bk[n], syms[n]; p = p.o if isinstance(p, Ptr) else p; q = q.o if isinstance(q, Ptr) else q
                    if not isint(p) and not isint(q) and p.size() in (32, 64):
                        c, t = linear(simp(p - bv(q, p.size())))
                        if any(co >> 63 for co, _ in t.values()) and not any(co < (1 << 62) for co, _ in t.values()): sg = -1
                u.signs[n] = sg
            dd = d if w == 64 else z3.Extract(w - 1, 0, d)
            out.append(x == bv(y, w) + (dd if u.signs[n] > 0 else -dd))
        return out or [u.out(s).len == u.out(entry).len if u.mode == 'w' else u.rcv(s) == u.rcv(entry)]

    def sent_inv(u, E, s, k, entry):
        o = u.out(s); r = [('bytes sent so far', z3.And(z3.UGE(o.len, u.L0), z3.ULE(o.len, u.N), z3.Implies(z3.ULT(u.X, o.len), bv(o.at(u.X), 8) == u.stream(u.X))))]
        return r

    def spec(u, inv, name='transfer loop', mode='w'): u.mode = mode; u.E.loopspecs = [LoopSpec(inv, name=name, phis=u.rel)]

    # contracts used by callers
    def contract(u, rx, fn): u.E.local_models.append((RX[1:] + rx + r'\(', fn))

    def disconnect(u, E, s): E.storew(s, u.f(CON), 0, 1); E.storew(s, u.f(SOCK), 0xffffffff, 4); [E.storew(s, u.f(o), E.fresh('addr', 8), 1) for o in (8, 9, 10, 11)]; E.storew(s, u.f(12), E.fresh('rport', 16), 2)

    def c_send_all(u):
        def m(E, s, a, ins):
            n = bv(a[2], 32); E.prove(s, n >= 0, 'length is not negative', 'pre'); r = E.fresh('sent.now', 32); n64 = u.sx(s, n)
            def app(E, s, r): E.setobj(s, u.g, u.out(s).cat(bufseq(E, s, a[1], r)).with_(kind='buf'), 64)
            def full(E, s): E.assume(s, z3.Implies(n > 0, u.con(s) == 1)); app(E, s, simp(n64)); return simp(n)
            def part(E, s): E.assume(s, z3.And(r >= 0, r < n)); app(E, s, simp(u.sx(s, r))); u.disconnect(E, s); return r
            ok = E.fresh('all.sent', 1)
            return Outcomes([(ok, full), (z3.Not(ok), part)])
        u.contract('send_all', m)

    def c_flush(u):
        def m(E, s, a, ins):
            w = u.i32(s, WRN); wr = E.obj(s, u.f(WR)); w64 = u.sx(s, w); E.prove(s, z3.And(w >= 0, w <= BS), 'the buffer size is in range', 'pre'); r = E.fresh('flushed', 32)
            def app(E, s, n): E.setobj(s, u.g, u.out(s).cat(wr.sub(0, n).with_(kind='buf')).with_(kind='buf'), 64); E.storew(s, u.f(WRN), 0, 4)
            def full(E, s): E.assume(s, z3.Implies(w > 0, u.con(s) == 1)); app(E, s, simp(w64)); return 0xffffffff
            def part(E, s): E.assume(s, z3.And(r >= 0, r < w)); app(E, s, simp(u.sx(s, r))); u.disconnect(E, s); return r
            ok = E.fresh('flush.ok', 1)
            return Outcomes([(ok, full), (z3.Not(ok), part)])
        u.contract('flush', m)

    def call(u, E, name, args, post):
        f = E.func(RX + name + r'\(', must=False)
        if f is None:
            E.prove(u.st, z3.BoolVal(True), 'stream_socket::%s is not a function of its own any more: its callers are checked with its code' % name); return
        run(E, u.st, f, [u.this] + args, post)

    def read_side_kept(u, E, s):
        rd = E.obj(s, u.f(RD))
        E.prove(s, z3.And(u.i32(s, RDP) == u.p0, u.i32(s, RDE) == u.e0, u.rcv(s) == 0, b64(rd.len) == BS, z3.Implies(z3.ULT(u.X, BS), bv(rd.at(u.X), 8) == bv(u.rd0.at(u.X), 8))), 'the read side is not changed')

    def write_side_kept(u, E, s):
        wr = E.obj(s, u.f(WR)); o = u.out(s)
        E.prove(s, z3.And(u.i32(s, WRN) == u.w0, b64(wr.len) == BS, z3.Implies(z3.ULT(u.X, BS), bv(wr.at(u.X), 8) == bv(u.wr0.at(u.X), 8)), b64(o.len) == u.L0, z3.Implies(z3.ULT(u.X, u.L0), bv(o.at(u.X), 8) == bv(u.out0.at(u.X), 8))), 'the write side is not changed')

    def state_ok(u, E, s, failed):
        E.prove(s, z3.If(failed, u.con(s) == 0, z3.And(u.con(s) == u.c0, u.i32(s, SOCK) == u.s0)), 'an error, and only an error, disconnects')
        E.prove(s, z3.Implies(u.con(s) == 1, u.i32(s, SOCK) >= 0), 'a connected socket has a descriptor')


def data(u, E, st, name='data'):
    n64 = u.n64 = E.fresh('size'); E.assume(st, z3.ULT(n64, 1 << 31)); n = u.n = simp(z3.Extract(31, 0, n64))
    p, d = E.sym_buf(st, name, simp(n64)); E.input_terms.append(('size', n)); return p, d


def p_send_all(E):
    u = U(E); st = u.st; p, d = data(u, E, st); n64 = u.n64
    u.stream = lambda t: z3.If(z3.ULT(t, u.L0), bv(u.out0.at(t), 8), bv(d.at(simp(t - u.L0)), 8)); u.N = u.L0 + n64; u.spec(u.sent_inv)
    def inv(E, s, k, entry): return u.sent_inv(E, s, k, entry) + [('connection', z3.And(u.con(s) == u.c0, u.i32(s, SOCK) == u.s0))]
    E.loopspecs[0].inv = inv
    def post(E, s, o):
        if not expect_ret(E, s, o): return
        r = bv(o[1], 32); q = u.out(s); E.prove(s, z3.And(r >= 0, r <= u.n), 'the count is between 0 and the size')
        E.prove(s, b64(q.len) == u.L0 + u.sx(s, r), 'the count is the number of bytes sent'); E.prove(s, z3.Implies(z3.ULT(u.X, q.len), bv(q.at(u.X), 8) == u.stream(u.X)), 'the bytes sent are the first of the data, in order and once')
        u.state_ok(E, s, r < u.n); u.read_side_kept(E, s); E.prove(s, u.i32(s, WRN) == u.w0, 'the write buffer is not changed')
    u.call(E, 'send_all', [p, u.n], post)


def p_flush(E):
    u = U(E, BS); st = u.st; u.c_send_all(); w64 = u.W64
    def post(E, s, o):
        if not expect_ret(E, s, o): return
        r = bv(o[1], 32); q = u.out(s); sent = z3.If(r < 0, w64, u.sx(s, r))
        E.prove(s, z3.Implies(r >= 0, r < u.w0), 'failure is reported only when a byte was not sent'); E.prove(s, u.i32(s, WRN) == 0, 'the buffer is empty')
        E.prove(s, b64(q.len) == u.L0 + sent, 'success means that every buffered byte was sent; otherwise the count is returned')
        E.prove(s, z3.Implies(z3.ULT(u.X, q.len), bv(q.at(u.X), 8) == z3.If(z3.ULT(u.X, u.L0), bv(u.out0.at(u.X), 8), bv(u.wr0.at(simp(u.X - u.L0)), 8))), 'the bytes sent are the buffered ones in order')
        u.state_ok(E, s, r >= 0); u.read_side_kept(E, s)
    u.call(E, 'flush', [], post)


def p_write(E, name='write'):
    u = U(E); st = u.st; p, d = data(u, E, st); n64 = u.n64; u.c_send_all(); u.c_flush(); w64 = u.W64
    stream = u.stream = lambda t: z3.If(z3.ULT(t, u.L0), bv(u.out0.at(t), 8), z3.If(z3.ULT(t, u.L0 + w64), bv(u.wr0.at(simp(t - u.L0)), 8), bv(d.at(simp(t - u.L0 - w64)), 8))); u.N = u.L0 + w64 + n64
    def inv(E, s, k, entry):
        w = u.i32(s, WRN); wr = E.obj(s, u.f(WR)); o = u.out(s)
        return [('at most one iteration per byte', z3.ULE(b64(k), n64)), ('the buffer holds the unsent end of the stream', z3.And(w >= 0, w <= BS, b64(wr.len) == BS, z3.ULE(o.len + u.sx(s, w), u.N), z3.Implies(z3.And(z3.ULT(u.X, u.N), z3.UGE(u.X, o.len), z3.ULT(u.X - o.len, u.sx(s, w))), bv(wr.at(simp(u.X - o.len)), 8) == stream(u.X))))]
    u.spec(inv)
    def post(E, s, o):
        if not expect_ret(E, s, o): return
        r = bv(o[1], 32); q = u.out(s); w = u.i32(s, WRN); wr = E.obj(s, u.f(WR)); W = u.sx(s, w); full = r == u.n; ql = b64(q.len)
        E.prove(s, z3.And(r >= 0, r <= u.n), 'the count is between 0 and the size'); E.prove(s, z3.And(w >= 0, w < BS, b64(wr.len) == BS), 'the buffer stays in range')
        E.prove(s, z3.Implies(z3.ULT(u.X, ql), bv(q.at(u.X), 8) == stream(u.X)), 'the bytes sent are those written, in order and once')
        E.prove(s, z3.Implies(full, ql + W == u.N), 'success means that every byte is sent or buffered'); E.prove(s, z3.Implies(z3.And(full, z3.UGE(u.X, ql), z3.ULT(u.X - ql, W)), bv(wr.at(simp(u.X - ql)), 8) == stream(u.X)), 'the buffered bytes are in order')
        E.prove(s, z3.Implies(r < u.n, z3.And(w == 0, z3.If(r > 0, ql == u.L0 + w64 + u.sx(s, r), z3.ULE(ql, u.L0 + w64)))), 'a failed write reports how many of its bytes were sent')
        u.state_ok(E, s, r < u.n); u.read_side_kept(E, s)
    u.call(E, name, [p, u.n], post)


def buffered_ok(u, E, s, P, what='the read buffer holds the next bytes of the input'):
    """class invariant of the read side, for a user who has been given the input up to P"""
    p = u.i32(s, RDP); e = u.i32(s, RDE); rd = E.obj(s, u.f(RD)); b = u.sx(s, e - p)
    E.prove(s, z3.And(p >= 0, p <= e, e <= BS, b64(rd.len) == BS, u.kpos(s) - b == P), 'every received byte is either delivered or buffered')
    Z = E.fresh('Z'); E.prove(s, z3.Implies(z3.ULT(Z, b), bv(rd.at(simp(z3.SignExt(32, p) + Z)), 8) == u.inp(P + Z)), what)


def inst_buffer(u, E, s, i):
    """the class invariant of the state the function is called in, at byte i of the buffer"""
    E.assume(s, z3.Implies(z3.ULT(i, u.b0), bv(u.rd0.at(simp(u.P64 + i)), 8) == u.inp(u.P0 + i)))


def retry(u, E, s, k, entry): return [('a retry leaves the connection as it was', z3.And(u.con(s) == u.con(entry), u.i32(s, SOCK) == u.i32(entry, SOCK)))]


def p_getc(E):
    u = U(E); st = u.st; inst_buffer(u, E, st, V64(0)); Z = E.fresh('Z1'); u.spec(lambda E, s, k, e: retry(u, E, s, k, e), mode='r')
    def post(E, s, o):
        if not expect_ret(E, s, o): return
        r = bv(o[1], 32); eof = r == -1; inst_buffer(u, E, s, V64(0))
        E.prove(s, z3.Or(eof, r == z3.ZeroExt(24, u.inp(u.P0))), 'the next byte of the input, or end of file'); E.prove(s, z3.Implies(eof, z3.And(u.rcv(s) == 0, u.b0 == 0)), 'end of file only when nothing is left')
        p = u.i32(s, RDP); e = u.i32(s, RDE); rd = E.obj(s, u.f(RD)); b = u.sx(s, e - p); P = z3.If(eof, u.P0, u.P0 + 1)
        E.prove(s, z3.And(p >= 0, p <= e, e <= BS, b64(rd.len) == BS, u.kpos(s) - b == P), 'every received byte is either delivered or buffered')
        inst_buffer(u, E, s, simp(Z + 1)); E.prove(s, z3.Implies(z3.ULT(Z, b), bv(rd.at(simp(z3.SignExt(32, p) + Z)), 8) == u.inp(P + Z)), 'the read buffer holds the next bytes of the input')
        E.prove(s, z3.Implies(eof, u.con(s) == 0), 'end of file disconnects'); E.prove(s, z3.Implies(z3.Not(eof), z3.And(u.con(s) == u.c0, u.i32(s, SOCK) == u.s0)), 'a delivered byte does not disconnect'); u.write_side_kept(E, s)
    E.local_models += getattr(u, 'extra', [])
    E.loopspecs[0].inv = lambda E, s, k, e: retry(u, E, s, k, e) + bufinv(u, E, s, e)
    u.call(E, 'getc', [], post)


def bufinv(u, E, s, e):
    """a retried transfer has delivered nothing"""
    rd = E.obj(s, u.f(RD)); re_ = E.obj(e, u.f(RD)); return [('nothing received', z3.And(u.rcv(s) == u.rcv(e), b64(rd.len) == b64(re_.len)))]


def p_read(E, part):
    u = U(E); st = u.st; n64 = E.fresh('size'); E.assume(st, z3.ULT(n64, 1 << 31)); n = u.n = simp(z3.Extract(31, 0, n64)); E.input_terms.append(('size', n))
    dst, d0 = E.sym_buf(st, 'destination', simp(n64)); Y = E.fresh('Y1'); inst_buffer(u, E, st, Y)
    def dest(s): return s.mem[dst.r].seq
    got = lambda s: (u.b0 if part else n64) + u.rcv(s); E.assume(st, (u.b0 < n64) if part else (u.b0 >= n64))
    def inv(E, s, k, e): d = dest(s); return retry(u, E, s, k, e) + [('position', z3.And(z3.ULE(u.rcv(s), 1 << 32), b64(d.len) == n64)), ('within the destination', z3.ULE(got(s), n64)), ('bytes delivered so far', z3.Implies(z3.ULT(Y, got(s)), bv(d.at(Y), 8) == u.inp(u.P0 + Y)))]
    u.spec(inv, mode='r')
    def post(E, s, o):
        if not expect_ret(E, s, o): return
        r = bv(o[1], 32); d = dest(s); R = u.sx(s, r); E.prove(s, z3.And(r >= 0, r <= n), 'the count is between 0 and the size')
        E.prove(s, z3.Implies(z3.ULT(Y, R), bv(d.at(Y), 8) == u.inp(u.P0 + Y)), 'the bytes delivered are the next of the input, in order')
        p = u.i32(s, RDP); e = u.i32(s, RDE); rd = E.obj(s, u.f(RD)); b = u.sx(s, e - p)
        E.prove(s, z3.And(p >= 0, p <= e, e <= BS, b64(rd.len) == BS, u.kpos(s) - b == u.P0 + R), 'every received byte is either delivered or buffered')
        inst_buffer(u, E, s, simp(u.X + R)); E.prove(s, z3.Implies(z3.ULT(u.X, b), bv(rd.at(simp(z3.SignExt(32, p) + u.X)), 8) == u.inp(u.P0 + R + u.X)), 'the read buffer holds the next bytes of the input')
        E.prove(s, z3.Implies(r < n, z3.And(u.con(s) == 0, b == 0)), 'a short read only at the end of the stream or an error, with nothing left over'); E.prove(s, z3.Implies(r == n, z3.And(u.con(s) == u.c0, u.i32(s, SOCK) == u.s0)), 'a complete read does not disconnect'); u.write_side_kept(E, s)
    u.call(E, 'read', [dst, n], post)


def c_getc(u):
    """getc: the next byte of the input, or end of file and a closed connection (proved above); POS counts the bytes handed to the user"""
    def m(E, s, a, ins):
        ok = E.fresh('getc.ok', 1); P = b64(E.loadw(s, u.at(u.g, 72), 8))
        def yes(E, s): E.assume(s, z3.ULT(P - u.P0, (1 << 31) - 1)); E.storew(s, u.at(u.g, 72), simp(P + 1), 8); return simp(z3.ZeroExt(24, u.inp(P)))
        def no(E, s): u.disconnect(E, s); E.storew(s, u.at(u.g, 80), V64(1), 8); return 0xffffffff
        return Outcomes([(ok, yes), (z3.Not(ok), no)])
    u.contract('getc', m)


def p_getline(E):
    u = U(E); st = u.st; P = u.P0; E.storew(st, u.at(u.g, 72), P, 8); E.storew(st, u.at(u.g, 80), V64(0), 8); c_getc(u); lim = E.fresh('limit', 32); str_, s0 = E.sym_str(st, 'str'); E.input_terms.append(('limit', lim))
    pos = lambda s: b64(E.loadw(s, u.at(u.g, 72), 8)); X = u.X; F = E.fresharr('dummy')
    def inv(E, s, k, e):
        r = [x for x in strs(E, s) if x is not None]; k = b64(k)
        t = E.obj(s, str_)
        return [('the result is not touched', z3.And(b64(t.len) == s0.len, z3.Implies(z3.ULT(X, s0.len), bv(t.at(X), 8) == bv(s0.at(X), 8)))), ('position', z3.And(pos(s) == P + k, z3.ULE(k, 1 << 31), z3.Implies(lim >= 0, z3.ULE(k, z3.ZeroExt(32, lim))))), ('no end of file so far', z3.And(b64(E.loadw(s, u.at(u.g, 80), 8)) == 0, u.con(s) == u.c0, u.i32(s, SOCK) == u.s0)),
                ('the line so far', z3.And(*[z3.And(b64(v.len) == k, z3.Implies(z3.ULT(X, k), z3.And(bv(v.at(X), 8) == u.inp(P + X), u.inp(P + X) != 10)), z3.Implies(k != 0, z3.And(bv(v.at(simp(k - 1)), 8) == u.inp(P + k - 1), u.inp(P + k - 1) != 10))) for v in r]))]
    def strs(E, s):
        fr = s.frames[-1]; out = []
        for rid, r in s.mem.items():
            if isinstance(rid, int) and rid > str_.r and r.cells.get(0) is not None and isinstance(r.cells[0][1], Seq) and r.cells[0][1].kind == 'str': out.append(r.cells[0][1])
        return out
    def phis(E, s, k, entry, init, cur, steps): return []
    E.assume(st, z3.BoolVal(True)); E.loopspecs = [LoopSpec(inv, name='line loop')]
    def post(E, s, o):
        if not expect_ret(E, s, o): return
        ok = tob(simp(bv(o[1], 8) == 1)) if not isinstance(o[1], (bool, z3.BoolRef)) and not isint(o[1]) else tob(o[1]); v = E.obj(s, str_); n = pos(s) - P; eof = b64(E.loadw(s, u.at(u.g, 80), 8)) == 1; L = b64(v.len)
        nl = z3.And(n != 0, u.inp(P + n - 1) == 10); cr = z3.And(nl, z3.UGE(n, 2), u.inp(P + n - 2) == 13)
        E.prove(s, z3.Implies(z3.Not(ok), z3.And(eof, n == 0)), 'fails only at the end of the stream'); E.prove(s, z3.Implies(z3.And(eof, n == 0), z3.Not(ok)), 'the end of the stream is not a line')
        E.prove(s, z3.Implies(ok, z3.Or(nl, eof, z3.And(lim >= 0, n == z3.ZeroExt(32, lim)))), 'a line ends at a newline, at the limit or at the end of the stream')
        E.prove(s, z3.Implies(lim >= 0, z3.ULE(n, z3.ZeroExt(32, lim))), 'no more than the limit is consumed')
        E.prove(s, z3.Implies(z3.And(z3.ULT(X, n), z3.Not(z3.And(nl, X == n - 1))), u.inp(P + X) != 10), 'no newline inside the line')
        E.prove(s, z3.Implies(ok, L == z3.If(cr, n - 2, z3.If(nl, n - 1, n))), 'the line without its terminator'); E.prove(s, z3.Implies(z3.And(ok, z3.ULT(X, L)), bv(v.at(X), 8) == u.inp(P + X)), 'the bytes of the line')
        E.prove(s, z3.Implies(z3.Not(ok), z3.And(L == s0.len, z3.Implies(z3.ULT(X, L), bv(v.at(X), 8) == bv(s0.at(X), 8)))), 'the string is not changed on failure')
        E.prove(s, z3.Implies(z3.Not(eof), z3.And(u.con(s) == u.c0, u.i32(s, SOCK) == u.s0)), 'the connection is kept')
    u.call(E, 'getline', [str_, lim], post)


def c_write(u):
    """write as proved above, in terms of the stream of bytes handed over (TAKEN counts them; FAILED tells an error)"""
    def m(E, s, a, ins):
        n = bv(a[2], 32); E.prove(s, n >= 0, 'length is not negative', 'pre'); r = E.fresh('written', 32); ok = E.fresh('write.ok', 1); q = E.obj(s, u.at(u.g, 96))
        def full(E, s): E.setobj(s, u.at(u.g, 96), q.cat(bufseq(E, s, a[1], u.sx(s, n))).with_(kind='buf'), 64); return simp(n)
        def part(E, s): E.assume(s, z3.And(r >= 0, r < n)); E.setobj(s, u.at(u.g, 96), q.cat(bufseq(E, s, a[1], u.sx(s, r))).with_(kind='buf'), 64); u.disconnect(E, s); E.storew(s, u.at(u.g, 80), V64(1), 8); return r
        return Outcomes([(ok, full), (z3.Not(ok), part)])
    u.contract('write', m); u.taken0 = Seq(ArrN(u.E.fresharr('taken')), u.E.fresh('takenlen'), 1, 'buf'); u.E.assume(u.st, z3.ULT(u.taken0.len, 1 << 40)); u.E.setobj(u.st, u.at(u.g, 96), u.taken0, 64); u.E.storew(u.st, u.at(u.g, 80), V64(0), 8)


def p_puts(E):
    u = U(E); st = u.st; c_write(u); str_, s0 = E.sym_str(st, 'str', 1 << 31); E.input_terms.append(('str', s0)); X = u.X
    def post(E, s, o):
        if not expect_ret(E, s, o): return
        ok = tob(o[1]); q = E.obj(s, u.at(u.g, 96)); t = u.taken0; failed = b64(E.loadw(s, u.at(u.g, 80), 8)) == 1
        E.prove(s, ok == z3.Not(failed), 'true exactly if the write succeeded'); E.prove(s, z3.Implies(ok, z3.And(b64(q.len) == t.len + s0.len, z3.Implies(z3.And(z3.UGE(X, t.len), z3.ULT(X, q.len)), bv(q.at(X), 8) == bv(s0.at(simp(X - t.len)), 8)))), 'true only if the whole string was accepted')
    u.call(E, 'puts', [str_], post)


def p_shutdown(E):
    u = U(E); st = u.st; u.c_flush(); u.spec(lambda E, s, k, e: [], name='retry loop')
    E.loopspecs[0].phis = None
    E.loopspecs[0].inv = lambda E, s, k, e: [('a retry changes nothing', z3.And(u.con(s) == u.con(e), z3.Or(u.i32(s, SOCK) == u.i32(e, SOCK), u.i32(e, SOCK) < 0)))]
    def post(E, s, o):
        if not expect_ret(E, s, o): return
        ok = tob(o[1]); q = u.out(s); X = u.X
        E.prove(s, z3.Implies(ok, z3.And(b64(q.len) == u.L0 + u.W64, z3.Implies(z3.ULT(X, q.len), bv(q.at(X), 8) == z3.If(z3.ULT(X, u.L0), bv(u.out0.at(X), 8), bv(u.wr0.at(simp(X - u.L0)), 8))))), 'success means that the buffered bytes were sent')
        E.prove(s, z3.Implies(ok, z3.And(u.con(s) == 0, u.i32(s, SOCK) >= 0, u.i32(s, WRN) == 0, u.i32(s, RDP) == 0, u.i32(s, RDE) == 0)), 'the new socket starts with empty buffers')
        E.prove(s, u.con(s) == 0, 'not connected')
    u.call(E, 'shutdown', [], post)


FN = lambda *a: ['stream_socket::' + x for x in a]
PROOFS = [dict(name='send_all', src=SRC, fn=p_send_all, functions=['stream_socket::send_all', 'stream_socket::send', 'stream_socket::close']), dict(name='flush', src=SRC, fn=p_flush, functions=['stream_socket::flush']), dict(name='write', src=SRC, fn=p_write, functions=['stream_socket::write']),
          dict(name='getc', src=SRC, fn=p_getc, functions=FN('getc', 'fill_buf', 'inc_buf', 'buf_elem', 'recv')), dict(name='read from the buffer', src=SRC, fn=lambda E: p_read(E, False), functions=FN('read', 'recv')), dict(name='read beyond the buffer', src=SRC, fn=lambda E: p_read(E, True), functions=FN('read', 'recv')),
          dict(name='getline', src=SRC, fn=p_getline, functions=FN('getline')), dict(name='puts', src=SRC, fn=p_puts, functions=FN('puts')), dict(name='shutdown', src=SRC, fn=p_shutdown, functions=FN('shutdown', 'close', 'open'))]
HARNESS = [dict(src='c11.cpp', repo=['network/socket.cpp', 'network/dns.cpp', 'network/ipv4.cpp', 'concurrent/condition.cpp', 'concurrent/internal.cpp', 'concurrent/mutex.cpp', 'concurrent/rwmutex.cpp', 'concurrent/thread.cpp', 'system/syscall.cpp', 'system/time_util.cpp'], budget=5, bound='random histories of up to 25 reads, line reads, writes, flushes and reconnections on up to 30000 bytes per connection, over stand-ins for send, recv, connect and close that shorten, interrupt, fail and end transfers at random', asan=True, libs=['-lpthread'])]
