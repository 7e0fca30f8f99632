"""MT19937 against the reference recurrence for every seed; bounded integers; sampling."""
from assoc import *
SRC = ['math/random/mersenne_twister.cpp', 'inst/c24.cpp']
N, M = 624, 397
ASSUMPTIONS = ['IEEE-754 double arithmetic, round to nearest; multiplication is correctly rounded, hence monotone, and (1-2^-53)*x < x for normal x > 0', ASSOC_ASSUME, 'bounds are positive (next_int(a)) and a < b (next_int(a,b))']
def glob(E):
    E.local_models += [(r'atan$', lambda E, s, a, ins: z3.FP('atan', z3.Float64()))]      # the constant pi (not used here)
    return with_globals(E)


def B(x, w=32): return z3.BitVecVal(x, w)


def nxt(x, y, m):
    t = (x & 0x80000000) | (y & 0x7fffffff)
    return m ^ z3.LShR(t, 1) ^ z3.If(z3.Extract(0, 0, y) == 1, B(0x9908b0df), B(0))


def temper(y):
    y = y ^ z3.LShR(y, 11); y = y ^ ((y << 7) & 0x9d2c5680); y = y ^ ((y << 15) & 0xefc60000); return y ^ z3.LShR(y, 18)


def naming(E, rid):
    """give every word stored into the state a name; the definitions are kept aside so that each obligation speaks about one step only"""
    E.defs = {}; orig = E.storew
    def storew(st, p, v, w):
        if isinstance(p, Ptr) and p.r in rid and w == 4 and not isint(v) and v.num_args():
            c = z3.BitVec('w!%d' % next(E.cnt), 32); E.defs[c.get_id()] = (c, v); v = c
        return orig(st, p, v, w)
    E.storew = storew
    return orig


def cells(E, st, p):
    r = st.mem[p.r]
    if r.seq is not None: raise Unsupported('state array indexed symbolically')
    out = []
    for i in range(N):
        c = r.cells.get(4 * i)
        if c is None or c[0] != 4: raise Unsupported('state word %d' % i)
        out.append(bv(c[1], 32))
    c = r.cells.get(4 * N)
    if c is None or c[0] != 4 or not isint(c[1]): raise Unsupported('position in the block not determined')
    return out, signed(c[1], 32)


def dfn(E, c):
    """definition of a state word over the names of the words it was computed from"""
    return E.defs[c.get_id()][1] if c.get_id() in E.defs else c


def seeding(E):
    E.unroll = 1300
    st = glob(E); p = E.alloc(st, 4 * N + 4, 'mt'); seed = E.fresh('seed', 32); E.input_terms = [('seed', seed)]; naming(E, {p.r})
    def post(E, s, o):
        if not expect_ret(E, s, o): return
        W, i = cells(E, s, p)
        if i != N: raise Unsupported('the first block is not pending after construction')
        E.prove(s, dfn(E, W[0]) == seed, 'word 0 is the seed')
        for k in range(1, N): E.prove(s, dfn(E, W[k]) == 1812433253 * (W[k - 1] ^ z3.LShR(W[k - 1], 30)) + k, 'initial word %d follows the seeding recurrence' % k)
    run(E, st, E.func(r'^vp_mt_ctor\('), [p, seed], post)


def stream(E):
    E.unroll = 1300
    st0 = glob(E); X = [z3.BitVec('x!%d' % i, 32) for i in range(N)]; f = E.func(r'^vp_mt_next\('); p = E.alloc(st0, 4 * N + 4, 'mt'); r = st0.mem[p.r]; ids = set(); naming(E, ids)
    for i in range(N): E.storew(st0, Ptr(p.r, 4 * i), X[i], 4)
    ids.add(p.r)
    for t in range(N + 1):
        st = st0.copy(); E.storew(st, Ptr(p.r, 4 * N), t, 4)
        def post(E, s, o, t=t):
            if not expect_ret(E, s, o): return
            W, i = cells(E, s, p); y = X[t] if t < N else W[0]
            if all(W[k].eq(X[k]) for k in range(N)): E.prove(s, z3.BoolVal(t < N and i == t + 1), 'the position advances by one within the block')
            else:
                E.prove(s, z3.BoolVal(i == t + 1 - N and i >= 0), 'the position advances by one into the next block'); Z = X + W
                for k in range(N): E.prove(s, dfn(E, W[k]) == nxt(Z[k], Z[k + 1], Z[k + M]), 'new block: word %d follows the recurrence' % k)
            E.prove(s, bv(o[1], 32) == temper(y), 'the output is the tempered reference word')
        run(E, st, f, [p], post)


def gen_models(E):
    st = glob(E)
    def next_(E, s, a, ins): v = E.fresh('word', 32); s.ghost['drawn'] = s.ghost.get('drawn', ()) + (v,); return v
    E.local_models += [(r'pfi::math::random::mersenne_twister::next\(\)', next_), (r'pfi::math::random::mersenne_twister::mersenne_twister\(unsigned int\)', lambda E, s, a, ins: s.ghost.__setitem__('seeded', bv(a[1], 32)))]
    D = z3.Float64(); c1 = z3.FPVal(1 - 2.0 ** -53, D)
    def hook(E, s, op, a, b):
        if op != 'fmul' or z3.is_fp_value(z3.simplify(a)) or z3.is_fp_value(z3.simplify(b)): return None
        y = z3.FP('prod!%d' % next(E.cnt), D)
        for u, v in ((a, b), (b, a)):
            E.assume(s, z3.Implies(z3.And(u >= z3.FPVal(0, D), u <= c1, v >= z3.FPVal(1, D), v <= z3.FPVal(2.0 ** 1000, D)), z3.And(y >= z3.FPVal(0, D), y < v)))
        return y
    E.fphook = hook
    return st


def bounded(E):
    D = z3.Float64(); st0 = gen_models(E); a = E.fresh('a', 32); b = E.fresh('b', 32); E.input_terms = [('a', a), ('b', b)]
    def go(f, args, pre, spec, what):
        s = st0.copy(); p = E.alloc(s, 4096, 'random'); E.S.push()
        if pre is not None: E.assume(s, pre)
        def post(E, u, o):
            if expect_ret(E, u, o): E.prove(u, spec(u, o[1]), what)
        run(E, s, E.func('^%s\\(' % f), [p] + args, post); E.S.pop()
    go('vp_dbl', [], None, lambda u, r: z3.And(r >= z3.FPVal(0, D), r <= z3.FPVal(1 - 2.0 ** -53, D)), 'next_double() is in [0,1)')
    # callers use the contract of next_double proved above
    def nd(E, s, ar, ins):
        x = z3.FP('d!%d' % next(E.cnt), D); E.assume(s, z3.And(x >= z3.FPVal(0, D), x <= z3.FPVal(1 - 2.0 ** -53, D))); return x
    E.local_models += [(r'.*random<.*>::next_double\(\)', nd)]; E.mcache = {}
    for f in ('vp_int0', 'vp_op0'): go(f, [], None, lambda u, r: z3.And(z3.BoolVal(len(u.ghost.get('drawn', ())) == 1), bv(r, 32) == u.ghost.get('drawn', (bv(r, 32) + 1,))[0]), 'next_int() is the next output of the generator')
    for f in ('vp_int1', 'vp_op1'): go(f, [a], a != 0, lambda u, r: z3.ULT(bv(r, 32), a), 'next_int(a) is in [0,a)')
    for f in ('vp_int2', 'vp_op2'): go(f, [a, b], z3.ULT(a, b), lambda u, r: z3.And(z3.ULE(a, bv(r, 32)), z3.ULT(bv(r, 32), b)), 'next_int(a,b) is in [a,b)')
    s = st0.copy(); p = E.alloc(s, 4096, 'random')
    run(E, s, E.func(r'^vp_ctor\('), [p, a], lambda E, u, o: expect_ret(E, u, o) and E.prove(u, u.ghost.get('seeded', a + 1) == a, 'the generator is seeded with the given seed'))


RX = r'.*std::map<int, int.*>'


class GhostArr:
    def __init__(self, a): self.a = a
    def havoc(self, E): return GhostArr(z3.Array('inv!%d' % next(E.cnt), z3.BitVecSort(32), z3.BitVecSort(32)))


def calls(f, body, rx): return any(i.op in ('call', 'invoke') and re.search(rx, str(i.x) + str(i.a)) for b in body for i in f.blocks[b])


def without(E):
    st = glob(E); n = E.fresh('n', 32); k = E.fresh('k', 32); J = E.fresh('J', 32); K = E.fresh('K', 32); P = E.fresh('P', 32)
    E.input_terms = [('n', n), ('k', k)]
    mp = Map(E, RX, 4, {4: 4}, 32); mp.iterable(r'.*std::_Rb_tree_(const_)?iterator<.*>')
    G = E.alloc(st, 8, 'ghost inverse'); st.mem[G.r].cells[0] = (8, GhostArr(z3.Array('inv0', z3.BitVecSort(32), z3.BitVecSort(32))))
    def inv(s): return E.obj(s, G).a
    def themap(s):
        q = s.ghost.get('mm')
        if q is None: raise Unsupported('no map')
        return q
    def ctor(E, s, a, ins): s.ghost['mm'] = a[0]; mp.ctor(E, s, a, ins)
    E.local_models[:0] = [(RX + r'::map\(\)', ctor)]
    def F(m, p): return z3.If(m.has(p), m.val(4, p), p)
    inr = lambda x: z3.And(x >= 0, x < n)
    # permutation with inverse I: at position p, at value v
    def atp(m, I, p): return z3.Implies(inr(p), z3.And(inr(F(m, p)), z3.Select(I, F(m, p)) == p))
    def atv(m, I, v): return z3.Implies(inr(v), z3.And(inr(z3.Select(I, v)), F(m, z3.Select(I, v)) == v))
    def unchanged(s, m, I):      # the invariant of the shuffle loop may be instantiated only for the table it was stated about
        h = s.ghost.get('hdr')
        if h is None or not (h[0].eq(m.dom) and h[1].eq(m.vals[4]) and h[2].eq(I)): raise Unsupported('the table changed since the loop head')
    def rnd(E, s, a, ins):
        arg = bv(a[1], 32); E.prove(s, z3.And(arg > 0, arg <= n), 'the random draw is from a non-empty range', 'pre')
        r = E.fresh('draw', 32); E.assume(s, z3.ULT(r, arg)); i = n - arg; j = i + r
        m = mp.get(s, themap(s)); I = inv(s)
        unchanged(s, m, I)
        for p in (i, j, J, K, P): E.assume(s, permat(m, I, p))
        E.setobj(s, G, GhostArr(z3.Store(z3.Store(I, F(m, j), i), F(m, i), j)), 8)
        s.ghost['ij'] = (i, j)
        return r
    E.local_models += [(r'R::operator\(\)\(unsigned int\)', rnd)]
    def settle(s): q = themap(s); mp.flush(E, s, q); mp.drop(s, q); return mp.get(s, q)
    low = lambda m, x, lim: z3.Implies(z3.And(x >= 0, x < lim), m.has(x))
    def i32(kk): return z3.Extract(31, 0, b64(kk))
    def inv1(E, s, kk, e):
        m = settle(s) if E.mode != 'dry' or True else None; q = i32(kk)
        return [('counter', z3.And(z3.ULE(b64(kk), z3.ZeroExt(32, k))))] + [('entries so far are the identity', z3.And(m.has(x) == z3.And(x >= 0, x < q), z3.Implies(m.has(x), m.val(4, x) == x))) for x in (J, K, P)]
    FORALL = [J, K, P]
    def permat(m, I, p): return z3.And(atp(m, I, p), atv(m, I, p), low(m, p, k), z3.Implies(m.has(p), inr(p)))
    def inv2(E, s, kk, e):
        m = settle(s); I = inv(s)
        if isint(kk) and kk == 0:      # entry: the identity, known at every point by the first loop's invariant (arbitrary points)
            I = z3.Array('ident', z3.BitVecSort(32), z3.BitVecSort(32))
            for p in (J, K, P): E.assume(s, z3.Select(I, p) == p)
            E.setobj(s, G, GhostArr(I), 8)
        s.ghost['hdr'] = (m.dom, m.vals[4], I)
        return [('counter', z3.ULE(b64(kk), z3.ZeroExt(32, k)))] + [('the table is a permutation of the range with all of 0..k-1 present', permat(m, I, p)) for p in (J, K, P)]
    def inv3(E, s, kk, e):
        m = mp.get(s, themap(s)); I = inv(s); o = mp.order(E, s, themap(s)); vec = E.obj(s, s.ghost['res'], 'vector')
        out = [('position', z3.ULE(b64(kk), o[4])), ('result length', b64(vec.len) == z3.ZeroExt(32, k))]
        for x in (J, K):
            px = z3.Select(I, x)
            out.append(('visited entries are recorded', z3.Implies(z3.And(m.has(px), z3.ULT(o[2](px), b64(kk))), bv(vec.at(z3.SignExt(32, x)), 32) == px)))
        return out
    def facts3(E, s, kk, e):
        m = mp.get(s, themap(s)); I = inv(s); o = mp.order(E, s, themap(s)); fs = []; unchanged(s, m, I)
        for x in (J, K):      # the permutation at the arbitrary points and their images; every key has a position
            px = z3.Select(I, x); fs += [permat(m, I, x), permat(m, I, px), z3.Implies(m.has(px), z3.And(z3.ULT(o[2](px), o[4]), o[1](o[2](px)) == px))]
        cur = o[1](b64(kk)); fs += [permat(m, I, cur), permat(m, I, F(m, cur))]
        return fs
    def which(rx, no):
        def sel(E, s, fr, label):
            if 'sample_without_replacement' not in fr.f.dem: return False
            b = fr.f.loops()[label]
            return (rx is None or calls(fr.f, b, rx)) and not (no and calls(fr.f, b, no))
        return sel
    E.loopspecs += [LoopSpec(inv3, facts3, 'collection loop', which(r'Rb_tree_iterator.*pp', None)), LoopSpec(inv2, None, 'shuffle loop', which(r'_ZN1Rcl', None)), LoopSpec(inv1, None, 'initial loop', which(r'', r'_ZN1Rcl|Rb_tree_iterator.*pp'))]
    r = E.alloc(st, 1, 'r'); v = E.alloc(st, 24, 'res'); st.ghost['res'] = v
    E.setobj(st, v, Seq(ArrN(E.fresharr('old', 32)), E.fresh('oldlen'), 4, 'vec', next(E.cnt), None), 24)
    E.assume(st, z3.ULT(b64(E.obj(st, v).len), 1 << 31))
    E.assume(st, z3.And(J >= 0, J < k, K >= 0, K < k, J != K))
    def post(E, s, o):
        if not expect_ret(E, s, o): return
        ok = z3.And(n > 0, k >= 0, k <= n)
        E.prove(s, tob(o[1]) == ok, 'sampling succeeds exactly for 0 <= k <= n, n > 0')
        vec = E.obj(s, v, 'vector'); at = lambda x: bv(vec.at(z3.SignExt(32, x)), 32)
        E.prove(s, z3.Implies(ok, b64(vec.len) == z3.ZeroExt(32, k)), 'k values are returned')
        E.prove(s, z3.Implies(ok, inr(at(J))), 'every value is in the range'); E.prove(s, z3.Implies(ok, at(J) != at(K)), 'the values are distinct')
    run(E, st, E.func(r'^vp_without\('), [r, n, k, v], post)
    # k = 0 and invalid arguments (no J)
    

def without0(E):
    st = glob(E); n = E.fresh('n', 32); k = E.fresh('k', 32); E.assume(st, z3.Not(z3.And(k > 0, k <= n))); E.input_terms = [('n', n), ('k', k)]
    mp = Map(E, RX, 4, {4: 4}, 32); mp.iterable(r'.*std::_Rb_tree_(const_)?iterator<.*>')
    v = E.alloc(st, 24, 'res'); old = Seq(ArrN(E.fresharr('old', 32)), E.fresh('oldlen'), 4, 'vec', next(E.cnt), None); E.setobj(st, v, old, 24); E.assume(st, z3.ULT(b64(old.len), 1 << 31))
    def post(E, s, o):
        if not expect_ret(E, s, o): return
        ok = z3.And(n > 0, k == 0); E.prove(s, tob(o[1]) == ok, 'sampling fails for k < 0 or k > n'); E.prove(s, z3.Implies(ok, b64(E.obj(s, v, 'vector').len) == 0), 'no values for k = 0')
    run(E, st, E.func(r'^vp_without\('), [E.alloc(st, 1, 'r'), n, k, v], post)


def with_(E):
    st = glob(E); n = E.fresh('n', 32); k = E.fresh('k', 32); J = E.fresh('J', 32); E.input_terms = [('n', n), ('k', k)]
    def rnd(E, s, a, ins):
        arg = bv(a[1], 32); E.prove(s, arg != 0, 'the random draw is from a non-empty range', 'pre'); r = E.fresh('draw', 32); E.assume(s, z3.ULT(r, arg)); return r
    E.local_models += [(r'R::operator\(\)\(unsigned int\)', rnd)]
    v = E.alloc(st, 24, 'res'); E.setobj(st, v, Seq(ArrN(E.fresharr('old', 32)), E.fresh('oldlen'), 4, 'vec', next(E.cnt), None), 24); E.assume(st, z3.ULT(b64(E.obj(st, v).len), 1 << 31))
    def inv(E, s, kk, e):
        vec = E.obj(s, v, 'vector'); x = bv(vec.at(z3.SignExt(32, J)), 32)
        return [('length', b64(vec.len) == z3.ZeroExt(32, k)), ('counter', z3.ULE(b64(kk), z3.ZeroExt(32, k))), ('values so far', z3.Implies(z3.And(J >= 0, z3.ULT(z3.SignExt(32, J), b64(kk))), z3.And(x >= 0, x < n)))]
    E.loopspecs += [LoopSpec(inv, None, 'draw loop', r'sample_with_replacement')]
    def post(E, s, o):
        if not expect_ret(E, s, o): return
        ok = z3.And(n > 0, k >= 0); E.prove(s, tob(o[1]) == ok, 'sampling succeeds exactly for n > 0, k >= 0'); vec = E.obj(s, v, 'vector'); x = bv(vec.at(z3.SignExt(32, J)), 32)
        E.prove(s, z3.Implies(ok, b64(vec.len) == z3.ZeroExt(32, k)), 'k values are returned'); E.prove(s, z3.Implies(z3.And(ok, J >= 0, J < k), z3.And(x >= 0, x < n)), 'every value is in the range')
    run(E, st, E.func(r'^vp_with\('), [E.alloc(st, 1, 'r'), n, k, v], post)


P_ = 'pfi::math::random::'
PROOFS = [dict(name='seeding', src=SRC, fn=seeding, functions=[P_ + 'mersenne_twister::mersenne_twister', P_ + 'mersenne_twister::init']), dict(name='output stream', src=SRC, fn=stream, functions=[P_ + 'mersenne_twister::next', P_ + 'mersenne_twister::genrand_int32']),
          dict(name='bounded integers', src=SRC, fn=bounded, functions=[P_ + 'random::' + x for x in ('next_int', 'next_double', 'operator()', 'random(seed)')]), dict(name='sampling with replacement', src=SRC, fn=with_, functions=[P_ + 'sample_with_replacement']),
          dict(name='sampling without replacement', src=SRC, fn=without, functions=[P_ + 'sample_without_replacement']), dict(name='sampling without replacement, degenerate', src=SRC, fn=without0, functions=[P_ + 'sample_without_replacement'])]
HARNESS = [dict(src='c24.cpp', repo=['math/random/mersenne_twister.cpp'], budget=3, bound='output prefixes of 1300 to 5000 words against std::mt19937 for chosen and random seeds; random bounds and sample sizes up to 12')]
