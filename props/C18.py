"""Fenwick tree: representation invariant v[i] = S(i) - S((i&(i+1))-1) for the prefix sums S of the increments applied."""
from common import *
SRC = ['inst/c18.cpp']
NS = r'pfi::data::fenwick_tree<%s>::'
ASSUMPTIONS = ['queries and increments are made with indices 0 <= i < size (prefix queries also with negative indices)', 'element types int and long long (wrapping arithmetic); other types by instantiation of the same template']


def lo(i): return i & (i + 1)
def covers(i, k): return z3.And(lo(i) <= k, k <= i)


def setup(E, T, W):
    st = State()
    n = E.fresh('n', 32); E.assume(st, n >= 0)
    seq = Seq(ArrN(E.fresharr('v', 8 * W)), z3.ZeroExt(32, n), W, 'vector', next(E.cnt), None)
    t = E.alloc(st, 24, 'tree'); st.mem[t.r].cells[0] = (24, seq)
    return st, t, seq, n


def vec(E, st, t): return E.obj(st, Ptr(t.r, 0))
def sx(i): return z3.SignExt(32, i)


def index(init, v, a):
    """the loop variable that starts as the index a, and the others"""
    i = [x for x in v if isinstance(init[x], z3.BitVecRef) and init[x].eq(a)]
    if len(i) != 1: raise Unsupported('a loop over another index')
    return bv(v[i[0]], 32), [v[x] for x in v if x != i[0]]


def query(T, W):
    def p(E):
        st, t, seq, n = setup(E, T, W)
        S = z3.Function('S', z3.BitVecSort(32), z3.BitVecSort(8 * W))     # prefix sums, S(i) = 0 for i < 0
        E.assume(st, S(z3.BitVecVal(-1, 32)) == 0)
        def inv_at(i): return z3.Implies(z3.And(i >= 0, i < n), bv(seq.at(sx(i)), 8 * W) == S(i) - S(lo(i) - 1))
        a = E.fresh('a', 32)
        E.assume(st, a < n); E.assume(st, z3.Implies(a < 0, S(a) == 0)); E.assume(st, inv_at(a))
        E.assume(st, z3.Implies(a >= 0, z3.Implies(lo(a) - 1 < 0, S(lo(a) - 1) == 0)))
        E.input_terms = [('n', n), ('a', a)]
        f = E.func('^(%s )?' % T + NS % T + r'query\(int\)')

        def rec(E, st, ar, ins):
            b = bv(ar[1], 32)
            E.prove(st, b < a, 'recursive query is on a smaller index', 'termination')
            E.prove(st, b < n, 'recursive query is inside the tree', 'pre')
            E.assume(st, z3.Implies(b < 0, S(b) == 0))
            return S(b)
        E.local_models.append(((NS % T).replace('::', '::') + r'query\(int\)', rec))
        cu = []
        def phis(E, st, k, e, init, v, steps):      # a loop instead of the recursion: what was added so far plus the rest is the sum
            c, rest = index(init, v, a); cu[:] = [c]
            return [c < n] + [bv(x, 8 * W) + S(c) == S(a) for x in rest]
        def facts(E, st, k, e):
            if not cu: return []
            c = cu[0]; return [inv_at(c), z3.Implies(c < 0, S(c) == 0), z3.Implies(lo(c) - 1 < 0, S(lo(c) - 1) == 0)]
        E.loopspecs += [LoopSpec(lambda *x: [], facts, 'prefix loop', r'query\(int\)', phis)]

        def post(E, st, o):
            if not expect_ret(E, st, o): return
            E.prove(st, bv(o[1], 8 * W) == S(a), 'query(a) is the sum of the increments at indices <= a')
        run(E, st, f, [t, a], post)
    return p


def rangeq(T, W):
    def p(E):
        st, t, seq, n = setup(E, T, W)
        S = z3.Function('S', z3.BitVecSort(32), z3.BitVecSort(8 * W))
        a = E.fresh('a', 32); b = E.fresh('b', 32)
        E.assume(st, z3.And(0 <= a, a <= b, b < n))
        def q(E, st, ar, ins):
            E.prove(st, bv(ar[1], 32) < n, 'index inside the tree', 'pre'); return S(bv(ar[1], 32))
        E.local_models.append((NS % T + r'query\(int\)', q))

        def post(E, st, o):
            if not expect_ret(E, st, o): return
            E.prove(st, bv(o[1], 8 * W) == S(b) - S(a - 1), 'query(a,b) is the sum of the increments at indices a..b')
        run(E, st, E.func('^(%s )?' % T + NS % T + r'query\(int, int\)'), [t, a, b], post)
    return p


def increase(T, W):
    def p(E):
        st, t, seq, n = setup(E, T, W)
        k = E.fresh('k', 32); d = E.fresh('d', 8 * W)
        J = E.fresh('J', 32)
        E.assume(st, z3.And(0 <= k, 0 <= J, J < n)); E.input_terms = [('n', n), ('k', k), ('J', J), ('d', d)]

        def rec(E, st, ar, ins):
            k2 = bv(ar[1], 32); d2 = bv(ar[2], 8 * W)
            E.prove(st, k2 > k, 'recursive update is on a larger index', 'termination')
            s = vec(E, st, t)
            at = lambda i, s=s: simp(bv(s.at(i), 8 * W) + z3.If(covers(z3.Extract(31, 0, b64(i)), k2), d2, z3.BitVecVal(0, 8 * W)))
            st.mem[t.r] = st.mem[t.r].copy(); st.mem[t.r].cells[0] = (24, s.with_(n=FunN(at)))
            return None
        E.local_models.append((NS % T + r'increase\(int, .*\)', rec))
        def phis(E, st, kk, e, init, v, steps):     # a loop instead of the recursion
            c, rest = index(init, v, k); s = vec(E, st, t); g = lambda x: z3.If(covers(J, x), d, z3.BitVecVal(0, 8 * W))
            return [c >= 0, b64(s.len) == b64(seq.len), bv(s.at(sx(J)), 8 * W) + g(c) == bv(seq.at(sx(J)), 8 * W) + g(k)]
        E.loopspecs += [LoopSpec(lambda *x: [], None, 'update loop', r'increase\(int, ', phis)]

        def post(E, st, o):
            if not expect_ret(E, st, o): return
            s = vec(E, st, t)
            E.prove(st, b64(s.len) == b64(seq.len), 'size unchanged')
            E.prove(st, bv(s.at(sx(J)), 8 * W) == bv(seq.at(sx(J)), 8 * W) + z3.If(covers(J, k), d, z3.BitVecVal(0, 8 * W)), 'exactly the nodes whose block contains k grow by the increment')
            # hence the representation invariant is kept for the new prefix sums
            S = z3.Function('S', z3.BitVecSort(32), z3.BitVecSort(8 * W))
            S2 = lambda i: S(i) + z3.If(k <= i, d, z3.BitVecVal(0, 8 * W))
            s2 = st.copy()
            E.assume(s2, bv(seq.at(sx(J)), 8 * W) == S(J) - S(lo(J) - 1))
            E.prove(s2, bv(s.at(sx(J)), 8 * W) == S2(J) - S2(lo(J) - 1), 'node J holds the sum of its block after the update')
        run(E, st, E.func('^(void )?' + NS % T + r'increase\(int, '), [t, k, d], post)
    return p


def construct(T, W):
    def p(E):
        st = State(); n = E.fresh('n', 32); E.assume(st, n >= 0)
        t = E.alloc(st, 24, 'tree'); J = E.fresh('J', 64)

        def post(E, st, o):
            if not expect_ret(E, st, o): return
            s = vec(E, st, t)
            E.prove(st, b64(s.len) == z3.ZeroExt(32, n), 'size n')
            E.prove(st, z3.Implies(z3.ULT(J, b64(s.len)), bv(s.at(J), 8 * W) == 0), 'all nodes zero')
        run(E, st, E.func('^' + NS % T + r'fenwick_tree\(int\)'), [t, n], post)
    return p


PROOFS = []
for T, W in (('int', 4), ('long long', 8)):
    for nm, fn, f in (('query', query, 'query(int)'), ('range query', rangeq, 'query(int,int)'), ('increase', increase, 'increase'), ('construction', construct, 'fenwick_tree(int)')):
        PROOFS.append(dict(name='%s<%s>' % (nm, T), src=SRC, fn=fn(T, W), functions=['pfi::data::fenwick_tree<%s>::%s' % (T, f)]))
HARNESS = [dict(src='c18.cpp', repo=[], budget=4, bound='all sizes 0..40 with random histories, some sizes up to 5000')]
