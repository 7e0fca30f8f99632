"""Knuth-Morris-Pratt: the table holds the longest borders, and find returns the leftmost occurrence, for patterns and texts of every length."""
from common import *
SRC = ['inst/c25.cpp']
LIM = 1 << 30
B64 = z3.BitVecSort(64)
ASSUMPTIONS = ['patterns and texts below 2^30 characters, offset not negative', 'prefix and border lemmas: a prefix of a match is a match; if q[0..t) matches at x then q[0..b) matches at x+t-b exactly when b is a border length of q[0..t); borders of borders are borders (instantiated sequence lemmas)', 'element types other than char and the Aho-Corasick automaton only by the bounded stand-in']
SX = lambda x: z3.SignExt(32, bv(x, 32))


def setup(E, n, ok=True):
    st = with_globals(E); k = E.alloc(st, 56, 'kmp'); vq = Seq(ArrN(E.fresharr('query', 8)), E.fresh('query.len'), 1, 'str', next(E.cnt)); m = b64(vq.len); E.assume(st, z3.ULT(m, LIM))
    B = z3.Function('B', B64, B64, z3.BoolSort())                 # B(t, b): q[0..b) is a suffix of q[0..t)
    return st, k, vq, m, B


def loopvars(cur, w=32): return {n: bv(v, w) for n, v in cur.items() if not isinstance(v, Ptr) and not z3.is_bool(v) and z3.is_bv(bv(v, w)) and bv(v, w).size() == w}


def inner(E, s, fr, label): return re.search('kmp', fr.f.dem) is not None and (not outermost(E, s, fr, label) or any(f.lctx for f in s.frames[:-1]))


def find(E):
    st, k, vq, m, B = setup(E, 0); E.setobj(st, Ptr(k.r, 0), vq.with_(kind='str', gen=next(E.cnt)), 32); nx = Seq(ArrN(E.fresharr('next', 32)), m, 4, 'vector', next(E.cnt), None); E.setobj(st, Ptr(k.r, 32), nx, 24)
    t_, vt = E.sym_str(st, 'text', LIM); n = b64(vt.len); off = E.fresh('offset', 32); E.assume(st, off >= 0); o0 = SX(off); E.input_terms = [('query', ('seq', vq)), ('text', ('seq', vt)), ('offset', off)]
    # M(i, l): the first l characters of the pattern lie in the text just before position i
    M = z3.Function('M', B64, B64, z3.BoolSort()); P = E.fresh('P'); E.assume(st, z3.And(z3.ULT(P, LIM), z3.ULE(o0, P))); occ = z3.And(z3.ULE(P + m, n), M(P + m, m)); E.assume(st, m != 0)
    q = lambda i: bv(vq.at(simp(i)), 8); t = lambda i: bv(vt.at(simp(i)), 8); 
    def at(i, v):
        """instances of the lemmas and of the table's contract for l characters matched before position i"""
        l = SX(v); NN = SX(nx.at(simp(SX(bv(v, 32) - 1)))); b = i - P
        fs = [M(i, V64(0)), M(i + 1, V64(0)), z3.Implies(z3.ULT(l, m), M(i + 1, l + 1) == z3.And(M(i, l), t(i) == q(l))), z3.Implies(z3.And(z3.UGT(l, 0), z3.ULE(l, m)), z3.And(NN >= 0, NN < l, B(l, NN), z3.Implies(z3.And(z3.ULT(b, l), B(l, b)), z3.ULE(b, NN)))),
              z3.Implies(z3.And(M(i, l), z3.ULT(NN, l)), M(i, NN) == B(l, NN)), z3.Implies(z3.And(M(i, l), z3.ULE(b, l)), M(i, b) == B(l, b)), z3.Implies(z3.And(occ, z3.ULE(b, m)), M(i, b)), z3.Implies(z3.And(occ, z3.ULT(b, m)), t(i) == q(b))]
        return fs
    def good(i, l): return [z3.And(l >= 0, l < m, z3.ULE(l, i - o0), z3.ULE(o0, i)), M(i, l), z3.Implies(occ, z3.UGT(P + m, i)), z3.Implies(occ, z3.Or(z3.ULT(i, P), z3.ULE(i - P, l)))]
    pos = lambda kk: o0 + b64(kk)
    def tvar(cur, steps): r = [v for x, v in loopvars(cur).items() if x not in steps]; return r
    def ophis(E, s, kk, e, init, cur, steps):
        v = tvar(cur, steps)
        if len(v) != 1: raise Unsupported('loop variables of find')
        for f in at(pos(kk), v[0]): E.assume(s, f)
        return good(pos(kk), SX(v[0]))
    def iphis(E, s, kk, e, init, cur, steps):
        v = list(loopvars(cur).values())
        if len(v) != 1: raise Unsupported('loop variables of find')
        for f in at(s.ghost['i'], v[0]): E.assume(s, f)
        return good(s.ghost['i'], SX(v[0]))
    outer = lambda E, s, fr, label: outer_of('kmp.*find')(E, s, fr, label) and not any(f.lctx for f in s.frames[:-1])
    E.loopspecs = [LoopSpec(lambda E, s, kk, e: (s.ghost.__setitem__('i', pos(kk)), [('within the text', z3.Or(z3.ULE(pos(kk), n), z3.And(z3.UGT(o0, n), b64(kk) == 0)))])[1], None, 'text loop', outer, ophis), LoopSpec(lambda E, s, kk, e: [], None, 'fall back loop', inner, iphis)]
    for f in at(o0, z3.BitVecVal(0, 32)): E.assume(st, f)
    def post(E, s, o):
        if not expect_ret(E, s, o): return
        r = b64(o[1]); none = r == V64((1 << 64) - 1); E.prove(s, z3.Implies(occ, z3.And(z3.Not(none), z3.ULE(r, P))), 'no occurrence is missed'); E.prove(s, z3.Or(none, z3.And(z3.ULE(o0, r), z3.ULE(r + m, n), M(r + m, m))), 'the position returned is an occurrence')
    run(E, st, E.func('^vp_find'), [k, t_, off], post)


def empty(E):
    st, k, vq, m, B = setup(E, 0); E.assume(st, m == 0); E.setobj(st, Ptr(k.r, 0), cstring(b'').with_(kind='str', gen=next(E.cnt)), 32); E.setobj(st, Ptr(k.r, 32), Seq(ConstN([], 32), 0, 4, 'vector', next(E.cnt), None), 24); t_, vt = E.sym_str(st, 'text', LIM); off = E.fresh('offset', 32); E.assume(st, off >= 0); E.input_terms = [('query', ('seq', cstring(b''))), ('text', ('seq', vt)), ('offset', off)]
    def post(E, s, o):
        if expect_ret(E, s, o): E.prove(s, b64(o[1]) == z3.If(z3.ULE(SX(off), b64(vt.len)), SX(off), V64((1 << 64) - 1)), 'the empty pattern occurs everywhere in the text')
    run(E, st, E.func('^vp_find'), [k, t_, off], post)


def table(E):
    st, k, vq, m, B = setup(E, 0); qa = E.alloc(st, 32, 'argument'); E.setobj(st, qa, vq.with_(kind='str', gen=next(E.cnt)), 32); E.input_terms = [('query', ('seq', vq))]
    q = lambda i: bv(vq.at(simp(i)), 8); T0, b0 = E.fresh('T'), E.fresh('b'); E.assume(st, z3.And(z3.UGE(T0, 1), z3.ULE(T0, m), z3.ULT(b0, T0)))
    N = lambda s, l: SX(vget(E, s, Ptr(k.r, 32)).at(simp(l - 1)))
    def spec(s, l, b): return z3.And(N(s, l) >= 0, N(s, l) < l, B(l, N(s, l)), z3.Implies(z3.And(z3.ULT(b, l), B(l, b)), z3.ULE(b, N(s, l))))
    def done(s, i, l, b): return z3.Implies(z3.And(z3.UGE(l, 1), z3.ULE(l, i)), spec(s, l, b))
    def at(s, i, l):
        """instances for prefix length i (so far) and candidate border l"""
        c = b0 - 1; fs = [B(i, V64(0)), B(i + 1, V64(0)), B(l, V64(0)), B(T0, V64(0)), z3.Implies(z3.And(z3.ULT(l, i)), B(i + 1, l + 1) == z3.And(B(i, l), q(i) == q(l))), z3.Implies(z3.And(z3.UGE(b0, 1), z3.ULT(c, i)), B(i + 1, b0) == z3.And(B(i, c), q(i) == q(c)))]
        fs += [done(s, i, l, c), done(s, i, i, c), z3.Implies(z3.And(B(i, l), z3.ULE(c, l), z3.UGE(b0, 1)), B(i, c) == B(l, c)), z3.Implies(z3.And(B(i, l), z3.ULT(l, i), z3.UGT(l, 0), z3.ULE(N(s, l), l), N(s, l) >= 0), B(i, N(s, l)) == B(l, N(s, l)))]
        return fs
    border = lambda i: z3.And(T0 == i + 1, z3.UGE(b0, 1), B(T0, b0))
    pos = lambda kk: b64(kk) + 1
    def one(cur, steps):
        v = [x for nm, x in loopvars(cur).items() if nm not in steps]
        if len(v) != 1: raise Unsupported('loop variables of kmp')
        return SX(v[0])
    def oinv(E, s, kk, e): v = vget(E, s, Ptr(k.r, 32)); s.ghost['i'] = pos(kk); return [('table so far', done(s, pos(kk), T0, b0)), ('size of the table', z3.And(b64(v.len) == m, z3.ULE(pos(kk), m)))]
    def ophis(E, s, kk, e, init, cur, steps):
        t = one(cur, steps); i = pos(kk)
        for f in at(s, i, t): E.assume(s, f)
        return [z3.And(t >= 0, t < i, t == N(s, i))]
    def iphis(E, s, kk, e, init, cur, steps):
        v = list(loopvars(cur).values())
        if len(v) != 1: raise Unsupported('loop variables of kmp')
        t = SX(v[0]); i = s.ghost['i']
        for f in at(s, i, t): E.assume(s, f)
        return [z3.And(t >= 0, t < i, B(i, t), z3.Implies(border(i), z3.ULE(b0 - 1, t)))]
    E.loopspecs = [LoopSpec(oinv, None, 'table loop', outer_of('kmp'), ophis), LoopSpec(lambda E, s, kk, e: [], None, 'fall back loop', inner, iphis)]
    E.assume(st, z3.And(B(V64(1), V64(0)), B(T0, V64(0)), *[z3.Implies(T0 == 1, z3.BoolVal(True))]))
    def post(E, s, o):
        if not expect_ret(E, s, o): return
        v = vget(E, s, Ptr(k.r, 32)); qq = sget(E, s, k); J = E.fresh('J'); E.prove(s, z3.And(b64(v.len) == m, b64(qq.len) == m), 'pattern and table have the length of the argument'); E.prove(s, z3.Implies(z3.ULT(J, m), bv(qq.at(J), 8) == q(J)), 'the pattern is kept'); E.prove(s, spec(s, T0, b0), 'each entry is the length of the longest border')
    run(E, st, E.func('^vp_ctor'), [k, qa], post)


PROOFS = [dict(name='search', src=SRC, fn=find, functions=['kmp::find']), dict(name='search for the empty pattern', src=SRC, fn=empty, functions=['kmp::find']), dict(name='border table', src=SRC, fn=table, functions=['kmp::kmp'])]
HARNESS = [dict(src='c25.cpp', repo=['data/string/aho_corasick.cpp'], budget=5, bound='all binary patterns to length 5 against texts to length 8, random patterns over 2, 3 and 256 characters, word sets of up to about 200 distinct non-empty words without NUL and their suffixes, texts to 200 characters, all against std::string::find', asan=True)]
