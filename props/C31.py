"""Edit distance and longest common subsequence: the table equals the defining recurrence, for strings of every length."""
from common import *
SRC = ['inst/c31.cpp']
LIM = 1 << 28
ASSUMPTIONS = ['the recurrences define the minimal number of edits and the maximal length of a common subsequence (Wagner-Fischer; Hirschberg)', 'std::vector<std::vector<int> > is a table of independent zero-initialised cells (C++ library contract); no allocation failure', 'sequences below 2^28 elements', 'longest_increasing_subsequence and element types other than char only by the bounded stand-in']
V32 = lambda x: z3.BitVecVal(x, 32)
lo = lambda x: z3.Extract(31, 0, x)


def adjacent(D, i, j, lcs):
    """neighbours of the cell (i-1, j-1) differ from it by at most one (never less for the common subsequence)"""
    d, u, l = D(i - 1, j - 1), D(i - 1, j), D(i, j - 1)
    return z3.And(d >= 0, d < (1 << 29), *[z3.And(x <= d + 1, x >= (d if lcs else d - 1), x >= 0, x < (1 << 29)) for x in (u, l)])


def lemma(E, lcs):
    """adjacency by induction over the table: d upper left, u above, l left of the cell; for smaller tables it holds"""
    st = State(); i, j = E.fresh('i'), E.fresh('j'); same = z3.Bool('same'); d, u, l = [E.fresh(x, 32) for x in 'dul']; mn = lambda p, q, c: z3.If(p < q if c else p > q, p, q)
    c = mn(d + z3.If(same, V32(0), V32(1)), mn(u, l, 1) + 1, 1) if not lcs else mn(d + z3.If(same, V32(1), V32(0)), mn(u, l, 0), 0)
    near = lambda x, y: z3.And(x <= y + 1, x >= (y if lcs else y - 1))      # x next to y in the row or column before it
    E.assume(st, z3.And(z3.ULT(i, LIM), z3.ULT(j, LIM), z3.ULT(0, i), z3.ULT(0, j)))
    bound = lambda x, a, b: z3.And(x >= 0, x <= lo(a) + lo(b))
    for f in (near(u, d), near(l, d), bound(d, i - 1, j - 1), bound(u, i - 1, j), bound(l, i, j - 1)): E.assume(st, f)
    E.prove(st, z3.And(near(c, u), near(c, l), bound(c, i, j)), 'adjacent cells: induction step'); v = E.fresh('edge', 32); E.assume(st, z3.And(v >= 0, v < LIM))
    E.prove(st, z3.And(near(v + 1, v), near(V32(0), V32(0)), bound(V32(0), V64(0), V64(0)), bound(lo(i), i, V64(0)), bound(V32(0), i, V64(0))), 'adjacent cells: first row and column'); E.npaths += 1


def table(E, lcs):
    st = with_globals(E); a, va = E.sym_str(st, 'a', LIM); b, vb = E.sym_str(st, 'b', LIM); n, m = b64(va.len), b64(vb.len); E.input_terms = [('a', ('seq', va)), ('b', ('seq', vb))]
    D = z3.Function('D', z3.BitVecSort(64), z3.BitVecSort(64), z3.BitVecSort(32)); X, Y = E.fresh('X'), E.fresh('Y'); E.assume(st, z3.And(z3.ULE(X, n), z3.ULE(Y, m)))
    rows = E.alloc(st, 1 << 40, 'rows'); zero = Seq(FunN(lambda i: 0), 1 << 62, 4, 'vec', next(E.cnt)); cells = Ptr(E.seqregion(st, zero, 'table'), 0)
    idx = {}; key = lambda i, j: add64(mul64(i, 1 << 30), j)
    def rowctor(E, s, p, ins): s.ghost['rowlen'] = b64(p[1])
    def tctor(E, s, p, ins):
        E.prove(s, z3.And(b64(p[1]) == n + 1, s.ghost['rowlen'] == m + 1), 'the table has a row for each prefix and a column for each prefix', 'pre')
    def row(E, s, p, ins): E.prove(s, z3.ULT(b64(p[1]), n + 1), 'row in bounds', 'memory'); i = simp(b64(p[1])); i = V64(i) if isint(i) else i; o = simp(i * 24); idx[o if isint(o) else o.get_id()] = (i, o); return Ptr(rows.r, o)
    def cell(E, s, p, ins):
        if not isinstance(p[0], Ptr) or p[0].r != rows.r: raise Unsupported('row of another table')
        i = idx[p[0].o if isint(p[0].o) else p[0].o.get_id()][0]; E.prove(s, z3.ULT(b64(p[1]), m + 1), 'column in bounds', 'memory'); return Ptr(cells.r, mul64(key(i, b64(p[1])), 4))
    def minmax(mx):
        def f(E, s, p, ins): x, y = [bv(E.loadw(s, q, 4), 32) for q in p[:2]]; t = E.alloc(s, 4, 'min'); E.storew(s, t, simp(z3.If(x < y, y, x) if mx else z3.If(y < x, y, x)), 4); return t
        return f
    E.local_models += [(r'(int const& )?std::min<int>', minmax(0)), (r'(int const& )?std::max<int>', minmax(1))]
    I, VV = r'std::vector<int, std::allocator<int>\s*>', r'std::vector<std::vector<int, std::allocator<int>\s*>, std::allocator<std::vector<int, std::allocator<int>\s*>\s*>\s*>'
    E.local_models += [(VV + r'::vector\(unsigned long', tctor), (I + r'::vector\(unsigned long', rowctor), (VV + r'::operator\[\]', row), (I + r'::operator\[\]', cell), (VV + '::~', nop), (I + '::~', nop), (r'std::allocator<.*::~?allocator', nop), (r'std::__new_allocator<.*::~?__new_allocator', nop)]
    T = lambda s, i, j: bv(s.mem[cells.r].seq.at(key(i, j)), 32)
    def unfold(i, j):
        d, u, l = D(i - 1, j - 1), D(i - 1, j), D(i, j - 1); same = bv(va.at(simp(i - 1)), 8) == bv(vb.at(simp(j - 1)), 8); mn = lambda p, q, c: z3.If(p < q if c else p > q, p, q)
        rec = mn(d + z3.If(same, V32(0), V32(1)), mn(u, l, 1) + 1, 1) if not lcs else mn(d + z3.If(same, V32(1), V32(0)), mn(u, l, 0), 0)
        return [D(i, V64(0)) == (V32(0) if lcs else lo(i)), D(V64(0), j) == (V32(0) if lcs else lo(j)), z3.Implies(z3.And(i != 0, j != 0), D(i, j) == rec)]
    # a cell is finished once its row is complete or the inner loop has passed it
    def fin(s, i, j): e = z3.Or(i == 0, j == 0); r = s.ghost['r']; c = s.ghost['c']; return z3.And(z3.ULE(i, n), z3.ULE(j, m), z3.Or(e, z3.ULT(i, r), z3.And(i == r, z3.ULT(j, c))))
    st.ghost['r'] = V64(0); st.ghost['c'] = V64(0); st.ghost['stage'] = 0
    # initialisation loops (edit distance): stage 0 fills column 0, stage 1 row 0; then the table loop
    nloops = 1 if lcs else 3
    def okinit(s, i, j, c0, r0): return z3.Implies(z3.And(z3.ULE(i, n), z3.ULE(j, m), z3.Or(z3.And(j == 0, z3.ULT(i, c0)), z3.And(i == 0, z3.ULT(j, r0)))), T(s, i, j) == (V32(0) if lcs else lo(z3.If(j == 0, i, j))))
    def order(E, s, fr, label):
        """the outermost loops of the function, in order of appearance"""
        return True
    heads = {}
    def isloop(which):
        def f(E, s, fr, label):
            if not re.search('edit_distance|longest_common', fr.f.dem): return False
            inner = not outermost(E, s, fr, label)
            if inner: return which == 'in'
            k = heads.setdefault(label, len(heads)); return which == ('tab' if k == nloops - 1 else k)
        return f
    def mk(which):
        def inv(E, s, k, e):
            k = b64(k); col, rw = (k, V64(0)) if which == 0 else (n + 1, k)
            return [('column and row of the empty prefix', okinit(s, X, Y, col, rw)), ('range', z3.ULE(k, (n if which == 0 else m) + 1))]
        def facts(E, s, k, e): k = b64(k); return [okinit(s, V64(0), V64(0), *( (k, V64(0)) if which == 0 else (n + 1, k)))]
        return LoopSpec(inv, facts, ['column loop', 'row loop'][which], isloop(which))
    done = lambda s, i, j: z3.Implies(fin(s, i, j), T(s, i, j) == D(i, j))
    def oinv(E, s, k, e): s.ghost['r'] = simp(b64(k) + 1); s.ghost['c'] = V64(1); return [('finished cells hold the recurrence', done(s, X, Y)), ('rows', z3.ULE(b64(k), n))]
    def ofacts(E, s, k, e): return unfold(X, Y)
    def iinv(E, s, k, e): s.ghost['c'] = simp(b64(k) + 1); return [('finished cells hold the recurrence', done(s, X, Y)), ('columns', z3.ULE(b64(k), m))]
    def ifacts(E, s, k, e):
        i = s.ghost['r']; j = simp(b64(k) + 1); return [done(s, simp(i - 1), simp(j - 1)), done(s, simp(i - 1), j), done(s, i, simp(j - 1)), z3.ULE(i, n)] + unfold(i, j) + [z3.Implies(z3.And(i != 0, j != 0, z3.ULE(i, n), z3.ULE(j, m)), adjacent(D, i, j, lcs))] + unfold(X, Y) + unfold(simp(i - 1), simp(j - 1)) + unfold(i, simp(j - 1)) + unfold(simp(i - 1), j)
    E.loopspecs = ([] if lcs else [mk(0), mk(1)]) + [LoopSpec(oinv, ofacts, 'row of the table', isloop('tab')), LoopSpec(iinv, ifacts, 'column of the table', isloop('in'))]
    for f in unfold(X, Y): E.assume(st, f)
    def post(E, s, o):
        if not expect_ret(E, s, o): return
        E.assume(s, z3.And(done(s, n, m), *unfold(n, m))); E.prove(s, bv(o[1], 32) == D(n, m), 'the value returned is that of the recurrence')
    run(E, st, E.func('^vp_lcs' if lcs else '^vp_edit'), [a, b], post)


PROOFS = [dict(name='lemma: adjacent cells, %s' % n, src=SRC, fn=lambda E, c=c: lemma(E, c), functions=[]) for n, c in (('edit distance', 0), ('common subsequence', 1))] + [dict(name='edit distance', src=SRC, fn=lambda E: table(E, 0), functions=['edit_distance']), dict(name='longest common subsequence', src=SRC, fn=lambda E: table(E, 1), functions=['longest_common_subsequence'])]
HARNESS = [dict(src='c31.cpp', repo=[], budget=4, bound='all pairs of binary words to lengths 5 and 4, random sequences to 24 (strings) and 40 (vectors) elements against the definitions; increasing subsequences of all lists to length 5 over five values and random lists to 60', asan=True)]
