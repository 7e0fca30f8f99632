"""Sparse matrices against the contract of the byte-aligned codes (C02): a row is the sequence of its (gap, value) tokens; the offset table gives every row its place in the file."""
from assoc import *
SRC = ['data/sparse_matrix/sparse_matrix.cpp']
ASSUMPTIONS = [ASSOC_ASSUME, 'prefix_code and byte of the encoder and decoder are inverse on one row, and seek(offset) followed by reads returns the row flushed at that offset (proved for the codes in C02)', 'columns of a row are strictly increasing and not negative (documented precondition), fewer than 2^30 elements per row', 'ofstream::write / ifstream::read transfer the bytes given or fail (C++ library contract)', 'the matrix file is shorter than 2^31 bytes']
NS = r'pfi::data::sparse_matrix::'
CODE = r'pfi::data::code::'
PRE, BYT = 1, 2


def tok(k, v): return z3.Concat(z3.BitVecVal(k, 32), bv(v, 32))


class Enc:
    """writer side: encoder object = tokens; the offset table records (size, number)"""
    def __init__(self, E, st):
        self.E = E; st.ghost['rows'] = ()
        def ctor(E, s, a, ins): E.setobj(s, a[0], Seq(ArrN(E.fresharr('tokens', 64)), 0, 8, 'buf'), 64)
        def push(k):
            def m(E, s, a, ins):
                v = bv(a[1], 32) if k == PRE else z3.ZeroExt(24, simp(z3.Extract(7, 0, bv(a[1], 8) if not isint(a[1]) and a[1].size() == 8 else bv(a[1], 32))) if not isint(a[1]) else z3.BitVecVal(a[1] & 255, 8))
                E.setobj(s, a[0], E.obj(s, a[0]).push(simp(tok(k, v))), 64)
            return m
        def flush(E, s, a, ins):
            n = E.fresh('row.bytes', 32); E.assume(s, n >= 0); s.ghost['flushed'] = s.ghost.get('flushed', ()) + ((E.obj(s, a[0]), n, a[1]),); E.setobj(s, a[0], Seq(ArrN(E.fresharr('tokens', 64)), 0, 8, 'buf'), 64); return n
        def row(E, s, a, ins): s.ghost['rows'] = s.ghost['rows'] + ((a[0], a[1], a[2]),)
        b = E.fresh('is_open', 1); self.open = b
        E.local_models += [(CODE + r'encoder::encoder\(', ctor), (CODE + r'encoder::~encoder', nop), (CODE + r'encoder::prefix_code\(', push(PRE)), (CODE + r'encoder::byte\(', push(BYT)), (CODE + r'encoder::flush\(std::', flush), (NS + r'matrix_offsets::append_row\(', row), (r'std::basic_ofstream<.*>::is_open\(\)', lambda E, s, a, ins: b)]
        self.this = E.alloc(st, 1024, 'writer'); self.offs = E.alloc(st, 256, 'offsets'); E.storew(st, Ptr(self.this.r, 512), self.offs, 8)


def append(E, kind):
    st = State(); e = Enc(E, st); X = E.fresh('X')
    if kind == 'vector':
        n = E.fresh('size'); E.assume(st, z3.ULT(n, 1 << 30)); v = Seq(ArrN(E.fresharr('row', 64)), n, 8, 'vec', next(E.cnt), None); p = E.alloc(st, 24, 'row'); E.setobj(st, p, v, 24)
        col = lambda i: z3.Extract(31, 0, bv(v.at(simp(i)), 64)); val = lambda i: z3.Extract(39, 32, bv(v.at(simp(i)), 64)); f = E.func('^' + NS + r'sparse_matrix_writer::append_row\(std::vector')
    else:
        M = Map(E, r'(.* )?std::map<int, unsigned char.*>', 4, {4: 1}, 32, width=48); M.iterable(r'std::_Rb_tree_(const_)?iterator<.*>'); p = E.alloc(st, 48, 'row'); m0 = M.fresh(st, 'row'); M.put(st, p, m0); n = m0.size; E.assume(st, z3.ULT(n, 1 << 30)); o = M.order(E, st, p)
        col = lambda i: o[1](simp(b64(i))); val = lambda i: m0.val(4, col(i)); f = E.func('^' + NS + r'sparse_matrix_writer::append_row\(std::map')
    E.input_terms = [('size', n)]
    prev = lambda i: z3.If(b64(i) == 0, z3.BitVecVal(-1, 32), col(b64(i) - 1))
    # strictly increasing, not negative: at X and at the loop counter
    def pre(i): return z3.Implies(z3.ULT(i, n), z3.And(col(i) > prev(i), col(i) >= 0))
    E.assume(st, pre(X)); row = lambda q, i: z3.And(bv(q.at(simp(i * 2)), 64) == tok(PRE, col(i) - prev(i)), bv(q.at(simp(i * 2 + 1)), 64) == tok(BYT, z3.ZeroExt(24, val(i))))
    def encs(s): return [c[1] for rid, r in s.mem.items() if isinstance(rid, int) and rid > p.r for c in r.cells.values() if isinstance(c[1], Seq) and c[1].ew == 8]
    def inv(E, s, k, entry):
        k = b64(k); q = encs(s)
        return [('at most the elements', z3.ULE(k, n))] + [('tokens so far', z3.And(b64(x.len) == k * 2, z3.Implies(z3.ULT(X, k), row(x, X)))) for x in q]
    def facts(E, s, k, entry): s.ghost['nodes'] = (); return [pre(b64(k))]
    def phis(E, s, k, entry, init, cur, steps):
        out = []
        for nm, x in cur.items():
            if nm in steps or isinstance(x, Ptr) or isint(x) and not isint(k): continue
            if (isint(x) or x.size() == 32): out.append(bv(x, 32) == prev(b64(k)))
        return out
    E.loopspecs = [LoopSpec(inv, facts, 'elements', phis=phis)]
    def post(E, s, o):
        if not expect_ret(E, s, o): return
        fl = s.ghost.get('flushed', ()); rows = s.ghost['rows']
        if not fl and not rows: E.prove(s, z3.Not(e.open), 'an open writer stores the row'); return
        E.prove(s, z3.BoolVal(len(fl) == 1 and len(rows) == 1), 'the row is stored once')
        if len(fl) != 1 or len(rows) != 1: return
        q, sz, os = fl[0]; E.prove(s, z3.BoolVal(isinstance(os, Ptr) and os.r == e.this.r), 'into the file of this writer')
        E.prove(s, b64(q.len) == n * 2, 'one gap and one value per element'); E.prove(s, z3.Implies(z3.ULT(X, n), row(q, X)), 'every element as its gap and its value, in order')
        E.prove(s, z3.And(bv(rows[0][1], 32) == sz, bv(rows[0][2], 32) == z3.Extract(31, 0, n)), 'the offset table gets the size in bytes and the number of elements')
    run(E, st, f, [e.this, p], post)


def lastcol(s, entry):
    """running column kept in memory: local ints that are -1 before the loop"""
    out = []
    for rid, r in entry.mem.items():
        for o, c in r.cells.items():
            if c[0] == 4 and isint(c[1]) and c[1] & 0xffffffff == 0xffffffff and rid in s.mem and o in s.mem[rid].cells: out.append(s.mem[rid].cells[o][1])
    return out


def get(E, kind):
    st = State(); X = E.fresh('X'); n = E.fresh('number'); row = E.fresh('row', 32); off = E.fresh('offset', 32); E.assume(st, z3.And(z3.ULT(n, 1 << 30), row >= 0, off >= 0)); E.input_terms = [('row', row), ('number', n)]
    C = E.fresharr('columns', 32); V = E.fresharr('values', 8); col = lambda i: z3.Select(C, b64(i)); prev = lambda i: z3.If(b64(i) == 0, z3.BitVecVal(-1, 32), col(b64(i) - 1)); g = E.alloc(st, 64, 'ghost'); E.storew(st, g, V64((1 << 64) - 1), 8)
    opened = E.fresh('is_open', 1); pos = lambda s: b64(E.loadw(s, g, 8))
    def seek(E, s, a, ins): E.prove(s, z3.And(bv(a[1], 32) == off, bv(a[2], 32) == 0 if len(a) > 2 else True), 'reading starts at the offset of the row'); E.storew(s, g, V64(0), 8)
    def rd(k):
        def m(E, s, a, ins):
            i = pos(s); j = z3.LShR(i, 1); E.prove(s, z3.And(i != -1, z3.ULT(j, n), (i & 1) == (0 if k == PRE else 1)), 'the token read is the next of the row', 'pre'); E.storew(s, g, simp(i + 1), 8)
            return simp(col(j) - prev(j)) if k == PRE else simp(z3.Select(V, j))
        return m
    def num(E, s, a, ins): E.prove(s, bv(a[1], 32) == row, 'the row asked for'); return simp(z3.Extract(31, 0, n))
    def offset(E, s, a, ins): E.prove(s, bv(a[1], 32) == row, 'the row asked for'); return off
    E.local_models += [(CODE + r'decoder::seek\(', seek), (CODE + r'decoder::prefix_code\(', rd(PRE)), (CODE + r'decoder::byte\(', rd(BYT)), (CODE + r'decoder::is_open', lambda E, s, a, ins: opened), (NS + r'matrix_offsets::num\(', num), (NS + r'matrix_offsets::offset\(', offset)]
    E.elemdescs = getattr(E, 'elemdescs', []) + [lambda E, t: (8, None) if re.match(r'std::pair<int, unsigned char>$', t) else None]
    this = E.alloc(st, 64, 'reader'); offs = E.alloc(st, 256, 'offsets'); E.storew(st, Ptr(this.r, OFFS(E)), offs, 8)
    pre = lambda i: z3.Implies(z3.ULT(i, n), z3.And(col(i) > prev(i), col(i) >= 0)); E.assume(st, pre(X))
    if kind == 'vector':
        p = E.alloc(st, 24, 'data'); old = Seq(ArrN(E.fresharr('old', 64)), E.fresh('oldlen'), 8, 'vec', next(E.cnt), None); E.assume(st, z3.ULT(old.len, 1 << 30)); E.setobj(st, p, old, 24)
        eq = lambda s, i: (lambda e: z3.And(z3.Extract(31, 0, e) == col(i), z3.Extract(39, 32, e) == z3.Select(V, i)))(bv(E.obj(s, p).at(simp(i)), 64))
        def inv(E, s, k, entry): k = b64(k); return [('at most the elements', z3.ULE(k, n)), ('position', pos(s) == k * 2), ('size', b64(E.obj(s, p).len) == n), ('elements so far', z3.Implies(z3.ULT(X, k), eq(s, X)))]
        def facts(E, s, k, entry): return [pre(b64(k))]
    else:
        rx, itrx, voff, w = {'map': (r'(.* )?std::map<int, unsigned char.*>', r'std::_Rb_tree_(const_)?iterator<.*>', 32, 48), 'umap': (r'(.* )?std::unordered_map<int, unsigned char.*>', r'std::__detail::_Node_(const_)?iterator<.*>', 8, 56)}[kind]
        M = Map(E, rx, 4, {4: 1}, voff, width=w); p = E.alloc(st, w, 'data'); old = M.fresh(st, 'old'); M.put(st, p, old); G = E.fresh('G', 32); ix = z3.Function('index!%d' % next(E.cnt), z3.BitVecSort(32), z3.BitVecSort(64)); E.input_terms.append(('column', G))
        # columns are distinct: ix(col(i)) == i
        inrow = lambda q, k: z3.And(z3.ULT(ix(q), k), col(ix(q)) == q)
        def inv(E, s, k, entry):
            k = b64(k); c = M.get(s, p)
            return [('at most the elements', z3.ULE(k, n)), ('position', pos(s) == k * 2), ('columns so far', c.has(G) == z3.Or(old.has(G), inrow(G, k))), ('values so far', z3.Implies(c.has(G), c.val(4, G) == z3.If(inrow(G, k), z3.Select(V, ix(G)), old.val(4, G))))]
        inv0 = inv
        def inv(E, s, k, entry): return [('running column', z3.BoolVal(True) if c is None else bv(c, 32) == prev(b64(k))) for c in lastcol(s, entry)] + inv0(E, s, k, entry)
        def facts(E, s, k, entry): M.flush(E, s, p); s.ghost['nodes'] = (); k = b64(k); return [pre(k), z3.Implies(z3.ULT(k, n), ix(col(k)) == k)]
    def phis(E, s, k, entry, init, cur, steps):
        out = []
        for nm, x in cur.items():
            if nm in steps or isinstance(x, Ptr): continue
            if isint(x) or x.size() == 32: out.append(bv(x, 32) == prev(b64(k)))
        return out
    E.loopspecs = [LoopSpec(inv, facts, 'elements', phis=phis)]
    def post(E, s, o):
        if not expect_ret(E, s, o): return
        if kind == 'vector':
            d = E.obj(s, p); E.prove(s, z3.Implies(opened, z3.And(b64(d.len) == n, z3.Implies(z3.ULT(X, n), eq(s, X)))), 'the row is the one written')
        else:
            c = M.get(s, p); E.prove(s, z3.Implies(opened, c.has(G) == z3.Or(old.has(G), inrow(G, n))), 'exactly the columns of the row are added'); E.prove(s, z3.Implies(z3.And(opened, inrow(G, n)), c.val(4, G) == z3.Select(V, ix(G))), 'with the values of the row')
            E.prove(s, z3.Implies(z3.And(c.has(G), z3.Not(inrow(G, n))), c.val(4, G) == old.val(4, G)), 'other columns keep their values')
    run(E, st, E.func('^' + NS + r'sparse_matrix_reader::get_row\(int, ' + {'vector': 'std::vector', 'map': 'std::map', 'umap': 'std::unordered_map'}[kind]), [this, row, p], post)


def OFFS(E): return 24


FN = lambda *a: ['sparse_matrix::' + x for x in a]
PROOFS = [dict(name='append_row ' + k, src=SRC, fn=lambda E, k=k: append(E, k), functions=FN('sparse_matrix_writer::append_row(%s)' % k)) for k in ('vector', 'map')]
PROOFS += [dict(name='get_row ' + k, src=SRC, fn=lambda E, k=k: get(E, k), functions=FN('sparse_matrix_reader::get_row(%s)' % k)) for k in ('vector', 'map', 'umap')]
HARNESS = [dict(src='c30.cpp', repo=['data/sparse_matrix/sparse_matrix.cpp', 'data/code/code.cpp', 'system/mmapper.cpp', 'system/endian_util.cpp', 'system/file.cpp', 'system/sysstat.cpp', 'system/syscall.cpp'], budget=4, bound='random matrices of up to 60 rows and 400 elements per row, gaps at every code-length boundary', asan=True, libs=['-lpthread'])]
