"""Binary archives: the scalar codecs are exact little-endian, and every container is its 32-bit count followed by its elements, whatever the element's codec."""
from assoc import *
from streams import *
SRC = ['inst/c20.cpp', 'system/endian_util.cpp']
ASSUMPTIONS = ['istream::read delivers the next bytes or fails and clears good(); ostream::write appends its bytes (C++ library contract)', 'containers behave as sequences and finite maps (C++ library contract, no allocation failure)', 'element types obey the contract of their own codec (proved here for the scalar types)', 'containers hold fewer than 2^32 elements']
MASK = (1 << 64) - 1


def stream(E, st, name):
    s = E.alloc(st, 256, name); vt = E.alloc(st, 64, 'vtable'); st.mem[vt.r].cells[0] = (8, 0); st.mem[s.r].cells[0] = (8, Ptr(vt.r, 24)); return s


def at(p, o): return Ptr(p.r, add64(p.o, o))


def stream_models(E):
    def write(E, s, a, ins):
        n = conc(a[2])
        if not isint(n): raise Unsupported('write of a symbolic length')
        q = E.obj(s, at(a[0], 64), 'stream contents')
        for i in range(n): q = q.push(bv(E.loadw(s, at(a[1], i), 1), 8))
        E.setobj(s, at(a[0], 64), q, 64); return a[0]
    def read(E, s, a, ins):
        n = conc(a[2])
        if not isint(n): raise Unsupported('read of a symbolic length')
        q = E.obj(s, at(a[0], 64), 'stream contents'); pos = b64(E.loadw(s, at(a[0], 128), 8)); good = bv(E.loadw(s, at(a[0], 136), 8), 64) != 0
        ok = z3.And(good, z3.ULE(pos + n, b64(q.len)))
        def yes(E, s):
            for i in range(n): E.storew(s, at(a[1], i), bv(q.at(simp(pos + i)), 8), 1)
            E.storew(s, at(a[0], 128), simp(pos + n), 8); return a[0]
        def no(E, s):
            for i in range(n): E.storew(s, at(a[1], i), E.fresh('junk', 8), 1)
            E.storew(s, at(a[0], 136), V64(0), 8); return a[0]
        return Outcomes([(ok, yes), (z3.Not(ok), no)])
    def good(E, s, a, ins): return simp(bv(E.loadw(s, at(a[0], 136), 8), 64) != 0)
    E.local_models += [(r'std::(basic_)?istream.*::read\(char\*, long\)', read), (r'std::(basic_)?ostream.*::write\(char const\*, long\)', write), (r'std::basic_ios<.*>::good\(\) const', good)]


WID = dict(bool=1, char=1, schar=1, uchar=1, short=2, ushort=2, int=4, uint=4, long=8, ulong=8, llong=8, ullong=8, float=4, double=8)


def scalar(E, n):
    W = WID[n]; fp = n in ('float', 'double'); stream_models(E)
    st = with_globals(E); v = E.fresh('value', 8 * W); val = E.alloc(st, W, 'value'); E.storew(st, val, v, W); E.input_terms = [('value', v)]
    if n == 'bool': E.assume(st, z3.ULE(v, 1))
    if fp:
        f = z3.fpBVToFP(v, z3.FPSort(8, 24) if W == 4 else z3.FPSort(11, 53)); E.assume(st, z3.Not(z3.fpIsNaN(f))); st.mem[val.r].cells[0] = (W, f)
    byt = lambda i: z3.Extract(8 * i + 7, 8 * i, v)
    os = stream(E, st, 'os'); old = Seq(ArrN(E.fresharr('old', 8)), E.fresh('oldlen'), 1, 'os'); E.assume(st, z3.ULT(old.len, 1 << 40)); E.setobj(st, at(os, 64), old, 64); E.storew(st, at(os, 136), V64(1), 8); X = E.fresh('X'); L = old.len
    def wpost(E, s, o):
        if not expect_ret(E, s, o): return
        q = E.obj(s, at(os, 64)); E.prove(s, b64(q.len) == L + W, 'exactly the width of the type is written')
        for i in range(W): E.prove(s, bv(q.at(simp(L + i)), 8) == byt(i), 'byte %d is the %d-th least significant' % (i, i))
        E.assume(s, z3.ULT(X, L)); E.prove(s, bv(q.at(X), 8) == bv(old.at(X), 8), 'earlier output is kept')
    run(E, st.copy(), E.func('^vp_w_%s\\(' % n), [os, val], wpost)
    # reading
    is_ = stream(E, st, 'is'); q = Seq(ArrN(E.fresharr('input', 8)), E.fresh('inlen'), 1, 'os'); pos = E.fresh('pos'); g = E.fresh('good'); E.assume(st, z3.And(z3.ULT(q.len, 1 << 40), z3.ULE(pos, q.len)))
    E.setobj(st, at(is_, 64), q, 64); E.storew(st, at(is_, 128), pos, 8); E.storew(st, at(is_, 136), g, 8)
    if n == 'bool': E.assume(st, z3.ULE(bv(q.at(pos), 8), 1))
    t0 = E.fresh('target', 8 * W); tgt = E.alloc(st, W, 'target')
    if n == 'bool': E.assume(st, z3.ULE(t0, 1))
    if fp: ft = z3.fpBVToFP(t0, f.sort()); st.mem[tgt.r].cells[0] = (W, ft)
    else: E.storew(st, tgt, t0, W)
    def rpost(E, s, o):
        if not expect_ret(E, s, o): return
        ok = z3.And(g != 0, z3.ULE(pos + W, q.len)); r = tob(o[1])
        r = z3.BoolVal(r) if isinstance(r, bool) else r; E.prove(s, r == ok, 'the archive is good exactly if the bytes were there')
        bs = [bv(q.at(simp(pos + i)), 8) for i in range(W)]; le = z3.Concat(*reversed(bs)) if W > 1 else bs[0]; got = E.loadw(s, tgt, W)
        if fp: 
            got = s.mem[tgt.r].cells[0][1]; got = got if z3.is_fp(got) else z3.fpBVToFP(bv(got, 8 * W), f.sort()); want = z3.fpBVToFP(le, f.sort())
            E.prove(s, z3.Implies(ok, got == want), 'the value is the little-endian one'); E.prove(s, z3.Implies(z3.Not(ok), got == ft), 'a failed read leaves the target')
        else: got = bv(got, 8 * W); E.prove(s, z3.Implies(ok, got == le), 'the value is the little-endian one'); E.prove(s, z3.Implies(z3.Not(ok), got == t0), 'a failed read leaves the target')
        E.prove(s, z3.Implies(ok, b64(E.loadw(s, at(is_, 128), 8)) == pos + W), 'exactly the width of the type is consumed')
    run(E, st, E.func('^vp_r_%s\\(' % n), [is_, tgt], rpost)


# ---- containers: the archive is a sequence of tokens, one per scalar or element written; a token carries its type, so a read of another type than the one written fails its precondition
TAGS = {'unsigned int': 1, 'vpc::Elem': 2, 'int': 3, 'char': 4, 'unsigned short': 5, 'unsigned char': 6}
WIDS = {'unsigned int': 4, 'vpc::Elem': 4, 'int': 4, 'char': 1, 'unsigned short': 2, 'unsigned char': 1}
tok = lambda t, v: z3.ZeroExt(64 - v.size(), v) | (TAGS[t] << 40)


class Arch:
    """token archive with symbolic content and position"""
    def __init__(self, E, st, name):
        self.E = E; self.p = E.alloc(st, 256, name); self.q0 = Seq(ArrN(E.fresharr(name, 64)), E.fresh(name + '.len'), 8, 'tokens'); self.pos0 = E.fresh(name + '.pos')
        E.assume(st, z3.And(z3.ULT(self.q0.len, 1 << 40), z3.ULE(self.pos0, self.q0.len))); E.setobj(st, at(self.p, 64), self.q0, 64); E.storew(st, at(self.p, 128), self.pos0, 8)
    def q(self, s): return self.E.obj(s, at(self.p, 64))
    def pos(self, s): return b64(self.E.loadw(s, at(self.p, 128), 8))


def codecs(E):
    """contracts of the element codecs"""
    for t, g in TAGS.items():
        def w(E, s, a, ins, t=t): 
            v = bv(E.loadw(s, a[1], WIDS[t]), 8 * WIDS[t]) if isinstance(a[1], Ptr) else bv(a[1], 8 * WIDS[t])
            q = E.obj(s, at(a[0], 64), 'archive'); E.setobj(s, at(a[0], 64), q.push(simp(tok(t, v))), 64)
        def r(E, s, a, ins, t=t):
            q = E.obj(s, at(a[0], 64), 'archive'); p = b64(E.loadw(s, at(a[0], 128), 8)); x = bv(q.at(simp(p)), 64); v = z3.Extract(8 * WIDS[t] - 1, 0, x)
            E.prove(s, z3.And(z3.ULT(p, b64(q.len)), x == tok(t, v)), 'a value of the type written is read', 'pre')
            E.storew(s, a[1], simp(v), WIDS[t]); E.storew(s, at(a[0], 128), simp(p + 1), 8)
        E.local_models += [(r'.*serialize\(pfi::data::serialization::binary_oarchive&, %s&?\)' % t, w), (r'.*serialize\(pfi::data::serialization::binary_iarchive&, %s&\)' % t, r)]
    def mn(E, s, a, ins):
        x, y = [b64(E.loadw(s, q, 8)) for q in a[:2]]; t = E.alloc(s, 8, 'min'); E.storew(s, t, simp(z3.If(z3.ULT(y, x), y, x)), 8); return t
    E.local_models += [(r'(.* )?std::min<unsigned long>', mn)]


def list_models(E):
    """std::list with its iterators as positions"""
    L = r'std::__cxx11::list<.*>::'
    def where(E, s, p):
        key = ('list', p.r, p.o)
        if key not in s.ghost: s.ghost[key] = E.region(s, None, 'positions'); s.ghost[('of', s.ghost[key])] = p
        return s.ghost[key]
    def begin(E, s, a, ins): return Ptr(where(E, s, a[0]), 0)
    def end(E, s, a, ins): return Ptr(where(E, s, a[0]), vget(E, s, a[0]).len)
    def inc(E, s, a, ins):
        it = E.loadw(s, a[0], 8); v = vget(E, s, s.ghost[('of', it.r)]); E.prove(s, z3.ULT(b64(it.o), b64(v.len)), 'an iterator at the end is not incremented', 'pre'); E.storew(s, a[0], Ptr(it.r, add64(it.o, 1)), 8); return a[0]
    def deref(E, s, a, ins):
        it = E.loadw(s, a[0], 8); p = s.ghost[('of', it.r)]; v = vget(E, s, p); E.prove(s, z3.ULT(b64(it.o), b64(v.len)), 'an iterator at the end is not dereferenced', 'pre'); return E.dataptr(s, p, v, mul64(it.o, stride(v)))
    def size(E, s, a, ins): return vget(E, s, a[0]).len
    def resize(E, s, a, ins):
        v = vget(E, s, a[0]); n = v.n
        z = zeroelem(E, v); vset(E, s, a[0], v.with_(n=CatN(v.n, v.len, FunN(lambda i: z)), len=a[1]))
    def push(E, s, a, ins): v = vget(E, s, a[0]); vset(E, s, a[0], v.push(elemval(E, s, v, a[1])))
    def clear(E, s, a, ins): v = vget(E, s, a[0]); vset(E, s, a[0], v.with_(len=0))
    E.local_models += [(L + r'c?begin\(', begin), (L + r'c?end\(', end), (L + r'size\(', size), (L + r'resize\(unsigned long\)', resize), (L + r'push_back\(', push), (L + r'clear\(', clear), (r'std::_List_(const_)?iterator<.*>::operator\+\+\(\)', inc), (r'std::_List_(const_)?iterator<.*>::operator\*\(\) const', deref)]


def seqval(E, st, kind, name):
    """a container object of arbitrary contents"""
    n = E.fresh(name + '.len'); E.assume(st, z3.ULT(n, 1 << 32))
    if kind == 'string':
        p = E.alloc(st, 32, name); v = Seq(ArrN(E.fresharr(name, 8)), n, 1, 'str', next(E.cnt)); E.setobj(st, p, v, 32); return p, v
    ew, x = elemdesc(E, 'vpc::Elem'); v = Seq(x['havoc'](E, name), n, ew, kind, next(E.cnt), x); p = E.alloc(st, {'vector': 24, 'deque': 80, 'list': 24}[kind], name); E.setobj(st, p, v, {'vector': 24, 'deque': 80, 'list': 24}[kind]); return p, v


def first(x): return x[0] if isinstance(x, (list, tuple, dict)) else x      # an empty container has no content: any value does


def sequence(E, kind):
    codecs(E); list_models(E); t = 'char' if kind == 'string' else 'vpc::Elem'
    el = lambda v, i: tok(t, bv(v.at(i), 8)) if kind == 'string' else tok(t, bv(first(v.at(i)), 32))
    cur = lambda s, p: E.obj(s, p, 'container')
    # writing appends the count and the elements
    st = with_globals(E); ar = Arch(E, st, 'out'); p, v = seqval(E, st, kind, 'v'); X = E.fresh('X'); L = ar.q0.len; n = b64(v.len); E.input_terms = [('size', n)]
    def winv(E, s, k, e):
        k = b64(k); q = ar.q(s)
        return [('one token per element', b64(q.len) == L + 1 + k), ('elements so far', z3.Implies(z3.ULT(X, k), bv(q.at(simp(L + 1 + X)), 64) == el(v, X))), ('count', bv(q.at(simp(L)), 64) == tok('unsigned int', z3.Extract(31, 0, n))), ('earlier output', z3.Implies(z3.ULT(X, L), bv(q.at(X), 64) == bv(ar.q0.at(X), 64))), ('at most the elements', z3.ULE(k, n)), ('the container is not changed', z3.And(b64(cur(s, p).len) == n, z3.Implies(z3.ULT(X, n), el(cur(s, p), X) == el(v, X))))]
    def wf(E, s, k, e): return [z3.Implies(z3.ULT(b64(k), n), el(cur(s, p), simp(b64(k))) == el(v, simp(b64(k))))]
    E.loopspecs = [LoopSpec(winv, wf, 'elements written', outer_of('serialize'))]
    def wpost(E, s, o):
        if not expect_ret(E, s, o): return
        q = ar.q(s); E.prove(s, b64(q.len) == L + 1 + n, 'the archive grows by the count and the elements'); E.prove(s, bv(q.at(simp(L)), 64) == tok('unsigned int', z3.Extract(31, 0, n)), 'the count is a 32-bit integer')
        E.prove(s, z3.Implies(z3.ULT(X, n), bv(q.at(simp(L + 1 + X)), 64) == el(v, X)), 'every element in order'); E.prove(s, z3.Implies(z3.ULT(X, L), bv(q.at(X), 64) == bv(ar.q0.at(X), 64)), 'earlier output is kept')
    run(E, st, E.func('^vp_w_%s\\(' % kind), [ar.p, p], wpost)
    # reading that back into any container gives an equal one
    st = with_globals(E); ar = Arch(E, st, 'in'); p, v = seqval(E, st, kind, 'target'); X = E.fresh('X'); n = E.fresh('count'); P = ar.pos0; q = ar.q0; E.input_terms = [('count', n), ('old size', b64(v.len))]
    E.assume(st, z3.And(z3.ULT(n, 1 << 32), z3.ULE(P + 1 + n, q.len), bv(q.at(P), 64) == tok('unsigned int', z3.Extract(31, 0, n))))
    T = lambda i: bv(q.at(simp(P + 1 + i)), 64); W = WIDS[t] * 8
    wf_ = lambda i: z3.Implies(z3.ULT(i, n), T(i) == tok(t, z3.Extract(W - 1, 0, T(i))))
    E.assume(st, wf_(X))
    def rinv(E, s, k, e):
        k = b64(k); c = cur(s, p); c0 = cur(e, p); N = ar.pos(s) - (P + 1); N0 = ar.pos(e) - (P + 1)
        return [('one token per element', ar.pos(s) == ar.pos(e) + k), ('within the count', z3.And(z3.UGE(ar.pos(s), P + 1), z3.ULE(N, n), z3.ULE(b64(c.len), n))), ('elements so far', z3.Implies(z3.And(z3.ULT(X, N), z3.ULT(X, b64(c.len))), el(c, X) == T(X))), ('length', z3.If(N0 == b64(c0.len), b64(c.len) == N, z3.And(b64(c.len) == b64(c0.len), z3.ULE(N, b64(c.len)))))]
    def rf(E, s, k, e): return [wf_(simp(ar.pos(s) - (P + 1)))]
    E.loopspecs = [LoopSpec(rinv, rf, 'elements read', outer_of('serialize'))]
    def rpost(E, s, o):
        if not expect_ret(E, s, o): return
        c = cur(s, p); E.prove(s, b64(c.len) == n, 'the container has the stored number of elements'); E.prove(s, z3.Implies(z3.ULT(X, n), el(c, X) == T(X)), 'every element is the stored one'); E.prove(s, ar.pos(s) == P + 1 + n, 'exactly the bytes written are consumed')
    run(E, st, E.func('^vp_r_%s\\(' % kind), [ar.p, p], rpost)


def fixed(E, kind):
    """pairs, arrays and structures: the components in order"""
    codecs(E)
    lay = {'pair': [('vpc::Elem', 0), ('unsigned short', 4)], 'array': [('vpc::Elem', 4 * i) for i in range(7)], 'rec': [('int', 0), ('vpc::Elem', 4), ('unsigned char', 8)]}[kind]; size = {'pair': 8, 'array': 28, 'rec': 12}[kind]
    st = with_globals(E); ar = Arch(E, st, 'out'); p = E.alloc(st, size, kind); L = ar.q0.len; X = E.fresh('X'); vs = []
    for t, o in lay: v = E.fresh('f%d' % o, 8 * WIDS[t]); vs.append(v); E.storew(st, at(p, o), v, WIDS[t])
    E.input_terms = [('f%d' % i, v) for i, v in enumerate(vs)]
    def wpost(E, s, o):
        if not expect_ret(E, s, o): return
        q = ar.q(s); E.prove(s, b64(q.len) == L + len(lay), 'one value per component')
        for i, (t, f) in enumerate(lay): E.prove(s, bv(q.at(simp(L + i)), 64) == tok(t, vs[i]), 'component %d in order' % i)
        E.prove(s, z3.Implies(z3.ULT(X, L), bv(q.at(X), 64) == bv(ar.q0.at(X), 64)), 'earlier output is kept')
    run(E, st, E.func('^vp_w_%s\\(' % kind), [ar.p, p], wpost)
    st = with_globals(E); ar = Arch(E, st, 'in'); p = E.alloc(st, size, kind); P = ar.pos0; q = ar.q0; vs = []
    E.assume(st, z3.ULE(P + len(lay), q.len))
    for i, (t, o) in enumerate(lay):
        v = E.fresh('g%d' % o, 8 * WIDS[t]); vs.append(v); E.storew(st, at(p, o), E.fresh('old', 8 * WIDS[t]), WIDS[t]); E.assume(st, bv(q.at(simp(P + i)), 64) == tok(t, v))
    def rpost(E, s, o):
        if not expect_ret(E, s, o): return
        for i, (t, f) in enumerate(lay): E.prove(s, bv(E.loadw(s, at(p, f), WIDS[t]), 8 * WIDS[t]) == vs[i], 'component %d is the stored one' % i)
        E.prove(s, ar.pos(s) == P + len(lay), 'exactly the bytes written are consumed')
    run(E, st, E.func('^vp_r_%s\\(' % kind), [ar.p, p], rpost)


MAPS = {'map': (r'(.* )?std::map<int, int.*>', r'std::_Rb_tree_(const_)?iterator<.*>', 32, 48), 'set': (r'(.* )?std::set<int.*>', r'std::_Rb_tree_(const_)?iterator<.*>', 32, 48), 'umap': (r'(.* )?std::unordered_map<int, int.*>', r'std::__detail::_Node_(const_)?iterator<.*>', 8, 56), 'uset': (r'(.* )?std::unordered_set<int.*>', r'std::__detail::_Node_(const_)?iterator<.*>', 8, 56)}


def assoc(E, kind):
    codecs(E); m = 'map' in kind; w = 2 if m else 1; rx, itrx, voff, width = MAPS[kind]; M = Map(E, rx, 4, {4: 4} if m else {}, voff, width=width); M.iterable(itrx)
    # any content m0, enumerated by ord/idx in the order of the source
    st = with_globals(E); ar = Arch(E, st, 'out'); p = E.alloc(st, width, kind); m0 = M.fresh(st, 'm'); M.put(st, p, m0); L = ar.q0.len; X = E.fresh('X'); n = m0.size; E.input_terms = [('size', n)]
    tk = lambda m_, o, q, i, j=0: bv(q.at(simp(L + 1 + w * i + j)), 64)
    o = M.order(E, st, p); od, ix = o[1], o[2]
    def elems(q, i): return z3.And(bv(q.at(simp(L + 1 + w * i)), 64) == tok('int', od(i)), bv(q.at(simp(L + 2 + w * i)), 64) == tok('int', m0.val(4, od(i))) if m else True)
    def winv(E, s, k, e):
        k = b64(k); q = ar.q(s)
        return [('tokens per element', b64(q.len) == L + 1 + w * k), ('elements so far', z3.Implies(z3.ULT(X, k), elems(q, X))), ('count', bv(q.at(simp(L)), 64) == tok('unsigned int', z3.Extract(31, 0, n))), ('earlier output', z3.Implies(z3.ULT(X, L), bv(q.at(X), 64) == bv(ar.q0.at(X), 64))), ('at most the elements', z3.ULE(k, n))]
    def wfacts(E, s, k, e):
        s.ghost['nodes'] = (); return []
    E.loopspecs = [LoopSpec(winv, wfacts, 'elements written', outer_of('serialize'))]
    def wpost(E, s, o):
        if not expect_ret(E, s, o): return
        q = ar.q(s); E.prove(s, b64(q.len) == L + 1 + w * n, 'the archive grows by the count and the elements'); E.prove(s, bv(q.at(simp(L)), 64) == tok('unsigned int', z3.Extract(31, 0, n)), 'the count is a 32-bit integer')
        E.prove(s, z3.Implies(z3.ULT(X, n), elems(q, X)), 'every element in order'); E.prove(s, z3.Implies(z3.ULT(X, L), bv(q.at(X), 64) == bv(ar.q0.at(X), 64)), 'earlier output is kept')
    run(E, st, E.func('^vp_w_%s\\(' % kind), [ar.p, p], wpost)
    # reading that into any container of the kind gives exactly the content
    st = with_globals(E); ar = Arch(E, st, 'in'); p = E.alloc(st, width, kind); M.put(st, p, M.fresh(st, 'old')); src = M.fresh(st, 'src'); n = src.size; G = E.fresh('G', 32); P = ar.pos0; q = ar.q0; k_ = next(E.cnt)
    od = z3.Function('order!%d' % k_, z3.BitVecSort(64), z3.BitVecSort(32)); ix = z3.Function('index!%d' % k_, z3.BitVecSort(32), z3.BitVecSort(64)); E.input_terms = [('size', n), ('key', G)]
    E.assume(st, z3.And(z3.ULE(P + 1 + w * n, q.len), bv(q.at(P), 64) == tok('unsigned int', z3.Extract(31, 0, n)), src.has(G) == z3.And(z3.ULT(ix(G), n), od(ix(G)) == G)))
    def stored(i): return [z3.Implies(z3.ULT(i, n), z3.And(bv(q.at(simp(P + 1 + w * i)), 64) == tok('int', od(i)), bv(q.at(simp(P + 2 + w * i)), 64) == tok('int', src.val(4, od(i))) if m else z3.BoolVal(True), ix(od(i)) == i))]
    def rinv(E, s, k, e):
        k = b64(k); c = M.get(s, p); has = lambda g: z3.And(z3.ULT(ix(g), k), od(ix(g)) == g)
        return [('tokens per element', ar.pos(s) == P + 1 + w * k), ('at most the elements', z3.ULE(k, n)), ('size', c.size == k), ('members', c.has(G) == has(G))] + ([('values', z3.Implies(c.has(G), c.val(4, G) == src.val(4, G)))] if m else [])
    def rfacts(E, s, k, e):
        M.flush(E, s, p); s.ghost['nodes'] = (); k = b64(k); c = M.get(s, p); g = od(k)
        return stored(k) + [c.has(g) == z3.And(z3.ULT(ix(g), k), od(ix(g)) == g)]
    E.loopspecs = [LoopSpec(rinv, rfacts, 'elements read', outer_of('serialize'))]
    def rpost(E, s, o):
        if not expect_ret(E, s, o): return
        c = M.get(s, p); E.prove(s, c.size == n, 'the container has the stored number of elements'); E.prove(s, c.has(G) == src.has(G), 'exactly the stored keys')
        if m: E.prove(s, z3.Implies(c.has(G), c.val(4, G) == src.val(4, G)), 'every key has its stored value')
        E.prove(s, ar.pos(s) == P + 1 + w * n, 'exactly the bytes written are consumed')
    run(E, st, E.func('^vp_r_%s\\(' % kind), [ar.p, p], rpost)


PROOFS = [dict(name='scalar codec: ' + n, src=SRC, fn=lambda E, n=n: scalar(E, n), functions=['serialize(binary_oarchive&, %s)' % n, 'serialize(binary_iarchive&, %s&)' % n, 'binary_iarchive::read', 'binary_oarchive::write', 'bool_test']) for n in WID]
PROOFS += [dict(name=k + ' round trip', src=SRC, fn=lambda E, k=k: sequence(E, k), functions=['serialize(binary_oarchive&, std::%s&)' % k, 'serialize(binary_iarchive&, std::%s&)' % k]) for k in ('vector', 'deque', 'list', 'string')]
PROOFS += [dict(name=k + ' round trip', src=SRC, fn=lambda E, k=k: fixed(E, k), functions=['serialize(archive&, %s&)' % k]) for k in ('pair', 'array', 'rec')]
PROOFS += [dict(name=k + ' round trip', src=SRC, fn=lambda E, k=k: assoc(E, k), functions=['serialize(binary_oarchive&, %s&)' % k, 'serialize(binary_iarchive&, %s&)' % k]) for k in MAPS]
HARNESS = [dict(src='c20.cpp', repo=['system/endian_util.cpp', 'system/file.cpp'], budget=4, bound='random values of every scalar type and 23 container and structure types nested to depth 4, collections to 300 elements, into fresh and used targets, and truncated scalars', asan=True)]
