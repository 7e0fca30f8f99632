"""intern: bijection between keys and 0..n-1 kept by every operation, for an arbitrary table."""
from assoc import *
SRC = ['inst/c17.cpp']
ASSUMPTIONS = [ASSOC_ASSUME, 'key type int (the template is generic in the key and its hash)', 'fewer than 2^31 keys']
RX = r'.*std::unordered_map<int, int.*>'


class T:
    """symbolic table satisfying the invariant"""
    def __init__(self, E, st, name, M, hooks):
        self.E = E; self.p = E.alloc(st, 80, name); self.m0 = M.fresh(st, name); ln = E.fresh(name + '.lbt.len')
        self.l0 = Seq(ArrN(E.fresharr(name + '.lbt', 32)), ln, 4, 'vec', next(E.cnt), None)
        E.setobj(st, self.p, self.m0, 56); E.setobj(st, Ptr(self.p.r, 56), self.l0, 24)
        E.assume(st, ln == self.m0.size)
    def at(self, s, M): return M.get(s, self.p), E_obj(self.E, s, Ptr(self.p.r, 56))


def E_obj(E, s, p): return E.obj(s, p, 'vector')


def inv_key(m, l, x): return z3.Implies(m.has(x), z3.And(z3.ULT(bv(m.val(4, x), 32), z3.Extract(31, 0, b64(l.len))), bv(l.at(simp(z3.ZeroExt(32, m.val(4, x)))), 32) == x))
def inv_id(m, l, i): k = bv(l.at(i), 32); return z3.Implies(z3.ULT(i, b64(l.len)), z3.And(m.has(k), z3.ZeroExt(32, m.val(4, k)) == i))


def setup(E):
    st = with_globals(E); tabs = []
    def hook(E, st, p, k):       # invariant of the initial tables at every key looked up
        for t in tabs:
            if p.r == t.p.r: E.assume(st, inv_key(t.m0, t.l0, k))
    M = Map(E, RX, 4, {4: 4}, 8, hook, 56)
    t = T(E, st, 'table', M, None); tabs.append(t)
    G = E.fresh('otherkey', 32); I = E.fresh('otherid')
    kp = E.alloc(st, 4, 'key'); k = E.fresh('key', 32); st.mem[kp.r].cells[0] = (4, k)
    for x in (G, k): E.assume(st, inv_key(t.m0, t.l0, x))
    E.assume(st, inv_id(t.m0, t.l0, I)); E.assume(st, z3.ULT(t.m0.size, (1 << 31) - 2))
    E.assume(st, z3.Implies(t.m0.size == 0, z3.Not(t.m0.has(k)))); E.assume(st, z3.Implies(t.m0.size == 0, z3.Not(t.m0.has(G))))
    E.input_terms = [('key', k), ('size', t.m0.size)]
    return st, M, t, tabs, G, I, kp, k


def check_inv(E, s, m, l, xs, I, what):
    E.prove(s, b64(l.len) == m.size, what + ': as many keys as ids')
    for x in xs: E.prove(s, inv_key(m, l, x), what + ': mapping a key to its id and back gives the key')
    E.prove(s, inv_id(m, l, I), what + ': mapping an id to its key and back gives the id')


def same(E, s, m, l, t, G, I, what):
    E.prove(s, z3.And(m.has(G) == t.m0.has(G), z3.Implies(m.has(G), m.val(4, G) == t.m0.val(4, G)), m.size == t.m0.size, b64(l.len) == b64(t.l0.len), z3.Implies(z3.ULT(I, b64(l.len)), bv(l.at(I), 32) == bv(t.l0.at(I), 32))), what + ' changes nothing')


def queries(E):
    st, M, t, tabs, G, I, kp, k = setup(E); id_ = E.fresh('id', 32)
    E.assume(st, inv_id(t.m0, t.l0, z3.SignExt(32, id_)))
    def q(f, args, sp, what, pre=None):
        s = st.copy()
        if pre is not None: E.S.push(); E.assume(s, pre)
        def post(E, s, o):
            if not expect_ret(E, s, o): return
            E.prove(s, sp(o[1]), what); m, l = t.at(s, M); same(E, s, m, l, t, G, I, what)
        run(E, s, E.func('^%s\\(' % f), args, post)
        if pre is not None: E.S.pop()
    has = t.m0.has(k); v = t.m0.val(4, k); inr = z3.And(id_ >= 0, z3.ULT(z3.ZeroExt(32, id_), t.m0.size))
    want = z3.If(has, v, z3.BitVecVal(-1, 32))
    q('vp_nogen', [t.p, kp], lambda r: bv(r, 32) == want, 'key2id_nogen gives the id or -1')
    q('vp_id2', [t.p, kp, 0], lambda r: bv(r, 32) == want, 'key2id without generation gives the id or -1')
    q('vp_has_key', [t.p, kp], lambda r: tob(r) == has, 'exist_key')
    q('vp_has_id', [t.p, id_], lambda r: tob(r) == inr, 'exist_id holds exactly for 0..n-1')
    q('vp_key', [t.p, id_], lambda r: z3.And(t.m0.has(bv(r, 32)), t.m0.val(4, bv(r, 32)) == id_), 'id2key gives the key with that id', inr)
    q('vp_size', [t.p], lambda r: b64(r) == t.m0.size, 'size is the number of keys')
    q('vp_empty', [t.p], lambda r: tob(r) == (t.m0.size == 0), 'empty exactly without keys')


def create(E, f, args):
    st, M, t, tabs, G, I, kp, k = setup(E)
    def post(E, s, o):
        if not expect_ret(E, s, o): return
        m, l = t.at(s, M); r = bv(o[1], 32); old = t.m0.has(k)
        E.prove(s, r == z3.If(old, t.m0.val(4, k), z3.Extract(31, 0, t.m0.size)), 'a known key keeps its id, a new one gets the next id')
        E.prove(s, z3.And(m.has(k), m.val(4, k) == r), 'the key is interned with the id returned')
        E.prove(s, m.size == t.m0.size + z3.If(old, V64(0), V64(1)), 'at most one key is added')
        E.prove(s, z3.Implies(G != k, z3.And(m.has(G) == t.m0.has(G), z3.Implies(m.has(G), m.val(4, G) == t.m0.val(4, G)))), 'other keys keep their ids')
        check_inv(E, s, m, l, (G, k), I, 'after interning')
    run(E, st, E.func('^%s\\(' % f), [t.p, kp] + args, post)


def clear(E):
    st, M, t, tabs, G, I, kp, k = setup(E)
    def post(E, s, o):
        if not expect_ret(E, s, o): return
        m, l = t.at(s, M); E.prove(s, z3.And(m.size == 0, b64(l.len) == 0, z3.Not(m.has(G))), 'nothing is left')
    run(E, st, E.func('^vp_clear\\('), [t.p], post)


def swaps(E):
    for f in ('vp_swap', 'vp_swap2'):
        E.local_models = []; E.mcache = {}
        st, M, t, tabs, G, I, kp, k = setup(E); u = T(E, st, 'other', M, None)
        def post(E, s, o):
            if not expect_ret(E, s, o): return
            for x, y in ((t, u), (u, t)):
                m, l = x.at(s, M); same(E, s, m, l, y, G, I, 'swap exchanges the tables and otherwise')
        run(E, st, E.func('^%s\\(' % f), [t.p, u.p], post)


P = 'pfi::data::intern::'
PROOFS = [dict(name='queries', src=SRC, fn=queries, functions=[P + x for x in ('key2id_nogen', 'key2id', 'exist_key', 'exist_id', 'id2key', 'size', 'empty')]),
          dict(name='interning', src=SRC, fn=lambda E: create(E, 'vp_id', []), functions=[P + 'key2id']), dict(name='interning (gen)', src=SRC, fn=lambda E: create(E, 'vp_id2', [1]), functions=[P + 'key2id']),
          dict(name='clear', src=SRC, fn=clear, functions=[P + 'clear']), dict(name='swap', src=SRC, fn=swaps, functions=[P + 'swap', 'swap'])]
HARNESS = [dict(src='c17.cpp', repo=['system/endian_util.cpp'], budget=2, bound='random sequences of up to 400 operations over string and integer keys, with save/load through the binary archive')]
