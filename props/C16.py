"""LRU cache: the key map and the time-ordered index mirror each other; eviction takes the least recently used entry."""
from assoc import *
SRC = ['inst/c16.cpp']
ASSUMPTIONS = [ASSOC_ASSUME, 'key and value type int (the template is generic)', 'fewer than 2^63 uses', 'the capacity is positive (documented precondition)']
VAL, TIME = 8, 16          # offsets of value and time stamp in the map's pair


def pair(t, k): return z3.Concat(t, k)
def ptime(x): return z3.Extract(95, 32, x)
def pkey(x): return z3.Extract(31, 0, x)
def ple(x, y): return z3.Or(z3.ULT(ptime(x), ptime(y)), z3.And(ptime(x) == ptime(y), pkey(x) <= pkey(y)))


class Cache:
    def __init__(self, E):
        self.E = E; st = self.st = with_globals(E)
        self.G = E.fresh('otherkey', 32); self.G2 = E.fresh('thirdkey', 32); self.T = E.fresh('anytime')
        self.k = E.fresh('key', 32); self.kp = E.alloc(st, 4, 'key'); st.mem[self.kp.r].cells[0] = (4, self.k)
        self.v = E.fresh('value', 32); self.vp = E.alloc(st, 4, 'value'); st.mem[self.vp.r].cells[0] = (4, self.v)
        self.M = Map(E, r'.*std::map<int, std::pair<int, unsigned long>.*>', 4, {VAL: 4, TIME: 8}, 32, lambda E, s, p, k: self.at_key(s, k))
        self.S = MSet(E, r'.*std::multiset<std::pair<unsigned long, int>.*>', 96, lambda E, s, p: pair(b64(E.loadw(s, p, 8)), bv(E.loadw(s, Ptr(p.r, add64(p.o, 8)), 4), 32)), self.store, ple, 32, lambda E, s, x: self.at_pair(s, x),
                      lambda s: [pair(z3.Select(self.m0.vals[TIME], g), g) for g in (self.G, self.G2, self.k)])
        self.p = E.alloc(st, 112, 'lru')
        self.max = E.fresh('capacity', 32); self.cur = E.fresh('cur')
        E.assume(st, z3.And(self.max > 0, z3.ULT(self.cur, 1 << 63)))

        def made(E, s, o):
            if o[0] != 'ret': return
            # the layout is read off a freshly made object
            c = s.mem[self.p.r].cells; self.made = s
            self.om = [o for o, (w, v) in c.items() if isinstance(v, MapV)]; self.os = [o for o, (w, v) in c.items() if isinstance(v, MSetV)]
            self.oc = [o for o, (w, v) in c.items() if w == 8 and isint(v) and v == 0]; self.ox = [o for o, (w, v) in c.items() if w == 4 and not isinstance(v, (int, Ptr)) and v.eq(self.max)]
        self.made = None
        run(E, st.copy(), E.func(r'^vp_make\('), [self.p, self.max], made)
        if self.made is None or not all(len(x) == 1 for x in (self.om, self.os, self.oc, self.ox)): raise Unsupported('cache layout')
        s = self.st = self.made; self.om, self.os, self.oc, self.ox = self.om[0], self.os[0], self.oc[0], self.ox[0]
        E.prove(s, z3.And(E.obj(s, Ptr(self.p.r, self.om)).size == 0, E.obj(s, Ptr(self.p.r, self.os)).size == 0), 'a new cache is empty')
        E.assume(s, z3.And(self.max > 0, z3.ULT(self.cur, 1 << 63)))
        self.m0 = self.M.fresh(s, 'cache'); n = next(E.cnt); self.s0 = MSetV(z3.Array('index!%d' % n, z3.BitVecSort(96), z3.BitVecSort(64)), E.fresh('index.size'))
        E.setobj(s, Ptr(self.p.r, self.om), self.m0, 48); E.setobj(s, Ptr(self.p.r, self.os), self.s0, 48); E.storew(s, Ptr(self.p.r, self.oc), self.cur, 8)
        E.assume(s, z3.And(self.s0.size == self.m0.size, self.m0.size <= z3.SignExt(32, self.max), self.m0.size >= 0))
        for g in (self.G, self.G2, self.k): self.at_key(s, g)
        self.at_pair(s, pair(self.T, self.G)); self.at_pair(s, pair(self.T, self.k))
        for a in (self.G, self.G2, self.k):
            for b in (self.G, self.G2, self.k):
                if not a.eq(b): E.assume(s, self.distinct(self.m0, a, b))
        E.input_terms = [('key', self.k), ('capacity', self.max), ('size', self.m0.size)]

    def store(self, E, s, p, x):
        E.storew(s, p, simp(ptime(x)), 8); E.storew(s, Ptr(p.r, add64(p.o, 8)), simp(pkey(x)), 4)

    # the invariant at one key / one index entry / a pair of keys
    def key_inv(self, m, i, cur, g): t = m.val(TIME, g); return z3.Implies(m.has(g), z3.And(i.count(pair(t, g)) == 1, z3.ULT(t, cur)))
    def pair_inv(self, m, i, x): return z3.And(z3.ULE(i.count(x), 1), z3.Implies(i.count(x) != 0, z3.And(m.has(pkey(x)), m.val(TIME, pkey(x)) == ptime(x))))
    def distinct(self, m, a, b): return z3.Implies(z3.And(m.has(a), m.has(b), a != b), m.val(TIME, a) != m.val(TIME, b))
    def at_key(self, s, g):
        self.E.assume(s, self.key_inv(self.m0, self.s0, self.cur, g)); self.E.assume(s, z3.Implies(self.m0.has(g), self.m0.size != 0))
        for b in (self.G, self.k): self.E.assume(s, self.distinct(self.m0, g, b))
    def at_pair(self, s, x): self.E.assume(s, self.pair_inv(self.m0, self.s0, x)); self.at_key(s, simp(pkey(x)))

    def now(self, s):
        return self.M.get(s, Ptr(self.p.r, self.om)), self.S.get(s, Ptr(self.p.r, self.os)), b64(self.E.loadw(s, Ptr(self.p.r, self.oc), 8))

    def keep(self, s, what):
        E = self.E; m, i, cur = self.now(s)
        mx = bv(E.loadw(s, Ptr(self.p.r, self.ox), 4), 32)
        E.prove(s, mx == self.max, what + ': the capacity is unchanged')
        E.prove(s, z3.And(m.size == i.size, m.size <= z3.SignExt(32, self.max), m.size >= 0), what + ': at most the capacity is held')
        for g in (self.G, self.k): E.prove(s, self.key_inv(m, i, cur, g), what + ': every entry is indexed under its last use')
        for x in (pair(self.T, self.G), pair(self.T, self.k)): E.prove(s, self.pair_inv(m, i, x), what + ': the index has nothing else')
        E.prove(s, self.distinct(m, self.G, self.G2), what + ': last uses are distinct'); E.prove(s, self.distinct(m, self.G, self.k), what + ': last uses are distinct')
        E.prove(s, z3.UGE(cur, self.cur), what + ': time does not go back')
        return m

    def others(self, s, m, what, evict=False):
        """entries other than the key keep value and recency; with eviction the only one missing is the least recently used"""
        E = self.E; G, G2, k, m0 = self.G, self.G2, self.k, self.m0
        E.prove(s, z3.Implies(z3.And(G != k, m.has(G)), z3.And(m0.has(G), m.val(VAL, G) == m0.val(VAL, G), m.val(TIME, G) == m0.val(TIME, G))), what + ': other entries are unchanged')
        gone = z3.And(G != k, m0.has(G), z3.Not(m.has(G)))
        if not evict: E.prove(s, z3.Not(gone), what + ': no other entry is lost')
        else:
            E.prove(s, z3.Implies(gone, m0.size == z3.SignExt(32, self.max)), what + ': entries are evicted only from a full cache')
            E.prove(s, z3.Implies(z3.And(gone, m0.has(G2)), z3.ULE(m0.val(TIME, G), m0.val(TIME, G2))), what + ': the evicted entry is the least recently used')

    def newest(self, s, m, what):
        E = self.E; k, G = self.k, self.G
        E.prove(s, z3.Implies(z3.And(m.has(G), G != k), z3.UGT(m.val(TIME, k), m.val(TIME, G))), what + ': the entry is now the most recently used')

    def same(self, s, m, what):
        E = self.E; k = self.k
        self.others(s, m, what); E.prove(s, z3.And(m.has(k) == self.m0.has(k), z3.Implies(m.has(k), m.val(VAL, k) == self.m0.val(VAL, k))), what + ': the entry keeps its value')


def call(f, args, body):
    def fn(E):
        C = Cache(E)
        def post(E, s, o): body(E, C, s, o)
        run(E, C.st, E.func('^%s\\(' % f), [C.p] + args(C), post)
    return fn


def b_has(E, C, s, o):
    if not expect_ret(E, s, o): return
    E.prove(s, tob(o[1]) == C.m0.has(C.k), 'has tells whether the key is held'); m = C.keep(s, 'has'); C.same(s, m, 'has')
    E.prove(s, z3.Implies(m.has(C.k), m.val(TIME, C.k) == C.m0.val(TIME, C.k)), 'has: is not a use')


def b_get(E, C, s, o):
    if o[0] == 'throw': E.prove(s, z3.And(z3.BoolVal(o[1].ti == '_ZTISt13runtime_error'), z3.Not(C.m0.has(C.k))), 'get throws runtime_error only for a key that is not held'); C.same(s, C.keep(s, 'failed get'), 'failed get'); return
    E.prove(s, C.m0.has(C.k), 'get of a key that is not held throws')
    E.prove(s, bv(E.loadw(s, o[1], 4), 32) == C.m0.val(VAL, C.k), 'get returns the stored value')
    m = C.keep(s, 'get'); C.same(s, m, 'get'); C.newest(s, m, 'get')


def b_set(E, C, s, o):
    if not expect_ret(E, s, o): return
    m = C.keep(s, 'set'); k = C.k; m0 = C.m0; old = m0.has(k)
    E.prove(s, z3.And(m.has(k), m.val(VAL, k) == z3.If(old, m0.val(VAL, k), C.v)), 'set: a new key is stored with its value, a present one keeps its value')
    full = m0.size == z3.SignExt(32, C.max)
    E.prove(s, m.size == m0.size + z3.If(z3.Or(old, full), V64(0), V64(1)), 'set: exactly one entry makes room in a full cache')
    C.others(s, m, 'set', evict=True)
    E.prove(s, z3.Implies(z3.And(old, m0.has(C.G)), m.has(C.G)), 'set of a present key evicts nothing')
    E.prove(s, z3.Implies(z3.And(z3.Not(old), m.has(C.G), C.G != k), z3.UGT(m.val(TIME, k), m.val(TIME, C.G))), 'set: a new entry is the most recently used')


def b_touch(E, C, s, o):
    if not expect_ret(E, s, o): return
    m = C.keep(s, 'touch'); C.same(s, m, 'touch')
    E.prove(s, z3.Implies(z3.And(m.has(C.k), m.has(C.G), C.G != C.k), z3.UGT(m.val(TIME, C.k), m.val(TIME, C.G))), 'touch: the entry is now the most recently used')


def b_remove(E, C, s, o):
    if not expect_ret(E, s, o): return
    m = C.keep(s, 'remove'); C.others(s, m, 'remove'); E.prove(s, z3.Not(m.has(C.k)), 'remove: the key is gone')
    E.prove(s, m.size == C.m0.size - z3.If(C.m0.has(C.k), V64(1), V64(0)), 'remove: one entry less if it was held')


def b_clear(E, C, s, o):
    if not expect_ret(E, s, o): return
    m = C.keep(s, 'clear'); E.prove(s, z3.And(m.size == 0, z3.Not(m.has(C.G))), 'clear: nothing is held')


def b_index(E, C, s, o):
    if not expect_ret(E, s, o): return
    m = C.keep(s, 'operator[]'); old = C.m0.has(C.k)
    E.prove(s, bv(E.loadw(s, o[1], 4), 32) == z3.If(old, C.m0.val(VAL, C.k), z3.BitVecVal(0, 32)), 'operator[] gives the stored value, or a default value for a new key')
    E.prove(s, z3.And(m.has(C.k), m.val(VAL, C.k) == z3.If(old, C.m0.val(VAL, C.k), z3.BitVecVal(0, 32))), 'operator[]: the key is held with it')
    C.others(s, m, 'operator[]', evict=True); C.newest(s, m, 'operator[]')
    E.prove(s, z3.Implies(z3.And(old, C.m0.has(C.G)), m.has(C.G)), 'operator[] of a present key evicts nothing')
    # the reference is to the stored value
    s2 = s.copy(); w = E.fresh('written', 32); E.storew(s2, o[1], w, 4); m2, _, _ = C.now(s2)
    E.prove(s2, z3.And(m2.val(VAL, C.k) == w, z3.Implies(C.G != C.k, m2.val(VAL, C.G) == m.val(VAL, C.G))), 'operator[]: writing through the reference changes that entry only')


def make(E): Cache(E)


key = lambda C: [C.kp]; P = 'pfi::data::lru::'
PROOFS = [dict(name=n, src=SRC, fn=call('vp_' + n, a, b), functions=[P + f for f in fs]) for n, a, b, fs in (('has', key, b_has, ['has']), ('get', key, b_get, ['get', 'touch']), ('set', lambda C: [C.kp, C.vp], b_set, ['set']), ('touch', key, b_touch, ['touch']), ('remove', key, b_remove, ['remove']), ('clear', lambda C: [], b_clear, ['clear']), ('index', key, b_index, ['operator[]', 'set', 'touch']))]
HARNESS = [dict(src='c16.cpp', repo=[], budget=2, bound='random sequences of 60 operations, capacities 1..6, 10 keys, integer and string keys, against a list model')]
