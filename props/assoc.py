"""Assumed contracts of associative containers with integer keys: a map is a domain, one value array per field of the mapped type, and its cardinality; a multiset is a count per value."""
from common import *
ASSOC_ASSUME = 'std::map / std::unordered_map / std::multiset with integer keys behave as finite maps and multisets, size being their cardinality (C++ library contract, no allocation failure)'


class MapV:
    """value of a map: dom, vals {offset in pair: array}, size"""
    def __init__(self, dom, vals, size): self.dom = dom; self.vals = vals; self.size = size
    def has(self, k): return z3.Select(self.dom, k)
    def val(self, off, k): return z3.Select(self.vals[off], k)
    def havoc(self, E):
        n = next(E.cnt); ks = self.dom.sort().domain()
        return MapV(z3.Array('hv.dom!%d' % n, ks, z3.BoolSort()), {o: z3.Array('hv.%d!%d' % (o, n), ks, v.sort().range()) for o, v in self.vals.items()}, E.fresh('hv.size'))


class MSetV:
    def __init__(self, cnt, size): self.cnt = cnt; self.size = size
    def count(self, x): return z3.Select(self.cnt, x)
    def havoc(self, E): raise Unsupported('set changed in a loop')


class Map:
    """models for one map type. key width kw bytes at voff of the node; fields {offset in pair: width}"""
    def __init__(self, E, rx, kw, fields, voff, hook=None, width=48):
        self.E = E; self.width = width; self.kw = kw; self.fields = fields; self.voff = voff; self.hook = hook or (lambda E, st, m, k: None)
        r = lambda n: rx + '::' + n
        E.local_models += [(r(r'count\('), self.count), (r(r'find\('), self.find), (r(r'(c?end)\('), self.end), (r(r'size\('), self.sz), (r(r'empty\('), self.emp), (r(r'clear\('), self.clear), (r(r'operator\[\]\('), self.index),
                           (r(r'swap\('), self.swap), (r(r'(insert|emplace)(<.*>)?\('), self.insert), (r(r'erase\((int|unsigned|long|char|short).*const&\)'), self.erase), (r(r'at\('), self.at), (r(r'(unordered_)?map\(\)'), self.ctor), (r(r'~'), nop)]

    def empty(self):
        ks = z3.BitVecSort(8 * self.kw)
        return MapV(z3.K(ks, z3.BoolVal(False)), {o: z3.K(ks, z3.BitVecVal(0, 8 * w)) for o, w in self.fields.items()}, V64(0))

    def fresh(self, st, name):
        ks = z3.BitVecSort(8 * self.kw); n = next(self.E.cnt)
        m = MapV(z3.Array('%s.dom!%d' % (name, n), ks, z3.BoolSort()), {o: z3.Array('%s.%d!%d' % (name, o, n), ks, z3.BitVecSort(8 * w)) for o, w in self.fields.items()}, self.E.fresh(name + '.size'))
        self.E.assume(st, z3.ULT(m.size, 1 << 31))
        return m

    def key(self, st, p): return bv(simp(bv(self.E.loadw(st, p, self.kw), 8 * self.kw)), 8 * self.kw)

    def get(self, st, p):
        """current value of the map at p, with the materialised nodes written back"""
        m = self.E.obj(st, p, 'map')
        if not isinstance(m, MapV): raise Unsupported('not a map')
        vals = dict(m.vals)
        for mp, k, r in st.ghost.get('nodes', ()):
            if mp != (p.r, p.o): continue
            for o, w in self.fields.items(): vals[o] = z3.Store(vals[o], k, bv(self.E.loadw(st, Ptr(r, self.voff + o), w), 8 * w))
        return MapV(m.dom, vals, m.size)

    def put(self, st, p, m): self.E.setobj(st, p, m, self.width)

    def use(self, E, st, p, k):
        m = self.get(st, p); E.assume(st, z3.Implies(m.has(k), z3.UGE(m.size, 1))); self.hook(E, st, p, k)
        return m

    def node(self, E, st, p, k):
        """outcomes: pointer to the (unique) node of key k, which must be in the map"""
        nodes = [x for x in st.ghost.get('nodes', ()) if x[0] == (p.r, p.o)]
        for _, k2, r in nodes:
            if k2.eq(k): return Ptr(r, 0)
        def new(E, s):
            m = self.get(s, p); r = E.region(s, self.voff + max([self.kw] + [o + w for o, w in self.fields.items()]), 'node')
            E.storew(s, Ptr(r, self.voff), k, self.kw)
            for o, w in self.fields.items(): E.storew(s, Ptr(r, self.voff + o), simp(m.val(o, k)), w)
            s.ghost['nodes'] = s.ghost.get('nodes', ()) + (((p.r, p.o), k, r),)
            return Ptr(r, 0)
        alts = [(k == k2, lambda E, s, r=r: Ptr(r, 0)) for _, k2, r in nodes] + [(z3.And(*[k != k2 for _, k2, r in nodes]) if nodes else z3.BoolVal(True), new)]
        return new(E, st) if len(alts) == 1 else Outcomes(alts)

    iters = False
    def endp(self, E, st, p):
        if not self.iters: return Ptr(p.r, add64(p.o, 1))
        o = self.order(E, st, p); return Ptr(o[3], o[4])

    def end(self, E, st, a, ins): return self.endp(E, st, a[0])
    def sz(self, E, st, a, ins): return self.get(st, a[0]).size
    def emp(self, E, st, a, ins): return simp(self.get(st, a[0]).size == 0)
    def count(self, E, st, a, ins):
        k = self.key(st, a[1]); m = self.use(E, st, a[0], k); return simp(z3.If(m.has(k), V64(1), V64(0)))
    def find(self, E, st, a, ins):
        k = self.key(st, a[1]); m = self.use(E, st, a[0], k)
        return Outcomes([(m.has(k), lambda E, s: self.node(E, s, a[0], k)), (z3.Not(m.has(k)), lambda E, s: self.endp(E, s, a[0]))])
    def drop(self, st, p, keep=lambda k: True): st.ghost['nodes'] = tuple(x for x in st.ghost.get('nodes', ()) if x[0] != (p.r, p.o))
    def clear(self, E, st, a, ins): self.drop(st, a[0]); self.put(st, a[0], self.empty())
    def ctor(self, E, st, a, ins): self.drop(st, a[0]); self.put(st, a[0], self.empty())
    def swap(self, E, st, a, ins):
        x, y = self.get(st, a[0]), self.get(st, a[1]); self.drop(st, a[0]); self.drop(st, a[1]); self.put(st, a[0], y); self.put(st, a[1], x)

    def add(self, E, s, p, m, k, vals):
        self.flush(E, s, p)
        m = self.get(s, p)
        self.put(s, p, MapV(z3.Store(m.dom, k, z3.BoolVal(True)), {o: z3.Store(m.vals[o], k, vals[o]) for o in self.fields}, m.size + 1))

    def flush(self, E, s, p):
        """write the materialised nodes back (they stay valid)"""
        m = self.get(s, p); self.put(s, p, m)

    def index(self, E, st, a, ins):
        k = self.key(st, a[1]); m = self.use(E, st, a[0], k); first = min(self.fields)
        def ptr(E, s):
            r = self.node(E, s, a[0], k)
            f = lambda q: Ptr(q.r, self.voff + first)
            return f(r) if isinstance(r, Ptr) else Outcomes([(c, lambda E, s, g=g: f(g(E, s))) for c, g in r.alts])
        def new(E, s):
            self.add(E, s, a[0], m, k, {o: z3.BitVecVal(0, 8 * w) for o, w in self.fields.items()})
            return ptr(E, s)
        return Outcomes([(m.has(k), ptr), (z3.Not(m.has(k)), new)])

    def at(self, E, st, a, ins):
        k = self.key(st, a[1]); m = self.use(E, st, a[0], k); first = min(self.fields)
        def ptr(E, s):
            r = self.node(E, s, a[0], k); f = lambda q: Ptr(q.r, self.voff + first)
            return f(r) if isinstance(r, Ptr) else Outcomes([(c, lambda E, s, g=g: f(g(E, s))) for c, g in r.alts])
        return Outcomes([(m.has(k), ptr), (z3.Not(m.has(k)), lambda E, s: Throw(Exc('_ZTISt12out_of_range')))])

    def insert(self, E, st, a, ins):
        k = self.key(st, a[1]); m = self.use(E, st, a[0], k)
        vals = {o: bv(E.loadw(st, Ptr(a[1].r, add64(a[1].o, o)), w), 8 * w) for o, w in self.fields.items()}
        def res(E, s, b):
            r = self.node(E, s, a[0], k); f = lambda q: [q, b]
            return f(r) if isinstance(r, Ptr) else Outcomes([(c, lambda E, s, g=g: f(g(E, s))) for c, g in r.alts])
        def new(E, s): self.add(E, s, a[0], m, k, vals); return res(E, s, 1)
        return Outcomes([(m.has(k), lambda E, s: res(E, s, 0)), (z3.Not(m.has(k)), new)])

    # iteration: the keys are enumerated by a bijection ord from positions 0..size-1 onto the domain; iterators are positions
    def iterable(self, itrx):
        E = self.E
        E.local_models[:0] = [(itrx + r'::operator\+\+\(\)', self.inc), (itrx + r'::operator\+\+\(int\)', self.postinc), (itrx + r'::operator(->|\*)\(\)', self.deref)]
        r = [x for x in E.local_models if x[1] == self.end][0][0]
        E.local_models[:0] = [(r.replace('(c?end)', 'c?begin'), self.begin)]
        self.iters = True

    def order(self, E, st, p):
        m = self.get(st, p); key = (p.r, p.o, m.dom.get_id())
        o = st.ghost.get(('order', p.r, p.o))
        if o is not None and o[0].eq(m.dom): return o
        n = next(E.cnt); ks = z3.BitVecSort(8 * self.kw)
        o = (m.dom, z3.Function('ord!%d' % n, z3.BitVecSort(64), ks), z3.Function('idx!%d' % n, ks, z3.BitVecSort(64)), E.region(st, None, 'positions'), m.size, p)
        st.ghost[('order', p.r, p.o)] = o; st.ghost[('positions', o[3])] = (p.r, p.o)
        return o

    def begin(self, E, st, a, ins):
        o = self.order(E, st, a[0]); return Ptr(o[3], 0)

    def where(self, E, st, it):
        w = st.ghost.get(('positions', it.r)) if isinstance(it, Ptr) else None
        if w is None: return None
        o = st.ghost[('order',) + w]; m = self.get(st, o[5])
        if not m.dom.eq(o[0]) or o[3] != it.r: raise Unsupported('map changed while being iterated over')
        return o

    def inc(self, E, st, a, ins):
        it = E.loadw(st, a[0], 8); o = self.where(E, st, it)
        if o is None: raise Unsupported('increment of an unknown iterator')
        E.prove(st, z3.ULT(b64(it.o), o[4]), 'an iterator at the end is not incremented', 'pre')
        E.storew(st, a[0], Ptr(it.r, add64(it.o, 1)), 8); return a[0]

    def postinc(self, E, st, a, ins): it = E.loadw(st, a[0], 8); self.inc(E, st, a, ins); return it
    def deref(self, E, st, a, ins):
        it = E.loadw(st, a[0], 8); o = self.where(E, st, it)
        f = lambda q: Ptr(q.r, self.voff)
        if o is None: return f(it)
        i = b64(it.o); E.prove(st, z3.ULT(i, o[4]), 'an iterator at the end is not dereferenced', 'pre')
        k = o[1](i); E.assume(st, z3.And(z3.Select(o[0], k), o[2](k) == i)); self.use(E, st, o[5], k)
        r = self.node(E, st, o[5], k)
        return f(r) if isinstance(r, Ptr) else Outcomes([(c, lambda E, s, g=g: f(g(E, s))) for c, g in r.alts])

    def erase(self, E, st, a, ins):
        k = self.key(st, a[1]); m = self.use(E, st, a[0], k)
        def rm(E, s):
            self.flush(E, s, a[0]); m = self.get(s, a[0])
            # nodes of other keys stay valid; a node whose key may equal k is forgotten (reads of it fail)
            keep = []
            for x in s.ghost.get('nodes', ()):
                if x[0] == (a[0].r, a[0].o) and not (E.mode != 'dry' and E.S.check(x[1] == k) == z3.unsat): s.mem[x[2]] = None; del s.mem[x[2]]; continue
                keep.append(x)
            s.ghost['nodes'] = tuple(keep)
            self.put(s, a[0], MapV(z3.Store(m.dom, k, z3.BoolVal(False)), m.vals, m.size - 1)); return V64(1)
        return Outcomes([(m.has(k), rm), (z3.Not(m.has(k)), lambda E, s: V64(0))])


class MSet:
    """multiset of fixed-size values; enc(bytes words) packs the value at a pointer into a bit-vector, le is its order"""
    def __init__(self, E, rx, width, load, store, le, voff=32, hook=None, watch=None):
        self.E = E; self.width = width; self.load = load; self.store = store; self.le = le; self.voff = voff; self.hook = hook or (lambda E, st, x: None); self.watch = watch or (lambda st: [])
        r = lambda n: rx + '::' + n
        E.local_models += [(r(r'(c?begin)\('), self.begin), (r(r'(c?end)\('), self.end), (r(r'size\('), self.sz), (r(r'empty\('), self.emp), (r(r'clear\('), self.clear), (r(r'insert\('), self.insert), (r(r'erase(\[abi:cxx11\])?\(std::pair'), self.erase), (r(r'erase(\[abi:cxx11\])?\(std::_Rb_tree'), self.erase_it), (r(r'count\('), self.cnt), (r(r'multiset\(\)'), self.ctor), (r(r'set\(\)'), self.ctor), (r(r'~'), nop)]

    def empty(self): return MSetV(z3.K(z3.BitVecSort(self.width), V64(0)), V64(0))
    def get(self, st, p):
        m = self.E.obj(st, p, 'set')
        if not isinstance(m, MSetV): raise Unsupported('not a set')
        return m
    def put(self, st, p, m): self.E.setobj(st, p, m, 48)
    def sz(self, E, st, a, ins): return self.get(st, a[0]).size
    def emp(self, E, st, a, ins): return simp(self.get(st, a[0]).size == 0)
    def clear(self, E, st, a, ins): self.put(st, a[0], self.empty())
    def ctor(self, E, st, a, ins): self.put(st, a[0], self.empty())
    def end(self, E, st, a, ins): return Ptr(a[0].r, add64(a[0].o, 1))
    def begin(self, E, st, a, ins):
        m = self.get(st, a[0])
        def elem(E, s):
            for (mp, mm, r) in s.ghost.get('begins', ()):
                if mp == (a[0].r, a[0].o) and mm is m: return Ptr(r, 0)
            x = E.fresh('first', self.width); E.assume(s, m.count(x) != 0); self.hook(E, s, x)
            for y in self.watch(s): E.assume(s, z3.Implies(m.count(y) != 0, self.le(x, y)))
            r = E.region(s, self.voff + 16, 'set node'); self.store(E, s, Ptr(r, self.voff), x)
            s.ghost['begins'] = s.ghost.get('begins', ()) + (((a[0].r, a[0].o), m, r),)
            s.ghost[('elem', r)] = x
            return Ptr(r, 0)
        return Outcomes([(m.size != 0, elem), (m.size == 0, lambda E, s: self.end(E, s, a, ins))])
    def insert(self, E, st, a, ins):
        x = simp(self.load(E, st, a[1])); m = self.get(st, a[0]); self.hook(E, st, x)
        self.put(st, a[0], MSetV(z3.Store(m.cnt, x, m.count(x) + 1), m.size + 1))
        r = E.region(st, self.voff + 16, 'set node'); self.store(E, st, Ptr(r, self.voff), x)
        return Ptr(r, 0)
    def cnt(self, E, st, a, ins):
        x = simp(self.load(E, st, a[1])); m = self.get(st, a[0]); self.hook(E, st, x); return simp(m.count(x))
    def erase(self, E, st, a, ins):
        x = simp(self.load(E, st, a[1])); m = self.get(st, a[0]); self.hook(E, st, x); n = m.count(x)
        E.assume(st, z3.ULE(n, m.size))
        self.put(st, a[0], MSetV(z3.Store(m.cnt, x, V64(0)), m.size - n)); return simp(n)
    def erase_it(self, E, st, a, ins):
        p = a[1]
        x = st.ghost.get(('elem', p.r)) if isinstance(p, Ptr) else None
        if x is None: raise Unsupported('erase of an unknown position')
        m = self.get(st, a[0]); E.prove(st, m.count(x) != 0, 'the erased position is a valid element', 'pre'); E.assume(st, z3.UGE(m.size, 1))
        self.put(st, a[0], MSetV(z3.Store(m.cnt, x, m.count(x) - 1), m.size - 1))
        return Ptr(a[0].r, add64(a[0].o, 2))
