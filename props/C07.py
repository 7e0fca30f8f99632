"""chan: the queue of one channel under the monitor rule, and the walk over the linked channels under the link lock with an arbitrary designated channel G."""
from monitor import *
SRC = ['inst/c07.cpp']
ASSUMPTIONS = ['locking a valid mutex succeeds and mutual exclusion, atomic release-and-wait and broadcast behave as POSIX specifies (the wrappers are the subject of C09)', 'element type int',
               'std::set (insert, erase, ordered walk visiting each member once) and std::shared_ptr (pointer value; reference counting) are trusted', 'liveness is reduced to: every arrival is notified to all waiters, and readers re-check their condition under the lock']
SET = r'.*std::set<pfi::concurrent::chan<int>\*.*>::'
IT = r'.*std::_Rb_tree_(const_)?iterator<pfi::concurrent::chan<int>\*>'


def base_models(E, ev):
    """ev(E, st, kind, ptr): called for set insertions/erasures and mutex constructions"""
    def ins_(E, st, a, ins):
        k = E.loadw(st, a[-1], 8, None); ev(E, st, 'insert', k)
        return [Ptr(a[0].r, 0), 1] if ins.ty.k == 'struct' else None
    def era(E, st, a, ins):
        k = E.loadw(st, a[-1], 8, None); ev(E, st, 'erase', k); return 1
    E.local_models += [(MB + r'mutex_base\(bool\)', lambda E, st, a, ins: ev(E, st, 'mutex', a[0])), (CO + r'condition\(\)', nop), (CO + r'~condition\(\)', nop), (MB + r'~mutex_base\(\)', nop),
                       (r'.*std::__shared_count<.*>::(__shared_count|~__shared_count|_M_swap|operator=)', lambda E, st, a, ins: a[0] if ins.ty.k == 'ptr' else None),
                       (SET + r'set\(\)', nop), (SET + r'~set\(\)', nop), (SET + r'insert\(', ins_), (SET + r'erase\(pfi', era)]


def setup(E):
    """a channel G and a duplicate O of it, made by the real constructor and dup()"""
    st = with_globals(E)
    st.ghost.update(ev=())
    def ev(E, st, kind, p): st.ghost['ev'] = st.ghost['ev'] + ((kind, p, st.ghost.get('lk', 0)),)
    base_models(E, ev)
    lk = lambda d: (lambda E, st, a, ins: (st.ghost.__setitem__('lk', st.ghost.get('lk', 0) + d), 1)[1])
    E.local_models += [(MB + r'lock\(\)', lk(1)), (MB + r'unlock\(\)', lk(-1))]
    G = E.alloc(st, 400, 'chan G'); out = E.alloc(st, 16, 'shared_ptr')
    def one(st, f, a):
        done = []; E.start(st, E.func('^' + f + r'\('), a); E.run(st, lambda E, s, o: done.append((s, o)))
        if len(done) != 1: raise Unsupported(f + ' forks')
        E.prove(done[0][0], z3.BoolVal(done[0][1][0] == 'ret'), f + ' succeeds')
        return done[0]
    st, _ = one(st, 'vp_make', [G])
    e1 = [e for e in st.ghost['ev'] if e[0] != 'mutex']
    E.prove(st, z3.BoolVal([(k, p.r) for k, p, _ in e1] == [('insert', G.r)]), 'a new channel is linked to itself, once')
    E.prove(st, z3.BoolVal(st.ghost.get('lk', 0) == 0), 'no lock is left held by construction', 'lock')
    st.ghost['ev'] = tuple(e for e in st.ghost['ev'] if e[0] == 'mutex')
    st, o = one(st, 'vp_dup', [G, out])
    O = o[1]
    e2 = [e for e in st.ghost['ev'] if e[0] != 'mutex']
    ok = isinstance(O, Ptr) and O.r is not None and O.r != G.r
    E.prove(st, z3.BoolVal(ok and [(k, p.r) for k, p, _ in e2] == [('insert', O.r)]), 'a duplicate is linked, once')
    E.prove(st, z3.BoolVal(all(h == 1 for k, p, h in e2)), 'the duplicate is linked under the link lock', 'lock')
    E.prove(st, z3.BoolVal(st.ghost.get('lk', 0) == 0), 'no lock is left held by dup', 'lock')
    mus = [e[1] for e in st.ghost['ev'] if e[0] == 'mutex']
    links = [p.r for p in mus if p.r not in (G.r, O.r)]
    E.prove(st, z3.BoolVal(len(links) == 1), 'the duplicate shares the link of the original')
    off = [x for x, (w, v) in st.mem[G.r].cells.items() if isinstance(v, Seq)]
    if len(off) != 1 or not ok or len(links) != 1: raise Unsupported('unexpected channel layout')
    E.prove(st, z3.And(b64(st.mem[G.r].cells[off[0]][1].len) == 0, b64(st.mem[O.r].cells[off[0]][1].len) == 0), 'new channels and duplicates start empty')
    E.local_models = []; E.mcache = {}
    st.ghost['ev'] = ()
    return st, G, O, links[0], off[0], ev


class CM(Monitor):
    """monitor of channel G; the locks of the link and of other channels are only counted"""
    def __init__(self, E, st, sh, G, link, can_wait=None):
        self.G = G.r; self.link = link
        st.ghost.update(lh=0, oh=0)
        Monitor.__init__(self, E, st, sh, True, can_wait)
        self.on_release = None; self.on_note = None

    def lock(self, E, st, a, ins):
        if a[0].r == self.G: return Monitor.lock(self, E, st, a, ins)
        k = 'lh' if a[0].r == self.link else 'oh'
        if k == 'lh': E.prove(st, z3.BoolVal(st.ghost['held'] == 0), 'the link lock is not requested while a channel is locked (lock order)', 'lock')
        st.ghost[k] += 1
        return 1

    def unlock(self, E, st, a, ins):
        if a[0].r == self.G:
            r = Monitor.unlock(self, E, st, a, ins)
            if self.on_release and st.ghost['held'] == 0: self.on_release(E, st)
            return r
        k = 'lh' if a[0].r == self.link else 'oh'
        E.prove(st, z3.BoolVal(st.ghost[k] > 0), 'only a held lock is released', 'lock')
        st.ghost[k] -= 1
        return 1

    def notify_all(self, E, st, a, ins):
        if a[0].r == self.G:
            Monitor.notify_all(self, E, st, a, ins)
            if self.on_note: self.on_note(E, st)

    def finish(self, E, st, *a, **k):
        E.prove(st, z3.BoolVal(st.ghost['lh'] == 0 and st.ghost['oh'] == 0), 'every lock is released on return', 'lock')
        Monitor.finish(self, E, st, *a, **k)


def monitor(E, can_wait=None):
    st, G, O, link, off, ev = setup(E)
    J = E.fresh('J'); E.input_terms = [('J', J)]
    base_models(E, ev)
    m = CM(E, st, deque_shared(E, Ptr(G.r, off), None, J, [J, simp(J + 1), simp(J - 1), V64(0)]), G, link, can_wait and (lambda E, st, v: can_wait(v)))
    return st, G, O, link, off, J, m


def appended(J, v):
    return lambda a, b: [('one item more', b64(b.len) == b64(a.len) + 1), ('the new item is last', bv(b.at(a.len), 32) == v),
                         ('the items before it are unchanged', z3.Implies(z3.ULT(J, b64(a.len)), bv(b.at(J), 32) == bv(a.at(J), 32)))]


def arg(E, st):
    vp = E.alloc(st, 4, 'value'); v = E.fresh('value', 32); st.mem[vp.r].cells[0] = (4, v)
    return vp, v


def read(E):
    st, G, O, link, off, J, m = monitor(E, lambda v: b64(v.len) == 0)
    def post(E, st, o):
        if not expect_ret(E, st, o): return
        out = bv(o[1], 32)
        m.finish(E, st, lambda a, b: [('there was an item', b64(a.len) != 0), ('one item less', b64(b.len) == b64(a.len) - 1), ('the first item is delivered', out == bv(a.at(0), 32)),
                                      ('the rest keeps its order', z3.Implies(z3.ULT(J, b64(b.len)), bv(b.at(J), 32) == bv(a.at(simp(J + 1)), 32)))], 'read', must=False)
    run(E, st, E.func(r'^vp_read\('), [G], post)


def others(E):
    st0, G, O, link, off, J, m = monitor(E); vp, v = arg(E, st0)
    def ug(E, st, o):
        if not expect_ret(E, st, o): return
        m.finish(E, st, lambda a, b: [('one item more', b64(b.len) == b64(a.len) + 1), ('the item comes first', bv(b.at(0), 32) == v),
                                      ('the others follow in order', z3.Implies(z3.And(J != 0, z3.ULE(J, b64(a.len))), bv(b.at(J), 32) == bv(a.at(simp(J - 1)), 32)))], 'unget')
    run(E, st0.copy(), E.func(r'^vp_unget\('), [G, vp], ug)
    def q(nm, sp):
        def post(E, st, o):
            if not expect_ret(E, st, o): return
            m.finish(E, st, lambda a, b: [('unchanged', m.sh.eq(E, a, b)), ('result', sp(a, o[1]))], nm)
        run(E, st0.copy(), E.func('^vp_' + nm + r'\('), [G], post)
    q('size', lambda a, r: bv(r, 32) == z3.Extract(31, 0, b64(a.len)))
    q('empty', lambda a, r: tob(r) == (b64(a.len) == 0))
    st = st0.copy(); st.ghost['ev'] = ()
    def de(E, st, o):
        if not expect_ret(E, st, o): return
        E.prove(st, z3.BoolVal([(k, p.r, h) for k, p, h in st.ghost['ev']] == [('erase', G.r, 1)]), 'a destroyed channel is unlinked once, under the link lock')
        E.prove(st, z3.BoolVal(st.ghost['lh'] == 0 and st.ghost['held'] == 0), 'every lock is released on return', 'lock')
    def ev(E, st, kind, p): st.ghost['ev'] = st.ghost['ev'] + ((kind, p, st.ghost['lh']),)
    E.local_models = [x for x in E.local_models if 'erase' not in x[0]]; E.mcache = {}
    E.local_models += [(SET + r'erase\(pfi', lambda E, st, a, ins: (ev(E, st, 'erase', E.loadw(st, a[-1], 8, None)), 1)[1]), (SET + r'erase\(', lambda E, st, a, ins: (_ for _ in ()).throw(Unsupported('erase form')))]
    run(E, st, E.func(r'^vp_destroy\('), [G], de)


def write(E):
    """every linked channel: an arbitrary member index g designates G; all other members are another channel O"""
    st, G, O, link, off, J, m = monitor(E); vp, v = arg(E, st)
    n = E.fresh('members'); g = E.fresh('g'); E.assume(st, z3.And(z3.ULT(n, 1 << 40), z3.ULT(g, n)))
    nodes = E.alloc(st, 1 << 41, 'set nodes')
    cnt = E.alloc(st, 8, 'ghost count'); st.mem[cnt.r].cells[0] = (8, V64(0))
    due = E.alloc(st, 8, 'ghost due'); st.mem[due.r].cells[0] = (8, V64(0))
    E.input_terms += [('members', n), ('g', g)]
    rel = appended(J, v)

    def released(E, st):
        a, b = st.ghost['trans'][-1]
        for nm, f in rel(a, b): E.prove(st, f, 'write to the designated channel: ' + nm)
        E.prove(st, z3.BoolVal(st.ghost['lh'] > 0), 'the link lock is held while writing', 'lock')
        E.storew(st, cnt, simp(bv(E.loadw(st, cnt, 8), 64) + 1), 8)
        E.storew(st, due, V64(1 if not st.ghost.get('insec') else 0), 8)
        st.ghost['trans'] = (); st.ghost['note'] = (); st.ghost['seen'] = ()
    m.on_release = released
    m.on_note = lambda E, st: E.storew(st, due, V64(0), 8)
    pos = lambda p: b64(p.o)

    def begin(E, st, a, ins): E.prove(st, z3.BoolVal(st.ghost['lh'] > 0), 'the set of channels is read under the link lock', 'lock'); return Ptr(nodes.r, V64(0))
    def end(E, st, a, ins): return Ptr(nodes.r, n)
    ld = lambda E, st, p: E.loadw(st, p, 8, PTR)
    def deref(E, st, a, ins):
        p = ld(E, st, a[0]); E.prove(st, z3.ULT(pos(p), n), 'only a valid position is dereferenced', 'memory')
        def cell(t):
            def f(E, s):
                c = E.alloc(s, 8, 'element'); s.mem[c.r].cells[0] = (8, Ptr(t.r, 0)); return c
            return f
        return Outcomes([(pos(p) == g, cell(G)), (pos(p) != g, cell(O))])
    def inc(post):
        def f(E, st, a, ins):
            p = ld(E, st, a[0]); E.prove(st, z3.ULT(pos(p), n), 'only a valid position is advanced', 'memory')
            E.storew(st, a[0], Ptr(nodes.r, simp(pos(p) + 1)), 8)
            return p if post else a[0]
        return f
    cmp = lambda neg: (lambda E, st, a, ins: (lambda c: z3.Not(c) if neg else c)(pos(ld(E, st, a[0])) == pos(ld(E, st, a[1]))))
    def citer(E, st, a, ins):   # const_iterator(iterator)
        E.storew(st, a[0], ld(E, st, a[1]), 8)
    E.local_models += [(SET + r'c?begin\(\)', begin), (SET + r'c?end\(\)', end), (IT + r'::operator\*\(\)', deref), (IT + r'::operator\+\+\(int\)', inc(True)), (IT + r'::operator\+\+\(\)', inc(False)),
                       (r'.*std::operator!=\(std::_Rb_tree_', cmp(True)), (r'.*std::operator==\(std::_Rb_tree_', cmp(False)), (IT + r'::_Rb_tree_const_iterator\(', citer), (SET + r'size\(\)', lambda E, st, a, ins: n)]

    def iters(st):
        return [v[1] for r in st.mem.values() if r.name != 'ghost' for v in r.cells.values() if isinstance(v[1], Ptr) and v[1].r == nodes.r]

    def inv(E, st, k, entry):
        r = [('the position advances by one per round', z3.Or(*[pos(p) == k for p in iters(st)]) if iters(st) else z3.BoolVal(False)), ('within the set', z3.ULE(k, n)), ('the designated channel has received the item iff it was passed', bv(E.loadw(st, cnt, 8), 64) == z3.If(z3.UGT(k, g), V64(1), V64(0))),
             ('no notification is due', bv(E.loadw(st, due, 8), 64) == 0), ('locks', z3.BoolVal(st.ghost['lh'] == entry.ghost['lh'] and st.ghost['held'] == 0 and st.ghost['oh'] == 0 and st.ghost['trans'] == ())), ('unwritten outside', m.same(E, st))]
        return r
    E.loopspecs.append(LoopSpec(inv, name='walk over the channels', func=lambda E, st, fr, label: st.ghost['held'] == 0))

    def post(E, st, o):
        if not expect_ret(E, st, o): return
        E.prove(st, bv(E.loadw(st, cnt, 8), 64) == 1, 'every linked channel receives the item exactly once')
        E.prove(st, bv(E.loadw(st, due, 8), 64) == 0, 'every arrival is followed by notify_all', 'monitor')
        m.finish(E, st, None, 'write')
    run(E, st, E.func(r'^vp_write\('), [G, vp], post)


F = lambda *n: ['pfi::concurrent::chan<T>::' + x for x in n] + ['pfi::concurrent::scoped_lock']
PROOFS = [dict(name='construction, duplication, read', src=SRC, fn=read, functions=F('chan', 'dup', 'read')), dict(name='unget, size, empty, destruction', src=SRC, fn=others, functions=F('unget', 'size', 'empty', '~chan')),
          dict(name='write', src=SRC, fn=write, functions=F('write', 'put'))]
HARNESS = [sched('c07.cpp', bound='2 to 4 threads of 1 to 4 operations on up to 4 linked channels, random schedules with spurious wake-ups')]
