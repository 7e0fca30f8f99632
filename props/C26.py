"""optional: value semantics with an element type whose copy operations may throw; every element is constructed and destroyed once."""
from common import *
SRC = ['inst/c26.cpp']
ASSUMPTIONS = ['operator new does not fail', 'the element type is arbitrary: its copy constructor and assignment may throw (a throwing assignment leaves its target alive), its destructor does not']


class W:
    """ghost table of live elements: region -> tag"""
    def __init__(self, E):
        self.E = E; self.st = with_globals(E); self.st.ghost['live'] = {}; self.st.ghost['throws'] = 0
        EXC = lambda E, s: Throw(Exc('_ZTI7element'))
        def loc(p): return (p.r, p.o if isint(p.o) else str(p.o))
        def live(E, s, p, what):
            ok = isinstance(p, Ptr) and loc(p) in s.ghost['live']
            E.prove(s, z3.BoolVal(ok), what, 'lifetime')
            if not ok: raise Infeasible()
            return s.ghost['live'][loc(p)]
        def setl(s, p, v): d = dict(s.ghost['live']); d[loc(p)] = v; s.ghost['live'] = d
        self.live = live; self.setl = setl
        def cons(E, s, a, ins):
            v = live(E, s, a[1], 'an element is copied from a live one')
            E.prove(s, z3.BoolVal(loc(a[0]) not in s.ghost['live']), 'an element is constructed in unused storage', 'lifetime')
            b = E.fresh('copy.ok', 1)
            def bad(E, t): t.ghost['throws'] += 1; return EXC(E, t)
            return Outcomes([(b, lambda E, t: setl(t, a[0], v)), (z3.Not(b), bad)])
        def dest(E, s, a, ins):
            live(E, s, a[0], 'only a live element is destroyed, once'); d = dict(s.ghost['live']); del d[loc(a[0])]; s.ghost['live'] = d
        def asg(E, s, a, ins):
            v = live(E, s, a[1], 'an element is assigned from a live one'); live(E, s, a[0], 'a live element is assigned to')
            b = E.fresh('assign.ok', 1)
            def bad(E, t): t.ghost['throws'] += 1; return EXC(E, t)
            def ok(E, t): setl(t, a[0], v); return a[0]
            return Outcomes([(b, ok), (z3.Not(b), bad)])
        def cmp(f):
            def m(E, s, a, ins): return f(live(E, s, a[0], 'live elements are compared'), live(E, s, a[1], 'live elements are compared'))
            return m
        E.local_models += [(r'[XZ]::[XZ]\([XY] const&\)', cons), (r'[XZ]::~[XZ]\(\)', dest), (r'X::operator=\(', asg), (r'X::operator==\(', cmp(lambda x, y: x == y)), (r'X::operator<\(', cmp(lambda x, y: x < y))]

    def elem(self, s, name):
        p = self.E.alloc(s, 4, name); v = self.E.fresh(name, 32); self.E.storew(s, p, v, 4); self.setl(s, p, v); return p, v


def call(E, s, f, a, post): sub(E, s, E.func('^%s\\(' % f), a, post)


def with_opt(E, w, s, name, body, full=None):
    """an optional made by the real constructors, empty or full; body(state, pointer, value or None)"""
    for f in ((False, True) if full is None else (full,)):
        t = s.copy(); p = E.alloc(t, 8, name)
        if not f: call(E, t, 'vp_make', [p], lambda E, u, o: expect_ret(E, u, o) and body(u, p, None))
        else:
            x, v = w.elem(t, name + '.value'); n0 = dict(t.ghost['live'])
            def made(E, u, o, x=x, v=v, p=p, n0=n0):
                if o[0] == 'throw': E.prove(u, z3.BoolVal(u.ghost['live'] == n0), 'a failed construction leaves nothing behind', 'lifetime'); return
                q = dict(u.ghost['live']); q.pop((x.r, x.o)); u.ghost['live'] = q; u.ghost['throws'] = 0      # the source goes away: the optional owns a copy
                body(u, p, v)
            call(E, t, 'vp_make_v', [p, x], made)


def holds(E, w, s, p, v, what):
    """public observers: v is the value held, None if empty"""
    def t(E, u, o):
        if expect_ret(E, u, o): E.prove(u, tob(o[1]) == z3.BoolVal(v is not None), what + (': holds a value' if v is not None else ': is empty'))
    call(E, s, 'vp_test', [p], t); call(E, s, 'vp_test2', [p], t)
    if v is None: return
    for f in ('vp_get', 'vp_star', 'vp_arrow'):
        def g(E, u, o):
            if expect_ret(E, u, o): E.prove(u, w.live(E, u, o[1], what + ': holds a live element') == v, what + ': holds the right value')
        call(E, s, f, [p], g)


def owned(s, ext): return len(s.ghost['live']) - ext


def count(E, s, n, what): E.prove(s, z3.BoolVal(len(s.ghost['live']) == n), what + ': exactly the elements held are alive', 'lifetime')


def wrap(body):
    def fn(E):
        w = W(E); E.S.push(); body(E, w, w.st); E.S.pop()
    return fn


def N(*vs): return sum(v is not None for v in vs)


def construct(E, w, s):
    def b(t, p, v):
        holds(E, w, t, p, v, 'construction'); count(E, t, N(v), 'construction')
        q = E.alloc(t, 8, 'copy')
        def c(E, u, o):
            if o[0] == 'throw': E.prove(u, z3.BoolVal(u.ghost['throws'] == 1), 'copying throws only if the element copy does'); count(E, u, N(v), 'failed copy'); holds(E, w, u, p, v, 'source of a failed copy'); return
            E.prove(u, z3.BoolVal(u.ghost['throws'] == 0), 'an exception of the element is passed on')
            holds(E, w, u, q, v, 'copy'); holds(E, w, u, p, v, 'source of the copy'); count(E, u, 2 * N(v), 'copy')
            def d(E, x, o):
                if not expect_ret(E, x, o): return
                count(E, x, N(v), 'destruction of the copy'); holds(E, w, x, p, v, 'source after destruction of the copy')
                call(E, x, 'vp_destroy', [p], lambda E, y, o: expect_ret(E, y, o) and count(E, y, 0, 'destruction'))
            call(E, u, 'vp_destroy', [q], d)
        call(E, t, 'vp_copy', [q, p], c)
    with_opt(E, w, s, 'p', b)


def assign(E, w, s):
    def b(t, p, v):
        def b2(t2, q, v2):
            def a(E, u, o):
                if o[0] == 'throw':
                    E.prove(u, z3.BoolVal(u.ghost['throws'] == 1), 'assignment throws only if the element copy does')
                    holds(E, w, u, p, v, 'target of a failed assignment'); holds(E, w, u, q, v2, 'source of a failed assignment'); count(E, u, N(v, v2), 'failed assignment'); return
                E.prove(u, z3.BoolVal(u.ghost['throws'] == 0), 'an exception of the element is passed on')
                holds(E, w, u, p, v2, 'assigned'); holds(E, w, u, q, v2, 'source of the assignment'); count(E, u, 2 * N(v2), 'assignment')
            call(E, t2, 'vp_assign', [p, q], a)
            def sw(E, u, o):
                if expect_ret(E, u, o): holds(E, w, u, p, v2, 'swapped'); holds(E, w, u, q, v, 'swapped'); count(E, u, N(v, v2), 'swap')
            call(E, t2, 'vp_swap', [p, q], sw)
        with_opt(E, w, t, 'q', b2)
        def self_(E, u, o):
            if o[0] == 'throw': E.prove(u, z3.BoolVal(u.ghost['throws'] == 1), 'self-assignment throws only if the element copy does')
            holds(E, w, u, p, v, 'self-assignment'); count(E, u, N(v), 'self-assignment')
        call(E, t, 'vp_assign', [p, p], self_)
    with_opt(E, w, s, 'p', b)


def assign_value(E, w, s):
    def b(t, p, v):
        x, xv = w.elem(t, 'x')
        def a(E, u, o):
            if o[0] == 'throw':
                E.prove(u, z3.BoolVal(u.ghost['throws'] == 1), 'value assignment throws only if the element operation does'); count(E, u, N(v) + 1, 'failed value assignment')
                holds(E, w, u, p, v, 'failed value assignment'); return
            E.prove(u, z3.BoolVal(u.ghost['throws'] == 0), 'an exception of the element is passed on')
            holds(E, w, u, p, xv, 'value assignment'); count(E, u, 2, 'value assignment')
        call(E, t, 'vp_assign_v', [p, x], a)
        if v is not None:          # assignment of the own content
            def g(E, u, o):
                def a2(E, y, o2):
                    holds(E, w, y, p, v, 'assignment of the own content'); count(E, y, 2, 'assignment of the own content')
                call(E, u, 'vp_assign_v', [p, o[1]], a2)
            call(E, t, 'vp_get', [p], g)
    with_opt(E, w, s, 'p', b)


def compare(E, w, s):
    def b(t, p, v):
        def b2(t2, q, v2):
            F = z3.BoolVal
            eq = F(v is None and v2 is None) if v is None or v2 is None else v == v2
            lt = F(v is None and v2 is not None) if v is None or v2 is None else v < v2
            gt = F(v is not None and v2 is None) if v is None or v2 is None else v > v2
            for f, sp in (('eq', eq), ('ne', z3.Not(eq)), ('lt', lt), ('gt', gt), ('le', z3.Not(gt)), ('ge', z3.Not(lt))):
                def c(E, u, o, f=f, sp=sp):
                    if expect_ret(E, u, o): E.prove(u, tob(o[1]) == sp, 'comparison %s is that of the values, empty first' % f); count(E, u, N(v, v2), 'comparison')
                call(E, t2, 'vp_' + f, [p, q], c)
        with_opt(E, w, t, 'q', b2)
        for f, r in (('eq', 1), ('ne', 0), ('lt', 0), ('gt', 0), ('le', 1), ('ge', 1)):
            call(E, t, 'vp_' + f, [p, p], lambda E, u, o, r=r: expect_ret(E, u, o) and E.prove(u, tob(o[1]) == z3.BoolVal(r == 1), 'comparison with itself'))
    with_opt(E, w, s, 'p', b)


def convert(E, w, s):
    for full in (False, True):
        t = s.copy(); q = E.alloc(t, 8, 'q')
        y, v = w.elem(t, 'y'); base = dict(t.ghost['live'])
        def made(E, u, o, y=y, v=v, q=q):
            if not expect_ret(E, u, o): return
            # Y is trivially copyable: its copies are live wherever they are stored
            def yp(s): return [c[1] for r in s.mem.values() if False]
            val = v if full else None; n0 = len(u.ghost['live'])
            heap = [r for r in u.mem if isinstance(r, int) and u.mem[r] is not None and u.mem[r].cells.get(0) == (4, v) and r != y.r]
            for r in heap: w.setl(u, Ptr(r, 0), v)
            n0 = len(u.ghost['live']); p = E.alloc(u, 8, 'p')
            def zs(E, x, what, n):
                E.prove(x, z3.BoolVal(len(x.ghost['live']) == n0 + n), what + ': exactly the elements held are alive', 'lifetime')
                def g(E, z, o):
                    if not expect_ret(E, z, o): return
                    if n == 0: E.prove(z, z3.BoolVal(isinstance(o[1], Ptr) and o[1].r is None), what + ': is empty')
                    else: E.prove(z, w.live(E, z, o[1], what + ': holds a live element') == v, what + ': holds the converted value')
                call(E, x, 'vp_z_get', [p], g)
            def c(E, x, o):
                if o[0] == 'throw': E.prove(x, z3.BoolVal(x.ghost['throws'] == 1), 'conversion throws only if the element does'); E.prove(x, z3.BoolVal(len(x.ghost['live']) == n0), 'failed conversion leaves nothing behind', 'lifetime'); return
                zs(E, x, 'converted optional', 1 if full else 0)
                k = 1 if full else 0
                def ca(E, z, o):
                    if o[0] == 'throw': zs(E, z, 'failed converting assignment', k)
                    else: zs(E, z, 'converting assignment', k)
                    call(E, z, 'vp_z_destroy', [p], lambda E, y2, o: expect_ret(E, y2, o) and E.prove(y2, z3.BoolVal(len(y2.ghost['live']) == n0), 'destruction releases the converted element', 'lifetime'))
                call(E, x, 'vp_conv_assign', [p, q], ca)
            call(E, u, 'vp_conv', [p, q], c)
        call(E, t, 'vp_make_y' if full else 'vp_make_y0', [q, y] if full else [q], made)


P = 'pfi::data::optional::'
PROOFS = [dict(name='construction, copy, destruction', src=SRC, fn=wrap(construct), functions=[P + x for x in ('optional', '~optional', 'bool_test', 'get', 'operator*', 'operator->')] + ['safe_bool::operator bool_type']),
          dict(name='assignment and swap', src=SRC, fn=wrap(assign), functions=[P + 'operator=', P + 'swap']), dict(name='assignment of a value', src=SRC, fn=wrap(assign_value), functions=[P + 'operator=']),
          dict(name='comparison', src=SRC, fn=wrap(compare), functions=['operator==', 'operator!=', 'operator<', 'operator>', 'operator<=', 'operator>=']), dict(name='conversion', src=SRC, fn=wrap(convert), functions=[P + 'optional(optional<U>)', P + 'operator=(optional<U>)'])]
HARNESS = [dict(src='c26.cpp', repo=[], budget=2, bound='random sequences of 30 operations on four optionals of an element type that counts its objects and throws at random', leaks=True)]
