"""HTML escaping of strings of every length (below 2^31) and its use for text content."""
from streams import *
SRC = ['inst/c27.cpp', 'text/xhtml.cpp']
ASSUMPTIONS = [OS_ASSUME, 'texts are shorter than 2^31 bytes, elements have fewer than 2^31 attributes and children and are nested less than 2^29 deep (the code indexes with int)', 'std::map and std::vector enumerate their elements in order, shared_ptr gives its object (C++ library contract)', 'a child element of any class writes one complete piece of content (the contract proved for tag_elem and text_elem; prim_elem writes raw text by design)']
LIM = (1 << 31) - 1
ENT = {38: b'&amp;', 34: b'&quot;', 39: b'&#039;', 60: b'&lt;', 62: b'&gt;'}


def width(c):
    w = V64(1)
    for ch, e in ENT.items(): w = z3.If(c == ch, V64(len(e)), w)
    return w


def enc(c, j):
    v = c if j == 0 else z3.BitVecVal(0, 8)
    for ch, e in ENT.items():
        if j < len(e): v = z3.If(c == ch, z3.BitVecVal(e[j], 8), v)
    return v


def encode(E, kind):
    st = with_globals(E)
    s, sv = E.sym_str(st, 's', LIM); n = b64(sv.len); P = E.fresh('P'); J = E.fresh('J')
    L = z3.Function('L', z3.BitVecSort(64), z3.BitVecSort(64)); ch = lambda k: bv(sv.at(simp(b64(k))), 8)
    E.input_terms = [('s', ('seq', sv)), ('P', P)]
    E.assume(st, z3.ULT(P, n)); E.assume(st, L(V64(0)) == 0)
    stream = [None]

    def facts(E, st, k, entry): return [L(simp(b64(k) + 1)) == L(b64(k)) + width(ch(k)), z3.ULE(L(b64(k)), 6 * b64(k))]

    def props(o, k, ln):
        c = ch(P); at = lambda i: bv(o.at(simp(L(P) + i)), 8); w = width(c)
        x = bv(o.at(J), 8)
        return [('each character is replaced by its entity or kept, at its place', z3.Implies(z3.ULT(P, b64(k)), z3.And(z3.ULE(L(P) + w, ln), *[z3.Implies(z3.UGT(w, i), at(i) == enc(c, i)) for i in range(6)]))),
                ('no raw markup character', z3.Implies(z3.ULT(J, ln), z3.And(x != 60, x != 62, x != 34, x != 39)))]

    def inv(E, st, k, entry):
        o = osget(E, st, stream[0]); ln = b64(o.len)
        return [('length so far', ln == L(b64(k))), ('within the text', z3.ULE(b64(k), n))] + props(o, k, ln)
    base = ostream_models()
    def note(E, st, a, ins): stream[0] = a[0]; osset(E, st, a[0], ESTR(E))
    E.local_models += [(base[0][0], note)] + base
    E.loopspecs = [LoopSpec(inv, facts, name='encode loop', phis=cursor(lambda k: k))]
    if kind == 'encode': out = E.alloc(st, 32, 'result'); f = r'^pfi::text::xhtml::html_encode'; args = [out, s]; get = lambda st: sget(E, st, out)
    else: out = E.alloc(st, 112, 'os'); osset(E, st, out, ESTR(E)); f = '^vp_%s\\(' % kind; args = [out, s]; get = lambda st: osget(E, st, out)

    def post(E, st, o):
        if not expect_ret(E, st, o): return
        r = get(st); ln = b64(r.len)
        E.prove(st, ln == L(n), 'total length')
        for nm, f in props(r, n, ln): E.prove(st, f, nm)
    run(E, st, E.func(f), args, post)


# --- rendering of an element: the output is read by an automaton for the markup of one element (a reader of tags, attributes and content)
START, OPEN, INTAG, GAP, KEY, SLASH, BODY, EQ, VAL, VALEND, DONE, LT, CLOSE, CLOSED = range(14)
WS = (9, 10, 13, 32)
STEP = {(START, '<'): OPEN, (INTAG, '/'): SLASH, (INTAG, '>'): BODY, (GAP, '/'): SLASH, (GAP, '>'): BODY, (KEY, '='): EQ, (KEY, '/'): SLASH, (KEY, '>'): BODY, (SLASH, '>'): DONE, (BODY, '<'): LT, (EQ, '"'): VAL,
        (VAL, '"'): INTAG, (VALEND, '"'): INTAG, (LT, '/'): CLOSE, (CLOSED, '>'): DONE}
for _c in WS: STEP.update({(INTAG, chr(_c)): GAP, (GAP, chr(_c)): GAP, (KEY, chr(_c)): GAP, (CLOSED, chr(_c)): CLOSED})


class Prov(FunN):
    """content of a string with its origin: (escaped?, what, index)"""
    def __init__(self, f, prov): FunN.__init__(self, f); self.prov = prov


class Tag:
    """a tag element with any number of attributes and children, and the reader of its output (state, attributes and children read so far)"""
    def __init__(w, E):
        w.E = E; w.st = st = with_globals(E); w.g = E.alloc(st, 24, 'reader'); w.this = E.alloc(st, 112, 'element'); w.os = E.alloc(st, 272, 'os'); w.na = E.fresh('attributes'); w.nc = E.fresh('children'); B = z3.BitVecSort(64)
        E.assume(st, z3.And(z3.ULT(w.na, 1 << 31), z3.ULT(w.nc, (1 << 31) - 1)))
        w.len = {k: z3.Function('len!' + k, B, B) for k in ('name', 'key', 'value')}; w.chr = {k: z3.Function('chr!' + k, B, B, z3.BitVecSort(8)) for k in w.len}; w.elen = z3.Function('elen', B, B, B)
        vt = E.alloc(st, 64, 'vtable'); st.mem[vt.r].cells[0] = (8, 0); st.mem[w.os.r].cells[0] = (8, Ptr(vt.r, 24)); sset(E, st, Ptr(w.this.r, 8), w.string(st, 'name', V64(0)))
        w.cvt = E.alloc(st, 48, 'vtable of a child'); w.pos = E.region(st, None, 'positions'); w.kids = E.region(st, None, 'children')
        for o in (16, 24): E.storew(st, Ptr(w.cvt.r, o), Ptr(('PF', w.child), 0), 8)
        for i in range(3): w.sgh(st, i, V64(0))
        M = r'(.* )?std::map<std::(__cxx11::)?basic_string<.*>::'; V = r'(.* )?std::vector<(pfi::lang|std)::shared_ptr<pfi::text::xhtml::html_elem.*>::'; P = r'(.* )?std::__shared_ptr(_access)?<pfi::text::xhtml::html_elem.*>::'; I = r'std::_Rb_tree_(const_)?iterator<.*>::'
        OS = r'.*std::operator<<.*\(std::(basic_)?ostream.*&, '
        E.local_models += [(M + r'c?begin\(\)', lambda E, s, a, ins: Ptr(w.pos, 0)), (M + r'c?end\(\)', lambda E, s, a, ins: Ptr(w.pos, w.na)), (M + r'size\(\)', lambda E, s, a, ins: w.na), (M + r'empty\(\)', lambda E, s, a, ins: w.na == 0),
                           (I + r'operator\+\+\(\)', w.inc), (I + r'operator\+\+\(int\)', w.postinc), (I + r'operator(->|\*)\(\)', w.attr),
                           (V + r'size\(\)', lambda E, s, a, ins: w.nc), (V + r'empty\(\)', lambda E, s, a, ins: w.nc == 0), (V + r'(operator\[\]|at)\(', w.kid), (V + r'c?begin\(\)', lambda E, s, a, ins: Ptr(w.kids, 0)), (V + r'c?end\(\)', lambda E, s, a, ins: Ptr(w.kids, simp(16 * w.nc))),
                           (P + r'(get|operator->|_M_get|operator\*)\(\)', w.ptr), (r'.*pfi::text::xhtml::html_encode\(', w.encode),
                           (OS + r'(unsigned |signed )?char\)$', lambda E, s, a, ins: w.char(s, a[0], a[1])), (OS + r'char const\*\)$', lambda E, s, a, ins: w.chars(s, a[0], cstr_seq(E, s, a[1]))), (OS + r'std::(__cxx11::)?basic_string.*\)$', lambda E, s, a, ins: w.chars(s, a[0], sget(E, s, a[1]))),
                           (r'std::(basic_)?ostream.*::put\(char\)', lambda E, s, a, ins: w.char(s, a[0], a[1])), (r'std::(basic_)?ostream.*::write\(char const', lambda E, s, a, ins: w.chars(s, a[0], bufseq(E, s, a[1], a[2]))),
                           (r'.*std::endl<', lambda E, s, a, ins: w.char(s, a[0], 10)), (r'std::(basic_)?ostream.*::operator<<\(std::(basic_)?ostream.*\(\*\)', w.manip), (r'std::(basic_)?ostream.*::flush\(\)', lambda E, s, a, ins: a[0])]
        E.loopspecs += [LoopSpec(w.inv('attribute'), None, 'attribute loop', w.calls(r'_Rb_tree_(const_)?iterator<.*>::operator\+\+')), LoopSpec(w.inv('child'), None, 'children loop', w.calls(r'html_elem.*>::(get|operator->|_M_get|operator\*)\(')), LoopSpec(w.inv('space'), None, 'white space loop', r'tag_elem')]
        E.input_terms = [('attributes', w.na), ('children', w.nc)]

    def calls(w, rx):
        def sel(E, st, fr, label):
            if not outermost(E, st, fr, label): return False
            def reach(f, blocks, depth):
                for b in blocks:
                    for i in f.blocks[b]:
                        cv = i.x.get('callee') if i.op in ('call', 'invoke') else None
                        if cv is None or cv.k != 'global' or cv.v not in E.mod.funcs: continue
                        g = E.mod.funcs[cv.v]
                        if re.search(rx, g.dem): return True
                        if depth and 'xhtml' in g.dem and g.blocks and reach(g, g.blocks, depth - 1): return True
                return False
            return reach(fr.f, fr.f.loops()[label], 2)
        return sel

    def gh(w, s, i): return b64(w.E.loadw(s, Ptr(w.g.r, 8 * i), 8))
    def sgh(w, s, i, v): w.E.storew(s, Ptr(w.g.r, 8 * i), simp(v), 8)
    def done(w, s): return w.gh(s, 1) + z3.If(w.gh(s, 0) == KEY, V64(1), V64(0))

    def inv(w, kind):
        def f(E, s, k, e):
            k = b64(k); ph = w.gh(s, 0); tag = z3.Or(ph == INTAG, ph == GAP, ph == KEY); ph0 = w.gh(e, 0); tag0 = z3.Or(ph0 == INTAG, ph0 == GAP, ph0 == KEY)
            pend = ('an attribute without a value has none', z3.Implies(ph == KEY, w.len['value'](w.gh(s, 1)) == 0))
            if kind == 'attribute': return [('between attributes', tag), ('attributes written', z3.And(w.done(s) == k, z3.ULE(k, w.na))), ('no child yet', w.gh(s, 2) == 0), pend]
            if kind == 'child': return [('in the content', z3.And(ph == BODY, w.gh(s, 1) == w.na)), ('children written', z3.And(w.gh(s, 2) == k, z3.ULE(k, w.nc)))]
            return [('same part of the markup', z3.Or(ph == ph0, z3.And(tag, tag0))), ('nothing but white space', z3.And(w.done(s) == w.done(e), w.gh(s, 2) == w.gh(e, 2))), pend]
        return f

    def string(w, st, what, i): return Seq(Prov(lambda j: w.chr[what](simp(i), b64(j)), (False, what, simp(i))), w.text(st, w.len[what](simp(i))), 1)
    def text(w, st, n): w.E.assume(st, z3.ULT(n, 1 << 31)); return n

    def inc(w, E, s, a, ins):
        it = E.loadw(s, a[0], 8); w.known(it, w.pos)
        E.prove(s, z3.ULT(b64(it.o), w.na), 'an iterator at the end is not incremented', 'pre'); E.storew(s, a[0], Ptr(it.r, add64(it.o, 1)), 8); return a[0]
    def postinc(w, E, s, a, ins): it = E.loadw(s, a[0], 8); w.inc(E, s, a, ins); return it
    def known(w, p, r):
        if not isinstance(p, Ptr) or p.r != r: raise Unsupported('iterator or pointer of another object')
    def attr(w, E, s, a, ins):
        it = E.loadw(s, a[0], 8); w.known(it, w.pos); i = b64(it.o); E.prove(s, z3.ULT(i, w.na), 'an iterator at the end is not dereferenced', 'pre')
        p = E.alloc(s, 64, 'attribute'); sset(E, s, p, w.string(s, 'key', i)); sset(E, s, Ptr(p.r, 32), w.string(s, 'value', i)); return p
    def kid(w, E, s, a, ins):
        i = b64(a[1]); E.prove(s, z3.ULT(i, w.nc), 'index of a child', 'pre'); return Ptr(w.kids, simp(16 * i))
    def ptr(w, E, s, a, ins):
        w.known(a[0], w.kids); i = simp(z3.LShR(b64(a[0].o), 4)); E.prove(s, z3.And(z3.ULT(i, w.nc), 16 * i == b64(a[0].o)), 'a child is dereferenced', 'pre')
        p = E.alloc(s, 24, 'child'); E.storew(s, p, w.cvt, 8); E.storew(s, Ptr(p.r, 8), i, 8); return p
    def child(w, E, s, a, ins):
        i = b64(E.loadw(s, Ptr(a[0].r, 8), 8)); E.prove(s, z3.And(w.gh(s, 0) == BODY, i == w.gh(s, 2)), 'the children are written in order inside the element'); w.sgh(s, 2, i + 1)
    def encode(w, E, s, a, ins):
        q = sget(E, s, a[1]); pr = getattr(q.n, 'prov', None)
        if pr is None:
            if isint(q.len) and q.len == 0: sset(E, s, a[0], q); return
            raise Unsupported('escape of a text of unknown origin')
        k = V64(('name', 'key', 'value').index(pr[1])) + (V64(4) if pr[0] else 0); n = w.elen(simp(k), pr[2]); E.assume(s, (n == 0) == (b64(q.len) == 0)); f = z3.Function('esc!%d' % next(E.cnt), z3.BitVecSort(64), z3.BitVecSort(8))
        sset(E, s, a[0], Seq(Prov(lambda j: f(b64(j)), (True if not pr[0] else 2, pr[1], pr[2])), w.text(s, n), 1))
    def manip(w, E, s, a, ins):
        if isinstance(a[1], Ptr) and isinstance(a[1].r, tuple) and 'endl' in a[1].r[1]: return w.char(s, a[0], 10)
        if isinstance(a[1], Ptr) and isinstance(a[1].r, tuple) and 'flush' in a[1].r[1]: return a[0]
        raise Unsupported('stream manipulator')

    def go(w, s, os, alts, what):
        """alts: (state, further condition, new state, attribute completed); other states cannot read this"""
        if not (isinstance(os, Ptr) and os.r == w.os.r): raise Unsupported('another stream')
        E = w.E; ph = w.gh(s, 0); n = w.gh(s, 1); new = ph; cnt = n
        E.prove(s, z3.Or(*[z3.And(ph == p, c) for p, c, _, _ in alts]) if alts else z3.BoolVal(False), 'the markup reads back: ' + what)
        for p, c, q, d in alts:
            new = z3.If(ph == p, V64(q), new)
            if d: cnt = z3.If(ph == p, n + 1, cnt)
        w.sgh(s, 0, new); w.sgh(s, 1, cnt); return os
    def char(w, s, os, c):
        c = simp(bv(c, 8)); E = w.E
        if not isint(c) and not z3.is_bv_value(c): raise Unsupported('character of unknown value')
        ch = chr((c if isint(c) else c.as_long()) & 255); n = w.gh(s, 1); empty = w.len['value'](n) == 0; alts = []
        for (p, x), q in STEP.items():
            if x != ch: continue
            cond = z3.BoolVal(True); d = False
            if p == KEY and q != EQ: cond = empty; d = True
            if p == VAL: cond = empty; d = True
            if p == VALEND: d = True
            if q in (BODY, SLASH): cond = z3.And(cond, (n + 1 if d else n) == w.na)
            if q == SLASH: cond = z3.And(cond, w.nc == 0)
            if q == LT: cond = z3.And(cond, w.gh(s, 2) == w.nc)
            alts.append((p, cond, q, d))
        return w.go(s, os, alts, 'character ' + repr(ch))
    def chars(w, s, os, q):
        pr = getattr(q.n, 'prov', None)
        if pr is None:
            if not isint(q.len): raise Unsupported('text of unknown origin')
            for i in range(q.len): w.char(s, os, q.at(i))
            return os
        e, what, i = pr; E = w.E; n = w.gh(s, 1)
        E.prove(s, z3.BoolVal(e is True), 'tag names, attribute names and values are written escaped once')
        alts = {'name': [(OPEN, z3.BoolVal(True), INTAG, False), (CLOSE, z3.BoolVal(True), CLOSED, False)], 'key': [(GAP, i == n, KEY, False)], 'value': [(VAL, i == n, VALEND, False)]}[what]
        return w.go(s, os, alts, 'escaped ' + what)


def tag(E, fn):
    w = Tag(E); st = w.st; args = [w.this, w.os]
    if fn == 'pretty': ind = E.fresh('indent', 32); E.assume(st, z3.And(ind >= 0, ind < (1 << 29))); args.append(ind); E.input_terms.append(('indent', ind))
    def post(E, s, o):
        if not expect_ret(E, s, o): return
        E.prove(s, w.gh(s, 0) == DONE, 'one complete element is written'); E.prove(s, w.gh(s, 1) == w.na, 'every attribute is written'); E.prove(s, w.gh(s, 2) == w.nc, 'every child is written')
    run(E, st, E.func(r'^pfi::text::xhtml::tag_elem::%s\(' % fn), args, post)



PROOFS = [dict(name=k, src=SRC, fn=(lambda k: lambda E: encode(E, k))(k), functions=f) for k, f in (('encode', ['html_encode']), ('text', ['text_elem::render', 'html_encode']), ('text_pretty', ['html_elem::pretty', 'text_elem::render', 'html_encode']))]
PROOFS += [dict(name='element: ' + f, src=SRC, fn=lambda E, f=f: tag(E, f), functions=['tag_elem::' + f]) for f in ('render', 'pretty')]
HARNESS = [dict(src='c27.cpp', repo=['text/xhtml.cpp'], budget=2, bound='all strings of up to 2 bytes, random strings to 300 bytes, random element trees of depth 3, parsed back by an independent reader')]
