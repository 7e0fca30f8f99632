"""String utilities: strip, split, join, replace, prefix and suffix tests on byte strings of every length."""
from streams import *
SRC = ['inst/c19.cpp']
ASSUMPTIONS = [CT_ASSUME, 'std::string, std::search (first occurrence) and std::equal by contract', 'strings below 2^31 bytes', 'the templates are verified for std::string, with split output and join input through iterators with arbitrary contents; vectors and other containers by the bounded stand-in']
LIM = 1 << 31
W64 = z3.BitVecSort(64)
Fn = lambda n: z3.Function(n, W64, W64)
sp = c_space


def at(v, i): return bv(v.at(simp(b64(i))), 8)


def strips(E, fn, left, right, byval):
    st = with_globals(E); E.local_models += ctype_models(); s, v = E.sym_str(st, 's', LIM); n = b64(v.len); res, _ = E.sym_str(st, 'res', LIM)
    LO = E.fresh('lo') if left else V64(0); HI = E.fresh('hi') if right else n; J = E.fresh('J'); E.input_terms = [('s', ('seq', v))]
    def defs(x):        # LO: first character that is not white space (or the end); HI: end of the last one at or after LO
        r = [z3.ULE(LO, HI), z3.ULE(HI, n)]
        if left: r += [z3.Implies(z3.ULT(x, LO), sp(at(v, x))), z3.Or(LO == n, z3.Not(sp(at(v, LO))))]
        if right: r += [z3.Implies(z3.And(z3.ULE(HI, x), z3.ULT(x, n)), sp(at(v, x))), z3.Or(HI == LO, z3.Not(sp(at(v, HI - 1))))]
        return r
    for f in defs(J): E.assume(st, f)
    def phis(E, s2, k, e, init, cur, steps):
        out = []
        for x, p in cur.items():
            if isinstance(p, Ptr) and x in steps: out.append(z3.ULE(b64(p.o), LO) if steps[x] == 1 else z3.UGE(b64(p.o), HI))
        return out
    def inv(E, s2, k, e): return [('counter', z3.ULE(b64(k), n))]
    E.loopspecs = [LoopSpec(inv, lambda E, s2, k, e: defs(b64(k)) + defs(n - b64(k) - 1), 'scan', None, phis, cells=True)]
    def post(E, s2, o):
        if not expect_ret(E, s2, o): return
        r = sget(E, s2, res); E.prove(s2, b64(r.len) == HI - LO, 'everything between the stripped ends is kept, nothing else')
        E.prove(s2, z3.Implies(z3.ULT(J, b64(r.len)), at(r, J) == at(v, LO + J)), 'the kept characters are unchanged'); w = sget(E, s2, s); E.prove(s2, z3.And(b64(w.len) == n, z3.Implies(z3.ULT(J, n), at(w, J) == at(v, J))), 'the argument is unchanged')
    run(E, st, E.func('^vp_%s%s\\(' % (fn, '1' if byval else '')), [res, s] if byval else [s, res], post)


def search(E, v, sepv, FIRST):
    n = b64(v.len); sl = b64(sepv.len)
    def m(E, s, a, ins):
        b, e, f, g = a
        E.prove(s, z3.And(b64(e.o) == n, b64(f.o) == 0, b64(g.o) == sl, z3.ULE(b64(b.o), n)), 'the rest of the text is searched for the whole separator', 'pre')
        r = FIRST(b64(b.o)); E.assume(s, z3.And(z3.ULE(b64(b.o), r), z3.ULE(r, n), z3.Or(r == n, z3.ULE(r + sl, n)))); return Ptr(b.r, r)
    return [('.*std::search<', m)]


def emitter(E, st, v, S, EN):
    cell = E.alloc(st, 8, 'pieces'); E.storew(st, cell, 0, 8)
    def emit(E, s, a, ins):
        p = sget(E, s, a[0]); c = b64(E.loadw(s, cell, 8)); J = E.fresh('J')
        E.prove(s, b64(p.len) == EN(c) - S(c), 'a piece runs to the next separator or the end'); E.prove(s, z3.Implies(z3.ULT(J, b64(p.len)), at(p, J) == at(v, S(c) + J)), 'a piece is the text between separators')
        E.storew(s, cell, simp(c + 1), 8)
    E.local_models += [(r'emit\(', emit)]
    return lambda s: b64(E.loadw(s, cell, 8))


def split_char(E):
    st = with_globals(E); s, v = E.sym_str(st, 's', LIM); n = b64(v.len); c = E.fresh('sep', 8); S = Fn('S'); EN = Fn('EN'); E.input_terms = [('s', ('seq', v)), ('sep', c)]; cnt = emitter(E, st, v, S, EN)
    def defs(k, x):     # EN(k): first separator at or after S(k), or the end of the text
        return [z3.Implies(z3.ULE(S(k), n), z3.And(z3.ULE(S(k), EN(k)), z3.ULE(EN(k), n))), z3.Implies(z3.And(z3.ULE(S(k), x), z3.ULT(x, EN(k))), at(v, x) != c), z3.Or(EN(k) == n, at(v, EN(k)) == c), z3.Implies(EN(k) != n, S(k + 1) == EN(k) + 1)]
    E.assume(st, S(V64(0)) == 0)
    # one invariant for every loop, in terms of the number of pieces delivered: an advancing cursor is inside piece cnt, another one at its start
    cu = []
    def inv(E, s2, k, e): g = cnt(s2); return [('pieces start inside the text', z3.And(z3.ULE(S(g), n), z3.ULE(g, S(g))))]
    def facts(E, s2, k, e): g = cnt(s2); return [f for x in cu or [S(g)] for f in defs(g, x) + defs(g + 1, x)]
    def phis(E, s2, k, e, init, cur, steps):
        r = s2.mem and Ptr(text.r, 0).r; g = cnt(s2); cu[:] = [b64(p.o) for p in cur.values() if isinstance(p, Ptr) and p.r == r]
        for f in [f for x in cu for f in defs(g, x)]: E.assume(s2, f)         # definitional
        return [f for x, p in cur.items() if isinstance(p, Ptr) and p.r == r for f in ([z3.ULE(S(g), b64(p.o)), z3.ULE(b64(p.o), EN(g))] if steps.get(x) not in (None, 0) else [b64(p.o) == S(g)])]
    text = E.dataptr(st, s, sget(E, st, s))
    E.loopspecs = [LoopSpec(inv, facts, 'piece loop', None, phis, cells=True)]
    def post(E, s2, o):
        if not expect_ret(E, s2, o): return
        E.prove(s2, z3.And(cnt(s2) != 0, EN(cnt(s2) - 1) == n), 'pieces up to the end of the text, at least one')
    run(E, st, E.func(r'^vp_split\('), [s, c], post)


def split_str(E, empty):
    st = with_globals(E); s, v = E.sym_str(st, 's', LIM); n = b64(v.len); t, tv = E.sym_str(st, 'sep', LIM); sl = b64(tv.len); E.assume(st, (sl == 0) if empty else (sl != 0)); S = Fn('S'); FIRST = Fn('FIRST'); EN = lambda k: FIRST(S(k)); E.input_terms = [('s', ('seq', v)), ('sep', ('seq', tv))]
    cnt = emitter(E, st, v, S, EN); E.local_models += search(E, v, tv, FIRST); E.assume(st, S(V64(0)) == 0)
    def inv(E, s2, k, e): return [('one piece per round', cnt(s2) == b64(k)), ('within the text', z3.ULE(S(b64(k)), n))]
    def facts(E, s2, k, e): return [z3.Implies(EN(b64(k)) != n, S(b64(k) + 1) == EN(b64(k)) + sl)]
    def phis(E, s2, k, e, init, cur, steps): return [b64(p.o) == S(b64(k)) for p in cur.values() if isinstance(p, Ptr)]
    E.loopspecs = [LoopSpec(inv, facts, 'piece loop', None, phis, cells=True)]
    def post(E, s2, o):
        if not expect_ret(E, s2, o): return
        if empty: E.prove(s2, cnt(s2) == 0, 'an empty separator yields nothing')
        else: E.prove(s2, z3.And(cnt(s2) != 0, EN(cnt(s2) - 1) == n), 'pieces up to the end of the text, at least one')
    run(E, st, E.func(r'^vp_splits\('), [s, t], post)


def catch_local(E, st, keep):
    """note the address of the local result string"""
    loc = []
    def note(E, s, a, ins): loc.append(a[0]); newstr(E, s, a[0], cstring(b''))
    E.local_models += [(S(r'basic_string\(\)'), note)]
    return lambda s: sget(E, s, loc[-1])


def S(x): return r'std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> ?>::' + x


def replace(E, empty, byval):
    st = with_globals(E); s, v = E.sym_str(st, 's', LIM); n = b64(v.len); t, tv = E.sym_str(st, 'from', LIM); fl = b64(tv.len); u, uv = E.sym_str(st, 'to', LIM); ul = b64(uv.len); res, _ = E.sym_str(st, 'res', LIM); E.assume(st, (fl == 0) if empty else (fl != 0))
    ST = Fn('S'); FIRST = Fn('FIRST'); OFF = Fn('OFF'); F = E.fresh('F'); J = E.fresh('J'); EN = lambda k: FIRST(ST(k)); E.input_terms = [('s', ('seq', v)), ('from', ('seq', tv)), ('to', ('seq', uv))]
    E.local_models += search(E, v, tv, FIRST); cur = catch_local(E, st, 1); PL = lambda k: EN(k) - ST(k)
    E.assume(st, z3.And(ST(V64(0)) == 0, OFF(V64(0)) == 0))
    # arbitrary piece F: D is the place of its character J, D2 that of character J2 of the replacement after it
    J2 = E.fresh('J2'); D = E.fresh('D'); D2 = E.fresh('D2'); VF = E.fresh('VF', 8); E.assume(st, z3.And(z3.ULT(J, PL(F)), z3.ULE(PL(F), n), VF == at(v, ST(F) + J), D == OFF(F) + J, D2 == OFF(F) + PL(F) + J2, z3.ULT(D, 1 << 62), z3.ULT(D2, 1 << 62)))
    def defs(k): return [z3.Implies(F == k, z3.And(D == OFF(k) + J, D2 == OFF(k) + PL(k) + J2, z3.ULT(J, PL(k)), VF == at(v, ST(k) + J))), z3.Implies(EN(k) != n, ST(k + 1) == EN(k) + fl), OFF(k + 1) == OFF(k) + PL(k) + ul, z3.ULT(OFF(k), 1 << 61), z3.Implies(z3.ULT(F, k), z3.And(z3.ULT(D, OFF(k)), z3.Implies(z3.ULT(J2, ul), z3.ULT(D2, OFF(k)))))]
    def content(r, k): return [('last text piece in place', z3.Implies(z3.And(z3.ULT(F, k), F + 1 == k), at(r, D) == VF)), ('earlier pieces kept', z3.Implies(z3.And(z3.ULT(F, k), F + 1 != k), at(r, D) == VF)), ('last replacement in place', z3.Implies(z3.And(z3.ULT(F, k), F + 1 == k, z3.ULT(J2, ul)), at(r, D2) == at(uv, J2))), ('earlier replacements kept', z3.Implies(z3.And(z3.ULT(F, k), F + 1 != k, z3.ULT(J2, ul)), at(r, D2) == at(uv, J2)))]
    def inv(E, s2, k, e): r = cur(s2); return [('within the text', z3.ULE(ST(b64(k)), n)), ('length so far', b64(r.len) == OFF(b64(k)))] + content(r, b64(k))
    def phis(E, s2, k, e, init, c, steps): return [b64(p.o) == ST(b64(k)) for p in c.values() if isinstance(p, Ptr)]
    def facts(E, s2, k, e): s2.ghost['k'] = b64(k); return defs(b64(k))
    if not empty: E.loopspecs = [LoopSpec(inv, facts, 'piece loop', None, phis, cells=True)]
    def post(E, s2, o):
        if not expect_ret(E, s2, o): return
        r = sget(E, s2, res)
        if empty: E.prove(s2, z3.And(b64(r.len) == n, z3.Implies(z3.ULT(J, n), at(r, J) == at(v, J))), 'an empty pattern changes nothing'); return
        k = s2.ghost['k']; E.prove(s2, EN(k) == n, 'the last piece runs to the end'); E.prove(s2, b64(r.len) == OFF(k) + PL(k), 'length of the result')
        for nm, f in content(r, k): E.prove(s2, f, nm)
        E.prove(s2, z3.Implies(F == k, at(r, D) == VF), 'the last piece is in place')
    run(E, st, E.func('^vp_replace%s\\(' % ('1' if byval else '')), [res, s, t, u] if byval else [s, t, u, res], post)


def join(E, byval):
    st = with_globals(E); sep, sv = E.sym_str(st, 'sep', LIM); sl = b64(sv.len); res, _ = E.sym_str(st, 'res', LIM); n = E.fresh('n'); E.assume(st, z3.ULT(n, 1 << 30))
    LEN = Fn('LEN'); OFF = Fn('OFF'); CHR = z3.Function('CHR', W64, W64, z3.BitVecSort(8)); F = E.fresh('F'); J = E.fresh('J'); cur = catch_local(E, st, 1); E.assume(st, OFF(V64(0)) == 0)
    def elem(E, s, a, ins):
        i = b64(a[0]); E.prove(s, z3.ULT(i, n), 'only the given strings are read', 'pre'); p = E.alloc(s, 32, 'elem'); E.setobj(s, p, Seq(FunN(lambda j: CHR(i, b64(j))), LEN(i), 1, 'str', next(E.cnt)), 32); E.assume(s, z3.ULT(LEN(i), LIM)); return p
    E.local_models += [(r'elem(\[abi:cxx11\])?\(', elem)]
    # FIN(k): length of the text joined from the first k strings; D: place of character J of string F, D2: of character J2 of the separator after it
    J2 = E.fresh('J2'); D = E.fresh('D'); D2 = E.fresh('D2'); VF = E.fresh('VF', 8); FIN = OFF; gap = lambda k: z3.If(k == 0, V64(0), sl)
    E.assume(st, z3.And(z3.ULT(J, LEN(F)), z3.ULT(LEN(F), LIM), VF == CHR(F, J), D == FIN(F) + gap(F) + J, D2 == FIN(F + 1) + J2, z3.ULT(D, 1 << 62), z3.ULT(D2, 1 << 62)))
    def defs(k): return [FIN(k + 1) == FIN(k) + gap(k) + LEN(k), z3.ULT(LEN(k), LIM), z3.ULT(FIN(k), 1 << 62), z3.Implies(k == 0, FIN(k) == 0), z3.Implies(F == k, z3.And(D == FIN(k) + gap(k) + J, z3.ULT(J, LEN(k)), VF == CHR(k, J))), z3.Implies(F + 1 == k, D2 == FIN(k) + J2), z3.Implies(z3.ULT(F, k), z3.ULT(D, FIN(k))), z3.Implies(z3.And(z3.ULT(F + 1, k), z3.ULT(J2, sl)), z3.ULT(D2, FIN(k)))]
    def content(r, k): return [('length', b64(r.len) == FIN(k)), ('last string in place', z3.Implies(F + 1 == k, at(r, D) == VF)), ('earlier strings kept', z3.Implies(z3.ULT(F + 1, k), at(r, D) == VF)), ('last separator in place', z3.Implies(z3.And(F + 2 == k, z3.ULT(J2, sl)), at(r, D2) == at(sv, J2))), ('earlier separators kept', z3.Implies(z3.And(z3.ULT(F + 2, k), z3.ULT(J2, sl)), at(r, D2) == at(sv, J2)))]
    def inv(E, s2, k, e): return [('counter', z3.ULE(b64(k), n))] + content(cur(s2), b64(k))
    def phis(E, s2, k, e, init, c, steps):
        out = []
        for x, p in c.items():      # the 'first' flag: its initial value before the first string, the opposite afterwards
            if x in steps or isinstance(p, Ptr) or not isint(init[x]): continue
            w = p.size() if isinstance(p, z3.BitVecRef) else 8; out.append(bv(p, w) == z3.If(b64(k) == 0, z3.BitVecVal(init[x], w), z3.BitVecVal(1 - init[x], w)))
        return out
    E.assume(st, z3.ULT(F, n))
    E.loopspecs = [LoopSpec(inv, lambda E, s2, k, e: defs(b64(k)), 'join loop', None, phis, cells=True)]
    for f in defs(n): E.assume(st, f)
    def post(E, s2, o):
        if not expect_ret(E, s2, o): return
        for nm, f in content(sget(E, s2, res), n): E.prove(s2, f, nm)
    run(E, st, E.func('^vp_join%s\\(' % ('1' if byval else '')), [res, V64(0), n, sep] if byval else [V64(0), n, sep, res], post)


def affix(E, fn):
    st = with_globals(E); s, v = E.sym_str(st, 's', LIM); t, tv = E.sym_str(st, 'affix', LIM); n, m = b64(v.len), b64(tv.len); J = E.fresh('J'); wit = []; E.input_terms = [('s', ('seq', v)), ('affix', ('seq', tv))]
    def equal(E, s2, a, ins):
        rev = 'reverse_iterator' in demangle(ins.x['callee'].v)
        if rev: a = [E.loadw(s2, p, 8) for p in a[:3]]
        b, e, c = a[:3]
        if not all(isinstance(p, Ptr) for p in (b, e, c)) or b.r != e.r: raise Unsupported('std::equal over other iterators')
        d = -1 if rev else 1; ln = simp((b64(e.o) - b64(b.o)) * d); x, y = E.view(s2, b), E.view(s2, c); ix = lambda p, j: (b64(p.o) - 1 - j) if rev else (b64(p.o) + j)
        inb = lambda p, w: z3.ULE(ln, b64(p.o)) if rev else z3.And(z3.ULE(b64(p.o), b64(w.len)), z3.ULE(ln, b64(w.len) - b64(p.o)))
        E.prove(s2, z3.And(z3.ULT(ln, 1 << 40), inb(b, x), inb(c, y)), 'both ranges lie in their strings', 'memory')
        W = E.fresh('mismatch'); wit.append(W)
        r = E.fresh('equal', 1); E.assume(s2, z3.If(tob(r), z3.Implies(z3.ULT(J, ln), at(x, ix(b, J)) == at(y, ix(c, J))), z3.And(z3.ULT(W, ln), at(x, ix(b, W)) != at(y, ix(c, W))))); return r
    E.local_models += [(r'.*std::equal<', equal)]
    off = V64(0) if fn == 'starts' else n - m
    def post(E, s2, o):
        if not expect_ret(E, s2, o): return
        r = tob(o[1]); ix = J if fn == 'starts' else m - 1 - J
        E.prove(s2, z3.Implies(z3.And(r, z3.ULT(J, m)), z3.And(z3.ULE(m, n), at(v, off + ix) == at(tv, ix))), 'true only if every character agrees'); E.prove(s2, z3.Implies(r, z3.ULE(m, n)), 'true only if it fits')
        E.prove(s2, z3.Implies(z3.Not(r), z3.Or([z3.UGT(m, n)] + [z3.And(z3.ULT(x, m), at(v, off + (x if fn == 'starts' else m - 1 - x)) != at(tv, x if fn == 'starts' else m - 1 - x)) for x in wit])), 'false only if it is longer or some character differs')
    run(E, st, E.func('^vp_%s\\(' % fn), [s, t], post)


PROOFS = []
for fn, l, r in (('strip', 1, 1), ('lstrip', 1, 0), ('rstrip', 0, 1)):
    for bvl in (0, 1): PROOFS.append(dict(name=fn + (' (by value)' if bvl else ''), src=SRC, fn=lambda E, a=(fn, l, r, bvl): strips(E, *a), functions=[fn]))
PROOFS += [dict(name='split at a character', src=SRC, fn=split_char, functions=['split']), dict(name='split at a string', src=SRC, fn=lambda E: split_str(E, 0), functions=['split']), dict(name='split at an empty string', src=SRC, fn=lambda E: split_str(E, 1), functions=['split'])]
PROOFS += [dict(name='replace' + (' (by value)' if b else ''), src=SRC, fn=lambda E, b=b: replace(E, 0, b), functions=['replace']) for b in (0, 1)] + [dict(name='replace of nothing', src=SRC, fn=lambda E: replace(E, 1, 0), functions=['replace'])]
PROOFS += [dict(name='join' + (' (by value)' if b else ''), src=SRC, fn=lambda E, b=b: join(E, b), functions=['join']) for b in (0, 1)]
PROOFS += [dict(name='starts_with', src=SRC, fn=lambda E: affix(E, 'starts'), functions=['starts_with']), dict(name='ends_with', src=SRC, fn=lambda E: affix(E, 'ends'), functions=['ends_with'])]
HARNESS = [dict(src='c19.cpp', repo=[], budget=2, bound='all strings of up to 7 characters over small alphabets, random byte strings of up to 60 bytes', asan=True)]
