"""URI references: every parser function against a functional grammar (the end position of each component), composed through their contracts up to the constructor."""
from common import *
from streams import ctype_models, CT_ASSUME, c_alpha, c_digit, c_xdigit
SRC = ['network/uri.cpp']
ASSUMPTIONS = [CT_ASSUME, 'the end of a run of characters is the function defined by recursion over the text, so the recursion equation may be instantiated at any position', 'references shorter than 2^31 characters', 'that parse_ipv6_1 to parse_ipv6_9 together accept exactly the IPv6 addresses only by the bounded stand-in']
B64 = z3.BitVecSort(64)
FIELDS = ['scheme', 'userinfo', 'host', 'port', 'path', 'query', 'fragment']


class U:
    def __init__(self, E):
        self.E = E; st = self.st = with_globals(E); self.N = N = E.fresh('len'); E.assume(st, z3.ULT(N, 1 << 31)); self.arr = E.fresharr('text', 8)
        E.assume(st, z3.Select(self.arr, N) == 0); self.text = Seq(ArrN(self.arr), simp(N + 1), 1, 'buf'); self.buf = Ptr(E.seqregion(st, self.text, 'text'), 0); st.mem[self.buf.r].const = True
        self.this = E.alloc(st, 224, 'uri'); self.X = E.fresh('X'); self.old = []
        for f in range(7):
            v = Seq(ArrN(E.fresharr('old' + FIELDS[f], 8)), E.fresh('oldlen'), 1, 'str'); E.assume(st, z3.ULT(v.len, 1 << 31)); E.setobj(st, Ptr(self.this.r, 32 * f), v, 32); self.old.append(v)
        self.i0 = E.fresh('start'); E.assume(st, z3.ULE(self.i0, N)); self.pp = E.alloc(st, 8, 'p'); E.storew(st, self.pp, Ptr(self.buf.r, self.i0), 8)
        F = lambda n: z3.Function(n, B64, B64)
        self.UF = {n: F(n) for n in ['SCH', 'UI', 'REG', 'DIG', 'HX', 'IV', 'SEG', 'SEGNC', 'QF', 'AB', 'IP6E', 'HOSTE', 'HE', 'OE', 'V4E'] + ['E6_%d' % k for k in range(1, 10)] + ['PRE%d' % k for k in range(7)]}; self.OK6 = {k: z3.Function('OK6_%d' % k, B64, z3.BoolSort()) for k in range(1, 10)}; self.V4 = z3.Function('V4', B64, z3.BoolSort()); self.IP6 = z3.Function('IP6', B64, z3.BoolSort())
        E.local_models += ctype_models(); E.input_terms = [('text', ('seq', self.text.with_(len=N))), ('start', self.i0)]
        self.known = []
    c = lambda self, i: z3.Select(self.arr, i)
    def unres(self, i): c = self.c(i); return z3.Or(c_alpha(c), c_digit(c), *[c == ord(x) for x in '-._~'])
    def sub(self, i): c = self.c(i); return z3.Or(*[c == ord(x) for x in "!$&'()*+,;="])
    def pct(self, i): return z3.And(self.c(i) == 37, c_xdigit(self.c(i + 1)), c_xdigit(self.c(i + 2)))
    def pchar(self, i, colon=True): return z3.Or(self.unres(i), self.pct(i), self.sub(i), self.c(i) == 64, z3.And(colon, self.c(i) == 58))
    def in_(self, i, cs): return z3.Or(*[self.c(i) == ord(x) for x in cs])
    def step(self, n, i):
        """(characters that may come next, whether percent-encoded ones may) of run n"""
        a = lambda *l: z3.Or(*l)
        return {'SCH': (a(c_alpha(self.c(i)), c_digit(self.c(i)), self.in_(i, '+-.')), False), 'UI': (a(self.unres(i), self.sub(i), self.c(i) == 58), True), 'REG': (a(self.unres(i), self.sub(i)), True), 'DIG': (c_digit(self.c(i)), False), 'HX': (c_xdigit(self.c(i)), False),
                'IV': (a(self.unres(i), self.sub(i), self.c(i) == 58), False), 'SEG': (a(self.unres(i), self.sub(i), self.in_(i, ':@')), True), 'SEGNC': (a(self.unres(i), self.sub(i), self.c(i) == 64), True), 'QF': (a(self.unres(i), self.sub(i), self.in_(i, ':@/?')), True)}[n]
    def unfold(self, n, i):
        f = self.UF[n]
        if n == 'AB': return z3.And(f(i) == z3.If(self.c(i) == 47, f(self.UF['SEG'](i + 1)), i))
        one, p = self.step(n, i); return f(i) == z3.If(one, f(i + 1), z3.If(z3.And(p, self.pct(i)), f(i + 3), i))
    def cur(self, s, pp=None):
        v = self.E.loadw(s, pp or self.pp, 8)
        if not isinstance(v, Ptr) or v.r != self.buf.r: raise Unsupported('the position is not in the text')
        return b64(v.o)


T, Fl = z3.BoolVal(True), z3.BoolVal(False)
def spec(u, name, i, arg=None):
    """alternatives (condition, end, {field: (lo, hi)}) of a parser function started at position i; failure otherwise"""
    f = u.UF; c = u.c
    if name == 'parse_pct_encoded': return [(u.pct(i), i + 3, {})]
    if name == 'parse_pchar': col = T if arg is None else tob(arg); one = z3.Or(u.unres(i), u.sub(i), c(i) == 64, z3.And(col, c(i) == 58)); return [(one, i + 1, {}), (u.pct(i), i + 3, {})]
    if name == 'parse_scheme': e = f['SCH'](i + 1); return [(c_alpha(c(i)), e, {0: (i, e)})]
    if name == 'parse_userinfo': e = f['UI'](i); return [(T, e, {1: (i, e)})]
    if name == 'parse_reg_name': return [(T, f['REG'](i), {})]
    if name == 'parse_port': e = f['DIG'](i); return [(T, e, {3: (i, e)})]
    if name == 'parse_segment': return [(T, f['SEG'](i), {})]
    if name == 'parse_segment_nz': return [(u.pchar(i), f['SEG'](i), {})]
    if name == 'parse_segment_nz_nc': return [(u.pchar(i, False), f['SEGNC'](i), {})]
    if name == 'parse_path_abempty': e = f['AB'](i); return [(T, e, {4: (i, e)})]
    if name == 'parse_path_absolute': e = f['AB'](f['SEG'](i + 1)); return [(z3.And(c(i) == 47, u.pchar(i + 1)), e, {4: (i, e)}), (z3.And(c(i) == 47, z3.Not(u.pchar(i + 1))), i + 1, {4: (i, i + 1)})]
    if name == 'parse_path_noscheme': e = f['AB'](f['SEGNC'](i)); return [(u.pchar(i, False), e, {4: (i, e)})]
    if name == 'parse_path_rootless': e = f['AB'](f['SEG'](i)); return [(u.pchar(i), e, {4: (i, e)})]
    if name == 'parse_path_empty': return [(T, i, {4: (i, i)})]
    if name == 'parse_query': e = f['QF'](i); return [(T, e, {5: (i, e)})]
    if name == 'parse_fragment': e = f['QF'](i); return [(T, e, {6: (i, e)})]
    if name == 'parse_ipv6address': return [(u.IP6(i), f['IP6E'](i), {})]
    if name == 'parse_ipvfuture': h = f['HX'](i + 1); return [(z3.And(c(i) == 118, c_xdigit(c(i + 1)), c(h) == 46, u.step('IV', h + 1)[0]), f['IV'](h + 1), {})]
    if name == 'parse_ip_literal':
        k, e, _ = spec(u, 'parse_ipvfuture', i + 1)[0]; e6 = f['IP6E'](i + 1); b = c(i) == 91
        return [(z3.And(b, u.IP6(i + 1), c(e6) == 93), e6 + 1, {2: None}), (z3.And(b, z3.Not(u.IP6(i + 1)), k, c(e) == 93), e + 1, {2: None})]     # the host is set by the caller
    if name == 'parse_host': e = f['HOSTE'](i); return [(T, e, {2: (i, e)})]
    if name == 'parse_h16': return [(c_xdigit(c(i)), f['HE'](i), {})]
    if name == 'parse_h16_prefix': return [(T, f['PRE%d' % (conc(arg) & 7)](i), {})]
    if name == 'parse_dec_octet': return [(c_digit(c(i)), f['OE'](i), {})]
    if name == 'parse_ipv4address': return [(u.V4(i), f['V4E'](i), {})]
    if name == 'parse_ls32': h = f['HE'](i); return [(u.V4(i), f['V4E'](i), {}), (z3.And(z3.Not(u.V4(i)), c_xdigit(c(i)), c(h) == 58, c_xdigit(c(h + 1))), f['HE'](h + 1), {})]
    if name.startswith('parse_ipv6_'): k = int(name[11:]); return [(u.OK6[k](i), f['E6_%d' % k](i), {})]
    if name == 'parse_authority':
        w = f['UI'](i); has = c(w) == 64; r = []
        for k1, h0, ui in ((has, w + 1, (i, w)), (z3.Not(has), i, (i, i))):
            h = f['HOSTE'](h0); d = f['DIG'](h + 1)
            r += [(z3.And(k1, c(h) == 58), d, {1: ui, 2: (h0, h), 3: (h + 1, d)}), (z3.And(k1, c(h) != 58), h, {1: ui, 2: (h0, h)})]
        return r
    if name in ('parse_hier_part', 'parse_relative_part'):
        dd = z3.And(c(i) == 47, c(i + 1) == 47); nd = z3.Not(dd); r = []
        for k, e, fl in spec(u, 'parse_authority', i + 2): g = dict(fl); a = f['AB'](e); g[4] = (e, a); r.append((z3.And(dd, k), a, g))
        first = 'parse_path_rootless' if name == 'parse_hier_part' else 'parse_path_noscheme'
        for k, e, fl in spec(u, 'parse_path_absolute', i): r.append((z3.And(nd, k), e, fl))
        k, e, fl = spec(u, first, i)[0]; r.append((z3.And(nd, c(i) != 47, k), e, fl)); r.append((z3.And(nd, c(i) != 47, z3.Not(k)), i, {4: (i, i)})); return r
    if name in ('parse_uri', 'parse_relative_ref'):
        r = []; uri = name == 'parse_uri'
        if uri: k0, s0, f0 = spec(u, 'parse_scheme', i)[0]; k0 = z3.And(k0, c(s0) == 58); h0 = s0 + 1
        else: k0, f0, h0 = T, {}, i
        for k, e, fl in spec(u, 'parse_hier_part' if uri else 'parse_relative_part', h0):
            for q in (0, 1):
                e1 = f['QF'](e + 1) if q else e; k1 = c(e) == 63 if q else c(e) != 63
                for g in (0, 1):
                    e2 = f['QF'](e1 + 1) if g else e1; k2 = c(e1) == 35 if g else c(e1) != 35; d = dict(f0); d.update(fl)
                    if q: d[5] = (e + 1, e1)
                    if g: d[6] = (e1 + 1, e2)
                    r.append((z3.And(k0, k, k1, k2, c(e2) == 0), e2, d))
        return r
    raise KeyError(name)


KEEP = ('parse_pct_encoded', 'parse_pchar')     # leave the position on failure
def slice_(u, lo, hi): return u.text.sub(lo, simp(hi - lo)).with_(kind='str', gen=0)


def contract(u, name):
    def m(E, s, a, ins):
        pp = a[1]; i = u.cur(s, pp); E.prove(s, z3.ULE(i, u.N), 'the position is in the text', 'pre'); al = spec(u, name, i, a[2] if len(a) > 2 else None); out = []
        for k, e, fl in al:
            def ok(E, s, e=e, fl=fl):
                E.assume(s, z3.And(z3.ULE(e, u.N), z3.UGE(e, i), *[z3.And(z3.ULE(x[0], x[1]), z3.ULE(x[1], u.N)) for x in fl.values() if x])); E.storew(s, pp, Ptr(u.buf.r, simp(e)), 8)
                for f, x in fl.items(): E.setobj(s, Ptr(u.this.r, 32 * f), slice_(u, simp(x[0]), simp(x[1])) if x else Seq(ArrN(E.fresharr('junk', 8)), E.fresh('junklen'), 1, 'str'), 32)
                return 1
            out.append((simp(k), ok))
        def no(E, s):
            if name not in KEEP:
                E.storew(s, pp, Ptr(u.buf.r, E.fresh('anywhere')), 8)
                for f in set(x for _, _, fl in al for x in fl): E.setobj(s, Ptr(u.this.r, 32 * f), Seq(ArrN(E.fresharr('junk', 8)), E.fresh('junklen'), 1, 'str'), 32)
            return 0
        n = simp(z3.Not(z3.Or(*[k for k, _, _ in al])))
        if not z3.is_false(n): out.append((n, no))
        out = [(k, g) for k, g in out if not z3.is_false(k)]
        return out[0][1](E, s) if len(out) == 1 else Outcomes(out)
    u.E.local_models.append((r'pfi::network::uri::%s\(' % name, m))


def prove_fn(E, name, callees, runs=(), pre=None, arg=None):
    u = U(E)
    for x in callees: contract(u, x)
    i0 = u.i0; st = u.st
    def inv(E, s, k, e):
        x = u.cur(s); r = [('position in the text', z3.And(z3.ULE(x, u.N), z3.UGE(x, i0)))]; x0 = u.cur(e)
        eq = [u.UF[n](x) == u.UF[n](x0) for n in runs]
        if len(runs) == 2:       # version digits, then (after the dot) address characters
            dot = z3.Or(*[z3.And(z3.UGT(x0, i0 + d), u.c(x0 - d) == 46) for d in (1, 2)]); eq = [z3.Implies(z3.Not(dot), eq[0]), z3.Implies(dot, eq[1])]
        return r + [('same end', z3.And(*eq))]
    def facts(E, s, k, e): return [u.unfold(n, u.cur(s)) for n in runs]
    if runs: E.loopspecs = [LoopSpec(inv, facts, 'run', None)]
    for f in defs(u, name, i0): E.assume(st, f)
    al = spec(u, name, i0, arg)
    def post(E, s, o):
        if not expect_ret(E, s, o): return
        r = tob(o[1]) if o[1] is not None else T; E.prove(s, r == z3.Or(*[k for k, _, _ in al]), 'succeeds exactly on the grammar')
        for n, (k, e, fl) in enumerate(al):
            s2 = s; w = ' (case %d)' % n if len(al) > 1 else ''; E.prove(s2, z3.Implies(z3.And(r, k), z3.And(u.cur(s2) == e, z3.ULE(e, u.N), z3.UGE(e, i0))), 'ends where the component does' + w)
            for f in range(7):
                v = E.obj(s2, Ptr(u.this.r, 32 * f)); lo, hi = fl.get(f) or (None, None)
                if f in fl and lo is None: continue
                if lo is not None: E.prove(s2, z3.Implies(z3.And(r, k), z3.And(b64(v.len) == hi - lo, z3.ULE(lo, hi), z3.ULE(hi, u.N), z3.Implies(z3.ULT(u.X, hi - lo), bv(v.at(u.X), 8) == u.c(lo + u.X)))), '%s is the substring%s' % (FIELDS[f], w))
                elif n == 0 or any(f in g for _, _, g in al): E.prove(s2, z3.Implies(z3.And(r, k), z3.And(b64(v.len) == u.old[f].len, z3.Implies(z3.ULT(u.X, u.old[f].len), bv(v.at(u.X), 8) == bv(u.old[f].at(u.X), 8)))), '%s is not changed%s' % (FIELDS[f], w))
        if name in KEEP: E.prove(s, z3.Implies(z3.Not(r), u.cur(s) == i0), 'the position is kept on failure')
    run(E, st, E.func(r'^pfi::network::uri::%s\(' % name), [u.this, u.pp] + ([arg] if arg is not None else []), post)


def defs(u, name, i):
    """definitions of the grammar functions at the start"""
    f = u.UF; c = u.c; hexd = lambda x: c_xdigit(c(x)); dig = lambda x: c_digit(c(x)); col = lambda x: c(x) == 58
    def chain(x, m):
        """m times ( h16 ":" )"""
        k = []
        for _ in range(m): h = f['HE'](x); k += [hexd(x), col(h)]; x = h + 1
        return k, x
    runs = {'parse_path_abempty': [('AB', i)], 'parse_segment_nz': [('SEG', i)], 'parse_segment_nz_nc': [('SEGNC', i)]}.get(name)
    if runs: return [u.unfold(n, x) for n, x in runs]
    if name == 'parse_h16': return [f['HE'](i) == z3.If(z3.Not(hexd(i + 1)), i + 1, z3.If(z3.Not(hexd(i + 2)), i + 2, z3.If(z3.Not(hexd(i + 3)), i + 3, i + 4)))]
    if name == 'parse_dec_octet':     # the longest decimal number up to 255 without leading zero
        a, b, d = c(i), c(i + 1), c(i + 2); three = z3.And(dig(i + 1), dig(i + 2), z3.Or(a == 49, z3.And(a == 50, z3.Or(z3.ULT(b, 53), z3.And(b == 53, z3.ULE(d, 53))))))
        return [f['OE'](i) == z3.If(three, i + 3, z3.If(z3.And(a != 48, dig(i + 1)), i + 2, i + 1))]
    if name == 'parse_ipv4address':
        k, x = [], i
        for n in range(4):
            k.append(dig(x)); x = f['OE'](x)
            if n < 3: k.append(c(x) == 46); x = x + 1
        return [u.V4(i) == z3.And(*k), f['V4E'](i) == x]
    if name.startswith('parse_ipv6_'):
        n = int(name[11:]); k, x = [], i
        if n > 2: x = f['PRE%d' % (n - 3)](x)
        if n > 1: k += [col(x), col(x + 1)]; x = x + 2
        k2, x = chain(x, 6 if n == 1 else max(7 - n, 0)); k += k2
        if n < 8: l = spec(u, 'parse_ls32', x); k.append(z3.Or(*[y[0] for y in l])); x = z3.If(l[0][0], l[0][1], l[1][1])
        elif n == 8: k.append(hexd(x)); x = f['HE'](x)
        return [u.OK6[n](i) == z3.And(*k), f['E6_%d' % n](i) == x]
    if name == 'parse_ipv6address':
        e = i
        for k in range(9, 0, -1): e = z3.If(u.OK6[k](i), f['E6_%d' % k](i), e)
        return [u.IP6(i) == z3.Or(*[u.OK6[k](i) for k in u.OK6]), f['IP6E'](i) == e]
    if name == 'parse_h16_prefix':
        r = []
        for n in range(7):
            stop, e = z3.Not(hexd(i)), f['HE'](i); out = e; x = e; alive = z3.BoolVal(True)
            for _ in range(n): alive = z3.And(alive, col(x), hexd(x + 1)); x = f['HE'](x + 1); out = z3.If(alive, x, out)
            r.append(f['PRE%d' % n](i) == z3.If(stop, i, out))
        return r
    if name == 'parse_host':
        l = spec(u, 'parse_ip_literal', i); return [f['HOSTE'](i) == z3.If(l[0][0], l[0][1], z3.If(l[1][0], l[1][1], f['REG'](i)))]
    return []


def whole(E):
    """the constructor on any string: the components of the grammar, or all empty"""
    u = U(E); st = u.st; E.assume(st, u.i0 == 0); sp = E.alloc(st, 32, 'argument'); E.setobj(st, sp, u.text.with_(len=u.N, kind='str'), 32)
    for n in ('parse_uri', 'parse_relative_ref'): contract(u, n)
    def cstr(E, s, a, ins):
        if (a[0].r, a[0].o) != (sp.r, sp.o): raise Unsupported('c_str of another string')
        return u.buf
    E.local_models[:0] = [(RSTR + r'::(c_str|data)\(\) const', cstr)]
    st.mem[u.this.r].cells.clear(); z = V64(0)
    def full(n): return [(z3.And(k, e == u.N), fl) for k, e, fl in spec(u, n, z)]
    al = full('parse_uri'); no = z3.Not(z3.Or(*[k for k, _ in al])); rel = [(z3.And(no, k), fl) for k, fl in full('parse_relative_ref')]; al = al + rel; al.append((z3.Not(z3.Or(*[k for k, _ in al])), {}))
    def post(E, s, o):
        if not expect_ret(E, s, o): return
        vs = [E.obj(s, Ptr(u.this.r, 32 * f)) for f in range(7)]
        for f in range(7):
            v = vs[f]; lo, hi = z, z
            for k, fl in al: a, b = fl.get(f, (z, z)); lo = z3.If(k, a, lo); hi = z3.If(k, b, hi)
            E.prove(s, b64(v.len) == hi - lo, '%s has the length the grammar gives' % FIELDS[f]); E.prove(s, z3.Implies(z3.ULT(u.X, hi - lo), bv(v.at(u.X), 8) == u.c(lo + u.X)), '%s is the substring the grammar gives' % FIELDS[f])
    run(E, st, E.func(r'^pfi::network::uri::uri\(std::__cxx11::basic_string.*const&\)'), [u.this, sp], post)


def P(name, callees=(), runs=(), **kw): return dict(name=name, src=SRC, fn=lambda E: prove_fn(E, name, callees, runs, **kw), functions=['uri::' + name])
PROOFS = [P('parse_pct_encoded'), P('parse_pchar', ['parse_pct_encoded'], arg=z3.Bool('colon')), P('parse_scheme', (), ['SCH']), P('parse_userinfo', ['parse_pct_encoded'], ['UI']), P('parse_reg_name', ['parse_pct_encoded'], ['REG']), P('parse_port', (), ['DIG']),
          P('parse_segment', ['parse_pchar'], ['SEG']), P('parse_segment_nz', ['parse_pchar', 'parse_segment']), P('parse_segment_nz_nc', ['parse_pchar'], ['SEGNC']), P('parse_path_abempty', ['parse_segment'], ['AB']), P('parse_path_absolute', ['parse_segment_nz', 'parse_path_abempty']),
          P('parse_path_noscheme', ['parse_segment_nz_nc', 'parse_path_abempty']), P('parse_path_rootless', ['parse_segment_nz', 'parse_path_abempty']), P('parse_path_empty'), P('parse_query', ['parse_pchar'], ['QF']), P('parse_fragment', ['parse_pchar'], ['QF']),
          P('parse_h16'), P('parse_dec_octet'), P('parse_ipv4address', ['parse_dec_octet']), P('parse_ls32', ['parse_ipv4address', 'parse_h16'])]
PROOFS += [P('parse_ipv6_%d' % k, ['parse_h16', 'parse_h16_prefix', 'parse_ls32']) for k in range(1, 10)]
PROOFS += [dict(P('parse_h16_prefix', ['parse_h16'], arg=n), name='parse_h16_prefix %d' % n) for n in range(7)]
PROOFS += [P('parse_ipv6address', ['parse_ipv6_%d' % k for k in range(1, 10)]), P('parse_ipvfuture', (), ['HX', 'IV']), P('parse_ip_literal', ['parse_ipv6address', 'parse_ipvfuture']), P('parse_host', ['parse_ip_literal', 'parse_reg_name', 'parse_ipv4address']),
           P('parse_authority', ['parse_userinfo', 'parse_host', 'parse_port']), P('parse_hier_part', ['parse_authority', 'parse_path_abempty', 'parse_path_absolute', 'parse_path_rootless', 'parse_path_empty']), P('parse_relative_part', ['parse_authority', 'parse_path_abempty', 'parse_path_absolute', 'parse_path_noscheme', 'parse_path_empty']),
           P('parse_uri', ['parse_scheme', 'parse_hier_part', 'parse_query', 'parse_fragment']), P('parse_relative_ref', ['parse_relative_part', 'parse_query', 'parse_fragment']), dict(name='constructor', src=SRC, fn=whole, functions=['uri::uri', 'uri::parse', 'uri::clear'])]
HARNESS = [dict(src='c13.cpp', repo=['network/uri.cpp'], budget=4, bound='all four-character references over 13 characters with and without "s://" in front, every byte after 12 prefixes, random references against an independent splitter and validator of RFC 3986', asan=True)]
