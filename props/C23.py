"""Rational numbers: gcd by a common-divisor invariant, reduction, sign, and the value equations of the four operations."""
from common import *
SRC = ['inst/c23.cpp']
ASSUMPTIONS = ['numerators, denominators and the intermediate results of the operations fit the integer type (machine arithmetic then is integer arithmetic)', 'd | a and d | b exactly when d | a mod b and d | b; a quotient by a divisor is exact; dividing by the greatest common divisor gives coprime numbers (textbook lemmas, instantiated)', 'lowest terms of products and quotients of fractions in lowest terms only by the bounded stand-in']
Z = z3.IntVal


def sgn(E, w): return (lambda x: bv(x, w))


def gcd(E, w):
    st = with_globals(E); a, b = E.fresh('a', w), E.fresh('b', w); E.input_terms = [('a', a), ('b', b)]; S = z3.BitVecSort(w); DIV = z3.Function('DIV', S, z3.BoolSort()); mn = z3.BitVecVal(1 << (w - 1), w); E.assume(st, z3.And(b != 0, a != mn, b != mn))
    ab = lambda x: z3.If(x < 0, -x, x); cd = lambda x, y: z3.And(DIV(x), DIV(y)); zero = DIV(z3.BitVecVal(0, w))     # DIV(x): the arbitrary positive d divides x
    rem = lambda x, y: bv(simp(z3.SRem(x, y)), w)
    def lemma(x, y): r = rem(x, y); return [z3.Implies(y != 0, cd(x, y) == cd(r, y)), z3.Implies(z3.And(x >= 0, y > 0), z3.And(r >= 0, r < y))]
    E.local_models += [(r'llvm.abs.i32', lambda E, s, p, ins: simp(ab(bv(p[0], 32)))), (r'llvm.abs.i64', lambda E, s, p, ins: simp(ab(bv(p[0], 64)))), (r'abs$', lambda E, s, p, ins: simp(ab(bv(p[0], 32)))), (r'std::abs\(long', lambda E, s, p, ins: simp(ab(bv(p[0], 64))))]
    seen = {}
    def inv(E, s, k, e): return []
    def phis(E, s, k, e, init, cur, steps):
        vs = [bv(v, w) for v in cur.values() if not isinstance(v, Ptr) and z3.is_bv(bv(v, w)) and bv(v, w).size() == w]
        if len(vs) != 2: raise Unsupported('loop variables of gcd')
        if isint(k) and k == 0: seen['tested'] = not any(i.op in ('srem', 'urem') for i in s.frames[-1].f.blocks[s.frames[-1].bname])      # the loop tests for zero before dividing
        x, y = vs; good = lambda x, y: z3.And(x >= 0, y > 0, cd(x, y) == cd(ab(a), ab(b)))
        if seen.get('tested'): good = lambda x, y: z3.And(x >= 0, y >= 0, z3.Or(x > 0, y > 0), cd(x, y) == cd(ab(a), ab(b)))
        for p, q in ((x, y), (y, x)):
            for f in lemma(p, q) + lemma(q, rem(p, q)): E.assume(s, f)
        i = [bv(v, w) for n, v in init.items() if n in cur and not isinstance(v, Ptr)]
        return [good(x, y) if not (i and bv(i[0], w).eq(bv(simp(ab(b)), w))) else good(y, x)]
    E.loopspecs = [LoopSpec(inv, None, 'gcd loop', 'gcd', phis)]
    E.assume(st, zero)
    for x in (a, b): E.assume(st, DIV(x) == DIV(bv(simp(ab(x)), w)))
    def post(E, s, o):
        if not expect_ret(E, s, o): return
        r = bv(o[1], w); E.prove(s, r > 0, 'the greatest common divisor is positive'); E.prove(s, DIV(r) == cd(a, b), 'the common divisors are exactly the divisors of the result')
    run(E, st, E.func('^vp_gcd\\(' if w == 32 else '^vp_gcdl'), [a, b], post)


def toint(t, env):
    """machine term -> integer term, under the assumption that nothing overflows; quotients are opaque"""
    if isinstance(t, int): return Z(t)
    if z3.is_bv_value(t): return Z(t.as_signed_long())
    k = t.decl().kind(); ch = t.children(); R = lambda i: toint(ch[i], env)
    if k == z3.Z3_OP_BADD: r = R(0)
    if k == z3.Z3_OP_BADD:
        for i in range(1, len(ch)): r = r + R(i)
        return r
    if k == z3.Z3_OP_BMUL:
        r = R(0)
        for i in range(1, len(ch)): r = r * R(i)
        return r
    if k == z3.Z3_OP_BSUB: return R(0) - R(1)
    if k == z3.Z3_OP_BNEG: return -R(0)
    if k in (z3.Z3_OP_BSDIV, z3.Z3_OP_BSDIV_I) or t.decl().name() == 'bvsdiv_i':
        x, y = R(0), R(1); q = z3.Int('q!%d' % t.get_id()); env['keep'].append(t); env['eq'].append(q * y == x); env['div'].append((x, y)); return q     # exact: that y divides x is an obligation (exact)
    if k == z3.Z3_OP_ITE: return z3.If(tobool(ch[0], env), R(1), R(2))
    if k == z3.Z3_OP_UNINTERPRETED and not ch: return z3.Int('i!' + t.decl().name())
    if k == z3.Z3_OP_UNINTERPRETED: return z3.Function('i!' + t.decl().name(), *([z3.IntSort()] * (len(ch) + 1)))(*[R(i) for i in range(len(ch))])
    if k in (z3.Z3_OP_CONCAT, z3.Z3_OP_SIGN_EXT, z3.Z3_OP_ZERO_EXT):       # widened choice between constants
        c = ch[0]
        while c.num_args() and c.decl().kind() != z3.Z3_OP_ITE: c = c.arg(0)
        if c.decl().kind() == z3.Z3_OP_ITE: c = c.arg(0); return z3.If(tobool(c, env), *[toint(z3.simplify(z3.substitute(t, (c, z3.BoolVal(v)))), env) for v in (True, False)])
    raise Unsupported('integer reading of ' + str(t)[:80])


def tobool(t, env):
    k = t.decl().kind(); ch = t.children()
    if k == z3.Z3_OP_NOT: return z3.Not(tobool(ch[0], env))
    if k == z3.Z3_OP_SLEQ: return toint(ch[0], env) <= toint(ch[1], env)
    if k == z3.Z3_OP_SLT: return toint(ch[0], env) < toint(ch[1], env)
    if k == z3.Z3_OP_SGEQ: return toint(ch[0], env) >= toint(ch[1], env)
    if k == z3.Z3_OP_SGT: return toint(ch[0], env) > toint(ch[1], env)
    if k == z3.Z3_OP_DISTINCT and len(ch) == 2: return toint(ch[0], env) != toint(ch[1], env)
    if k == z3.Z3_OP_EQ: return toint(ch[0], env) == toint(ch[1], env)
    if k in (z3.Z3_OP_AND, z3.Z3_OP_OR): return (z3.And if k == z3.Z3_OP_AND else z3.Or)(*[tobool(c, env) for c in ch])
    if z3.is_true(t) or z3.is_false(t): return t
    raise Unsupported('integer reading of ' + str(t)[:80])


def integer(E, s, facts, goal, name):
    """obligation over the integers, decided apart from the machine-word path condition"""
    for tac in (['simplify', 'propagate-values', 'solve-eqs', 'smt'], ['smt']):
        sv = z3.Then(*tac).solver() if len(tac) > 1 else z3.Solver(); sv.set('timeout', 20000); sv.add(*facts); sv.add(z3.Not(goal)); r = sv.check()
        if r != z3.unknown: break
    if r == z3.unknown: raise Budget('no answer for ' + name)
    E.prove(s, z3.BoolVal(r == z3.unsat), name)


def nonzero(E, s, y):
    env = dict(eq=[], keep=[], div=[]); iy = toint(y, env); facts = env['eq'] + [tobool(c, env) for c in conj(s.pc) if simple(c)]; integer(E, s, facts + env['eq'], iy != 0, 'the second argument of gcd is not zero')


def exact(E, s, env, facts):
    """every quotient formed is by (plus or minus) the gcd of its dividend and something"""
    cs = [[toint(z, env) for z in c] for c in s.ghost.get('calls', ())]; pm = lambda a, b: z3.Or(a == b, a == -b); seen = set()
    for x, y in list(env['div']):
        if (x.get_id(), y.get_id()) in seen: continue
        seen.add((x.get_id(), y.get_id())); integer(E, s, facts, z3.Or([z3.And(pm(y, t), z3.Or(pm(x, u), pm(x, v))) for u, v, t in cs]), 'quotients are exact')


def setup(E, w):
    st = with_globals(E); S = z3.BitVecSort(w); G = z3.Function('G', S, S, S); calls = []
    def g(E, s, p, ins): x, y = bv(p[0], w), bv(p[1], w); nonzero(E, s, y); t = G(x, y); E.assume(s, t > 0); s.ghost['calls'] = s.ghost.get('calls', ()) + ((x, y, t),); return t
    E.local_models += [(r'pfi::math::ratio::ratio<.*>::gcd\(', g)]
    return st, G


def ctor(E, w):
    st, G = setup(E, w); n, d = E.fresh('n', w), E.fresh('d', w); mn = z3.BitVecVal(1 << (w - 1), w); E.assume(st, z3.And(d != 0, n != mn, d != mn)); r = E.alloc(st, 2 * w // 8, 'ratio'); E.input_terms = [('n', n), ('d', d)]
    def post(E, s, o):
        if not expect_ret(E, s, o): return
        N, D = [bv(E.loadw(s, Ptr(r.r, k * w // 8), w // 8), w) for k in (0, 1)]; cs = s.ghost.get('calls', ())
        if len(cs) != 1: E.prove(s, z3.BoolVal(False), 'reduced by the greatest common divisor once'); return
        x, y, t = cs[0]; env = dict(eq=[], keep=[], div=[]); I = lambda z: toint(z, env); sg = z3.If(I(d) < 0, Z(-1), Z(1))
        iN, iD = I(N), I(D); facts = env['eq'] + [I(d) != 0, I(t) > 0] + [tobool(c, env) for c in conj(s.pc) if simple(c)]
        exact(E, s, env, facts); integer(E, s, facts, z3.And(z3.Or(I(x) == I(n), I(x) == -I(n)), z3.Or(I(y) == I(d), I(y) == -I(d))), 'the divisor is the gcd of numerator and denominator'); integer(E, s, facts + env['eq'], z3.And(iN * I(t) == sg * I(n), iD * I(t) == sg * I(d)), 'numerator and denominator are divided by their gcd, signs moved to the numerator'); integer(E, s, facts + env['eq'], iD > 0, 'the denominator is positive')
    run(E, st, E.func('^vp_ctor\\(' if w == 32 else '^vp_ctorl'), [r, n, d], post)


def conj(pc):
    for c in pc:
        if z3.is_and(c): yield from conj(c.children())
        else: yield c


def simple(c):
    try: tobool(c, dict(eq=[], keep=[], div=[])); return True
    except (Unsupported, z3.Z3Exception): return False


def oper(E, op):
    w = 32; st, G = setup(E, w); v = {k: E.fresh(k, w) for k in ('an', 'ad', 'bn', 'bd')}; E.assume(st, z3.And(v['ad'] > 0, v['bd'] > 0)); a, b = E.alloc(st, 8, 'a'), E.alloc(st, 8, 'b'); E.input_terms = list(v.items())
    for p, x in ((a, 'a'), (b, 'b')): E.storew(st, Ptr(p.r, 0), v[x + 'n'], 4); E.storew(st, Ptr(p.r, 4), v[x + 'd'], 4)
    if op == 'div': E.assume(st, v['bn'] != 0)
    def post(E, s, o):
        if not expect_ret(E, s, o): return
        N, D = [bv(E.loadw(s, Ptr(a.r, k), 4), w) for k in (0, 4)]; env = dict(eq=[], keep=[], div=[]); I = lambda z: toint(z, env); iN, iD = I(N), I(D); an, ad, bn, bd = [I(v[k]) for k in ('an', 'ad', 'bn', 'bd')]
        facts = [ad > 0, bd > 0] + ([bn != 0] if op == 'div' else []) + [tobool(c, env) for c in conj(s.pc) if simple(c)]
        num, den = dict(add=(an * bd + bn * ad, ad * bd), sub=(an * bd - bn * ad, ad * bd), mul=(an * bn, ad * bd), div=(an * bd, ad * bn))[op]
        for x, y, t in s.ghost.get('calls', ()): facts.append(I(t) > 0)
        facts += env['eq']; exact(E, s, env, facts); integer(E, s, facts, iN * den == num * iD, 'exact value of the result')
        if op in ('add', 'sub'):
            cs = s.ghost.get('calls', ())[-1:]
            if not cs: raise Unsupported('a result that is not divided by a gcd')
            integer(E, s, facts, z3.And([z3.And(z3.Or(I(x) == iN * I(t), I(x) == -iN * I(t)), z3.Or(I(y) == iD * I(t), I(y) == -iD * I(t))) for x, y, t in cs]), 'the result is divided by the gcd of its numerator and denominator')
    run(E, st, E.func('^vp_' + op), [a, b], post)


def eq(E):
    st = with_globals(E); a, b = E.alloc(st, 8, 'a'), E.alloc(st, 8, 'b'); v = [E.fresh('v%d' % i, 32) for i in range(4)]; E.input_terms = [('v%d' % i, x) for i, x in enumerate(v)]
    for p, i in ((a, 0), (b, 2)): E.storew(st, Ptr(p.r, 0), v[i], 4); E.storew(st, Ptr(p.r, 4), v[i + 1], 4)
    run(E, st, E.func('^vp_eq'), [a, b], lambda E, s, o: expect_ret(E, s, o) and E.prove(s, tob(o[1]) == z3.And(v[0] == v[2], v[1] == v[3]), 'equality compares numerators and denominators'))


PROOFS = [dict(name='gcd, int', src=SRC, fn=lambda E: gcd(E, 32), functions=['ratio::gcd']), dict(name='gcd, long long', src=SRC, fn=lambda E: gcd(E, 64), functions=['ratio::gcd']), dict(name='construction, int', src=SRC, fn=lambda E: ctor(E, 32), functions=['ratio::ratio', 'reduce']), dict(name='construction, long long', src=SRC, fn=lambda E: ctor(E, 64), functions=['ratio::ratio', 'reduce']), dict(name='equality', src=SRC, fn=eq, functions=['operator=='])] + [
          dict(name=o, src=SRC, fn=lambda E, o=o: oper(E, o), functions=['operator ' + o, 'reduce']) for o in ('add', 'sub', 'mul', 'div')]
HARNESS = [dict(src='c23.cpp', repo=[], budget=3, bound='all fractions with parts -7..7 pairwise, random and extreme parts of int, long and long long whose results fit, against 128-bit arithmetic', asan=True)]
