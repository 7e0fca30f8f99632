"""Byte order: reverse, to/from big/little for every integer type, and the byte-array reversal of any length."""
from common import *
SRC = ['inst/c21.cpp', 'system/endian_util.cpp']
ASSUMPTIONS = ['the host is little-endian x86-64 (is_little is computed by the code from the compiled data layout)', 'floating-point and structure types go through the byte-array form and are covered by the bounded stand-in']
TY = [('c', 8), ('sc', 8), ('uc', 8), ('s', 16), ('us', 16), ('i', 32), ('ui', 32), ('l', 64), ('ul', 64), ('ll', 64), ('ull', 64)]


def swap(v):
    w = v.size()
    return v if w == 8 else z3.Concat(*[z3.Extract(8 * i + 7, 8 * i, v) for i in range(w // 8)])


def scalars(E):
    st0 = with_globals(E)
    for n, w in TY:
        for fn, spec in (('rev', swap), ('tol', lambda v: v), ('tob', swap), ('frl', lambda v: v), ('frb', swap)):
            st = st0.copy(); v = E.fresh('v', w); E.input_terms = [('v', v)]

            def post(E, st, o, v=v, spec=spec, n=n, fn=fn, w=w):
                if not expect_ret(E, st, o): return
                E.prove(st, bv(o[1], w) == spec(v), '%s on type %s' % ({'rev': 'reverse', 'tol': 'to_little', 'tob': 'to_big', 'frl': 'from_little', 'frb': 'from_big'}[fn], n))
            run(E, st, E.func(r'^%s_%s\(' % (fn, n)), [v], post)
    for fn, want in (('il', True), ('ib', False)):
        run(E, st0.copy(), E.func('^%s\\(' % fn), [], lambda E, st, o, want=want: E.prove(st, tob(o[1]) == want, 'host order'))


def fixed(E):
    st0 = with_globals(E)
    for n in (1, 2, 3, 4, 8, 16):
        st = st0.copy()
        p = E.alloc(st, n, 'p'); bs = [E.fresh('b', 8) for _ in range(n)]
        for i, b in enumerate(bs): st.mem[p.r].cells[i] = (1, b)

        def post(E, st, o, n=n, bs=bs, p=p):
            if not expect_ret(E, st, o): return
            for i in range(n): E.prove(st, bv(E.loadw(st, Ptr(p.r, i), 1), 8) == bs[n - 1 - i], 'byte %d of reverse<%d>' % (i, n))
        run(E, st, E.func(r'^rev_bytes%d\(' % n), [p], post)


def anylen(E):
    st = with_globals(E)
    n = E.fresh('size', 32); E.assume(st, n >= 0)
    arr = E.fresharr('p'); N = z3.SignExt(32, n)
    old = Seq(ArrN(arr), N, 1, 'buf', next(E.cnt))
    rid = E.seqregion(st, old, 'p'); p = Ptr(rid, 0)
    J = E.fresh('J'); E.assume(st, z3.ULT(J, N)); E.input_terms = [('p', ('seq', old)), ('size', n), ('J', J)]
    want = bv(old.at(simp(N - 1 - J)), 8)

    def inv(E, st, k, e):
        s = st.mem[rid].seq; k = b64(k)
        done = z3.Or(z3.ULT(J, k), z3.UGE(J, N - k))
        return [('within the first half', z3.ULE(2 * k, N)), ('swapped so far', bv(s.at(J), 8) == z3.If(done, want, bv(old.at(J), 8))),
                ('mirror position swapped so far', bv(s.at(simp(N - 1 - J)), 8) == z3.If(done, bv(old.at(J), 8), want))]
    E.loopspecs = [LoopSpec(inv, name='reverse loop')]

    def post(E, st, o):
        if not expect_ret(E, st, o): return
        E.prove(st, bv(st.mem[rid].seq.at(J), 8) == want, 'byte J is the mirrored byte')
    run(E, st, E.func(r'^pfi::system::endian::reverse\(char\*, int\)'), [p, n], post)


NSF = 'pfi::system::endian::'
PROOFS = [dict(name='integers', src=SRC, fn=scalars, functions=[NSF + x for x in ('reverse<T>', 'to_little<T>', 'to_big<T>', 'from_little<T>', 'from_big<T>', 'is_little', 'is_big')]),
          dict(name='fixed-size arrays', src=SRC, fn=fixed, functions=[NSF + 'reverse<N>(char*)']),
          dict(name='arrays of any length', src=SRC, fn=anylen, functions=[NSF + 'reverse(char*,int)'])]
HARNESS = [dict(src='c21.cpp', repo=['system/endian_util.cpp'], budget=2, bound='random values of all types, byte arrays of length 0..300')]
