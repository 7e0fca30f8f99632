"""Assumed contracts of the C++ standard library / libc (the trusted boundary).
Each entry: regex over the demangled callee -> fn(E, st, args, ins)."""
import re
import z3
from symex import *

MODELS = []
STR = r'std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>'
RSTR = re.escape(STR)
NPOS = M64


def model(rx):
    def d(f):
        MODELS.append((rx + r'$', f)); return f
    return d


def nop(E, st, a, ins): return None
def ret0(E, st, a, ins): return 0


# ---------------------------------------------------------------- intrinsics, libc, runtime
for rx in (r'llvm\.lifetime\..*', r'llvm\.dbg\..*', r'llvm\.assume', r'llvm\.invariant\..*', r'llvm\.experimental\.noalias.*', r'llvm\.stacksave.*', r'llvm\.stackrestore.*',
           r'__cxa_atexit', r'std::ios_base::Init::.*', r'std::allocator<.*>::~?allocator\(.*\)', r'std::__new_allocator<.*>::~?__new_allocator\(.*\)',
           r'__cxa_guard_release', r'__cxa_guard_abort'):
    MODELS.append((rx + '$', nop))


@model(r'__cxa_guard_acquire')
def _(E, st, a, ins):
    v = E.loadw(st, a[0], 1)
    if isint(v) and v: return 0
    E.storew(st, a[0], 1, 1)
    return 1


@model(r'llvm\.expect\..*')
def _(E, st, a, ins): return a[0]


@model(r'llvm\.is\.constant.*')
def _(E, st, a, ins): return 0


@model(r'(llvm\.(memcpy|memmove)\..*|memcpy|memmove)')
def _(E, st, a, ins):
    E.memcpy(st, a[0], a[1], a[2])
    return a[0]


@model(r'(llvm\.memset\..*|memset)')
def _(E, st, a, ins):
    v = a[1]
    if not isint(v) and v.size() > 8: v = simp(z3.Extract(7, 0, v))
    elif isint(v): v &= 255
    E.memset(st, a[0], v, a[2])
    return a[0]


@model(r'llvm\.bswap\..*')
def _(E, st, a, ins):
    w = ins.ty.n
    v = bv(a[0], w)
    return simp(z3.Concat(*[z3.Extract(8 * i + 7, 8 * i, v) for i in range(w // 8)]))


def clz(v, w):
    r = z3.BitVecVal(w, w)
    for i in range(w): r = z3.If(z3.Extract(i, i, v) == 1, z3.BitVecVal(w - 1 - i, w), r)
    return simp(r)


def ctz(v, w):
    r = z3.BitVecVal(w, w)
    for i in reversed(range(w)): r = z3.If(z3.Extract(i, i, v) == 1, z3.BitVecVal(i, w), r)
    return simp(r)


@model(r'llvm\.ctlz\..*')
def _(E, st, a, ins):
    v = bv(a[0], ins.ty.n)
    if isint(a[1]) and a[1]: E.prove(st, v != 0, 'clz argument nonzero', 'ub')
    return E.concretise(st, clz(v, ins.ty.n))


@model(r'llvm\.cttz\..*')
def _(E, st, a, ins):
    v = bv(a[0], ins.ty.n)
    if isint(a[1]) and a[1]: E.prove(st, v != 0, 'ctz argument nonzero', 'ub')
    return E.concretise(st, ctz(v, ins.ty.n))


@model(r'llvm\.ctpop\..*')
def _(E, st, a, ins):
    w = ins.ty.n; v = bv(a[0], w)
    return simp(sum([z3.ZeroExt(w - 1, z3.Extract(i, i, v)) for i in range(w)], z3.BitVecVal(0, w)))


@model(r'llvm\.(umin|umax|smin|smax)\..*')
def _(E, st, a, ins):
    w = ins.ty.n
    x, y = bv(a[0], w), bv(a[1], w)
    k = re.search(r'llvm\.(\w+)\.', ins.x['callee'].v).group(1)
    c = {'umin': z3.ULT(x, y), 'umax': z3.UGT(x, y), 'smin': x < y, 'smax': x > y}[k]
    return simp(z3.If(c, x, y))


@model(r'llvm\.fabs\..*')
def _(E, st, a, ins): return z3.fpAbs(a[0])


@model(r'llvm\.(floor|trunc)\..*|floor|trunc')
def _(E, st, a, ins):
    k = ins.x['callee'].v
    return z3.fpRoundToIntegral(z3.RTN() if 'floor' in k else z3.RTZ(), a[0])


@model(r'operator new(\[\])?\(unsigned long(, std::nothrow_t const&)?\)|malloc')
def _(E, st, a, ins):
    n = a[0]
    return Ptr(E.region(st, n, 'heap'), 0)


@model(r'operator delete(\[\])?\(void\*(, .*)?\)|free')
def _(E, st, a, ins):
    p = a[0]
    if isinstance(p, int) or p.r is None: return None
    r = E.getreg(st, p, 'delete')
    if r is None: return None
    if r.kind not in ('heap',): raise Unsupported('delete of a non-heap object')
    E.prove(st, eqv(p.o, 0), 'delete of an allocation start', 'memory')
    n = r.copy(); n.dead = True; st.mem[r.id] = n
    return None


@model(r'__cxa_allocate_exception')
def _(E, st, a, ins): return Ptr(E.region(st, a[0], 'exc'), 0)


@model(r'__cxa_free_exception')
def _(E, st, a, ins): return None


@model(r'__cxa_throw')
def _(E, st, a, ins):
    ti = ins.a[1].v if ins.a[1].k == 'global' else '?'
    r = st.mem.get(a[0].r)
    msg = None
    if r is not None:
        c = r.cells.get(0)
        if c and isinstance(c[1], ExcObj): msg = c[1].msg
    return Throw(Exc(ti, a[0], msg))


@model(r'__cxa_begin_catch')
def _(E, st, a, ins):
    st.caught = st.caught + [st.exc]
    return a[0]


@model(r'__cxa_get_exception_ptr')
def _(E, st, a, ins): return a[0]


@model(r'__cxa_end_catch')
def _(E, st, a, ins):
    st.caught = st.caught[:-1]
    return None


@model(r'__cxa_rethrow')
def _(E, st, a, ins): return Throw(st.caught[-1])


@model(r'llvm\.eh\.typeid\.for.*')
def _(E, st, a, ins):
    return E.tid(ins.a[0].v)


@model(r'__clang_call_terminate|std::terminate\(\)|abort|__assert_fail|__cxa_bad_cast|__cxa_pure_virtual|exit|_exit')
def _(E, st, a, ins):
    E.prove(st, z3.BoolVal(False), 'program termination (abort/terminate/assert) is unreachable', 'memory')
    return Stop


class ExcObj:
    def __init__(self, cls, msg): self.cls = cls; self.msg = msg


@model(r'std::(invalid_argument|runtime_error|logic_error|out_of_range|length_error|domain_error|range_error|overflow_error)::\1\((.*)\)')
def _(E, st, a, ins):
    m = None
    if 'char const*' in demangle(ins.x['callee'].v): m = cstr_lit(E, st, a[1])
    else:
        try: m = E.obj(st, a[1], 'string')
        except Unsupported: m = None
    E.wcell(st, a[0].r, a[0].o, 16, ExcObj('std', m))
    return None


@model(r'std::(invalid_argument|runtime_error|logic_error|out_of_range|length_error|domain_error|range_error|overflow_error|exception|bad_cast)::~\1\(\)')
def _(E, st, a, ins): return None


@model(r'std::(exception|bad_cast)::\1\(.*\)')
def _(E, st, a, ins):
    E.wcell(st, a[0].r, a[0].o, 8, ExcObj('std', None)); return None


def std_throw(E, st, ti): return Throw(Exc(ti))


@model(r'std::__throw_(\w+)\(.*\)')
def _(E, st, a, ins):
    k = re.match(r'std::__throw_(\w+?)(_fmt)?\(', demangle(ins.x['callee'].v)).group(1)
    ti = {'out_of_range': '_ZTISt12out_of_range', 'length_error': '_ZTISt12length_error', 'logic_error': '_ZTISt11logic_error',
          'bad_alloc': '_ZTISt9bad_alloc', 'invalid_argument': '_ZTISt16invalid_argument', 'bad_function_call': '_ZTISt17bad_function_call', 'bad_cast': '_ZTISt8bad_cast'}.get(k)
    if ti is None: raise Unsupported('throw ' + k)
    return Throw(Exc(ti))


def cstr_lit(E, st, p):
    """concrete NUL-terminated string at p -> Seq, or None"""
    if not isinstance(p, Ptr) or p.r is None: return None
    r = st.mem.get(p.r) if not isinstance(p.r, tuple) else None
    if r is None or not isint(p.o): return None
    out = []
    o = p.o
    while True:
        if r.seq is not None:
            if not isint(r.seq.len) or o >= r.seq.len or r.seq.ew != 1: return None
            b = r.seq.at(o)
        else:
            b = E.cellbyte(r, o)
            if b is None and r.fill is not None: b = r.fill(o, 1)
        if not isint(b): return None
        if b == 0: return cstring(out)
        out.append(b); o += 1
        if len(out) > 5000: return None


def cstr_seq(E, st, p):
    """C string at p as Seq (bytes before the first NUL). Symbolic: length is a fresh n with
    data[n]==0 and no earlier NUL (the latter as instantiable fact through st.ghost)."""
    s = cstr_lit(E, st, p)
    if s is not None: return s
    v = E.view(st, p)
    if v is None or v.ew != 1: raise Unsupported('C string in non-byte memory')
    if v.kind == 'str' and E_nonul(E, st, v):
        return v.sub(p.o, sub64(v.len, p.o)).with_(kind='str')
    n = E.fresh('strlen')
    ln = E.acclen(v)
    # requires a terminator inside the object: caller contracts provide it
    if v.kind == 'str':
        E.assume(st, z3.And(z3.ULE(b64(p.o), b64(v.len)), z3.ULE(n, b64(v.len) - b64(p.o))))
        E.assume(st, bv(E.elem(v, add64(p.o, n)), 8) == 0)
        E.nonul(st, v, p.o, n)
        node = FunN(lambda i, v=v, o=p.o: E.elem(v, add64(i, o)))
        return Seq(node, n, 1, 'str')
    raise Unsupported('strlen of a symbolic buffer')


def E_nonul(E, st, v): return bool(st.ghost.get(('nonul', id(v.n))))


def nonul(E, st, v, o, n):
    st.ghost.setdefault('nonul_facts', ())
    st.ghost['nonul_facts'] = st.ghost['nonul_facts'] + ((v, o, n),)


Engine.nonul = lambda E, st, v, o, n: nonul(E, st, v, o, n)


@model(r'strlen')
def _(E, st, a, ins): return cstr_seq(E, st, a[0]).len


# ---------------------------------------------------------------- std::string
def S(name): return RSTR + '::' + name


def sget(E, st, p): 
    s = E.obj(st, p, 'std::string')
    if not isinstance(s, Seq): raise Unsupported('not a string object')
    return s


def sset(E, st, p, s, kind='str'):
    E.setobj(st, p, s.with_(kind=kind, gen=next(E.cnt)), 32)


def newstr(E, st, p, s): sset(E, st, p, s)


@model(S(r'basic_string\(\)'))
def _(E, st, a, ins): newstr(E, st, a[0], cstring(b''))


@model(S(r'basic_string(<.*>)?\(char const\*, std::allocator<char> const&\)'))
def _(E, st, a, ins): newstr(E, st, a[0], cstr_seq(E, st, a[1]))


@model(S(r'basic_string\(char const\*, unsigned long, std::allocator<char> const&\)'))
def _(E, st, a, ins): newstr(E, st, a[0], bufseq(E, st, a[1], a[2]))


@model(S(r'basic_string\(%s const&\)' % RSTR))
def _(E, st, a, ins): newstr(E, st, a[0], sget(E, st, a[1]))


@model(S(r'basic_string\(%s&&\)' % RSTR))
def _(E, st, a, ins):
    s = sget(E, st, a[1]); newstr(E, st, a[0], s); sset(E, st, a[1], cstring(b''))


@model(S(r'basic_string(<.*>)?\(unsigned long, char, std::allocator<char> const&\)'))
def _(E, st, a, ins):
    newstr(E, st, a[0], Seq(FunN(lambda i, c=bv(a[2], 8): c), a[1], 1))


@model(S(r'basic_string\(%s const&, unsigned long, unsigned long\)' % RSTR))
def _(E, st, a, ins): return substr_to(E, st, a[0], sget(E, st, a[1]), a[2], a[3])


@model(S(r'basic_string\(%s const&, unsigned long\)' % RSTR))
def _(E, st, a, ins): return substr_to(E, st, a[0], sget(E, st, a[1]), a[2], NPOS)


@model(S(r'basic_string<(?:char\*|char const\*|__gnu_cxx::__normal_iterator<.*>|.*), void>\((.*), \1?.*, std::allocator<char> const&\)'))
def _(E, st, a, ins):
    newstr(E, st, a[0], rangeseq(E, st, a[1], a[2]))


@model(S(r'~basic_string\(\)'))
def _(E, st, a, ins): return None


def bufseq(E, st, p, n):
    if isinstance(p, Ptr) and p.r is None:
        E.prove(st, eqv(n, 0), 'null buffer has length 0', 'memory')
        return cstring(b'')
    v = E.view(st, p)
    if v is None:
        r = E.getreg(st, p, 'read')
        if isint(n) and isint(p.o) and n <= 4096:
            vals = [E.cellload(st, st.mem[r.id], p.o + i, 1) for i in range(n)]
            if r.size is not None: E.inb(st, p.o, r.size, n, 'read in bounds')
            return Seq(ConstN(vals, 8), n, 1)
        E.to_seq(st, r, 1); v = st.mem[r.id].seq
    if v.ew != 1:
        w = v.ew
        if w not in (2, 4, 8): raise Unsupported('byte view of objects')
        vv = v
        E.rng(st, p.o, n, mul64(v.len, w), 'read range in bounds')
        def f(i, vv=vv, w=w, o=p.o):
            j = add64(i, o)
            if isint(j):
                x = bv(vv.at(j // w), 8 * w)
                return simp(z3.Extract(8 * (j % w) + 7, 8 * (j % w), x))
            q = simp(z3.LShR(b64(j), {2: 1, 4: 2, 8: 3}[w])); sh = simp((b64(j) & (w - 1)) * 8)
            x = bv(vv.at(q), 8 * w); x = z3.ZeroExt(64 - 8 * w, x) if w < 8 else x
            return simp(z3.Extract(7, 0, z3.LShR(x, b64(sh))))
        return Seq(FunN(f), n, 1)
    E.rng(st, p.o, n, E.acclen(v), 'read range in bounds')
    if v.kind == 'str': return Seq(FunN(lambda i, v=v, o=p.o: E.elem(v, add64(i, o))), n, 1)
    return Seq(shift(v.n, p.o), n, 1)


def rangeseq(E, st, p, q):
    if p.r != q.r: 
        raise Unsupported('range over two objects')
    n = sub64(q.o, p.o)
    if p.r is None: return cstring(b'')
    E.prove(st, ule(p.o, q.o), 'iterator range is ordered', 'memory')
    v = E.view(st, p)
    if v is not None and v.ew == 1 and v.kind == 'str':
        E.rng(st, p.o, n, v.len, 'range in bounds')
        return Seq(shift(v.n, p.o), n, 1)
    return bufseq(E, st, p, n)


@model(S(r'(size|length)\(\) const'))
def _(E, st, a, ins): return sget(E, st, a[0]).len


@model(S(r'max_size\(\) const'))
def _(E, st, a, ins): return 0x3fffffffffffffff


@model(S(r'capacity\(\) const'))
def _(E, st, a, ins):
    c = E.fresh('cap'); E.assume(st, z3.UGE(c, b64(sget(E, st, a[0]).len))); return c


@model(S(r'empty\(\) const'))
def _(E, st, a, ins): return eqv(sget(E, st, a[0]).len, 0)


@model(S(r'reserve\(.*\)'))
def _(E, st, a, ins):
    s = sget(E, st, a[0]); return None


@model(S(r'shrink_to_fit\(\)'))
def _(E, st, a, ins): return None


@model(S(r'(c_str|data)\(\)( const)?'))
def _(E, st, a, ins): return E.dataptr(st, a[0], sget(E, st, a[0]))


@model(S(r'c?begin\(\)( const)?'))
def _(E, st, a, ins): return E.dataptr(st, a[0], sget(E, st, a[0]))


@model(S(r'c?end\(\)( const)?'))
def _(E, st, a, ins):
    s = sget(E, st, a[0]); return E.dataptr(st, a[0], s, s.len)


@model(S(r'operator\[\]\(unsigned long\)( const)?'))
def _(E, st, a, ins):
    s = sget(E, st, a[0])
    E.prove(st, ule(a[1], s.len), 'string index within size', 'memory')
    return E.dataptr(st, a[0], s, a[1])


@model(S(r'at\(unsigned long\)( const)?'))
def _(E, st, a, ins):
    s = sget(E, st, a[0])
    c = ult(a[1], s.len)
    return Outcomes([(c, lambda E, s2: E.dataptr(s2, a[0], s, a[1])), (simp(NOT(c)), lambda E, s2: Throw(Exc('_ZTISt12out_of_range')))])


@model(S(r'front\(\)( const)?'))
def _(E, st, a, ins):
    s = sget(E, st, a[0]); E.prove(st, ult(0, s.len), 'front() of non-empty string', 'memory')
    return E.dataptr(st, a[0], s, 0)


@model(S(r'back\(\)( const)?'))
def _(E, st, a, ins):
    s = sget(E, st, a[0]); E.prove(st, ult(0, s.len), 'back() of non-empty string', 'memory')
    return E.dataptr(st, a[0], s, sub64(s.len, 1))


@model(S(r'push_back\(char\)'))
def _(E, st, a, ins): sset(E, st, a[0], sget(E, st, a[0]).push(a[1]))


@model(S(r'pop_back\(\)'))
def _(E, st, a, ins):
    s = sget(E, st, a[0]); E.prove(st, ult(0, s.len), 'pop_back() of non-empty string', 'memory')
    sset(E, st, a[0], s.with_(len=sub64(s.len, 1)))


@model(S(r'clear\(\)'))
def _(E, st, a, ins): sset(E, st, a[0], cstring(b''))


@model(S(r'(operator\+=|append)\(%s const&\)' % RSTR))
def _(E, st, a, ins):
    sset(E, st, a[0], sget(E, st, a[0]).cat(sget(E, st, a[1]))); return a[0]


@model(S(r'(operator\+=|append)\(char const\*\)'))
def _(E, st, a, ins):
    sset(E, st, a[0], sget(E, st, a[0]).cat(cstr_seq(E, st, a[1]))); return a[0]


@model(S(r'append\(char const\*, unsigned long\)'))
def _(E, st, a, ins):
    sset(E, st, a[0], sget(E, st, a[0]).cat(bufseq(E, st, a[1], a[2]))); return a[0]


@model(S(r'append\(%s const&, unsigned long, unsigned long\)' % RSTR))
def _(E, st, a, ins):
    s = sget(E, st, a[1]); d = a[0]
    c = ule(a[2], s.len)
    def ok(E, s2):
        rest = sub64(s.len, a[2]); n = ite64(ult(a[3], rest), a[3], rest)
        sset(E, s2, d, sget(E, s2, d).cat(s.sub(a[2], n))); return d
    return Outcomes([(c, ok), (simp(NOT(c)), lambda E, s2: Throw(Exc('_ZTISt12out_of_range')))])


@model(S(r'append\(unsigned long, char\)'))
def _(E, st, a, ins):
    o = Seq(FunN(lambda i, c=bv(a[2], 8): c), a[1], 1)
    sset(E, st, a[0], sget(E, st, a[0]).cat(o)); return a[0]


@model(RSTR + r'& ' + S(r'append<(.*), void>\(\1, \1\)'))
def _(E, st, a, ins):
    sset(E, st, a[0], sget(E, st, a[0]).cat(rangeseq(E, st, a[1], a[2]))); return a[0]


@model(S(r'operator\+=\(char\)'))
def _(E, st, a, ins):
    sset(E, st, a[0], sget(E, st, a[0]).push(a[1])); return a[0]


@model(S(r'(operator=|assign)\(%s const&\)' % RSTR))
def _(E, st, a, ins): sset(E, st, a[0], sget(E, st, a[1])); return a[0]


@model(S(r'(operator=|assign)\(%s&&\)' % RSTR))
def _(E, st, a, ins):
    s = sget(E, st, a[1]); sset(E, st, a[1], cstring(b'')); sset(E, st, a[0], s); return a[0]


@model(S(r'(operator=|assign)\(char const\*\)'))
def _(E, st, a, ins): sset(E, st, a[0], cstr_seq(E, st, a[1])); return a[0]


@model(S(r'assign\(char const\*, unsigned long\)'))
def _(E, st, a, ins): sset(E, st, a[0], bufseq(E, st, a[1], a[2])); return a[0]


@model(RSTR + r'& ' + S(r'assign<(.*), void>\(\1, \1\)'))
def _(E, st, a, ins):
    sset(E, st, a[0], rangeseq(E, st, a[1], a[2])); return a[0]


@model(S(r'assign\(unsigned long, char\)'))
def _(E, st, a, ins):
    sset(E, st, a[0], Seq(FunN(lambda i, c=bv(a[2], 8): c), a[1], 1)); return a[0]


@model(S(r'operator=\(char\)'))
def _(E, st, a, ins): sset(E, st, a[0], cstring(b'').push(a[1])); return a[0]


@model(S(r'swap\(%s&\)' % RSTR) + r'|void std::swap<char, .*>\(%s&, %s&\)' % (RSTR, RSTR))
def _(E, st, a, ins):
    x, y = sget(E, st, a[0]), sget(E, st, a[1]); sset(E, st, a[0], y); sset(E, st, a[1], x)


@model(S(r'resize\(unsigned long(, char)?\)'))
def _(E, st, a, ins):
    s = sget(E, st, a[0]); n = a[1]; c = bv(a[2] if len(a) > 2 else 0, 8)
    node = s.n
    if not (isint(n) and isint(s.len) and n <= s.len):
        node = CatN(s.n, s.len, FunN(lambda i: c))
    sset(E, st, a[0], s.with_(n=node, len=n))


def substr_to(E, st, dst, s, pos, n):
    c = ule(pos, s.len)
    def ok(E, s2):
        rest = sub64(s.len, pos)
        ln = rest if isint(n) and n == NPOS else ite64(ult(n, rest), n, rest)
        newstr(E, s2, dst, s.sub(pos, ln)); return None
    if isint(c) and c: return ok(E, st)
    return Outcomes([(c, ok), (simp(NOT(c)), lambda E, s2: Throw(Exc('_ZTISt12out_of_range')))])


@model(S(r'substr\(unsigned long, unsigned long\) const'))
def _(E, st, a, ins): return substr_to(E, st, a[0], sget(E, st, a[1]), a[2], a[3])


@model(S(r'erase\(unsigned long, unsigned long\)'))
def _(E, st, a, ins):
    s = sget(E, st, a[0]); pos, n = a[1], a[2]
    c = ule(pos, s.len)
    def ok(E, s2):
        rest = sub64(s.len, pos)
        ln = rest if isint(n) and n == NPOS else ite64(ult(n, rest), n, rest)
        sset(E, s2, a[0], s.with_(n=CatN(s.n, pos, shift(s.n, add64(pos, ln))), len=sub64(s.len, ln)))
        return a[0]
    return Outcomes([(c, ok), (simp(NOT(c)), lambda E, s2: Throw(Exc('_ZTISt12out_of_range')))])


def seq_eq(E, st, a, b):
    """equality of two sequences as a formula (exact when one length is a small constant)"""
    if isint(a.len) and isint(b.len) and a.len != b.len: return 0
    for x, y in ((a, b), (b, a)):
        if isint(x.len) and x.len <= 64:
            return simp(AND([b64(y.len) == x.len] + [bv(x.at(i), 8 * x.ew) == bv(y.at(i), 8 * x.ew) for i in range(x.len)]))
    key = ('seqeq', id(a.n), id(b.n))
    e = E.fresh('streq', 1)
    # e -> equal length (pointwise facts instantiated by contracts through eq_facts); !e -> a witness of difference
    w = E.fresh('diff')
    E.assume(st, z3.Implies(e, b64(a.len) == b64(b.len)))
    E.assume(st, z3.Implies(z3.Not(e), z3.Or(b64(a.len) != b64(b.len),
             z3.And(z3.ULT(w, b64(a.len)), bv(a.at(w), 8 * a.ew) != bv(b.at(w), 8 * a.ew)))))
    st.ghost['eqfacts'] = st.ghost.get('eqfacts', ()) + ((e, a, b),)
    for j in st.ghost.get('points', ()):
        E.assume(st, z3.Implies(z3.And(e, z3.ULT(b64(j), b64(a.len))), bv(a.at(j), 8 * a.ew) == bv(b.at(j), 8 * a.ew)))
    return e


@model(r'bool std::operator(==|!=)<char(, std::char_traits<char>, std::allocator<char>)?>\(.*\)|%s::compare\((%s|char) const[&*]\) const' % (RSTR, RSTR))
def _(E, st, a, ins):
    d = demangle(ins.x['callee'].v)
    par = d[d.rindex('>(') + 2:] if 'operator' in d else ''
    def get(p, isstr): return sget(E, st, p) if isstr else cstr_seq(E, st, p)
    if 'compare' in d.split('(')[0]:
        x = sget(E, st, a[0]); y = get(a[1], 'char const*' not in d.split('compare')[1])
        e = seq_eq(E, st, x, y)
        r = E.fresh('cmp', 32)
        E.assume(st, tob(e) == (r == 0))
        return r
    ps = par.rstrip(')').split(', std::')
    isl = [not x.strip().startswith('char const*') for x in split_params(par)]
    e = seq_eq(E, st, get(a[0], isl[0]), get(a[1], isl[1]))
    return simp(NOT(e)) if 'operator!=' in d else e


def split_params(s):
    out = []; d = 0; cur = ''
    for ch in s:
        if ch == ')' and d == 0: break
        if ch in '<([': d += 1
        if ch in '>)]': d -= 1
        if ch == ',' and d == 0: out.append(cur.strip()); cur = ''
        else: cur += ch
    if cur.strip(): out.append(cur.strip())
    return out


@model(RSTR + r' std::operator\+<char, std::char_traits<char>, std::allocator<char>>\(.*\)')
def _(E, st, a, ins):
    d = demangle(ins.x['callee'].v)
    ps = split_params(d[d.index('operator+<') + len('operator+<'):].split('>(', 1)[1])
    def get(p, t):
        if t.startswith('char const*'): return cstr_seq(E, st, p)
        if t == 'char': return cstring(b'').push(p)
        return sget(E, st, p)
    newstr(E, st, a[0], get(a[1], ps[0]).cat(get(a[2], ps[1])))


@model(S(r'find\(char, unsigned long\) const'))
def _(E, st, a, ins): return str_find1(E, st, sget(E, st, a[0]), lambda x, c=bv(a[1], 8): x == c, a[2])


@model(S(r'find_first_of\(char const\*, unsigned long\) const'))
def _(E, st, a, ins):
    cs = cstr_seq(E, st, a[1])
    if not isint(cs.len): raise Unsupported('find_first_of')
    return str_find1(E, st, sget(E, st, a[0]), lambda x: OR(*[x == bv(cs.at(i), 8) for i in range(cs.len)]), a[2])


def str_find1(E, st, s, pred, pos):
    """index of first element >= pos satisfying pred or npos; the universal part ("none before") is
    instantiated at the contract's points of interest and recorded for later instantiation"""
    r = E.fresh('find')
    found = E.fresh('found', 1)
    L = b64(s.len); P_ = b64(pos)
    E.assume(st, z3.Implies(found, z3.And(z3.ULE(P_, r), z3.ULT(r, L), tob(pred(bv(s.at(r), 8))))))
    E.assume(st, z3.Implies(z3.Not(found), r == NPOS))
    lim = z3.If(found, r, L)
    def none(j): return z3.Implies(z3.And(z3.ULE(P_, b64(j)), z3.ULT(b64(j), lim)), z3.Not(tob(pred(bv(s.at(j), 8)))))
    st.ghost['forall'] = st.ghost.get('forall', ()) + (none,)
    for j in st.ghost.get('points', ()): E.assume(st, none(j))
    return r


# ---------------------------------------------------------------- std::vector of scalars / std::deque
SCAL = {'char': 1, 'unsigned char': 1, 'signed char': 1, 'short': 2, 'unsigned short': 2, 'int': 4, 'unsigned int': 4, 'long': 8,
        'unsigned long': 8, 'long long': 8, 'unsigned long long': 8, 'bool': 1, 'float': 4, 'double': 8}


def targ(d, cont):
    """first template argument of the container in the demangled callee"""
    i = d.index('std::' + cont + '<') + len('std::' + cont + '<')
    dep = 0; j = i
    while True:
        ch = d[j]
        if ch in '<(': dep += 1
        if ch in '>)':
            if dep == 0: break
            dep -= 1
        if ch == ',' and dep == 0: break
        j += 1
    return d[i:j].strip()


def elemdesc(E, t):
    """(ew, x) of container element type t"""
    if t in SCAL: return SCAL[t], None
    if t.endswith('*'): return 8, None
    if t == STR or t == 'std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>':
        return 0, {'stride': 32, 'w': {}, 'havoc': havoc_strs, 'obj': 'str', 't': t}
    for h in E.__dict__.get('elemdescs', []):
        r = h(E, t)
        if r is not None: return r
    ty = None
    for pre in ('struct.', 'class.'):
        if pre + t in E.mod.types: ty = Ty('named', name=pre + t); break
    if ty is None: raise Unsupported('container element type ' + t)
    leaves = []
    def walk(ty, o):
        ty = E.mod.res(ty)
        if ty.k == 'struct':
            for i in range(len(ty.el)):
                fo, ft = E.mod.field(ty, i); walk(ft, o + fo)
        elif ty.k == 'array':
            for i in range(ty.n): walk(ty.el, o + i * E.mod.size(ty.el))
        elif ty.k == 'int': leaves.append((o, E.mod.size(ty)))
        else: raise Unsupported('container element leaf %r' % ty)
    walk(ty, 0)
    ws = dict(leaves)
    def hv(E, name):
        arrs = {o: E.fresharr('%s.f%d' % (name, o), 8 * w) for o, w in leaves}
        return FunN(lambda i: {o: simp(z3.Select(arrs[o], b64(i))) for o in arrs})
    return 0, {'stride': E.mod.size(ty), 'w': ws, 'havoc': hv, 'obj': 'pod', 't': t}


def havoc_strs(E, name):
    ls = E.fresharr(name + '.lens', 64)
    ds = z3.Array('%s.datas!%d' % (name, next(E.cnt)), z3.BitVecSort(64), z3.ArraySort(z3.BitVecSort(64), z3.BitVecSort(8)))
    return FunN(lambda i: Seq(ArrN(z3.Select(ds, b64(i))), simp(z3.Select(ls, b64(i))), 1, 'str'))


def emptyseq(E, d, cont):
    t = targ(d, cont)
    ew, x = elemdesc(E, t)
    return Seq(ConstN([], 8 * ew), 0, ew, cont, next(E.cnt), x)


VEC = r'std::(vector|deque|__cxx11::list)<.*>::'
OBJW = {'vector': 24, 'deque': 80}


def cont_of(d):
    m = re.search(r'std::(vector|deque)<', d); return m.group(1)


def dn(ins): return demangle(ins.x['callee'].v)


def vget(E, st, p):
    s = E.obj(st, p, 'container')
    if not isinstance(s, Seq): raise Unsupported('not a container')
    return s


def vset(E, st, p, s, gen=True):
    E.setobj(st, p, s.with_(gen=next(E.cnt)) if gen else s, OBJW.get(s.kind, 24))


def elemval(E, st, s, p):
    """value of the element object at pointer p, for storing into container s"""
    if s.ew:
        w = s.ew
        v = E.loadw(st, p, w)
        if isinstance(v, z3.BoolRef): v = bv(v, 8 * w)
        return v
    if s.x['obj'] == 'str': return sget(E, st, p)
    if s.x['obj'] == 'pod':
        return {o: E.loadw(st, Ptr(p.r, add64(p.o, o)), w) for o, w in s.x['w'].items()}
    return s.x['load'](E, st, p)


def zeroelem(E, s):
    if s.ew: return z3.BitVecVal(0, 8 * s.ew)
    if s.x['obj'] == 'str': return cstring(b'')
    if s.x['obj'] == 'pod': return {o: z3.BitVecVal(0, 8 * w) for o, w in s.x['w'].items()}
    raise Unsupported('default element')


@model(r'std::(vector|deque)<.*>::(vector|deque)\((std::allocator<.*> const&)?\)')
def _(E, st, a, ins):
    d = dn(ins); vset(E, st, a[0], emptyseq(E, d, cont_of(d)))


@model(r'std::(vector|deque)<.*>::(vector|deque)\(unsigned long, std::allocator<.*> const&\)')
def _(E, st, a, ins):
    d = dn(ins); s = emptyseq(E, d, cont_of(d))
    z = zeroelem(E, s)
    vset(E, st, a[0], s.with_(n=FunN(lambda i: z), len=a[1]))


@model(r'std::(vector|deque)<.*>::(vector|deque)\(unsigned long, .* const&, std::allocator<.*> const&\)')
def _(E, st, a, ins):
    d = dn(ins); s = emptyseq(E, d, cont_of(d)); v = elemval(E, st, s, a[2])
    if isint(v): v = z3.BitVecVal(v, 8 * s.ew)
    vset(E, st, a[0], s.with_(n=FunN(lambda i: v), len=a[1]))


@model(r'std::(vector|deque)<(.*)>::(vector|deque)\(std::(vector|deque)<\2> const&\)')
def _(E, st, a, ins): vset(E, st, a[0], vget(E, st, a[1]))


@model(r'std::(vector|deque)<(.*)>::(vector|deque)\(std::(vector|deque)<\2>&&\)')
def _(E, st, a, ins):
    s = vget(E, st, a[1]); vset(E, st, a[0], s); vset(E, st, a[1], emptyseq(E, dn(ins), s.kind))


@model(r'std::(vector|deque)<.*>::~(vector|deque)\(\)')
def _(E, st, a, ins): return None


@model(r'std::(vector|deque)<(.*)>::operator=\(std::(vector|deque)<\2>( const&|&&)\)')
def _(E, st, a, ins):
    vset(E, st, a[0], vget(E, st, a[1])); return a[0]


@model(r'std::(vector|deque)<.*>::size\(\) const')
def _(E, st, a, ins): return vget(E, st, a[0]).len


@model(r'std::(vector|deque)<.*>::empty\(\) const')
def _(E, st, a, ins): return eqv(vget(E, st, a[0]).len, 0)


@model(r'std::(vector|deque)<.*>::capacity\(\) const')
def _(E, st, a, ins):
    c = E.fresh('cap'); E.assume(st, z3.UGE(c, b64(vget(E, st, a[0]).len))); return c


@model(r'std::(vector|deque)<.*>::reserve\(unsigned long\)')
def _(E, st, a, ins): return None


@model(r'std::(vector|deque)<.*>::shrink_to_fit\(\)')
def _(E, st, a, ins): return None


@model(r'std::(vector|deque)<.*>::clear\(\)')
def _(E, st, a, ins):
    s = vget(E, st, a[0]); vset(E, st, a[0], s.with_(n=ConstN([], 8 * s.ew), len=0))


def stride(s): return s.ew or s.x['stride']


@model(r'std::(vector|deque)<.*>::operator\[\]\(unsigned long\)( const)?')
def _(E, st, a, ins):
    s = vget(E, st, a[0])
    if not st.ghost.get('lazyindex'):
        E.prove(st, ult(a[1], s.len), 'container index below size', 'memory')
    return E.dataptr(st, a[0], s, mul64(a[1], stride(s)))


@model(r'std::(vector|deque)<.*>::at\(unsigned long\)( const)?')
def _(E, st, a, ins):
    s = vget(E, st, a[0]); c = ult(a[1], s.len)
    return Outcomes([(c, lambda E, s2: E.dataptr(s2, a[0], s, mul64(a[1], stride(s)))), (simp(NOT(c)), lambda E, s2: Throw(Exc('_ZTISt12out_of_range')))])


@model(r'std::(vector|deque)<.*>::front\(\)( const)?')
def _(E, st, a, ins):
    s = vget(E, st, a[0]); E.prove(st, ult(0, s.len), 'front() of a non-empty container', 'memory')
    return E.dataptr(st, a[0], s, 0)


@model(r'std::(vector|deque)<.*>::back\(\)( const)?')
def _(E, st, a, ins):
    s = vget(E, st, a[0]); E.prove(st, ult(0, s.len), 'back() of a non-empty container', 'memory')
    return E.dataptr(st, a[0], s, mul64(sub64(s.len, 1), stride(s)))


@model(r'std::vector<.*>::data\(\)( const)?|std::vector<.*>::c?begin\(\)( const)?')
def _(E, st, a, ins): return E.dataptr(st, a[0], vget(E, st, a[0]))


@model(r'std::vector<.*>::c?end\(\)( const)?')
def _(E, st, a, ins):
    s = vget(E, st, a[0]); return E.dataptr(st, a[0], s, mul64(s.len, stride(s)))


@model(r'(.* )?std::(vector|deque)<.*>::(push_back|emplace_back)(<.*>)?\((?!.*&&, ).*\)')
def _(E, st, a, ins):
    s = vget(E, st, a[0])
    vset(E, st, a[0], s.push(elemval(E, st, s, a[1])))
    s = vget(E, st, a[0])
    return E.dataptr(st, a[0], s, mul64(sub64(s.len, 1), stride(s)))


@model(r'std::deque<.*>::push_front\(.*\)')
def _(E, st, a, ins):
    s = vget(E, st, a[0]); v = elemval(E, st, s, a[1])
    vset(E, st, a[0], s.with_(n=CatN(ConstN([v], 8 * s.ew), 1, s.n), len=add64(s.len, 1)))


@model(r'std::(vector|deque)<.*>::pop_back\(\)')
def _(E, st, a, ins):
    s = vget(E, st, a[0]); E.prove(st, ult(0, s.len), 'pop_back() of a non-empty container', 'memory')
    vset(E, st, a[0], s.with_(len=sub64(s.len, 1)))


@model(r'std::deque<.*>::pop_front\(\)')
def _(E, st, a, ins):
    s = vget(E, st, a[0]); E.prove(st, ult(0, s.len), 'pop_front() of a non-empty container', 'memory')
    vset(E, st, a[0], s.with_(n=shift(s.n, 1), len=sub64(s.len, 1)))


@model(r'std::(vector|deque)<.*>::resize\(unsigned long(, .*)?\)')
def _(E, st, a, ins):
    s = vget(E, st, a[0])
    z = elemval(E, st, s, a[2]) if len(a) > 2 else zeroelem(E, s)
    if isint(z): z = z3.BitVecVal(z, 8 * s.ew)
    n = s.n
    if not (isint(a[1]) and isint(s.len) and a[1] <= s.len): n = CatN(s.n, s.len, FunN(lambda i: z))
    vset(E, st, a[0], s.with_(n=n, len=a[1]))


@model(r'std::(vector|deque)<.*>::swap\(.*\)|void std::swap<.*>\(std::(vector|deque)<.*>&, std::(vector|deque)<.*>&\)')
def _(E, st, a, ins):
    x, y = vget(E, st, a[0]), vget(E, st, a[1]); vset(E, st, a[0], y); vset(E, st, a[1], x)


@model(r'.*std::vector<.*>::insert(<.*>)?\(__gnu_cxx::__normal_iterator<.* const\*, .*>, (__gnu_cxx::__normal_iterator<.*>|.*\*), (__gnu_cxx::__normal_iterator<.*>|.*\*)\)')
def _(E, st, a, ins):
    p, f, l = a[1], a[2], a[3]
    s = vget(E, st, a[0])
    if s.ew != 1: raise Unsupported('range insert of wide elements')
    src = rangeseq(E, st, f, l)
    pos = p.o
    n = CatN(s.n, pos, CatN(src.n, src.len, shift(s.n, pos)))
    vset(E, st, a[0], s.with_(n=n, len=add64(s.len, src.len)))
    return E.dataptr(st, a[0], vget(E, st, a[0]), pos)


@model(r'std::(min|max)<.*>\(.*\)')
def _skip(E, st, a, ins): raise Unsupported('min/max')


MODELS.pop()


# std::queue/stack adaptors forward to their container through inline bodies (executed)


# ---------------------------------------------------------------- std::basic_string<unsigned int>
USTR = r'std::__cxx11::basic_string<unsigned int, std::char_traits<unsigned int>, std::allocator<unsigned int>>'
RU = re.escape(USTR)


def U(n): return RU + '::' + n


def uempty(E): return Seq(ConstN([], 32), 0, 4, 'ustr', next(E.cnt))


def uset(E, st, p, s): E.setobj(st, p, s.with_(kind='ustr', gen=next(E.cnt)), 32)


@model(U(r'basic_string\(\)'))
def _(E, st, a, ins): uset(E, st, a[0], uempty(E))


@model(U(r'basic_string\(%s const&\)' % RU) + '|' + U(r'operator=\(%s const&\)' % RU))
def _(E, st, a, ins): uset(E, st, a[0], vget(E, st, a[1])); return a[0]


@model(U(r'(basic_string|operator=)\(%s&&\)' % RU))
def _(E, st, a, ins): uset(E, st, a[0], vget(E, st, a[1])); uset(E, st, a[1], uempty(E)); return a[0]


@model(U(r'~basic_string\(\)'))
def _(E, st, a, ins): return None


@model(U(r'(operator\+=|push_back)\(unsigned int\)'))
def _(E, st, a, ins): uset(E, st, a[0], vget(E, st, a[0]).push(a[1])); return a[0]


@model(U(r'(size|length)\(\) const'))
def _(E, st, a, ins): return vget(E, st, a[0]).len


@model(U(r'empty\(\) const'))
def _(E, st, a, ins): return eqv(vget(E, st, a[0]).len, 0)


@model(U(r'reserve\(.*\)'))
def _(E, st, a, ins): return None


@model(U(r'operator\[\]\(unsigned long\)( const)?'))
def _(E, st, a, ins):
    s = vget(E, st, a[0]); E.prove(st, ult(a[1], s.len), 'string index within size', 'memory')
    return E.dataptr(st, a[0], s, mul64(a[1], 4))


@model(U(r'(c?begin|c_str|data)\(\)( const)?'))
def _(E, st, a, ins): return E.dataptr(st, a[0], vget(E, st, a[0]))


@model(U(r'c?end\(\)( const)?'))
def _(E, st, a, ins):
    s = vget(E, st, a[0]); return E.dataptr(st, a[0], s, mul64(s.len, 4))


@model(U(r'at\(unsigned long\)( const)?'))
def _(E, st, a, ins):
    s = vget(E, st, a[0]); E.prove(st, ult(a[1], s.len), 'string index within size', 'memory')
    return E.dataptr(st, a[0], s, mul64(a[1], 4))


def litbytes(E, st, p):
    """concrete C string at p as bytes, or None"""
    s = cstr_lit(E, st, p)
    if s is None: return None
    return bytes(s.at(i) for i in range(s.len))


@model(r'memcmp|bcmp|__builtin_memcmp')
def _(E, st, a, ins):
    n = conc(a[2])
    if not isint(n) or n > 64: raise Unsupported('memcmp of symbolic length')
    r = z3.BitVecVal(0, 32); d = []
    for i in range(n):
        x = bv(E.loadw(st, Ptr(a[0].r, add64(a[0].o, i)), 1), 8); y = bv(E.loadw(st, Ptr(a[1].r, add64(a[1].o, i)), 1), 8)
        d.append((x, y))
    for x, y in reversed(d):
        r = z3.If(x == y, r, z3.If(z3.ULT(x, y), z3.BitVecVal(-1, 32), z3.BitVecVal(1, 32)))
    return simp(r)
