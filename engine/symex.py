"""Path-wise verification-condition generator over LLVM IR (see DESIGN.md).

Values: integers are Python ints (concrete, unsigned) or z3 bit-vectors; i1 is 0/1 or z3 Bool;
pointers are Ptr(region, byte offset); abstract library objects (strings, vectors, deques ...) are
Seq values stored as one cell of the object that contains them."""
import re, subprocess, time, sys, itertools, os
import z3
from llir import *

sys.setrecursionlimit(100000)
z3.set_param('smt.random_seed', 1)
M64 = (1 << 64) - 1


class Unsupported(Exception):
    """the verifier cannot decide this function (never reported as a violation)"""


class Budget(Unsupported):
    pass


class Infeasible(Exception):
    pass


class Ptr:
    __slots__ = ('r', 'o')

    def __init__(self, r, o=0):
        self.r = r; self.o = o

    def __repr__(self):
        return 'Ptr(%r,%s)' % (self.r, self.o)


NULL = Ptr(None, 0)


class Undef:
    def __repr__(self): return 'undef'


class Exc:
    def __init__(self, ti, ptr=None, msg=None):
        self.ti = ti; self.ptr = ptr; self.msg = msg

    def __repr__(self): return 'Exc(%s)' % self.ti


class Throw:
    def __init__(self, exc): self.exc = exc


class Outcomes:
    """alternatives of a modelled call: list of (cond|None, fn(E, st)->value|Throw)"""
    def __init__(self, alts): self.alts = alts


class Stop:
    """end this path silently (e.g. abort/exit)"""


# ------------------------------------------------------------------ z3 helpers
def isint(x): return isinstance(x, int)


def bv(x, w):
    if isinstance(x, int): return z3.BitVecVal(x, w)
    if isinstance(x, z3.BoolRef): return z3.If(x, z3.BitVecVal(1, w), z3.BitVecVal(0, w))
    return x


def b64(x): return bv(x, 64)


def tob(x):
    """to z3 Bool"""
    if isinstance(x, bool): return z3.BoolVal(x)
    if isinstance(x, int): return z3.BoolVal(x != 0)
    if isinstance(x, z3.BitVecRef): return x != 0
    return x


def conc(x):
    """collapse z3 constants to python ints"""
    if isinstance(x, z3.BitVecNumRef): return x.as_long()
    if isinstance(x, z3.BoolRef):
        if z3.is_true(x): return 1
        if z3.is_false(x): return 0
    return x


def simp(x):
    if isinstance(x, int): return x
    return conc(z3.simplify(x))


def signed(x, w):
    return x - (1 << w) if x >> (w - 1) else x


def add64(a, b):
    if isinstance(a, int) and isinstance(b, int): return (a + b) & M64
    if isinstance(b, int) and b == 0: return a
    if isinstance(a, int) and a == 0: return b
    return simp(b64(a) + b64(b))


def sub64(a, b):
    if isinstance(a, int) and isinstance(b, int): return (a - b) & M64
    if isinstance(b, int) and b == 0: return a
    return simp(b64(a) - b64(b))


def mul64(a, c):
    if isinstance(a, int) and isinstance(c, int): return (a * c) & M64
    if c == 1 and isinstance(c, int): return a
    return simp(b64(a) * b64(c))


def linear(e):
    """decompose a 64-bit value into (const, {id: (coef, expr)})"""
    if isinstance(e, int): return e & M64, {}
    const = 0; terms = {}
    st = [(e, 1)]
    while st:
        x, c = st.pop()
        if isinstance(x, z3.BitVecNumRef):
            const = (const + c * x.as_long()) & M64; continue
        d = x.decl().kind()
        if d == z3.Z3_OP_BADD:
            for ch in x.children(): st.append((ch, c))
            continue
        if d == z3.Z3_OP_BNEG:
            st.append((x.arg(0), -c)); continue
        if d == z3.Z3_OP_BSUB:
            st.append((x.arg(0), c))
            for ch in x.children()[1:]: st.append((ch, -c))
            continue
        if d == z3.Z3_OP_BMUL and x.num_args() == 2 and isinstance(x.arg(0), z3.BitVecNumRef):
            st.append((x.arg(1), c * x.arg(0).as_long())); continue
        if d == z3.Z3_OP_BMUL and x.num_args() == 2 and isinstance(x.arg(1), z3.BitVecNumRef):
            st.append((x.arg(0), c * x.arg(1).as_long())); continue
        if d == z3.Z3_OP_CONCAT and x.num_args() == 2 and isinstance(x.arg(1), z3.BitVecNumRef) and x.arg(1).as_long() == 0 \
                and x.arg(0).decl().kind() == z3.Z3_OP_EXTRACT:
            ex = x.arg(0); k = x.arg(1).size()
            hi, lo = ex.params()
            if lo == 0 and ex.arg(0).size() == 64 and hi == 63 - k:
                st.append((ex.arg(0), c << k)); continue
        i = x.get_id()
        oc = terms.get(i, (0, x))[0]
        terms[i] = ((oc + c) & M64, x)
    terms = {k: v for k, v in terms.items() if v[0]}
    return const, terms


def split_index(off, s):
    """off = s*idx + f with constant 0<=f<s ; returns (idx, f) or None"""
    if s == 1: return off, 0
    c, t = linear(off)
    c = signed(c, 64)
    f = c % s; idx = ((c - f) // s) & M64
    e = idx
    for co, x in t.values():
        co = signed(co, 64)
        if co % s: return None
        e = add64(e, mul64(x, (co // s) & M64))
    return e, f


def ult(a, b):
    if isint(a) and isint(b): return int(a < b)
    return simp(z3.ULT(b64(a), b64(b)))


def ule(a, b):
    if isint(a) and isint(b): return int(a <= b)
    return simp(z3.ULE(b64(a), b64(b)))


def eqv(a, b):
    if isint(a) and isint(b): return int(a == b)
    if isint(a): a, b = b, a
    if isinstance(a, z3.BoolRef) or isinstance(b, z3.BoolRef):
        return simp(tob(a) == tob(b))
    return simp(a == bv(b, a.size()))


def AND(*xs):
    r = []
    for x in xs:
        if isinstance(x, (list, tuple)): r += [tob(y) for y in x]
        else: r.append(tob(x))
    return z3.And(*r) if len(r) != 1 else r[0]


def OR(*xs): return z3.Or(*[tob(x) for x in xs])
def NOT(x): return z3.Not(tob(x))
def IMP(a, b): return z3.Implies(tob(a), tob(b))


def ite(c, a, b):
    c = conc(c)
    if isint(c): return a if c else b
    if a is b: return a
    if isinstance(a, Seq) and isinstance(b, Seq):
        return Seq(IteN(c, a.n, b.n), ite(c, a.len, b.len), a.ew, a.kind)
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        if a.r == b.r: return Ptr(a.r, ite(c, a.o, b.o)) if not (isint(a.o) and isint(b.o)) else Ptr(a.r, ite64(c, a.o, b.o))
        raise Unsupported('merge of pointers into different objects')
    if isinstance(a, dict) and isinstance(b, dict):
        return {k: ite(c, a[k], b[k]) for k in a}
    if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
        return type(a)(ite(c, x, y) for x, y in zip(a, b))
    if isint(a) and isint(b):
        if a == b: return a
        raise Unsupported('ite of two concrete ints without width')
    if isint(a):
        if isinstance(b, z3.BoolRef): return z3.If(c, tob(a), b)
        return z3.If(c, z3.BitVecVal(a, b.size()), b)
    if isint(b):
        if isinstance(a, z3.BoolRef): return z3.If(c, a, tob(b))
        return z3.If(c, a, z3.BitVecVal(b, a.size()))
    if a.eq(b): return a
    return z3.If(c, a, b)


def ite64(c, a, b, w=64):
    c = conc(c)
    if isint(c): return a if c else b
    if isint(a) and isint(b) and a == b: return a
    return simp(z3.If(c, bv(a, w), bv(b, w)))


# ------------------------------------------------------------------ sequences
class Node:
    pass


class ArrN(Node):
    def __init__(self, arr, start=0): self.arr = arr; self.s = start

    def at(self, i, w=0): return simp(z3.Select(self.arr, b64(add64(i, self.s))))


class FunN(Node):
    """content given by a Python function of the index"""
    def __init__(self, f): self.f = f
    def at(self, i, w=0): return self.f(i)


class ConstN(Node):
    def __init__(self, vals, w): self.v = list(vals); self.w = w; self._arr = None

    def at(self, i, w=0):
        if isint(i):
            if i < len(self.v): return self.v[i]
            return 0
        if not self.v: return 0
        if any(not isinstance(x, (int, z3.BitVecRef)) for x in self.v):
            r = self.v[-1]
            for k in range(len(self.v) - 2, -1, -1): r = ite(i == k, self.v[k], r)
            return r
        if all(isint(x) for x in self.v) and len(set(self.v)) == 1: return self.v[0]
        if self._arr is None:
            a = z3.K(z3.BitVecSort(64), z3.BitVecVal(0, self.w))
            for k, x in enumerate(self.v):
                if not (isint(x) and x == 0): a = z3.Store(a, z3.BitVecVal(k, 64), bv(x, self.w))
            self._arr = a
        if len(self.v) <= 300:
            # balanced if-tree on the value of i
            r = bv(self.v[-1], self.w) if len(self.v) else z3.BitVecVal(0, self.w)
            return tree_select(self.v, self.w, i, 0, len(self.v))
        return z3.Select(self._arr, i)


def tree_select(v, w, i, lo, hi):
    if hi - lo == 1: return bv(v[lo], w)
    mid = (lo + hi) // 2
    a = tree_select(v, w, i, lo, mid); b = tree_select(v, w, i, mid, hi)
    if a.eq(b): return a
    return z3.If(z3.ULT(i, mid), a, b)


class UpdN(Node):
    def __init__(self, b, i, v): self.b = b; self.i = i; self.v = v

    def at(self, j, w=0):
        # iterative over chains
        conds = []
        n = self
        while isinstance(n, UpdN):
            c = simp(b64(n.i) == b64(j)) if not (isint(n.i) and isint(j)) else int(n.i == j)
            if isint(c):
                if c:
                    r = n.v; break
            else:
                conds.append((c, n.v))
            n = n.b
        else:
            r = n.at(j, w)
        for c, v in reversed(conds):
            r = itew(c, v, r, w)
        return r


def itew(c, a, b, w):
    if isint(a) and isint(b):
        if a == b: return a
        if not w: raise Unsupported('ite of ints without width')
        return ite64(c, a, b, w)
    return ite(c, a, b)


class CatN(Node):
    def __init__(self, a, la, b): self.a = a; self.la = la; self.b = b

    def at(self, i, w=0):
        c = ult(i, self.la)
        if isint(c): return self.a.at(i, w) if c else self.b.at(sub64(i, self.la), w)
        return itew(c, self.a.at(i, w), self.b.at(sub64(i, self.la), w), w)


class RangeN(Node):
    """base with [dst,dst+n) replaced by src[soff...]"""
    def __init__(self, base, dst, n, src, soff): self.b = base; self.d = dst; self.n = n; self.src = src; self.so = soff

    def at(self, i, w=0):
        c = simp(z3.ULT(b64(sub64(i, self.d)), b64(self.n)))
        k = add64(sub64(i, self.d), self.so)
        if isint(c): return self.src.at(k, w) if c else self.b.at(i, w)
        return itew(c, self.src.at(k, w), self.b.at(i, w), w)


class ShiftN(Node):
    def __init__(self, b, k): self.b = b; self.k = k
    def at(self, i, w=0): return self.b.at(add64(i, self.k), w)


class IteN(Node):
    def __init__(self, c, a, b): self.c = c; self.a = a; self.b = b
    def at(self, i, w=0): return itew(self.c, self.a.at(i, w), self.b.at(i, w), w)


class MapN(Node):
    """element transform (byte views of wider elements and so on)"""
    def __init__(self, f): self.f = f
    def at(self, i, w=0): return self.f(i)


class Seq:
    """abstract sequence: node (content), len (elements), ew (element bytes or 0 for objects)"""
    __slots__ = ('n', 'len', 'ew', 'kind', 'gen', 'x')

    def __init__(self, n, len, ew=1, kind='str', gen=0, x=None):
        self.n = n; self.len = len; self.ew = ew; self.kind = kind; self.gen = gen; self.x = x

    def at(self, i):
        return self.n.at(i, 8 * self.ew)

    def with_(self, **kw):
        s = Seq(self.n, self.len, self.ew, self.kind, self.gen, self.x)
        for k, v in kw.items(): setattr(s, k, v)
        return s

    def push(self, v):
        n = self.n
        if self.ew and isint(v): v = z3.BitVecVal(v, 8 * self.ew) if not isint(self.len) else v
        return self.with_(n=upd(n, self.len, v, self.ew), len=add64(self.len, 1))

    def set(self, i, v):
        return self.with_(n=upd(self.n, i, v, self.ew))

    def cat(self, o):
        if isint(o.len):
            s = self
            if o.len <= 64:
                n = self.n
                for k in range(o.len):
                    n = upd(n, add64(self.len, k), o.at(k), self.ew)
                return self.with_(n=n, len=add64(self.len, o.len))
        return self.with_(n=CatN(self.n, self.len, o.n), len=add64(self.len, o.len))

    def sub(self, pos, ln):
        return self.with_(n=shift(self.n, pos), len=ln)


def shift(n, k):
    if isint(k) and k == 0: return n
    if isinstance(n, ArrN): return ArrN(n.arr, add64(n.s, k))
    if isinstance(n, ConstN) and isint(k): return ConstN(n.v[k:], n.w)
    return ShiftN(n, k)


def upd(n, i, v, ew):
    if isinstance(n, ConstN) and isint(i) and i <= len(n.v):
        l = list(n.v)
        if i == len(l): l.append(v)
        else: l[i] = v
        return ConstN(l, n.w)
    if ew and isint(v): v = z3.BitVecVal(v, 8 * ew)
    if isinstance(n, ArrN) and ew:
        return ArrN(z3.Store(n.arr, b64(add64(i, n.s)), v), n.s)
    return UpdN(n, i, v)


def cstring(bs):
    return Seq(ConstN(list(bs), 8), len(bs), 1, 'str')


# ------------------------------------------------------------------ memory
class Region:
    __slots__ = ('id', 'size', 'cells', 'seq', 'name', 'dead', 'const', 'kind', 'fill')

    def __init__(self, id, size, name='', kind='heap'):
        self.id = id; self.size = size; self.cells = {}; self.seq = None; self.name = name
        self.dead = False; self.const = False; self.kind = kind; self.fill = None

    def copy(self):
        r = Region(self.id, self.size, self.name, self.kind)
        r.cells = dict(self.cells); r.seq = self.seq; r.dead = self.dead; r.const = self.const; r.fill = self.fill
        return r


class Frame:
    __slots__ = ('f', 'blk', 'bname', 'prev', 'ip', 'regs', 'allocas', 'visits', 'lctx', 'hook')

    def __init__(self, f, hook=None):
        self.f = f; self.bname = f.entry; self.blk = f.blocks[f.entry]; self.prev = None; self.ip = 0
        self.regs = {}; self.allocas = []; self.visits = {}; self.lctx = {}; self.hook = hook

    def copy(self):
        n = Frame.__new__(Frame)
        n.f = self.f; n.blk = self.blk; n.bname = self.bname; n.prev = self.prev; n.ip = self.ip
        n.regs = dict(self.regs); n.allocas = list(self.allocas); n.visits = dict(self.visits); n.lctx = dict(self.lctx)
        n.hook = self.hook
        return n


class State:
    def __init__(self):
        self.frames = []; self.mem = {}; self.pc = []; self.ghost = {}; self.exc = None; self.loopseq = 0
        self.trace = []; self.caught = []

    def copy(self):
        s = State()
        s.frames = [f.copy() for f in self.frames]
        s.mem = dict(self.mem); s.pc = list(self.pc); s.ghost = dict(self.ghost); s.exc = self.exc
        s.loopseq = self.loopseq; s.trace = list(self.trace); s.caught = list(self.caught)
        return s


_arrc = {}
def hasarr(e):
    """mentions an array, an uninterpreted function or a floating-point value"""
    i = e.get_id()
    if i in _arrc: return _arrc[i][1]
    todo = [e]; seen = set(); r = False
    while todo:
        x = todo.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_app(x):
            if not (z3.is_bv(x) or z3.is_bool(x)) or (x.num_args() and x.decl().kind() in (z3.Z3_OP_UNINTERPRETED, z3.Z3_OP_SELECT)): r = True; break
            todo += x.children()
        else: r = True; break
    _arrc[i] = (e, r)
    return r


def hasfp(c, pc):
    seen = set(); stack = list(pc) + ([] if isint(c) else [c])
    while stack:
        x = stack.pop()
        if isint(x) or x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_fp(x): return True
        stack.extend(x.children())
    return False


class LoopSpec:
    """Loop invariant stated over the abstraction.
    inv(E, st, k, entry) -> list of (name, formula);  facts(E, st, k, entry) -> definitional unfoldings to assume
    k is the ghost iteration counter; entry the state in which the loop was entered."""
    def __init__(self, inv, facts=None, name='loop', func=None, phis=None, havoc=None, bounded=None, peel=0, cells=False):
        self.cells = cells   # phis also gets the modified memory cells, named ('cell', region, offset)
        self.peel = peel     # number of iterations executed before the rule is applied
        self.inv = inv; self.facts = facts; self.name = name; self.func = func; self.phis = phis; self.havoc = havoc


class LCtx:
    def __init__(self):
        pass


class Obl:
    __slots__ = ('name', 'kind', 'loc', 'status', 'backend', 't', 'model', 'why')

    def __init__(self, name, kind, loc, status, backend, t, model=None, why=''):
        self.name = name; self.kind = kind; self.loc = loc; self.status = status; self.backend = backend; self.t = t
        self.model = model; self.why = why


_demcache = {}


def demangle_all(names):
    names = [n for n in names if n not in _demcache]
    if not names: return
    p = subprocess.run(['c++filt'], input='\n'.join(names), text=True, capture_output=True)
    out = p.stdout.split('\n')
    for n, d in zip(names, out):
        _demcache[n] = re.sub(r' >', '>', d)


def demangle(n):
    if n not in _demcache: demangle_all([n])
    return _demcache[n]


class Engine:
    ft = 4000    # time limit (ms) of branch feasibility queries; no answer means the branch is explored
    it = 1500    # time limit (ms) of the first attempt at an obligation, in the incremental solver
    def __init__(self, mod, models, time_limit=300, tier='quick'):
        self.mod = mod; self.models = models
        demangle_all(list(mod.funcs) + list(mod.decls))
        for f in mod.funcs.values(): f.dem = demangle(f.name)
        self.S = z3.Solver(); self.S.set('timeout', self.ft)
        self.obls = []; self.mode = 'real'
        self.cnt = itertools.count(1)
        self.mcache = {}; self.local_models = []
        self.loopspecs = []; self.unroll = 70; self.merge = []
        self.deadline = time.time() + time_limit
        self.used_funcs = {}; self.used_models = {}
        self.solver_time = 0.0; self.nq = 0; self.npaths = 0
        self.check_mem = True
        self.prefix = ''
        self.input_terms = []   # (name, z3 term) evaluated in counterexamples
        self.tier = tier
        self.base = None
        self.dump = None
        self.max_paths = 20000
        self.stop_on_fail = True
        self.failed = None
        self.globmap = {}
        self.tids = {}
        self.noexec = []
        self.on_step = None
        self.seen_obl = {}
        self.prove_timeout = 20000
        self.writable_globals_havoc = True
        self.fphook = None
        self.bounded_used = []

    # ---------------------------------------------------------- symbols
    def fresh(self, name, w=64):
        n = '%s!%d' % (name, next(self.cnt))
        if w == 1: return z3.Bool(n)
        return z3.BitVec(n, w)

    def fresharr(self, name, w=8):
        return z3.Array('%s!%d' % (name, next(self.cnt)), z3.BitVecSort(64), z3.BitVecSort(w))

    def func(self, pat, must=True, pred=None):
        """unique function whose demangled name matches the regex"""
        r = [f for f in self.mod.funcs.values() if re.search(pat, f.dem) and (pred is None or pred(f))]
        # constructors/destructors come in two flavours
        if len(r) > 1:
            r2 = [f for f in r if not re.search(r'(C1E|D1E|D0E)', f.name)]
            if r2: r = r2
        if len(r) != 1:
            if not must: return r[0] if r else None
            raise Unsupported('function %s: %d definitions' % (pat, len(r)))
        return r[0]

    # ---------------------------------------------------------- regions
    def region(self, st, size, name='', kind='heap'):
        rid = next(self.cnt)
        r = Region(rid, size, name, kind)
        st.mem[rid] = r
        return rid

    def seqregion(self, st, seq, name='', kind='heap'):
        rid = self.region(st, None, name, kind)
        st.mem[rid].seq = seq
        return rid

    def sym_buf(self, st, name, n=None, ew=1, const=False):
        """buffer of symbolic length; returns (Ptr, Seq)"""
        ln = n if n is not None else self.fresh(name + '.len')
        s = Seq(ArrN(self.fresharr(name, 8 * ew)), ln, ew, 'buf')
        rid = self.seqregion(st, s, name)
        st.mem[rid].const = const
        return Ptr(rid, 0), s

    def sym_str(self, st, name, maxlen=1 << 40):
        """object holding a symbolic std::string"""
        ln = self.fresh(name + '.len')
        self.assume(st, z3.ULT(ln, maxlen))
        s = Seq(ArrN(self.fresharr(name, 8)), ln, 1, 'str')
        rid = self.region(st, 32, name)
        st.mem[rid].cells[0] = (32, s)
        return Ptr(rid, 0), s

    def alloc(self, st, size, name='obj'):
        return Ptr(self.region(st, size, name), 0)

    def loc(self, st):
        if not st.frames: return ''
        out = []
        for fr in reversed(st.frames[-3:]):
            try: ln = fr.blk[min(fr.ip, len(fr.blk) - 1)].line
            except Exception: ln = 0
            out.append('%s:%d' % (short(fr.f.dem), ln))
        return ' < '.join(out)

    # ---------------------------------------------------------- solver
    def assume(self, st, c):
        c = conc(c) if not isint(c) else c
        if isint(c):
            if not c: raise Infeasible()
            return
        st.pc.append(c)
        self.S.add(c)

    def feasible(self):
        t = time.time()
        r = self.S.check()
        self.solver_time += time.time() - t; self.nq += 1
        return r != z3.unsat

    def concretise(self, st, t):
        """the only possible value of t under the path condition, if there is just one"""
        if isint(t): return t
        t0 = time.time()
        try:
            self.S.set('timeout', 1500)
            if self.S.check() != z3.sat: return t
            v = self.S.model().eval(t, model_completion=True)
            self.S.push(); self.S.add(t != v)
            r = self.S.check()
            self.S.pop()
            return v.as_long() if r == z3.unsat else t
        finally:
            self.S.set('timeout', self.ft)
            self.solver_time += time.time() - t0

    def tick(self):
        if time.time() > self.deadline: raise Budget('time budget')

    def prove(self, st, c, name, kind='post'):
        """obligation: pc => c ; then assumes c"""
        if self.mode == 'dry':
            c = simp(tob(c))
            if not isint(c) :
                try: self.assume(st, c)
                except Infeasible: raise
            elif not c: raise Infeasible()
            return True
        c0 = tob(c)
        c = simp(c0)
        loc = self.loc(st)
        if isint(c) and c:
            self.obls.append(Obl(self.prefix + name, kind, loc, 'discharged', 'simplifier', 0.0))
            return True
        self.tick()
        t = time.time()
        if self.dump:
            s = z3.Solver(); s.add(*st.pc); s.add(z3.Not(tob(c)))
            open('%s/%04d_%s.smt2' % (self.dump, len(self.obls), re.sub(r'\W+', '_', name)[:40]), 'w').write('(set-logic QF_AUFBV)\n' + s.to_smt2())
        self.S.push()
        self.S.add(z3.Not(tob(c)))
        self.S.set('timeout', self.it)
        r = self.S.check()
        self.S.set('timeout', self.ft)
        mdl = self.S.model() if r == z3.sat else None
        self.S.pop()
        be = 'z3-incremental'
        if r == z3.unknown and not hasarr(tob(c)):       # the bit-vector part of the path condition alone
            s = z3.SolverFor('QF_BV'); s.set('timeout', self.prove_timeout // 2); s.add(*[x for x in st.pc if not hasarr(x)]); s.add(z3.Not(tob(c))); be = 'z3'
            if s.check() == z3.unsat: r = z3.unsat
        if r == z3.unknown:
            r = z3.unknown
            for lg, ms in ((None, 1000), ('QF_BVFP', self.prove_timeout * 2)) if hasfp(c, st.pc) else (('QF_AUFBV', self.prove_timeout), (None, self.prove_timeout // 2)):
                s = z3.SolverFor(lg) if lg else z3.Solver()
                s.set('timeout', ms)
                s.add(*st.pc); s.add(z3.Not(tob(c)))
                try: r = s.check()
                except z3.Z3Exception: r = z3.unknown
                be = 'z3'
                if r == z3.sat: mdl = s.model()
                if r != z3.unknown: break
            if r == z3.unknown:
                r = self.cvc5(s, self.prove_timeout * 2); be = 'cvc5'
        dt = time.time() - t
        self.solver_time += dt; self.nq += 1
        if r == z3.unsat:
            self.obls.append(Obl(self.prefix + name, kind, loc, 'discharged', be, dt))
            if self.tier == 'thorough' and be != 'cvc5':
                self.cross(st, c)
            if not isint(c):
                st.pc.append(c); self.S.add(c)
            return True
        if r == z3.unknown:
            self.obls.append(Obl(self.prefix + name, kind, loc, 'unknown', be, dt))
            raise Budget('solver gave no answer for obligation %s at %s' % (name, loc))
        m = {}
        if mdl is not None:
            for n, tm in self.input_terms:
                try: m[n] = evalterm(mdl, tm)
                except Exception as e: m[n] = '?' + repr(e)[:60]
        self.obls.append(Obl(self.prefix + name, kind, loc, 'failed', be, dt, m, why=str(c)[:2000]))
        if os.environ.get('VDEBUG'):
            print('FAILED', name, loc, m, str(c)[:int(os.environ['VDEBUG'])*600])
        self.nfail = getattr(self, 'nfail', 0) + 1
        if self.nfail >= 5: raise Budget('stopped after %d failed obligations' % self.nfail)
        if isint(c): raise Infeasible()
        st.pc.append(c); self.S.add(c)
        if self.S.check() == z3.unsat: raise Infeasible()
        return False

    def cvc5(self, s, ms):
        try:
            txt = '(set-logic ALL)\n' + s.to_smt2()
            p = subprocess.run(['cvc5', '--tlimit=%d' % ms, '--lang=smt2', '-'], input=txt, text=True, capture_output=True,
                               timeout=ms / 1000 + 10)
            o = p.stdout.strip().split('\n')[0] if p.stdout else ''
            return {'unsat': z3.unsat, 'sat': z3.sat}.get(o, z3.unknown)
        except Exception:
            return z3.unknown

    def cross(self, st, c):
        """thorough tier: second opinion of an independent solver on every non-trivial obligation"""
        s = z3.Solver(); s.add(*st.pc); s.add(z3.Not(tob(c)))
        r = self.cvc5(s, 8000)
        x = self.__dict__.setdefault('crossed', {'agree': 0, 'unknown': 0, 'disagree': 0})
        x['agree' if r == z3.unsat else 'disagree' if r == z3.sat else 'unknown'] += 1

    # ---------------------------------------------------------- memory access
    def getreg(self, st, p, what):
        if isinstance(p, int): p = Ptr(None, p)
        if not isinstance(p, Ptr): raise Unsupported('%s through a non-pointer %r' % (what, p))
        if p.r is None:
            self.prove(st, z3.BoolVal(False), what + ' through a null/invalid pointer', 'memory')
            raise Infeasible()
        if isinstance(p.r, tuple): return None
        r = st.mem.get(p.r)
        if r is None: raise Unsupported('unknown region %r' % (p.r,))
        if r.dead:
            self.prove(st, z3.BoolVal(False), what + ' of freed or out-of-scope object ' + r.name, 'memory')
            raise Infeasible()
        return r

    def dataobj(self, st, p):
        """region id ('D', reg, off, gen): data of the container object at (reg,off)"""
        _, rg, off, gen = p.r
        r = self.getreg(st, Ptr(rg, off), 'access')
        if r is None: raise Unsupported('container inside container data')
        c = r.cells.get(off)
        if c is None or not isinstance(c[1], Seq):
            self.prove(st, z3.BoolVal(False), 'data access of destroyed container', 'memory'); raise Infeasible()
        s = c[1]
        if s.gen != gen:
            self.prove(st, z3.BoolVal(False), 'use of an invalidated iterator/pointer', 'memory'); raise Infeasible()
        return r, off, s

    def inb(self, st, i, n, w, what):
        """i + w <= n (elements)"""
        if isint(i) and isint(n):
            ok = i + w <= n
            self.prove(st, z3.BoolVal(ok), what, 'memory')
            if not ok: raise Infeasible()
            return
        I = b64(i); N = b64(n)
        c = z3.And(z3.ULT(I, N), z3.ULE(z3.BitVecVal(w, 64), N - I)) if w > 1 else z3.ULT(I, N)
        self.prove(st, c, what, 'memory')

    def tysize(self, ty): return self.mod.size(ty)

    def load(self, st, p, ty):
        ty = self.mod.res(ty)
        if ty.k == 'struct':
            return [self.load(st, Ptr(p.r, add64(p.o, self.mod.field(ty, i)[0])), e) for i, e in enumerate(ty.el)]
        if ty.k == 'array' or ty.k == 'vector':
            es = self.tysize(ty.el)
            return [self.load(st, Ptr(p.r, add64(p.o, i * es)), ty.el) for i in range(ty.n)]
        w = self.tysize(ty)
        v = self.loadw(st, p, w, ty)
        return self.fromraw(st, v, ty)

    def fromraw(self, st, v, ty):
        if ty.k == 'int':
            if isinstance(v, Ptr):
                return self.ptr2int(st, v)
            if isinstance(v, z3.FPRef): v = z3.fpToIEEEBV(v)
            if ty.n == 1:
                if isint(v): return v & 1
                if isinstance(v, z3.BoolRef): return v
                return simp(z3.Extract(0, 0, v) == 1)
            if isinstance(v, z3.BoolRef): v = simp(bv(v, ty.n))
            if isinstance(v, (Seq,)): raise Unsupported('raw access to an abstract object')
            return v
        if ty.k == 'ptr':
            if isinstance(v, Ptr): return v
            if isint(v): return Ptr(None, v)
            if isinstance(v, z3.BitVecRef):
                h = self.handle_resolve(st, v)
                if h is not None: return h
                raise Unsupported('pointer loaded from integer bytes')
            if isinstance(v, Seq): raise Unsupported('raw pointer read of an abstract object')
            return v
        if ty.k in ('double', 'float'):
            if isinstance(v, z3.FPRef) or isinstance(v, float): return v
            srt = z3.Float64() if ty.k == 'double' else z3.Float32()
            if isinstance(v, (int, z3.BitVecRef)):
                return z3.fpBVToFP(bv(v, 64 if ty.k == 'double' else 32), srt)
        return v

    def handle_resolve(self, st, v): return None

    def ptr2int(self, st, p):
        if p.r is None: return p.o
        h = self.addr(p.r)
        self.assume(st, h != 0)
        return add64(h, p.o)

    def addr(self, r):
        a = self.__dict__.setdefault('addrs', {})
        if r not in a:
            a[r] = z3.BitVec('addr!%s' % (str(r).replace(' ', ''),), 64)
        return a[r]

    def loadw(self, st, p, w, ty=None):
        r = self.getreg(st, p, 'read')
        if r is None:
            r, off, s = self.dataobj(st, p)
            return self.seqload(st, s, p.o, w, r.name, ty)
        if r.seq is not None:
            return self.seqload(st, r.seq, p.o, w, r.name, ty)
        o = p.o
        if not isint(o):
            self.to_seq(st, r, w)
            return self.seqload(st, st.mem[r.id].seq, o, w, r.name, ty)
        if r.size is not None:
            self.inb(st, o, r.size, w, 'read in bounds of ' + r.name)
        return self.cellload(st, r, o, w, ty)

    def cellload(self, st, r, o, w, ty=None):
        c = r.cells.get(o)
        if c is not None and c[0] == w: return c[1]
        if c is not None and c[0] > w and isinstance(c[1], (int, z3.BitVecRef)):
            return simp(z3.Extract(8 * w - 1, 0, bv(c[1], 8 * c[0])))
        if c is not None and isinstance(c[1], Seq): raise Unsupported('raw read inside abstract object %s' % r.name)
        # containing cell or assemble
        bs = []; anyset = False
        for i in range(w):
            b = self.cellbyte(r, o + i)
            bs.append(b)
            if b is not None: anyset = True
        if not anyset:
            if ty is not None and ty.k == 'ptr':
                raise Unsupported('read of uninitialised pointer in %s+%d' % (r.name, o))
            if r.fill is not None:
                v = r.fill(o, w)
            else:
                v = self.fresh('uninit_%s_%d' % (r.name, o), 8 * w)
                st.ghost['uninit'] = st.ghost.get('uninit', 0) + 1
            self.wcell(st, r.id, o, w, v, log=False)
            return v
        bs = [self.fresh('uninit', 8) if b is None else b for b in bs]
        if all(isint(b) for b in bs):
            return sum(b << (8 * i) for i, b in enumerate(bs))
        return simp(z3.Concat(*[bv(b, 8) for b in reversed(bs)])) if w > 1 else bs[0]

    def cellbyte(self, r, o):
        for k in range(0, 16):
            c = r.cells.get(o - k)
            if c is not None:
                if c[0] <= k: continue
                v = c[1]
                if isinstance(v, Ptr) and v.r is None: v = v.o
                if isinstance(v, z3.BoolRef): v = bv(v, 8 * c[0])
                if isinstance(v, z3.FPRef): v = z3.fpToIEEEBV(v)
                if isint(v): return (v >> (8 * k)) & 255
                if isinstance(v, z3.BitVecRef): return simp(z3.Extract(8 * k + 7, 8 * k, bv(v, 8 * c[0])))
                raise Unsupported('byte access to non-integer cell in %s+%d' % (r.name, o))
        return None

    def to_seq(self, st, r, w):
        """turn a concretely-addressed region into an array region (for symbolic indexing)"""
        if not isint(r.size) or r.size > 65536: raise Unsupported('symbolic offset into %s' % r.name)
        ws = {c[0] for c in r.cells.values()}
        ew = w
        if ws and all(x == w for x in ws) and all(o % w == 0 for o in r.cells): ew = w
        elif len(ws) == 1 and all(o % list(ws)[0] == 0 for o in r.cells): ew = list(ws)[0]
        elif not ws: ew = w
        else: ew = 1
        if r.size % ew: ew = 1
        vals = []
        for i in range(r.size // ew):
            o = i * ew
            c = r.cells.get(o)
            if c is not None and c[0] == ew: v = c[1]
            else:
                bs = [self.cellbyte(r, o + k) for k in range(ew)]
                if all(b is None for b in bs): v = r.fill(o, ew) if r.fill else self.fresh('uninit_%s' % r.name, 8 * ew)
                else:
                    bs = [self.fresh('uninit', 8) if b is None else b for b in bs]
                    v = simp(z3.Concat(*[bv(b, 8) for b in reversed(bs)])) if ew > 1 else bs[0]
            if isinstance(v, z3.BoolRef): v = bv(v, 8 * ew)
            vals.append(v)
        n = r.copy(); n.cells = {}; n.seq = Seq(ConstN(vals, 8 * ew), len(vals), ew, 'buf')
        st.mem[r.id] = n

    def seqload(self, st, s, off, w, name, ty=None):
        ew = s.ew
        if ew == 0:
            return self.objload(st, s, off, w, name, ty)
        if ew == w:
            d = split_index(off, ew)
            if d is None or d[1]:
                raise Unsupported('misaligned access to %s (%s)' % (name, str(off)[:120]))
            i = d[0]
            self.inb(st, i, self.acclen(s), 1, 'read in bounds of ' + name)
            return self.elem(s, i)
        if w > ew:
            d = split_index(off, ew)
            if d is None or d[1] or w % ew: raise Unsupported('misaligned wide access to %s' % name)
            i = d[0]; k = w // ew
            self.inb(st, i, self.acclen(s), k, 'read in bounds of ' + name)
            vs = [self.elem(s, add64(i, j)) for j in range(k)]
            if any(isinstance(v, Ptr) for v in vs): raise Unsupported('ptr in bytes')
            return simp(z3.Concat(*[bv(v, 8 * ew) for v in reversed(vs)]))
        d = split_index(off, ew)
        if d is None:
            if isint(ew) and ew in (2, 4, 8):
                i = simp(z3.LShR(b64(off), {2: 1, 4: 2, 8: 3}[ew])); f = simp(b64(off) & (ew - 1))
                self.inb(st, i, self.acclen(s), 1, 'read in bounds of ' + name)
                v = bv(self.elem(s, i), 8 * ew)
                sh = simp((bv(f, 64) * 8))
                sh = bv(sh, 64)
                vv = z3.ZeroExt(64 - 8 * ew, v) if ew < 8 else v
                return simp(z3.Extract(8 * w - 1, 0, z3.LShR(vv, sh)))
            raise Unsupported('sub-element access to %s' % name)
        i, f = d
        self.inb(st, i, self.acclen(s), 1, 'read in bounds of ' + name)
        v = self.elem(s, i)
        if isinstance(v, Ptr): raise Unsupported('partial pointer read')
        return simp(z3.Extract(8 * (f + w) - 1, 8 * f, bv(v, 8 * ew)))

    def elem(self, s, i):
        if s.kind == 'str':
            # terminator
            c = eqv(i, s.len)
            if isint(c): return 0 if c else s.at(i)
            v = s.at(i)
            return ite(c, z3.BitVecVal(0, 8), bv(v, 8))
        return s.at(i)

    def acclen(self, s):
        if s.kind == 'str': return add64(s.len, 1)
        return s.len

    def objload(self, st, s, off, w, name, ty):
        stride, leaf = s.x['stride'], s.x
        d = split_index(off, stride)
        if d is None: raise Unsupported('object array indexing of %s' % name)
        i, f = d
        self.inb(st, i, s.len, 1, 'read in bounds of ' + name)
        e = s.at(i)
        if isinstance(e, dict):
            if f not in e: raise Unsupported('field %d of %s' % (f, name))
            v = e[f]
            wv = s.x['w'].get(f)
            if wv is not None and wv != w: raise Unsupported('field width')
            return v
        if f == 0 and not isinstance(e, Seq): return e
        raise Unsupported('raw read of abstract element in %s' % name)

    def store(self, st, p, v, ty):
        ty = self.mod.res(ty)
        if ty.k == 'struct':
            if isinstance(v, Undef): return
            for i, e in enumerate(ty.el):
                self.store(st, Ptr(p.r, add64(p.o, self.mod.field(ty, i)[0])), v[i], e)
            return
        if ty.k in ('array', 'vector'):
            if isinstance(v, Undef): return
            es = self.tysize(ty.el)
            for i in range(ty.n): self.store(st, Ptr(p.r, add64(p.o, i * es)), v[i], ty.el)
            return
        w = self.tysize(ty)
        if isinstance(v, Undef): v = self.fresh('undef', 8 * w)
        if ty.k == 'int' and ty.n == 1 and not isint(v): v = simp(bv(v, 8))
        self.storew(st, p, v, w)

    def storew(self, st, p, v, w):
        r = self.getreg(st, p, 'write')
        if r is None:
            r, off, s = self.dataobj(st, p)
            ns = self.seqstore(st, s, p.o, v, w, r.name)
            if ns is not None: self.wcell(st, r.id, off, r.cells[off][0], ns)
            return
        if r.const:
            self.prove(st, z3.BoolVal(False), 'write to constant ' + r.name, 'memory'); raise Infeasible()
        if r.seq is None and not isint(p.o):
            self.to_seq(st, r, w); r = st.mem[r.id]
        if r.seq is not None:
            ns = self.seqstore(st, r.seq, p.o, v, w, r.name)
            n = r.copy(); n.seq = ns; st.mem[r.id] = n
            self.logw(st, (r.id, None))
            return
        if r.size is not None: self.inb(st, p.o, r.size, w, 'write in bounds of ' + r.name)
        self.wcell(st, r.id, p.o, w, v)

    def wcell(self, st, rid, o, w, v, log=True):
        r = st.mem[rid].copy()
        # remove overlapped cells
        if o not in r.cells or r.cells[o][0] != w:
            for k in list(r.cells):
                cw = r.cells[k][0]
                if k < o + w and o < k + cw:
                    if k >= o and k + cw <= o + w:
                        del r.cells[k]
                    else:
                        bs = {}
                        for j in range(cw):
                            bs[k + j] = self.cellbyte(r, k + j)
                        del r.cells[k]
                        for kk, bb in bs.items():
                            if not (o <= kk < o + w): r.cells[kk] = (1, bb)
        old = r.cells.get(o)
        keep = old is not None and isinstance(v, Seq) and isinstance(old[1], Seq) and v.gen == old[1].gen and (v.len is old[1].len or (isint(v.len) and isint(old[1].len) and v.len == old[1].len) or (not isint(v.len) and not isint(old[1].len) and v.len.eq(old[1].len)))
        r.cells[o] = (w, v)
        st.mem[rid] = r
        if log: self.logw(st, (rid, o), keep)

    def seqstore(self, st, s, off, v, w, name):
        ew = s.ew
        if ew == 0:
            d = split_index(off, s.x['stride'])
            if d is None: raise Unsupported('object array store')
            i, f = d
            self.inb(st, i, s.len, 1, 'write in bounds of ' + name)
            e = s.at(i)
            if isinstance(e, dict):
                if f not in e or s.x['w'].get(f) not in (None, w): raise Unsupported('field store')
                e = dict(e); e[f] = bv(v, 8 * w) if isinstance(v, int) else v
                return s.with_(n=UpdN(s.n, i, e))
            if f == 0: return s.with_(n=UpdN(s.n, i, v))
            raise Unsupported('raw store to abstract element')
        d = split_index(off, ew)
        if d is None or (d[1] and w >= ew): raise Unsupported('misaligned store to %s' % name)
        i, f = d
        if s.kind == 'str':
            # storing the terminator over itself is allowed
            if isint(v) and v == 0 and w == 1:
                c = eqv(i, s.len)
                if isint(c) and c: return s
        if w == ew:
            self.inb(st, i, s.len, 1, 'write in bounds of ' + name)
            return s.set(i, v)
        if w > ew and w % ew == 0:
            k = w // ew
            self.inb(st, i, s.len, k, 'write in bounds of ' + name)
            for j in range(k):
                s = s.set(add64(i, j), simp(z3.Extract(8 * ew * (j + 1) - 1, 8 * ew * j, bv(v, 8 * w))))
            return s
        self.inb(st, i, s.len, 1, 'write in bounds of ' + name)
        old = bv(self.elem(s, i), 8 * ew)
        parts = []
        if f + w < ew: parts.append(z3.Extract(8 * ew - 1, 8 * (f + w), old))
        parts.append(bv(v, 8 * w))
        if f: parts.append(z3.Extract(8 * f - 1, 0, old))
        return s.set(i, simp(z3.Concat(*parts)) if len(parts) > 1 else parts[0])

    def logw(self, st, key, keep=False):
        for fr in st.frames:
            for c in fr.lctx.values():
                if isinstance(key[0], int) and key[0] <= c.maxreg and key[0] not in c.scratch:
                    if self.mode == 'dry':
                        c.log.add(key)
                        if not keep: c.regen.add(key)
                    elif not keep and key not in c.regen:
                        raise Unsupported('loop frame: write to %r changes the extent of a container' % (key,))
                    elif key not in c.havoc and (key[0], None) not in c.havoc:
                        raise Unsupported('loop frame: write to %r outside the havoc set' % (key,))

    # abstract objects
    def obj(self, st, p, what='object'):
        r = self.getreg(st, p, 'use of ' + what)
        if r is None:
            # element object inside a container
            r0, off, s = self.dataobj(st, p)
            if s.ew != 0: raise Unsupported('object view of scalar data')
            d = split_index(p.o, s.x['stride'])
            if d is None: raise Unsupported('object element index')
            i, f = d
            self.inb(st, i, s.len, 1, 'element access in bounds')
            e = s.at(i)
            if isinstance(e, dict): e = e[f]
            return e
        if r.seq is not None and r.seq.ew == 0:
            s = r.seq
            d = split_index(p.o, s.x['stride'])
            if d is None: raise Unsupported('object element index')
            i, f = d
            self.inb(st, i, s.len, 1, 'element access in bounds')
            e = s.at(i)
            if isinstance(e, dict): e = e[f]
            return e
        if not isint(p.o): raise Unsupported('object at symbolic offset')
        c = r.cells.get(p.o)
        if c is None: raise Unsupported('no abstract object at %s+%s (%s)' % (r.name, p.o, what))
        return c[1]

    def setobj(self, st, p, v, w):
        r = self.getreg(st, p, 'update')
        if r is None or (r.seq is not None and r.seq.ew == 0):
            if r is None: r0, off, s = self.dataobj(st, p)
            else: s = r.seq
            if s.ew != 0: raise Unsupported('object store in scalar data')
            d = split_index(p.o, s.x['stride'])
            if d is None: raise Unsupported('object element index')
            i, f = d
            self.inb(st, i, s.len, 1, 'element update in bounds')
            e = s.at(i)
            if isinstance(e, dict):
                e = dict(e); e[f] = v
            else: e = v
            ns = s.with_(n=UpdN(s.n, i, e))
            if r is None: self.wcell(st, r0.id, off, r0.cells[off][0], ns)
            else:
                n = r.copy(); n.seq = ns; st.mem[r.id] = n; self.logw(st, (r.id, None))
            return
        if not isint(p.o): raise Unsupported('object at symbolic offset')
        self.wcell(st, r.id, p.o, w, v)

    def dataptr(self, st, p, s, off=0):
        """pointer to the data of container object at p"""
        if isinstance(p.r, tuple) or not isint(p.o):
            # element container: give read-only snapshot region
            rid = self.seqregion(st, s, 'data')
            st.mem[rid].const = True
            return Ptr(rid, off)
        return Ptr(('D', p.r, p.o, s.gen), off)

    # memcpy-like on regions
    def view(self, st, p):
        """(Seq, elementindex) for byte-wise block operations, or None for cell regions"""
        r = self.getreg(st, p, 'block access')
        if r is None:
            r, off, s = self.dataobj(st, p)
            return s
        return r.seq

    def memcpy(self, st, d, s, n):
        if isint(n) and n == 0: return
        c = eqv(n, 0)
        ss = self.view(st, s) if not (isinstance(s, Ptr) and s.r is None) else None
        if isint(n) and ss is None and not (isinstance(s, Ptr) and s.r is None):
            r = self.getreg(st, s, 'read')
            if not isint(s.o):
                if n > 64: raise Unsupported('memcpy symbolic off')
                self.to_seq(st, r, 1); ss = st.mem[r.id].seq
            else:
                dv = self.view(st, d)
                self.inb(st, s.o, r.size, n, 'memcpy source in bounds') if r.size is not None else None
                if dv is None and isint(d.o):
                    # cell by cell copy
                    dr = self.getreg(st, d, 'write')
                    if dr.size is not None: self.inb(st, d.o, dr.size, n, 'memcpy destination in bounds')
                    todo = []
                    i = 0
                    while i < n:
                        cc = r.cells.get(s.o + i)
                        if cc is not None and i + cc[0] <= n:
                            todo.append((i, cc[0], cc[1])); i += cc[0]
                        else:
                            b = self.cellbyte(r, s.o + i)
                            if b is None and r.fill is not None: b = r.fill(s.o + i, 1)
                            if b is not None: todo.append((i, 1, b))
                            i += 1
                    # clear destination
                    nr = dr.copy()
                    for k in list(nr.cells):
                        if d.o <= k < d.o + n and k + nr.cells[k][0] <= d.o + n: del nr.cells[k]
                    st.mem[dr.id] = nr
                    for i, w, v in todo: self.wcell(st, dr.id, d.o + i, w, v)
                    self.logw(st, (dr.id, d.o))
                    return
                self.to_seq(st, r, dv.ew if dv is not None and dv.ew else 1); ss = st.mem[r.id].seq
        if ss is None:
            if isinstance(s, Ptr) and s.r is None:
                self.prove(st, eqv(n, 0), 'memcpy from null has length 0', 'memory'); return
            r = self.getreg(st, s, 'read'); self.to_seq(st, r, 1); ss = st.mem[r.id].seq
        if ss.ew == 0: raise Unsupported('memcpy of objects')
        # source is a sequence
        dv = self.view(st, d)
        if dv is None:
            r = self.getreg(st, d, 'write')
            if isint(n) and isint(d.o) and n <= 256:
                ew = ss.ew
                for j in range(0, n, ew):
                    v = self.seqload(st, ss, add64(s.o, j), ew, 'memcpy source')
                    self.storew(st, Ptr(d.r, d.o + j), v, ew)
                return
            self.to_seq(st, r, ss.ew); dv = st.mem[r.id].seq
        if dv.ew == 0: raise Unsupported('memcpy of objects')
        if dv.ew != ss.ew:
            if isint(n) and n <= 64:
                w = min(dv.ew, ss.ew)
                vals = [self.seqload(st, ss, add64(s.o, j), w, 'memcpy source') for j in range(0, n, w)]
                for j, v in enumerate(vals): self.storew(st, Ptr(d.r, add64(d.o, j * w)), v, w)
                return
            if dv.ew == 1 and ss.ew > 1:
                old = ss
                e = ss.ew
                def f(i, old=old, e=e):
                    q = simp(z3.LShR(b64(i), {2: 1, 4: 2, 8: 3}[e])); sh = simp((b64(i) & (e - 1)) * 8)
                    v = bv(old.at(q), 8 * e)
                    v = z3.ZeroExt(64 - 8 * e, v) if e < 8 else v
                    return simp(z3.Extract(7, 0, z3.LShR(v, b64(sh))))
                ss = Seq(MapN(f), mul64(ss.len, e), 1, 'buf')
            else: raise Unsupported('memcpy between element widths')
        ew = dv.ew
        si = split_index(s.o, ew); di = split_index(d.o, ew); ni = split_index(n, ew)
        if not si or not di or not ni or si[1] or di[1] or ni[1]: raise Unsupported('memcpy misaligned')
        si, di, cnt = si[0], di[0], ni[0]
        # bounds (vacuous when cnt == 0)
        self.rng(st, si, cnt, self.acclen(ss), 'memcpy source in bounds')
        self.rng(st, di, cnt, dv.len, 'memcpy destination in bounds')
        if isint(cnt) and cnt <= 64:
            vals = [self.elem(ss, add64(si, j)) for j in range(cnt)]
            ns = dv
            for j, v in enumerate(vals): ns = ns.set(add64(di, j), v)
        else:
            src = ss
            if ss.kind == 'str':
                node = FunN(lambda i, s=ss, E=self: E.elem(s, i))
            else: node = ss.n
            ns = dv.with_(n=RangeN(dv.n, di, cnt, node, si))
        self.putview(st, d, ns)

    def rng(self, st, i, n, ln, what):
        if isint(i) and isint(n) and isint(ln):
            self.prove(st, z3.BoolVal(i + n <= ln), what, 'memory')
            if i + n > ln: raise Infeasible()
            return
        I, N, L = b64(i), b64(n), b64(ln)
        self.prove(st, z3.Or(N == 0, z3.And(z3.ULE(N, L), z3.ULE(I, L - N))), what, 'memory')

    def putview(self, st, d, ns):
        r = self.getreg(st, d, 'write')
        if r is None:
            r, off, s = self.dataobj(st, d)
            self.wcell(st, r.id, off, r.cells[off][0], ns)
        else:
            if r.const:
                self.prove(st, z3.BoolVal(False), 'write to constant ' + r.name, 'memory'); raise Infeasible()
            n = r.copy(); n.seq = ns; st.mem[r.id] = n
            self.logw(st, (r.id, None))

    def memset(self, st, d, v, n):
        if isint(n) and n == 0: return
        dv = self.view(st, d)
        if dv is None:
            r = self.getreg(st, d, 'write')
            if isint(n) and isint(d.o):
                if r.size is not None: self.inb(st, d.o, r.size, n, 'memset in bounds')
                nr = r.copy()
                for k in list(nr.cells):
                    if d.o <= k < d.o + n: del nr.cells[k]
                st.mem[r.id] = nr
                if isint(v) and v == 0 and (d.o == 0 and n == r.size or nr.fill is None and n >= 64):
                    nr.fill = zero_fill(d.o, n, nr.fill)
                    self.logw(st, (r.id, d.o))
                    return
                j = 0
                while j < n:
                    w = 8 if n - j >= 8 and (d.o + j) % 8 == 0 else 4 if n - j >= 4 and (d.o + j) % 4 == 0 else 1
                    vv = v * (0x0101010101010101 & ((1 << 8 * w) - 1)) if isint(v) else (z3.Concat(*[v] * w) if w > 1 else v)
                    self.wcell(st, r.id, d.o + j, w, vv); j += w
                return
            self.to_seq(st, r, 1); dv = st.mem[r.id].seq
        if dv.ew == 0: raise Unsupported('memset of objects')
        ew = dv.ew
        di = split_index(d.o, ew); ni = split_index(n, ew)
        if not di or not ni or di[1] or ni[1]: raise Unsupported('memset misaligned')
        self.rng(st, di[0], ni[0], dv.len, 'memset in bounds')
        vv = v * (0x0101010101010101 & ((1 << 8 * ew) - 1)) if isint(v) else (z3.Concat(*[v] * ew) if ew > 1 else v)
        vv = bv(vv, 8 * ew)
        if isint(ni[0]) and ni[0] <= 64:
            ns = dv
            for j in range(ni[0]): ns = ns.set(add64(di[0], j), vv)
        else: ns = dv.with_(n=RangeN(dv.n, di[0], ni[0], FunN(lambda i, vv=vv: vv), 0))
        self.putview(st, d, ns)

    # ---------------------------------------------------------- globals
    def globptr(self, st, name):
        if name in self.mod.funcs or name in self.mod.decls:
            return Ptr(('F', name), 0)
        rid = self.globmap.get(name)
        if rid is None:
            g = self.mod.glob(name)
            if g is None: raise Unsupported('global ' + name)
            if isinstance(g.init, tuple) and g.init[0] == 'alias':
                return self.val(st, None, g.init[1])
            rid = self.globmap[name] = next(self.cnt)
        if rid not in st.mem:
            g = self.mod.glob(name)
            try: size = self.mod.size(g.ty)
            except Exception: size = None
            r = Region(rid, size, '@' + demangle(name), 'global')
            st.mem[rid] = r
            if g.init is not None:
                self.initglob(st, r, 0, g.init, g.ty)
            r.const = g.const
        return Ptr(rid, 0)

    def initglob(self, st, r, o, v, ty):
        ty = self.mod.res(ty)
        if v.k == 'zero':
            r.fill = zero_fill(o, self.mod.size(ty), r.fill)
            return
        if v.k == 'str':
            for i, b in enumerate(v.v): r.cells[o + i] = (1, b)
            return
        if v.k == 'agg':
            if ty.k in ('array', 'vector'):
                es = self.mod.size(ty.el)
                for i, e in enumerate(v.v): self.initglob(st, r, o + i * es, e, ty.el)
            else:
                for i, e in enumerate(v.v):
                    fo, ft = self.mod.field(ty, i)
                    self.initglob(st, r, o + fo, e, ft)
            return
        if v.k == 'undef': return
        val = self.val(st, None, v)
        r.cells[o] = (self.mod.size(ty), val)

    # ---------------------------------------------------------- operands
    def val(self, st, fr, v):
        k = v.k
        if k == 'local':
            try: return fr.regs[v.v]
            except KeyError: raise Unsupported('undefined register %%%s in %s' % (v.v, fr.f.dem))
        if k == 'int': return v.v
        if k == 'null': return NULL
        if k == 'global': return self.globptr(st, v.v)
        if k == 'undef':
            return self.undef(v.ty)
        if k == 'zero': return self.zero(v.ty)
        if k == 'fp':
            if v.v.startswith('0xK'):       # x87 extended: explicit integer bit dropped (normal numbers, zero, infinity)
                x = int(v.v[3:], 16); e = (x >> 64) & 0x7fff; mant = x & ((1 << 64) - 1)
                if bool(mant >> 63) != bool(e): raise Unsupported('fp80 constant')
                return z3.fpFP(z3.BitVecVal(x >> 79, 1), z3.BitVecVal(e, 15), z3.BitVecVal(mant & ((1 << 63) - 1), 63))
            srt = z3.Float64() if v.ty.k == 'double' else z3.Float32()
            if v.v.startswith('0x') and v.v[2] not in 'KMLHR':
                import struct
                d = struct.unpack('>d', struct.pack('>Q', int(v.v, 16)))[0]
                return z3.FPVal(d, srt)
            return z3.FPVal(float(v.v), srt)
        if k == 'cexpr':
            if v.v == 'gep':
                bt, ops = v.x
                base = self.val(st, fr, ops[0])
                return self.gep(st, base, bt, [self.val(st, fr, o) for o in ops[1:]], ops[1:])
            if v.v == 'ptrtoint': return self.ptr2int(st, self.val(st, fr, v.x[0]))
            if v.v in ('inttoptr',):
                x = self.val(st, fr, v.x[0]); return Ptr(None, x)
            if v.v in ('bitcast', 'addrspacecast'): return self.val(st, fr, v.x[0])
            if v.v == 'bin':
                return self.binop(st, v.x[0], self.val(st, fr, v.x[1]), self.val(st, fr, v.x[2]), v.ty, [])
        if k == 'agg':
            return [self.val(st, fr, e) for e in v.v]
        raise Unsupported('operand %r' % v)

    def undef(self, ty):
        ty = self.mod.res(ty)
        if ty.k == 'struct': return [self.undef(e) for e in ty.el]
        if ty.k in ('array', 'vector'): return [self.undef(ty.el) for _ in range(ty.n)]
        if ty.k == 'int': return self.fresh('undef', ty.n)
        return Undef()

    def zero(self, ty):
        ty = self.mod.res(ty)
        if ty.k == 'struct': return [self.zero(e) for e in ty.el]
        if ty.k in ('array', 'vector'): return [self.zero(ty.el) for _ in range(ty.n)]
        if ty.k == 'ptr': return NULL
        if ty.k == 'double': return z3.FPVal(0.0, z3.Float64())
        if ty.k == 'float': return z3.FPVal(0.0, z3.Float32())
        return 0

    def gep(self, st, base, bt, idx, ops):
        if isinstance(base, int): base = Ptr(None, base)
        if not isinstance(base, Ptr):
            if isinstance(base, Undef): return base
            raise Unsupported('gep on %r' % (base,))
        off = base.o
        ty = bt
        for j, (i, o) in enumerate(zip(idx, ops)):
            if j == 0:
                s = self.mod.size(ty)
                off = add64(off, mul64(self.sx64(i, o.ty), s))
                continue
            t = self.mod.res(ty)
            if t.k == 'struct':
                fo, ty = self.mod.field(t, i)
                off = add64(off, fo)
            else:
                ty = t.el
                off = add64(off, mul64(self.sx64(i, o.ty), self.mod.size(ty)))
        return Ptr(base.r, off)

    def sx64(self, i, ty):
        n = ty.n
        if isint(i): return signed(i, n) & M64
        if n == 64: return i
        return simp(z3.SignExt(64 - n, i))

    # ---------------------------------------------------------- arithmetic
    def binop(self, st, op, a, b, ty, fl):
        if ty.k in ('double', 'float'):
            rm = z3.RNE()
            if self.fphook:
                r = self.fphook(self, st, op, a, b)
                if r is not None: return r
            if op == 'fadd': return z3.fpAdd(rm, a, b)
            if op == 'fsub': return z3.fpSub(rm, a, b)
            if op == 'fmul': return z3.fpMul(rm, a, b)
            if op == 'fdiv': return z3.fpDiv(rm, a, b)
            raise Unsupported('float op ' + op)
        if ty.k == 'vector':
            return [self.binop(st, op, x, y, ty.el, fl) for x, y in zip(a, b)]
        w = ty.n
        if isinstance(a, Undef): a = self.fresh('undef', w)
        if isinstance(b, Undef): b = self.fresh('undef', w)
        if isinstance(a, Ptr) or isinstance(b, Ptr): raise Unsupported('arithmetic on pointer value')
        if w == 1:
            if isint(a) and isint(b):
                return {'and': a & b, 'or': a | b, 'xor': a ^ b, 'add': a ^ b, 'sub': a ^ b}[op]
            A, B = tob(a), tob(b)
            if op == 'and': return simp(z3.And(A, B))
            if op == 'or': return simp(z3.Or(A, B))
            if op in ('xor', 'add', 'sub'): return simp(z3.Xor(A, B))
            raise Unsupported('i1 ' + op)
        m = (1 << w) - 1
        if isint(a) and isint(b):
            if op == 'add': return (a + b) & m
            if op == 'sub': return (a - b) & m
            if op == 'mul': return (a * b) & m
            if op == 'and': return a & b
            if op == 'or': return a | b
            if op == 'xor': return a ^ b
            if op == 'shl':
                self.shcheck(st, b, w)
                return (a << b) & m if b < w else 0
            if op == 'lshr':
                self.shcheck(st, b, w)
                return a >> b if b < w else 0
            if op == 'ashr':
                self.shcheck(st, b, w)
                return (signed(a, w) >> min(b, w - 1)) & m
            if op in ('udiv', 'sdiv', 'urem', 'srem'):
                if b == 0:
                    self.prove(st, z3.BoolVal(False), 'division by zero', 'ub'); raise Infeasible()
                if op == 'udiv': return a // b
                if op == 'urem': return a % b
                sa, sb = signed(a, w), signed(b, w)
                q = abs(sa) // abs(sb)
                if (sa < 0) != (sb < 0): q = -q
                return q & m if op == 'sdiv' else (sa - q * sb) & m
        A, B = bv(a, w), bv(b, w)
        if op == 'add': return simp(A + B)
        if op == 'sub': return simp(A - B)
        if op == 'mul': return simp(A * B)
        if op == 'and': return simp(A & B)
        if op == 'or': return simp(A | B)
        if op == 'xor': return simp(A ^ B)
        if op in ('shl', 'lshr', 'ashr'):
            self.shcheck(st, b, w)
            if op == 'shl':
                if isint(b) and w == 64: return simp(A * z3.BitVecVal(1 << b, 64)) if b < 64 else 0
                return simp(A << B)
            if op == 'lshr': return simp(z3.LShR(A, B))
            return simp(A >> B)
        if op in ('udiv', 'urem', 'sdiv', 'srem'):
            if not isint(b):
                self.prove(st, B != 0, 'division by zero', 'ub')
            elif b == 0:
                self.prove(st, z3.BoolVal(False), 'division by zero', 'ub'); raise Infeasible()
            if op == 'sdiv' and 'exact' in fl and isint(b):
                d = split_index(A, b) if w == 64 else None
                if d is not None and d[1] == 0: return d[0]
            if op in ('udiv', 'urem') and isint(b):
                if b & (b - 1) == 0:
                    k = b.bit_length() - 1
                    return simp(z3.LShR(A, k)) if op == 'udiv' else simp(A & (b - 1))
                q, r = self.divmod_const(st, A, b, w)
                return q if op == 'udiv' else r
            if op == 'udiv': return simp(z3.UDiv(A, B))
            if op == 'urem': return simp(z3.URem(A, B))
            if op == 'sdiv':
                return simp(A / B)
            return simp(z3.SRem(A, B))
        raise Unsupported('op ' + op)

    def divmod_const(self, st, A, c, w):
        """q = A / c, r = A % c introduced by their defining property (exact)"""
        key = ('div', A.get_id(), c, w)
        g = st.ghost.get(key)
        if g is None:
            q = self.fresh('q', w); r = self.fresh('r', w)
            st.ghost[key] = (q, r, A)
            self.assume(st, z3.And(A == q * c + r, z3.ULT(r, c), z3.ULE(q, ((1 << w) - 1) // c), z3.ULE(q * c, A)))
            return q, r
        return g[0], g[1]

    def shcheck(self, st, b, w):
        if isint(b):
            if b >= w: self.prove(st, z3.BoolVal(False), 'shift amount below operand width', 'ub')
            return
        self.prove(st, z3.ULT(b, w), 'shift amount below operand width', 'ub')

    def icmp(self, st, pr, a, b, ty):
        ty = self.mod.res(ty)
        if isinstance(a, Undef) or isinstance(b, Undef): return self.fresh('undefcmp', 1)
        if ty.k == 'ptr':
            if isinstance(a, int): a = Ptr(None, a)
            if isinstance(b, int): b = Ptr(None, b)
            if a.r == b.r:
                return self.icmp(st, pr, a.o, b.o, I64)
            if isinstance(a.r, tuple) and isinstance(b.r, tuple) and a.r[:3] == b.r[:3] and a.r[0] == 'D':
                # an iterator compared with one taken after invalidation
                self.prove(st, z3.BoolVal(False), 'comparison with an invalidated iterator', 'memory'); raise Infeasible()
            if pr == 'eq': return 0
            if pr == 'ne': return 1
            if a.r is None or b.r is None:
                # null is below every object
                lo = a.r is None
                return {'ult': int(lo), 'ule': int(lo), 'ugt': int(not lo), 'uge': int(not lo)}.get(pr, 0)
            raise Unsupported('ordering of pointers into different objects')
        if ty.k == 'vector': raise Unsupported('vector icmp')
        w = ty.n
        if isinstance(a, Ptr) or isinstance(b, Ptr): raise Unsupported('icmp on pointer value')
        if isint(a) and isint(b):
            if pr == 'eq': return int(a == b)
            if pr == 'ne': return int(a != b)
            if pr[0] == 's': a, b = signed(a, w), signed(b, w)
            return int({'gt': a > b, 'ge': a >= b, 'lt': a < b, 'le': a <= b}[pr[1:]])
        if w == 1:
            A, B = tob(a), tob(b)
            if pr == 'eq': return simp(A == B)
            if pr == 'ne': return simp(z3.Xor(A, B))
            raise Unsupported('i1 icmp')
        A, B = bv(a, w), bv(b, w)
        f = {'eq': lambda: A == B, 'ne': lambda: A != B, 'ult': lambda: z3.ULT(A, B), 'ule': lambda: z3.ULE(A, B),
             'ugt': lambda: z3.UGT(A, B), 'uge': lambda: z3.UGE(A, B), 'slt': lambda: A < B, 'sle': lambda: A <= B,
             'sgt': lambda: A > B, 'sge': lambda: A >= B}[pr]
        return simp(f())

    def cast(self, st, op, a, f, t):
        if isinstance(a, Undef): return self.undef(t)
        if op == 'bitcast':
            if t.k == 'int' and f.k in ('double', 'float'): return z3.fpToIEEEBV(a)
            if t.k == 'double' and f.k == 'int': return z3.fpBVToFP(bv(a, 64), z3.Float64())
            if t.k == 'float' and f.k == 'int': return z3.fpBVToFP(bv(a, 32), z3.Float32())
            return a
        if op == 'addrspacecast': return a
        if op == 'ptrtoint':
            if isinstance(a, int): return a
            return self.ptr2int(st, a)
        if op == 'inttoptr':
            return self.int2ptr(st, a)
        if op in ('zext', 'sext', 'trunc'):
            if f.k == 'vector': raise Unsupported('vector cast')
            fw, tw = f.n, t.n
            if isinstance(a, Ptr): raise Unsupported('cast of pointer value')
            if isint(a):
                if op == 'sext': return signed(a, fw) & ((1 << tw) - 1)
                return a & ((1 << tw) - 1)
            if fw == 1:
                if op == 'zext': return simp(z3.If(a, z3.BitVecVal(1, tw), z3.BitVecVal(0, tw)))
                return simp(z3.If(a, z3.BitVecVal((1 << tw) - 1, tw), z3.BitVecVal(0, tw)))
            if fw == 32 and tw == 64 and getattr(self, 'lift', False):
                h = self.lifted(st, a)
                if h is not None: return h
            if op == 'zext': return simp(z3.ZeroExt(tw - fw, a))
            if op == 'sext': return simp(z3.SignExt(tw - fw, a))
            if tw == 1: return simp(z3.Extract(0, 0, a) == 1)
            return simp(z3.Extract(tw - 1, 0, a))
        rm = z3.RNE()
        srt = {'double': z3.Float64(), 'float': z3.Float32(), 'x86_fp80': z3.FPSort(15, 64)}
        if op in ('sitofp', 'uitofp'):
            if t.k not in srt: raise Unsupported('fp80')
            A = bv(a, f.n)
            return z3.simplify(z3.fpSignedToFP(rm, A, srt[t.k]) if op == 'sitofp' else z3.fpUnsignedToFP(rm, A, srt[t.k]))
        if op in ('fptosi', 'fptoui'):
            if f.k not in srt: raise Unsupported('fp80')
            return simp(z3.fpToSBV(z3.RTZ(), a, z3.BitVecSort(t.n)) if op == 'fptosi' else z3.fpToUBV(z3.RTZ(), a, z3.BitVecSort(t.n)))
        if op in ('fpext', 'fptrunc'):
            if t.k not in srt or f.k not in srt: raise Unsupported('fp80')
            return z3.fpToFP(rm, a, srt[t.k])
        raise Unsupported('cast ' + op)

    def lifted(self, st, a):
        """a 32-bit sum of truncated 64-bit terms whose 64-bit sum is provably in [0, 2^31): that sum"""
        todo = [(a, 1)]; h = 0
        while todo:
            x, c = todo.pop(); d = x.decl().kind()
            if isinstance(x, z3.BitVecNumRef): h = add64(h, (c * signed(x.as_long(), 32)) & M64)
            elif d == z3.Z3_OP_BADD: todo += [(y, c) for y in x.children()]
            elif d == z3.Z3_OP_BNEG: todo.append((x.arg(0), -c))
            elif d == z3.Z3_OP_BSUB: todo += [(x.arg(0), c)] + [(y, -c) for y in x.children()[1:]]
            elif d == z3.Z3_OP_BMUL and x.num_args() == 2 and isinstance(x.arg(0), z3.BitVecNumRef): todo.append((x.arg(1), c * signed(x.arg(0).as_long(), 32)))
            elif d == z3.Z3_OP_EXTRACT and x.params() == [31, 0] and x.arg(0).size() == 64: h = simp(b64(h) + x.arg(0) * z3.BitVecVal(c & M64, 64))
            else: return None
        if isint(h): return None
        s = z3.SolverFor('QF_BV'); s.set('timeout', 3000); s.add(*[x for x in st.pc if not hasarr(x)]); s.add(z3.UGE(h, 1 << 31)); r = s.check()
        return h if r == z3.unsat else None

    def int2ptr(self, st, a):
        if isint(a): return Ptr(None, a)
        c, t = linear(a)
        ad = {v.get_id(): k for k, v in self.__dict__.get('addrs', {}).items()}
        for i, (co, x) in t.items():
            if i in ad and co == 1:
                return Ptr(ad[i], sub64(a, x))
        raise Unsupported('inttoptr')

    # ---------------------------------------------------------- running
    def start(self, st, f, args, hook=None):
        fr = Frame(f, hook)
        ps = f.params
        if len(ps) != len(args):
            raise Unsupported('arity of %s: %d vs %d' % (f.dem, len(ps), len(args)))
        for (n, t, a), v in zip(ps, args): fr.regs[n] = v
        st.frames.append(fr)
        if self.mode != 'dry' or True:
            self.used_funcs[f.dem] = self.used_funcs.get(f.dem, 0) + 1

    def run(self, st, on_exit):
        self.on_exit = on_exit
        try:
            self._run(st)
        except Infeasible:
            pass

    def _run(self, st):
        """execute until path end; forks recurse"""
        try:
            while True:
                fr = st.frames[-1]
                ins = fr.blk[fr.ip]
                if self.step(st, fr, ins): return
        except Infeasible:
            return

    def alts(self, st, alts):
        """explore alternatives: list of (cond|None, fn(st)); always ends this path"""
        self.tick()
        live = []
        for c, fn in alts:
            if c is not None:
                c = conc(c) if not isint(c) else c
                if isint(c):
                    if not c: continue
                    c = None
            live.append((c, fn))
        for j, (c, fn) in enumerate(live):
            s2 = st.copy() if j < len(live) - 1 else st
            self.S.push()
            try:
                if c is not None:
                    s2.pc.append(c); self.S.add(c)
                    if not self.feasible(): continue
                try:
                    if fn(s2): continue
                    self._run(s2)
                except Infeasible:
                    pass
            finally:
                self.S.pop()
        return True

    def goto(self, st, fr, label):
        """transfer control; returns True if the path ended"""
        f = fr.f
        prev = fr.bname
        blk = f.blocks[label]
        if self.mode == 'dry' and self.dryctx is not None:
            d, depth = self.dryctx
            if len(st.frames) == depth and label not in d.body:
                return True     # left the loop being inspected
        vals = {}
        n = 0
        for ins in blk:
            if ins.op != 'phi': break
            n += 1
            for v, l in ins.a:
                if l == prev:
                    vals[ins.dst] = self.val(st, fr, v); break
            else: raise Unsupported('phi')
        loops = f.loops()
        if fr.lctx:
            for lb in [x for x in fr.lctx if label not in loops[x]]: del fr.lctx[lb]
        if label in loops:
            body = loops[label]
            if prev in body:
                c = fr.lctx.get(label)
                if c is not None:
                    return self.backedge(st, fr, label, c, vals)
                k = fr.visits.get(label, 0) + 1
                fr.visits[label] = k
                spec = self.findspec(st, fr, label)
                if spec is not None and spec.peel and k >= spec.peel:
                    fr.regs.update(vals)
                    fr.prev = prev; fr.bname = label; fr.blk = blk; fr.ip = n
                    return self.enterloop(st, fr, label, spec, vals)
                if k > self.unroll:
                    raise Unsupported('loop in %s exceeds the unwinding limit %d and has no invariant' % (short(f.dem), self.unroll))
            else:
                fr.visits[label] = 0
                fr.lctx.pop(label, None)
                spec = self.findspec(st, fr, label)
                if spec is not None and not spec.peel:
                    fr.regs.update(vals)
                    fr.prev = prev; fr.bname = label; fr.blk = blk; fr.ip = n
                    return self.enterloop(st, fr, label, spec, vals)
        fr.regs.update(vals)
        fr.prev = prev; fr.bname = label; fr.blk = blk; fr.ip = n
        return False

    def findspec(self, st, fr, label):
        for s in self.loopspecs:
            if s.func is not None:
                if callable(s.func):
                    if not s.func(self, st, fr, label): continue
                elif not re.search(s.func, fr.f.dem): continue
            return s
        return None

    def enterloop(self, st, fr, label, spec, vals):
        """loop rule: establish, havoc, assume, execute body once"""
        depth = len(st.frames)
        entry = st.copy()
        k0 = 0
        if not spec_applicable(spec, self, st, entry):
            fr.visits[label] = 0
            return False
        # 1. establish
        for nm, fm in spec.inv(self, st, 0, entry):
            self.prove(st, fm, '%s: invariant holds on entry: %s' % (spec.name, nm), 'invariant')
        # 2. find the modified locations and the induction variables by inspecting the body
        body = fr.f.loops()[label]
        havoc = set()
        if spec.havoc: havoc |= set(spec.havoc(self, st))
        phis = [i for i in fr.blk if i.op == 'phi']
        maxreg = max([x for x in st.mem if isinstance(x, int)] + [0])
        steps = None; regen = set(havoc)
        for it in range(8):
            ctx = LCtx(); ctx.regen = set(regen)
            ctx.spec = spec; ctx.body = body; ctx.maxreg = maxreg; ctx.scratch = set(); ctx.log = set(); ctx.havoc = set(havoc)
            ctx.back = []; ctx.entry = entry; ctx.label = label
            s2 = st.copy()
            f2 = s2.frames[-1]
            k = self.fresh('k')
            syms = {}
            for ph in phis:
                v = vals[ph.dst]
                syms[ph.dst] = self.havocval(v, ph.dst, ph.ty)
                w = self.elemwidth(s2, v)
                if w > 1 and isint(v.o) and v.o % w == 0: syms[ph.dst] = Ptr(v.r, simp(self.fresh(ph.dst + '.idx') * w))      # only to discover the step
                f2.regs[ph.dst] = syms[ph.dst]
            self.havocmem(s2, havoc, regen, True)
            csyms = self.cellvals(s2, havoc)
            ctx.k = k; ctx.syms = syms; ctx.cback = []
            f2.lctx = dict(f2.lctx); f2.lctx[label] = ctx
            old = (self.mode, getattr(self, 'dryctx', None), self.on_exit)
            self.mode = 'dry'; self.dryctx = (ctx, depth); self.on_exit = lambda *a: None
            self.S.push()
            try:
                try:
                    self.assume(s2, z3.ULT(k, 1 << 62))
                    for nm, fm in spec.inv(self, s2, k, entry): self.assume(s2, tob(simp(tob(fm))))
                    if spec.facts:
                        for fm in spec.facts(self, s2, k, entry): self.assume(s2, tob(simp(tob(fm))))
                    self._run(s2)
                except Infeasible: pass
            finally:
                self.S.pop()
                self.mode, self.dryctx, self.on_exit = old
            steps = {}
            for ph in phis:
                cs = set(); ok = True
                for bvals in ctx.back:
                    d = self.diffval(bvals[ph.dst], syms[ph.dst], ph.ty)
                    if d is None: ok = False; break
                    cs.add(d)
                if ok and len(cs) <= 1:
                    steps[ph.dst] = cs.pop() if cs else 0
            csteps = {}
            for key, v0 in csyms.items():
                cs = set()
                for sb in ctx.cback:
                    cs.add(self.celldiff(sb, key, v0))
                if len(cs) == 1 and None not in cs: csteps[key] = cs.pop()
            if ctx.log <= havoc and ctx.regen <= regen: break
            havoc |= ctx.log; regen |= ctx.regen
        else:
            raise Unsupported('loop frame did not stabilise')
        if os.environ.get('VDEBUG2'):
            print('LOOP', fr.f.dem, label, 'havoc', havoc, 'steps', steps, 'back', len(ctx.back))
        # 3. arbitrary iteration
        k = self.fresh('k'); ctx0 = ctx
        ctx = LCtx(); ctx.icells = {}
        if spec.cells:
            ctx.icells = {('cell',) + key: v[1] for key, v in self.cellvals(st, havoc).items()}
            vals = dict(vals); vals.update(ctx.icells); steps = dict(steps); steps.update({('cell',) + key: d for key, d in csteps.items()})
        self.lastback = (ctx0.back, ctx0.syms)
        if spec.phis:
            for fm in spec.phis(self, st, 0, entry, vals, vals, steps): self.prove(st, fm, '%s: loop variable relation holds on entry' % spec.name, 'invariant')
        ctx.spec = spec; ctx.body = body; ctx.maxreg = maxreg; ctx.scratch = set(); ctx.log = set(); ctx.havoc = havoc
        ctx.back = []; ctx.entry = entry; ctx.label = label; ctx.k = k; ctx.syms = {}; ctx.steps = steps; ctx.init = vals; ctx.cback = []
        for ph in phis:
            v = vals[ph.dst]
            if ph.dst in steps:
                fr.regs[ph.dst] = self.linval(v, steps[ph.dst], k, ph.ty)
            else:
                fr.regs[ph.dst] = self.havocval(v, ph.dst, ph.ty)
            ctx.syms[ph.dst] = fr.regs[ph.dst]
        init = self.cellvals(st, set(csteps))
        self.havocmem(st, havoc, regen); ctx.regen = regen
        ctx.csteps = {}; ctx.csyms = {}
        for key, d in csteps.items():       # memory cells that advance by a constant on every iteration
            if key not in init: continue
            w, v = init[key]; r = st.mem[key[0]].copy(); nv = self.linval(v, d, k, intty(8 * w))
            r.cells[key[1]] = (w, nv); st.mem[key[0]] = r; ctx.csteps[key] = d; ctx.csyms[key] = (w, nv)
        ctx.syms.update(self.cellsyms(st, ctx.icells))
        fr.lctx[label] = ctx
        self.assume(st, z3.ULT(k, 1 << 62))
        for nm, fm in spec.inv(self, st, k, entry): self.assume(st, tob(simp(tob(fm))))
        if spec.phis:
            for fm in spec.phis(self, st, k, entry, vals, ctx.syms, steps):
                if z3.is_eq(fm) and z3.is_const(fm.arg(0)) and fm.arg(0).decl().kind() == z3.Z3_OP_UNINTERPRETED:      # x == e: use e for x
                    x = fm.arg(0); hit = False
                    for ph in phis:
                        if ph.dst in steps: continue
                        v = fr.regs[ph.dst]
                        if isinstance(v, Ptr) and not isint(v.o) and v.o.eq(x): fr.regs[ph.dst] = Ptr(v.r, simp(fm.arg(1))); hit = True
                        elif isinstance(v, z3.BitVecRef) and v.eq(x): fr.regs[ph.dst] = simp(fm.arg(1)); hit = True
                    for rid, off in havoc:
                        c = st.mem[rid].cells.get(off) if rid in st.mem and off is not None else None
                        if c is not None and isinstance(c[1], z3.BitVecRef) and c[1].eq(x): r = st.mem[rid].copy(); r.cells[off] = (c[0], simp(fm.arg(1))); st.mem[rid] = r; hit = True
                    if hit: continue
                self.assume(st, tob(fm))
        if spec.facts:
            for fm in spec.facts(self, st, k, entry): self.assume(st, tob(simp(tob(fm))))
        return False

    def backedge(self, st, fr, label, c, vals):
        if self.mode == 'dry':
            c.back.append(vals); c.cback.append(dict(st.mem))
            return True
        for key, d in c.csteps.items():
            if self.celldiff(st.mem, key, c.csyms[key]) != d: raise Unsupported('induction cell %r' % (key,))
        # re-check the inductive step of the inferred induction variables on this very path
        for n, s in c.steps.items():
            if isinstance(n, tuple): continue
            ty = [i for i in fr.f.blocks[label] if i.op == 'phi' and i.dst == n][0].ty
            d = self.diffval(vals[n], c.syms[n], ty)
            if d is None or (d != s):
                raise Unsupported('induction variable %s' % n)
        k1 = c.k + 1
        for nm, fm in c.spec.inv(self, st, k1, c.entry):
            self.prove(st, fm, '%s: invariant preserved: %s' % (c.spec.name, nm), 'invariant')
        if c.spec.phis:
            if c.icells: vals = dict(vals); vals.update(self.cellsyms(st, c.icells))
            for fm in c.spec.phis(self, st, k1, c.entry, c.init, vals, c.steps):
                self.prove(st, fm, '%s: loop variable relation preserved' % c.spec.name, 'invariant')
        self.npaths += 1
        return True

    def cellsyms(self, st, icells):
        return {('cell',) + key: v[1] for key, v in self.cellvals(st, {n[1:] for n in icells}).items()}

    def cellvals(self, st, keys):
        out = {}
        for rid, off in keys:
            r = st.mem.get(rid)
            if r is None or off is None or r.seq is not None: continue
            c = r.cells.get(off)
            if c is not None and (isint(c[1]) or isinstance(c[1], (z3.BitVecRef, Ptr))) and not (isinstance(c[1], Ptr) and c[1].r is None): out[(rid, off)] = c
        return out

    def celldiff(self, mem, key, wv):
        r = mem.get(key[0]); c = r.cells.get(key[1]) if r is not None and r.seq is None else None
        if c is None or c[0] != wv[0]: return None
        a, b = c[1], wv[1]
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if not (isinstance(a, Ptr) and isinstance(b, Ptr)) or a.r != b.r: return None
            d = sub64(a.o, b.o)
        else:
            if not (isint(a) or isinstance(a, z3.BitVecRef)): return None
            d = simp(bv(a, 8 * c[0]) - bv(b, 8 * c[0]))
        return d if isint(d) else None

    def elemwidth(self, st, v):
        if not isinstance(v, Ptr): return 1
        try:
            if isinstance(v.r, tuple) and v.r[0] == 'D': q = self.obj(st, Ptr(v.r[1], v.r[2])); return q.ew if isinstance(q, Seq) else 1
            q = st.mem[v.r].seq if v.r in st.mem else None
            return q.ew if q is not None else 1
        except Unsupported: return 1

    def havocval(self, v, name, ty):
        ty = self.mod.res(ty)
        if isinstance(v, Ptr):
            if v.r is None: raise Unsupported('havoc of null pointer variable %s' % name)
            return Ptr(v.r, self.fresh(name + '.off'))
        if ty.k == 'int': return self.fresh(name, ty.n)
        if ty.k == 'double': return z3.FP('%s!%d' % (name, next(self.cnt)), z3.Float64())
        raise Unsupported('havoc of %r' % ty)

    def linval(self, v, s, k, ty):
        if isinstance(v, Ptr): return Ptr(v.r, add64(v.o, mul64(k, s)))
        if s == 0: return v
        w = ty.n
        kk = k if w == 64 else z3.Extract(w - 1, 0, k)
        if w == 1: raise Unsupported('lin i1')
        return simp(bv(v, w) + kk * s)

    def diffval(self, a, b, ty):
        if isinstance(a, Ptr):
            if not isinstance(b, Ptr) or a.r != b.r: 
                if isinstance(a.r, tuple) and isinstance(b.r, tuple) and a.r[:3] == b.r[:3]: return None
                raise Unsupported('loop pointer moves between objects')
            d = sub64(a.o, b.o)
            return d if isint(d) else None
        if isinstance(a, z3.BoolRef) or isinstance(b, z3.BoolRef) or ty.k != 'int' or ty.n == 1:
            return 0 if (not isint(a) and not isint(b) and a.eq(b)) else None
        d = simp(bv(a, ty.n) - bv(b, ty.n))
        return d if isint(d) else None

    def havocmem(self, st, havoc, regen, dry=False):
        for rid, off in havoc:
            r = st.mem.get(rid)
            if r is None: continue
            r = r.copy()
            if off is None:
                if r.seq is None: self.to_seq(st, r, 1); r = st.mem[rid].copy()
                r.seq = self.havocseq(r.seq, r.name, keeplen=True)
            else:
                c = r.cells.get(off)
                if c is None:
                    continue
                w, v = c
                if isinstance(v, Seq): v = self.havocseq(v, r.name, keeplen=(rid, off) not in regen)
                elif isinstance(v, Ptr):
                    if v.r is None: raise Unsupported('havoc of null pointer cell %s+%d' % (r.name, off))
                    w_ = self.elemwidth(st, v) if dry and isint(v.o) else 1
                    v = Ptr(v.r, self.fresh('%s.%d.off' % (r.name, off)) if w_ <= 1 or v.o % w_ else simp(self.fresh('%s.%d.idx' % (r.name, off)) * w_))
                elif isinstance(v, z3.FPRef): v = z3.FP('hv!%d' % next(self.cnt), v.sort())
                elif hasattr(v, 'havoc'): v = v.havoc(self)
                else: v = self.fresh('%s.%d' % (r.name, off), 8 * w)
                r.cells[off] = (w, v)
            st.mem[rid] = r

    def havocseq(self, s, name, keeplen=False):
        g = next(self.cnt)
        if s.ew: n = ArrN(self.fresharr(name, 8 * s.ew))
        else: n = s.x['havoc'](self, name)
        return s.with_(n=n, len=s.len if keeplen else self.fresh(name + '.len'), gen=s.gen if keeplen else g)

    # ---------------------------------------------------------- instructions
    def step(self, st, fr, ins):
        op = ins.op
        a = ins.a
        if op == 'br':
            if not a: return self.goto(st, fr, ins.x[0])
            c = self.val(st, fr, a[0])
            if isinstance(c, Undef): c = self.fresh('undef', 1)
            if isint(c): return self.goto(st, fr, ins.x[0] if c else ins.x[1])
            x = ins.x
            return self.alts(st, [(c, lambda s: self.goto(s, s.frames[-1], x[0])),
                                  (simp(z3.Not(c)), lambda s: self.goto(s, s.frames[-1], x[1]))])
        if op in ('call', 'invoke'): return self.call(st, fr, ins)
        if op == 'ret':
            v = self.val(st, fr, a[0]) if a else None
            return self.ret(st, v)
        if op in BIN:
            fr.regs[ins.dst] = self.binop(st, op, self.val(st, fr, a[0]), self.val(st, fr, a[1]), ins.ty, ins.x)
        elif op == 'load':
            fr.regs[ins.dst] = self.load(st, self.val(st, fr, a[0]), ins.ty)
        elif op == 'store':
            self.store(st, self.val(st, fr, a[1]), self.val(st, fr, a[0]), ins.ty)
        elif op == 'gep':
            fr.regs[ins.dst] = self.gep(st, self.val(st, fr, a[0]), ins.ty, [self.val(st, fr, x) for x in a[1:]], a[1:])
        elif op == 'icmp':
            fr.regs[ins.dst] = self.icmp(st, ins.x, self.val(st, fr, a[0]), self.val(st, fr, a[1]), ins.ty)
        elif op in CAST:
            fr.regs[ins.dst] = self.cast(st, op, self.val(st, fr, a[0]), self.mod.res(a[0].ty), self.mod.res(ins.ty))
        elif op == 'select':
            c = self.val(st, fr, a[0])
            x = self.val(st, fr, a[1]); y = self.val(st, fr, a[2])
            if isinstance(c, list): raise Unsupported('vector select')
            if isint(c): fr.regs[ins.dst] = x if c else y
            elif isinstance(x, (Ptr, list)) or isinstance(y, (Ptr, list)):
                if isinstance(x, Ptr) and isinstance(y, Ptr) and x.r == y.r:
                    fr.regs[ins.dst] = Ptr(x.r, ite64(c, x.o, y.o))
                else:
                    d = ins.dst

                    def setv(s, v):
                        s.frames[-1].regs[d] = v; s.frames[-1].ip += 1
                        return False
                    return self.alts(st, [(c, lambda s: setv(s, x)), (simp(z3.Not(c)), lambda s: setv(s, y))])
            elif ins.ty.k == 'int':
                if ins.ty.n == 1: fr.regs[ins.dst] = simp(z3.If(c, tob(x), tob(y)))
                else: fr.regs[ins.dst] = ite64(c, x, y, ins.ty.n)
            else:
                fr.regs[ins.dst] = z3.If(c, x, y)
        elif op == 'alloca':
            n = 1
            if a:
                n = self.val(st, fr, a[0])
            rid = self.region(st, mul64(n, self.mod.size(ins.ty)), '%' + ins.dst, 'stack')
            fr.allocas.append(rid)
            fr.regs[ins.dst] = Ptr(rid, 0)
        elif op == 'switch':
            v = self.val(st, fr, a[0])
            d, cs = ins.x
            if isint(v):
                for c, l in cs:
                    if c == v: return self.goto(st, fr, l)
                return self.goto(st, fr, d)
            by = {}
            for c, l in cs: by.setdefault(l, []).append(c)
            al = []
            allc = []
            for l, c in by.items():
                cond = z3.Or(*[v == x for x in c]) if len(c) > 1 else v == c[0]
                allc.append(cond)
                if l != d:
                    al.append((cond, (lambda l: lambda s: self.goto(s, s.frames[-1], l))(l)))
            oth = [c for l, c in zip(by, allc) if l != d]
            al.append((simp(z3.Not(z3.Or(*oth))) if oth else None, lambda s: self.goto(s, s.frames[-1], d)))
            return self.alts(st, al)
        elif op == 'extractvalue':
            v = self.val(st, fr, a[0])
            for i in ins.x: v = v[i] if not isinstance(v, Undef) else v
            fr.regs[ins.dst] = v
        elif op == 'insertvalue':
            v = self.val(st, fr, a[0]); e = self.val(st, fr, a[1])
            fr.regs[ins.dst] = insval(v, ins.x, e)
        elif op == 'freeze':
            v = self.val(st, fr, a[0])
            fr.regs[ins.dst] = self.undef(ins.ty) if isinstance(v, Undef) else v
        elif op == 'landingpad':
            return self.landing(st, fr, ins)
        elif op == 'resume':
            return self.unwind(st, st.exc, pop=True)
        elif op == 'unreachable':
            return True
        elif op == 'fneg':
            fr.regs[ins.dst] = z3.fpNeg(self.val(st, fr, a[0]))
        elif op == 'fcmp':
            x, y = self.val(st, fr, a[0]), self.val(st, fr, a[1])
            f = {'oeq': z3.fpEQ, 'olt': z3.fpLT, 'ole': z3.fpLEQ, 'ogt': z3.fpGT, 'oge': z3.fpGEQ,
                 'une': lambda p, q: z3.Not(z3.fpEQ(p, q)),
                 'uno': lambda p, q: z3.Or(z3.fpIsNaN(p), z3.fpIsNaN(q)),
                 'ult': lambda p, q: z3.Not(z3.fpGEQ(p, q)), 'ule': lambda p, q: z3.Not(z3.fpGT(p, q)),
                 'ugt': lambda p, q: z3.Not(z3.fpLEQ(p, q)), 'uge': lambda p, q: z3.Not(z3.fpLT(p, q))}.get(ins.x)
            if f is None: raise Unsupported('fcmp ' + ins.x)
            fr.regs[ins.dst] = simp(f(x, y))
        elif op == 'atomicrmw':
            p = self.val(st, fr, a[0]); v = self.val(st, fr, a[1])
            old = self.load(st, p, ins.ty)
            if ins.x == 'xchg': nv = v
            else: nv = self.binop(st, {'add': 'add', 'sub': 'sub', 'and': 'and', 'or': 'or', 'xor': 'xor'}[ins.x], old, v, ins.ty, [])
            self.store(st, p, nv, ins.ty)
            fr.regs[ins.dst] = old
        elif op == 'fence': pass
        elif op == 'cmpxchg':
            p = self.val(st, fr, a[0]); e = self.val(st, fr, a[1]); v = self.val(st, fr, a[2])
            old = self.load(st, p, ins.ty)
            c = eqv(old, e)
            if not isint(c): raise Unsupported('symbolic cmpxchg')
            if c: self.store(st, p, v, ins.ty)
            fr.regs[ins.dst] = [old, c]
        elif op == 'asm':
            raise Unsupported('inline asm')
        else:
            raise Unsupported('instruction %s: %s' % (op, ins.x))
        fr.ip += 1
        return False

    def ret(self, st, v):
        fr = st.frames.pop()
        for r in fr.allocas:
            if r in st.mem:
                n = st.mem[r].copy(); n.dead = True; st.mem[r] = n
        if fr.hook: v = fr.hook(self, st, v)
        if not st.frames:
            self.npaths += 1
            self.on_exit(self, st, ('ret', v))
            return True
        if self.npaths > self.max_paths: raise Budget('too many paths')
        return self.finish(st, v)

    def finish(self, st, v):
        """value v returned to the call/invoke instruction of the top frame"""
        fr = st.frames[-1]
        ins = fr.blk[fr.ip]
        if ins.dst is not None:
            if v is None and ins.ty.k != 'void':
                v = self.undef(ins.ty)
            fr.regs[ins.dst] = v
        if ins.op == 'invoke': return self.goto(st, fr, ins.x['ok'])
        fr.ip += 1
        return False

    def unwind(self, st, exc, pop=False):
        """propagate exc; top frame is the one whose current instruction raised"""
        if pop:
            fr = st.frames.pop()
            for r in fr.allocas:
                if r in st.mem:
                    n = st.mem[r].copy(); n.dead = True; st.mem[r] = n
        while st.frames:
            fr = st.frames[-1]
            ins = fr.blk[fr.ip]
            if ins.op == 'invoke':
                st.exc = exc
                return self.goto(st, fr, ins.x['uw'])
            st.frames.pop()
            for r in fr.allocas:
                if r in st.mem:
                    n = st.mem[r].copy(); n.dead = True; st.mem[r] = n
            if self.mode == 'dry' and self.dryctx is not None and len(st.frames) < self.dryctx[1]: return True
        self.npaths += 1
        self.on_exit(self, st, ('throw', exc))
        return True

    def tid(self, ti):
        if ti not in self.tids: self.tids[ti] = len(self.tids) + 1
        return self.tids[ti]

    def subtype(self, ti, base):
        """is exception typeinfo ti caught by a handler for base?"""
        seen = set(); st = [ti]
        while st:
            x = st.pop()
            if x == base: return True
            if x in seen: continue
            seen.add(x)
            st += STDBASES.get(x, [])
            g = self.mod.glob(x)
            if g is not None and g.init is not None and getattr(g.init, 'k', None) == 'agg':
                for e in g.init.v[2:]:
                    if e.k == 'global': st.append(e.v)
        return False

    def landing(self, st, fr, ins):
        cleanup, cl = ins.x
        exc = st.exc
        sel = 0
        for kind, v in cl:
            if kind == 'catch':
                if v.k == 'null':
                    sel = self.tid('*all*'); break
                if self.subtype(exc.ti, v.v):
                    sel = self.tid(v.v); break
            else:
                sel = M64 & 0xffffffff
                break
        else:
            if not cleanup:
                # not caught here: continue unwinding past this frame
                return self.unwind(st, exc, pop=True)
        if exc.ptr is None:
            exc.ptr = self.alloc(st, 64, 'exception')
        fr.regs[ins.dst] = [exc.ptr, sel]
        fr.ip += 1
        return False

    def call(self, st, fr, ins):
        cv = ins.x['callee']
        if cv.k == 'global':
            name = cv.v
        else:
            p = self.val(st, fr, cv)
            if isinstance(p, Ptr) and isinstance(p.r, tuple) and p.r[0] == 'F': name = p.r[1]
            elif isinstance(p, Ptr) and isinstance(p.r, tuple) and p.r[0] == 'PF':
                args = [self.val(st, fr, x) for x in ins.a]
                return self.apply(st, ins, p.r[1](self, st, args, ins))
            else: raise Unsupported('indirect call through %r' % (p,))
        al = 0
        while name in self.mod.globals_text and name not in self.mod.funcs:
            g = self.mod.glob(name)
            if isinstance(g.init, tuple) and g.init[1].k == 'global': name = g.init[1].v
            else: break
        m = self.lookup(name)
        args = [self.val(st, fr, x) for x in ins.a]
        if m is not None:
            kind, fn, key = m
            self.used_models[key] = self.used_models.get(key, 0) + 1
            return self.apply(st, ins, fn(self, st, args, ins))
        f = self.mod.funcs.get(name)
        if f is None:
            raise Unsupported('call of external function %s' % demangle(name))
        if len(st.frames) > 60: raise Unsupported('recursion depth in %s' % f.dem)
        if self.mergeable(f):
            r = self.summarise(st, f, args)
            if r is not None: return self.apply(st, ins, r)
        self.start(st, f, args)
        return False

    def mergeable(self, f):
        m = self.__dict__.setdefault('mcach', {})
        if f.name not in m:
            ok = f.ret is not None and len(f.blocks) > 1
            if ok and not any(re.search(x, f.dem) for x in self.merge):
                ok = all(self.mod.res(t).k == 'int' for _, t, _ in f.params) and len(f.params) > 0
            m[f.name] = ok
        return m[f.name]

    def summarise(self, st, f, args):
        """execute f separately and join its paths into one value, when it has no effect on memory"""
        n0 = len(st.pc)
        s2 = st.copy(); s2.frames = []
        mem0 = st.mem
        exits = []
        old = (getattr(self, 'dryctx', None), self.on_exit, self.npaths)
        self.dryctx = None
        self.on_exit = lambda E, s, o: exits.append((s, o))
        nob = len(self.obls)
        self.S.push()
        try:
            self.start(s2, f, args)
            try: self._run(s2)
            except Infeasible: pass
        finally:
            self.S.pop()
            self.dryctx, self.on_exit, self.npaths = old
        if not exits: raise Infeasible()
        ok = True
        for s, o in exits:
            for k, r in mem0.items():
                if s.mem.get(k) is not r: ok = False
            if o[0] == 'ret' and not isinstance(o[1], (int, z3.BitVecRef, z3.BoolRef)): ok = False
            if o[0] == 'throw' and not o[1].ti.startswith('_ZTISt'): ok = False
        if not ok:
            del self.obls[nob:]
            return None
        rets = []; thr = {}
        for s, o in exits:
            d = s.pc[n0:]
            c = z3.And(*d) if len(d) > 1 else d[0] if d else z3.BoolVal(True)
            if o[0] == 'ret': rets.append((c, o[1]))
            else: thr.setdefault(o[1].ti, []).append(c)
        al = []
        w = f.ret.n
        if rets:
            v = rets[-1][1]
            for c, x in reversed(rets[:-1]):
                if w == 1: v = simp(z3.If(c, tob(x), tob(v)))
                else: v = ite64(c, x, v, w)
            rc = [c for c, _ in rets]
            al.append((simp(z3.Or(*rc)) if len(rc) > 1 else simp(rc[0]), lambda E, s, v=v: v))
        for ti, cs in thr.items():
            al.append((simp(z3.Or(*cs)) if len(cs) > 1 else simp(cs[0]), lambda E, s, ti=ti: Throw(Exc(ti))))
        if len(al) == 1:
            c, fn = al[0]
            if not isint(c): self.assume(st, c)
            return fn(self, st)
        return Outcomes(al)

    def apply(self, st, ins, v):
        if isinstance(v, Outcomes):
            al = []
            for c, fn in v.alts:
                def go(s, fn=fn):
                    r = fn(self, s)
                    return self.apply(s, ins, r)
                al.append((c, go))
            return self.alts(st, al)
        if isinstance(v, Throw):
            return self.unwind(st, v.exc)
        if v is Stop: return True
        if isinstance(v, CallInto):
            self.start(st, v.f, v.args, v.hook)
            return False
        return self.finish(st, v)

    def lookup(self, name):
        if name in self.mcache: return self.mcache[name]
        d = demangle(name)
        r = None
        for rx, fn in self.local_models + self.models:
            if re.match(rx, d):
                r = ('m', fn, d if len(d) < 200 else d[:200]); break
        self.mcache[name] = r
        return r


class CallInto:
    def __init__(self, f, args, hook=None): self.f = f; self.args = args; self.hook = hook


def spec_applicable(spec, E, st, entry): return True


def zero_fill(o, n, prev):
    def fill(off, w):
        if o <= off and off + w <= o + n: return 0
        if prev is not None: return prev(off, w)
        return z3.BitVec('uninit_fill!%d_%d' % (off, w), 8 * w)
    return fill


def insval(v, ix, e):
    if isinstance(v, Undef): v = [Undef(), Undef()]
    v = list(v)
    if len(ix) == 1: v[ix[0]] = e
    else: v[ix[0]] = insval(v[ix[0]], ix[1:], e)
    return v


def short(d):
    """function name without template arguments, parameters and return type"""
    out = []; depth = 0; i = 0
    s = d.replace('operator<<', 'operatorLL').replace('operator>>', 'operatorRR').replace('operator()', 'operatorCALL').replace('operator<', 'operatorLT').replace('operator->', 'operatorAR')
    s = s.replace('(anonymous namespace)', '{anon}')
    for ch in s:
        if ch == '<': depth += 1
        elif ch == '>': depth -= 1
        elif depth == 0:
            if ch == '(': break
            out.append(ch)
    r = ''.join(out).strip()
    return r.split(' ')[-1]


STDBASES = {
    '_ZTISt16invalid_argument': ['_ZTISt11logic_error'], '_ZTISt12out_of_range': ['_ZTISt11logic_error'],
    '_ZTISt12length_error': ['_ZTISt11logic_error'], '_ZTISt12domain_error': ['_ZTISt11logic_error'],
    '_ZTISt11logic_error': ['_ZTISt9exception'], '_ZTISt13runtime_error': ['_ZTISt9exception'],
    '_ZTISt11range_error': ['_ZTISt13runtime_error'], '_ZTISt14overflow_error': ['_ZTISt13runtime_error'],
    '_ZTISt8bad_cast': ['_ZTISt9exception'], '_ZTISt9bad_alloc': ['_ZTISt9exception'],
    '_ZTINSt8ios_base7failureB5cxx11E': ['_ZTISt13runtime_error'],
}


def evalterm(m, t):
    if isinstance(t, int): return t
    if isinstance(t, tuple) and t[0] == 'seq':
        ln = m.eval(b64(t[1].len), model_completion=True).as_long()
        n = min(ln, t[2] if len(t) > 2 else 64)
        r = []
        for i in range(n):
            v = t[1].at(i)
            r.append(v if isint(v) else m.eval(v, model_completion=True).as_long())
        return {'len': ln, 'data': r}
    v = m.eval(t, model_completion=True)
    if z3.is_bool(v): return z3.is_true(v)
    if hasattr(v, 'as_long'): return v.as_long()
    return str(v)
