"""Parser for textual LLVM 18 IR (opaque pointers), lazily per function."""
import re

TOK = re.compile(r'''
   [%@]"(?:[^"\\]|\\.)*" | [%@][-\w.$]+ | c?"(?:[^"\\]|\\.)*" | \$?"[^"]*" |
   ![\w.]* | \#\d+ | 0x[KMLHR]?[0-9A-Fa-f]+ | -?\d+\.\d+(?:e[+-]?\d+)? | -?\d+ | \.\.\. | [A-Za-z_$][\w.$-]*: | [A-Za-z_$][\w.$-]* | [()\[\]{}<>,=*:|]
''', re.X)


class Ty:
    __slots__ = ('k', 'n', 'el', 'packed', 'name')

    def __init__(self, k, n=None, el=None, packed=False, name=None):
        self.k = k; self.n = n; self.el = el; self.packed = packed; self.name = name

    def __repr__(self):
        if self.k == 'int': return 'i%d' % self.n
        if self.k == 'named': return '%' + self.name
        if self.k == 'array': return '[%d x %r]' % (self.n, self.el)
        if self.k == 'struct': return '{%s}' % ','.join(map(repr, self.el))
        return self.k


I1 = Ty('int', 1); I8 = Ty('int', 8); I16 = Ty('int', 16); I32 = Ty('int', 32); I64 = Ty('int', 64)
PTR = Ty('ptr'); VOID = Ty('void'); DOUBLE = Ty('double'); FLOAT = Ty('float')
_ints = {}


def intty(n):
    t = _ints.get(n)
    if t is None:
        t = _ints[n] = Ty('int', n)
    return t


class V:
    """operand: kind in local, global, int, fp, null, undef, zero, agg, cexpr, str, true.."""
    __slots__ = ('k', 'v', 'ty', 'x')

    def __init__(self, k, v, ty=None, x=None):
        self.k = k; self.v = v; self.ty = ty; self.x = x

    def __repr__(self):
        return '%s:%r' % (self.k, self.v)


class Ins:
    __slots__ = ('op', 'dst', 'ty', 'a', 'x', 'line', 'text')

    def __init__(self, op, dst, ty, a, x=None, line=0):
        self.op = op; self.dst = dst; self.ty = ty; self.a = a; self.x = x; self.line = line

    def __repr__(self):
        return '%s = %s %r %r %r' % (self.dst, self.op, self.ty, self.a, self.x)


class Func:
    def __init__(self, mod, name, header, body, linkage):
        self.mod = mod; self.name = name; self.header = header; self.bodytext = body
        self.linkage = linkage
        self._parsed = False
        self.dem = name

    def parse(self):
        if not self._parsed:
            self._parsed = True
            parse_function(self)
        return self

    @property
    def blocks(self):
        self.parse(); return self._blocks

    @property
    def entry(self):
        self.parse(); return self._entry

    @property
    def order(self):
        self.parse(); return self._order

    @property
    def ret(self):
        self.parse(); return self._ret

    @property
    def params(self):
        self.parse(); return self._params

    def loops(self):
        if not hasattr(self, '_loops'):
            self._loops = find_loops(self)
        return self._loops


class Glob:
    def __init__(self, name, ty, init, const):
        self.name = name; self.ty = ty; self.init = init; self.const = const


class P:
    def __init__(self, mod, text):
        self.mod = mod
        self.t = TOK.findall(text)
        self.i = 0

    def peek(self, k=0):
        j = self.i + k
        return self.t[j] if j < len(self.t) else None

    def next(self):
        x = self.t[self.i]; self.i += 1
        return x

    def accept(self, x):
        if self.i < len(self.t) and self.t[self.i] == x:
            self.i += 1
            return True
        return False

    def expect(self, x):
        y = self.next()
        if y != x:
            raise SyntaxError('expected %r got %r near %r' % (x, y, ' '.join(self.t[max(0, self.i - 12):self.i + 6])))

    # ---- types
    def type(self):
        x = self.next()
        if x == 'ptr':
            t = PTR
            if self.peek() == 'addrspace':
                self.next(); self.expect('('); self.next(); self.expect(')')
        elif x == 'void': t = VOID
        elif x == 'double': t = DOUBLE
        elif x == 'float': t = FLOAT
        elif x in ('x86_fp80', 'fp128', 'half', 'label', 'metadata', 'token', 'opaque'): t = Ty(x)
        elif re.match(r'i\d+$', x): t = intty(int(x[1:]))
        elif x[0] == '%': t = Ty('named', name=unq(x[1:]))
        elif x == '[':
            n = int(self.next()); self.expect('x'); el = self.type(); self.expect(']')
            t = Ty('array', n, el)
        elif x == '<':
            if self.peek() == '{':
                self.next(); t = self._struct(True); self.expect('>')
            else:
                n = int(self.next()); self.expect('x'); el = self.type(); self.expect('>')
                t = Ty('vector', n, el)
        elif x == '{':
            t = self._struct(False)
        else:
            raise SyntaxError('type? %r near %r' % (x, ' '.join(self.t[max(0, self.i - 8):self.i + 6])))
        # function type
        if self.peek() == '(' and self.fn_type_ok():
            self.next(); args = []; va = False
            while not self.accept(')'):
                if self.accept('...'): va = True
                else: args.append(self.type())
                self.accept(',')
            t = Ty('func', va, (t, args))
        return t

    def fn_type_ok(self):
        # a '(' after a type begins a function type (call void (ptr, ...) @printf)
        return True

    def _struct(self, packed):
        el = []
        while not self.accept('}'):
            el.append(self.type()); self.accept(',')
        return Ty('struct', None, el, packed)

    # ---- values
    def value(self, ty):
        x = self.next()
        c = x[0]
        if c == '%': return V('local', unq(x[1:]), ty)
        if c == '@': return V('global', unq(x[1:]), ty)
        if x == 'true': return V('int', 1, ty)
        if x == 'false': return V('int', 0, ty)
        if x == 'null': return V('null', 0, ty)
        if x in ('undef', 'poison'): return V('undef', 0, ty)
        if x == 'zeroinitializer': return V('zero', 0, ty)
        if x == 'none': return V('undef', 0, ty)
        if c == 'c' and len(x) > 1 and x[1] == '"': return V('str', cstr(x[2:-1]), ty)
        if ty.k == 'int' and re.match(r'-?\d+$', x): return V('int', int(x) & ((1 << ty.n) - 1), ty)
        if x.startswith('0x') or re.match(r'-?\d', x): return V('fp', x, ty)
        if x == '[':
            r = []
            while not self.accept(']'):
                t = self.type(); r.append(self.value(t)); self.accept(',')
            return V('agg', r, ty)
        if x == '{' or (x == '<' and self.peek() == '{'):
            pk = False
            if x == '<': self.next(); pk = True
            r = []
            while not self.accept('}'):
                t = self.type(); r.append(self.value(t)); self.accept(',')
            if pk: self.expect('>')
            return V('agg', r, ty)
        if x == '<':
            r = []
            while not self.accept('>'):
                t = self.type(); r.append(self.value(t)); self.accept(',')
            return V('agg', r, ty)
        if x == 'getelementptr':
            while self.peek() in ('inbounds', 'inrange', 'nuw', 'nusw'):
                self.next()
            self.expect('('); bt = self.type(); self.expect(',')
            ops = []
            while not self.accept(')'):
                while self.peek() == 'inrange': 
                    self.next()
                    if self.peek() == '(':
                        while self.next() != ')': pass
                t = self.type(); ops.append(self.value(t)); self.accept(',')
            return V('cexpr', 'gep', ty, (bt, ops))
        if x in ('inttoptr', 'ptrtoint', 'bitcast', 'trunc', 'zext', 'sext', 'addrspacecast'):
            self.expect('('); t = self.type(); v = self.value(t); self.expect('to'); t2 = self.type(); self.expect(')')
            return V('cexpr', x, ty, (v, t2))
        if x in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'icmp', 'shl'):
            while self.peek() != '(': self.next()
            self.expect('('); t = self.type(); a = self.value(t); self.expect(','); t = self.type(); b = self.value(t); self.expect(')')
            return V('cexpr', 'bin', ty, (x, a, b))
        raise SyntaxError('value? %r near %r' % (x, ' '.join(self.t[max(0, self.i - 12):self.i + 6])))

    def tv(self):
        t = self.type()
        return self.value(t)

    def skip_attrs(self):
        """skip parameter attributes after a type; returns dict of interesting ones"""
        at = {}
        while True:
            x = self.peek()
            if x is None: return at
            if x in PATTR:
                self.next()
                if self.peek() == '(':
                    d = 0; buf = []
                    while True:
                        y = self.next(); buf.append(y)
                        if y == '(': d += 1
                        if y == ')':
                            d -= 1
                            if d == 0: break
                    at[x] = buf
                elif x == 'align':
                    self.next()
                else: at[x] = True
            elif x == 'captures':
                self.next()
            else:
                return at


PATTR = set('''noundef nonnull noalias nocapture readonly readnone writeonly writable returned signext zeroext inreg immarg
 nofree nest swiftself swifterror dead_on_unwind align dereferenceable dereferenceable_or_null sret byval byref inalloca
 allocptr allocalign range initializes elementtype preallocated nofpclass'''.split())


def unq(s):
    if s.startswith('"'):
        s = s[1:-1]
        s = re.sub(r'\\([0-9A-Fa-f]{2})', lambda m: chr(int(m.group(1), 16)), s)
    return s


def cstr(s):
    out = bytearray(); i = 0
    while i < len(s):
        if s[i] == '\\':
            if s[i + 1] == '\\':
                out.append(92); i += 2
            else:
                out.append(int(s[i + 1:i + 3], 16)); i += 3
        else:
            out.append(ord(s[i])); i += 1
    return bytes(out)


class Module:
    def __init__(self, text):
        self.types = {}
        self.globals_text = {}
        self.globals_ = {}
        self.aliases = {}
        self.funcs = {}
        self.decls = {}
        self.md = {}
        self._size = {}
        self.ctors = []
        lines = text.split('\n')
        i = 0; n = len(lines)
        while i < n:
            l = lines[i]
            if l.startswith('define'):
                j = i + 1
                while lines[j] != '}': j += 1
                m = re.search(r'@("(?:[^"\\]|\\.)*"|[-\w.$]+)\(', l)
                name = unq(m.group(1))
                linkage = l.split()[1]
                self.funcs[name] = Func(self, name, l, lines[i + 1:j], linkage)
                i = j + 1; continue
            if l.startswith('declare'):
                m = re.search(r'@("(?:[^"\\]|\\.)*"|[-\w.$]+)\(', l)
                self.decls[unq(m.group(1))] = l
            elif l.startswith('%'):
                m = re.match(r'%("(?:[^"\\]|\\.)*"|[-\w.$]+) = type (.*)$', l)
                if m: self.types[unq(m.group(1))] = m.group(2)
            elif l.startswith('@'):
                m = re.match(r'@("(?:[^"\\]|\\.)*"|[-\w.$]+) = (.*)$', l)
                if m: self.globals_text[unq(m.group(1))] = m.group(2)
            elif l.startswith('!'):
                m = re.match(r'!(\d+) = (?:distinct )?!DILocation\(line: (\d+)', l)
                if m: self.md[m.group(1)] = int(m.group(2))
            i += 1

    def named(self, name):
        t = self.types.get(name)
        if isinstance(t, str):
            if t.strip() == 'opaque':
                t = Ty('opaque')
            else:
                t = P(self, t).type()
            self.types[name] = t
        return t

    def res(self, t):
        while t.k == 'named':
            t = self.named(t.name)
        return t

    def glob(self, name):
        g = self.globals_.get(name)
        if g is None:
            tx = self.globals_text.get(name)
            if tx is None: return None
            g = parse_global(self, name, tx)
            self.globals_[name] = g
        return g

    def align(self, t):
        t = self.res(t)
        if t.k == 'int':
            s = (t.n + 7) // 8
            a = 1
            while a < s: a *= 2
            return min(a, 16)
        if t.k in ('ptr', 'double'): return 8
        if t.k == 'float': return 4
        if t.k == 'x86_fp80': return 16
        if t.k in ('array',): return self.align(t.el)
        if t.k == 'vector': return self.size(t)
        if t.k == 'struct':
            if t.packed or not t.el: return 1
            return max(self.align(e) for e in t.el)
        raise KeyError('align %r' % t)

    def size(self, t):
        t = self.res(t)
        if t.k == 'int':
            s = (t.n + 7) // 8
            a = 1
            while a < s: a *= 2
            return a
        if t.k in ('ptr', 'double'): return 8
        if t.k == 'float': return 4
        if t.k == 'x86_fp80': return 16
        if t.k in ('array', 'vector'): return t.n * self.size(t.el)
        if t.k == 'struct':
            o = 0
            for e in t.el:
                if not t.packed:
                    a = self.align(e); o = (o + a - 1) // a * a
                o += self.size(e)
            a = self.align(t)
            return (o + a - 1) // a * a
        raise KeyError('size %r' % t)

    def field(self, t, i):
        t = self.res(t)
        o = 0
        for j, e in enumerate(t.el):
            if not t.packed:
                a = self.align(e); o = (o + a - 1) // a * a
            if j == i: return o, e
            o += self.size(e)
        raise IndexError


def parse_global(mod, name, tx):
    tx = re.sub(r', (align|section|comdat|partition|!).*$', '', tx)
    p = P(mod, tx)
    const = False
    ext = False
    while True:
        x = p.peek()
        if x in ('global', 'constant'):
            const = x == 'constant'; p.next(); break
        if x == 'alias':
            p.next(); t = p.type(); p.expect(','); v = p.tv()
            return Glob(name, PTR, ('alias', v), True)
        if x in ('external', 'extern_weak'): ext = True
        p.next()
        if x in ('thread_local', 'addrspace') and p.peek() == '(':
            while p.next() != ')': pass
    t = p.type()
    init = None
    if p.peek() is not None and not ext and p.peek() not in (',',):
        init = p.value(t)
    return Glob(name, t, init, const)


BIN = set('add sub mul udiv sdiv urem srem and or xor shl lshr ashr fadd fsub fmul fdiv frem'.split())
CAST = set('zext sext trunc ptrtoint inttoptr bitcast fptosi fptoui sitofp uitofp fpext fptrunc addrspacecast'.split())


def parse_function(f):
    mod = f.mod
    h = f.header
    m = re.search(r'@("(?:[^"\\]|\\.)*"|[-\w.$]+)\(', h)
    p = P(mod, h[m.end() - 1:])
    p.expect('(')
    params = []
    f.vararg = False
    while not p.accept(')'):
        if p.accept('...'):
            f.vararg = True; continue
        t = p.type(); at = p.skip_attrs()
        nm = p.next(); assert nm[0] == '%', nm
        params.append((unq(nm[1:]), t, at)); p.accept(',')
    f._params = params
    # return type
    pre = h[:m.start()]
    toks = TOK.findall(pre)
    f._ret = None
    mi = re.match(r'i(\d+)$', toks[-1]) if toks else None
    if mi: f._ret = Ty('int', int(mi.group(1)))
    blocks = {}; order = []; cur = None; curname = None
    # entry label implicit number
    lines = f.bodytext
    i = 0
    first = True
    while i < len(lines):
        l = lines[i]
        if not l.strip():
            i += 1; continue
        if not l.startswith(' '):
            mm = re.match(r'("(?:[^"\\]|\\.)*"|[-\w.$]+):', l)
            if mm:
                curname = unq(mm.group(1)); cur = blocks[curname] = []; order.append(curname); first = False
                i += 1; continue
        if cur is None:
            curname = str(len(params)); cur = blocks[curname] = []; order.append(curname)
        # join continuation lines
        full = l
        st = l.strip()
        if ' switch ' in ' ' + st and st.endswith('['):
            i += 1
            while True:
                full += ' ' + lines[i]
                if lines[i].strip().startswith(']'): break
                i += 1
        elif re.match(r'\s*(%\S+ = )?invoke ', l):
            i += 1; full += ' ' + lines[i]
        elif re.match(r'\s*%\S+ = landingpad', l):
            while i + 1 < len(lines) and re.match(r'\s+(cleanup|catch|filter)\b', lines[i + 1]):
                i += 1; full += ' ' + lines[i]
        line = 0
        mm = re.search(r', !dbg !(\d+)', full)
        if mm: line = mod.md.get(mm.group(1), 0)
        if ', !' in full:
            full = re.sub(r'(, ![\w.]+ !\d+)+\s*$', '', full)
            full = re.sub(r', !dbg !\d+', '', full)
            full = re.sub(r', ![\w.]+ !\d+', '', full)
        if full.lstrip().startswith(';'):
            i += 1; continue
        try:
            ins = parse_ins(mod, full)
        except (SyntaxError, AssertionError, IndexError, ValueError) as e:
            ins = Ins('unsupported', None, None, [], full.strip() + ' :: ' + repr(e))
        ins.line = line
        cur.append(ins)
        i += 1
    f._blocks = blocks; f._order = order; f._entry = order[0]


def parse_ins(mod, text):
    p = P(mod, text)
    dst = None
    if p.peek()[0] == '%' and p.peek(1) == '=':
        dst = unq(p.next()[1:]); p.next()
    op = p.next()
    if op in BIN:
        fl = []
        while p.peek() in ('nsw', 'nuw', 'exact', 'fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'reassoc', 'afn', 'disjoint'):
            fl.append(p.next())
        a = p.tv(); p.expect(','); b = p.value(a.ty)
        return Ins(op, dst, a.ty, [a, b], fl)
    if op in CAST:
        while p.peek() in ('nneg', 'nuw', 'nsw'): p.next()
        a = p.tv(); p.expect('to'); t = p.type()
        return Ins(op, dst, t, [a])
    if op == 'fneg':
        a = p.tv(); return Ins(op, dst, a.ty, [a])
    if op == 'load':
        at = p.accept('atomic'); p.accept('volatile')
        t = p.type(); p.expect(','); a = p.tv()
        return Ins(op, dst, t, [a])
    if op == 'store':
        p.accept('atomic'); p.accept('volatile')
        v = p.tv(); p.expect(','); a = p.tv()
        return Ins(op, None, v.ty, [v, a])
    if op == 'alloca':
        p.accept('inalloca')
        t = p.type(); cnt = None
        if p.accept(','):
            if p.peek() != 'align':
                cnt = p.tv()
        return Ins(op, dst, t, [cnt] if cnt else [])
    if op == 'getelementptr':
        while p.peek() in ('inbounds', 'nuw', 'nusw'): p.next()
        bt = p.type(); ops = []
        while p.accept(','):
            ops.append(p.tv())
        return Ins('gep', dst, bt, ops)
    if op in ('icmp', 'fcmp'):
        while p.peek() in ('fast', 'nnan', 'ninf', 'nsz', 'samesign'): p.next()
        pr = p.next(); a = p.tv(); p.expect(','); b = p.value(a.ty)
        return Ins(op, dst, a.ty, [a, b], pr)
    if op == 'select':
        c = p.tv(); p.expect(','); a = p.tv(); p.expect(','); b = p.tv()
        return Ins(op, dst, a.ty, [c, a, b])
    if op == 'phi':
        t = p.type(); inc = []
        while True:
            p.expect('['); v = p.value(t); p.expect(','); lb = unq(p.next()[1:]); p.expect(']')
            inc.append((v, lb))
            if not p.accept(','): break
        return Ins(op, dst, t, inc)
    if op == 'br':
        if p.accept('label'):
            return Ins(op, None, None, [], [unq(p.next()[1:])])
        c = p.tv(); p.expect(','); p.expect('label'); a = unq(p.next()[1:]); p.expect(','); p.expect('label'); b = unq(p.next()[1:])
        return Ins(op, None, None, [c], [a, b])
    if op == 'switch':
        v = p.tv(); p.expect(','); p.expect('label'); d = unq(p.next()[1:]); p.expect('[')
        cs = []
        while not p.accept(']'):
            c = p.tv(); p.expect(','); p.expect('label'); cs.append((c.v, unq(p.next()[1:])))
        return Ins(op, None, v.ty, [v], (d, cs))
    if op == 'ret':
        if p.peek() == 'void': return Ins(op, None, VOID, [])
        v = p.tv(); return Ins(op, None, v.ty, [v])
    if op in ('tail', 'musttail', 'notail'):
        op = p.next()
    if op in ('call', 'invoke'):
        while p.peek() in ('fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'reassoc', 'afn', 'fastcc', 'ccc', 'coldcc'): p.next()
        p.skip_attrs()
        t = p.type(); p.skip_attrs()
        if t.k == 'func': rt = t.el[0]
        else: rt = t
        if p.peek() == 'asm':
            return Ins('asm', dst, rt, [], text.strip())
        callee = p.value(PTR)
        p.expect('(')
        args = []; attrs = []
        while not p.accept(')'):
            if p.peek() == 'metadata':
                # skip metadata operand
                d = 0
                while True:
                    y = p.peek()
                    if d == 0 and y in (',', ')'): break
                    if y in '([{': d += 1
                    if y in ')]}': d -= 1
                    p.next()
                p.accept(','); continue
            at = None
            ty = p.type(); at = p.skip_attrs(); args.append(p.value(ty)); attrs.append(at); p.accept(',')
        ex = {'callee': callee, 'attrs': attrs}
        if op == 'invoke':
            while p.peek() != 'to': p.next()
            p.expect('to'); p.expect('label'); ex['ok'] = unq(p.next()[1:]); p.expect('unwind'); p.expect('label'); ex['uw'] = unq(p.next()[1:])
        return Ins(op, dst, rt, args, ex)
    if op == 'landingpad':
        t = p.type(); cl = []; cleanup = False
        while p.peek() is not None:
            x = p.next()
            if x == 'cleanup': cleanup = True
            elif x == 'catch': cl.append(('catch', p.tv()))
            elif x == 'filter': cl.append(('filter', p.tv()))
        return Ins(op, dst, t, [], (cleanup, cl))
    if op == 'resume':
        return Ins(op, None, None, [p.tv()])
    if op == 'unreachable':
        return Ins(op, None, None, [])
    if op == 'extractvalue':
        a = p.tv(); ix = []
        while p.accept(','): ix.append(int(p.next()))
        return Ins(op, dst, None, [a], ix)
    if op == 'insertvalue':
        a = p.tv(); p.expect(','); b = p.tv(); ix = []
        while p.accept(','): ix.append(int(p.next()))
        return Ins(op, dst, a.ty, [a, b], ix)
    if op == 'freeze':
        a = p.tv(); return Ins(op, dst, a.ty, [a])
    if op == 'atomicrmw':
        p.accept('volatile'); o = p.next(); a = p.tv(); p.expect(','); b = p.tv()
        return Ins(op, dst, b.ty, [a, b], o)
    if op == 'cmpxchg':
        p.accept('weak'); p.accept('volatile'); a = p.tv(); p.expect(','); b = p.tv(); p.expect(','); c = p.tv()
        return Ins(op, dst, b.ty, [a, b, c])
    if op == 'fence':
        return Ins(op, None, None, [])
    raise SyntaxError('ins %s' % op)


def succs(ins):
    if ins.op == 'br': return ins.x
    if ins.op == 'switch': return [ins.x[0]] + [l for _, l in ins.x[1]]
    if ins.op == 'invoke': return [ins.x['ok'], ins.x['uw']]
    return []


def find_loops(f):
    """natural loops: header -> set(body blocks)"""
    blocks = f.blocks; entry = f.entry
    succ = {b: list(dict.fromkeys(succs(blocks[b][-1]))) for b in blocks}
    order = []; seen = set()
    stack = [(entry, iter(succ[entry]))]; seen.add(entry)
    while stack:
        b, it = stack[-1]
        for s in it:
            if s not in seen:
                seen.add(s); stack.append((s, iter(succ[s]))); break
        else:
            order.append(b); stack.pop()
    rpo = order[::-1]; num = {b: i for i, b in enumerate(rpo)}
    pred = {b: [] for b in rpo}
    for b in rpo:
        for s in succ[b]:
            pred[s].append(b)
    idom = {entry: entry}
    ch = True
    while ch:
        ch = False
        for b in rpo:
            if b == entry: continue
            ps = [q for q in pred[b] if q in idom]
            if not ps: continue
            nd = ps[0]
            for q in ps[1:]:
                x, y = q, nd
                while x != y:
                    while num[x] > num[y]: x = idom[x]
                    while num[y] > num[x]: y = idom[y]
                nd = x
            if idom.get(b) != nd:
                idom[b] = nd; ch = True

    def dom(a, b):
        while True:
            if a == b: return True
            if b == entry: return False
            b = idom[b]
    loops = {}
    for b in rpo:
        for s in succ[b]:
            if dom(s, b):
                body = loops.setdefault(s, {s})
                st = [b]
                while st:
                    x = st.pop()
                    if x in body: continue
                    body.add(x)
                    st.extend(q for q in pred[x])
    return loops
