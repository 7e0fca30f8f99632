"""System calls with arbitrary results over ghost tables of open descriptors and mappings."""
from common import *

EINTR = 4


class Sys:
    def __init__(self, E, st):
        self.err = E.alloc(st, 8, 'errno'); st.mem[self.err.r].cells[0] = (4, E.fresh('errno', 32))
        st.ghost.update(fds=(), maps=(), calls=())
        E.local_models += [('__errno_location$', lambda E, st, a, ins: self.err), (r'open(64)?$', self.open), ('close$', self.close), ('fstat(64)?$', self.fstat), ('mmap(64)?$', self.mmap), ('munmap$', self.munmap)]
        E.loopspecs.append(LoopSpec(self.retry, name='retry loop', func=lambda E, st, fr, label: True))

    def retry(self, E, st, k, entry):
        return [('a retry leaves descriptors and mappings as they were', z3.BoolVal(st.ghost['fds'] == entry.ghost['fds'] and st.ghost['maps'] == entry.ghost['maps']))]

    def fail(self, E, st):
        E.storew(st, self.err, E.fresh('errno', 32), 4)

    def newfd(self, E, st):
        fd = E.fresh('fd', 32)
        E.assume(st, z3.And(fd >= 0, *[fd != f for f in st.ghost['fds']]))
        st.ghost['fds'] = st.ghost['fds'] + (fd,)
        return fd

    def open(self, E, st, a, ins):
        b = E.fresh('open.ok', 1)
        return Outcomes([(b, lambda E, s: self.newfd(E, s)), (z3.Not(b), lambda E, s: (self.fail(E, s), 0xffffffff)[1])])

    def owned(self, E, st, fd, what):
        """the descriptor must be one that is open; returns it"""
        for f in st.ghost['fds']:
            if not isint(fd) and fd.eq(f): return f
        E.prove(st, z3.BoolVal(False), what + ' is applied to a descriptor that is open', 'resource')
        return None

    def close(self, E, st, a, ins):
        f = self.owned(E, st, a[0] if isint(a[0]) else simp(a[0]), 'close')
        if f is not None: st.ghost['fds'] = tuple(x for x in st.ghost['fds'] if not x.eq(f))
        r = E.fresh('close.result', 32); self.fail(E, st)
        return r

    def fstat(self, E, st, a, ins):
        f = self.owned(E, st, a[0] if isint(a[0]) else simp(a[0]), 'fstat')
        b = E.fresh('fstat.ok', 1)
        def ok(E, s):
            n = E.fresh('st_size'); E.assume(s, z3.And(n >= 0, n < (1 << 46)))
            E.storew(s, Ptr(a[1].r, add64(a[1].o, 48)), n, 8)
            s.ghost['size'] = dict(s.ghost.get('size', {}), **{str(f): n})
            return 0
        return Outcomes([(b, ok), (z3.Not(b), lambda E, s: (self.fail(E, s), 0xffffffff)[1])])

    def mmap(self, E, st, a, ins):
        f = self.owned(E, st, a[4] if isint(a[4]) else simp(a[4]), 'mmap')
        ln = b64(a[1])
        E.prove(st, z3.BoolVal(f is not None and str(f) in st.ghost.get('size', {})), 'the size of the file is known when it is mapped', 'resource')
        if f is not None and str(f) in st.ghost.get('size', {}): E.prove(st, ln == st.ghost['size'][str(f)], 'the whole file is mapped')
        E.prove(st, z3.BoolVal(isint(a[5]) and a[5] == 0) if isint(a[5]) else b64(a[5]) == 0, 'mapped from its beginning')
        E.prove(st, z3.BoolVal(isint(a[2]) and a[2] & 3 == 3 and isint(a[3]) and a[3] & 3 == 1), 'shared, readable and writable')
        b = E.fresh('mmap.ok', 1)
        def ok(E, s):
            E.assume(s, ln != 0)
            p = E.alloc(s, 1 << 47, 'mapping'); s.ghost['maps'] = s.ghost['maps'] + ((p.r, ln, f),)
            E.assume(s, z3.And(E.addr(p.r) != -1, E.addr(p.r) != 0))
            return Ptr(p.r, 0)
        return Outcomes([(b, ok), (z3.Not(b), lambda E, s: (self.fail(E, s), Ptr(None, (1 << 64) - 1))[1])])

    def munmap(self, E, st, a, ins):
        p = a[0]; m = [x for x in st.ghost['maps'] if isinstance(p, Ptr) and x[0] == p.r]
        E.prove(st, z3.BoolVal(len(m) == 1 and isint(p.o) and p.o == 0), 'munmap is applied to a live mapping', 'resource')
        if m:
            E.prove(st, b64(a[1]) == m[0][1], 'the whole mapping is released', 'resource')
            st.ghost['maps'] = tuple(x for x in st.ghost['maps'] if x[0] != p.r)
        r = E.fresh('munmap.result', 32); self.fail(E, st)
        return r
