"""Assumed contracts of output string streams (width 0, default state) and of the C-locale character classes."""
from common import *

OS_ASSUME = 'ostringstream/ostream insertion appends the character or string (C++ library contract, default width, no allocation failure)'
CT_ASSUME = 'isalnum/isalpha/isdigit/isxdigit/isspace/tolower/toupper are those of the C locale and accept -128..255 (glibc)'
ESTR = lambda E: cstring(b'').with_(kind='os', gen=0)


def osget(E, st, p):
    s = E.obj(st, p, 'output stream')
    if not isinstance(s, Seq): raise Unsupported('not an output stream')
    return s


def osset(E, st, p, s): E.setobj(st, p, s.with_(kind='os'), 112)


def ostream_models():
    R = r'std::(__cxx11::)?basic_o?stringstream<char.*>::'
    def ctor(E, st, a, ins): osset(E, st, a[0], ESTR(E))
    def sstr(E, st, a, ins): sset(E, st, a[0], osget(E, st, a[1]))
    def putc(E, st, a, ins): osset(E, st, a[0], osget(E, st, a[0]).push(a[1])); return a[0]
    def puts(E, st, a, ins): osset(E, st, a[0], osget(E, st, a[0]).cat(cstr_seq(E, st, a[1]))); return a[0]
    def putstr(E, st, a, ins): osset(E, st, a[0], osget(E, st, a[0]).cat(sget(E, st, a[1]))); return a[0]
    def write(E, st, a, ins): osset(E, st, a[0], osget(E, st, a[0]).cat(bufseq(E, st, a[1], a[2]))); return a[0]
    def endl(E, st, a, ins): osset(E, st, a[0], osget(E, st, a[0]).push(10)); return a[0]
    return [(R + r'basic_o?stringstream\((std::_Ios_Openmode)?\)', ctor), (R + r'~', nop), (R + r'str\(\) const', sstr),
            (r'.*std::operator<<.*\(std::(basic_)?ostream.*&, (unsigned |signed )?char\)$', putc), (r'.*std::operator<<.*\(std::(basic_)?ostream.*&, char const\*\)$', puts),
            (r'.*std::operator<<.*\(std::(basic_)?ostream.*&, std::(__cxx11::)?basic_string.*\)$', putstr), (r'std::(basic_)?ostream.*::put\(char\)', putc), (r'std::(basic_)?ostream.*::write\(char const\*, long\)', write),
            (r'.*std::endl<', endl), (r'std::(basic_)?ostream.*::flush\(\)', lambda E, st, a, ins: a[0])]


def rng(c, a, b): return z3.And(z3.UGE(c, a), z3.ULE(c, b))
def c_lower(c): return rng(c, 97, 122)
def c_upper(c): return rng(c, 65, 90)
def c_alpha(c): return z3.Or(c_lower(c), c_upper(c))
def c_digit(c): return rng(c, 48, 57)
def c_alnum(c): return z3.Or(c_alpha(c), c_digit(c))
def c_xdigit(c): return z3.Or(c_digit(c), rng(c, 97, 102), rng(c, 65, 70))
def c_space(c): return z3.Or(c == 32, rng(c, 9, 13))


def ctype_models():
    def cls(pred):
        def m(E, st, a, ins):
            c = bv(a[0], 32)
            E.prove(st, z3.And(c >= -128, c <= 255), 'character class of a character value', 'pre')
            nz = E.fresh('ctype', 32); E.assume(st, nz != 0)
            v = z3.Extract(7, 0, c)
            return simp(z3.If(z3.And(pred(v), z3.ULT(c, 128)), nz, z3.BitVecVal(0, 32)))
        return m
    def conv(pred, d):
        def m(E, st, a, ins):
            c = bv(a[0], 32)
            E.prove(st, z3.And(c >= -128, c <= 255), 'case conversion of a character value', 'pre')
            return simp(z3.If(z3.And(pred(z3.Extract(7, 0, c)), z3.ULT(c, 128)), c + d, c))
        return m
    return [('isalnum$', cls(c_alnum)), ('isalpha$', cls(c_alpha)), ('isdigit$', cls(c_digit)), ('isxdigit$', cls(c_xdigit)), ('isspace$', cls(c_space)), ('isupper$', cls(c_upper)), ('islower$', cls(c_lower)), ('tolower$', conv(c_upper, 32)), ('toupper$', conv(c_lower, -32))]


def cursor(L):
    """loop variable relation for scanning loops: a variable that does not advance uniformly has advanced by L(k) (32- or 64-bit index, or pointer)"""
    def rel(E, st, k, entry, init, cur, steps):
        out = []
        for n, v in cur.items():
            if n in steps: continue
            if isinstance(v, Ptr): out.append(b64(v.o) == b64(init[n].o) + L(b64(k)))
            elif not isint(v) and isinstance(v, z3.BitVecRef) and v.size() in (32, 64):
                w = v.size(); out.append(v == bv(init[n], w) + (L(b64(k)) if w == 64 else z3.Extract(31, 0, L(b64(k)))))
        return out
    return rel
