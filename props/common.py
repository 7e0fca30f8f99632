from symex import *
from models import *
import z3, re


def V64(x): return z3.BitVecVal(x, 64)


def with_globals(E):
    """state after running the static initialisers of the compiled sources"""
    st = State()
    save = (list(E.obls), E.npaths, dict(E.used_funcs), dict(E.used_models))
    fs = [f for f in E.mod.funcs.values() if f.name.startswith('_GLOBAL__sub_I_')]
    for f in fs:
        done = []
        E.start(st, f, [])
        E.run(st, lambda E, s, o: done.append((s, o)))
        if len(done) != 1: raise Unsupported('static initialisers fork')
        st = done[0][0]
    E.obls, E.npaths, E.used_funcs, E.used_models = save
    return st


def expect_ret(E, st, o, what='no exception escapes'):
    E.prove(st, z3.BoolVal(o[0] == 'ret'), what, 'post')
    return o[0] == 'ret'


def run(E, st, f, args, post):
    E.S.push()
    try:
        E.start(st, f, args)
        E.run(st, post)
    finally:
        E.S.pop()


def outermost(E, st, fr, label):
    """spec selector: loops not nested in another loop of the same function"""
    ls = fr.f.loops()
    return not any(h != label and label in b for h, b in ls.items())


def outer_of(rx):
    return lambda E, st, fr, label: re.search(rx, fr.f.dem) is not None and outermost(E, st, fr, label)


def sub(E, st, f, args, post):
    """nested client call on a copy of the state st (used inside a postcondition to run the inverse operation)"""
    save = getattr(E, "on_exit", None)
    E.S.push()
    try:
        s2 = st.copy(); s2.frames = []
        E.start(s2, f, args)
        E.run(s2, post)
    finally:
        E.S.pop()
        E.on_exit = save
