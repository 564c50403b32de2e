"""Monitor discipline: data guarded by a mutex.

Whoever acquires the mutex finds an arbitrary value of the guarded data (any other thread may have changed it before),
nobody may touch the data without the mutex, and only an exclusive holder may change it. Each critical section that
changes the data must be one application of the operation under contract (`effect`), and at most one section of a call
may change it: the operation is atomic. Sections that change nothing are free.
"""
import contextlib
import z3
from .vals import *
from .engine import *
from .lib_std import mkey


@contextlib.contextmanager
def quiet(e):
    h, e.on_access = e.on_access, None
    try:
        yield
    finally:
        e.on_access = h


def eqv(a, b, ks=None):
    """equality of abstract values (maps: extensionally)"""
    if isinstance(a, Map):
        q = z3.Const('q', a.dom.sort().domain())
        fs = [z3.Select(a.dom, q) == z3.Select(b.dom, q)]
        for (o, l, x), (_, _, y) in zip(a.leaves, b.leaves):
            for p, r in zip(x, y):
                fs.append(z3.Implies(z3.Select(a.dom, q), z3.Select(p, q) == z3.Select(r, q)))
        return z3.And(z3.ForAll([q], z3.And(fs)), toz(a.card) == toz(b.card))
    if isinstance(a, Seq):
        j = z3.Const('j', IntS)
        fs = [toz(a.n) == toz(b.n)]
        for (o, l, x), (_, _, y) in zip(a.leaves, b.leaves):
            for p, r in zip(x, y):
                fs.append(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < toz(a.n)), z3.Select(p, j) == z3.Select(r, j))))
        return z3.And(fs)
    if isinstance(a, Abs):
        return z3.And([x == y for x, y in zip(a.terms(), b.terms())]) if a.key() == b.key() else False
    return toz(a) == toz(b)


class Guarded:
    def __init__(self, name, ptr, t, mutex, inv=None, rely=None, effect=None, effect_name=None, size=None, also=(), change=None):
        self.name, self.ptr, self.t, self.mutex = name, ptr, t, mutex
        self.inv, self.effect, self.effect_name = inv, effect, effect_name
        self.size = size
        self.rely = rely           # what the caller may additionally count on when it gets the mutex
        self.change = change       # own check of what a critical section did: f(e, st, pre, v)
        self.also = also           # further (ptr, type) parts guarded by the same mutex

    def held(self, st):
        return st.held.get(mkey(self.mutex))

    def covers(self, e, p):
        while isinstance(p, EPtr) and p.cont != HEAP:
            p = p.cont
        if isinstance(self.ptr, Ptr):
            return isinstance(p, Ptr) and p.obj == self.ptr.obj and self.ptr.off <= p.off < self.ptr.off + (self.size or e.T.size(self.t))
        return False

    def value(self, e, st):
        with quiet(e):
            return e.get_abs(st, self.ptr, self.t)

    def fresh(self, e, st):
        with quiet(e):
            v = e.fresh_leaf(st, self.t, self.name + '!sec%d' % next_id())
            e.put_abs(st, self.ptr, v, self.t)
            if isinstance(v, Map):
                e.map_facts(st, v)
            if isinstance(v, Seq):
                st.fact(z3.And(toz(v.n) >= 0, toz(v.n) < 2 ** 62))      # max_size()
            if self.inv is not None:
                st.fact(self.inv(v))
        return v


_n = [0]


def next_id():
    _n[0] += 1
    return _n[0]


def install(e, guards):
    def access(e, st, p, write, what):
        for g in guards:
            if g.covers(e, p):
                m = g.held(st)
                e.oblige(st, m is not None, "%s is only accessed with its mutex held" % g.name)
                if write:
                    e.oblige(st, m == 'ex' or m is None, "%s is only changed with its mutex held exclusively" % g.name)

    def lock(e, st, p, mode):
        for g in guards:
            if mkey(p) == mkey(g.mutex):
                v = g.fresh(e, st)
                if g.rely is not None:
                    st.fact(g.rely(v))
                st.ghost[g.name + '.pre'] = v
                st.ghost.setdefault(g.name + '.mod', z3.BoolVal(False))

    def unlock(e, st, p, mode):
        for g in guards:
            if mkey(p) == mkey(g.mutex) and mode is not None:
                v, pre = g.value(e, st), st.ghost[g.name + '.pre']
                if g.change is not None:
                    g.change(e, st, pre, v)
                elif not same(v, pre):
                    if g.effect is None:
                        e.oblige(st, eqv(pre, v), "%s is not changed" % g.name)
                    else:
                        e.oblige(st, z3.Not(st.ghost[g.name + '.mod']), "%s changes in one critical section only" % g.name)
                        e.oblige(st, g.effect(e, st, pre, v), g.effect_name)
                        st.ghost[g.name + '.mod'] = z3.BoolVal(True)
                if g.inv is not None:
                    e.oblige(st, g.inv(v), "invariant of %s at unlock" % g.name)
    e.on_access, e.on_lock, e.on_unlock = access, lock, unlock


def took_effect(e, st, g):
    """at the end of the call: the operation took effect, or its effect on the contents seen was nil"""
    pre = st.ghost.get(g.name + '.pre')
    e.oblige(st, pre is not None, "%s: the operation looks at the table" % g.name)
    if pre is not None:
        e.oblige(st, z3.Or(st.ghost[g.name + '.mod'], g.effect(e, st, pre, pre)), "took effect: " + g.effect_name)
    e.oblige(st, not st.held, "no mutex is left locked")
