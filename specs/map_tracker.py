"""C09: MapTracker behaves as one atomic map."""
import z3
from scv.spec import *
from scv import guard
from scv.guard import Guarded, quiet, eqv, took_effect

SRCS = ['/verif/specs/inst/map_tracker.cpp']
INSTS = [('unsigned int', 'std::string'), ('unsigned long', 'std::string'), ('unsigned long', 'std::shared_ptr<int>')]
ASSUMPTIONS = ["verified for the key/value types the repository instantiates (buffer pointers represented by shared_ptr<int>)"]
MUTEX = ('std::mutex', 'std::shared_timed_mutex', 'std::shared_mutex', 'std::recursive_mutex', 'std::timed_mutex')


def leafterms(e, st, p, t):
    ts = []
    with quiet(e):
        for o, l, v in e.read_val(st, p, t):
            ts += e.pack_leaf(st, l, v)
    return ts


def arrs(m):
    return [a for o, l, aa in m.leaves for a in aa]


def with_key(m, v, k, terms):
    """v is m with k mapped to terms"""
    q = z3.Const('q', m.dom.sort().domain())
    fs = [z3.Select(v.dom, q) == z3.Or(q == k, z3.Select(m.dom, q))]
    for a, b, t in zip(arrs(m), arrs(v), terms):
        fs.append(z3.Implies(z3.Select(v.dom, q), z3.Select(b, q) == z3.If(q == k, t, z3.Select(a, q))))
    return z3.And(z3.ForAll([q], z3.And(fs)), toz(v.card) == toz(m.card) + z3.If(z3.Select(m.dom, k), 0, 1))


def without_key(m, v, k):
    q = z3.Const('q', m.dom.sort().domain())
    fs = [z3.Select(v.dom, q) == z3.And(q != k, z3.Select(m.dom, q))]
    for a, b in zip(arrs(m), arrs(v)):
        fs.append(z3.Implies(z3.Select(v.dom, q), z3.Select(b, q) == z3.Select(a, q)))
    return z3.And(z3.ForAll([q], z3.And(fs)), toz(v.card) == toz(m.card) - z3.If(z3.Select(m.dom, k), 1, 0))


def is_empty(v):
    q = z3.Const('q', v.dom.sort().domain())
    return z3.And(z3.ForAll([q], z3.Not(z3.Select(v.dom, q))), toz(v.card) == 0)


class MT(FnSpec):
    meth = None

    def __init__(self, kt, vt):
        self.kt, self.vt = kt, vt
        self.mt = 'scalopus::MapTracker<%s, %s>' % (kt, vt)
        self.map_t = 'std::unordered_map<%s, %s>' % (kt, vt)
        self.qual = 'scalopus::MapTracker::' + self.meth
        self.title = 'MapTracker<%s,%s>::%s' % (kt, vt, self.meth)

    def pred(self, s):
        return norm(s.cls) == self.mt

    def state(self, e, st):
        fs = e.L.all_fields(self.mt)
        maps = [(o, norm(t)) for o, t, f in fs if norm(t) in (self.map_t, 'std::map<%s, %s>' % (self.kt, self.vt))]
        mus = [(o, t, f) for o, t, f in fs if norm(t) in MUTEX]
        if len(mus) > 1:
            mus = [m for m in mus if m[2] == 'mutex_']
        if len(maps) != 1 or len(mus) != 1:
            raise Unsupported("MapTracker representation changed")
        this = e.new_obj(st, 'tracker', 'param', self.mt)
        g = Guarded('table', e.shift(this, maps[0][0]), maps[0][1], e.shift(this, mus[0][0]), effect=getattr(self, 'effect', None), effect_name=getattr(self, 'effect_name', None))
        g.fresh(e, st)
        guard.install(e, [g])
        self.g = g
        k = e.new_obj(st, 'key', 'param', self.kt)
        with quiet(e):
            self.k = e.key_at(st, self.kt, k)
        return this, k

    def exc_ok(self, e, o, env):
        return False

    def post(self, e, o, env):
        st = o.st
        if self.g.effect is not None:
            took_effect(e, st, self.g)
        else:
            e.oblige(st, 'table.pre' in st.ghost, "the operation looks at the table")
            e.oblige(st, not st.held, "no mutex is left locked")


class Insert(MT):
    meth, nparams = 'insert', 2
    effect_name = "insert sets exactly the given key to the given value"

    def setup(self, e, st):
        this, k = self.state(e, st)
        v = e.new_obj(st, 'value', 'param', self.vt)
        self.vts = leafterms(e, st, v, self.vt)
        return [this, k, v], {}

    def effect(self, e, st, pre, v):
        return with_key(pre, v, self.k, self.vts)


class Erase(MT):
    meth, nparams = 'erase', 1
    effect_name = "erase removes exactly the given key"

    def setup(self, e, st):
        return list(self.state(e, st)), {}

    def effect(self, e, st, pre, v):
        return without_key(pre, v, self.k)


class Clear(MT):
    meth, nparams = 'clear', 0
    effect_name = "clear removes everything"

    def setup(self, e, st):
        return [self.state(e, st)[0]], {}

    def effect(self, e, st, pre, v):
        return is_empty(v)


class Exists(MT):
    meth, nparams = 'exists', 1

    def setup(self, e, st):
        return list(self.state(e, st)), {}

    def post(self, e, o, env):
        MT.post(self, e, o, env)
        pre = o.st.ghost.get('table.pre')
        if pre is not None:
            e.oblige(o.st, tob(e.to_bool(o.ret)) == z3.Select(pre.dom, self.k), "existence query reports whether the key is present")


class GetValue(MT):
    meth, nparams = 'getValue', 1

    def setup(self, e, st):
        this, k = self.state(e, st)
        out = e.new_obj(st, 'result', 'param')
        return [out, this, k], dict(out=out)

    def exc_ok(self, e, o, env):
        pre = o.st.ghost.get('table.pre')
        e.oblige(o.st, o.exc.type == 'std::out_of_range', "an absent key raises out_of_range")
        e.oblige(o.st, not o.st.held, "no mutex is left locked")
        return False if pre is None else z3.Not(z3.Select(pre.dom, self.k))

    def post(self, e, o, env):
        MT.post(self, e, o, env)
        pre = o.st.ghost.get('table.pre')
        if pre is None:
            return
        e.oblige(o.st, z3.Select(pre.dom, self.k), "a value is only returned for a present key")
        for x, a in zip(leafterms(e, o.st, env['out'], self.vt), arrs(pre)):
            e.oblige(o.st, x == z3.Select(a, self.k), "the value returned is the one stored under the key")


class GetMap(MT):
    meth, nparams = 'getMap', 0

    def setup(self, e, st):
        this, k = self.state(e, st)
        out = e.new_obj(st, 'result', 'param')
        return [out, this], dict(out=out)

    def post(self, e, o, env):
        MT.post(self, e, o, env)
        pre = o.st.ghost.get('table.pre')
        if pre is not None:
            with quiet(e):
                v = e.get_abs(o.st, env['out'], self.map_t)
            e.oblige(o.st, eqv(pre, v), "the copy returned is the table's contents")


def c09(tier):
    P = Program(SRCS)
    return verify_all(P, [S(*i) for i in INSTS for S in (Insert, Erase, Clear, Exists, GetValue, GetMap)], tier)
