"""Symbolic values.  Scalars are Python ints / z3 Int terms (canonical unsigned), i1 are Python bools / z3 Bools."""
import z3

_ForAll = z3.ForAll


def _has_ite(t):
    todo = [t]
    while todo:
        x = todo.pop()
        if z3.is_app_of(x, z3.Z3_OP_ITE) or z3.is_quantifier(x):
            return True
        todo += x.children()
    return False


def _forall(vs, body, patterns=None, **kw):
    """ForAll that leaves out patterns the solver cannot use"""
    if patterns:
        ok = [p for p in patterns if not _has_ite(p)]
        if ok:
            try:
                return _ForAll(vs, body, patterns=ok, **kw)
            except z3.Z3Exception:
                pass
    return _ForAll(vs, body, **kw)


z3.ForAll = _forall
from .types import norm, targs, tbase, SCALARS

Blob = z3.DeclareSort('Blob')           # identity (= content) of a byte string
JSort = z3.DeclareSort('Json')
FSort = z3.DeclareSort('Float')
blen = z3.Function('blen', Blob, z3.IntSort())
barr = z3.Function('barr', Blob, z3.ArraySort(z3.IntSort(), z3.IntSort()))
IntS = z3.IntSort()
BoolS = z3.BoolSort()


class Unsupported(Exception):
    pass


_ctr = [0]


def fresh(name, sort=IntS):
    _ctr[0] += 1
    return z3.Const("%s!%d" % (name, _ctr[0]), sort)


def const_names(x):
    seen, names, todo = set(), set(), [x]
    while todo:
        t = todo.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_const(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            names.add(t.decl().name())
        todo += t.children()
    return names


def isz(x):
    return isinstance(x, z3.ExprRef)


def ite(c, a, b):
    if c is True:
        return a
    if c is False:
        return b
    if a is b:
        return a
    if isinstance(a, (int, bool)) and isinstance(b, (int, bool)) and a == b and type(a) == type(b):
        return a
    if isinstance(a, bool) or isinstance(b, bool) or (isz(a) and z3.is_bool(a)):
        return z3.If(c, tob(a), tob(b))
    a2, b2 = toz(a), toz(b)
    if a2.eq(b2):
        return a
    return z3.If(c, a2, b2)


def toz(x):
    if isinstance(x, bool):
        return z3.BoolVal(x)
    if isinstance(x, int):
        return z3.IntVal(x)
    return x


def tob(x):
    if isinstance(x, bool):
        return z3.BoolVal(x)
    return x


def same(a, b):
    if a is b:
        return True
    if isz(a) and isz(b):
        return a.eq(b)
    if isz(a) or isz(b):
        return False
    if isinstance(a, Abs) or isinstance(b, Abs):
        if type(a) is not type(b) or a.key() != b.key():
            return False
        return all(same(x, y) for x, y in zip(a.terms(), b.terms()))
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return type(a) == type(b) and a == b


class Abs:
    """abstract (immutable) value: terms()/rebuild() expose its z3 parts, key() its static shape"""

    def terms(self):
        return []

    def rebuild(self, ts):
        return self

    def key(self):
        return type(self).__name__

    def facts(self):
        return []


class Ptr(Abs):
    """P: concrete object + constant byte offset."""
    __slots__ = ("obj", "off")

    def __init__(self, obj, off=0):
        self.obj, self.off = obj, off

    def key(self):
        return ('P', self.obj, self.off)

    def __repr__(self):
        return "P(%s+%s)" % (self.obj, self.off) if self.obj is not None else "null"


NULL = Ptr(None, 0)


class EPtr(Abs):
    """element pointer: cont is a Ptr/EPtr to a container cell (or HEAP); idx symbolic; off constant inside element"""
    __slots__ = ("cont", "idx", "off")

    def __init__(self, cont, idx, off=0):
        self.cont, self.idx, self.off = cont, idx, off

    def key(self):
        return ('E', ckey(self.cont), self.off)

    def terms(self):
        return [toz(self.idx)] + (self.cont.terms() if isinstance(self.cont, EPtr) else [])

    def rebuild(self, ts):
        return EPtr(self.cont.rebuild(ts[1:]) if isinstance(self.cont, EPtr) else self.cont, ts[0], self.off)

    def __repr__(self):
        return "E(%s[%s]+%s)" % (self.cont, self.idx, self.off)


HEAP = 'HEAP'


def ckey(c):
    return c if isinstance(c, str) else c.key()


class MapIt(Abs):
    """iterator into a map or set: key, at-end flag, ghost set of already visited keys"""
    __slots__ = ("cont", "k", "end", "done")

    def __init__(self, cont, k, end, done=None):
        self.cont, self.k, self.end, self.done = cont, k, end, done

    def key(self):
        return ('It', ckey(self.cont), self.done is not None)

    def terms(self):
        r = [toz(self.k), tob(self.end)]
        if self.done is not None:
            r.append(self.done)
        if isinstance(self.cont, EPtr):
            r += self.cont.terms()
        return r

    def rebuild(self, ts):
        n = 3 if self.done is not None else 2
        return MapIt(self.cont.rebuild(ts[n:]) if isinstance(self.cont, EPtr) else self.cont, ts[0], ts[1],
                     ts[2] if n == 3 else None)

    def __repr__(self):
        return "It(%s,%s,end=%s)" % (self.cont, self.k, self.end)


class FnPtr(Abs):
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name

    def key(self):
        return ('fn', self.name)

    def __repr__(self):
        return "fn(%s)" % self.name


class VTab(Abs):
    """vtable pointer of an object; cls = static class if known"""
    __slots__ = ("ptr", "cls", "slot")

    def __init__(self, ptr, cls=None, slot=0):
        self.ptr, self.cls, self.slot = ptr, cls, slot

    def key(self):
        return ('vt', self.ptr.key(), self.cls, self.slot)


class VFn(Abs):
    __slots__ = ("ptr", "cls", "slot")

    def __init__(self, ptr, cls, slot):
        self.ptr, self.cls, self.slot = ptr, cls, slot

    def key(self):
        return ('vf', self.ptr.key(), self.cls, self.slot)


class Seq(Abs):
    """vector / string / raw array.  leaves: list of (off, leaftype, [arrays]); bytes have one leaf."""
    __slots__ = ("elem", "n", "leaves", "blob", "cst", "fixed", "table")

    def __init__(self, elem, n, leaves, blob=None, cst=None, fixed=False):
        self.table = None     # all elements, of a constant array
        self.elem, self.n, self.leaves, self.blob, self.cst, self.fixed = elem, n, leaves, blob, cst, fixed

    def key(self):
        return ('Seq', self.elem, self.fixed, tuple((o, t, len(a)) for o, t, a in self.leaves), self.blob is not None)

    def terms(self):
        r = [toz(self.n)]
        for o, t, a in self.leaves:
            r += a
        if self.blob is not None:
            r.append(self.blob)
        return r

    def rebuild(self, ts):
        n = ts[0]
        i = 1
        lv = []
        for o, t, a in self.leaves:
            lv.append((o, t, list(ts[i:i + len(a)])))
            i += len(a)
        return Seq(self.elem, n, lv, ts[i] if self.blob is not None else None, None, self.fixed)

    @property
    def arr(self):
        return self.leaves[0][2][0]

    def __repr__(self):
        return "Seq<%s>(n=%s%s)" % (self.elem, self.n, ",cst=%r" % self.cst if self.cst is not None else '')


class Map(Abs):
    __slots__ = ("kt", "vt", "dom", "card", "leaves", "kind")

    def __init__(self, kind, kt, vt, dom, card, leaves):
        self.kind, self.kt, self.vt, self.dom, self.card, self.leaves = kind, kt, vt, dom, card, leaves

    def key(self):
        return ('Map', self.kind, self.kt, self.vt)

    def terms(self):
        r = [self.dom, toz(self.card)]
        for o, t, a in self.leaves:
            r += a
        return r

    def rebuild(self, ts):
        i = 2
        lv = []
        for o, t, a in self.leaves:
            lv.append((o, t, list(ts[i:i + len(a)])))
            i += len(a)
        return Map(self.kind, self.kt, self.vt, ts[0], ts[1], lv)


class Ref(Abs):
    """shared_ptr / weak_ptr / unique_ptr / raw handle types: a pointer value"""
    __slots__ = ("kind", "t", "p")

    def __init__(self, kind, t, p):
        self.kind, self.t, self.p = kind, t, p

    def key(self):
        return ('Ref', self.kind, self.t, self.p.key())

    def terms(self):
        return self.p.terms()

    def rebuild(self, ts):
        return Ref(self.kind, self.t, self.p.rebuild(ts))

    def __repr__(self):
        return "%s(%s)" % (self.kind, self.p)


class Tok(Abs):
    """opaque library object with z3 parts (promise id, function id, thread handle, ...)"""
    __slots__ = ("kind", "parts", "meta")

    def __init__(self, kind, parts, meta=None):
        self.kind, self.parts, self.meta = kind, list(parts), meta

    def key(self):
        return ('Tok', self.kind, len(self.parts), self.meta if not isinstance(self.meta, dict) else tuple(sorted((k, str(v)) for k, v in self.meta.items())))

    def terms(self):
        return [toz(p) for p in self.parts]

    def rebuild(self, ts):
        return Tok(self.kind, ts, self.meta)

    def __repr__(self):
        return "Tok(%s,%s,%s)" % (self.kind, self.parts, self.meta)


class Closure(Abs):
    """std::function holding a known callable: functor object cells"""
    __slots__ = ("fn", "obj", "null")

    def __init__(self, fn, obj):
        self.fn, self.obj = fn, obj

    def key(self):
        return ('Clo', self.fn, self.obj)


BYTES = ('char', 'unsigned char', 'signed char', 'std::byte')


class TypeDB:
    def __init__(self, layouts):
        self.L = layouts
        self._lv = {}
        self._sorts = {}
        self.tuples = {}
        self.opaque = set()     # classes treated as one identity (all their members under contract)

    def kind(self, t):
        b = tbase(t)
        if t in self.opaque:
            return 'tok'
        if t in SCALARS or t.endswith('*') or t.endswith('&'):
            return 'scalar'
        if t == 'std::string':
            return 'seq'
        if b in ('std::vector', 'std::array', 'std::deque', 'std::list'):
            return 'seq'
        if b in ('std::map', 'std::unordered_map', 'std::set', 'std::unordered_set', 'std::multimap'):
            return 'map'
        if b in ('std::shared_ptr', 'std::weak_ptr', 'std::unique_ptr'):
            return 'ref'
        if b in ('std::promise', 'std::future', 'std::function', 'std::thread', 'std::__exception_ptr::exception_ptr', 'std::exception_ptr'):
            return 'tok'
        if b in ('nlohmann::json',):
            return 'json'
        if b in ('std::atomic', 'std::__atomic_base'):
            return 'scalar'
        if b in ('std::mutex', 'std::shared_timed_mutex', 'std::recursive_mutex', 'std::condition_variable', 'std::shared_mutex'):
            return 'mutex'
        if b in ('std::pair', 'std::tuple'):
            return 'prod'
        if t in self.L.records:
            return 'struct'
        if b.startswith('std::chrono'):
            return 'scalar'
        return 'enum?'

    def size(self, t):
        if t in SCALARS:
            return SCALARS[t]
        if t.endswith('*') or t.endswith('&'):
            return 8
        b = tbase(t)
        fixed = {'std::string': 32, 'std::vector': 24, 'std::map': 48, 'std::set': 48, 'std::unordered_map': 56,
                 'std::shared_ptr': 16, 'std::weak_ptr': 16, 'std::unique_ptr': 8, 'std::function': 32,
                 'std::promise': 24, 'std::future': 16, 'std::thread': 8, 'std::mutex': 40, 'nlohmann::json': 16,
                 'std::__exception_ptr::exception_ptr': 8}
        if b in fixed:
            return fixed[b]
        if b in ('std::atomic', 'std::__atomic_base'):
            return self.size(targs(t)[0])
        if b == 'std::pair':
            a, c = targs(t)
            o = self.align_up(self.size(a), self.align(c))
            return self.align_up(o + self.size(c), max(self.align(a), self.align(c)))
        r = self.L.records.get(t)
        if r is not None and r.size is not None:
            return r.size
        raise Unsupported("size of " + t)

    def align(self, t):
        if t in SCALARS:
            return SCALARS[t]
        if tbase(t) in ('std::atomic', 'std::__atomic_base'):
            return self.align(targs(t)[0])
        if tbase(t) == 'std::pair':
            a, c = targs(t)
            return max(self.align(a), self.align(c))
        if self.kind(t) == 'struct':
            return max([self.align(x) for _, x, _ in self.L.all_fields(t)] + ([8] if self.L.records[t].vptr else [1]))
        return 8

    @staticmethod
    def align_up(n, a):
        return (n + a - 1) // a * a

    def leaves(self, t):
        if t in self._lv:
            return self._lv[t]
        k = self.kind(t)
        if k == 'prod':
            if tbase(t) == 'std::pair':
                a, b = targs(t)
                o = self.align_up(self.size(a), self.align(b))
                r = self.leaves(a) + [(o + x, y) for x, y in self.leaves(b)]
            else:
                # libstdc++ tuples are laid out in reverse order
                r = []
                off = 0
                offs = {}
                for i, a in reversed(list(enumerate(targs(t)))):
                    off = self.align_up(off, self.align(a))
                    offs[i] = off
                    off += self.size(a)
                for i, a in enumerate(targs(t)):
                    r += [(offs[i] + x, y) for x, y in self.leaves(a)]
                r.sort()
        elif k == 'struct':
            r = []
            for off, ft, fn in self.L.all_fields(t):
                r += [(off + x, y) for x, y in self.leaves(ft)]
        elif k == 'mutex':
            r = []
        else:
            r = [(0, t)]
        self._lv[t] = r
        return r

    def sorts(self, t):
        """z3 sorts that a leaf of type t packs into"""
        if t in self._sorts:
            return self._sorts[t]
        k = self.kind(t)
        b = tbase(t)
        if t in ('double', 'float'):
            r = [FSort]
        elif k in ('scalar', 'ref', 'enum?'):
            r = [IntS]
        elif k == 'seq':
            e = 'char' if t == 'std::string' else targs(t)[0]
            if e in BYTES:
                r = [Blob]
            else:
                r = [IntS] + [z3.ArraySort(IntS, s) for s in self.flat_sorts(e)]
        elif k == 'map':
            ks = self.keysort(targs(t)[0])
            r = [z3.ArraySort(ks, BoolS), IntS]
            if b in ('std::map', 'std::unordered_map'):
                r += [z3.ArraySort(ks, s) for s in self.flat_sorts(targs(t)[1])]
        elif k == 'tok':
            r = [IntS]
        elif k == 'json':
            r = [JSort]
        else:
            raise Unsupported("sort of " + t)
        self._sorts[t] = r
        return r

    def flat_sorts(self, t):
        r = []
        for o, l in self.leaves(t):
            r += self.sorts(l)
        return r

    def keysort(self, t):
        fs = self.flat_sorts(t)
        if len(fs) == 1:
            return fs[0]
        if t not in self.tuples:
            self.tuples[t] = z3.TupleSort('K_' + t.replace(' ', '_'), fs)
        return self.tuples[t][0]

    def mkkey(self, t, terms):
        if len(terms) == 1:
            return terms[0]
        self.keysort(t)
        return self.tuples[t][1](*terms)

    def unkey(self, t, k):
        fs = self.flat_sorts(t)
        if len(fs) == 1:
            return [k]
        self.keysort(t)
        return [acc(k) for acc in self.tuples[t][2]]
