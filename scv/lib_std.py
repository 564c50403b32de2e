"""Assumed contracts of the C++ standard library and of libc (trusted: listed in the evidence of every run)."""
import re
import z3
from .vals import *
from . import types as T
from .types import tbase, targs, norm
from .engine import Outcome, Exc, NullDeref, State, HEAPMAX
from .exec import NoMerge

H = {}


def reg(*names):
    def d(f):
        for n in names:
            H[n] = f
        return f
    return d


def ty_of(c):
    """class type of the receiver"""
    return c.sig.cls


def elem_of(t):
    return 'char' if t == 'std::string' else targs(t)[0]


def getseq(c, st, p, t=None):
    v = c.eng.get_abs(st, p, t or ty_of(c))
    if not isinstance(v, Seq):
        raise Unsupported("%r is not a sequence" % (v,))
    return v


def mk(c, elem, n, leaves, **kw):
    return Seq(elem, n, leaves, **kw)


def seq_t(elem):
    return 'std::string' if elem == 'char' else 'std::vector<%s>' % elem


def put(c, st, p, v, t=None):
    c.eng.put_abs(st, p, v, t)


def drop(c, st, p):
    """end of lifetime"""
    e = c.eng
    if isinstance(p, Ptr) and p.obj in st.mem:
        o = st.mem[p.obj]
        if p.off in o.cells:
            cells = dict(o.cells)
            del cells[p.off]
            st.mem[p.obj] = o.with_cells(cells)


def excs(st, t, **info):
    return Outcome(st, None, Exc(t, None, info))


def maythrow(c, st, cond, exc, val):
    """outcomes: exc when cond holds, otherwise val (a function of the remaining state)"""
    e = c.eng
    if cond is False:
        return [Outcome(st, val(st))]
    if cond is True:
        return [excs(st, exc)]
    r = []
    for s, b in e.split(st, cond, True, False):
        if b:
            r.append(excs(s, exc))
        else:
            r.append(Outcome(s, val(s)))
    return r


# ---------------------------------------------------------------------------------------------- byte strings
def cstr(c, st, p):
    """C string at p -> Seq"""
    e = c.eng
    if isinstance(p, Ptr) and p.obj is None:
        raise NullDeref()
    if isinstance(p, Ptr):
        o = e.obj(st, p)
        s = e.find_seq(o, p.off)
        if s and s[1].cst is not None:
            b = s[1].cst[p.off - s[0]:]
            z = b.find(b'\0')
            if z >= 0:
                return e.literal(st, bytes(b[:z]))
        if s:
            p = EPtr(Ptr(p.obj, s[0]), p.off - s[0], 0)
    if isinstance(p, EPtr) and p.cont == HEAP:
        # unknown C string: content is a function of the address
        f = z3.Function('cstr_at', IntS, Blob)
        bl = f(toz(e.ptr_to_int(p)))
        return e.unpack_leaf(st, 'std::string', [bl])
    if isinstance(p, EPtr):
        ct = e.peek_cont(st, p.cont)
        if isinstance(ct, Seq) and ct.elem in BYTES:
            if ct.blob is not None and not ct.fixed and isinstance(p.idx, int) and p.idx == 0:
                ps = pieces(e, st, ct)
                if all((b'\0' not in x) if isinstance(x, bytes) else x.get_id() in getattr(e, '_nozero', ()) for x in ps):
                    return ct
            if ct.cst is not None and isinstance(p.idx, int):
                b = ct.cst[p.idx:]
                z = b.find(b'\0')
                if z >= 0:
                    return e.literal(st, bytes(b[:z]))
                if not ct.fixed:
                    return e.literal(st, bytes(b))
            i0 = toz(p.idx)
            n = fresh('strlen')
            k = z3.Const('k', IntS)
            arr = fresh('cstr', z3.ArraySort(IntS, IntS))
            st.fact(z3.And(n >= 0, i0 + n <= toz(ct.n)))
            st.fact(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < n), z3.And(z3.Select(arr, k) == z3.Select(ct.arr, i0 + k), z3.Select(arr, k) != 0)), patterns=[z3.Select(arr, k)]))
            # terminated at n: std::string buffers have an implicit terminator at their size
            if ct.fixed:
                st.fact(z3.Select(ct.arr, i0 + n) == 0)
            else:
                st.fact(z3.Or(i0 + n == toz(ct.n), z3.Select(ct.arr, i0 + n) == 0))
            if not ct.fixed and isinstance(p.idx, int) and p.idx == 0:
                # c_str() of a whole string without embedded zeros
                return Seq('char', n, [(0, 'char', [arr])])
            return Seq('char', n, [(0, 'char', [arr])])
    raise Unsupported("C string at %r" % (p,))


def pieces(e, st, v):
    """normal form of a string built by concatenation: literals (bytes) and atoms (Blob)"""
    if v.cst is not None:
        return [v.cst]
    b = e.blob_of(st, v)
    if not hasattr(e, '_pieces'):
        e._pieces = {}
    r = e._pieces.get(b.get_id())
    if r is not None:
        return r[1]
    for k, l in e.literals.items():
        if l.eq(b):
            return [k]
    return [b]


def concat(c, st, a, b, elem='char'):
    e = c.eng
    ps = []
    for x in pieces(e, st, a) + pieces(e, st, b):
        if x == b'' if isinstance(x, bytes) else False:
            continue
        if isinstance(x, bytes) and ps and isinstance(ps[-1], bytes):
            ps[-1] = ps[-1] + x
        else:
            ps.append(x)
    if not ps:
        return e.literal(st, b'')
    if len(ps) == 1:
        if isinstance(ps[0], bytes):
            return e.literal(st, ps[0])
        return e.unpack_leaf(st, 'std::string', [ps[0]])
    f = z3.Function('bcat', Blob, Blob, Blob)
    bl = [e.literal(st, x).blob if isinstance(x, bytes) else x for x in ps]
    r = bl[-1]
    for x in reversed(bl[:-1]):
        r = f(x, r)
    e._pieces[r.get_id()] = (r, ps)
    k = z3.Const('k', IntS)
    # content by pieces
    tot = z3.IntVal(0)
    body = z3.Select(barr(bl[-1]), k - z3.Sum([blen(x) for x in bl[:-1]]))
    offs = []
    for x in bl:
        offs.append(tot)
        tot = tot + blen(x)
    for x, o in reversed(list(zip(bl[:-1], offs[:-1]))):
        body = z3.If(k < o + blen(x), z3.Select(barr(x), k - o), body)
    st.fact(blen(r) == tot)
    st.fact(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < tot), z3.Select(barr(r), k) == body), patterns=[z3.Select(barr(r), k)]))
    return Seq(elem, blen(r), [(0, elem, [barr(r)])], blob=r)


def beq(c, st, a, b):
    """content equality of two byte sequences"""
    e = c.eng
    if a.cst is not None and b.cst is not None:
        return a.cst == b.cst
    x, y = e.blob_of(st, a), e.blob_of(st, b)
    if x.eq(y):
        return True
    r = fresh('streq', BoolS)
    k = z3.Const('k', IntS)
    st.fact(z3.Implies(x == y, r))
    # extensionality: r <-> same length and same bytes; blobs are identified by content
    st.fact(z3.Implies(r, z3.And(toz(a.n) == toz(b.n), x == y)))
    if a.cst is not None or b.cst is not None:
        l, o = (a, b) if a.cst is not None else (b, a)
        same_bytes = z3.And([toz(o.n) == len(l.cst)] + [z3.Select(o.arr, i) == ch for i, ch in enumerate(l.cst[:64])])
        st.fact(r == same_bytes)
    else:
        w = fresh('strdiff')
        st.fact(z3.Implies(z3.Not(r), z3.Or(toz(a.n) != toz(b.n), z3.And(w >= 0, w < toz(a.n), z3.Select(a.arr, w) != z3.Select(b.arr, w)))))
    return r


BSUB = z3.Function('bsub', Blob, IntS, IntS, Blob)


def bsub_term(b, pos, n):
    """name of a part of a byte string; a part of a part is a part of the whole"""
    pos = toz(pos)
    if z3.is_app(b) and b.decl().eq(BSUB):
        b, pos = b.arg(0), z3.simplify(b.arg(1) + pos)
    return BSUB(b, pos, z3.simplify(toz(n)))


def substr_seq(c, st, s, pos, n, elem='char'):
    """s[pos, pos+n) assuming bounds"""
    e = c.eng
    if s.cst is not None and isinstance(pos, int) and isinstance(n, int):
        return e.literal(st, s.cst[pos:pos + n])
    if isinstance(pos, int) and pos == 0 and same(toz(n), toz(s.n)):
        return s
    r = bsub_term(e.blob_of(st, s), pos, n)
    k = z3.Const('k', IntS)
    st.fact(blen(r) == toz(n))
    st.fact(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < toz(n)), z3.Select(barr(r), k) == z3.Select(s.arr, toz(pos) + k)),
                      patterns=[z3.Select(barr(r), k)]))
    st.fact(z3.ForAll([k], z3.Implies(z3.And(k >= toz(pos), k < toz(pos) + toz(n)), z3.Select(s.arr, k) == z3.Select(barr(r), k - toz(pos))),
                      patterns=[z3.Select(s.arr, k)]))
    return Seq(elem, blen(r), [(0, elem, [barr(r)])], blob=r)


@reg('std::basic_string::basic_string')
def _str_ctor(c, st):
    e = c.eng
    this, a = c.args[0], c.args[1:]
    pr = c.sig.params
    # drop trailing allocator arguments
    while pr and 'allocator' in pr[-1] and not pr[-1].startswith('std::string'):
        pr = pr[:-1]
    a = a[:len(pr)]
    if not pr:
        v = e.empty_of(st, 'std::string')
    elif pr[0] in ('std::string&', 'std::string&&', 'std::string const&') and len(pr) == 1:
        v = getseq(c, st, a[0], 'std::string')
        put(c, st, this, v, 'std::string')
        if pr[0].endswith('&&'):
            put(c, st, a[0], e.empty_of(st, 'std::string'), 'std::string')
        return None
    elif pr[0] in ('char*', 'char const*') and len(pr) == 1:
        v = cstr(c, st, a[0])
    elif pr[0] in ('char*', 'char const*') and pr[1] == 'unsigned long':
        r = e.byte_region(st, a[0])
        e.oblige(st, z3.And(toz(r[2]) >= 0, toz(r[2]) + toz(a[1]) <= toz(r[1].n)), "string constructor reads within bounds")
        v = substr_seq(c, st, Seq('char', r[1].n, [(0, 'char', [r[1].arr])], r[1].blob, r[1].cst), r[2], a[1])
    elif pr[0] == 'unsigned long' and pr[1] == 'char':
        arr = z3.K(IntS, toz(a[1]))
        v = Seq('char', a[0], [(0, 'char', [arr])])
    elif pr[0].startswith('std::string') and len(pr) >= 2 and pr[1] == 'unsigned long':
        s = getseq(c, st, a[0], 'std::string')
        n = a[2] if len(pr) > 2 else None
        return substr_common(c, st, s, a[1], n, lambda st2, x: put(c, st2, this, x, 'std::string'))
    elif len(pr) == 2 and ('__normal_iterator' in pr[0] or pr[0] == pr[1]):
        v = range_seq(c, st, a[0], a[1], 'char')
    else:
        raise Unsupported("string constructor %s" % pr)
    put(c, st, this, v, 'std::string')


def range_seq(c, st, b, en, elem):
    e = c.eng
    if not (isinstance(b, EPtr) and isinstance(en, EPtr) and ckey(b.cont) == ckey(en.cont)):
        if isinstance(b, Ptr) and isinstance(en, (Ptr, EPtr)):
            b2, e2 = e.to_eptr(st, b), e.to_eptr(st, en) if isinstance(en, Ptr) else en
            if b2 is not None and e2 is not None:
                b, en = b2, e2
            else:
                raise Unsupported("iterator range")
        else:
            raise Unsupported("iterator range")
    s = e.peek_cont(st, b.cont)
    e.oblige(st, z3.And(toz(b.idx) >= 0, toz(b.idx) <= toz(en.idx), toz(en.idx) <= toz(s.n)), "valid iterator range")
    n = z3.simplify(toz(en.idx) - toz(b.idx))
    n = n.as_long() if z3.is_int_value(n) else n
    if s.elem in BYTES and elem in BYTES:
        return substr_seq(c, st, s, b.idx, n, elem)
    if s.elem != elem:
        raise Unsupported("range of %s as %s" % (s.elem, elem))
    return sub_any(c, st, s, b.idx, n)


def sub_any(c, st, s, pos, n):
    """generic subsequence"""
    if isinstance(pos, int) and pos == 0:
        return Seq(s.elem, n, s.leaves)
    k = z3.Const('k', IntS)
    lv = []
    for o, l, a in s.leaves:
        na = []
        for x in a:
            y = fresh('sub', x.sort())
            st.fact(z3.ForAll([k], z3.Select(y, k) == z3.Select(x, k + toz(pos)), patterns=[z3.Select(y, k)]))
            na.append(y)
        lv.append((o, l, na))
    return Seq(s.elem, n, lv)


@reg('std::basic_string::~basic_string', 'std::vector::~vector', 'std::map::~map', 'std::unordered_map::~unordered_map',
     'std::set::~set', 'std::shared_ptr::~shared_ptr', 'std::__shared_ptr::~__shared_ptr', 'std::weak_ptr::~weak_ptr',
     'std::__weak_ptr::~__weak_ptr', 'std::promise::~promise', 'std::future::~future', 'std::function::~function',
     'std::__exception_ptr::exception_ptr::~exception_ptr', 'std::unique_ptr::~unique_ptr', 'std::mutex::~mutex',
     'std::deque::~deque', 'std::list::~list')
def _dtor(c, st):
    if c.sig.name == '~promise' and c.eng.on_promise_dtor is not None:
        c.eng.on_promise_dtor(c, st)
    drop(c, st, c.args[0])


@reg('std::allocator::allocator', 'std::allocator::~allocator', 'std::__new_allocator::__new_allocator',
     'std::__new_allocator::~__new_allocator', 'std::basic_string::_Alloc_hider::~_Alloc_hider')
def _nop(c, st):
    return None


@reg('std::basic_string::size', 'std::basic_string::length', 'std::vector::size', 'std::deque::size')
def _size(c, st):
    return getseq(c, st, c.args[0]).n


@reg('std::basic_string::empty', 'std::vector::empty', 'std::deque::empty', 'std::list::empty')
def _empty(c, st):
    n = getseq(c, st, c.args[0]).n
    return n == 0 if isinstance(n, int) else n == 0


@reg('std::basic_string::data', 'std::basic_string::c_str', 'std::vector::data', 'std::basic_string::begin', 'std::vector::begin',
     'std::vector::cbegin', 'std::basic_string::cbegin', 'std::deque::begin', 'std::list::begin')
def _data(c, st):
    getseq(c, st, c.args[0])
    return EPtr(c.args[0], 0, 0)


@reg('std::basic_string::end', 'std::vector::end', 'std::vector::cend', 'std::basic_string::cend', 'std::deque::end', 'std::list::end')
def _end(c, st):
    return EPtr(c.args[0], getseq(c, st, c.args[0]).n, 0)


@reg('std::basic_string::operator[]', 'std::vector::operator[]', 'std::deque::operator[]')
def _index(c, st):
    getseq(c, st, c.args[0])
    return EPtr(c.args[0], c.args[1], 0)


@reg('std::basic_string::at', 'std::vector::at', 'std::deque::at')
def _at(c, st):
    s = getseq(c, st, c.args[0])
    i = c.args[1]
    bad = not (i < s.n) if isinstance(i, int) and isinstance(s.n, int) else toz(i) >= toz(s.n)
    return maythrow(c, st, bad, 'std::out_of_range', lambda s2: EPtr(c.args[0], i, 0))


@reg('std::basic_string::front', 'std::vector::front', 'std::deque::front', 'std::list::front')
def _front(c, st):
    s = getseq(c, st, c.args[0])
    c.eng.oblige(st, toz(s.n) > 0, "front() of a non-empty sequence")
    return EPtr(c.args[0], 0, 0)


@reg('std::basic_string::back', 'std::vector::back', 'std::deque::back', 'std::list::back')
def _back(c, st):
    s = getseq(c, st, c.args[0])
    c.eng.oblige(st, toz(s.n) > 0, "back() of a non-empty sequence")
    return EPtr(c.args[0], c.eng.addi(s.n, -1), 0)


@reg('std::basic_string::reserve', 'std::vector::reserve', 'std::basic_string::shrink_to_fit', 'std::vector::shrink_to_fit')
def _reserve(c, st):
    getseq(c, st, c.args[0])
    return None


@reg('std::basic_string::resize', 'std::vector::resize')
def _resize(c, st):
    e = c.eng
    s = getseq(c, st, c.args[0])
    n = c.args[1]
    fill = None
    if len(c.args) > 2:
        fill = c.args[2]
        if isinstance(fill, (Ptr, EPtr)):
            if s.elem in BYTES:
                fill = e.load(st, fill, e.mkint(8))
            else:
                raise Unsupported("resize with a value")
    if s.cst is not None and isinstance(n, int) and fill is None and n <= 4096:
        b = (s.cst + bytes(max(0, n - len(s.cst))))[:n]
        l = e.literal(st, b)
        put(c, st, c.args[0], Seq(s.elem, n, [(0, s.elem, [l.arr])], l.blob, l.cst))
        return
    if e.entails_fast(st, toz(n) <= toz(s.n)):
        put(c, st, c.args[0], Seq(s.elem, n, s.leaves))
        return
    k = z3.Const('k', IntS)
    lv = []
    for o, l, a in s.leaves:
        na = []
        d = e.pack_leaf(st, l, e.empty_of(st, l)) if fill is None else [toz(fill)]
        for x, dv in zip(a, d):
            y = fresh('rsz', x.sort())
            st.fact(z3.ForAll([k], z3.Select(y, k) == z3.If(k < toz(s.n), z3.Select(x, k), dv), patterns=[z3.Select(y, k)]))
            na.append(y)
        lv.append((o, l, na))
    put(c, st, c.args[0], Seq(s.elem, n, lv))


@reg('std::basic_string::clear', 'std::vector::clear', 'std::deque::clear')
def _clear(c, st):
    s = getseq(c, st, c.args[0])
    put(c, st, c.args[0], c.eng.empty_of(st, seq_t(s.elem)))


def push(c, st, p, s, leafvals):
    """append one element given as [(off, leaftype, value)]"""
    e = c.eng
    lv = []
    for (o, l, a), (o2, l2, v) in zip(s.leaves, leafvals):
        ts = e.pack_leaf(st, l, v)
        lv.append((o, l, [z3.Store(x, toz(s.n), t) for x, t in zip(a, ts)]))
    cst = None
    if s.cst is not None and isinstance(leafvals[0][2], int):
        cst = s.cst + bytes([leafvals[0][2] & 255])
    put(c, st, p, Seq(s.elem, e.addi(s.n, 1), lv, None, cst))


@reg('std::vector::push_back', 'std::deque::push_back', 'std::list::push_back')
def _push_back(c, st):
    s = getseq(c, st, c.args[0])
    if s.elem in BYTES:
        v = [(0, s.elem, c.eng.load(st, c.args[1], c.eng.mkint(8)))]
    else:
        v = c.eng.read_val(st, c.args[1], s.elem)
    push(c, st, c.args[0], s, v)
    moved_from(c, st, c.args[1], s.elem, c.sig.params[0])


def moved_from(c, st, p, t, param):
    """leave the source of a move in its (assumed) empty state"""
    if not param.endswith('&&'):
        return
    e = c.eng
    for o, l in e.T.leaves(t):
        if e.T.kind(l) in ('seq', 'ref', 'map', 'tok'):
            try:
                e.put_abs(st, e.shift(p, o), e.empty_of(st, l), l)
            except Unsupported:
                pass


@reg('std::basic_string::push_back')
def _str_push(c, st):
    s = getseq(c, st, c.args[0])
    push(c, st, c.args[0], s, [(0, 'char', c.args[1])])


@reg('std::vector::pop_back', 'std::basic_string::pop_back', 'std::deque::pop_back', 'std::list::pop_back')
def _pop_back(c, st):
    s = getseq(c, st, c.args[0])
    c.eng.oblige(st, toz(s.n) > 0, "pop_back() of a non-empty sequence")
    if c.sig.qual == 'std::basic_string::pop_back':
        put(c, st, c.args[0], substr_seq(c, st, s, 0, c.eng.addi(s.n, -1)))
        return
    put(c, st, c.args[0], Seq(s.elem, c.eng.addi(s.n, -1), s.leaves))


@reg('std::basic_string::erase')
def _str_erase(c, st):
    """erase(pos = 0, count = npos) of a prefix or a suffix; others by content"""
    e = c.eng
    pr = c.sig.params
    if pr and pr[0] != 'unsigned long':
        raise Unsupported("erase by iterator")
    s = getseq(c, st, c.args[0], 'std::string')
    pos, n = c.args[1], c.args[2]

    def ok(st2):
        s2 = getseq(c, st2, c.args[0], 'std::string')
        rest = z3.simplify(toz(s2.n) - toz(pos))
        m = toz(n)
        if isinstance(n, int) and n >= (1 << 62) or e.entails_fast(st2, rest <= m):
            v = substr_seq(c, st2, s2, 0, pos)
        elif e.entails_fast(st2, m <= rest):
            left = z3.simplify(rest - m)
            if isinstance(pos, int) and pos == 0:
                v = substr_seq(c, st2, s2, n, left.as_long() if z3.is_int_value(left) else left)
            else:
                tail = substr_seq(c, st2, s2, z3.simplify(toz(pos) + m), left)
                v = concat(c, st2, substr_seq(c, st2, s2, 0, pos), tail)
        else:
            raise Unsupported("erase of an unknown extent")
        put(c, st2, c.args[0], v, 'std::string')
        return c.args[0]
    bad = pos > s.n if isinstance(pos, int) and isinstance(s.n, int) else toz(pos) > toz(s.n)
    return maythrow(c, st, bad, 'std::out_of_range', ok)


@reg('std::deque::pop_front', 'std::list::pop_front')
def _pop_front(c, st):
    s = getseq(c, st, c.args[0])
    c.eng.oblige(st, toz(s.n) > 0, "pop_front() of a non-empty sequence")
    put(c, st, c.args[0], sub_any(c, st, s, 1, c.eng.addi(s.n, -1)))


@reg('std::vector::emplace_back', 'std::deque::emplace_back', 'std::list::emplace_back')
def _emplace_back(c, st):
    e = c.eng
    s = getseq(c, st, c.args[0])
    v = construct_from(c, st, s.elem, c.args[1:], c.sig.params, s)
    if isinstance(v, list) and v and isinstance(v[0], Outcome):
        return v
    s = getseq(c, st, c.args[0])
    push(c, st, c.args[0], s, v)
    return EPtr(c.args[0], s.n, 0)


def construct_from(c, st, t, args, params, s=None):
    """value of type t built from constructor arguments (references)"""
    e = c.eng
    k = e.T.kind(t)
    pr = [strip_ref(x) for x in params]
    if not args:
        return e.default_val(st, t)
    if len(args) == 1 and pr[0] == t:
        v = e.read_val(st, args[0], t)
        moved_from(c, st, args[0], t, params[0])
        return v
    if k in ('scalar', 'enum?'):
        n = e.T.size(t) if k == 'scalar' else 4
        m = e.T.size(pr[0]) if e.T.kind(pr[0]) == 'scalar' else n
        v = e.load(st, args[0], e.mkint(8 * m))
        return [(0, t, v if m <= n else e.low(v, 8 * n))]
    # run the real constructor on a temporary through construct()
    f = find_construct(c, t)
    if f is not None:
        tmp = e.new_obj(st, 'emplaced', 'heap', t)
        outs = e.run(st, f, [NULL, tmp] + list(args) if f_takes_alloc(f) else [tmp] + list(args), c.fr.depth + 1)
        outs = [o for o in outs]
        if len(outs) == 1 and outs[0].exc is None:
            if outs[0].st is not st:
                become(st, outs[0].st)
            return e.read_val(st, tmp, t)
    raise Unsupported("emplace of %s from %s" % (t, params))


def become(st, o):
    st.mem, st.heap, st.pc, st.held, st.ghost, st.fact_ids, st.path = o.mem, o.heap, o.pc, o.held, o.ghost, o.fact_ids, o.path


def strip_ref(x):
    return x[:-2] if x.endswith('&&') else (x[:-1] if x.endswith('&') else x)


def f_takes_alloc(f):
    return f.args[0][1].k == 'ptr' and 'construct' in T.parse_sig(f.demangled).name and 'llocator' in f.demangled.split('(')[1]


def callees(f):
    r = []
    for b in f.blocks:
        for i in b.instrs:
            if i.op in ('call', 'invoke') and i.x['callee'][0] == 'func':
                r.append(i.x['callee'][1])
    return r


def find_construct(c, t):
    """search the library function's own call graph for the function that runs `new (p) T(args...)`"""
    e = c.eng
    f = c.fn
    if f is None or f.decl:
        return None
    seen = set()
    todo = [f]
    while todo:
        g = todo.pop(0)
        if g.name in seen:
            continue
        seen.add(g.name)
        s = T.parse_sig(g.demangled)
        if s.name in ('construct', '_Construct', 'construct_at') and s.targs and s.targs[0] == t:
            g.blocks
            if s.name == '_Construct' or 'std::__new_allocator' in s.qual or 'allocator_traits' in s.qual:
                return g
        for n in callees(g):
            h = e.P.resolve(g.mod, n)
            if h is not None and not h.decl and h.demangled.find('std::') >= 0:
                todo.append(h)
    return None


@reg('std::vector::vector', 'std::deque::deque', 'std::list::list')
def _vec_ctor(c, st):
    e = c.eng
    t = ty_of(c)
    el = elem_of(t)
    this, a = c.args[0], c.args[1:]
    pr = list(c.sig.params)
    while pr and pr[-1].startswith('std::allocator'):
        pr = pr[:-1]
    a = a[:len(pr)]
    if not pr:
        v = e.empty_of(st, t)
    elif strip_ref(pr[0]) == t:
        v = getseq(c, st, a[0], t)
        put(c, st, this, v, t)
        if pr[0].endswith('&&'):
            put(c, st, a[0], e.empty_of(st, t), t)
        return None
    elif pr[0] == 'unsigned long' and len(pr) == 1:
        lv = []
        for o, l in e.T.leaves(el):
            d = e.pack_leaf(st, l, e.empty_of(st, l))
            lv.append((o, l, [z3.K(IntS, x) for x in d]))
        v = Seq(el, a[0], lv)
    elif pr[0] == 'unsigned long':
        vs = e.read_val(st, a[1], el) if el not in BYTES else [(0, el, e.load(st, a[1], e.mkint(8)))]
        lv = []
        for o, l, x in vs:
            lv.append((o, l, [z3.K(IntS, y) for y in e.pack_leaf(st, l, x)]))
        v = Seq(el, a[0], lv)
    elif pr[0].startswith('std::initializer_list'):
        return il_ctor(c, st, this, t, el, c.args[1], c.args[2])
    elif len(pr) == 2 and pr[0] == pr[1]:
        v = range_seq(c, st, a[0], a[1], el)
    else:
        raise Unsupported("vector constructor %s" % pr)
    put(c, st, this, v, t)


def il_items(c, st, el, arr, n):
    e = c.eng
    if isinstance(arr, Ptr) and isinstance(n, int):
        items = []
        sz = e.T.size(el)
        for i in range(n):
            p = e.shift(arr, i * sz)
            if el in BYTES:
                items.append([(0, el, e.load(st, p, e.mkint(8)))])
            else:
                items.append(e.read_val(st, p, el))
        return items
    raise Unsupported("initializer list")


def il_ctor(c, st, this, t, el, arr, n):
    e = c.eng
    items = il_items(c, st, el, arr, n)
    put(c, st, this, e.empty_of(st, t), t)
    for it in items:
        push(c, st, this, getseq(c, st, this, t), it)


@reg('std::vector::operator=', 'std::basic_string::operator=', 'std::basic_string::assign', 'std::vector::assign', 'std::deque::operator=')
def _seq_assign(c, st):
    e = c.eng
    t = ty_of(c)
    pr = c.sig.params
    if t == 'std::string' and strip_ref(pr[0]) == t and len(pr) == 3:
        s = getseq(c, st, c.args[1], t)

        def fin(st2, x):
            put(c, st2, c.args[0], x, t)
            return c.args[0]
        return substr_common(c, st, s, c.args[2], c.args[3], fin)
    if strip_ref(pr[0]) == t and len(pr) == 1:
        v = getseq(c, st, c.args[1], t)
        if c.args[0].key() == c.args[1].key() and not isinstance(c.args[0], EPtr):
            return c.args[0]
        put(c, st, c.args[0], v, t)
        if pr[0].endswith('&&'):
            put(c, st, c.args[1], e.empty_of(st, t), t)
        return c.args[0]
    if t == 'std::string' and pr[0] == 'char*':
        if len(pr) == 1:
            v = cstr(c, st, c.args[1])
        else:
            r = e.byte_region(st, c.args[1])
            e.oblige(st, z3.And(toz(r[2]) >= 0, toz(r[2]) + toz(c.args[2]) <= toz(r[1].n)), "assign reads within bounds")
            v = substr_seq(c, st, Seq('char', r[1].n, [(0, 'char', [r[1].arr])], r[1].blob, r[1].cst), r[2], c.args[2])
        put(c, st, c.args[0], v, t)
        return c.args[0]
    if len(pr) == 2 and pr[0] == pr[1] and pr[0] != 'unsigned long':
        v = range_seq(c, st, c.args[1], c.args[2], elem_of(t))
        put(c, st, c.args[0], v, t)
        return c.args[0]
    if pr[0].startswith('std::initializer_list'):
        il_ctor(c, st, c.args[0], t, elem_of(t), c.args[1], c.args[2])
        return c.args[0]
    raise Unsupported("assignment %s" % c.sig)


@reg('std::vector::swap', 'std::basic_string::swap')
def _seq_swap(c, st):
    t = ty_of(c)
    a, b = getseq(c, st, c.args[0], t), getseq(c, st, c.args[1], t)
    put(c, st, c.args[0], b, t)
    put(c, st, c.args[1], a, t)


@reg('std::swap')
def _swap(c, st):
    e = c.eng
    t = c.sig.targs[0] if c.sig.targs else strip_ref(c.sig.params[0])
    a, b = e.read_val(st, c.args[0], t), e.read_val(st, c.args[1], t)
    e.write_val(st, c.args[0], b)
    e.write_val(st, c.args[1], a)


@reg('std::move', 'std::forward', 'std::addressof', 'std::__addressof', 'std::as_const')
def _move(c, st):
    if len(c.args) != 1:
        return NotImplemented
    return c.args[0]


@reg('std::min', 'std::max')
def _minmax(c, st):
    e = c.eng
    t = c.sig.targs[0] if c.sig.targs else strip_ref(c.sig.params[0])
    if len(c.args) != 2 or e.T.kind(t) not in ('scalar', 'enum?'):
        return NotImplemented
    bits = 8 * e.T.size(t)
    a, b = (e.load(st, p, e.mkint(bits)) for p in c.args)
    sgn = t in ('int', 'long', 'short', 'char', 'signed char')
    lt = e.icmp('slt' if sgn else 'ult', a, b, e.mkint(bits))
    r = e.ite_val(st, lt, a, b) if c.sig.name == 'min' else e.ite_val(st, lt, b, a)
    if isinstance(lt, bool):
        r = (a if lt else b) if c.sig.name == 'min' else (b if lt else a)
    tmp = e.new_obj(st, 'minmax', 'stack')
    e.store(st, tmp, r, bits // 8)
    return tmp


@reg('std::array::data', 'std::array::begin')
def _arr_data(c, st):
    e = c.eng
    p = c.args[0]
    if isinstance(p, Ptr):
        q = e.to_eptr(st, p)
        if q is not None:
            return q
    return p


@reg('std::array::end')
def _arr_end(c, st):
    e = c.eng
    n = int(re.sub(r'[^0-9]', '', targs(ty_of(c))[1]))
    q = e.to_eptr(st, c.args[0])
    if q is not None:
        return EPtr(q.cont, n, 0)
    return e.shift(c.args[0], n * e.T.size(targs(ty_of(c))[0]))


@reg('std::array::size')
def _arr_size(c, st):
    return int(re.sub(r'[^0-9]', '', targs(ty_of(c))[1]))


@reg('std::array::operator[]')
def _arr_idx(c, st):
    e = c.eng
    q = e.to_eptr(st, c.args[0]) if isinstance(c.args[0], Ptr) else c.args[0]
    if q is not None:
        return e.padd(st, q, 0, [(c.args[1], e.T.size(targs(ty_of(c))[0]))] if not isinstance(c.args[1], int) else []) if not isinstance(c.args[1], int) \
            else e.padd(st, q, c.args[1] * e.T.size(targs(ty_of(c))[0]))
    if isinstance(c.args[1], int):
        return e.shift(c.args[0], c.args[1] * e.T.size(targs(ty_of(c))[0]))
    raise Unsupported("array index")


@reg('std::operator==', 'std::operator!=')
def _opeq(c, st):
    e = c.eng
    neg = c.sig.name == 'operator!='
    pr = [strip_ref(x) for x in c.sig.params]
    def fin(r):
        if neg:
            return (not r) if isinstance(r, bool) else z3.Not(r)
        return r
    if pr[0] == 'std::string' or (len(pr) > 1 and pr[1] == 'std::string'):
        vs = [getseq(c, st, p, 'std::string') if t == 'std::string' else cstr(c, st, p) for p, t in zip(c.args, pr)]
        return fin(beq(c, st, vs[0], vs[1]))
    if tbase(pr[0]) == 'std::vector' and elem_of(pr[0]) in BYTES:
        vs = [getseq(c, st, p, pr[0]) for p in c.args]
        return fin(beq(c, st, vs[0], vs[1]))
    if tbase(pr[0]) in ('std::shared_ptr', 'std::unique_ptr'):
        a = e.get_abs(st, c.args[0], pr[0])
        if pr[1] in ('std::nullptr_t', 'decltype(nullptr)', 'nullptr_t'):
            return fin(e.is_null(a.p))
        b = e.get_abs(st, c.args[1], pr[1])
        return fin(e.ptr_eq(a.p, b.p))
    if pr[0] in ('std::nullptr_t', 'decltype(nullptr)') and tbase(pr[1]) in ('std::shared_ptr', 'std::unique_ptr'):
        return fin(e.is_null(e.get_abs(st, c.args[1], pr[1]).p))
    if tbase(pr[0]) in ('std::_Rb_tree_iterator', 'std::_Rb_tree_const_iterator', 'std::__detail::_Node_iterator_base'):
        a, b = e.load(st, c.args[0], PTR), e.load(st, c.args[1], PTR)
        return fin(it_eq(c, a, b))
    if tbase(pr[0]) == 'std::thread::id' or pr[0] == 'std::thread::id':
        a, b = c.args
        if isinstance(a, (Ptr, EPtr)):
            a, b = e.load(st, a, e.mkint(64)), e.load(st, b, e.mkint(64))
        return fin(e.icmp('eq', a, b, e.mkint(64)))
    if tbase(pr[0]) == 'std::function':
        v = e.get_abs(st, c.args[0], pr[0])
        return fin(fn_empty(v))
    if tbase(pr[0]) in ('std::map', 'std::set') and pr[0] == pr[1]:
        a, b = e.get_abs(st, c.args[0], pr[0]), e.get_abs(st, c.args[1], pr[1])
        if a.vt is None:
            return fin(a.dom == b.dom)
    return NotImplemented


class _P:
    k = 'ptr'
    bits = 64
    size = 8


PTR = _P()


def fn_empty(v):
    if isinstance(v, Closure):
        return False
    return v.parts[0] == 0 if isinstance(v.parts[0], int) else toz(v.parts[0]) == 0


@reg('std::operator+')
def _opplus(c, st):
    e = c.eng
    pr = [strip_ref(x) for x in c.sig.params]
    def one(p, t):
        if t == 'std::string':
            return getseq(c, st, p, 'std::string')
        if t == 'char*':
            return cstr(c, st, p)
        if t == 'char':
            if isinstance(p, int):
                return e.literal(st, bytes([p & 255]))
            return Seq('char', 1, [(0, 'char', [z3.K(IntS, toz(p))])])
        raise Unsupported("operator+ on " + t)
    if 'std::string' not in pr:
        return NotImplemented
    a, b = one(c.args[0], pr[0]), one(c.args[1], pr[1])
    put(c, st, c.sret, concat(c, st, a, b), 'std::string')


@reg('std::basic_string::operator+=', 'std::basic_string::append')
def _append(c, st):
    e = c.eng
    pr = [strip_ref(x) for x in c.sig.params]
    s = getseq(c, st, c.args[0], 'std::string')
    if pr[0] == 'std::string' and len(pr) == 1:
        b = getseq(c, st, c.args[1], 'std::string')
    elif pr[0] == 'char*' and len(pr) == 1:
        b = cstr(c, st, c.args[1])
    elif pr[0] == 'char*' and len(pr) == 2:
        r = e.byte_region(st, c.args[1])
        e.oblige(st, z3.And(toz(r[2]) >= 0, toz(r[2]) + toz(c.args[2]) <= toz(r[1].n)), "append reads within bounds")
        b = substr_seq(c, st, Seq('char', r[1].n, [(0, 'char', [r[1].arr])], r[1].blob, r[1].cst), r[2], c.args[2])
    elif pr[0] == 'char':
        push(c, st, c.args[0], s, [(0, 'char', c.args[1])])
        return c.args[0]
    else:
        raise Unsupported("append %s" % pr)
    put(c, st, c.args[0], concat(c, st, s, b), 'std::string')
    return c.args[0]


NPOS = (1 << 64) - 1


def substr_common(c, st, s, pos, n, fin):
    e = c.eng
    if n is None:
        n = NPOS
    bad = pos > s.n if isinstance(pos, int) and isinstance(s.n, int) else toz(pos) > toz(s.n)
    def ok(st2):
        rest = z3.simplify(toz(s.n) - toz(pos))
        if isinstance(n, int) and n >= (1 << 62):
            m = rest
        else:
            m = z3.simplify(z3.If(toz(n) <= rest, toz(n), rest))
        if z3.is_int_value(m):
            m = m.as_long()
        if isz(m) and e.entails_fast(st2, toz(n) <= rest):
            m = n
        return fin(st2, substr_seq(c, st2, s, pos, m))
    return maythrow(c, st, bad, 'std::out_of_range', ok)


@reg('std::basic_string::substr')
def _substr(c, st):
    s = getseq(c, st, c.args[0], 'std::string')
    return substr_common(c, st, s, c.args[1], c.args[2], lambda st2, x: put(c, st2, c.sret, x, 'std::string'))


def pattern(c, st):
    """bytes looked for (integers or terms), or None"""
    e = c.eng
    pr = [strip_ref(x) for x in c.sig.params]
    if pr[0] == 'char':
        return [c.args[1]]
    if pr[0] == 'std::string':
        pat = getseq(c, st, c.args[1], 'std::string')
    elif pr[0] in ('char*', 'char const*') and len(pr) < 3:
        pat = cstr(c, st, c.args[1])
    else:
        return None
    return None if pat.cst is None else list(pat.cst)


def find_term(kind, pat):
    return z3.Function('%s_%s' % (kind, bytes(pat).hex()), Blob, IntS, IntS)


@reg('std::basic_string::find', 'std::basic_string::find_first_of', 'std::basic_string::find_first_not_of')
def _find(c, st):
    """first occurrence at or after pos, or npos"""
    e = c.eng
    s = getseq(c, st, c.args[0], 'std::string')
    pat = pattern(c, st)
    if pat is None:
        raise Unsupported("find with a symbolic pattern")
    pos = c.args[2] if len(c.args) > 2 else 0
    kind = c.sig.qual.rsplit('::', 1)[1]
    if s.cst is not None and isinstance(pos, int) and kind == 'find' and all(isinstance(x, int) for x in pat):
        r = s.cst.find(bytes(pat), pos)
        return r if r >= 0 else NPOS
    if kind == 'find':
        m = len(pat)
        at = lambda i: z3.And([z3.Select(s.arr, i + j) == toz(ch) for j, ch in enumerate(pat)] or [z3.BoolVal(True)])
    else:
        m = 1
        at = lambda i: z3.Or([z3.Select(s.arr, i) == toz(ch) for ch in pat] or [z3.BoolVal(False)])
        if kind == 'find_first_not_of':
            at0 = at
            at = lambda i: z3.Not(at0(i))
    r = fresh('find')
    if s.blob is not None and all(isinstance(x, int) for x in pat):
        r = find_term(kind, pat)(s.blob, toz(pos))
    k = z3.Const('k', IntS)
    st.fact(z3.Or(r == NPOS, z3.And(r >= toz(pos), r + m <= toz(s.n), at(r))))
    lim = z3.If(r == NPOS, toz(s.n) - m + 1, r)
    st.fact(z3.ForAll([k], z3.Implies(z3.And(k >= toz(pos), k < lim), z3.Not(at(k))), patterns=[z3.Select(s.arr, k)]))
    return r


@reg('std::basic_string::rfind', 'std::basic_string::find_last_of')
def _rfind(c, st):
    """last occurrence starting at or before pos, or npos"""
    e = c.eng
    s = getseq(c, st, c.args[0], 'std::string')
    pat = pattern(c, st)
    if pat is None or (c.sig.qual.endswith('find_last_of') and len(pat) != 1):
        raise Unsupported("rfind with a symbolic pattern")
    pos = c.args[2] if len(c.args) > 2 else NPOS
    m = len(pat)
    at = lambda i: z3.And([z3.Select(s.arr, i + j) == toz(ch) for j, ch in enumerate(pat)] or [z3.BoolVal(True)])
    r = fresh('rfind')
    k = z3.Const('k', IntS)
    st.fact(z3.Or(r == NPOS, z3.And(r >= 0, r <= toz(pos), r + m <= toz(s.n), at(r))))
    st.fact(z3.ForAll([k], z3.Implies(z3.And(k > z3.If(r == NPOS, -1, r), k <= toz(pos), k + m <= toz(s.n)), z3.Not(at(k))), patterns=[z3.Select(s.arr, k)]))
    return r


@reg('std::find')
def _std_find(c, st):
    """first element of a range equal to a value, or the end of the range"""
    e = c.eng
    b, en = c.args[0], c.args[1]
    b = e.to_eptr(st, b) if isinstance(b, Ptr) else b
    en = e.to_eptr(st, en) if isinstance(en, Ptr) else en
    if not (isinstance(b, EPtr) and isinstance(en, EPtr) and ckey(b.cont) == ckey(en.cont)):
        return NotImplemented
    s = e.peek_cont(st, b.cont)
    t = strip_ref(c.sig.params[2])
    if not isinstance(s, Seq) or len(s.leaves) != 1 or len(s.leaves[0][2]) != 1 or s.leaves[0][1] != s.elem or s.elem != t or b.off or en.off:
        return NotImplemented
    v = e.pack_val(st, t, c.args[2])[0]
    arr = s.leaves[0][2][0]
    e.oblige(st, z3.And(toz(b.idx) >= 0, toz(b.idx) <= toz(en.idx), toz(en.idx) <= toz(s.n)), "valid iterator range")
    r = fresh('find')
    k = z3.Const('k', IntS)
    st.fact(z3.And(r >= toz(b.idx), r <= toz(en.idx), z3.Implies(r < toz(en.idx), z3.Select(arr, r) == v)))
    st.fact(z3.ForAll([k], z3.Implies(z3.And(k >= toz(b.idx), k < r), z3.Select(arr, k) != v), patterns=[z3.Select(arr, k)]))
    return EPtr(b.cont, r, 0)


@reg('std::basic_string::compare')
def _compare(c, st):
    e = c.eng
    pr = [strip_ref(x) for x in c.sig.params]
    s = getseq(c, st, c.args[0], 'std::string')
    if len(pr) == 1:
        b = getseq(c, st, c.args[1], 'std::string') if pr[0] == 'std::string' else cstr(c, st, c.args[1])
        q = beq(c, st, s, b)
        r = fresh('cmp')
        st.fact(z3.And(r >= 0, r < 2 ** 32, (r == 0) == tob(q)))
        return r
    raise Unsupported("compare")


def number(e, st, v, base=10):
    """text of an integer (mathematical value): one function for to_string and streams"""
    if isinstance(v, int):
        return e.literal(st, (('%d' if base == 10 else '%x') % v).encode())
    f = z3.Function('dec' if base == 10 else 'hexl', IntS, Blob)
    b = f(toz(v))
    k = z3.Const('k', IntS)
    c = z3.Select(barr(b), k)
    st.fact(z3.And(blen(b) >= 1, blen(b) <= 20))
    dig = z3.Or(z3.And(c >= 48, c <= 57), c == 45) if base == 10 else z3.Or(z3.And(c >= 48, c <= 57), z3.And(c >= 97, c <= 102))
    st.fact(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < blen(b)), dig), patterns=[c]))
    if not hasattr(e, '_nozero'):
        e._nozero = {}
    e._nozero[b.get_id()] = b
    inv = z3.Function('parse_dec' if base == 10 else 'parse_hex', Blob, IntS)
    st.fact(inv(b) == toz(v))
    return e.unpack_leaf(st, 'std::string', [b])


NUMK = {t: z3.Function('numkind_' + t, Blob, IntS) for t in ('u', 'i', 'd')}       # 0: no number, 1: out of range, 2: a number
NUMV = {t: z3.Function('numval_' + t, Blob, IntS if t != 'd' else FSort) for t in ('u', 'i', 'd')}


@reg('std::stoull', 'std::stoul', 'std::stod', 'std::stol', 'std::stoll')
def _sto(c, st):
    """text to number: invalid_argument, out_of_range or a function of the text"""
    e = c.eng
    s = getseq(c, st, c.args[0], 'std::string')
    if len(c.args) > 1 and not tob_const(e.is_null(c.args[1])):
        raise Unsupported("number with end position")
    if len(c.args) > 2 and c.args[2] != 10:
        raise Unsupported("number in another base")
    t = {'stoull': 'u', 'stoul': 'u', 'stod': 'd', 'stol': 'i', 'stoll': 'i'}[c.sig.name]
    b = e.blob_of(st, s)
    k, v = NUMK[t](b), NUMV[t](b)
    ch = z3.Select(s.arr, 0)
    st.fact(z3.And(k >= 0, k <= 2, z3.Implies(toz(s.n) == 0, k == 0), z3.Implies(z3.And(toz(s.n) > 0, ch >= 48, ch <= 57), k != 0)))
    if t != 'd':
        q = z3.Const('k', IntS)
        cq = z3.Select(s.arr, q)
        st.fact(z3.And(v >= 0, v < 2 ** 64))
        # a text of digits that is not too long is a number
        st.fact(z3.Implies(z3.And(toz(s.n) >= 1, toz(s.n) <= 18, z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < toz(s.n)), z3.And(cq >= 48, cq <= 57)), patterns=[cq])), k == 2))
    res = []
    for x, f in ((0, 'std::invalid_argument'), (1, 'std::out_of_range'), (2, None)):
        s2 = st.copy()
        s2.branch(k == x)
        if e.feasible(s2):
            res.append(excs(s2, f) if f else Outcome(s2, v))
    return res


def tob_const(x):
    return x is True or (isz(x) and z3.is_true(z3.simplify(x)))


@reg('std::to_string')
def _to_string(c, st):
    e = c.eng
    v = c.args[0]
    if c.sig.params[0] in ('int', 'long', 'long long'):
        v = e.signed(v, 8 * e.T.size(c.sig.params[0]))
    elif c.sig.params[0] in ('float', 'double', 'long double'):
        raise Unsupported("to_string of a floating point value")
    put(c, st, c.sret, number(e, st, v), 'std::string')


@reg('std::vector::insert', 'std::vector::erase')
def _vec_insert(c, st):
    e = c.eng
    t = ty_of(c)
    s = getseq(c, st, c.args[0], t)
    k = z3.Const('k', IntS)
    it = c.args[1]
    if not isinstance(it, EPtr):
        raise Unsupported("vector insert/erase position")
    i = toz(it.idx)
    if c.sig.name == 'insert':
        pr = c.sig.params
        if len(pr) == 3 and pr[1] == pr[2]:
            b, en = c.args[2], c.args[3]
            o = range_seq(c, st, b, en, s.elem)
            e.oblige(st, z3.And(i >= 0, i <= toz(s.n)), "insert position valid")
            lv = []
            for (of, l, a), (_, _, a2) in zip(s.leaves, o.leaves):
                na = []
                for x, y in zip(a, a2):
                    z = fresh('ins', x.sort())
                    st.fact(z3.ForAll([k], z3.Select(z, k) == z3.If(k < i, z3.Select(x, k), z3.If(k < i + toz(o.n), z3.Select(y, k - i), z3.Select(x, k - toz(o.n)))), patterns=[z3.Select(z, k)]))
                    na.append(z)
                lv.append((of, l, na))
            put(c, st, c.args[0], Seq(s.elem, e.addi(s.n, o.n), lv), t)
            return EPtr(c.args[0], it.idx, 0)
        if len(pr) == 2:
            e.oblige(st, z3.And(i >= 0, i <= toz(s.n)), "insert position valid")
            v = e.read_val(st, c.args[2], s.elem) if s.elem not in BYTES else [(0, s.elem, e.load(st, c.args[2], e.mkint(8)))]
            lv = []
            for (of, l, a), (_, _, x) in zip(s.leaves, v):
                ts = e.pack_leaf(st, l, x)
                na = []
                for ar, tt in zip(a, ts):
                    z = fresh('ins', ar.sort())
                    st.fact(z3.ForAll([k], z3.Select(z, k) == z3.If(k < i, z3.Select(ar, k), z3.If(k == i, tt, z3.Select(ar, k - 1))), patterns=[z3.Select(z, k)]))
                    na.append(z)
                lv.append((of, l, na))
            put(c, st, c.args[0], Seq(s.elem, e.addi(s.n, 1), lv), t)
            moved_from(c, st, c.args[2], s.elem, pr[1])
            return EPtr(c.args[0], it.idx, 0)
        raise Unsupported("vector insert %s" % pr)
    # erase
    if len(c.args) == 2:
        j = i + 1
        e.oblige(st, z3.And(i >= 0, i < toz(s.n)), "erase position valid")
    else:
        j = toz(c.args[2].idx)
        e.oblige(st, z3.And(i >= 0, i <= j, j <= toz(s.n)), "erase range valid")
    lv = []
    for of, l, a in s.leaves:
        na = []
        for x in a:
            z = fresh('ers', x.sort())
            st.fact(z3.ForAll([k], z3.Select(z, k) == z3.If(k < i, z3.Select(x, k), z3.Select(x, k + (j - i))), patterns=[z3.Select(z, k)]))
            na.append(z)
        lv.append((of, l, na))
    put(c, st, c.args[0], Seq(s.elem, z3.simplify(toz(s.n) - (j - i)), lv), t)
    return EPtr(c.args[0], it.idx, 0)


# ---------------------------------------------------------------------------------------------- maps and sets
MAPS = ('std::map', 'std::unordered_map')
SETS = ('std::set', 'std::unordered_set')


def getmap(c, st, p, t=None):
    v = c.eng.get_abs(st, p, t or ty_of(c))
    if not isinstance(v, Map):
        raise Unsupported("%r is not a map" % (v,))
    return v


def has(m, k):
    return z3.Select(m.dom, k)


def _m(names, bases=MAPS + SETS):
    return [b + '::' + n for b in bases for n in names]


def m_insert(c, st, p, m, k, leafvals):
    """insert or overwrite"""
    e = c.eng
    lv = []
    if m.vt is not None:
        for (o, l, a), (_, _, v) in zip(m.leaves, leafvals):
            ts = e.pack_leaf(st, l, v)
            lv.append((o, l, [z3.Store(x, k, t) for x, t in zip(a, ts)]))
    card = z3.If(has(m, k), toz(m.card), toz(m.card) + 1)
    nm = Map(m.kind, m.kt, m.vt, z3.Store(m.dom, k, True), card, lv)
    e.map_facts(st, nm)
    put(c, st, p, nm)
    return nm


def m_erase(c, st, p, m, k):
    nm = Map(m.kind, m.kt, m.vt, z3.Store(m.dom, k, False), z3.If(has(m, k), toz(m.card) - 1, toz(m.card)), m.leaves)
    st.fact(z3.Implies(has(m, k), toz(m.card) >= 1))
    c.eng.map_facts(st, nm)
    put(c, st, p, nm)
    return nm


def it_eq(c, a, b):
    if not (isinstance(a, MapIt) and isinstance(b, MapIt)):
        raise Unsupported("iterator comparison %r %r" % (a, b))
    ea, eb = tob(a.end), tob(b.end)
    r = z3.Or(z3.And(ea, eb), z3.And(z3.Not(ea), z3.Not(eb), toz(a.k) == toz(b.k)))
    s = z3.simplify(r)
    return True if z3.is_true(s) else (False if z3.is_false(s) else s)


def end_it(c, m, p):
    ks = m.dom.sort().domain()
    return MapIt(p, z3.Const('endkey_' + str(ks), ks), True)


@reg(*_m(['find']))
def _map_find(c, st):
    e = c.eng
    m = getmap(c, st, c.args[0])
    k = e.key_at(st, m.kt, c.args[1])
    return MapIt(c.args[0], k, z3.Not(has(m, k)))


@reg(*_m(['end', 'cend']))
def _map_end(c, st):
    m = getmap(c, st, c.args[0])
    return end_it(c, m, c.args[0])


@reg(*_m(['begin', 'cbegin']))
def _map_begin(c, st):
    """first element in iteration order; ghost: nothing visited yet"""
    m = getmap(c, st, c.args[0])
    ks = m.dom.sort().domain()
    k = fresh('it', ks)
    done = z3.K(ks, z3.BoolVal(False))
    q = z3.Const('q', ks)
    st.fact(has(m, k) == (toz(m.card) > 0))
    st.fact(z3.Implies(toz(m.card) == 0, z3.ForAll([q], z3.Not(has(m, q)), patterns=[has(m, q)])))
    for o in orders(c.eng, m):
        st.fact(z3.Implies(toz(m.card) > 0, o.pos(k) == 0))
    return MapIt(c.args[0], k, toz(m.card) == 0, done)


class MapOrder:
    """the order in which the elements of one (unchanging) map are visited: pos numbers its keys from 0, nth is the inverse"""

    def __init__(self, e, st, m, name):
        ks = m.dom.sort().domain()
        self.m, self.pos, self.nth = m, z3.Function(name + '.pos', ks, IntS), z3.Function(name + '.nth', IntS, ks)
        k, j = z3.Const('k', ks), z3.Const('j', IntS)
        n = toz(m.card)
        st.fact(z3.ForAll([k], z3.Implies(has(m, k), z3.And(self.pos(k) >= 0, self.pos(k) < n, self.nth(self.pos(k)) == k)), patterns=[self.pos(k)]))
        st.fact(z3.ForAll([k], z3.Implies(has(m, k), z3.And(self.pos(k) >= 0, self.pos(k) < n, self.nth(self.pos(k)) == k)), patterns=[has(m, k)]))
        st.fact(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n), z3.And(has(m, self.nth(j)), self.pos(self.nth(j)) == j)), patterns=[self.nth(j)]))
        if not hasattr(e, 'map_orders'):
            e.map_orders = []
        e.map_orders.append(self)


def orders(e, m):
    return [o for o in getattr(e, 'map_orders', []) if same(o.m, m)]


def m_next(c, st, it):
    """successor of a valid iterator: an unvisited element, or end when everything was visited"""
    e = c.eng
    m = e.get_abs(st, it.cont)
    ks = m.dom.sort().domain()
    if it.done is None:
        # not from begin(): only membership is known
        done = None
        k = fresh('it', ks)
        en = fresh('itend', BoolS)
        st.fact(z3.Implies(z3.Not(en), z3.And(has(m, k), k != toz(it.k))))
        return MapIt(it.cont, k, en, None)
    done = z3.Store(it.done, toz(it.k), True)
    k = fresh('it', ks)
    en = fresh('itend', BoolS)
    q = z3.Const('q', ks)
    st.fact(z3.Implies(z3.Not(en), z3.And(has(m, k), z3.Not(z3.Select(done, k)))))
    st.fact(z3.Implies(en, z3.ForAll([q], z3.Implies(has(m, q), z3.Select(done, q)), patterns=[has(m, q)])))
    for o in orders(e, m):
        i = o.pos(toz(it.k)) + 1
        st.fact(z3.And(en == (i == toz(m.card)), z3.Implies(z3.Not(en), o.pos(k) == i)))
    return MapIt(it.cont, k, en, done)


IT = ('std::_Rb_tree_iterator', 'std::_Rb_tree_const_iterator', 'std::__detail::_Node_iterator', 'std::__detail::_Node_const_iterator')


@reg(*[i + '::operator++' for i in IT])
def _it_inc(c, st):
    e = c.eng
    p = c.args[0]
    it = e.load(st, p, PTR)
    if not isinstance(it, MapIt):
        return NotImplemented
    e.oblige(st, z3.Not(tob(it.end)), "iterator incremented before end")
    n = m_next(c, st, it)
    e.store(st, p, n, 8)
    if len(c.args) > 1:
        return it
    return p


@reg(*[i + x for i in IT for x in ('::operator*', '::operator->')])
def _it_deref(c, st):
    e = c.eng
    it = e.load(st, c.args[0], PTR)
    if not isinstance(it, MapIt):
        return NotImplemented
    e.oblige(st, z3.Not(tob(it.end)), "iterator dereferenced before end")
    m = e.get_abs(st, it.cont)
    e.oblige(st, has(m, toz(it.k)), "iterator refers to an element of the container")
    return EPtr(it.cont, it.k, 0)


@reg('std::_Rb_tree_const_iterator::_Rb_tree_const_iterator', 'std::__detail::_Node_const_iterator::_Node_const_iterator',
     'std::_Rb_tree_iterator::_Rb_tree_iterator')
def _it_ctor(c, st):
    e = c.eng
    if len(c.args) == 2 and isinstance(c.args[1], (Ptr, EPtr)):
        it = e.load(st, c.args[1], PTR)
        if isinstance(it, MapIt):
            e.store(st, c.args[0], it, 8)
            return None
    if len(c.args) == 1:
        return None
    return NotImplemented


@reg('std::__detail::operator==', 'std::__detail::operator!=')
def _node_eq(c, st):
    e = c.eng
    a, b = e.load(st, c.args[0], PTR), e.load(st, c.args[1], PTR)
    r = it_eq(c, a, b)
    if c.sig.name == 'operator!=':
        return (not r) if isinstance(r, bool) else z3.Not(r)
    return r


@reg('std::_Rb_tree_iterator::operator==', 'std::_Rb_tree_iterator::operator!=')
def _it_eqm(c, st):
    return _node_eq(c, st)


@reg('std::max_element', 'std::min_element')
def _max_element(c, st):
    if len(c.args) != 2 or not isinstance(c.args[0], MapIt):
        return NotImplemented
    e = c.eng
    it = c.args[0]
    m = e.get_abs(st, it.cont)
    if e.T.flat_sorts(m.kt) != [IntS]:
        return NotImplemented
    k, q = fresh('max'), z3.Const('q', IntS)
    lim = 2 ** (8 * e.T.size(m.kt) - 1)
    signed = m.kt in ('int', 'long', 'short', 'signed char', 'char')
    v = lambda x: z3.If(x >= lim, x - 2 * lim, x) if signed else x
    cmp = (lambda a, b: v(a) <= v(b)) if c.sig.name == 'max_element' else (lambda a, b: v(a) >= v(b))
    st.fact(has(m, k) == (toz(m.card) > 0))
    st.fact(z3.ForAll([q], z3.Implies(has(m, q), cmp(q, k)), patterns=[has(m, q)]))
    return MapIt(it.cont, k, toz(m.card) == 0)


@reg(*_m(['size']))
def _map_size(c, st):
    m = getmap(c, st, c.args[0])
    st.fact(toz(m.card) >= 0)
    return m.card


@reg(*_m(['empty']))
def _map_empty(c, st):
    m = getmap(c, st, c.args[0])
    r = toz(m.card) == 0
    ks = m.dom.sort().domain()
    return m.card == 0 if isinstance(m.card, int) else r


@reg(*_m(['count']))
def _map_count(c, st):
    m = getmap(c, st, c.args[0])
    k = c.eng.key_at(st, m.kt, c.args[1])
    return z3.If(has(m, k), z3.IntVal(1), z3.IntVal(0))


@reg(*_m(['clear']))
def _map_clear(c, st):
    put(c, st, c.args[0], c.eng.empty_of(st, ty_of(c)))
    getmap(c, st, c.args[0])


@reg(*_m(['at'], MAPS))
def _map_at(c, st):
    m = getmap(c, st, c.args[0])
    k = c.eng.key_at(st, m.kt, c.args[1])
    return maythrow(c, st, z3.Not(has(m, k)), 'std::out_of_range',
                    lambda s2: EPtr(c.args[0], k, c.eng.map_voff(m)))


@reg(*_m(['operator[]'], MAPS))
def _map_index(c, st):
    e = c.eng
    m = getmap(c, st, c.args[0])
    k = e.key_at(st, m.kt, c.args[1])
    dv = e.default_val(st, m.vt)
    lv = []
    for (o, l, a), (_, _, v) in zip(m.leaves, dv):
        ts = e.pack_leaf(st, l, v)
        lv.append((o, l, [z3.Store(x, k, z3.If(has(m, k), z3.Select(x, k), t)) for x, t in zip(a, ts)]))
    nm = Map(m.kind, m.kt, m.vt, z3.Store(m.dom, k, True), z3.If(has(m, k), toz(m.card), toz(m.card) + 1), lv)
    if e.entails_fast(st, has(m, k)):
        return EPtr(c.args[0], k, e.map_voff(m))
    e.map_facts(st, nm)
    put(c, st, c.args[0], nm)
    return EPtr(c.args[0], k, e.map_voff(m))


def pair_parts(c, st, m, args, params):
    """key and value leaves from emplace/insert arguments"""
    e = c.eng
    pr = [strip_ref(x) for x in params]
    vo = e.map_voff(m)
    if len(args) == 1:
        p = args[0]
        a = targs(pr[0]) if tbase(pr[0]) == 'std::pair' else None
        if a is None:
            raise Unsupported("map insert of " + pr[0])
        if strip_ref(a[0]) != m.kt or strip_ref(a[1]) != m.vt:
            raise Unsupported("map insert with conversion from " + pr[0])
        k = e.key_at(st, m.kt, p)
        v = e.read_val(st, e.shift(p, vo), m.vt)
        if params[0].endswith('&&'):
            moved_from(c, st, e.shift(p, vo), m.vt, '&&')
        return k, v
    k = conv_read(c, st, args[0], pr[0], m.kt)
    k = e.T.mkkey(m.kt, pack_all(e, st, k))
    v = conv_read(c, st, args[1], pr[1], m.vt)
    moved_from(c, st, args[1], m.vt, params[1]) if pr[1] == m.vt else None
    return k, v


def pack_all(e, st, leaves):
    ts = []
    for o, l, v in leaves:
        ts += e.pack_leaf(st, l, v)
    return ts


def conv_read(c, st, p, frm, to):
    e = c.eng
    if frm == to:
        return e.read_val(st, p, to)
    if to == 'std::string' and (frm.startswith('char[') or frm == 'char*' or 'char' in frm and '[' in frm):
        q = p
        if frm == 'char*':
            q = e.load(st, p, PTR)
        return [(0, to, cstr(c, st, q))]
    if e.T.kind(to) in ('scalar', 'enum?') and e.T.kind(frm) in ('scalar', 'enum?'):
        n = e.T.size(frm)
        v = e.load(st, p, e.mkint(8 * n))
        m = e.T.size(to)
        if n > m:
            v = e.low(v, 8 * m)
        return [(0, to, v)]
    if e.T.kind(to) == 'ref' and e.T.kind(frm) == 'ref':
        r = e.get_abs(st, p, frm)
        return [(0, to, Ref(tbase(to).split('::')[-1], targs(to)[0], r.p))]
    raise Unsupported("conversion %s -> %s" % (frm, to))


@reg(*_m(['emplace', 'insert', 'try_emplace', 'insert_or_assign', 'emplace_hint']))
def _map_emplace(c, st):
    e = c.eng
    t = ty_of(c)
    m = getmap(c, st, c.args[0])
    params = c.sig.params
    args = c.args[1:]
    if c.sig.name == 'insert' and params[0].startswith('std::initializer_list') or (len(params) == 2 and params[0] == params[1] and 'iterator' in params[0]):
        if 'initializer_list' in params[0]:
            return map_il(c, st, m.kind, args[0], args[1])
        return map_range(c, st, m, args[0], args[1])
    if m.vt is None:
        k = e.T.mkkey(m.kt, pack_all(e, st, conv_read(c, st, args[0], strip_ref(params[0]), m.kt)))
        inserted = z3.Not(has(m, k))
        m_insert(c, st, c.args[0], m, k, [])
    else:
        k, v = pair_parts(c, st, m, args, params)
        inserted = z3.Not(has(m, k))
        if c.sig.name == 'insert_or_assign':
            m_insert(c, st, c.args[0], m, k, v)
        else:
            lv = []
            for (o, l, a), (_, _, x) in zip(m.leaves, v):
                ts = e.pack_leaf(st, l, x)
                lv.append((o, l, [z3.Store(ar, k, z3.If(has(m, k), z3.Select(ar, k), tt)) for ar, tt in zip(a, ts)]))
            nm = Map(m.kind, m.kt, m.vt, z3.Store(m.dom, k, True), z3.If(has(m, k), toz(m.card), toz(m.card) + 1), lv)
            e.map_facts(st, nm)
            put(c, st, c.args[0], nm)
    it = MapIt(c.args[0], k, False)
    if c.retty.k == 'struct':
        return (it, z3.If(inserted, z3.IntVal(1), z3.IntVal(0)))
    if c.sret is not None:
        e.store(st, c.sret, it, 8)
        e.store(st, e.shift(c.sret, 8), z3.If(inserted, z3.IntVal(1), z3.IntVal(0)), 1)
        return None
    return it


@reg(*_m(['erase']))
def _map_erase(c, st):
    e = c.eng
    m = getmap(c, st, c.args[0])
    a = c.args[1]
    if isinstance(a, MapIt):
        it = a
    elif 'iterator' in c.sig.params[0] and isinstance(a, (Ptr, EPtr)):
        it = e.load(st, a, PTR)
    else:
        it = None
    if len(c.args) > 2:
        raise Unsupported("range erase")
    if it is not None:
        e.oblige(st, z3.Not(tob(it.end)), "erase of a valid iterator")
        e.oblige(st, has(m, toz(it.k)), "erased iterator refers to an element")
        nxt = m_next(c, st, it) if c.retty is not None and c.retty.k != 'void' else None
        m_erase(c, st, c.args[0], m, toz(it.k))
        return nxt
    k = e.key_at(st, m.kt, a)
    m_erase(c, st, c.args[0], m, k)
    return z3.If(has(m, k), z3.IntVal(1), z3.IntVal(0))


@reg('std::map::map', 'std::unordered_map::unordered_map', 'std::set::set')
def _map_ctor(c, st):
    e = c.eng
    t = ty_of(c)
    pr = c.sig.params
    if not pr or strip_ref(pr[0]) != t and not pr[0].startswith('std::initializer_list'):
        if pr and not pr[0].startswith(('std::less', 'std::allocator', 'unsigned long')):
            if len(pr) >= 2 and pr[0] == pr[1]:
                raise Unsupported("map from a range")
        put(c, st, c.args[0], e.empty_of(st, t), t)
        return
    if strip_ref(pr[0]) == t:
        put(c, st, c.args[0], getmap(c, st, c.args[1], t), t)
        if pr[0].endswith('&&'):
            put(c, st, c.args[1], e.empty_of(st, t), t)
        return
    put(c, st, c.args[0], e.empty_of(st, t), t)
    map_il(c, st, t, c.args[1], c.args[2])


def map_range(c, st, m, a, b):
    """insert all elements of another map; keys that are there keep their value"""
    e = c.eng
    if not (isinstance(a, MapIt) and isinstance(b, MapIt) and a.done is not None and mkey(a.cont) == mkey(b.cont)):
        raise Unsupported("range insert into a map")
    r = getmap(c, st, a.cont)
    if r.kt != m.kt or r.vt != m.vt or not e.entails_fast(st, tob(b.end)) or not z3.eq(z3.simplify(a.done), z3.K(r.dom.sort().domain(), z3.BoolVal(False))):
        raise Unsupported("range insert into a map")
    k = z3.Const('k', r.dom.sort().domain())
    w = e.fresh_leaf(st, ty_of(c), 'merged')
    st.fact(z3.ForAll([k], z3.Select(w.dom, k) == z3.Or(has(m, k), has(r, k)), patterns=[z3.Select(w.dom, k)]))
    for (_, _, wa), (_, _, ma), (_, _, ra) in zip(w.leaves, m.leaves, r.leaves):
        for x, y, z in zip(wa, ma, ra):
            st.fact(z3.ForAll([k], z3.Select(x, k) == z3.If(has(m, k), z3.Select(y, k), z3.Select(z, k)), patterns=[z3.Select(x, k)]))
    st.fact(z3.And(toz(w.card) >= toz(m.card), toz(w.card) >= toz(r.card), toz(w.card) <= toz(m.card) + toz(r.card)))
    put(c, st, c.args[0], w)
    return None


def map_il(c, st, t, arr, n):
    """insert the items of an initializer list; the first of equal keys stays"""
    e = c.eng
    if not isinstance(n, int) or n > 64:
        raise Unsupported("initializer list of unknown length")
    m = getmap(c, st, c.args[0])
    if n == 0:
        return
    kv = m.vt is not None
    if not isinstance(arr, Ptr):
        raise Unsupported("initializer list outside of an object")
    el = 'std::pair<%s, %s>' % (m.kt, m.vt) if kv else m.kt
    size = e.T.size(el)
    for i in range(n):
        m = getmap(c, st, c.args[0])
        p = e.shift(arr, i * size)
        k = e.key_at(st, m.kt, p)
        v = e.read_val(st, e.shift(p, e.map_voff(m)), m.vt) if kv else []
        r = e.split(st, has(m, k), True, False)
        if len(r) == 1:
            if not r[0][1]:
                m_insert(c, st, c.args[0], m, k, v)
            continue
        lv = []
        for (o, l, aa), (_, _, x) in zip(m.leaves, v):
            lv.append((o, l, [z3.Store(ar, k, z3.If(has(m, k), z3.Select(ar, k), tt)) for ar, tt in zip(aa, e.pack_leaf(st, l, x))]))
        nm = Map(m.kind, m.kt, m.vt, z3.Store(m.dom, k, True), z3.If(has(m, k), toz(m.card), toz(m.card) + 1), lv)
        e.map_facts(st, nm)
        put(c, st, c.args[0], nm)


@reg('std::map::operator=', 'std::unordered_map::operator=', 'std::set::operator=')
def _map_assign(c, st):
    t = ty_of(c)
    if c.sig.params[0].startswith('std::initializer_list'):
        put(c, st, c.args[0], c.eng.empty_of(st, t), t)
        map_il(c, st, t, c.args[1], c.args[2])
        return c.args[0]
    put(c, st, c.args[0], getmap(c, st, c.args[1], t), t)
    if c.sig.params[0].endswith('&&'):
        put(c, st, c.args[1], c.eng.empty_of(st, t), t)
    return c.args[0]


@reg('std::map::swap', 'std::unordered_map::swap', 'std::set::swap')
def _map_swap(c, st):
    t = ty_of(c)
    a, b = getmap(c, st, c.args[0], t), getmap(c, st, c.args[1], t)
    put(c, st, c.args[0], b, t)
    put(c, st, c.args[1], a, t)


# ---------------------------------------------------------------------------------------------- smart pointers
SP = ('std::shared_ptr', 'std::__shared_ptr')
WP = ('std::weak_ptr', 'std::__weak_ptr')


def ref_t(c):
    t = ty_of(c)
    return t


def sp_type(c):
    b = tbase(ty_of(c))
    k = {'std::shared_ptr': 'shared_ptr', 'std::__shared_ptr': 'shared_ptr', 'std::weak_ptr': 'weak_ptr',
         'std::__weak_ptr': 'weak_ptr', 'std::unique_ptr': 'unique_ptr', 'std::__shared_ptr_access': 'shared_ptr'}[b]
    return 'std::%s<%s>' % (k, targs(ty_of(c))[0])


def getref(c, st, p, t):
    v = c.eng.get_abs(st, p, t)
    if isinstance(v, (Ptr, EPtr)):
        return Ref('shared_ptr', '?', v)
    if not isinstance(v, Ref):
        raise Unsupported("%r is not a smart pointer" % (v,))
    return v


def upcast(c, p, frm, to):
    """pointer adjustment for a derived-to-base conversion (first base at offset 0 unless the layout says otherwise)"""
    e = c.eng
    if frm == to or to == 'void':
        return p
    def off(a):
        if a == to:
            return 0
        r = e.L.records.get(a)
        if r:
            for o, b in r.bases:
                x = off(b)
                if x is not None:
                    return o + x
        return None
    o = off(frm)
    if not o:
        return p
    if isinstance(p, Ptr) and p.obj is None:
        return p
    return e.shift(p, o)


@reg('std::shared_ptr::shared_ptr', 'std::weak_ptr::weak_ptr', 'std::__shared_ptr::__shared_ptr', 'std::__weak_ptr::__weak_ptr', 'std::unique_ptr::unique_ptr')
def _sp_ctor(c, st):
    e = c.eng
    t = sp_type(c)
    kind = tbase(t).split('::')[-1]
    el = targs(t)[0]
    pr = c.sig.params
    this, a = c.args[0], c.args[1:]
    if not pr or 'nullptr' in pr[0]:
        v = Ref(kind, el, NULL)
    elif tbase(strip_ref(pr[0])) in ('std::shared_ptr', 'std::weak_ptr', 'std::__shared_ptr', 'std::unique_ptr', 'std::__weak_ptr'):
        src_t = strip_ref(pr[0]).replace('std::__', 'std::')
        src = getref(c, st, a[0], src_t)
        if len(pr) == 1:
            v = Ref(kind, el, upcast(c, src.p, targs(src_t)[0], el))
        else:
            v = Ref(kind, el, a[1])
        put(c, st, this, v, t)
        if pr[0].endswith('&&'):
            put(c, st, a[0], Ref(tbase(src_t).split('::')[-1], targs(src_t)[0], NULL), src_t)
        if kind == 'shared_ptr' and 'weak_ptr' in pr[0]:
            return weak_to_shared(c, st, this, v, t, True)
        return None
    elif pr[0].endswith('*'):
        v = Ref(kind, el, upcast(c, a[0], strip_ref(pr[0])[:-1].strip(), el))
    elif 'std::_Sp_alloc_shared_tag' in pr[0] or '__sp' in pr[0].lower():
        return NotImplemented
    else:
        raise Unsupported("smart pointer constructor %s" % pr)
    put(c, st, this, v, t)


def weak_to_shared(c, st, this, v, t, throws):
    """lock(): the object may already be gone"""
    e = c.eng
    alive = fresh('alive', BoolS)
    r = []
    nul = e.is_null(v.p)
    if nul is True:
        alive_c = False
    else:
        alive_c = z3.And(alive, z3.Not(tob(nul)))
    for s, b in e.split(st, alive_c, True, False):
        if b:
            put(c, s, this, v, t)
            r.append(Outcome(s, None))
        else:
            put(c, s, this, Ref(v.kind, v.t, NULL), t)
            r.append(excs(s, 'std::bad_weak_ptr') if throws else Outcome(s, None))
    return r


@reg('std::weak_ptr::lock')
def _wp_lock(c, st):
    e = c.eng
    t = sp_type(c)
    v = getref(c, st, c.args[0], t)
    el = targs(t)[0]
    if e.on_weak_lock is not None:
        r = e.on_weak_lock(c, st, c.args[0], v, el)
        if r is not None:
            return r
    return weak_to_shared(c, st, c.sret, Ref('shared_ptr', el, v.p), 'std::shared_ptr<%s>' % el, False)


@reg('std::__weak_ptr::expired')
def _wp_expired(c, st):
    v = getref(c, st, c.args[0], sp_type(c))
    e = c.eng
    if e.on_weak_expired is not None:
        r = e.on_weak_expired(c, st, c.args[0], v)
        if r is not None:
            return r
    f = fresh('expired', BoolS)
    n = e.is_null(v.p)
    return True if n is True else z3.Or(f, tob(n))


@reg('std::shared_ptr::operator=', 'std::__shared_ptr::operator=', 'std::weak_ptr::operator=', 'std::__weak_ptr::operator=', 'std::unique_ptr::operator=')
def _sp_assign(c, st):
    e = c.eng
    t = sp_type(c)
    kind = tbase(t).split('::')[-1]
    el = targs(t)[0]
    pr = c.sig.params
    if 'nullptr' in pr[0]:
        put(c, st, c.args[0], Ref(kind, el, NULL), t)
        return c.args[0]
    src_t = strip_ref(pr[0]).replace('std::__', 'std::')
    src = getref(c, st, c.args[1], src_t)
    put(c, st, c.args[0], Ref(kind, el, upcast(c, src.p, targs(src_t)[0], el)), t)
    if pr[0].endswith('&&'):
        put(c, st, c.args[1], Ref(tbase(src_t).split('::')[-1], targs(src_t)[0], NULL), src_t)
    return c.args[0]


@reg('std::__shared_ptr::reset', 'std::shared_ptr::reset', 'std::unique_ptr::reset', 'std::__weak_ptr::reset', 'std::weak_ptr::reset')
def _sp_reset(c, st):
    t = sp_type(c)
    p = c.args[1] if len(c.args) > 1 and isinstance(c.args[1], (Ptr, EPtr)) else NULL
    put(c, st, c.args[0], Ref(tbase(t).split('::')[-1], targs(t)[0], p), t)


@reg('std::__shared_ptr::swap', 'std::shared_ptr::swap')
def _sp_swap(c, st):
    t = sp_type(c)
    a, b = getref(c, st, c.args[0], t), getref(c, st, c.args[1], t)
    put(c, st, c.args[0], b, t)
    put(c, st, c.args[1], a, t)


@reg('std::__shared_ptr::get', 'std::shared_ptr::get', 'std::unique_ptr::get', 'std::__shared_ptr_access::operator->',
     'std::__shared_ptr_access::operator*', 'std::unique_ptr::operator->', 'std::unique_ptr::operator*', 'std::__shared_ptr_access::_M_get')
def _sp_get(c, st):
    v = getref(c, st, c.args[0], sp_type(c))
    if 'operator' in c.sig.name:
        n = c.eng.is_null(v.p)
        if n is True:
            raise NullDeref()
        if n is not False:
            c.eng.oblige(st, z3.Not(n), "no null pointer dereference")
    return v.p


@reg('std::unique_ptr::release')
def _up_release(c, st):
    t = sp_type(c)
    v = getref(c, st, c.args[0], t)
    put(c, st, c.args[0], Ref('unique_ptr', targs(t)[0], NULL), t)
    return v.p


@reg('std::__shared_ptr::operator bool', 'std::shared_ptr::operator bool', 'std::unique_ptr::operator bool')
def _sp_bool(c, st):
    v = getref(c, st, c.args[0], sp_type(c))
    n = c.eng.is_null(v.p)
    return (not n) if isinstance(n, bool) else z3.Not(n)


@reg('std::__shared_ptr::use_count', 'std::__weak_ptr::use_count')
def _sp_use(c, st):
    v = fresh('use_count')
    st.fact(z3.And(v >= 0, v < 2 ** 31))
    return v


@reg('std::make_shared', 'std::make_unique', 'std::allocate_shared')
def _make_shared(c, st):
    e = c.eng
    t = c.sig.targs[0]
    kind = 'shared_ptr' if 'shared' in c.sig.name else 'unique_ptr'
    rt = 'std::%s<%s>' % (kind, t)
    if e.T.kind(t) not in ('struct',):
        # library value type: promise, vector, string ...
        v = construct_from(c, st, t, c.args, c.sig.params)
        p = e.new_obj(st, 'shared_' + re.sub(r'\W+', '_', t)[:20], 'heap')
        e.write_val(st, p, v)
        put(c, st, c.sret, Ref(kind, t, p), rt)
        return
    p = e.new_obj(st, 'new_' + t.split('::')[-1], 'heap', t)
    f = find_construct(c, t)
    if f is None:
        raise Unsupported("no constructor found for make_shared<%s>" % t)
    s = T.parse_sig(f.demangled)
    args = list(c.args)
    if s.name == '_Construct':
        full = [p] + args
    elif 'allocator_traits' in s.qual or 'std::__new_allocator' in s.qual:
        full = [NULL, p] + args
    else:
        full = [p] + args
    outs = e.run(st, f, full, c.fr.depth + 1)
    r = []
    for o in outs:
        if o.exc is None:
            put(c, o.st, c.sret, Ref(kind, t, p), rt)
            weak_self(c, o.st, p, t)
            r.append(Outcome(o.st, None))
        else:
            r.append(o)
    return r


def weak_self(c, st, p, t):
    """enable_shared_from_this"""
    e = c.eng
    def go(cls, off):
        r = e.L.records.get(cls)
        if r is None:
            return
        for o, b in r.bases:
            if tbase(b) == 'std::enable_shared_from_this':
                el = targs(b)[0]
                put(c, st, e.shift(p, off + o), Ref('weak_ptr', el, p), 'std::weak_ptr<%s>' % el)
            else:
                go(b, off + o)
    go(t, 0)


@reg('std::enable_shared_from_this::shared_from_this')
def _sft(c, st):
    el = targs(ty_of(c))[0]
    e = c.eng
    # assumption: the object is owned by a shared_ptr whenever it shares itself
    put(c, st, c.sret, Ref('shared_ptr', el, c.args[0]), 'std::shared_ptr<%s>' % el)


@reg('std::enable_shared_from_this::weak_from_this')
def _wft(c, st):
    el = targs(ty_of(c))[0]
    put(c, st, c.sret, Ref('weak_ptr', el, c.args[0]), 'std::weak_ptr<%s>' % el)


@reg('std::enable_shared_from_this::enable_shared_from_this', 'std::enable_shared_from_this::~enable_shared_from_this')
def _esft(c, st):
    return None


@reg('std::dynamic_pointer_cast', 'std::static_pointer_cast', 'std::const_pointer_cast')
def _dpc(c, st):
    e = c.eng
    to = c.sig.targs[0]
    src_t = strip_ref(c.sig.params[0])
    v = getref(c, st, c.args[0], src_t)
    rt = 'std::shared_ptr<%s>' % to
    if 'static' in c.sig.name or 'const' in c.sig.name:
        put(c, st, c.sret, Ref('shared_ptr', to, v.p), rt)
        return
    # dynamic cast: succeeds iff the dynamic type is (derived from) to; uninterpreted predicate per class
    n = e.is_null(v.p)
    if n is True:
        put(c, st, c.sret, Ref('shared_ptr', to, NULL), rt)
        return
    if isinstance(v.p, Ptr):
        o = st.mem.get(v.p.obj)
        if o is not None and o.cls is not None:
            ok = to in e.L.bases_of(o.cls)
            put(c, st, c.sret, Ref('shared_ptr', to, v.p if ok else NULL), rt)
            return
    isf = z3.Function('isa_' + re.sub(r'\W', '_', to), IntS, BoolS)
    cond = isf(toz(e.ptr_to_int(v.p)))
    p = EPtr(HEAP, z3.If(cond, toz(v.p.idx), z3.IntVal(0)), 0) if isinstance(v.p, EPtr) and v.p.cont == HEAP and v.p.off == 0 else None
    if p is None:
        raise Unsupported("dynamic cast of %r" % (v.p,))
    put(c, st, c.sret, Ref('shared_ptr', to, p), rt)


# ---------------------------------------------------------------------------------------------- mutexes
def mkey(p):
    if isinstance(p, Ptr):
        return (p.obj, p.off)
    if isinstance(p, EPtr):
        return ('E', ckey(p.cont), p.off, str(p.idx))
    raise Unsupported("mutex %r" % (p,))


def do_lock(c, st, p, mode):
    e = c.eng
    k = mkey(p)
    if k in st.held and c.sig.clsargs and 'recursive' not in c.sig.clsargs[0]:
        e.oblige(st, False, "mutex is not locked twice by one thread")
    st.held[k] = mode
    if e.on_lock is not None:
        e.on_lock(e, st, p, mode)


def do_unlock(c, st, p):
    e = c.eng
    k = mkey(p)
    mode = st.held.get(k)
    if mode is None:
        e.oblige(st, False, "mutex is held when it is unlocked")
    if e.on_unlock is not None:
        e.on_unlock(e, st, p, mode)
    st.held.pop(k, None)


@reg('std::lock_guard::lock_guard', 'std::unique_lock::unique_lock', 'std::shared_lock::shared_lock', 'std::scoped_lock::scoped_lock')
def _lg(c, st):
    e = c.eng
    mode = 'sh' if 'shared_lock' in c.sig.qual else 'ex'
    this = c.args[0]
    pr = c.sig.params
    if not pr:
        e.store(st, this, NULL, 8)
        e.store(st, e.shift(this, 8), 0, 1)
        return
    if pr[0].endswith('&&'):
        m = e.load(st, c.args[1], PTR)
        o = e.load(st, e.shift(c.args[1], 8), e.mkint(8))
        e.store(st, this, m, 8)
        e.store(st, e.shift(this, 8), o, 1)
        e.store(st, c.args[1], NULL, 8)
        e.store(st, e.shift(c.args[1], 8), 0, 1)
        return
    if len(pr) > 1 and 'adopt' not in pr[1]:
        if 'defer' in pr[1]:
            e.store(st, this, c.args[1], 8)
            e.store(st, e.shift(this, 8), 0, 1)
            return
        raise Unsupported("lock with " + pr[1])
    e.store(st, this, c.args[1], 8)
    if c.sig.name != 'lock_guard' and c.sig.name != 'scoped_lock':
        e.store(st, e.shift(this, 8), 1, 1)
    if len(pr) == 1:
        do_lock(c, st, c.args[1], mode)


@reg('std::lock_guard::~lock_guard', 'std::scoped_lock::~scoped_lock')
def _ulg(c, st):
    p = c.eng.load(st, c.args[0], PTR)
    do_unlock(c, st, p)
    drop(c, st, c.args[0])


@reg('std::unique_lock::~unique_lock', 'std::shared_lock::~shared_lock')
def _uul(c, st):
    e = c.eng
    p = e.load(st, c.args[0], PTR)
    o = e.load(st, e.shift(c.args[0], 8), e.mkint(8))
    if isz(o):
        o2 = z3.simplify(o)
        o = o2.as_long() if z3.is_int_value(o2) else o
    if isz(o):
        raise Unsupported("conditionally owned lock")
    if o:
        do_unlock(c, st, p)
    drop(c, st, c.args[0])
    drop(c, st, e.shift(c.args[0], 8))


@reg('std::unique_lock::unlock', 'std::shared_lock::unlock')
def _ul_unlock(c, st):
    e = c.eng
    p = e.load(st, c.args[0], PTR)
    do_unlock(c, st, p)
    e.store(st, e.shift(c.args[0], 8), 0, 1)


@reg('std::unique_lock::lock', 'std::shared_lock::lock')
def _ul_lock(c, st):
    e = c.eng
    p = e.load(st, c.args[0], PTR)
    do_lock(c, st, p, 'sh' if 'shared' in c.sig.qual else 'ex')
    e.store(st, e.shift(c.args[0], 8), 1, 1)


@reg('std::unique_lock::owns_lock', 'std::unique_lock::operator bool')
def _ul_owns(c, st):
    return c.eng.load(st, c.eng.shift(c.args[0], 8), c.eng.mkint(1))


@reg('std::mutex::lock', 'std::recursive_mutex::lock', 'std::shared_timed_mutex::lock')
def _mlock(c, st):
    do_lock(c, st, c.args[0], 'ex')


@reg('std::mutex::unlock', 'std::recursive_mutex::unlock', 'std::shared_timed_mutex::unlock', 'std::shared_timed_mutex::unlock_shared')
def _munlock(c, st):
    do_unlock(c, st, c.args[0])


@reg('std::shared_timed_mutex::lock_shared')
def _mlocks(c, st):
    do_lock(c, st, c.args[0], 'sh')


@reg('std::mutex::mutex', 'std::shared_timed_mutex::shared_timed_mutex', 'std::recursive_mutex::recursive_mutex',
     'std::shared_timed_mutex::~shared_timed_mutex', 'std::condition_variable::notify_one', 'std::condition_variable::notify_all',
     'std::condition_variable::condition_variable', 'std::condition_variable::~condition_variable')
def _mx(c, st):
    return None


# ---------------------------------------------------------------------------------------------- promises
def pstate(e, st):
    if 'P.state' not in st.ghost:
        st.ghost['P.state'] = z3.Const('P.state0', z3.ArraySort(IntS, IntS))
        st.ghost['P.val'] = z3.Const('P.val0', z3.ArraySort(IntS, Blob))
        st.ghost['P.next'] = z3.Const('P.next0', IntS)
        st.fact(st.ghost['P.next'] >= 1)
    return st.ghost['P.state']


@reg('std::promise::promise')
def _promise(c, st):
    e = c.eng
    t = ty_of(c)
    if c.sig.params and strip_ref(c.sig.params[0]).startswith('std::promise'):
        v = e.get_abs(st, c.args[1], t)
        put(c, st, c.args[0], v, t)
        put(c, st, c.args[1], Tok('promise', [0]), t)
        return
    put(c, st, c.args[0], new_promise(c, st), t)


def new_promise(c, st):
    pstate(c.eng, st)
    i = st.ghost['P.next']
    st.ghost['P.next'] = i + 1
    st.ghost['P.state'] = z3.Store(st.ghost['P.state'], i, 0)
    return Tok('promise', [i])


@reg('std::promise::operator=')
def _promise_as(c, st):
    t = ty_of(c)
    v = c.eng.get_abs(st, c.args[1], t)
    put(c, st, c.args[0], v, t)
    put(c, st, c.args[1], Tok('promise', [0]), t)
    return c.args[0]


@reg('std::promise::get_future')
def _get_future(c, st):
    t = ty_of(c)
    v = c.eng.get_abs(st, c.args[0], t)
    put(c, st, c.sret, Tok('future', [v.parts[0]]), 'std::future<%s>' % targs(t)[0])


@reg('std::promise::set_value', 'std::promise::set_exception')
def _set_value(c, st):
    e = c.eng
    t = ty_of(c)
    v = e.get_abs(st, c.args[0], t)
    i = toz(v.parts[0])
    s = pstate(e, st)
    def ok(st2):
        if c.sig.name == 'set_value':
            st2.ghost['P.state'] = z3.Store(st2.ghost['P.state'], i, 1)
            vt = targs(t)[0]
            if vt != 'void':
                x = e.get_abs(st2, c.args[1], vt)
                b = e.pack_leaf(st2, vt, x)[0]
                st2.ghost['P.val'] = z3.Store(st2.ghost['P.val'], i, b)
                if c.sig.params[0].endswith('&&'):
                    put(c, st2, c.args[1], e.empty_of(st2, vt), vt)
                if e.on_set_value is not None:
                    e.on_set_value(c, st2, i, b)
            elif e.on_set_value is not None:
                e.on_set_value(c, st2, i, None)
        else:
            st2.ghost['P.state'] = z3.Store(st2.ghost['P.state'], i, 2)
            if e.on_set_exception is not None:
                e.on_set_exception(c, st2, i)
        return None
    e.oblige(st, i != 0, "promise is valid")
    return maythrow(c, st, z3.Select(s, i) != 0, 'std::future_error', ok)


@reg('std::future::future', 'std::future::operator=')
def _future(c, st):
    t = ty_of(c)
    if not c.sig.params:
        put(c, st, c.args[0], Tok('future', [0]), t)
        return None
    v = c.eng.get_abs(st, c.args[1], t)
    put(c, st, c.args[0], v, t)
    put(c, st, c.args[1], Tok('future', [0]), t)
    return c.args[0]


@reg('std::future::~future', 'std::__basic_future::~__basic_future')
def _future_d(c, st):
    return None


@reg('std::__basic_future::wait_for', 'std::__basic_future::wait_until')
def _wait_for(c, st):
    """future_status: 0 ready, 1 timeout, 2 deferred"""
    e = c.eng
    v = e.get_abs(st, c.args[0], 'std::future<x>')
    r = fresh('future_status')
    st.fact(z3.And(r >= 0, r <= 1))
    e.oblige(st, toz(v.parts[0]) != 0, "future is valid")
    if e.on_wait is not None:
        e.on_wait(c, st, toz(v.parts[0]), r)
    return r


@reg('std::__basic_future::wait')
def _wait(c, st):
    e = c.eng
    v = e.get_abs(st, c.args[0], 'std::future<x>')
    e.oblige(st, toz(v.parts[0]) != 0, "future is valid")
    if e.on_wait is not None:
        e.on_wait(c, st, toz(v.parts[0]), z3.IntVal(0))


@reg('std::__basic_future::valid')
def _valid(c, st):
    v = c.eng.get_abs(st, c.args[0], 'std::future<x>')
    return toz(v.parts[0]) != 0


@reg('std::future::get')
def _future_get(c, st):
    """the value or the exception; on_future(c, st, id) -> [(state, packed value or exception type)]"""
    e = c.eng
    t = ty_of(c)
    v = e.get_abs(st, c.args[0], t)
    e.oblige(st, toz(v.parts[0]) != 0, "future is valid")
    put(c, st, c.args[0], Tok('future', [0]), t)
    vt = targs(t)[0]
    if e.on_future is None:
        raise Unsupported("future::get")
    res = []
    for s, x in e.on_future(c, st, toz(v.parts[0])):
        if isinstance(x, str):
            res.append(excs(s, x))
        elif vt == 'void':
            res.append(Outcome(s, None))
        else:
            val = e.unpack_leaf(s, vt, [x])
            if c.sret is not None:
                put(c, s, c.sret, val, vt)
                res.append(Outcome(s, None))
            else:
                res.append(Outcome(s, val))
    return res


@reg('std::make_exception_ptr', 'std::current_exception')
def _mkexc(c, st):
    if c.sret is not None:
        put(c, st, c.sret, Tok('exception_ptr', [1]), 'std::__exception_ptr::exception_ptr')
        return None
    return NotImplemented


@reg('std::__exception_ptr::exception_ptr::exception_ptr')
def _exptr(c, st):
    e = c.eng
    if c.sig.params and 'exception_ptr' in c.sig.params[0]:
        put(c, st, c.args[0], e.get_abs(st, c.args[1], 'std::__exception_ptr::exception_ptr'), 'std::__exception_ptr::exception_ptr')
    else:
        put(c, st, c.args[0], Tok('exception_ptr', [0]), 'std::__exception_ptr::exception_ptr')


@reg('std::runtime_error::runtime_error', 'std::out_of_range::out_of_range', 'std::logic_error::logic_error', 'std::invalid_argument::invalid_argument',
     'std::runtime_error::~runtime_error', 'std::out_of_range::~out_of_range', 'std::logic_error::~logic_error', 'std::exception::~exception', 'std::exception::exception',
     'std::future_error::~future_error', 'std::future_error::future_error', 'std::invalid_argument::~invalid_argument', 'std::length_error::length_error', 'std::length_error::~length_error')
def _exobj(c, st):
    return None


@reg('std::exception::what', 'std::runtime_error::what', 'std::logic_error::what', 'std::out_of_range::what')
def _what(c, st):
    x = fresh('what')
    st.fact(z3.And(x > 0, x < HEAPMAX))
    return EPtr(HEAP, x, 0)


# ---------------------------------------------------------------------------------------------- C++ runtime
@reg('__cxa_allocate_exception')
def _cxa_alloc(c, st):
    return c.eng.new_obj(st, 'exc', 'heap')


@reg('__cxa_free_exception')
def _cxa_free(c, st):
    return None


@reg('__cxa_throw')
def _cxa_throw(c, st):
    e = c.eng
    ti = c.args[1]
    from .llvm import demangle
    name = demangle(e.gname[ti.obj]) if isinstance(ti, Ptr) and ti.obj in e.gname else 'any'
    t = norm(re.sub(r'^typeinfo for ', '', name))
    return [Outcome(st, None, Exc(t, c.args[0]))]


@reg('__cxa_begin_catch')
def _cxa_begin(c, st):
    x = c.args[0]
    l = st.ghost.get('caught', ())
    st.ghost['caught'] = l + (x,)
    if isinstance(x, Exc):
        return x.ptr if x.ptr is not None else c.eng.new_obj(st, 'exc', 'heap')
    return x


@reg('__cxa_get_exception_ptr')
def _cxa_getp(c, st):
    x = c.args[0]
    return x.ptr if isinstance(x, Exc) and x.ptr is not None else c.eng.new_obj(st, 'exc', 'heap')


@reg('__cxa_end_catch')
def _cxa_end(c, st):
    l = st.ghost.get('caught', ())
    st.ghost['caught'] = l[:-1]


@reg('__cxa_rethrow')
def _cxa_rethrow(c, st):
    l = st.ghost.get('caught', ())
    if not l:
        c.eng.oblige(st, False, "rethrow outside a handler")
        return []
    return [Outcome(st, None, l[-1])]


@reg('__clang_call_terminate', 'std::terminate', 'abort')
def _terminate(c, st):
    c.eng.oblige(st, False, "std::terminate is not reached")
    return []


def _throwfn(exc):
    def f(c, st):
        return [excs(st, exc)]
    return f


H['std::__throw_out_of_range'] = _throwfn('std::out_of_range')
H['std::__throw_out_of_range_fmt'] = _throwfn('std::out_of_range')
H['std::__throw_length_error'] = _throwfn('std::length_error')
H['std::__throw_invalid_argument'] = _throwfn('std::invalid_argument')
H['std::__throw_bad_function_call'] = _throwfn('std::bad_function_call')
H['std::__throw_logic_error'] = _throwfn('std::logic_error')


@reg('__cxa_guard_acquire')
def _guard(c, st):
    e = c.eng
    g = e.load(st, c.args[0], e.mkint(8))
    r = e.icmp('eq', g, 0, e.mkint(8))
    return ite(r, 1, 0) if isz(r) else int(r)


@reg('__cxa_guard_release')
def _guardr(c, st):
    c.eng.store(st, c.args[0], 1, 1)


@reg('__cxa_guard_abort', '__cxa_atexit', '__cxa_thread_atexit')
def _guarda(c, st):
    if c.sig.name == '__cxa_thread_atexit' and c.eng.on_thread_atexit is not None:
        c.eng.on_thread_atexit(c, st)
    return 0


@reg('operator new', 'operator new[]', '_Znwm', '_Znam')
def _new(c, st):
    return c.eng.new_obj(st, 'new', 'heap')


@reg('operator delete', 'operator delete[]', '_ZdlPv', '_ZdlPvm')
def _delete(c, st):
    return None


# ---------------------------------------------------------------------------------------------- std::function
@reg('std::function::function', 'std::function::operator=')
def _fn_ctor(c, st):
    e = c.eng
    t = ty_of(c)
    pr = c.sig.params
    this = c.args[0]
    if not pr or 'nullptr' in pr[0]:
        put(c, st, this, Tok('function', [0]), t)
        return this if 'operator' in c.sig.name else None
    if strip_ref(pr[0]) == t:
        put(c, st, this, e.get_abs(st, c.args[1], t), t)
        if pr[0].endswith('&&'):
            put(c, st, c.args[1], Tok('function', [0]), t)
        return this if 'operator' in c.sig.name else None
    # a callable object: find its operator() through the library's own _M_invoke
    put(c, st, this, make_closure(c, st, c.args[1]), t)
    return this if 'operator' in c.sig.name else None


def make_closure(c, st, src):
    """closure of the callable at src: copy of the object and its call operator"""
    e = c.eng
    f = c.fn
    target = None
    seen = set()
    todo = [f] if f is not None and not f.decl else []
    lam = None
    ft = strip_ref(c.sig.params[0]) if c.sig.params else ''
    while todo:
        g = todo.pop(0)
        if g.name in seen:
            continue
        seen.add(g.name)
        for b in g.blocks:
            for i in b.instrs:
                names = []
                if i.op in ('call', 'invoke') and i.x['callee'][0] == 'func':
                    names.append(i.x['callee'][1])
                for o in i.ops:
                    if o and o[0] == 'func':
                        names.append(o[1])
                for n in names:
                    h = e.P.resolve(g.mod, n)
                    if h is None or h.decl:
                        continue
                    d = h.demangled
                    s = T.parse_sig(d)
                    if s.name == 'operator()' and not s.qual.startswith('std::') and 'lambda' in d or \
                       s.name == 'operator()' and s.cls is not None and ft and s.cls == ft:
                        target = h
                        break
                    if d.startswith('std::') or 'std::' in d:
                        todo.append(h)
        if target:
            break
    if target is None and ft:
        for h in e.P.defs.values():
            d = h.demangled
            if 'operator()' in d and not h.decl:
                s = T.parse_sig(d)
                if s.name == 'operator()' and (s.cls == ft or s.qual == ft + '::operator()'):
                    target = h
                    break
    o = e.new_obj(st, 'closure', 'heap')
    if target is None:
        # function pointer or bind: keep as opaque non-null callable
        x = fresh('callable')
        st.fact(x > 0)
        return Tok('function', [x])
    if isinstance(src, Ptr):
        so = e.obj(st, src)
        cells = {}
        for off, (sz, v) in so.cells.items():
            if off >= src.off:
                cells[off - src.off] = (sz, v)
        st.mem[o.obj] = st.mem[o.obj].with_cells(cells)
    else:
        raise Unsupported("closure of %r" % (src,))
    return Closure(target.name, o.obj)


@reg('std::function::operator()')
def _fn_call(c, st):
    e = c.eng
    v = e.get_abs(st, c.args[0], ty_of(c))
    if isinstance(v, Closure):
        f = e.P.defs[v.fn]
        args = [Ptr(v.obj, 0)] + list(c.args[1:])
        if c.sret is not None:
            args = [c.sret] + args
        # by-value scalar arguments of std::function are passed through references by _M_invoke, here directly
        e.inlined.add(f.demangled)
        return e.run(st, f, args, c.fr.depth + 1)
    if e.on_function is not None:
        emp = fn_empty(v)
        return fn_guard(c, st, emp, lambda s2: e.on_function(c, s2, v))
    raise Unsupported("call of an unknown std::function")


def fn_guard(c, st, emp, k):
    e = c.eng
    r = []
    for s, b in e.split(st, emp, True, False):
        if b:
            r.append(excs(s, 'std::bad_function_call'))
        else:
            x = k(s)
            r += x if isinstance(x, list) else [Outcome(s, x)]
    return r


@reg('std::function::operator bool')
def _fn_bool(c, st):
    r = fn_empty(c.eng.get_abs(st, c.args[0], ty_of(c)))
    return (not r) if isinstance(r, bool) else z3.Not(r)


# ---------------------------------------------------------------------------------------------- threads
@reg('std::thread::thread')
def _thread(c, st):
    e = c.eng
    t = 'std::thread'
    if not c.sig.params:
        put(c, st, c.args[0], Tok('thread', [0]), t)
        return
    if strip_ref(c.sig.params[0]) == 'std::thread':
        v = e.get_abs(st, c.args[1], t)
        put(c, st, c.args[0], v, t)
        put(c, st, c.args[1], Tok('thread', [0]), t)
        return
    x = fresh('thread')
    st.fact(x > 0)
    put(c, st, c.args[0], Tok('thread', [x]), t)
    if e.on_thread_start is not None:
        e.on_thread_start(c, st, x)


def thread_body(c, st):
    """outcomes of running the callable given to std::thread's constructor"""
    e = c.eng
    a = c.args[1:]
    if isinstance(a[0], FnPtr):
        f = e.P.resolve(c.fr.fn.mod, a[0].name) if hasattr(c.fr.fn, 'mod') else None
        f = f or e.P.defs.get(a[0].name)
        return e.run(st, f, [], c.fr.depth + 1)
    p0 = strip_ref(c.sig.params[0])
    if '::*' in p0:
        # pointer to member function, object
        m = e.load(st, a[0], PTR)
        o = a[1]
        o = e.load(st, o, PTR) if c.sig.params[1].rstrip('&').endswith('*') or c.sig.params[1].endswith('&&') or c.sig.params[1].endswith('&') else o
        if not isinstance(m, FnPtr):
            raise Unsupported("thread over %r" % (m,))
        f = e.P.defs[m.name]
        q = T.parse_sig(f.demangled).qual
        if q in e.contracts:
            c2 = c
            class C: pass
            n = C()
            n.eng, n.args, n.sig, n.sret, n.fr, n.retty, n.fn = e, [o], T.parse_sig(f.demangled), None, c.fr, None, f
            r = e.contracts[q](n, st)
            return r if isinstance(r, list) else [Outcome(st, None)]
        return e.run(st, f, [o], c.fr.depth + 1)
    cl = make_closure(c, st, a[0])
    if not isinstance(cl, Closure):
        raise Unsupported("thread over an unknown callable")
    return e.run(st, e.P.defs[cl.fn], [Ptr(cl.obj, 0)], c.fr.depth + 1)


@reg('std::thread::operator=')
def _thread_as(c, st):
    e = c.eng
    old = e.get_abs(st, c.args[0], 'std::thread')
    e.oblige(st, toz(old.parts[0]) == 0, "assigned thread handle is not joinable")
    v = e.get_abs(st, c.args[1], 'std::thread')
    put(c, st, c.args[0], v, 'std::thread')
    put(c, st, c.args[1], Tok('thread', [0]), 'std::thread')
    return c.args[0]


@reg('std::thread::join')
def _join(c, st):
    e = c.eng
    v = e.get_abs(st, c.args[0], 'std::thread')
    def ok(st2):
        put(c, st2, c.args[0], Tok('thread', [0]), 'std::thread')
        if e.on_join is not None:
            e.on_join(c, st2, v.parts[0])
        return None
    z = toz(v.parts[0]) == 0
    z = z3.simplify(z)
    return maythrow(c, st, True if z3.is_true(z) else (False if z3.is_false(z) else z), 'std::system_error', ok)


@reg('std::thread::joinable')
def _joinable(c, st):
    v = c.eng.get_abs(st, c.args[0], 'std::thread')
    return toz(v.parts[0]) != 0


@reg('std::thread::~thread')
def _thread_d(c, st):
    v = c.eng.get_abs(st, c.args[0], 'std::thread')
    c.eng.oblige(st, toz(v.parts[0]) == 0, "destroyed thread handle is not joinable")
    drop(c, st, c.args[0])


@reg('std::this_thread::sleep_for')
def _sleep(c, st):
    return None


@reg('std::chrono::_V2::system_clock::now', 'std::chrono::_V2::steady_clock::now')
def _now(c, st):
    x = fresh('now')
    st.fact(z3.And(x >= 0, x < 2 ** 63))
    return x


@reg('std::this_thread::get_id')
def _getid(c, st):
    x = z3.Const('this_thread_id', IntS)
    st.fact(z3.And(x > 0, x < 2 ** 63))
    return x


@reg('pthread_self')
def _pself(c, st):
    x = z3.Const('this_pthread', IntS)
    st.fact(z3.And(x > 0, x < 2 ** 63))
    return x


# ---------------------------------------------------------------------------------------------- C library
@reg('strlen')
def _strlen(c, st):
    return cstr(c, st, c.args[0]).n


@reg('memcpy', 'memmove')
def _memcpy(c, st):
    c.eng.memcpy(st, c.args[0], c.args[1], c.args[2])
    return c.args[0]


@reg('memset')
def _memset(c, st):
    c.eng.memset(st, c.args[0], c.args[1], c.args[2])
    return c.args[0]


@reg('__errno_location')
def _errno(c, st):
    e = c.eng
    o = e.new_obj(st, 'errno', 'heap')
    v = fresh('errno')
    st.fact(z3.And(v >= 0, v < 4096))
    e.store(st, o, v, 4)
    return o


@reg('printf', 'puts', 'perror', 'fprintf', 'putchar', 'fflush')
def _printf(c, st):
    return c.eng.fresh_scalar(st, c.retty, 'ret') if c.retty.k != 'void' else None


@reg('getpid')
def _getpid(c, st):
    x = z3.Const('this_pid', IntS)
    st.fact(z3.And(x > 0, x < 2 ** 31))
    return x


@reg('std::operator<<', 'std::ostream::operator<<', 'std::basic_ostream::operator<<')
def _ostream(c, st):
    """output to a std::ostream: tracked for string streams, ignored for others"""
    e = c.eng
    r = stream_out(c, st)
    if r is not None:
        return r
    return c.args[0]


def stream_at(e, st, p):
    """(object, offset, Tok) of the string stream that p points into"""
    if not isinstance(p, Ptr) or p.obj is None or p.obj not in st.mem:
        return None
    o = st.mem[p.obj]
    for off, (sz, v) in o.cells.items():
        if isinstance(v, Tok) and v.kind == 'stream' and off <= p.off < off + 400:
            return o, off, v
    return None


def stream_put(st, o, off, tok):
    cells = dict(o.cells)
    cells[off] = (8, tok)
    st.mem[o.id] = o.with_cells(cells)


SS = ('std::basic_stringstream', 'std::basic_ostringstream', 'std::stringstream', 'std::ostringstream')


@reg(*[x + '::' + x.split('::')[1] for x in SS])
def _ss_ctor(c, st):
    e = c.eng
    p = c.args[0]
    if not isinstance(p, Ptr):
        raise Unsupported("string stream at %r" % (p,))
    v = e.empty_of(st, 'std::string')
    if c.sig.params and strip_ref(c.sig.params[0]) == 'std::string':
        raise Unsupported("string stream with initial text")
    stream_put(st, e.obj(st, p), p.off, Tok('stream', [e.blob_of(st, v), 0]))


@reg(*[x + '::~' + x.split('::')[1] for x in SS])
def _ss_dtor(c, st):
    p = c.args[0]
    r = stream_at(c.eng, st, p)
    if r:
        cells = {k: v for k, v in r[0].cells.items() if k != r[1]}
        st.mem[r[0].id] = r[0].with_cells(cells)


@reg(*[x + '::str' for x in SS])
def _ss_str(c, st):
    e = c.eng
    if c.sret is None:
        p, pr = c.args[0], c.sig.params
        r = stream_at(e, st, p)
        if r is None:
            raise Unsupported("unknown string stream")
        v = getseq(c, st, c.args[1], 'std::string')
        if not (v.cst == b''):
            raise Unsupported("string stream text replaced")
        stream_put(st, r[0], r[1], Tok('stream', [e.blob_of(st, v), r[2].parts[1]]))
        return None
    r = stream_at(e, st, c.args[0])
    if r is None:
        raise Unsupported("unknown string stream")
    b = r[2].parts[0]
    ps = pieces(e, st, e.unpack_leaf(st, 'std::string', [b]))
    v = e.literal(st, ps[0]) if len(ps) == 1 and isinstance(ps[0], bytes) else e.unpack_leaf(st, 'std::string', [b])
    put(c, st, c.sret, v, 'std::string')


def stream_out(c, st):
    e = c.eng
    r = stream_at(e, st, c.args[0])
    if r is None:
        return None
    o, off, tok = r
    t = c.sig.params[-1]
    a = c.args[1]
    tb = strip_ref(t)
    base = tok.parts[1]
    if isinstance(a, FnPtr):
        d = T.parse_sig(e.demangle(a.name)) if hasattr(e, 'demangle') else None
        nm = a.name
        if '3hex' in nm:
            base = 1
        elif '3dec' in nm:
            base = 0
        elif 'endl' in nm:
            return stream_add(c, st, r, e.literal(st, b'\n'))
        elif 'flush' in nm:
            return c.args[0]
        else:
            raise Unsupported("stream manipulator " + nm)
        stream_put(st, o, off, Tok('stream', [tok.parts[0], base]))
        return c.args[0]
    if tb == 'std::string':
        v = getseq(c, st, a, 'std::string')
    elif tb in ('char*', 'signed char*', 'unsigned char*'):
        v = cstr(c, st, a)
    elif tb in ('char', 'signed char', 'unsigned char'):
        v = e.literal(st, bytes([a & 255])) if isinstance(a, int) else Seq('char', 1, [(0, 'char', [z3.K(IntS, toz(a))])])
    elif tb in ('int', 'long', 'short', 'long long'):
        bits = 8 * e.T.size(tb)
        x = e.signed(a, bits) if not (isinstance(base, int) and base == 1) else a
        v = number(e, st, x, 16 if isinstance(base, int) and base == 1 else 10)
    elif tb in ('unsigned int', 'unsigned long', 'unsigned short', 'unsigned long long'):
        v = number(e, st, a, 16 if isinstance(base, int) and base == 1 else 10)
    elif tb.endswith('*') or tb in ('float', 'double', 'long double'):
        v = e.fresh_leaf(st, 'std::string', 'printed')       # unspecified text
        st.fact(z3.And(toz(v.n) >= 0, toz(v.n) < 2 ** 20))
    else:
        raise Unsupported("output of %s to a string stream" % t)
    if not isinstance(base, int):
        raise Unsupported("stream in an unknown number base")
    return stream_add(c, st, r, v)


def stream_add(c, st, r, v):
    e = c.eng
    o, off, tok = r
    cur = e.unpack_leaf(st, 'std::string', [tok.parts[0]])
    n = concat(c, st, cur, v)
    stream_put(st, o, off, Tok('stream', [e.blob_of(st, n), tok.parts[1]]))
    return c.args[0]


@reg('strncpy', 'strcpy')
def _strncpy(c, st):
    """copies up to n bytes of the string, then pads with zeros"""
    e = c.eng
    s = cstr(c, st, c.args[1])
    cont, d, i = e.byte_region(st, c.args[0])
    n = c.args[2] if c.sig.name == 'strncpy' or len(c.args) > 2 else toz(s.n) + 1
    if cont is None:
        raise Unsupported("strncpy into a scalar")
    e.oblige(st, z3.And(toz(i) >= 0, toz(n) >= 0, toz(i) + toz(n) <= toz(d.n)), "strncpy stays within its buffer")
    arr2 = fresh('cp', d.arr.sort())
    k = z3.Const('k', IntS)
    i0 = toz(i)
    st.fact(z3.ForAll([k], z3.Select(arr2, k) == z3.If(z3.And(k >= i0, k < i0 + toz(n)),
            z3.If(k - i0 < toz(s.n), z3.Select(s.arr, k - i0), z3.IntVal(0)), z3.Select(d.arr, k)), patterns=[z3.Select(arr2, k)]))
    e.put_abs(st, cont, Seq(d.elem, d.n, [(0, d.elem, [arr2])], None, None, d.fixed))
    return c.args[0]


@reg('std::endl', 'std::flush')
def _endl(c, st):
    return c.args[0]


def install(e):
    from . import lib_json
    e.handlers.update(H)
    for a in ('on_promise_dtor', 'on_set_value', 'on_set_exception', 'on_weak_lock', 'on_weak_expired', 'on_function', 'on_thread_start',
              'on_join', 'on_thread_atexit', 'on_wait', 'on_future'):
        if not hasattr(e, a):
            setattr(e, a, None)
