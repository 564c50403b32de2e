"""Assumed contracts of nlohmann::json: values are terms of an uninterpreted sort with constructors and projections; a value written
with one type reads back as that value with the same type; to_bson/from_bson round-trip.  User-defined to_json/from_json are verified code."""
import re
import z3
from .vals import *
from .types import tbase, targs, norm
from .engine import Outcome
from .lib_std import reg, PTR, getseq, put, maythrow, strip_ref, cstr, drop

J = 'nlohmann::json'
B = 'nlohmann::basic_json::'
NUL, OBJ, ARR, STR, BOOL, INT, FLT = range(7)
AB = z3.ArraySort(Blob, BoolS)
AJ = z3.ArraySort(Blob, JSort)
jkind = z3.Function('jkind', JSort, IntS)
jdom = z3.Function('jdom', JSort, AB)
jval = z3.Function('jval', JSort, AJ)
jobj = z3.Function('jobj', AB, AJ, JSort)
jboolv = z3.Function('jboolv', JSort, IntS)
jintv = z3.Function('jintv', JSort, IntS)
jfltv = z3.Function('jfltv', JSort, FSort)
jstrv = z3.Function('jstrv', JSort, Blob)
jbool = z3.Function('jbool', IntS, JSort)
jint = z3.Function('jint', IntS, JSort)
jflt = z3.Function('jflt', FSort, JSort)
jstr = z3.Function('jstr', Blob, JSort)
bson = z3.Function('bson', JSort, Blob)
unbson = z3.Function('unbson', Blob, JSort)
isbson = z3.Function('isbson', Blob, BoolS)
jnull = z3.Const('jnull', JSort)
INTS = ('char', 'signed char', 'unsigned char', 'short', 'unsigned short', 'int', 'unsigned int', 'long', 'unsigned long', 'pthread_t')


def bare(t):
    t = strip_ref(t)
    return re.sub(r'\bconst$', '', t).strip()


def mkobj(st, dom, val):
    r = jobj(dom, val)
    st.fact(z3.And(jkind(r) == OBJ, jdom(r) == dom, jval(r) == val))
    return r


def null(st):
    st.fact(jkind(jnull) == NUL)
    return jnull


def empty_obj(st):
    return mkobj(st, z3.K(Blob, z3.BoolVal(False)), z3.Const('jnothing', AJ))


def key(e, st, s):
    """blob of a literal key"""
    return e.literal(st, s).blob


def has(e, st, j, k):
    return z3.And(jkind(j) == OBJ, z3.Select(jdom(j), key(e, st, k)))


def at(e, st, j, k):
    return z3.Select(jval(j), key(e, st, k))


def tname(t):
    return re.sub(r'[^A-Za-z0-9]+', '_', t)


def typed(e, t):
    """constructor, recogniser and projections of the encoding of a container type"""
    ss = e.T.sorts(t)
    n = tname(t)
    enc = z3.Function('enc_' + n, *(ss + [JSort]))
    isa = z3.Function('is_' + n, JSort, BoolS)
    dec = [z3.Function('dec_%s_%d' % (n, i), JSort, s) for i, s in enumerate(ss)]
    return enc, isa, dec


def encode(e, st, t, v):
    if t == J:
        return v.parts[0]
    if t == 'bool':
        x = e.pack_leaf(st, 'bool', v)[0]
        r = jbool(x)
        st.fact(z3.And(jkind(r) == BOOL, jboolv(r) == x))
        return r
    if t in INTS:
        x = toz(v)
        if not t.startswith('unsigned') and t != 'pthread_t':
            x = toz(e.signed(v, 8 * e.T.size(t)))
        r = jint(x)
        st.fact(z3.And(jkind(r) == INT, jintv(r) == x))
        return r
    if t in ('double', 'float'):
        r = jflt(v)
        st.fact(z3.And(jkind(r) == FLT, jfltv(r) == v))
        return r
    if t == 'std::string':
        b = e.blob_of(st, v)
        r = jstr(b)
        st.fact(z3.And(jkind(r) == STR, jstrv(r) == b))
        return r
    if e.T.kind(t) in ('seq', 'map') and plain(e, t):
        ts = e.pack_leaf(st, t, v)
        enc, isa, dec = typed(e, t)
        r = enc(*ts)
        st.fact(z3.And([isa(r)] + [d(r) == x for d, x in zip(dec, ts)]))
        strk = e.T.kind(t) == 'map' and targs(t)[0] == 'std::string'
        st.fact(jkind(r) == (OBJ if strk else ARR))
        return r
    raise Unsupported("json of a " + t)


def plain(e, t):
    if t in INTS or t in ('bool', 'double', 'float', 'std::string'):
        return True
    k = e.T.kind(t)
    if k == 'seq':
        return plain(e, targs(t)[0])
    if k == 'map':
        return all(plain(e, x) for x in targs(t)[:2])
    return k == 'prod' and all(plain(e, x) for x in targs(t))


def decode(e, st, t, j):
    """(condition under which the conversion succeeds, packed terms)"""
    k = jkind(j)
    if t == J:
        return True, [j]
    if t == 'bool':
        st.fact(z3.And(jboolv(j) >= 0, jboolv(j) <= 1))
        return k == BOOL, [jboolv(j)]
    if t in INTS:
        bits = 8 * e.T.size(t)
        lo, hi = (0, 2 ** bits) if t.startswith('unsigned') or t == 'pthread_t' else (-2 ** (bits - 1), 2 ** (bits - 1))
        other = fresh('jconv')
        st.fact(z3.And(other >= lo, other < hi))
        st.fact(z3.And(jboolv(j) >= 0, jboolv(j) <= 1))
        x = z3.If(z3.And(k == INT, jintv(j) >= lo, jintv(j) < hi), jintv(j), z3.If(k == BOOL, jboolv(j), other))
        if lo < 0:
            x = z3.If(x < 0, x + 2 ** bits, x)
        return z3.Or(k == INT, k == BOOL, k == FLT), [x]
    if t in ('double', 'float'):
        return z3.Or(k == INT, k == BOOL, k == FLT), [z3.If(k == FLT, jfltv(j), fresh('jconv', FSort))]
    if t == 'std::string':
        return k == STR, [jstrv(j)]
    if e.T.kind(t) in ('seq', 'map') and plain(e, t):
        enc, isa, dec = typed(e, t)
        strk = e.T.kind(t) == 'map' and targs(t)[0] == 'std::string'
        st.fact(z3.Implies(isa(j), k == (OBJ if strk else ARR)))
        return isa(j), [d(j) for d in dec]
    return None, None


def jget(c, st, p):
    v = c.eng.get_abs(st, p, J)
    if not (isinstance(v, Tok) and v.kind == 'json'):
        raise Unsupported("%r is not a json value" % (v,))
    return v.parts[0]


def jput(c, st, p, term):
    put(c, st, p, Tok('json', [term]), J)


def keyarg(c, st, i=1):
    """blob of a key argument, or None when it is not a key"""
    t = bare(c.sig.params[i - 1])
    e = c.eng
    if re.match(r'char(?: const)? ?\(&+\) ?\[\d+\]$', c.sig.params[i - 1]) or t in ('char*', 'char const*') or re.match(r'char(?: const)?\s*\[\d+\]$', t):
        return e.blob_of(st, cstr(c, st, c.args[i]))
    if t == 'std::string':
        return e.blob_of(st, getseq(c, st, c.args[i], 'std::string'))
    return None


@reg(B + 'basic_json', )
def _ctor(c, st):
    e = c.eng
    pr = list(c.sig.params)
    if not pr or pr[0] == 'std::nullptr_t':
        jput(c, st, c.args[0], null(st))
        return None
    t = bare(pr[0])
    if len(pr) == 1 and t == J:
        jput(c, st, c.args[0], jget(c, st, c.args[1]))
        if pr[0].endswith('&&'):
            jput(c, st, c.args[1], null(st))
        return None
    if len(pr) == 1 and re.match(r'char(?: const)? ?\(&+\) ?\[\d+\]$', pr[0]) or t in ('char*', 'char const*') or re.match(r'char(?: const)?\s*\[\d+\]$', t):
        p = c.args[1]
        if t in ('char*', 'char const*') and pr[0].endswith('&'):
            p = e.load(st, p, PTR)
        jput(c, st, c.args[0], encode(e, st, 'std::string', cstr(c, st, p)))
        return None
    if len(pr) == 1 and '::value_t' in t:
        k = c.args[1]
        if k == 0:
            jput(c, st, c.args[0], null(st))
        elif k == 1:
            jput(c, st, c.args[0], empty_obj(st))
        else:
            raise Unsupported("json of kind %r" % (k,))
        return None
    if len(pr) == 1 and (t in INTS or t in ('bool', 'double', 'float', 'std::string') or e.T.kind(t) in ('seq', 'map') and plain(e, t)):
        v = e.read_leaf(st, c.args[1], t) if pr[0].endswith('&') else c.args[1]
        jput(c, st, c.args[0], encode(e, st, t, v))
        return None
    if pr[0].startswith('std::initializer_list'):
        return from_list(c, st)
    return NotImplemented


jlen = z3.Function('jlen', JSort, IntS)
jfst = z3.Function('jfst', JSort, JSort)
jsnd = z3.Function('jsnd', JSort, JSort)


def mklist(st, js):
    r = z3.Function('jlist_%d' % len(js), *([JSort] * (len(js) + 1)))(*js) if js else z3.Const('jemptyarr', JSort)
    st.fact(z3.And([jkind(r) == ARR, jlen(r) == len(js)] + [f(r) == x for f, x in zip((jfst, jsnd), js)]))
    return r


def from_list(c, st):
    """basic_json(initializer_list, type_deduction, manual_type): an object when every element is an array of two of which the first
    is a string, otherwise an array; elements are json_ref objects (their constructors are analysed code)"""
    e = c.eng
    p, n = c.args[1], c.args[2]
    if not isinstance(n, int) or n > 12 or len(c.args) > 3 and c.args[3] not in (1, True):
        raise Unsupported("json from a list of unknown shape")
    REF = 'nlohmann::detail::json_ref<%s>' % J
    sz, js = e.T.size(REF), []
    fs = {f: q for q, x, f in e.L.all_fields(REF)}
    for i in range(n):
        q = e.shift(p, i * sz)
        r = e.load(st, e.shift(q, fs['value_ref']), PTR)
        null = e.is_null(r)
        if null is True:
            r = e.shift(q, fs['owned_value'])
        elif null is not False:
            raise Unsupported("json_ref of unknown kind")
        js.append(jget(c, st, r))
    pair = z3.And([z3.And(jkind(j) == ARR, jlen(j) == 2, jkind(jfst(j)) == STR) for j in js] + [z3.BoolVal(True)])
    outs = []
    for s, b in e.split(st, pair, True, False):
        if b:
            dom, val = z3.K(Blob, z3.BoolVal(False)), z3.Const('jnothing', AJ)
            for j in reversed(js):      # the first of two members with the same key stays
                k = jstrv(jfst(j))
                dom, val = z3.Store(dom, k, True), z3.Store(val, k, jsnd(j))
            jput(c, s, c.args[0], mkobj(s, dom, val))
        else:
            jput(c, s, c.args[0], mklist(s, js))
        outs.append(Outcome(s, None))
    return outs


jdump = z3.Function('jdump', JSort, Blob)
isjson = z3.Function('isjson', Blob, BoolS)
unjson = z3.Function('unjson', Blob, JSort)


@reg(B + 'dump')
def _dump(c, st):
    e = c.eng
    j = jget(c, st, c.args[0])
    b = jdump(j)
    st.fact(z3.And(isjson(b), unjson(b) == j, blen(b) >= 1))
    if not (isinstance(c.args[1], int) and c.args[1] in (-1, 0xffffffff, 0xffffffffffffffff)):
        b2 = fresh('dump', Blob)    # indented: other text for the same value
        st.fact(z3.And(isjson(b2), unjson(b2) == j, blen(b2) >= 1))
        b = b2
    put(c, st, c.sret, e.unpack_leaf(st, 'std::string', [b]), 'std::string')


@reg(B + 'parse')
def _parse(c, st):
    e = c.eng
    t = bare(c.sig.params[0])
    if t not in ('std::string',):
        raise Unsupported("json parsed from a " + t)
    if len(c.args) > 2 and c.args[2] not in (1, True):
        raise Unsupported("json::parse without exceptions")
    if len(c.args) > 3 and c.args[3] not in (0, False):
        raise Unsupported("json::parse with comments")
    b = e.blob_of(st, getseq(c, st, c.args[0], t))

    def ok(s):
        jput(c, s, c.sret, unjson(b))
    return maythrow(c, st, z3.Not(isjson(b)), 'nlohmann::detail::parse_error', ok)


def same(st, a, b):
    r = fresh('jeq', BoolS)
    k = jkind(a)
    st.fact(z3.Implies(a == b, z3.Or(r, k == FLT, k == ARR, k == OBJ)))
    st.fact(z3.Implies(z3.Or(k == STR, jkind(b) == STR), r == z3.And(k == jkind(b), jstrv(a) == jstrv(b))))
    st.fact(z3.Implies(z3.Or(k == NUL, jkind(b) == NUL), r == (k == jkind(b))))
    return r


def _cmp(neg):
    def f(c, st):
        e = c.eng
        js = []
        for p, t in zip(c.args, c.sig.params):
            t = bare(t)
            if t == J:
                js.append(jget(c, st, p))
            elif t in ('char*', 'char const*'):
                js.append(encode(e, st, 'std::string', cstr(c, st, p)))
            elif t == 'std::nullptr_t':
                js.append(null(st))
            else:
                raise Unsupported("json compared with a " + t)
        r = same(st, *js)
        return z3.Not(r) if neg else r
    return f


reg('nlohmann::operator==')(_cmp(False))
reg('nlohmann::operator!=')(_cmp(True))


@reg(B + 'data::data')
def _data(c, st):
    jput(c, st, c.args[0], null(st))


@reg(B + '~basic_json', B + 'data::~data', B + 'set_parents', B + 'assert_invariant')
def _nop(c, st):
    return c.args[1] if c.sig.name == 'set_parents' and len(c.args) > 1 else None


@reg(B + 'operator=')
def _assign(c, st):
    v = jget(c, st, c.args[1])
    jput(c, st, c.args[0], v)
    return c.args[0]


@reg(B + 'object')
def _object(c, st):
    e = c.eng
    # object(initializer_list): only the empty list
    n = c.args[1] if len(c.args) > 1 else 0
    if not (isinstance(n, int) and n == 0):
        raise Unsupported("json object from a list")
    jput(c, st, c.sret, empty_obj(st))


@reg(B + 'array')
def _array(c, st):
    n = c.args[1] if len(c.args) > 1 else 0
    if not (isinstance(n, int) and n == 0):
        raise Unsupported("json array from a list")
    r = z3.Const('jemptyarr', JSort)
    st.fact(jkind(r) == ARR)
    jput(c, st, c.sret, r)


@reg(B + 'operator[]')
def _index(c, st):
    e = c.eng
    k = keyarg(c, st)
    if k is None:
        raise Unsupported("json index " + str(c.sig.params))
    p = c.args[0]
    j = jget(c, st, p)
    const = c.sig.const

    def ok(s):
        if const:
            e.oblige(s, z3.Select(jdom(j), k), "the json member read exists")
            return EPtr(p, k, 0)
        o = z3.If(jkind(j) == NUL, empty_obj(s), j)
        dom, val = jdom(o), jval(o)
        if e.entails_fast(s, jkind(j) == OBJ):
            dom, val = jdom(j), jval(j)
        if not e.entails_fast(s, z3.And(jkind(j) == OBJ, z3.Select(dom, k))):
            jput(c, s, p, mkobj(s, z3.Store(dom, k, True), z3.Store(val, k, z3.If(z3.Select(dom, k), z3.Select(val, k), null(s)))))
        return EPtr(p, k, 0)
    return maythrow(c, st, z3.Not(z3.Or(jkind(j) == OBJ, z3.And(z3.BoolVal(not const), jkind(j) == NUL))), 'nlohmann::detail::type_error', ok)


@reg(B + 'at')
def _at(c, st):
    e = c.eng
    k = keyarg(c, st)
    if k is None:
        raise Unsupported("json at " + str(c.sig.params))
    p = c.args[0]
    j = jget(c, st, p)
    res = []
    for s, b in e.split(st, jkind(j) == OBJ, True, False):
        if not b:
            res += maythrow(c, s, True, 'nlohmann::detail::type_error', None)
            continue
        res += maythrow(c, s, z3.Not(z3.Select(jdom(j), k)), 'nlohmann::detail::out_of_range', lambda s2: EPtr(p, k, 0))
    return res


@reg(B + 'contains', B + 'count')
def _contains(c, st):
    k = keyarg(c, st)
    if k is None:
        raise Unsupported("json contains")
    j = jget(c, st, c.args[0])
    r = z3.And(jkind(j) == OBJ, z3.Select(jdom(j), k))
    return r if c.sig.name == 'contains' else z3.If(r, z3.IntVal(1), z3.IntVal(0))


def _isk(*ks):
    def f(c, st):
        j = jget(c, st, c.args[0])
        return z3.Or([jkind(j) == k for k in ks])
    return f


for _n, _k in (('is_null', (NUL,)), ('is_object', (OBJ,)), ('is_array', (ARR,)), ('is_string', (STR,)), ('is_boolean', (BOOL,)), ('is_number', (INT, FLT)), ('is_number_float', (FLT,))):
    reg(B + _n)(_isk(*_k))


@reg(B + 'get', B + 'get_to', B + 'operator')
def _get(c, st):
    e = c.eng
    to = c.sig.name == 'get_to'
    if to:
        t = bare(c.sig.params[0])
    else:
        t = bare(c.sig.targs[0]) if c.sig.targs else None
    if t is None:
        return NotImplemented
    if not (t == J or t in INTS or t in ('bool', 'double', 'float', 'std::string') or e.T.kind(t) in ('seq', 'map') and plain(e, t)):
        return NotImplemented
    j = jget(c, st, c.args[0])
    ok, ts = decode(e, st, t, j)

    def fin(s):
        v = e.unpack_leaf(s, t, ts)
        if to:
            e.write_leaf(s, c.args[1], t, v)
            return c.args[1]
        if c.sret is not None:
            e.write_leaf(s, c.sret, t, v)
            return None
        return e.coerce(s, v, c.retty)
    bad = False if ok is True else z3.Not(ok)
    return maythrow(c, st, bad, 'nlohmann::detail::type_error', fin)


@reg(B + 'to_bson')
def _to_bson(c, st):
    e = c.eng
    if len(c.sig.params) != 1:
        raise Unsupported("to_bson into an adapter")
    j = jget(c, st, c.args[0])

    def ok(s):
        b = bson(j)
        s.fact(z3.And(isbson(b), unbson(b) == j, blen(b) >= 5))
        put(c, s, c.sret, e.unpack_leaf(s, 'std::vector<unsigned char>', [b]), 'std::vector<unsigned char>')
    return maythrow(c, st, jkind(j) != OBJ, 'nlohmann::detail::type_error', ok)


@reg(B + 'from_bson')
def _from_bson(c, st):
    e = c.eng
    t = bare(c.sig.params[0])
    if t not in ('std::vector<unsigned char>', 'std::string'):
        raise Unsupported("from_bson of " + t)
    if c.args[2] is not True and c.args[2] != 1:
        raise Unsupported("from_bson without exceptions")
    b = e.blob_of(st, getseq(c, st, c.args[0], t))
    j = unbson(b)

    def ok(s):
        s.fact(jkind(j) == OBJ)
        jput(c, s, c.sret, j)
    return maythrow(c, st, z3.Not(isbson(b)), 'nlohmann::detail::parse_error', ok)


def element(e, st, cont, k):
    """member of an object (engine: object inside a json cell)"""
    v = e.get_abs(st, cont, J)
    j = v.parts[0]
    e.oblige(st, z3.Select(jdom(j), k), "the json member accessed exists")
    return Tok('json', [z3.Select(jval(j), k)])


def set_element(e, st, cont, k, x):
    j = e.get_abs(st, cont, J).parts[0]
    e.oblige(st, z3.Select(jdom(j), k), "the json member written exists")
    e.put_abs(st, cont, Tok('json', [mkobj(st, jdom(j), z3.Store(jval(j), k, x.parts[0]))]), J)
