"""C15: CTFEvent, the parser of trace lines."""
import z3
from scv.spec import *
from scv.guard import quiet
from scv import lib_std
from scv.lib_std import find_term, substr_seq, bsub_term, BSUB, NUMK, NUMV
from scv.vals import FSort
from specs.map_tracker import arrs
from specs.transport import fld

CE = 'scalopus::CTFEvent'
SRCS = ['scalopus_tracing/src/lttng/ctfevent.cpp']
NPOS = 2 ** 64 - 1
ASSUMPTIONS = [
    "std::stod and std::stoull are functions of the text: a number, std::invalid_argument or std::out_of_range (a text that starts with a digit is never an invalid argument)",
    "lines are shorter than 2^62 bytes; std::string, std::map behave as the standard specifies",
    "a group's text is claimed to be taken over when the group is written '{ entries }' or '{ }'; an entry's value is numeric when it consists of digits with an optional minus sign and fits",
]

# the entries of a comma separated text: entry i is [ts, te), its first " = " at eq (-1: none)
ts, te, eq = (z3.Function('entry_' + n, Blob, IntS, IntS) for n in ('start', 'end', 'split'))
idx = z3.Function('entry_index', Blob, IntS, IntS)       # which entry starts there
cnt = z3.Function('entries', Blob, IntS)
key = z3.Function('entry_key', Blob, IntS, Blob)
val = z3.Function('entry_value', Blob, IntS, Blob)


def entry_axioms():
    C, i, k = z3.Const('C', Blob), z3.Const('i', IntS), z3.Const('k', IntS)
    a, n = barr(C), blen(C)
    S = z3.Select
    v = z3.And(i >= 0, i < cnt(C))
    T = te(C, i)
    return [
        z3.ForAll([C, i], z3.Implies(v, z3.And(
            ts(C, i) >= 0, ts(C, i) <= T, T <= n, z3.Implies(i == 0, ts(C, i) == 0), idx(C, ts(C, i)) == i, cnt(C) >= 1,
            (T == n) == (i == cnt(C) - 1),
            z3.Implies(T < n, z3.And(T + 2 <= n, S(a, T) == 44, S(a, T + 1) == 32, ts(C, i + 1) == T + 2, idx(C, T + 2) == i + 1)),
            z3.Or(eq(C, i) == -1, z3.And(eq(C, i) >= ts(C, i), eq(C, i) + 3 <= T, S(a, eq(C, i)) == 32, S(a, eq(C, i) + 1) == 61, S(a, eq(C, i) + 2) == 32)),
        )), patterns=[te(C, i)]),
        z3.ForAll([C], z3.And(cnt(C) >= 1, ts(C, 0) == 0, idx(C, 0) == 0), patterns=[cnt(C)]),
        z3.ForAll([C, i, k], z3.Implies(z3.And(v, k >= ts(C, i), k < T, k + 1 < n), z3.Not(z3.And(S(a, k) == 44, S(a, k + 1) == 32))), patterns=[z3.MultiPattern(te(C, i), S(a, k))]),
        z3.ForAll([C, i, k], z3.Implies(z3.And(v, k >= ts(C, i), k + 2 < T, z3.Or(eq(C, i) == -1, k < eq(C, i))), z3.Not(z3.And(S(a, k) == 32, S(a, k + 1) == 61, S(a, k + 2) == 32))), patterns=[z3.MultiPattern(te(C, i), S(a, k))]),
        z3.ForAll([C, i], z3.And(key(C, i) == BSUB(C, ts(C, i), eq(C, i) - ts(C, i)), val(C, i) == BSUB(C, eq(C, i) + 3, te(C, i) - eq(C, i) - 3)), patterns=[te(C, i)]),
    ]


def entry(C, i):
    """entry i exists and has a key and a value std::stoull accepts"""
    return z3.And(te(C, i) >= 0, i >= 0, i < cnt(C), eq(C, i) >= 0, NUMK['u'](val(C, i)) == 2)


def digits(b):
    k = z3.Const('k', IntS)
    c = z3.Select(barr(b), k)
    return z3.And(blen(b) >= 1, z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < blen(b)), z3.Or(z3.And(c >= 48, c <= 57), z3.And(k == 0, c == 45, blen(b) >= 2))), patterns=[c]))


def from_entries(M, C, upto):
    """every key comes from an entry before `upto`"""
    q, i = z3.Const('q', Blob), z3.Const('i', IntS)
    d, v = M.dom, arrs(M)[0]
    return z3.ForAll([q], z3.Implies(z3.Select(d, q), z3.Exists([i], z3.And(i < upto, entry(C, i), key(C, i) == q, z3.Select(v, q) == NUMV['u'](val(C, i))))))


def all_entries(M, C, upto):
    """every numeric entry before `upto` has a key"""
    i = z3.Const('i', IntS)
    return z3.ForAll([i], z3.Implies(z3.And(i < upto, entry(C, i), digits(val(C, i))), z3.Select(M.dom, key(C, i))), patterns=[te(C, i)])


FIELDS = [('time', 'timestamp_'), ('domain', 'tracepoint_domain_'), ('name', 'tracepoint_name_'), ('line', 'line_'), ('streamContext', 'stream_context_'), ('eventContext', 'event_context_'), ('eventData', 'tracepoint_data_')]
MAPT = 'std::map<std::string, unsigned long long>'


def parse_fn(P):
    """the function that takes the text of a group apart, wherever it is: text in, map out"""
    fs = []
    for q, l in P.by_qual.items():
        if 'CTFEvent' in q or q.startswith('scalopus::'):
            for f in l:
                p = parse_sig(f.demangled).params or []
                if len(p) == 1 and p[0].rstrip('&') in ('std::string', 'std::string const') and (f.sret or '').startswith('class.std::map'):
                    fs.append(f)
    return fs[0] if len(fs) == 1 else None


class Parse(FnSpec):
    title = 'CTFEvent::CTFEvent(std::string)::processContext(std::string)'

    def __init__(self, P):
        f = parse_fn(P)
        if f is not None:
            self.qual = parse_sig(f.demangled).qual
            self.nparams = 1
            self.memfn = len(f.blocks and f.args) == 3
        else:
            self.qual = 'no function from the text of a group to its entries'

    def setup(self, e, st):
        self.e = e
        self.res = e.new_obj(st, 'result', 'heap')
        args = [self.res]
        if self.memfn:
            args.append(e.new_obj(st, 'function object', 'heap'))
        text = e.new_obj(st, 'text', 'param')
        v = e.get_abs(st, text, 'std::string')
        self.C = e.blob_of(st, v)
        n = toz(v.n)
        st.fact(z3.And(n >= 0, n < 2 ** 62, n == blen(self.C)))
        for f in entry_axioms():
            st.fact(f)
        st.fact(cnt(self.C) >= 1)
        return args + [text], {}

    def install(self, e):
        e.invariants.append(self.loop_invs)
        e.merge_threshold = 40

    def loop_invs(self, e, fr, head0, st, mod):
        res, ints, maps = [], [], []
        for k in mod:
            if k[0] != 'c':
                continue
            c = head0.mem[k[1]].cells.get(k[2])
            v = c[1] if c is not None else mod[k][1]
            get = lambda s, k=k: s.mem[k[1]].cells[k[2]][1]
            if isinstance(v, Map):
                maps.append(get)
            elif isinstance(v, int) and not isinstance(v, bool) or z3.is_expr(v) and v.sort() == IntS:
                ints.append(get)
        C = self.C
        n = blen(C)

        def bound(s, X):
            x = idx(C, toz(X(s)))
            return z3.And(x >= 0, x < cnt(C), toz(X(s)) == ts(C, x), te(C, x) >= 0)

        def upto(s, X):
            return z3.If(bound(s, X), idx(C, toz(X(s))), cnt(C))
        flags = []
        for k in mod:
            if k[0] == 'c':
                c = head0.mem[k[1]].cells.get(k[2])
                if c is not None and c[0] == 1 and (isinstance(c[1], (int, bool)) or isz(c[1])):
                    flags += [lambda s, k=k: toz(s.mem[k[1]].cells[k[2]][1]) != 0, lambda s, k=k: toz(s.mem[k[1]].cells[k[2]][1]) == 0]
        for B in flags:
            # a flag that says whether there is more
            for X in ints:
                res.append(("at an entry unless done", lambda s, X=X, B=B: z3.Implies(B(s), bound(s, X)), False))
                for M in maps:
                    u = lambda s, X=X, B=B: z3.If(B(s), idx(C, toz(X(s))), cnt(C))
                    res.append(("keys are from entries", lambda s, u=u, M=M: from_entries(M(s), C, u(s)), False))
                    res.append(("entries before are in", lambda s, u=u, M=M: all_entries(M(s), C, u(s)), False))
        for X in ints:
            res.append(("at an entry", lambda s, X=X: z3.Or(bound(s, X), toz(X(s)) >= n), False))
            for Y in ints:
                if Y is not X:
                    res.append(("at the end", lambda s, X=X, Y=Y: z3.Implies(toz(Y(s)) == n, toz(X(s)) == n), False))
            for M in maps:
                res.append(("keys are from entries", lambda s, X=X, M=M: from_entries(M(s), C, upto(s, X)), False))
                res.append(("entries before are in", lambda s, X=X, M=M: all_entries(M(s), C, upto(s, X)), False))
        return res

    def post(self, e, o, env):
        st = o.st
        M = e.get_abs(st, self.res, MAPT)
        e.oblige(st, from_entries(M, self.C, cnt(self.C)), "the keys and values are those of entries of the text")
        e.oblige(st, all_entries(M, self.C, cnt(self.C)), "every numeric entry of the text is in")


class Ctor(FnSpec):
    qual, nparams, title = CE + '::CTFEvent', 1, 'CTFEvent::CTFEvent(std::string)'

    def setup(self, e, st):
        self.e = e
        this = e.new_obj(st, 'event', 'heap', CE)
        line = e.new_obj(st, 'line', 'param')
        self.me = this
        self.v = e.get_abs(st, line, 'std::string')
        self.L = e.blob_of(st, self.v)
        n = toz(self.v.n)
        st.fact(z3.And(n >= 0, n < 2 ** 62))
        for f in entry_axioms():
            st.fact(f)
        return [this, line], {}

    def install(self, e):
        f = parse_fn(e.P)
        if f is not None:
            e.contracts[parse_sig(f.demangled).qual] = self.parsed

    def parsed(self, c, st):
        e = c.eng
        if len(c.sig.params) != 1:
            raise Unsupported("parser of a group with other parameters")
        C = e.blob_of(st, e.get_abs(st, c.args[-1], 'std::string'))
        M = e.fresh_leaf(st, MAPT, 'group')
        st.fact(from_entries(M, C, cnt(C)))
        st.fact(all_entries(M, C, cnt(C)))
        e.put_abs(st, c.sret, M, MAPT)

    # ---- the delimiters, by their first occurrences
    def first(self, e, st, ch, pos):
        """first occurrence of a character at or after pos; -1: none"""
        k = z3.Const('k', IntS)
        a, n = self.v.arr, toz(self.v.n)
        r = find_term('find', [ch])(self.L, pos)
        st.fact(z3.Or(r == NPOS, z3.And(r >= pos, r < n, z3.Select(a, r) == ch)))
        st.fact(z3.ForAll([k], z3.Implies(z3.And(k >= pos, k < z3.If(r == NPOS, n, r)), z3.Select(a, k) != ch), patterns=[z3.Select(a, k)]))
        return r

    def member(self, e, st, n):
        o, t = fld(e, CE, n)
        with quiet(e):
            return e.get_abs(st, e.shift(self.me, o), t) if t not in ('double', 'float') else e.load(st, e.shift(self.me, o), None)

    def post(self, e, o, env):
        st = o.st
        L, S = self.L, z3.Select
        a, n = self.v.arr, toz(self.v.n)
        F = lambda ch, pos: self.first(e, st, ord(ch), pos)
        e.oblige(st, e.blob_of(st, self.member(e, st, 'line_')) == L, "the original line is kept")
        # time: between the first [ and the next ]
        p0 = F('[', z3.IntVal(0))
        p1 = F(']', p0)
        tb = bsub_term(L, p0 + 1, p1 - p0 - 1)
        has = z3.And(p0 != NPOS, p1 != NPOS)
        ok = z3.And(has, NUMK['d'](tb) == 2)
        oo, tt = fld(e, CE, 'timestamp_')
        with quiet(e):
            t = e.read_val(st, e.shift(self.me, oo), 'double')[0][2]
        zero = z3.Const('f_0.0', FSort)
        e.oblige(st, t == z3.If(ok, NUMV['d'](tb), zero), "the time is the number between the brackets, zero when there is none")
        # host and trace point: the words after it
        s1 = F(' ', p1)
        s2 = F(' ', s1 + 1)
        s3 = F(' ', s2 + 1)
        words = z3.And(has, s1 != NPOS, s2 != NPOS, s3 != NPOS)
        wn = s3 - s2 - 1
        end = z3.If(z3.And(wn > 0, S(a, s3 - 1) == 58), s3 - 1, s3)
        c = F(':', s2 + 1)
        dom, name = self.member(e, st, 'tracepoint_domain_'), self.member(e, st, 'tracepoint_name_')
        exact = z3.And(words, c < end, self.part(e, st, dom, s2 + 1, c - s2 - 1), self.part(e, st, name, c + 1, end - c - 1))
        empty = z3.And(toz(dom.n) == 0, toz(name.n) == 0)
        e.oblige(st, z3.Or(empty, exact), "domain and name are the parts of the trace point, or empty")
        # the groups
        pos, gs = s3, []
        braces = words
        wf = z3.And(p0 == 0, ok, s1 == p1 + 1, s2 > s1 + 1, c < end, end == s3 - 1)
        for g in range(3):
            b = F('{', pos)
            q = F('}', b + 1)
            braces = z3.And(braces, b != NPOS, q != NPOS)
            gs.append((b, q, braces))
            pos = q
        sp = [z3.And(S(a, b + 1) == 32, S(a, q - 1) == 32) for b, q, br in gs]
        wf = z3.And([wf, braces] + sp)
        e.oblige(st, z3.Implies(wf, exact), "a well-formed line's domain and name are taken over")
        for (b, q, br), s, m in zip(gs, sp, ('stream_context_', 'event_context_', 'tracepoint_data_')):
            M = self.member(e, st, m)
            k = z3.Const('q', Blob)
            # text of the group: without the space next to each brace
            C = BSUB(L, z3.simplify(b + 2), z3.simplify(q - b - 3))
            none = z3.ForAll([k], z3.Not(S(M.dom, k)))
            e.oblige(st, z3.Implies(z3.Not(br), none), "a group that is missing is empty: " + m)
            e.oblige(st, z3.Implies(z3.And(br, q - b < 4), none), "an empty group is empty: " + m)
            claim = z3.And(br, s, q - b >= 4)
            e.oblige(st, z3.Implies(claim, from_entries(M, C, cnt(C))), "the entries of a group are those of its text: " + m)
            e.oblige(st, z3.Implies(z3.And(claim, wf), all_entries(M, C, cnt(C))), "every numeric entry of a group is taken over: " + m)

    def part(self, e, st, x, pos, n):
        k = z3.Const('k', IntS)
        return z3.Or(e.blob_of(st, x) == bsub_term(self.L, pos, n), z3.And(toz(x.n) == n, z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < n), z3.Select(x.arr, k) == z3.Select(self.v.arr, pos + k)))))


class Get(FnSpec):
    """an accessor returns the field, as it is"""

    def __init__(self, name, field):
        self.qual, self.nparams, self.field = CE + '::' + name, 0, field
        self.title = 'CTFEvent::%s()' % name

    def setup(self, e, st):
        self.me = e.new_obj(st, 'event', 'heap', CE)
        o, self.t = fld(e, CE, self.field)
        self.at = e.shift(self.me, o)
        self.res = e.new_obj(st, 'result', 'heap') if self.fn.sret else None
        with quiet(e):
            self.v = e.read_val(st, self.at, 'double')[0][2] if self.t == 'double' else e.get_abs(st, self.at, self.t)
        return ([self.res] if self.res else []) + [self.me], {}

    def post(self, e, o, env):
        st = o.st
        if self.t == 'double':
            e.oblige(st, o.ret == self.v, "the field is returned")
            return
        if self.res is None:
            if not isinstance(o.ret, Ptr):
                raise Unsupported("accessor returns something else")
            e.oblige(st, same_ptr(o.ret, self.at), "the field is returned")
        w = e.get_abs(st, self.res or self.at, self.t)
        e.oblige(st, z3.And([toz(x) == toz(y) for x, y in zip(w.terms(), self.v.terms())]) if not isinstance(w, Seq) else e.blob_of(st, w) == e.blob_of(st, self.v), "the field is returned as it is")


class Number(FnSpec):
    """pid(), tid(): the entry of the event context, an exception when there is none"""

    def __init__(self, name, entry):
        self.qual, self.nparams, self.entry = CE + '::' + name, 0, entry
        self.title = 'CTFEvent::%s()' % name

    def setup(self, e, st):
        self.me = e.new_obj(st, 'event', 'heap', CE)
        o, t = fld(e, CE, 'event_context_')
        with quiet(e):
            self.M = e.get_abs(st, e.shift(self.me, o), t)
        self.k = e.blob_of(st, e.literal(st, self.entry))
        return [self.me], {}

    def exc_ok(self, e, o, env):
        return z3.Not(z3.Select(self.M.dom, self.k))

    def post(self, e, o, env):
        e.oblige(o.st, z3.And(z3.Select(self.M.dom, self.k), toz(o.ret) == z3.Select(arrs(self.M)[0], self.k)), "the entry of the event context is returned")


def same_ptr(a, b):
    return a.obj == b.obj and a.off == b.off


def prog():
    return Program(SRCS)


def c15(tier):
    P = prog()
    return verify_all(P, [Ctor(), Parse(P)] + [Get(n, f) for n, f in FIELDS] + [Number('pid', b'vpid'), Number('tid', b'pthread_id')], tier)
