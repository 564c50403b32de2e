"""C22: a recording session of the catapult backend."""
import json as pyjson
import z3
from scv.spec import *
from scv import lib_json as lj, lib_std
from scv import guard
from scv.guard import Guarded, quiet, eqv, took_effect
from scv.lib_std import excs, mkey
from specs.map_tracker import arrs
from specs.transport import fld, appended, tail

TS = 'scalopus::TraceSession'
ES = 'scalopus::TraceEventSource'
SPS = 'std::shared_ptr<%s>' % ES
J = 'nlohmann::json'
JS = 'std::vector<%s>' % J
SRCS = ['scalopus_catapult/src/trace_session.cpp']
BOUND = 1000
ix_s = z3.Function('ix_source', IntS, IntS)     # position of a source in the session's list (each is added once)
NONE = z3.K(IntS, z3.BoolVal(False))
ASSUMPTIONS = [
    "nlohmann::json: parse(dump(v)) is v, dump writes one value on its own, a list of two-element lists that start with a string makes an object, operator[] adds a missing member of an object as null",
    "event sources and the functions for output and logging do not touch the session's private state; the logger is set before messages arrive",
    "the text of the events' strings is valid UTF-8 (json::dump throws otherwise); fewer than 2^48 events are collected",
    "each source is added to a session once",
]


def prog():
    return Program(SRCS)


# ---- texts written piece by piece: a configuration is the text so far, with each run of values written E and space dropped
class Texts:
    def __init__(self):
        self.ids = {}
        self.text = []

    def id(self, t):
        t = self.canon(t)
        if t not in self.ids:
            self.ids[t] = len(self.text)
            self.text.append(t)
        return self.ids[t]

    @staticmethod
    def canon(t):
        out, ins, esc = [], False, False
        for ch in t:
            if ins:
                out.append(ch)
                if esc:
                    esc = False
                elif ch == '\\':
                    esc = True
                elif ch == '"':
                    ins = False
            elif ch not in ' \t\r\n':
                out.append(ch)
                ins = ch == '"'
        t = ''.join(out)
        while '\0,\0' in t:
            t = t.replace('\0,\0', '\0')
        return t

    def value(self, i):
        """the list of values of the complete message, or None"""
        try:
            d = pyjson.loads(self.text[i].replace('\0', '"\\u0001"'))
        except ValueError:
            return None
        ok = isinstance(d, dict) and d.get('method') == 'Tracing.dataCollected' and isinstance(d.get('params'), dict) and isinstance(d['params'].get('value'), list)
        return d['params']['value'] if ok else None


class TSpec(FnSpec):
    def install(self, e):
        self.e = e

    def obj(self, e, st):
        this = e.new_obj(st, 'session', 'param', TS)
        e.take_addr(this)
        self.me = this
        self.resp, self.log = z3.Const('response_function', IntS), z3.Const('logger', IntS)
        st.fact(z3.And(self.resp > 0, self.log > 0, self.resp != self.log))
        for f, x in (('response_', self.resp), ('logger_', self.log)):
            o, t = fld(e, TS, f)
            e.put_abs(st, e.shift(this, o), Tok('function', [x]), t)
        for q, t, f in e.L.all_fields(TS):
            if f == 'CHUNK_SIZE':
                self.chunk = self.ctor_gives(e, st, q)
                e.store(st, e.shift(this, q), self.chunk, 8)

        def called(c, st, v):
            x = toz(v.parts[0])
            for s, b in e.split(st, x == self.log, True, False):
                if not b:
                    e.oblige(s, x == self.resp, "messages are given to the response function")
                    self.sent(e, s, e.blob_of(s, e.get_abs(s, c.args[1], 'std::string')))
            return None
        e.on_function = called

        def ident(c, st):
            b = fresh('identifier', Blob)
            e.put_abs(st, c.sret, e.unpack_leaf(st, 'std::string', [b]), 'std::string')
        e.contracts[TS + '::identifier'] = ident
        return this

    chunk = None

    def sources(self, e, st):
        """the list of sources: other threads add to it, so it is arbitrary until its mutex is taken"""
        o, t = fld(e, TS, 'sources_')
        if t != 'std::vector<%s>' % SPS:
            raise Unsupported("representation of the sources changed")
        m, _ = fld(e, TS, 'sources_mutex_')
        G = Guarded('sources', e.shift(self.me, o), t, e.shift(self.me, m))
        v = G.fresh(e, st)
        self.src = v
        j = z3.Const('j', IntS)
        self.n = n = toz(v.n)
        self.sa = arrs(v)[0]
        st.fact(z3.And(n >= 0, n < 2 ** 32, z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n), z3.And(z3.Select(self.sa, j) > 0, ix_s(z3.Select(self.sa, j)) == j)), patterns=[z3.Select(self.sa, j)])))
        guard.install(e, [G])
        lock = e.on_lock
        st.ghost['taken'] = z3.IntVal(0)

        def on_lock(e, st, p, mode):
            if mkey(p) == mkey(G.mutex) and self.fixed:
                if not e.entails_fast(st, st.ghost['taken'] == 0):
                    raise Unsupported("the sources are taken more than once")
                st.ghost['taken'] = st.ghost['taken'] + 1
                st.ghost['sources.pre'] = v
                st.ghost.setdefault('sources.mod', z3.BoolVal(False))
                return
            lock(e, st, p, mode)
            if mkey(p) == mkey(G.mutex):
                w = st.ghost['sources.pre']
                st.fact(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < toz(w.n)), z3.Select(arrs(w)[0], j) > 0), patterns=[z3.Select(arrs(w)[0], j)]))
        e.on_lock = on_lock
        return G

    fixed = True

    def ctor_gives(self, e, st, off):
        """the value of a constant member, from the constructor"""
        fs = find_fn(e.P, Ctor())
        if len(fs) != 1:
            raise Unsupported("no constructor")
        s = st.copy()
        a = Ctor().setup(e, s)[0]
        with quiet(e):
            for o in e.run(s, fs[0], a, 0):
                v = o.st.mem[a[0].obj].cells.get(a[0].off + off)
                if v is not None and isinstance(v[1], int):
                    return v[1]
        raise Unsupported("the size of a chunk is not known")

    def sent(self, e, st, b):
        e.oblige(st, False, "no message is sent here")


class Ctor(TSpec):
    qual, nparams, title = TS + '::TraceSession', 1, 'TraceSession::TraceSession'

    def setup(self, e, st):
        this = e.new_obj(st, 'session', 'this', TS)
        e.take_addr(this)
        self.this = this
        f = e.new_obj(st, 'function', 'param')
        self.x = z3.Const('response_function', IntS)
        st.fact(self.x > 0)
        _, t = fld(e, TS, 'response_')
        self.ft = t
        e.put_abs(st, f, Tok('function', [self.x]), t)
        st.ghost['started'] = z3.IntVal(0)

        def start(c, st, *a):
            st.ghost['started'] = st.ghost['started'] + 1
        e.on_thread_start = start
        return [this, f], {}

    def post(self, e, o, env):
        st = o.st
        with quiet(e):
            q, t = fld(e, TS, 'response_')
            v = e.get_abs(st, e.shift(self.this, q), t)
            e.oblige(st, toz(v.parts[0]) == self.x, "the response function given is the one used")
            for q, t, f in e.L.all_fields(TS):
                if f == 'CHUNK_SIZE':
                    c = st.mem[self.this.obj].cells.get(self.this.off + q)
                    n = c[1]
                    e.oblige(st, z3.And(toz(n) >= 1, toz(n) <= BOUND), "a chunk has at most %d events" % BOUND)
        e.oblige(st, st.ghost['started'] == 1, "the session has one worker")


class Chunked(TSpec):
    qual, nparams, title = TS + '::chunkedTransmit', 1, 'TraceSession::chunkedTransmit'

    def setup(self, e, st):
        e.int_candidates = False
        this = self.obj(e, st)
        p = e.new_obj(st, 'events', 'param')
        self.v = v = e.fresh_leaf(st, JS, 'events')
        st.fact(z3.And(toz(v.n) >= 0, toz(v.n) < 2 ** 48))
        e.put_abs(st, p, v, JS)
        g = st.ghost
        g['pos'] = z3.IntVal(0)
        g['text'] = z3.Const('notext', Blob)
        g['sl'] = e.fresh_leaf(st, JS, 'noslice')

        def fmt(c, st):
            b = fresh('text', Blob)
            st.ghost['text'] = b
            st.ghost['sl'] = e.get_abs(st, c.args[0], JS)
            e.put_abs(st, c.sret, e.unpack_leaf(st, 'std::string', [b]), 'std::string')
        if find_fn(e.P, Format()):
            e.contracts[TS + '::formatEvents'] = fmt
        e.invariants.append(self.loop_invs)
        return [this, p], {}

    def sent(self, e, st, b):
        g = st.ghost
        v, s, pos = self.v, g['sl'], g['pos']
        j = z3.Const('j', IntS)
        n = toz(s.n)
        e.oblige(st, b == g['text'], "what is sent is the text of a chunk not sent before")
        e.oblige(st, n <= BOUND, "a chunk has at most %d events" % BOUND)
        e.oblige(st, pos + n <= toz(v.n), "no more events are sent than were collected")
        e.oblige(st, z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n), z3.Select(arrs(s)[0], j) == z3.Select(arrs(v)[0], pos + j))), "a chunk has the events that follow those already sent, in order")
        g['pos'] = pos + n
        g['text'] = fresh('notext', Blob)

    def loop_invs(self, e, fr, head0, st, mod):
        for k in mod:
            c = head0.mem[k[1]].cells.get(k[2]) if k[0] == 'c' and k[1] in head0.mem else None
            if c is not None and isinstance(c[1], Seq) and not c[1].fixed:
                raise Unsupported("a list of events changes in a loop")
        n = toz(self.v.n)
        mn = lambda x: z3.If(x < n, x, n)
        res = [("the events sent are some of those collected", lambda s: z3.And(s.ghost['pos'] >= 0, s.ghost['pos'] <= n), False)]
        for k, get in counters(e, head0, st, mod):
            res.append(("%s not negative" % (k[2],), lambda s, get=get: get(s) >= 0, False))
            res.append(("%s bounded" % (k[2],), lambda s, get=get: get(s) <= n + BOUND, False))
            for m in sorted({1, self.chunk or BOUND}):
                res.append(("%s * %d events sent" % (k[2], m), lambda s, get=get, m=m: s.ghost['pos'] == mn(get(s) * m), False))
            res.append(("%s events left" % (k[2],), lambda s, get=get: s.ghost['pos'] == n - get(s), False))
        return res

    def post(self, e, o, env):
        e.oblige(o.st, o.st.ghost['pos'] == toz(self.v.n), "every event is sent")


def counters(e, head0, st, mod):
    """integers and positions a loop changes"""
    res = []
    for k in mod:
        if k[0] != 'c':
            continue
        c = head0.mem[k[1]].cells.get(k[2]) if k[1] in head0.mem else None
        if c is None:
            continue
        v = c[1]
        if isinstance(v, bool) or isz(v) and z3.is_bool(v):
            continue
        if isinstance(v, int) or isz(v) and v.sort() == IntS or isinstance(v, (Ptr, EPtr)):
            def get(s, k=k):
                x = s.mem[k[1]].cells[k[2]][1]
                if isinstance(x, (Ptr, EPtr)):
                    x = e.to_eptr(s, x)
                    return toz(x.idx)
                return toz(x)
            try:
                get(head0)
            except Exception:
                continue
            res.append((k, get))
    return res


def bools(e, head0, mod):
    res = []
    for k in mod:
        if k[0] == 'c' and k[1] in head0.mem:
            c = head0.mem[k[1]].cells.get(k[2])
            if c is not None and c[0] == 1:
                res.append((k, lambda s, k=k: s.mem[k[1]].cells[k[2]][1]))
    return res


class Format(TSpec):
    qual, nparams, title = TS + '::formatEvents', 1, 'TraceSession::formatEvents'

    def setup(self, e, st):
        p = e.new_obj(st, 'events', 'param')
        self.v = v = e.fresh_leaf(st, JS, 'events')
        st.fact(z3.And(toz(v.n) >= 0, toz(v.n) < 2 ** 48))
        e.put_abs(st, p, v, JS)
        self.T = T = Texts()
        g = st.ghost
        g['pos'] = z3.IntVal(0)
        g['cfg'] = z3.IntVal(T.id(''))
        g['out'] = z3.Const('noresult', Blob)
        self.streams = set()
        h = e.handlers

        def ctor(c, st):
            if c.sig.params:
                raise Unsupported("stream with a text")
            self.streams.add(c.args[0].obj)
            if len(self.streams) > 1:
                raise Unsupported("several streams")
        for n in ('std::basic_ostringstream', 'std::basic_stringstream'):
            h[n + '::' + n.split('::')[1]] = ctor
            h[n + '::~' + n.split('::')[1]] = lambda c, st: None

            def text(c, st):
                if c.sig.params:
                    raise Unsupported("stream given a text")
                b = fresh('result', Blob)
                st.ghost['out'] = b
                e.put_abs(st, c.sret, e.unpack_leaf(st, 'std::string', [b]), 'std::string')
            h[n + '::str'] = text

        def write(c, st):
            p, t = c.args[0], c.sig.params[-1]
            if not isinstance(p, Ptr) or p.obj not in self.streams:
                raise Unsupported("output to another stream")
            if 'std::string' in t:
                v = e.get_abs(st, c.args[1], 'std::string')
                if v.cst is None:
                    b = e.blob_of(st, v)
                    if not e.entails_fast(st, lj.isjson(b)):
                        raise Unsupported("output of an unknown text")
                    self.dumped(e, st, b)
                    return p
                lit = v.cst[:v.n]
            elif t == 'char*' or t == 'char const*':
                v = lib_std.cstr(c, st, c.args[1])
                lit = v.cst
                if lit is None:
                    raise Unsupported("output of an unknown text")
                if isinstance(v.n, int):
                    lit = lit[:v.n]
            elif t == 'char' and isinstance(c.args[1], int):
                lit = bytes([c.args[1]])
            else:
                raise Unsupported("output of a " + t)
            self.add(e, st, lit.decode('latin-1'))
            return p
        h['std::operator<<'] = write
        e.invariants.append(self.loop_invs)
        self.ret = e.new_obj(st, 'result', 'stack')
        return [self.ret, p], {}

    def add(self, e, st, lit):
        g = st.ghost
        n = len(self.T.text)
        r = z3.IntVal(-1)
        for i in range(n - 1, -1, -1):
            if e.entails_fast(st, g['cfg'] != i):
                continue
            r = z3.If(g['cfg'] == i, z3.IntVal(self.T.id(self.T.text[i] + lit)), r)
        g['cfg'] = z3.simplify(r)

    def dumped(self, e, st, b):
        g = st.ghost
        v, pos = self.v, g['pos']
        e.oblige(st, z3.And(pos < toz(v.n), lj.isjson(b), lj.unjson(b) == z3.Select(arrs(v)[0], pos)), "the values written are the events in order, each once")
        self.add(e, st, '\0')
        g['pos'] = pos + 1

    def loop_invs(self, e, fr, head0, st, mod):
        T = self.T
        n = toz(self.v.n)
        res = [("events are written in order", lambda s: z3.And(s.ghost['pos'] >= 0, s.ghost['pos'] <= n), False)]
        c0 = z3.simplify(head0.ghost['cfg'])
        if z3.is_int_value(c0) and c0.as_long() >= 0:
            t = T.text[c0.as_long()]
            p0 = head0.ghost['pos']
            for tail in ('\0', '\0,'):
                a, b = c0, T.id(t + tail)
                res.append(("text written %r" % tail, lambda s, a=a, b=b: s.ghost['cfg'] == z3.If(s.ghost['pos'] == p0, a, z3.IntVal(b)), False))
        for k, get in counters(e, head0, st, mod):
            res.append(("position %s" % (k[2],), lambda s, get=get: s.ghost['pos'] == get(s), False))
        for k, get in bools(e, head0, mod):
            res.append(("flag %s" % (k[2],), lambda s, get=get: isflag(get(s), s.ghost['pos'] > 0), False))
            res.append(("not flag %s" % (k[2],), lambda s, get=get: isflag(get(s), s.ghost['pos'] == 0), False))
        return res

    def post(self, e, o, env):
        g = o.st.ghost
        T = self.T
        if not self.streams:
            raise Unsupported("the text is not written to a stream")
        e.oblige(o.st, e.blob_of(o.st, e.get_abs(o.st, self.ret, 'std::string')) == g['out'], "the text written is returned")
        ok0 = [i for i in range(len(T.text)) if T.value(i) == []]
        ok1 = [i for i in range(len(T.text)) if T.value(i) == ['\1']]
        isin = lambda l: z3.Or([g['cfg'] == i for i in l] + [z3.BoolVal(False)])
        n = toz(self.v.n)
        e.oblige(o.st, g['pos'] == n, "every event of the chunk is written")
        e.oblige(o.st, z3.If(n == 0, isin(ok0), isin(ok1)), "the text is a Tracing.dataCollected message with the list of events written")


def isflag(v, c):
    if isinstance(v, bool) or isz(v) and z3.is_bool(v):
        return tob(v) == c
    return toz(v) == z3.If(c, 1, 0)


START, ACKED, EVENTS, DONE = range(4)


class Process(TSpec):
    qual, nparams, title = TS + '::processMessage', 1, 'TraceSession::processMessage'

    def setup(self, e, st):
        e.int_candidates = False
        this = self.obj(e, st)
        self.sources(e, st)
        p = e.new_obj(st, 'message', 'param')
        m = e.fresh_leaf(st, 'std::string', 'message')
        e.put_abs(st, p, m, 'std::string')
        self.text = e.blob_of(st, m)
        self.msg = lj.unjson(self.text)
        g = st.ghost
        K = lambda x: e.literal(st, x).blob
        self.k = {x: K(x) for x in (b'id', b'method', b'result', b'params', b'Tracing.start', b'Tracing.end', b'Tracing.getCategories', b'Tracing.tracingComplete')}
        obj = lj.jkind(self.msg) == lj.OBJ
        mv = z3.Select(lj.jval(self.msg), self.k[b'method'])
        is_ = lambda x: z3.And(obj, z3.Select(lj.jdom(self.msg), self.k[b'method']), lj.jkind(mv) == lj.STR, lj.jstrv(mv) == self.k[x])
        self.kind = {x: is_(b'Tracing.' + x) for x in (b'start', b'end', b'getCategories')}
        self.id = z3.If(z3.Select(lj.jdom(self.msg), self.k[b'id']), z3.Select(lj.jval(self.msg), self.k[b'id']), lj.null(st))
        g['phase'] = z3.IntVal(START)
        g['started'] = g['stopped'] = g['finished'] = NONE
        g['nfin'] = z3.IntVal(0)
        g['col'] = v = e.fresh_leaf(st, JS, 'collected')
        st.fact(toz(v.n) == 0)

        def src(c, st):
            x = toz(e.ptr_to_int(c.args[0]))
            k = ix_s(x)
            e.oblige(st, z3.And(k >= 0, k < self.n, z3.Select(self.sa, k) == x), "the sources used are those of the session")
            return k

        def start(c, st):
            g = st.ghost
            k = src(c, st)
            e.oblige(st, z3.And(self.kind[b'start'], z3.Not(z3.Select(g['started'], k))), "each source is started once, when a recording starts")
            g['started'] = z3.Store(g['started'], k, True)
        e.vcontracts[ES + '::startInterval'] = start

        def stop(c, st):
            g = st.ghost
            k = src(c, st)
            e.oblige(st, z3.And(self.kind[b'end'], z3.Not(z3.Select(g['stopped'], k))), "each source is stopped once, when a recording ends")
            g['stopped'] = z3.Store(g['stopped'], k, True)
        e.vcontracts[ES + '::stopInterval'] = stop

        def finish(c, st):
            g = st.ghost
            k = src(c, st)
            e.oblige(st, z3.And(self.kind[b'end'], z3.Select(g['stopped'], k)), "a source is stopped before its events are collected")
            e.oblige(st, z3.Not(z3.Select(g['finished'], k)), "the events of a source are collected once")
            e.oblige(st, g['phase'] <= ACKED, "events are collected before they are sent")
            g['finished'] = z3.Store(g['finished'], k, True)
            bad = st.copy()
            r = e.fresh_leaf(st, JS, 'results')
            v = g['col']
            w = e.fresh_leaf(st, JS, 'collected')
            j = z3.Const('j', IntS)
            n, m = toz(v.n), toz(r.n)
            a, b, d = arrs(v)[0], arrs(r)[0], arrs(w)[0]
            st.fact(z3.And(m >= 0, n + m < 2 ** 48, toz(w.n) == n + m))
            st.fact(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n), z3.Select(d, j) == z3.Select(a, j)), patterns=[z3.Select(d, j)]))
            st.fact(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < m), z3.Select(d, n + j) == z3.Select(b, j)), patterns=[z3.Select(b, j)]))
            st.fact(z3.ForAll([j], z3.Implies(z3.And(j >= n, j < n + m), z3.Select(d, j) == z3.Select(b, j - n)), patterns=[z3.Select(d, j)]))
            g['col'] = w
            e.put_abs(st, c.sret, r, JS)
            return [Outcome(st, None), excs(bad, 'std::exception')]
        e.vcontracts[ES + '::finishInterval'] = finish

        def chunked(c, st):
            g = st.ghost
            e.oblige(st, self.kind[b'end'], "events are sent when a recording ends")
            e.oblige(st, g['phase'] == ACKED, "the events are sent once, after the acknowledgement")
            v, w = e.get_abs(st, c.args[1], JS), g['col']
            e.oblige(st, self.all(g['finished']), "the events of every source are collected before they are sent")
            e.oblige(st, same_seq(v, w), "all collected events are sent, in order")
            g['phase'] = z3.IntVal(EVENTS)
        if find_fn(e.P, Chunked()):
            e.contracts[TS + '::chunkedTransmit'] = chunked
        e.invariants.append(self.loop_invs)
        return [this, p], {}

    def all(self, a):
        j = z3.Const('j', IntS)
        return z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < self.n), z3.Select(a, j)), patterns=[z3.Select(self.sa, j)])

    def upto(self, a, i):
        j = z3.Const('j', IntS)
        return z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < self.n), z3.Select(a, j) == (j < i)), patterns=[z3.Select(a, j)])

    def sent(self, e, st, b):
        g = st.ghost
        j = lj.unjson(b)
        e.oblige(st, z3.And(lj.isjson(b), lj.jkind(j) == lj.OBJ), "messages are JSON objects")
        has = lambda k: z3.Select(lj.jdom(j), self.k[k])
        at = lambda k: z3.Select(lj.jval(j), self.k[k])
        reply = z3.And(has(b'id'), at(b'id') == self.id, has(b'result'), z3.Not(has(b'method')))
        complete = z3.And(has(b'method'), lj.jkind(at(b'method')) == lj.STR, lj.jstrv(at(b'method')) == self.k[b'Tracing.tracingComplete'], z3.Not(has(b'id')))
        p = g['phase']
        e.oblige(st, z3.Or(*self.kind.values()), "only messages that are understood are answered")
        e.oblige(st, z3.Or(p == START, z3.And(self.kind[b'end'], p == EVENTS)), "a message is answered once; the completion follows the events")
        e.oblige(st, z3.Implies(p == START, reply), "a reply carries the id of the message it answers")
        e.oblige(st, z3.Implies(p == EVENTS, complete), "the completion message follows the events")
        e.oblige(st, z3.Implies(self.kind[b'end'], z3.Implies(p == START, self.all(g['stopped']))), "the recording has ended on every source when that is acknowledged")
        g['phase'] = z3.simplify(z3.If(p == START, z3.IntVal(ACKED), z3.IntVal(DONE)))

    def loop_invs(self, e, fr, head0, st, mod):
        res = []
        gm = [k[1] for k in mod if k[0] == 'g']
        for k, get in counters(e, head0, st, mod):
            res.append(("%s not negative" % (k[2],), lambda s, get=get: get(s) >= 0, False))
            res.append(("%s in range" % (k[2],), lambda s, get=get: get(s) <= self.n, False))
            for x in ('started', 'stopped', 'finished'):
                if x in gm:
                    res.append(("%s up to %s" % (x, k[2]), lambda s, get=get, x=x: self.upto(s.ghost[x], get(s)), False))
                    res.append(("%s from %s" % (x, k[2]), lambda s, get=get, x=x: z3.And(self.from_(s.ghost[x], get(s))), False))
        if 'col' in gm:
            for k in mod:
                if k[0] == 'c' and k[1] in head0.mem:
                    c = head0.mem[k[1]].cells.get(k[2])
                    if c is not None and isinstance(c[1], Seq) and not c[1].fixed:
                        def f(s, k=k):
                            v = s.mem[k[1]].cells[k[2]][1]
                            try:
                                return same_seq(v, s.ghost['col'])
                            except (IndexError, z3.Z3Exception):
                                return z3.BoolVal(False)
                        res.append(("the events collected are kept", f, False))
            res.append(("collected", lambda s: z3.And(toz(s.ghost['col'].n) >= 0, toz(s.ghost['col'].n) < 2 ** 48), False))
        else:
            for k in mod:
                if k[0] == 'c' and k[1] in head0.mem:
                    c = head0.mem[k[1]].cells.get(k[2])
                    if c is not None and isinstance(c[1], Seq) and not c[1].fixed:
                        n0 = toz(c[1].n)

                        def f(s, k=k):
                            v = s.mem[k[1]].cells[k[2]][1]
                            try:
                                return prefix(v, s.ghost['col'])
                            except (IndexError, z3.Z3Exception):
                                return z3.BoolVal(False)
                        res.append(("a part of the events collected", f, False))
                        for q, get in counters(e, head0, st, mod):
                            res.append(("%s events added" % (q[2],), lambda s, k=k, get=get, n0=n0: toz(s.mem[k[1]].cells[k[2]][1].n) == n0 + get(s), False))
        if 'phase' in gm:
            res.append(("phase", lambda s: s.ghost['phase'] == head0.ghost['phase'], False))
        return res

    def from_(self, a, i):
        j = z3.Const('j', IntS)
        return z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < self.n), z3.Select(a, j) == (j >= i)), patterns=[z3.Select(a, j)])

    def exc_ok(self, e, o, env):
        g = o.st.ghost
        bad = z3.Or(z3.Not(lj.isjson(self.text)), z3.Not(z3.Or(lj.jkind(self.msg) == lj.OBJ, lj.jkind(self.msg) == lj.NUL)))
        return z3.And(bad, g['phase'] == START, g['started'] == NONE, g['stopped'] == NONE, g['finished'] == NONE)

    def post(self, e, o, env):
        g = o.st.ghost
        e.oblige(o.st, z3.Implies(self.kind[b'end'], g['phase'] == DONE), "ending a recording is acknowledged, sends the events, and is completed")
        e.oblige(o.st, z3.Implies(self.kind[b'end'], z3.And(self.all(g['stopped']), self.all(g['finished']))), "every source is stopped and its events are collected")
        e.oblige(o.st, z3.Implies(self.kind[b'start'], z3.And(g['phase'] == ACKED, self.all(g['started']))), "starting a recording starts every source and is acknowledged")
        e.oblige(o.st, z3.Implies(self.kind[b'getCategories'], g['phase'] == ACKED), "a request for the categories is answered")


def prefix(v, w):
    j = z3.Const('j', IntS)
    return z3.And(toz(v.n) >= 0, toz(v.n) <= toz(w.n), z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < toz(v.n)), z3.Select(arrs(v)[0], j) == z3.Select(arrs(w)[0], j)), patterns=[z3.Select(arrs(v)[0], j), z3.Select(arrs(w)[0], j)] if not z3.eq(arrs(v)[0], arrs(w)[0]) else []))


def same_seq(v, w):
    j = z3.Const('j', IntS)
    return z3.And(toz(v.n) == toz(w.n), z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < toz(v.n)), z3.Select(arrs(v)[0], j) == z3.Select(arrs(w)[0], j)), patterns=[z3.Select(arrs(v)[0], j), z3.Select(arrs(w)[0], j)] if not z3.eq(arrs(v)[0], arrs(w)[0]) else []))


LISTS = ('std::list<std::string>', 'std::deque<std::string>', 'std::vector<std::string>')


class Inbox(FnSpec):
    """the messages waiting, shared with the thread that serves the socket"""
    def q_rely(self, v):
        return z3.BoolVal(True)

    def q_effect(self, e, st, pre, v):
        return eqv(pre, v)
    effect_name = "the messages waiting are not changed"

    def this(self, e, st):
        this = e.new_obj(st, 'session', 'param', TS)
        e.take_addr(this)
        o, t = fld(e, TS, 'incoming_msg_', lambda t: t in LISTS)
        if t not in LISTS:
            raise Unsupported("representation of the messages waiting changed")
        m, _ = fld(e, TS, 'incoming_mutex_')
        self.q = Guarded('messages waiting', e.shift(this, o), t, e.shift(this, m), rely=self.q_rely, effect=self.q_effect, effect_name=self.effect_name)
        self.q.fresh(e, st)
        guard.install(e, [self.q])
        return this


class Incoming(Inbox):
    qual, nparams, title = TS + '::incoming', 1, 'TraceSession::incoming'
    effect_name = "a message that comes in is put behind those waiting"

    def setup(self, e, st):
        this = self.this(e, st)
        p = e.new_obj(st, 'data', 'param')
        self.b = e.blob_of(st, e.get_abs(st, p, 'std::string'))
        return [this, p], {}

    def q_effect(self, e, st, pre, v):
        return appended(pre, v, [self.b])

    def post(self, e, o, env):
        took_effect(e, o.st, self.q)


class Pop(Inbox):
    qual, nparams, title = TS + '::popIncoming', 0, 'TraceSession::popIncoming'
    effect_name = "the oldest message is taken"

    def setup(self, e, st):
        this = self.this(e, st)
        self.ret = e.new_obj(st, 'result', 'stack')
        return [self.ret, this], {}

    def q_rely(self, v):
        return toz(v.n) >= 1

    def q_effect(self, e, st, pre, v):
        return tail(pre, v)

    def post(self, e, o, env):
        took_effect(e, o.st, self.q)
        pre = o.st.ghost.get('messages waiting.pre')
        if pre is not None:
            e.oblige(o.st, e.blob_of(o.st, e.get_abs(o.st, self.ret, 'std::string')) == z3.Select(arrs(pre)[0], 0), "the message taken is the oldest one")


class Have(Inbox):
    qual, nparams, title = TS + '::haveIncoming', 0, 'TraceSession::haveIncoming'

    def setup(self, e, st):
        return [self.this(e, st)], {}

    def post(self, e, o, env):
        pre = o.st.ghost.get('messages waiting.pre')
        e.oblige(o.st, pre is not None, "looks at the messages waiting")
        e.oblige(o.st, not o.st.held, "no mutex is left locked")
        if pre is not None:
            e.oblige(o.st, tob(e.to_bool(o.ret)) == (toz(pre.n) > 0), "reports whether a message waits")


class AddSource(TSpec):
    qual, nparams, title = TS + '::addSource', 1, 'TraceSession::addSource'
    fixed = False

    def setup(self, e, st):
        this = self.obj(e, st)
        self.G = G = self.sources(e, st)
        p = e.new_obj(st, 'source', 'param')
        x = z3.Const('source', IntS)
        st.fact(x > 0)
        e.put_abs(st, p, Ref('shared_ptr', ES, e.int_to_ptr(x)), SPS)
        G.effect = lambda e, st, pre, v: appended(pre, v, [x])
        G.effect_name = "a source is added behind those of the session"
        return [this, p], {}

    def post(self, e, o, env):
        took_effect(e, o.st, self.G)


class Loop(TSpec):
    fixed = False
    qual, nparams, title = TS + '::loop', 0, 'TraceSession::loop'

    def setup(self, e, st):
        this = self.obj(e, st)
        self.sources(e, st)
        g = st.ghost
        g['owed'] = g['have'] = z3.BoolVal(False)
        g['msg'] = z3.Const('nomessage', Blob)
        for S in (Have, Pop, Process):
            if not find_fn(e.P, S()):
                raise Unsupported("no " + S.qual)

        def have(c, st):
            e.oblige(st, z3.Not(st.ghost['owed']), "a message taken is processed before the next")
            r = fresh('waits', BoolS)
            st.ghost['have'] = r
            return r
        e.contracts[Have.qual] = have

        def pop(c, st):
            g = st.ghost
            e.oblige(st, g['have'], "a message is only taken when one waits")
            e.oblige(st, z3.Not(g['owed']), "a message taken is processed before the next")
            g['have'], g['owed'] = z3.BoolVal(False), z3.BoolVal(True)
            g['msg'] = fresh('message', Blob)
            e.put_abs(st, c.sret, e.unpack_leaf(st, 'std::string', [g['msg']]), 'std::string')
        e.contracts[Pop.qual] = pop

        def proc(c, st):
            g = st.ghost
            e.oblige(st, g['owed'], "a message is processed once")
            e.oblige(st, e.blob_of(st, e.get_abs(st, c.args[1], 'std::string')) == g['msg'], "the message processed is the one taken")
            g['owed'] = z3.BoolVal(False)
            bad = st.copy()
            return [Outcome(st, None), excs(bad, 'std::exception')]
        e.contracts[Process.qual] = proc
        e.vcontracts[ES + '::work'] = lambda c, st: None
        e.invariants.append(lambda e, fr, head0, st, mod: [("no message is left unprocessed", lambda s: z3.Not(s.ghost['owed']), False)])
        return [this], {}

    def post(self, e, o, env):
        e.oblige(o.st, z3.Not(o.st.ghost['owed']), "a message taken is processed")


class Dtor(TSpec):
    qual, nparams, title = TS + '::~TraceSession', 0, 'TraceSession::~TraceSession'

    def setup(self, e, st):
        this = e.new_obj(st, 'session', 'param', TS)
        e.take_addr(this)
        st.ghost['joined'] = z3.IntVal(0)
        o, t = fld(e, TS, 'worker_')
        h = z3.Const('worker', IntS)
        st.fact(h > 0)
        e.put_abs(st, e.shift(this, o), Tok('thread', [h]), 'std::thread')
        o, t = fld(e, TS, 'running_')

        def join(c, st, *a):
            with quiet(e):
                v = tob(e.to_bool(e.load(st, e.shift(this, o), e.mkint(8))))
            e.oblige(st, z3.Not(v), "the worker is told to stop before it is waited for")
            st.ghost['joined'] = st.ghost['joined'] + 1
        e.on_join = join
        return [this], {}

    def post(self, e, o, env):
        e.oblige(o.st, o.st.ghost['joined'] == 1, "the worker has ended before the session is gone")


def t1(tier):
    return verify_all(prog(), [Ctor(), Chunked(), Incoming(), Pop(), Have(), Loop(), Dtor()], tier)


def c22(tier):
    return verify_all(prog(), [S() for S in (Ctor, Dtor, AddSource, Incoming, Have, Pop, Loop, Process, Chunked, Format)], tier)


def t2(tier):
    return verify_all(prog(), [Format()], tier)


def t3(tier):
    return verify_all(prog(), [Process()], tier)
