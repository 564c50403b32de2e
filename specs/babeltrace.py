"""C23: BabeltraceParser and its event callbacks."""
import z3
from scv.spec import *
from scv import guard
from scv.guard import Guarded, quiet, eqv
from scv.lib_std import PTR, mkey
from specs.map_tracker import arrs
from specs.transport import fld
from specs.transport_unix import EXTRA, fdset, put_fdset

BP = 'scalopus::BabeltraceParser'
EC = BP + '::EventCallback'
CE = 'scalopus::CTFEvent'
SRCS = ['scalopus_tracing/src/lttng/babeltrace_parser.cpp', '/verif/specs/inst/babeltrace.cpp']
SPC = 'std::shared_ptr<%s>' % EC
SETC = 'std::set<%s>' % SPC
NONE = z3.K(IntS, z3.BoolVal(False))
M64 = 1 << 64
M32 = 1 << 32
ASSUMPTIONS = [
    "callbacks and the logger do not throw and do not call back into the parser; a callback may disable itself",
    "callbacks registered and the logger are not null",
    "process() runs once per parser; getline() on a stream returns its lines, in order",
    "each line read is one line of the trace (a line is read when select() reports the stream readable: lines already in the stdio buffer may wait for more data)",
]


class CB(FnSpec):
    """the state of one callback"""
    cls = None

    def this(self, e, st):
        this = e.new_obj(st, 'callback', 'param', EC)
        e.take_addr(this)
        self.me = this
        m, _ = fld(e, EC, 'mutex')
        self.mu = e.shift(this, m)
        gs = []
        for n in ('active', 'callback'):
            o, t = fld(e, EC, n)
            gs.append(Guarded(n, e.shift(this, o), t, self.mu, change=self.change))
        self.A, self.F = gs
        self.e = e
        guard.install(e, gs)
        l, u = e.on_lock, e.on_unlock
        g = st.ghost
        g['sections'] = g['calls'] = z3.IntVal(0)
        g['a.lock'] = g['a.now'] = z3.BoolVal(False)
        g['f.lock'] = z3.IntVal(0)

        def lock(e, st, p, mode):
            l(e, st, p, mode)
            if mkey(p) == mkey(self.mu):
                g = st.ghost
                g['sections'] = g['sections'] + 1
                g['a.lock'], g['f.lock'] = self.active(e, st), self.function(e, st)
        e.on_lock = lock

        def unlock(e, st, p, mode):
            if mkey(p) == mkey(self.mu):
                st.ghost['a.now'] = self.active(e, st)
            u(e, st, p, mode)
        e.on_unlock = unlock
        return this

    def active(self, e, st):
        with quiet(e):
            return tob(e.to_bool(e.load(st, self.A.ptr, e.mkint(8))))

    def function(self, e, st):
        with quiet(e):
            return toz(e.get_abs(st, self.F.ptr, self.F.t).parts[0])

    def change(self, e, st, pre, v):
        pass

    def once(self, e, st):
        e.oblige(st, not st.held, "no mutex is left locked")
        if not e.entails_fast(st, st.ghost['sections'] <= 1):
            raise Unsupported("split into several critical sections")
        e.oblige(st, st.ghost['sections'] >= 1, "the callback is looked at with its mutex held")


class Call(CB):
    qual, nparams, title = EC + '::call', 1, 'EventCallback::call'

    def setup(self, e, st):
        this = self.this(e, st)
        ev = e.new_obj(st, 'event', 'param', CE)

        def called(c, st, v):
            g = st.ghost
            x = toz(v.parts[0])
            e.oblige(st, mkey(self.mu) in st.held, "the callback is called with its mutex held, for disable() to wait")
            e.oblige(st, z3.And(self.active(e, st), x == g['f.lock'], x != 0), "only an active callback is called")
            e.oblige(st, c.args[1].key() == ev.key(), "the callback is passed the event given")
            e.oblige(st, g['calls'] == 0, "the callback is called once")
            g['calls'] = g['calls'] + 1
            # it may disable itself
            d = fresh('disables', BoolS)
            with quiet(e):
                a, f = self.active(e, st), self.function(e, st)
                e.store(st, self.A.ptr, z3.If(z3.And(a, z3.Not(d)), z3.IntVal(1), z3.IntVal(0)), 1)
                e.put_abs(st, self.F.ptr, e.unpack_leaf(st, self.F.t, [z3.If(d, z3.IntVal(0), f)]), self.F.t)
            g['a.lock0'] = a
            return [Outcome(st, None)]
        e.on_function = called
        return [this, ev], {}

    def post(self, e, o, env):
        st = o.st
        g = st.ghost
        self.once(e, st)
        e.oblige(st, z3.Implies(z3.And(g['a.lock'], g['f.lock'] != 0), g['calls'] == 1), "an active callback is called")
        e.oblige(st, z3.Implies(z3.Not(g['a.lock']), g['calls'] == 0), "an inactive callback is not called")
        e.oblige(st, tob(e.to_bool(o.ret)) == g['a.now'], "the result says whether the callback is active")
        e.oblige(st, z3.Implies(z3.And(g['a.lock'], g['calls'] == 0), g['a.now']), "an active callback stays active")
        e.oblige(st, z3.Implies(z3.And(g['a.lock'], g['calls'] == 1), z3.Or(g['a.now'], self.function(e, st) == 0)), "only the callback itself may disable it")


class Disable(CB):
    qual, nparams, title = EC + '::disable', 0, 'EventCallback::disable'

    def setup(self, e, st):
        return [self.this(e, st)], {}

    def post(self, e, o, env):
        self.once(e, o.st)
        e.oblige(o.st, z3.Not(o.st.ghost['a.now']), "the callback is inactive afterwards")


class BPS(FnSpec):
    def this(self, e, st):
        this = e.new_obj(st, 'parser', 'param', BP)
        e.take_addr(this)
        self.me = this
        self.e = e
        o, t = fld(e, BP, 'sessions_recording_')
        if norm(t) != SETC:
            raise Unsupported("representation of the callbacks changed: " + t)
        m, _ = fld(e, BP, 'mutex_')
        self.mu = e.shift(this, m)
        self.S = Guarded('callbacks', e.shift(this, o), t, self.mu, change=self.change, inv=lambda v: z3.Not(z3.Select(v.dom, 0)))
        self.S.fresh(e, st)
        guard.install(e, [self.S])
        l = e.on_lock

        def lock(e, st, p, mode):
            l(e, st, p, mode)
            if mkey(p) == mkey(self.mu):
                st.ghost['sections'] = st.ghost['sections'] + 1
                self.locked(e, st)
        e.on_lock = lock
        o, t = fld(e, BP, 'logger_')
        with quiet(e):
            self.logger = toz(e.get_abs(st, e.shift(this, o), t).parts[0])
        st.fact(self.logger != 0)
        o, t = fld(e, BP, 'processing_')
        self.proc = e.shift(this, o)

        def function(c, st, v):
            e.oblige(st, toz(v.parts[0]) == self.logger, "only the logger is called directly")
            return [Outcome(st, None)]
        e.on_function = function
        e.on_atomic = self.atomic
        st.ghost['sections'] = z3.IntVal(0)
        st.ghost['halted'] = z3.BoolVal(False)
        return this

    def locked(self, e, st):
        pass

    def change(self, e, st, pre, v):
        pass

    def atomic(self, e, st, op, p, v, order, ty):
        if isinstance(p, Ptr) and p.key() == self.proc.key() and op == 'store':
            st.ghost['halted'] = z3.Not(tob(e.to_bool(v)))
        return None


class SetCallback(BPS):
    qual, nparams, title = BP + '::setCallback', 1, 'BabeltraceParser::setCallback'

    def setup(self, e, st):
        this = self.this(e, st)
        c = e.new_obj(st, 'new callback', 'param')
        self.c = toz(e.ptr_to_int(e.get_abs(st, c, SPC).p))
        st.fact(self.c != 0)
        st.ghost['added'] = z3.BoolVal(False)
        return [this, c], {}

    def change(self, e, st, pre, v):
        q = z3.Const('q', IntS)
        e.oblige(st, z3.ForAll([q], z3.Select(v.dom, q) == z3.Or(z3.Select(pre.dom, q), q == self.c)), "the callback is added, the others stay")
        st.ghost['added'] = z3.BoolVal(True)

    def post(self, e, o, env):
        st = o.st
        e.oblige(st, not st.held, "no mutex is left locked")
        e.oblige(st, st.ghost['added'], "the callback is added")


class Halt(BPS):
    qual, nparams, title = BP + '::halt', 0, 'BabeltraceParser::halt'

    def setup(self, e, st):
        return [self.this(e, st)], {}

    def change(self, e, st, pre, v):
        q = z3.Const('q', IntS)
        e.oblige(st, z3.ForAll([q], z3.Not(z3.Select(v.dom, q))), "no callback is left")

    def post(self, e, o, env):
        st = o.st
        e.oblige(st, not st.held, "no mutex is left locked")
        e.oblige(st, st.ghost['halted'], "the reader is told to stop")
        e.oblige(st, st.ghost['sections'] >= 1, "the callbacks are removed")


class Process(BPS):
    qual, nparams, title = BP + '::process', 1, 'BabeltraceParser::process'

    def setup(self, e, st):
        this = self.this(e, st)
        g = st.ghost
        g['pending'] = z3.BoolVal(False)       # a line was read and is not passed on yet
        g['line'] = z3.Const('line0', Blob)
        g['parsed'] = z3.IntVal(0)             # times the line was parsed
        g['S0'] = NONE                         # callbacks registered when the line is passed on
        g['called'] = g['gone'] = NONE         # callbacks called with it; those that said they are inactive
        g['ngone'] = z3.IntVal(0)              # ... and in which order
        g['gpos'] = z3.K(IntS, z3.IntVal(0))
        g['parsed.as'] = z3.Const('parsed0', Blob)
        g['owed'] = z3.BoolVal(False)          # there is something to read
        g['told'] = g['eof'] = g['exc'] = z3.BoolVal(False)
        f = fresh('stream')
        st.fact(f >= 0)
        self.f = f
        self.fd = fresh('stream_fd')
        st.fact(z3.And(self.fd >= 0, self.fd < 1024))
        g['atlock'] = z3.BoolVal(False)
        return [this, EPtr(HEAP, f, 0)], {}

    def done(self, e, st):
        return z3.Not(st.ghost['pending'])

    def locked(self, e, st):
        g = st.ghost
        g['S0'] = self.S.value(e, st).dom
        g['called'] = g['gone'] = NONE
        g['ngone'] = z3.IntVal(0)

    def change(self, e, st, pre, v):
        """a critical section ends: it passed the pending line on, or left everything alone"""
        g = st.ghost
        q = z3.Const('q', IntS)
        S = z3.Select
        P = lambda f: z3.Implies(g['pending'], f)
        e.oblige(st, P(z3.ForAll([q], z3.Implies(S(g['S0'], q), S(g['called'], q)))), "every registered callback is called with the line")
        e.oblige(st, z3.ForAll([q], S(v.dom, q) == z3.And(S(g['S0'], q), z3.Not(S(g['gone'], q)))), "exactly the inactive callbacks are dropped")
        g['pending'] = z3.BoolVal(False)

    def atomic(self, e, st, op, p, v, order, ty):
        if not (isinstance(p, Ptr) and p.key() == self.proc.key()):
            return None
        g = st.ghost
        if op == 'store':
            off = z3.Not(tob(e.to_bool(v)))
            e.oblige(st, z3.Implies(off, z3.Or(g['eof'], g['exc'], g['told'])), "the reader stops at the end of the stream only")
            return None
        if op == 'load':
            told = fresh('halted', BoolS)
            with quiet(e):
                cur = tob(e.to_bool(e.load(st, p, e.mkint(8))))
                r = z3.And(cur, z3.Not(told))
                e.store(st, p, z3.If(r, z3.IntVal(1), z3.IntVal(0)), 1)
            g['told'] = z3.Or(g['told'], z3.And(told, cur))
            return z3.If(r, z3.IntVal(1), z3.IntVal(0))
        raise Unsupported("processing flag: " + op)

    def install(self, e):
        me = self

        def fz(c, st):
            put_fdset(e, st, c.args[0], NONE)

        def fs(c, st):
            put_fdset(e, st, c.args[1], z3.Store(fdset(e, st, c.args[1]), toz(c.args[0]), z3.BoolVal(c.name == 'scv_fd_set')))

        def fi(c, st):
            return z3.If(z3.Select(fdset(e, st, c.args[1]), toz(c.args[0])), z3.IntVal(1), z3.IntVal(0))
        e.handlers.update({'scv_fd_zero': fz, 'scv_fd_set': fs, 'scv_fd_clr': fs, 'scv_fd_isset': fi})

        def select(c, st):
            nfds, rp, wp, xp, tv = c.args
            g = st.ghost
            q = z3.Const('q', IntS)
            if isinstance(rp, Ptr) and rp.obj is None:
                e.oblige(st, False, "the stream is waited for")
                raise Unsupported("select without a read set")
            e.oblige(st, z3.And(z3.Select(fdset(e, st, rp), me.fd), me.fd < toz(nfds)), "the stream is waited for")
            e.oblige(st, z3.Not(tob(e.is_null(tv))), "waiting ends after a while, to notice halt()")
            e.oblige(st, me.done(e, st), "a line read is passed on before waiting for more")
            e.oblige(st, z3.Not(g['owed']), "lines are read when there are any")
            bad = st.copy()
            outs = []
            for s, ok in ((bad, False), (st, True)):
                for i, p in enumerate((rp, wp, xp)):
                    if isinstance(p, Ptr) and p.obj is None:
                        continue
                    a = fresh('ready', z3.ArraySort(IntS, BoolS))
                    old = fdset(e, s, p)
                    if ok:
                        s.fact(z3.ForAll([q], z3.Implies(z3.Select(a, q), z3.Select(old, q)), patterns=[z3.Select(a, q)]))
                        if i == 0:
                            s.ghost['owed'] = z3.Select(a, me.fd)
                        if i == 2:
                            s.ghost['exc'] = z3.Or(s.ghost['exc'], z3.Select(a, me.fd))
                    put_fdset(e, s, p, a)
            n = fresh('nready')
            st.fact(z3.And(n >= 0, n <= 3 * 1024, z3.Implies(n == 0, z3.Not(st.ghost['owed']))))
            return [Outcome(bad, M32 - 1), Outcome(st, n)]
        e.handlers['select'] = select

        def stream(c, st, p):
            e.oblige(st, toz(e.ptr_to_int(p)) == me.f, "the stream given is used")
        e.handlers['fileno'] = lambda c, st: (stream(c, st, c.args[0]), me.fd)[1]

        def feof(c, st):
            stream(c, st, c.args[0])
            r = fresh('feof', BoolS)
            st.ghost['eof'] = z3.Or(st.ghost['eof'], r)
            return z3.If(r, z3.IntVal(1), z3.IntVal(0))
        e.handlers['feof'] = feof

        def getline(c, st):
            pp, np, f = c.args
            g = st.ghost
            stream(c, st, f)
            e.oblige(st, me.done(e, st), "a line read is passed on before the next is read")
            p0 = e.load(st, pp, PTR)
            if not (isinstance(p0, Ptr) and p0.obj is None):
                raise Unsupported("getline into an existing buffer")
            g['owed'] = z3.BoolVal(False)
            n = fresh('linelen')
            v = e.fresh_leaf(st, 'std::string', 'line')
            b = e.blob_of(st, v)
            buf = e.new_obj(st, 'line buffer', 'heap')
            e.put_abs(st, buf, v, 'std::string')
            e.store(st, pp, EPtr(buf, 0, 0), 8)
            m = fresh('bufsize')
            st.fact(z3.And(m >= toz(v.n) + 1, m < 2 ** 62))
            e.store(st, np, m, 8)
            bad = st.copy()
            st.fact(z3.And(toz(v.n) > 0, toz(v.n) < 2 ** 62))
            g['line'] = b
            g['pending'] = z3.Or(toz(v.n) > 1, z3.Select(v.arr, 0) != 10)      # an empty line has nothing to pass on
            me.v = v
            g['parsed'] = z3.IntVal(0)
            return [Outcome(st, v.n), Outcome(bad, M64 - 1)]
        e.handlers['getline'] = e.handlers['__getdelim'] = getline
        e.handlers['free'] = lambda c, st: None

        def event(c, st):
            g = st.ghost
            a = e.get_abs(st, c.args[1], 'std::string')
            k = z3.Const('k', IntS)
            b, n, l = e.blob_of(st, a), toz(a.n), g['line']
            m = blen(l)
            e.oblige(st, z3.Or(b == l, z3.And(n == m - 1, z3.Select(barr(l), m - 1) == 10, z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < n), z3.Select(a.arr, k) == z3.Select(barr(l), k))))), "a line read is parsed, as it is (its newline aside)")
            g['parsed.as'] = b
            e.oblige(st, g['parsed'] == 0, "a line is parsed once")
            g['parsed'] = g['parsed'] + 1
            o, t = fld(e, CE, 'line_')
            e.put_abs(st, e.shift(c.args[0], o), a, 'std::string')
        e.contracts[CE + '::CTFEvent'] = event

        def call(c, st):
            g = st.ghost
            s = toz(e.ptr_to_int(c.args[0]))
            with quiet(e):
                o, t = fld(e, CE, 'line_')
                ln = e.blob_of(st, e.get_abs(st, e.shift(c.args[1], o), 'std::string'))
            e.oblige(st, z3.And(g['parsed'] == 1, ln == g['parsed.as']), "callbacks are passed the event parsed from the line")
            e.oblige(st, z3.Select(g['S0'], s), "only registered callbacks are called")
            e.oblige(st, z3.Not(z3.Select(g['called'], s)), "a callback is called once per line")
            g['called'] = z3.Store(g['called'], s, True)
            r = fresh('active', BoolS)
            g['gone'] = z3.If(r, g['gone'], z3.Store(g['gone'], s, True))
            g['gpos'] = z3.If(r, g['gpos'], z3.Store(g['gpos'], s, g['ngone']))
            g['ngone'] = z3.If(r, g['ngone'], g['ngone'] + 1)
            return r
        if find_fn(e.P, Call()):
            e.contracts[EC + '::call'] = call
        e.invariants.append(self.loop_invs)

    def loop_invs(self, e, fr, head0, st, mod):
        res = []
        S = z3.Select
        q = z3.Const('q', IntS)
        inner = bool(head0.held)
        if not inner:
            res += [("lines read are passed on", lambda s: z3.Not(s.ghost['pending']), False),
                    ("nothing to read", lambda s: z3.Not(s.ghost['owed']), False)]

            def why(s):
                with quiet(e):
                    cur = tob(e.to_bool(e.load(s, self.proc, e.mkint(8))))
                return z3.Implies(z3.Not(cur), z3.Or(s.ghost['told'], s.ghost['eof'], s.ghost['exc']))
            res.append(("stopped for a reason", why, False))
            return res
        sdom = lambda s: self.S.value(e, s).dom
        g_ = lambda s, x: s.ghost[x]
        res.append(("dropped are the inactive", lambda s: z3.ForAll([q], S(sdom(s), q) == z3.And(S(g_(s, 'S0'), q), z3.Not(S(g_(s, 'gone'), q)))), False))
        res.append(("none is dropped yet", lambda s: z3.ForAll([q], S(sdom(s), q) == S(g_(s, 'S0'), q)), False))
        res.append(("called are registered", lambda s: z3.ForAll([q], z3.And(z3.Implies(S(g_(s, 'called'), q), S(g_(s, 'S0'), q)), z3.Implies(S(g_(s, 'gone'), q), S(g_(s, 'called'), q)))), False))
        res.append(("inactive in order", lambda s: z3.And(g_(s, 'ngone') >= 0, z3.ForAll([q], z3.Implies(S(g_(s, 'gone'), q), z3.And(S(g_(s, 'gpos'), q) >= 0, S(g_(s, 'gpos'), q) < g_(s, 'ngone'))))), False))
        for key in mod:
            if key[0] != 'c':
                continue
            c = head0.mem[key[1]].cells.get(key[2])
            v = c[1] if c is not None else mod[key][1]
            IT = lambda s, key=key: s.mem[key[1]].cells[key[2]][1]
            if isinstance(v, Seq) and len(arrs(v)) == 1 and norm(v.elem) == SPC:
                res.append(("collected are the inactive", lambda s, IT=IT: z3.And(toz(IT(s).n) == g_(s, 'ngone'), z3.ForAll([q], z3.Implies(S(g_(s, 'gone'), q), S(arrs(IT(s))[0], S(g_(s, 'gpos'), q)) == q)), z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < toz(IT(s).n)), z3.And(S(g_(s, 'gone'), S(arrs(IT(s))[0], q)), S(g_(s, 'gpos'), S(arrs(IT(s))[0], q)) == q)))), False))
                continue
            if isinstance(v, MapIt) and v.done is not None:
                def dom(s, IT=IT):
                    with quiet(e):
                        return e.get_abs(s, IT(s).cont).dom
                res.append(("iterator at an unvisited element", lambda s, IT=IT, dom=dom: z3.Implies(z3.Not(tob(IT(s).end)), z3.And(S(dom(s), toz(IT(s).k)), z3.Not(S(IT(s).done, toz(IT(s).k))))), False))
                res.append(("everything visited at the end", lambda s, IT=IT, dom=dom: z3.Implies(tob(IT(s).end), z3.ForAll([q], z3.Implies(S(dom(s), q), S(IT(s).done, q)))), False))
                res.append(("visited are called", lambda s, IT=IT, dom=dom: z3.ForAll([q], z3.Implies(z3.And(S(dom(s), q), S(IT(s).done, q)), S(g_(s, 'called'), q))), False))
                res.append(("called are visited", lambda s, IT=IT, dom=dom: z3.ForAll([q], z3.Implies(z3.And(S(g_(s, 'called'), q), S(dom(s), q)), S(IT(s).done, q))), False))
                continue

            def X(s, IT=IT):
                x = IT(s)
                if isinstance(x, Ptr):
                    x = e.to_eptr(s, x)
                if isinstance(x, EPtr):
                    x = x.idx
                if isinstance(x, bool) or not (isinstance(x, int) or (z3.is_expr(x) and x.sort() == IntS)):
                    return None
                return toz(x)
            res.append(("index range", lambda s, X=X: None if X(s) is None else z3.And(X(s) >= 0, X(s) <= g_(s, 'ngone')), False))
            res.append(("inactive ones before are dropped", lambda s, X=X: None if X(s) is None else z3.ForAll([q], S(sdom(s), q) == z3.And(S(g_(s, 'S0'), q), z3.Not(z3.And(S(g_(s, 'gone'), q), S(g_(s, 'gpos'), q) < X(s))))), False))
        return res

    def post(self, e, o, env):
        st = o.st
        g = st.ghost
        e.oblige(st, not st.held, "no mutex is left locked")
        e.oblige(st, self.done(e, st), "a line read is passed on before the reader stops")
        e.oblige(st, z3.Or(self.f == 0, g['told'], g['eof'], g['exc']), "the reader stops when told to, or at the end of the stream")


def prog():
    return Program(SRCS, EXTRA)


def c23(tier):
    return verify_all(prog(), [Call(), Disable(), SetCallback(), Halt(), Process()], tier)
