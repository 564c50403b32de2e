"""C18: TransportUnix starts, fails and stops without crashing or leaking connections."""
import z3
from scv.spec import *
from scv import guard
from scv.guard import quiet, eqv
from scv.lib_std import PTR, mkey, thread_body, pieces, number
from specs.transport import TR, EP, fld
from specs.transport_unix import TU, SRCS, EXTRA, SETI, M32, ArrB, NONE, DATA, prog, Work
import specs.transport as base

ASSUMPTIONS = [
    "socket, bind, listen, connect, close, shutdown behave as POSIX specifies; descriptor 0 is never a socket of this process (the code uses 0 for 'none')",
    "std::thread's constructor does not throw; a started worker runs TransportUnix::work() (verified separately) and nothing else touches connections_ until it is joined",
    "serve() or connect() is called at most once on a transport, as the factory does",
]
AF_UNIX, STREAM = 1, 1
FACT = 'scalopus::TransportUnixFactory'
DEST = 'scalopus::DestinationUnix'


class LS(FnSpec):
    nparams = 0

    def obj(self, e, st, fresh_one=True):
        this = e.new_obj(st, 'transport', 'param', TU)
        e.take_addr(this)
        self.me = this
        o, t = fld(e, TU, 'connections_', lambda t: t == SETI)
        if t != SETI:
            raise Unsupported("representation of connections_ changed")
        self.conns_p = e.shift(this, o)
        o, t = fld(e, TU, 'logger_')
        x = z3.Const('logger', IntS)
        st.fact(x > 0)
        e.put_abs(st, e.shift(this, o), Tok('function', [x]), t)
        g = st.ghost
        g['open'] = self.open0 = z3.Const('open0', ArrB)
        g['sock'] = g['bound'] = g['listening'] = g['connected'] = g['works'] = g['pid'] = z3.IntVal(0)
        g['alive'] = z3.BoolVal(False)
        if fresh_one:
            c = self.conns(e, st)
            st.fact(c.dom == NONE)
            st.fact(toz(c.card) == 0)
            for f in ('server_fd_', 'client_fd_'):
                st.fact(self.fdv(e, st, f) == 0)
            o, t = fld(e, TU, 'thread_')
            e.put_abs(st, e.shift(this, o), Tok('thread', [0]), 'std::thread')
            st.fact(z3.Not(self.running(e, st)))
        return this

    fdv = Work.fdv
    conns = Work.conns
    running = Work.running

    def handle(self, e, st):
        o, t = fld(e, TU, 'thread_')
        with quiet(e):
            return toz(e.get_abs(st, e.shift(self.me, o), 'std::thread').parts[0])

    def install(self, e):
        me = self
        base.ep_contracts(e)
        e.on_function = lambda c, st, v: None   # the logger

        def socket(c, st):
            g = st.ghost
            d, t, pr = c.args
            e.oblige(st, z3.And(toz(d) == AF_UNIX, toz(t) % 16 == STREAM), "[C18] a unix stream socket is used")
            bad = st.copy()
            n = fresh('fd')
            st.fact(z3.And(n > 0, n < 2 ** 30, z3.Not(z3.Select(g['open'], n))))
            st.ghost['open'] = z3.Store(g['open'], n, True)
            st.ghost['sock'] = n
            return [Outcome(bad, M32 - 1), Outcome(st, n)]

        def addr(c, st, name):
            """the address passed is the abstract name given"""
            p, n = c.args[1], toz(c.args[2])
            fam = toz(e.load(st, p, e.mkint(16)))
            e.oblige(st, fam == AF_UNIX, "[C18,C19] the address is a unix address")
            cont, s, i = e.byte_region(st, e.shift(p, 2))
            nm = name
            k = z3.Const('k', IntS)
            e.oblige(st, z3.Select(s.arr, toz(i)) == 0, "[C18,C19] the address is in the abstract namespace")
            e.oblige(st, n == 3 + toz(nm.n), "[C18,C19] the address has the length of the name")
            e.oblige(st, z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < toz(nm.n)), z3.Select(s.arr, toz(i) + 1 + k) == z3.Select(nm.arr, k))), "[C18,C19] the address is '<pid>_scalopus'")

        def rc(c, st, then):
            bad = st.copy()
            then(st)
            return [Outcome(bad, M32 - 1), Outcome(st, 0)]

        def bind(c, st):
            fd = toz(c.args[0])
            e.oblige(st, z3.Select(st.ghost['open'], fd), "[C18] only open sockets are used (bind)")
            me.name_ok(e, c, st, addr, 'bind')
            return rc(c, st, lambda s: s.ghost.__setitem__('bound', fd))

        def listen(c, st):
            fd = toz(c.args[0])
            e.oblige(st, z3.Select(st.ghost['open'], fd), "[C18] only open sockets are used (listen)")
            e.oblige(st, fd == st.ghost['bound'], "[C18,C19] the socket listens under its name")
            return rc(c, st, lambda s: s.ghost.__setitem__('listening', fd))

        def connect(c, st):
            fd = toz(c.args[0])
            e.oblige(st, z3.Select(st.ghost['open'], fd), "[C18] only open sockets are used (connect)")
            me.name_ok(e, c, st, addr, 'connect')
            return rc(c, st, lambda s: s.ghost.__setitem__('connected', fd))

        def closing(c, st):
            g = st.ghost
            fd = toz(c.args[0])
            w = c.sig.name
            e.oblige(st, z3.Select(g['open'], fd), "[C18] a socket is closed only once, and only if it is open (%s)" % w)
            e.oblige(st, z3.Not(z3.And(g['alive'])), "[C18] sockets are only closed after the worker has ended (%s)" % w)
            me.may_close(e, st, fd, w)
            if w == 'close':
                g['open'] = z3.Store(g['open'], fd, False)
            r = fresh('rc')
            st.fact(z3.And(r >= 0, r < M32))
            return r
        e.handlers.update({'socket': socket, 'bind': bind, 'listen': listen, 'connect': connect, 'close': closing, 'shutdown': closing})

        def work(c, st):
            g = st.ghost
            e.oblige(st, toz(e.ptr_to_int(c.args[0])) == toz(e.ptr_to_int(me.me)), "[C18] the worker runs on this transport")
            g['works'] = g['works'] + 1
            return None
        e.contracts[TU + '::work'] = work

        def start(c, st, x):
            g = st.ghost
            me.at_start(e, st)
            n0 = g['works']
            outs = thread_body(c, st.copy())
            for o in outs:
                e.oblige(o.st, o.st.ghost['works'] == n0 + 1, "[C18] the thread started runs the worker")
            g['works'] = n0 + 1
            g['alive'] = z3.BoolVal(True)
        e.on_thread_start = start

        def join(c, st, x):
            st.ghost['alive'] = z3.BoolVal(False)
            me.at_join(e, st)
        e.on_join = join

        def access(e, st, p, write, what):
            if isinstance(p, Ptr) and isinstance(me.conns_p, Ptr) and p.obj == me.conns_p.obj and p.off == me.conns_p.off:
                e.oblige(st, z3.Not(st.ghost['alive']), "[C18] connections are not touched while the worker runs")
        e.on_access = access

    conns_p = None

    def name_ok(self, e, c, st, addr, what):
        e.oblige(st, False, "[C18] no %s here" % what)

    def may_close(self, e, st, fd, w):
        pass

    def at_start(self, e, st):
        e.oblige(st, False, "[C18] no thread is started here")

    def at_join(self, e, st):
        pass


class Start(LS):
    """serve / connect: all or nothing"""
    mine, other, what = 'server_fd_', 'client_fd_', 'listening'

    def at_start(self, e, st):
        # the worker's precondition
        g = st.ghost
        fd = self.fdv(e, st, self.mine)
        c = self.conns(e, st)
        e.oblige(st, self.running(e, st), "[C18] the worker is told to run before it starts")
        e.oblige(st, z3.And(fd != 0, fd == g[self.what]), "[C18] the socket is ready before the worker starts")
        e.oblige(st, self.fdv(e, st, self.other) == 0, "[C18] a transport is either server or client")
        e.oblige(st, z3.And(c.dom == z3.Store(NONE, fd, True), toz(c.card) == 1), "[C18] the worker starts with exactly the transport's socket")
        e.oblige(st, g['works'] == 0, "[C18] exactly one worker is started")

    def may_close(self, e, st, fd, w):
        e.oblige(st, fd == st.ghost['sock'], "[C18] only the socket opened here is closed (%s)" % w)

    def post(self, e, o, env):
        st = o.st
        g = st.ghost
        ok = tob(e.to_bool(o.ret))
        fd = self.fdv(e, st, self.mine)
        c = st.mem[self.me.obj]
        with quiet(e):
            cs = self.conns(e, st)
        Y = lambda f: z3.Implies(ok, f)
        N = lambda f: z3.Implies(z3.Not(ok), f)
        e.oblige(st, Y(z3.And(fd != 0, fd == g[self.what])), "[C18] success means the socket is in place")
        e.oblige(st, Y(g['works'] == 1), "[C18] success means exactly one worker runs")
        e.oblige(st, Y(self.handle(e, st) != 0), "[C18] the transport owns its worker")
        e.oblige(st, Y(g['open'] == z3.Store(self.open0, fd, True)), "[C18] the transport owns exactly its socket")
        e.oblige(st, N(fd == 0), "[C18] failure leaves the transport unconnected")
        e.oblige(st, N(g['works'] == 0), "[C18] failure leaves no worker")
        e.oblige(st, N(self.handle(e, st) == 0), "[C18] failure leaves no worker")
        q = z3.Const('q', IntS)
        e.oblige(st, N(z3.ForAll([q], z3.Select(g['open'], q) == z3.Select(self.open0, q))), "[C18] failure leaves no socket open")
        e.oblige(st, N(z3.ForAll([q], z3.Not(z3.Select(cs.dom, q)))), "[C18] failure leaves no connection behind")
        e.oblige(st, self.fdv(e, st, self.other) == 0, "[C18] a transport is either server or client")
        self.cover(e, st, ok)

    def cover(self, e, st, ok):
        for b in (True, False):
            if e.feasible(st, ok if b else z3.Not(ok)):
                self.seen.add(b)

    def final(self, e, outs, env):
        if self.seen != {True, False}:
            raise Unsupported("success or failure is never reported (vacuous)")


class Serve(Start):
    qual, title = TU + '::serve', 'TransportUnix::serve'

    def setup(self, e, st):
        self.seen = set()
        return [self.obj(e, st)], {}

    def name_ok(self, e, c, st, addr, what):
        if what != 'bind':
            return LS.name_ok(self, e, c, st, addr, what)
        pid = z3.Const('this_pid', IntS)
        st.fact(z3.And(pid > 0, pid < 2 ** 31))
        addr(c, st, full_name(c, st, pid))


def full_name(c, st, pid):
    from scv.lib_std import concat
    e = c.eng
    return concat(c, st, number(e, st, pid), e.literal(st, b'_scalopus'))


class Connect(Start):
    qual, nparams, title = TU + '::connect', 1, 'TransportUnix::connect'
    mine, other, what = 'client_fd_', 'server_fd_', 'connected'

    def setup(self, e, st):
        self.seen = set()
        this = self.obj(e, st)
        self.pid = z3.Const('pid', IntS)
        st.fact(z3.And(self.pid >= 0, self.pid < 2 ** 64))
        return [this, self.pid], {}

    def name_ok(self, e, c, st, addr, what):
        if what != 'connect':
            return LS.name_ok(self, e, c, st, addr, what)
        addr(c, st, full_name(c, st, self.pid))


class Ctor(LS):
    qual, nparams, title = TU + '::TransportUnix', 0, 'TransportUnix::TransportUnix'

    def setup(self, e, st):
        return [self.obj(e, st, False)], {}

    def post(self, e, o, env):
        st = o.st
        c = self.conns(e, st)
        q = z3.Const('q', IntS)
        e.oblige(st, z3.And(self.fdv(e, st, 'server_fd_') == 0, self.fdv(e, st, 'client_fd_') == 0), "[C18] a new transport is not connected")
        e.oblige(st, z3.ForAll([q], z3.Not(z3.Select(c.dom, q))), "[C18] a new transport has no connections")
        e.oblige(st, z3.Not(self.running(e, st)), "[C18] a new transport is not running")
        e.oblige(st, self.handle(e, st) == 0, "[C18] a new transport has no worker")
        o, _ = fld(e, TU, 'request_counter_')
        with quiet(e):
            rc = toz(e.load(st, e.shift(self.me, o), e.mkint(64)))
        e.oblige(st, rc >= 1, "[C05,C18] request ids start above the one reserved for broadcasts")


class Dtor(LS):
    qual, nparams, title = TU + '::~TransportUnix', 0, 'TransportUnix::~TransportUnix'

    def setup(self, e, st):
        this = self.obj(e, st, False)
        o, t = fld(e, TU, 'thread_')
        h = z3.Const('worker', IntS)
        st.fact(h >= 0)
        e.put_abs(st, e.shift(this, o), Tok('thread', [h]), 'std::thread')
        g = st.ghost
        g['alive'] = h != 0
        g['closed'] = NONE
        q = z3.Const('q', IntS)
        c = self.conns(e, st)
        e.map_facts(st, c)
        # without a worker (never started, or already ended) the connections are the open sockets of this transport
        self.c0 = c
        self.own(e, st, c)
        g['owned'] = c.dom
        e.invariants.append(self.loop_invs)
        return [this], {}

    def own(self, e, st, c):
        q = z3.Const('q', IntS)
        st.fact(z3.ForAll([q], z3.Implies(z3.Select(c.dom, q), z3.And(q > 0, q < 2 ** 30, z3.Select(st.ghost['open'], q))), patterns=[z3.Select(c.dom, q)]))

    def at_join(self, e, st):
        e.oblige(st, z3.Not(self.running(e, st)), "[C18] the worker is told to stop before it is waited for")
        # the worker may have changed its connections until now; it keeps exactly the open ones (its contract)
        with quiet(e):
            v = e.fresh_leaf(st, SETI, 'conns_final')
            e.put_abs(st, self.conns_p, v, SETI)
            e.map_facts(st, v)
        st.ghost['open'] = fresh('open', ArrB)
        self.own(e, st, v)
        st.ghost['owned'] = v.dom
        st.ghost['open1'] = st.ghost['open']

    def loop_invs(self, e, fr, head0, st, mod):
        res = []
        g0 = head0.ghost
        q = z3.Const('q', IntS)
        if ('g', 'open') not in mod:
            return res
        for key in mod:
            if key[0] != 'c':
                continue
            c = head0.mem[key[1]].cells.get(key[2])
            v = c[1] if c is not None else mod[key][1]
            if isinstance(v, MapIt) and v.done is not None and v.done.sort().domain() == IntS:
                IT = lambda s, key=key: s.mem[key[1]].cells[key[2]][1]
                cont = lambda s, IT=IT: Work.contof(self, e, s, IT(s))
                res.append(("visited sockets are closed", lambda s, IT=IT: z3.ForAll([q], z3.Implies(z3.Select(IT(s).done, q), z3.Not(z3.Select(s.ghost['open'], q)))), False))
                res.append(("other sockets stay as they were", lambda s, IT=IT: z3.ForAll([q], z3.Implies(z3.Not(z3.Select(IT(s).done, q)), z3.Select(s.ghost['open'], q) == z3.Select(g0['open'], q))), False))
                res.append(("iterator at an unvisited element", lambda s, IT=IT, cont=cont: z3.Implies(z3.Not(tob(IT(s).end)), z3.And(z3.Select(cont(s).dom, toz(IT(s).k)), z3.Not(z3.Select(IT(s).done, toz(IT(s).k))))), False))
                res.append(("everything visited at the end", lambda s, IT=IT, cont=cont: z3.Implies(tob(IT(s).end), z3.ForAll([q], z3.Implies(z3.Select(cont(s).dom, q), z3.Select(IT(s).done, q)))), False))
                res.append(("visited were connections", lambda s, IT=IT: z3.ForAll([q], z3.Implies(z3.Select(IT(s).done, q), z3.Select(s.ghost['owned'], q))), False))
        if not res:
            # loops that consume the set (erase while iterating, while not empty)
            res.append(("left are exactly the open ones", lambda s: z3.ForAll([q], z3.Implies(z3.Select(s.ghost['owned'], q), z3.Select(s.ghost['open'], q) == z3.Select(self.conns(e, s).dom, q))), False))
            res.append(("only connections", lambda s: z3.ForAll([q], z3.Implies(z3.Select(self.conns(e, s).dom, q), z3.Select(s.ghost['owned'], q))), False))
            res.append(("others stay", lambda s: z3.ForAll([q], z3.Implies(z3.Not(z3.Select(s.ghost['owned'], q)), z3.Select(s.ghost['open'], q) == z3.Select(g0['open'], q))), False))
        return res

    def post(self, e, o, env):
        st = o.st
        g = st.ghost
        q = z3.Const('q', IntS)
        e.oblige(st, z3.Not(g['alive']), "[C18] the worker has ended when the transport is gone")
        e.oblige(st, z3.ForAll([q], z3.Implies(z3.Select(g['owned'], q), z3.Not(z3.Select(g['open'], q)))), "[C18] every socket of the transport is closed when it is gone")
        o1 = g.get('open1', self.open0)
        e.oblige(st, z3.ForAll([q], z3.Implies(z3.Not(z3.Select(g['owned'], q)), z3.Select(g['open'], q) == z3.Select(o1, q))) if 'open1' in g else True, "[C18] no other socket is touched")


class IsConnected(LS):
    qual, title = TU + '::isConnected', 'TransportUnix::isConnected'

    def setup(self, e, st):
        return [self.obj(e, st, False)], {}

    def post(self, e, o, env):
        st = o.st
        s, c = self.fdv(e, st, 'server_fd_'), self.fdv(e, st, 'client_fd_')
        e.oblige(st, tob(e.to_bool(o.ret)) == z3.Or(s != 0, c != 0), "[C18] connected means it has a socket")


class FactoryBase(FnSpec):
    def install(self, e):
        e.on_function = lambda c, st, v: None
        me = self

        def begin(which):
            def h(c, st):
                g = st.ghost
                e.oblige(st, g['calls'] == 0, "[C18] one transport is started")
                e.oblige(st, which == me.which, "[C18] the factory %ss" % me.which)
                g['calls'] = g['calls'] + 1
                g['obj'] = toz(e.ptr_to_int(c.args[0]))
                if which == 'connect':
                    o, t = fld(e, DEST, 'pid_')
                    e.oblige(st, toz(c.args[1]) == toz(e.load(st, EPtr(HEAP, me.x, o), e.mkint(8 * e.T.size(t)))), "[C18] the connection goes to the destination given")
                ok = fresh('ok', BoolS)
                g['ok'] = ok
                return ok
            return h
        for w, S in (('serve', Serve), ('connect', Connect)):
            if find_fn(e.P, S()):
                e.contracts[TU + '::' + w] = begin(w)

    def start(self, e, st):
        this = e.new_obj(st, 'factory', 'param', FACT)
        out = e.new_obj(st, 'result', 'param')
        g = st.ghost
        g['calls'] = g['obj'] = z3.IntVal(0)
        g['ok'] = z3.BoolVal(False)
        self.out = out
        return [out, this]

    def result(self, e, st):
        v = e.get_abs(st, self.out, 'std::shared_ptr<%s>' % TR)
        return toz(e.ptr_to_int(v.p))


class FServe(FactoryBase):
    qual, nparams, title, which = FACT + '::serve', 0, 'TransportUnixFactory::serve', 'serve'

    def setup(self, e, st):
        return self.start(e, st), {}

    def post(self, e, o, env):
        g = o.st.ghost
        r = self.result(e, o.st)
        e.oblige(o.st, g['calls'] == 1, "[C18] the factory starts a transport")
        e.oblige(o.st, r == z3.If(g['ok'], g['obj'], z3.IntVal(0)), "[C18] the factory yields the transport exactly if it was started")


class FConnect(FactoryBase):
    qual, nparams, title, which = FACT + '::connect', 1, 'TransportUnixFactory::connect', 'connect'

    def setup(self, e, st):
        a = self.start(e, st)
        d = e.new_obj(st, 'destination', 'param')
        v = e.get_abs(st, d, 'std::shared_ptr<scalopus::Destination>')
        self.x = toz(e.ptr_to_int(v.p))
        import re
        self.isa = z3.And(self.x != 0, z3.Function('isa_' + re.sub(r'\W', '_', DEST), IntS, BoolS)(self.x))
        return a + [d], {}

    def post(self, e, o, env):
        g = o.st.ghost
        r = self.result(e, o.st)
        e.oblige(o.st, z3.Implies(z3.Not(self.isa), z3.And(r == 0, g['calls'] == 0)), "[C18] a destination of another kind yields no transport")
        e.oblige(o.st, z3.Implies(self.isa, g['calls'] == 1), "[C18] the factory connects to the destination")
        e.oblige(o.st, z3.Implies(self.isa, r == z3.If(g['ok'], g['obj'], z3.IntVal(0))), "[C18] the factory yields the transport exactly if it was connected")


def t1(tier):
    P = prog()
    return verify_all(P, [S() for S in (Ctor, Serve, Connect, Dtor, IsConnected, FServe, FConnect)], tier)


def c18(tier):
    from specs import transport_unix
    return for_prop(verify_all(prog(), [S() for S in (Ctor, Serve, Connect, Dtor, IsConnected, FServe, FConnect, transport_unix.Work)], tier), 'C18')
