"""C05, C06, C07 (distribution), C08 (use): TransportUnix."""
import z3
from scv.spec import *
from scv import guard
from scv.guard import Guarded, quiet, eqv, took_effect
from scv.lib_std import PTR, mkey, pstate, excs
from specs.map_tracker import with_key, without_key, arrs, leafterms
from specs.transport import TR, EP, fld, registry, queue, name_of, PAIR, is_reg
from specs.protocol import MSG, field
import specs.transport as base

TU = 'scalopus::TransportUnix'
SRCS = ['scalopus_transport/src/transport_unix.cpp', 'scalopus_interface/src/transport.cpp', 'scalopus_interface/src/endpoint.cpp']
EXTRA = ('-include', '/verif/stubs/scv_select.h')
DATA = 'std::vector<unsigned char>'
KEY = 'std::pair<std::string, unsigned long>'
ENTRY = 'std::pair<std::promise<%s>, std::weak_ptr<std::future<%s>>>' % (DATA, DATA)
PENDING = 'std::map<%s, %s>' % (KEY, ENTRY)
SETI = 'std::set<int>'
M32 = 1 << 32
ArrB = z3.ArraySort(IntS, BoolS)
NONE = z3.K(IntS, z3.BoolVal(False))
ASSUMPTIONS = [
    "protocol::send and protocol::receive obey their contracts (proved under C01, C02)",
    "select, accept, close, shutdown, socket, bind, listen, connect behave as POSIX specifies; FD_SET and friends are set operations (descriptors below FD_SETSIZE)",
    "descriptor 0 is never a socket of this process (the code uses 0 for 'none')",
    "the logger is not empty (it has a default); endpoint handlers throw nothing but standard exceptions, the logger throws nothing, and neither touches the transport's private state; a request counter does not wrap (2^64)",
    "while the worker runs, other threads only use the public interface: connections_, server_fd_ and client_fd_ belong to the worker, running_ is only ever cleared",
    "weak_ptr: once expired stays expired; std::promise, std::map, std::set, std::mutex behave as the standard specifies",
]


def prog():
    return Program(SRCS, EXTRA)


def is_pending(t):
    return t == PENDING or t == PENDING.replace('std::map', 'std::unordered_map')


class Msg:
    """fields of a protocol::Msg in memory"""

    def __init__(self, e, p):
        self.e, self.p = e, p
        self.oi, self.oe, self.od = (field(e, MSG, x)[0] for x in ('request_id', 'endpoint', 'data'))

    def get(self, st):
        e, p = self.e, self.p
        return (toz(e.load(st, e.shift(p, self.oi), e.mkint(64))), e.blob_of(st, e.get_abs(st, e.shift(p, self.oe), 'std::string')),
                e.blob_of(st, e.get_abs(st, e.shift(p, self.od), DATA)))

    def put(self, st, i, n, d):
        e, p = self.e, self.p
        e.store(st, e.shift(p, self.oi), i, 8)
        e.put_abs(st, e.shift(p, self.oe), e.unpack_leaf(st, 'std::string', [n]), 'std::string')
        e.put_abs(st, e.shift(p, self.od), e.unpack_leaf(st, DATA, [d]), DATA)

    def fresh(self, st, tag):
        i, n, d = fresh(tag + '_id'), fresh(tag + '_name', Blob), fresh(tag + '_data', Blob)
        st.fact(z3.And(i >= 0, i < 2 ** 64))
        self.put(st, i, n, d)
        return i, n, d


class TUS(FnSpec):
    """common state of TransportUnix contracts"""
    nparams = 0

    def install(self, e):
        base.ep_contracts(e)
        e.on_function = lambda c, st, v: None   # the logger

    def this(self, e, st):
        this = e.new_obj(st, 'transport', 'param', TU)
        e.take_addr(this)
        st.ghost.setdefault('transport_of', z3.Const('transport_of0', z3.ArraySort(IntS, IntS)))
        self.me = this
        o, t = fld(e, TU, 'ongoing_requests_', is_pending)
        m, _ = fld(e, TU, 'request_lock_')
        self.pend = Guarded('pending requests', e.shift(this, o), t, e.shift(this, m), change=self.pend_change)
        m, _ = fld(e, TU, 'write_lock_')
        self.wlock = e.shift(this, m)
        self.reg = registry(e, this, TU)
        self.queue = queue(e, this, TU)
        self.conns_p = None
        pstate(e, st)
        o, t = fld(e, TU, 'logger_')
        x = z3.Const('logger', IntS)
        st.fact(x > 0)
        e.put_abs(st, e.shift(this, o), Tok('function', [x]), t)
        for g in (self.pend, self.reg, self.queue):
            g.fresh(e, st)
        guard.install(e, [self.pend, self.reg, self.queue])
        a, l = e.on_access, e.on_lock

        def lock(e, st, p, mode):
            if mkey(p) == mkey(self.pend.mutex):
                # other threads may have resolved or registered requests meanwhile
                st.ghost['P.state'] = fresh('P.state', z3.ArraySort(IntS, IntS))
                st.ghost['EX0'] = st.ghost['EX'] = fresh('expired', ArrB)
            l(e, st, p, mode)
            if mkey(p) == mkey(self.pend.mutex):
                v = st.ghost['pending requests.pre']
                st.fact(self.pend_inv(e, st, v))
            self.locked(e, st, p)
        e.on_lock = lock

        def access(e, st, p, write, what):
            a(e, st, p, write, what)
            if self.queue.covers(e, p):
                raise Unsupported("broadcast queue used directly")
            self.accessed(e, st, p, write)
        e.on_access = access
        st.ghost['EX0'] = st.ghost['EX'] = NONE

        def expired(c, st, p, v):
            w = toz(e.ptr_to_int(v.p))
            r = fresh('expired', BoolS)
            st.fact(z3.Implies(z3.Or(w == 0, z3.Select(st.ghost['EX'], w)), r))
            st.ghost['EX'] = z3.Store(st.ghost['EX'], w, r)
            return r

        def wlock(c, st, p, v, el):
            w = toz(e.ptr_to_int(v.p))
            r = fresh('expired', BoolS)
            st.fact(z3.Implies(z3.Or(w == 0, z3.Select(st.ghost['EX'], w)), r))
            st.ghost['EX'] = z3.Store(st.ghost['EX'], w, r)
            res = []
            for s, b in e.split(st, r, True, False):
                e.put_abs(s, c.sret, Ref('shared_ptr', el, NULL if b else v.p), 'std::shared_ptr<%s>' % el)
                res.append(Outcome(s, None))
            return res
        e.on_weak_expired, e.on_weak_lock = expired, wlock
        return this

    def accessed(self, e, st, p, write):
        pass

    def locked(self, e, st, p):
        pass

    def pend_inv(self, e, st, v):
        """every pending promise is unresolved, no two requests share one, and no request has the id 0 of broadcasts"""
        ks = v.dom.sort().domain()
        k, q = z3.Const('k', ks), z3.Const('q', ks)
        pa = arrs(v)[0]
        P = st.ghost['P.state']
        return z3.And(
            z3.ForAll([k], z3.Implies(z3.Select(v.dom, k), z3.And(z3.Select(pa, k) > 0, z3.Select(P, z3.Select(pa, k)) == 0, e.T.unkey(KEY, k)[1] >= 1)), patterns=[z3.Select(v.dom, k)]),
            z3.ForAll([k, q], z3.Implies(z3.And(z3.Select(v.dom, k), z3.Select(v.dom, q), z3.Select(pa, k) == z3.Select(pa, q)), k == q),
                      patterns=[z3.MultiPattern(z3.Select(v.dom, k), z3.Select(v.dom, q))]))

    def pend_change(self, e, st, pre, v):
        e.oblige(st, eqv(pre, v), "[C05] pending requests are not changed")

    def exc_ok(self, e, o, env):
        return False

    def key(self, e, name, rid):
        return e.T.mkkey(KEY, [name, rid])


class Request(TUS):
    qual, nparams, title = TU + '::request', 2, 'TransportUnix::request'

    def setup(self, e, st):
        this = self.this(e, st)
        out = e.new_obj(st, 'result', 'param')
        nm = e.new_obj(st, 'name', 'param')
        d = e.new_obj(st, 'data', 'param')
        self.name = e.blob_of(st, e.get_abs(st, nm, 'std::string'))
        self.data = e.blob_of(st, e.get_abs(st, d, DATA))
        o, t = fld(e, TU, 'request_counter_')
        self.counter = e.shift(this, o)
        g = st.ghost
        g['id'] = z3.IntVal(0)          # the id drawn (0: none)
        g['draws'] = z3.IntVal(0)
        g['stored'] = z3.BoolVal(False)
        g['sent'] = z3.IntVal(0)        # 0 not yet, 1 success, 2 failure
        g['dropped'] = z3.BoolVal(False)
        g['prom'] = z3.IntVal(0)
        g['weak'] = z3.IntVal(0)
        g['told'] = z3.BoolVal(False)

        def atomic(e, st, op, p, v, order, ty):
            if not (isinstance(p, Ptr) and p.obj == self.counter.obj and p.off == self.counter.off):
                return None
            i = fresh('counter')
            st.fact(z3.And(i >= 1, i < 2 ** 64 - 1))
            if op == 'load':
                return i
            if op != 'rmw_add':
                raise Unsupported("request counter " + op)
            e.oblige(st, z3.And(toz(v) >= 1, toz(v) < 2 ** 32), "[C05] drawing a request id advances the counter")
            st.ghost['id'] = i
            st.ghost['draws'] = st.ghost['draws'] + 1
            st.fact(z3.Not(st.ghost['stored']))
            return i
        e.on_atomic = atomic
        self.out = out

        def send(c, st):
            fd, m = c.args[0], Msg(e, c.args[1]).get(st)
            g = st.ghost
            e.oblige(st, st.held.get(mkey(self.wlock)) == 'ex', "[C05] messages are written with the write mutex held")
            o, _ = fld(e, TU, 'client_fd_')
            e.oblige(st, toz(fd) == toz(e.load(st, e.shift(this, o), e.mkint(32))), "[C05] the request goes to the server's connection")
            e.oblige(st, m[0] == g['id'], "[C05] the request carries the id drawn for it")
            e.oblige(st, g['id'] != 0, "[C05] the request's id was drawn from the counter")
            e.oblige(st, m[1] == self.name, "[C05] the request carries the endpoint name given")
            e.oblige(st, m[2] == self.data, "[C05] the request carries the payload given")
            e.oblige(st, g['sent'] == 0, "[C05] a request is sent once")
            locked = st.held.get(mkey(self.pend.mutex)) == 'ex'
            if not locked:
                e.oblige(st, g['stored'], "[C05] the request is registered before a response can arrive")
            bad = st.copy()
            bad.ghost['sent'] = z3.IntVal(2)
            st.ghost['sent'] = z3.IntVal(1)
            return [Outcome(bad, False), Outcome(st, True)]
        e.contracts['scalopus::protocol::send'] = send

        def told(c, st, i):
            g = st.ghost
            e.oblige(st, z3.And(g['sent'] == 2, i == g['prom']), "[C05] an error is only reported for a request that could not be sent")
            g['told'] = z3.BoolVal(True)
        e.on_set_exception = told

        def value(c, st, i, b):
            e.oblige(st, False, "[C05] a future is only fulfilled by a response")
        e.on_set_value = value
        return [out, this, nm, d], {}

    counter = None

    def accessed(self, e, st, p, write):
        if self.counter is not None and isinstance(p, Ptr) and p.obj == self.counter.obj and p.off == self.counter.off:
            if st.held:
                raise Unsupported("request counter used under a lock")
            e.oblige(st, False, "[C05] request ids are drawn atomically")

    def locked(self, e, st, p):
        if mkey(p) != mkey(self.pend.mutex):
            return
        # the id drawn is this call's own: only this call registers it, only a response removes it
        v, g = st.ghost['pending requests.pre'], st.ghost
        q = z3.Const('q', v.dom.sort().domain())
        mine = self.key(e, self.name, g['id'])
        ts = e.T.unkey(KEY, q)
        st.fact(z3.Implies(g['id'] != 0, z3.ForAll([q], z3.Implies(z3.And(z3.Select(v.dom, q), ts[1] == g['id']), z3.And(g['stored'], q == mine)), patterns=[z3.Select(v.dom, q)])))
        a = arrs(v)
        st.fact(z3.Implies(z3.And(g['stored'], z3.Select(v.dom, mine)), z3.And(z3.Select(a[0], mine) == g['prom'], z3.Select(a[1], mine) == g['weak'])))
        q = z3.Const('q', v.dom.sort().domain())
        # promises this call still holds are not in the table
        nx = g['P.next']
        st.fact(z3.ForAll([q], z3.Implies(z3.And(z3.Select(v.dom, q), z3.Not(z3.And(g['stored'], q == mine))), z3.Select(a[0], q) < z3.Const('P.next0', IntS)), patterns=[z3.Select(v.dom, q)]))
        P = g['P.state']
        x = z3.Const('x', IntS)
        st.fact(z3.ForAll([x], z3.Implies(z3.And(x >= z3.Const('P.next0', IntS), z3.Not(z3.And(g['stored'], x == g['prom']))), z3.Select(P, x) == 0), patterns=[z3.Select(P, x)]))

    def pend_change(self, e, st, pre, v):
        g = st.ghost
        mine = self.key(e, self.name, g['id'])
        if same(pre, v):
            e.oblige(st, z3.Implies(g['sent'] == 1, g['stored']), "[C05] the request is registered before a response can arrive")
            return
        a = arrs(v)
        had = z3.Select(pre.dom, mine)
        now = z3.Select(v.dom, mine)
        q = z3.Const('q', pre.dom.sort().domain())
        e.oblige(st, z3.ForAll([q], z3.Implies(q != mine, z3.And([z3.Select(v.dom, q) == z3.Select(pre.dom, q)] + [
            z3.Implies(z3.Select(pre.dom, q), z3.Select(y, q) == z3.Select(x, q)) for x, y in zip(arrs(pre), a)]))), "[C05] other pending requests are left alone")
        e.oblige(st, g['id'] != 0, "[C05] the request's id was drawn from the counter")
        e.oblige(st, z3.Implies(z3.And(had, now), z3.And(z3.Select(a[0], mine) == g['prom'], z3.Select(a[1], mine) == g['weak'])), "[C05] a registered request is not replaced")
        # registering
        new = z3.And(z3.Not(had), now)
        p = z3.Select(a[0], mine)
        e.oblige(st, z3.Implies(new, z3.And(p > 0, z3.Select(g['P.state'], p) == 0)), "[C05] the registered promise is unresolved")
        e.oblige(st, z3.Implies(new, z3.Or(g['sent'] == 0, st.held.get(mkey(self.pend.mutex)) == 'ex')), "[C05] the request is registered before a response can arrive")
        e.oblige(st, z3.Implies(z3.And(had, z3.Not(now)), z3.And(g['sent'] == 2, z3.Select(g['P.state'], g['prom']) == 2)),
                 "[C05] a request is only dropped after its failure was reported")
        e.oblige(st, z3.Implies(z3.And(g['sent'] == 1), now), "[C05] the request is registered before a response can arrive")
        st.ghost['prom'] = z3.If(new, p, g['prom'])
        st.ghost['weak'] = z3.If(new, z3.Select(a[1], mine), g['weak'])
        st.ghost['stored'] = z3.Or(g['stored'], new)
        st.ghost['dropped'] = z3.Or(g['dropped'], z3.Not(now))
        e.oblige(st, self.pend_inv(e, st, v), "[C05] every pending promise is unresolved")

    def post(self, e, o, env):
        st = o.st
        g = st.ghost
        e.oblige(st, not st.held, "no mutex is left locked")
        e.oblige(st, g['sent'] != 0, "[C05] the request is sent")
        pre = g.get('pending requests.pre')
        v = e.get_abs(st, self.out, 'std::shared_ptr<std::future<%s>>' % DATA)
        e.oblige(st, z3.Not(tob(e.is_null(v.p))), "[C05] a future is returned")
        try:
            f = e.get_abs(st, v.p, 'std::future<%s>' % DATA)
            fid = toz(f.parts[0])
        except NullDeref:
            return
        # if the request is registered, the caller holds its future
        e.oblige(st, z3.Implies(g['stored'], z3.And(fid == g['prom'], toz(e.ptr_to_int(v.p)) == g['weak'])), "[C05] the future returned belongs to the registered promise")
        e.oblige(st, z3.Implies(g['sent'] == 1, g['stored']), "[C05] the request is registered before a response can arrive")
        if pre is None:
            e.oblige(st, False, "[C05] the request is registered")
            return
        last = self.pend.value(e, st)
        e.oblige(st, z3.Implies(g['sent'] == 2, z3.Not(z3.Select(last.dom, self.key(e, self.name, g['id'])))), "[C05] a request that could not be sent leaves nothing pending")
        e.oblige(st, z3.Implies(z3.And(g['sent'] == 2, z3.Not(g['stored'])), z3.Select(g['P.state'], fid) == 2), "[C05] a request that could not be sent reports an error through its future")
        e.oblige(st, z3.Implies(z3.And(g['sent'] == 2, g['stored'], g['dropped']), g['told']), "[C05] a request that could not be sent reports an error through its future")


class Pending(TUS):
    qual, nparams, title = TU + '::pendingRequests', 0, 'TransportUnix::pendingRequests'

    def setup(self, e, st):
        return [self.this(e, st)], {}

    def post(self, e, o, env):
        pre = o.st.ghost.get('pending requests.pre')
        e.oblige(o.st, not o.st.held, "no mutex is left locked")
        e.oblige(o.st, pre is not None, "[C05] looks at the pending requests")
        if pre is not None:
            e.oblige(o.st, toz(o.ret) == toz(pre.card), "[C05] reports the number of pending requests")



IDLE, GOT, OWED, CAST, BROKEN, LOST = range(6)
# what the worker owes: nothing; a received message to be handled; a reply to be sent; a broadcast to be distributed;
# a broken connection to be closed; the server's connection is lost


def fdset(e, st, p):
    p0 = p
    o = e.obj(st, p)
    c = o.cells.get(p.off)
    if c is None or not (isinstance(c[1], Tok) and c[1].kind == 'fd_set'):
        raise Unsupported("descriptor set used before FD_ZERO")
    return c[1].parts[0]


def put_fdset(e, st, p, a):
    o = e.obj(st, p)
    cells = {k: v for k, v in o.cells.items() if not (p.off <= k < p.off + 128)}
    cells[p.off] = (128, Tok('fd_set', [a]))
    st.mem[p.obj] = o.with_cells(cells)


class Work(TUS):
    qual, nparams, title = TU + '::work', 0, 'TransportUnix::work'

    def fdv(self, e, st, which):
        o, _ = fld(e, TU, which)
        with quiet(e):
            return toz(e.load(st, e.shift(self.me, o), e.mkint(32)))

    def conns(self, e, st):
        with quiet(e):
            return e.get_abs(st, self.conns_p, SETI)

    def setup(self, e, st):
        self.eng = e
        e.int_candidates = False
        this = self.this(e, st)
        o, t = fld(e, TU, 'connections_', lambda t: t == SETI)
        if t != SETI:
            raise Unsupported("representation of connections_ changed")
        self.conns_p = e.shift(this, o)
        fld(e, TU, 'running_')
        g = st.ghost
        g['state'] = z3.IntVal(IDLE)
        for k in ('cur.fd', 'cur.id'):
            g[k] = z3.Const(k, IntS)
        for k in ('cur.name', 'cur.data', 'cur.resp', 'cast.name', 'cast.data'):
            g[k] = z3.Const(k, Blob)
        g['looked'] = g['psec'] = g['inpend'] = g['sel.ok'] = g['have'] = g['polled'] = g['cleaned'] = g['accepted'] = g['lost'] = z3.BoolVal(False)
        g['cur.client'] = z3.BoolVal(False)
        g['ready'] = g['exc'] = g['served'] = g['sent'] = NONE
        g['open'] = z3.Const('open0', ArrB)
        for k, gd in (('pending requests.pre', self.pend), ('endpoints.pre', self.reg)):
            g[k] = gd.value(e, st)
            g[k.replace('.pre', '.mod')] = z3.BoolVal(False)
        c = self.conns(e, st)
        e.map_facts(st, c)
        g['told'] = z3.Not(self.running(e, st))
        s, cl = self.fdv(e, st, 'server_fd_'), self.fdv(e, st, 'client_fd_')
        # established by serve() and connect() (C18)
        q = z3.Const('q', IntS)
        st.fact(z3.And(s >= 0, s < 2 ** 30, cl >= 0, cl < 2 ** 30))
        st.fact(z3.Or(z3.And(s > 0, cl == 0), z3.And(cl > 0, s == 0)))
        st.fact(c.dom == z3.Store(NONE, z3.If(s > 0, s, cl), True))
        st.fact(toz(c.card) == 1)
        st.fact(g['open'] == c.dom)
        self.contracts(e)
        e.invariants.append(self.loop_invs)
        return [this], {}

    # ---- what has to be true whenever the worker turns to something else
    def idle(self, e, st, full):
        """[(name, formula)]"""
        g = st.ghost
        c = self.conns(e, st)
        q = z3.Const('q', IntS)
        s, cl = self.fdv(e, st, 'server_fd_'), self.fdv(e, st, 'client_fd_')
        S = g['state']
        regd = z3.Select(g['endpoints.pre'].dom, e.T.mkkey('std::string', [g['cur.name']]))
        r = [
            ("[C06] a request received for an endpoint it has is handled", z3.Implies(z3.And(S == GOT, z3.Not(g['cur.client'])), z3.And(g['looked'], z3.Not(regd)))),
            ("[C05] a response received resolves its request", z3.Implies(z3.And(S == GOT, g['cur.client']), z3.And(g['psec'], z3.Not(g['inpend'])))),
            ("[C07] a message without a pending request is handed to its endpoint", z3.Implies(z3.And(S == GOT, g['cur.client'], z3.Not(g['inpend'])), z3.And(g['looked'], z3.Not(regd)))),
            ("[C06] a response produced by a handler is sent", S != OWED),
            ("[C06,C18] a broken connection is closed", S != BROKEN),
            ("[C06,C18] the connections kept are exactly the open ones", g['open'] == c.dom),
            ("[C07] a broadcast taken from the queue is sent to every client", z3.Implies(S == CAST, z3.ForAll([q], z3.Implies(z3.And(z3.Select(c.dom, q), q != s), z3.Select(g['sent'], q))))),
            ("[C05,C18] a lost connection is noticed", z3.Implies(S == LOST, cl == 0)),
        ]
        if full:
            ok = z3.And(g['sel.ok'], z3.Not(g['lost']))
            r += [
                ("[C06] every connection with a message waiting is served", z3.Implies(ok, z3.ForAll([q], z3.Implies(z3.And(z3.Select(g['ready'], q), q != s), z3.Select(g['served'], q)), patterns=[z3.Select(g['served'], q)]))),
                ("[C06] a waiting client is accepted", z3.Implies(z3.And(ok, s != 0, z3.Select(g['ready'], s)), g['accepted'])),
                ("[C07] queued broadcasts are looked for in every round", z3.Implies(ok, g['polled'])),
                ("[C07] a queued broadcast that was seen is taken", z3.Implies(ok, z3.Not(g['have']))),
                ("[C05] abandoned requests are dropped in every round", z3.Implies(ok, g['cleaned'])),
            ]
        return r

    def sane(self, e, st):
        """structural part of the worker's invariant"""
        g = st.ghost
        c = self.conns(e, st)
        q = z3.Const('q', IntS)
        s, cl = self.fdv(e, st, 'server_fd_'), self.fdv(e, st, 'client_fd_')
        run = self.running(e, st)
        return [
            ("descriptors are valid", z3.ForAll([q], z3.Implies(z3.Select(c.dom, q), z3.And(q > 0, q < 2 ** 30)), patterns=[z3.Select(c.dom, q)])),
            ("the listening socket stays", z3.Implies(s != 0, z3.Select(c.dom, s))),
            ("the server's connection stays", z3.Implies(cl != 0, z3.Select(c.dom, cl))),
            ("there is a socket while running", z3.Implies(run, z3.Or(s != 0, cl != 0))),
            ("server or client", z3.Not(z3.And(s != 0, cl != 0))),
            ("lost means stopped", z3.Implies(g['lost'], z3.Not(run))),
            ("a server is stopped from outside only", z3.Implies(z3.And(s != 0, z3.Not(run)), g['told'])),
        ]

    def running(self, e, st):
        o, _ = fld(e, TU, 'running_')
        with quiet(e):
            return tob(e.to_bool(e.load(st, e.shift(self.me, o), e.mkint(8))))

    def settle(self, e, st, full=False):
        for n, f in self.idle(e, st, full):
            e.oblige(st, f, n)

    # ---- contracts of what the worker calls
    def contracts(self, e):
        me = self

        def fz(c, st):
            put_fdset(e, st, c.args[0], NONE)

        def fs(c, st):
            put_fdset(e, st, c.args[1], z3.Store(fdset(e, st, c.args[1]), toz(c.args[0]), z3.BoolVal(c.name == 'scv_fd_set')))

        def fi(c, st):
            return z3.If(z3.Select(fdset(e, st, c.args[1]), toz(c.args[0])), z3.IntVal(1), z3.IntVal(0))
        e.handlers.update({'scv_fd_zero': fz, 'scv_fd_set': fs, 'scv_fd_clr': fs, 'scv_fd_isset': fi})

        def select(c, st):
            nfds, rp, wp, xp, tv = c.args
            g = st.ghost
            me.settle(e, st, True)
            cs = me.conns(e, st)
            q = z3.Const('q', IntS)
            if isinstance(rp, Ptr) and rp.obj is None:
                e.oblige(st, False, "[C06] every connection is waited for")
                raise Unsupported("select without a read set")
            R = fdset(e, st, rp)
            e.oblige(st, z3.ForAll([q], z3.Implies(z3.Select(cs.dom, q), z3.Select(R, q))), "[C06] every connection is waited for")
            e.oblige(st, z3.ForAll([q], z3.Implies(z3.Select(cs.dom, q), q < toz(nfds))), "[C06] every connection is below select's bound")
            e.oblige(st, z3.Not(tob(e.is_null(tv))), "[C07] waiting for messages ends after a while, for broadcasts and shutdown")
            st.ghost['state'] = z3.IntVal(IDLE)
            st.ghost['have'] = st.ghost['polled'] = st.ghost['cleaned'] = st.ghost['accepted'] = z3.BoolVal(False)
            st.ghost['served'] = NONE
            o, _ = fld(e, TU, 'running_')
            with quiet(e):
                x = fresh('keep', BoolS)
                st.ghost['told'] = z3.Or(st.ghost['told'], z3.And(me.running(e, st), z3.Not(x)))
                e.store(st, e.shift(me.me, o), z3.If(z3.And(me.running(e, st), x), z3.IntVal(1), z3.IntVal(0)), 1)
            bad = st.copy()
            res = []
            for s, ok in ((bad, False), (st, True)):
                ss = []
                for p in (rp, wp, xp):
                    if isinstance(p, Ptr) and p.obj is None:
                        ss.append(NONE)
                        continue
                    a = fresh('ready', ArrB)
                    old = fdset(e, s, p)
                    if ok:
                        s.fact(z3.ForAll([q], z3.Implies(z3.Select(a, q), z3.Select(old, q)), patterns=[z3.Select(a, q)]))
                    put_fdset(e, s, p, a)
                    ss.append(a)
                s.ghost['sel.ok'] = z3.BoolVal(ok)
                s.ghost['ready'] = ss[0] if ok else NONE
                s.ghost['exc'] = ss[2] if ok else NONE
            n = fresh('nready')
            st.fact(z3.And(n >= 0, n <= 3 * 1024))
            st.fact(z3.Implies(n == 0, z3.ForAll([q], z3.And(z3.Not(z3.Select(st.ghost['ready'], q)), z3.Not(z3.Select(st.ghost['exc'], q))), patterns=[z3.Select(st.ghost['ready'], q)])))
            return [Outcome(bad, M32 - 1), Outcome(st, n)]
        e.handlers['select'] = select

        def accept(c, st):
            g = st.ghost
            fd = toz(c.args[0])
            e.oblige(st, z3.And(fd == me.fdv(e, st, 'server_fd_'), fd != 0), "[C06] clients are accepted on the listening socket")
            e.oblige(st, z3.And(g['sel.ok'], z3.Select(g['ready'], fd), z3.Not(g['accepted'])), "[C06] the worker does not block in accept")
            g['accepted'] = z3.BoolVal(True)
            bad = st.copy()
            n = fresh('client')
            st.fact(z3.And(n > 0, n < 2 ** 30, z3.Not(z3.Select(g['open'], n))))
            st.ghost['open'] = z3.Store(g['open'], n, True)
            return [Outcome(bad, M32 - 1), Outcome(st, n)]
        e.handlers['accept'] = accept
        e.handlers['accept4'] = accept

        def receive(c, st):
            g = st.ghost
            fd, m = toz(c.args[0]), Msg(e, c.args[1])
            me.settle(e, st)
            s, cl = me.fdv(e, st, 'server_fd_'), me.fdv(e, st, 'client_fd_')
            e.oblige(st, z3.And(fd != s, z3.Select(g['open'], fd)), "[C06] messages are only read from open connections")
            e.oblige(st, z3.And(g['sel.ok'], z3.Select(g['ready'], fd), z3.Not(z3.Select(g['served'], fd))), "[C06] the worker does not block on an idle connection")
            g['served'] = z3.Store(g['served'], fd, True)
            g['cur.fd'] = fd
            g['cur.client'] = fd == cl
            g['looked'] = g['psec'] = g['inpend'] = z3.BoolVal(False)
            bad = st.copy()
            i, n, d = m.fresh(st, 'msg')
            st.ghost['cur.id'], st.ghost['cur.name'], st.ghost['cur.data'] = i, n, d
            st.ghost['state'] = z3.IntVal(GOT)
            m.fresh(bad, 'partial')
            outs = []
            for s2, b in e.split(bad, bad.ghost['cur.client'], True, False):
                s2.ghost['state'] = z3.IntVal(LOST if b else BROKEN)
                s2.ghost['lost'] = z3.Or(s2.ghost['lost'], z3.BoolVal(b))
                outs.append(Outcome(s2, False))
            return outs + [Outcome(st, True)]
        e.contracts['scalopus::protocol::receive'] = receive

        def send(c, st):
            g = st.ghost
            fd, m = toz(c.args[0]), Msg(e, c.args[1]).get(st)
            e.oblige(st, st.held.get(mkey(me.wlock)) == 'ex', "messages are written with the write mutex held")
            S = g['state']
            s = me.fdv(e, st, 'server_fd_')
            e.oblige(st, z3.Or(S == OWED, S == CAST), "[C06,C07] only replies and broadcasts are sent, each once")
            R = lambda f: z3.Implies(S == OWED, f)
            e.oblige(st, R(fd == g['cur.fd']), "[C06] the reply goes to the connection the request came from")
            e.oblige(st, R(m[0] == g['cur.id']), "[C06] the reply carries the request's id")
            e.oblige(st, R(m[1] == g['cur.name']), "[C06] the reply carries the request's endpoint name")
            e.oblige(st, R(m[2] == g['cur.resp']), "[C06] the reply carries the handler's response")
            B = lambda f: z3.Implies(S == CAST, f)
            e.oblige(st, B(z3.And(z3.Select(me.conns(e, st).dom, fd), fd != s)), "[C07] a broadcast goes to connected clients, never to the listening socket")
            e.oblige(st, B(z3.Not(z3.Select(g['sent'], fd))), "[C07] a broadcast is sent once to each client")
            e.oblige(st, B(m[0] == 0), "[C07] a broadcast carries the reserved request id 0")
            e.oblige(st, B(m[1] == g['cast.name']), "[C07] a broadcast carries the given endpoint name")
            e.oblige(st, B(m[2] == g['cast.data']), "[C07] a broadcast carries the given payload")
            g['sent'] = z3.If(S == CAST, z3.Store(g['sent'], fd, True), g['sent'])
            g['state'] = z3.If(S == OWED, z3.IntVal(IDLE), S)
            r = fresh('sendok', BoolS)
            return r
        e.contracts['scalopus::protocol::send'] = send

        def handler(unsol):
            def h(c, st):
                g = st.ghost
                p, tr, dp, rp = c.args
                x = toz(e.ptr_to_int(p))
                k = e.T.mkkey('std::string', [g['cur.name']])
                rg = g['endpoints.pre']
                tag = "[C07]" if unsol else "[C06]"
                e.oblige(st, g['state'] == GOT, tag + " a handler is called once for each message received")
                if unsol:
                    e.oblige(st, z3.And(g['cur.client'], g['psec'], z3.Not(g['inpend'])), "[C05,C07] a response to a pending request is not taken for an unsolicited message")
                else:
                    e.oblige(st, z3.Not(g['cur.client']), "[C06] requests are handled on the server side")
                e.oblige(st, z3.And(g['looked'], z3.Select(rg.dom, k), z3.Select(arrs(rg)[0], k) == x), tag + " the handler is that of the endpoint the message names")
                e.oblige(st, e.blob_of(st, e.get_abs(st, dp, DATA)) == g['cur.data'], tag + " the handler gets exactly the payload received")
                e.oblige(st, toz(e.ptr_to_int(tr)) == toz(e.ptr_to_int(me.me)), tag + " the handler gets this transport")
                e.oblige(st, toz(e.get_abs(st, rp, DATA).n) == 0, tag + " the handler starts with an empty response")
                no = st.copy()
                no.ghost['state'] = z3.IntVal(IDLE)
                e.put_abs(no, rp, e.fresh_leaf(no, DATA, 'noresp'), DATA)
                bad = no.copy()
                v = e.fresh_leaf(st, DATA, 'resp')
                e.put_abs(st, rp, v, DATA)
                st.ghost['cur.resp'] = e.blob_of(st, v)
                st.ghost['state'] = z3.IntVal(OWED)
                return [Outcome(no, False), Outcome(st, True), excs(bad, 'std::exception')]
            return h
        e.vcontracts[EP + '::handle'] = handler(False)
        e.vcontracts[EP + '::unsolicited'] = handler(True)

        def have(c, st):
            me.settle(e, st)
            b = fresh('have', BoolS)
            st.ghost['have'] = b
            st.ghost['polled'] = z3.BoolVal(True)
            return b

        def pop(c, st):
            g = st.ghost
            me.settle(e, st)
            e.oblige(st, g['have'], "[C07] a broadcast is only taken from the queue when there is one")
            n, d = fresh('bc_name', Blob), fresh('bc_data', Blob)
            g['cast.name'], g['cast.data'] = n, d
            g['state'] = z3.IntVal(CAST)
            g['sent'] = NONE
            g['have'] = z3.BoolVal(False)
            lv = e.T.leaves(PAIR)
            e.write_val(st, c.sret, [(lv[0][0], lv[0][1], e.unpack_leaf(st, lv[0][1], [n])), (lv[1][0], lv[1][1], e.unpack_leaf(st, lv[1][1], [d]))])
            return None
        if find_fn(e.P, base.HaveBroadcast()) and find_fn(e.P, base.PopBroadcast()):
            e.contracts[TR + '::haveBroadcast'] = have
            e.contracts[TR + '::popBroadcast'] = pop

        def closing(c, st):
            g = st.ghost
            fd = toz(c.args[0])
            w = c.sig.name
            e.oblige(st, z3.Select(g['open'], fd), "[C06,C18] only open connections are closed (%s)" % w)
            e.oblige(st, z3.Or(z3.And(g['state'] == BROKEN, fd == g['cur.fd']), z3.Select(g['exc'], fd), z3.And(g['lost'], fd == g['cur.fd'])), "[C06] only broken connections are closed (%s)" % w)
            if w == 'close':
                g['open'] = z3.Store(g['open'], fd, False)
                g['state'] = z3.If(z3.And(g['state'] == BROKEN, fd == g['cur.fd']), z3.IntVal(IDLE), g['state'])
            r = fresh('rc')
            st.fact(z3.And(r >= 0, r < M32))
            return r
        e.handlers['close'] = closing
        e.handlers['shutdown'] = closing

        def value(c, st, i, b):
            g = st.ghost
            k = me.key(e, g['cur.name'], g['cur.id'])
            pv = g['pending requests.pre']
            e.oblige(st, st.held.get(mkey(me.pend.mutex)) == 'ex', "[C05] requests are resolved with the request mutex held")
            e.oblige(st, z3.And(g['state'] == GOT, g['cur.client']), "[C05] a future is only fulfilled by a complete response")
            e.oblige(st, z3.And(g['inpend'], i == z3.Select(arrs(pv)[0], k)), "[C05] the future fulfilled is that of the request with the response's id and endpoint name")
            e.oblige(st, b == g['cur.data'], "[C05] a future is fulfilled with exactly the response's payload")
        e.on_set_value = value

        def exc(c, st, i):
            e.oblige(st, st.ghost['lost'], "[C05] an error is only reported when the connection is lost")
        e.on_set_exception = exc

    def locked(self, e, st, p):
        g = st.ghost
        if 'cur.name' not in g:
            return
        if mkey(p) == mkey(self.reg.mutex):
            g['looked'] = z3.BoolVal(True)
        if mkey(p) == mkey(self.pend.mutex):
            # the first look at the pending requests after a message arrived decides what becomes of it
            g['inpend'] = z3.And(g['state'] == GOT, g['cur.client'], z3.Not(g['psec']), z3.Select(g['pending requests.pre'].dom, self.key(e, g['cur.name'], g['cur.id'])))
            g['psec'] = z3.BoolVal(True)

    def pend_change(self, e, st, pre, v):
        g = st.ghost
        k = self.key(e, g['cur.name'], g['cur.id'])
        q = z3.Const('q', pre.dom.sort().domain())
        P, EX = g['P.state'], g['EX']
        pa, wa = arrs(pre)
        ans = z3.And(g['state'] == GOT, g['cur.client'], g['inpend'])
        if not same(pre, v):
            e.oblige(st, z3.ForAll([q], z3.Implies(z3.Select(v.dom, q), z3.And([z3.Select(pre.dom, q)] + [
                z3.Select(y, q) == z3.Select(x, q) for x, y in zip(arrs(pre), arrs(v))]))), "[C05] the worker registers and alters no request")
            e.oblige(st, z3.ForAll([q], z3.Implies(z3.And(z3.Select(pre.dom, q), z3.Not(z3.Select(v.dom, q))),
                     z3.Or(z3.And(ans, q == k), z3.Select(EX, z3.Select(wa, q)), z3.Select(wa, q) == 0, z3.And(g['lost'], z3.Select(P, z3.Select(pa, q)) == 2)))),
                     "[C05] only answered and abandoned requests are dropped")
        e.oblige(st, z3.Implies(ans, z3.Not(z3.Select(v.dom, k))), "[C05] an answered request is no longer pending")
        pk = z3.Select(pa, k)
        e.oblige(st, z3.Implies(ans, z3.Or(z3.Select(wa, k) == 0, z3.Select(EX, z3.Select(wa, k)), z3.And(z3.Select(P, pk) == 1, z3.Select(g['P.val'], pk) == g['cur.data']))),
                 "[C05] a response resolves its request unless that was abandoned")
        e.oblige(st, self.pend_inv(e, st, v), "[C05] every pending promise is unresolved")
        g['state'] = z3.If(ans, z3.IntVal(IDLE), g['state'])
        g['cleaned'] = z3.Or(g['cleaned'], z3.ForAll([q], z3.Implies(z3.And(z3.Select(v.dom, q)), z3.Not(z3.Select(g['EX0'], z3.Select(wa, q))))))

    # ---- pool of loop invariants
    def loop_invs(self, e, fr, head0, st, mod):
        res = []
        g0 = head0.ghost
        me = self
        G = lambda k: (lambda s: s.ghost[k])
        if ('g', 'sel.ok') in mod:
            # the worker's round
            for i, (n, f) in enumerate(me.idle(e, head0, True)):
                res.append((n, (lambda s, i=i: me.idle(e, s, True)[i][1]), True))
            for i, (n, f) in enumerate(me.sane(e, head0)):
                res.append((n, (lambda s, i=i: me.sane(e, s)[i][1]), False))
            return res
        ghosts = [k[1] for k in mod if k[0] == 'g']
        for k in ghosts:
            if k in g0 and isz(g0[k]) and (z3.is_int_value(g0[k]) or z3.is_true(g0[k]) or z3.is_false(g0[k])):
                res.append(("%s unchanged" % k, lambda s, k=k: s.ghost[k] == g0[k], False))
        if ('g', 'state') in mod:
            for i, (n, f) in enumerate(me.idle(e, head0, False)):
                res.append((n, (lambda s, i=i: me.idle(e, s, False)[i][1]), False))
            res.append(("state idle or cast", lambda s: z3.Or(s.ghost['state'] == IDLE, s.ghost['state'] == CAST), False))
        for i, (n, f) in enumerate(me.sane(e, head0)):
            res.append((n, (lambda s, i=i: me.sane(e, s)[i][1]), False))
        c0 = me.conns(e, head0)
        q = z3.Const('q', IntS)
        its = []
        for key in mod:
            if key[0] != 'c':
                continue
            c = head0.mem[key[1]].cells.get(key[2])
            v = c[1] if c is not None else mod[key][1]
            if isinstance(v, MapIt) and v.done is not None:
                its.append((key, v))
        for key, v0 in its:
            IT = lambda s, key=key: s.mem[key[1]].cells[key[2]][1]
            ks = v0.done.sort().domain()
            k = z3.Const('k', ks)
            cont0 = e.get_abs(head0, v0.cont) if not isinstance(v0.cont, str) else None
            res.append(("iterator at an unvisited element", lambda s, IT=IT, e=e: z3.Implies(z3.Not(tob(IT(s).end)), z3.And(z3.Select(me.contof(e, s, IT(s)).dom, toz(IT(s).k)), z3.Not(z3.Select(IT(s).done, toz(IT(s).k))))), False))
            res.append(("everything visited at the end", lambda s, IT=IT, k=k, e=e: z3.Implies(tob(IT(s).end), z3.ForAll([k], z3.Implies(z3.Select(me.contof(e, s, IT(s)).dom, k), z3.Select(IT(s).done, k)))), False))
            res.append(("visited elements were there", lambda s, IT=IT, k=k, d=cont0.dom: z3.ForAll([k], z3.Implies(z3.Select(IT(s).done, k), z3.Select(d, k))), False))
            if ks == IntS:
                sv = lambda s: me.fdv(e, s, 'server_fd_')
                cl = lambda s: me.fdv(e, s, 'client_fd_')
                D = lambda s, IT=IT: IT(s).done
                if ('g', 'served') in mod:
                    res.append(("served visited", lambda s, D=D: z3.ForAll([q], z3.Implies(z3.And(z3.Select(D(s), q), z3.Select(s.ghost['ready'], q), q != sv(s), q != cl(s)), z3.Select(s.ghost['served'], q))), False))
                    res.append(("served only visited", lambda s, D=D: z3.ForAll([q], z3.Implies(z3.Not(z3.Select(D(s), q)), z3.Select(s.ghost['served'], q) == z3.Select(g0['served'], q))), False))
                    res.append(("served kept", lambda s: z3.ForAll([q], z3.Implies(z3.Select(g0['served'], q), z3.Select(s.ghost['served'], q))), False))
                res.append(("connections are the open ones", lambda s: s.ghost['open'] == me.conns(e, s).dom, False))
                res.append(("unvisited stay", lambda s, D=D: z3.ForAll([q], z3.Implies(z3.Not(z3.Select(D(s), q)), z3.Select(me.conns(e, s).dom, q) == z3.Select(c0.dom, q))), False))
                res.append(("connections only go", lambda s: z3.ForAll([q], z3.Implies(z3.Select(me.conns(e, s).dom, q), z3.Select(c0.dom, q))), False))
                if ('g', 'sent') in mod:
                    res.append(("sent to visited", lambda s, D=D: z3.ForAll([q], z3.Implies(z3.And(z3.Select(D(s), q), q != sv(s)), z3.Select(s.ghost['sent'], q))), False))
                    res.append(("sent to visited only", lambda s, D=D: z3.ForAll([q], z3.Implies(z3.Not(z3.Select(D(s), q)), z3.Not(z3.Select(s.ghost['sent'], q)))), False))
                for key2 in mod:
                    if key2[0] == 'c':
                        c2 = head0.mem[key2[1]].cells.get(key2[2])
                        if c2 is not None and isinstance(c2[1], Tok) and c2[1].kind == 'fd_set':
                            F = lambda s, key2=key2: s.mem[key2[1]].cells[key2[2]][1].parts[0]
                            res.append(("set holds the visited", lambda s, D=D, F=F: z3.ForAll([q], z3.Implies(z3.Select(D(s), q), z3.Select(F(s), q))), False))
                            res.append(("set holds only the visited", lambda s, D=D, F=F: z3.ForAll([q], z3.Implies(z3.Select(F(s), q), z3.Select(D(s), q))), False))
                        if c2 is not None and (isinstance(c2[1], int) and not isinstance(c2[1], bool) or isz(c2[1]) and c2[1].sort() == IntS) and c2[0] == 4:
                            X = lambda s, key2=key2: toz(s.mem[key2[1]].cells[key2[2]][1])
                            res.append(("maximum of the visited", lambda s, D=D, X=X: z3.ForAll([q], z3.Implies(z3.Select(D(s), q), q <= X(s))), False))
                            res.append(("above the visited", lambda s, D=D, X=X: z3.ForAll([q], z3.Implies(z3.Select(D(s), q), q < X(s))), False))
                            res.append(("descriptor range", lambda s, X=X: z3.And(X(s) >= 0, X(s) < 2 ** 31), False))
            elif ks == g0['pending requests.pre'].dom.sort().domain():
                D = lambda s, IT=IT: IT(s).done
                pre = g0['pending requests.pre']
                wa = arrs(pre)[1]
                V = lambda s: me.pend.value(e, s)
                W = lambda s, k=k: z3.Select(wa, k)
                res.append(("only pending ones stay", lambda s, k=k: z3.ForAll([k], z3.Implies(z3.Select(V(s).dom, k), z3.Select(pre.dom, k))), False))
                res.append(("unvisited requests stay", lambda s, k=k, D=D: z3.ForAll([k], z3.Implies(z3.Not(z3.Select(D(s), k)), z3.Select(V(s).dom, k) == z3.Select(pre.dom, k))), False))
                res.append(("abandoned visited ones are gone", lambda s, k=k, D=D: z3.ForAll([k], z3.Implies(z3.And(z3.Select(D(s), k), z3.Select(V(s).dom, k)), z3.Not(z3.Select(s.ghost['EX0'], z3.Select(wa, k))))), False))
                res.append(("only abandoned ones are gone", lambda s, k=k: z3.ForAll([k], z3.Implies(z3.And(z3.Select(pre.dom, k), z3.Not(z3.Select(V(s).dom, k))), z3.Or(z3.Select(s.ghost['EX'], z3.Select(wa, k)), z3.Select(wa, k) == 0))), False))
                res.append(("expired stays expired", lambda s: z3.ForAll([q], z3.Implies(z3.Select(g0['EX'], q), z3.Select(s.ghost['EX'], q))), False))
        return res

    def contof(self, e, s, it):
        with quiet(e):
            return e.get_abs(s, it.cont)

    def post(self, e, o, env):
        st = o.st
        e.oblige(st, not st.held, "no mutex is left locked")
        self.settle(e, st)
        e.oblige(st, z3.Not(self.running(e, st)), "[C18] the worker only ends when told to or when the connection is lost")
        e.oblige(st, z3.Or(self.fdv(e, st, 'server_fd_') == 0, st.ghost['told']), "[C06] a server keeps serving until it is destroyed")


def t1(tier):
    P = prog()
    return verify_all(P, [S() for S in (Request, Pending)], tier)


def t2(tier):
    P = prog()
    return verify_all(P, [Work()], tier)


def c05(tier):
    from specs import lifecycle
    P = prog()
    return for_prop(verify_all(P, [S() for S in (Request, Pending, lifecycle.Ctor, Work)], tier), 'C05')


def c06(tier):
    P = prog()
    return for_prop(verify_all(P, [S() for S in (Work, base.GetEndpoint)], tier), 'C06')


def c07(tier):
    P = prog()
    return for_prop(verify_all(P, [S() for S in base.QUEUE + (Work,)], tier), 'C07')


def c08(tier):
    P = prog()
    return for_prop(verify_all(P, [S() for S in base.BASE + (Work,)], tier), 'C08')
