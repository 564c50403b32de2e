"""C20: TransportLoopback."""
import z3
from scv.spec import *
from scv import guard
from scv.guard import Guarded, quiet, eqv
from scv.lib_std import PTR, mkey, pstate, thread_body, excs
from specs.map_tracker import arrs
from specs.transport import TR, EP, fld, registry, queue, PAIR, appended
import specs.transport as base

TL = 'scalopus::TransportLoopback'
SRCS = ['scalopus_transport/src/transport_loopback.cpp', 'scalopus_interface/src/transport.cpp', 'scalopus_interface/src/endpoint.cpp', 'scalopus_interface/src/transport_factory.cpp', 'scalopus_interface/src/destination.cpp']
DATA = 'std::vector<unsigned char>'
FUT = 'std::future<%s>' % DATA
REQ = 'std::tuple<std::string, %s, std::promise<%s>, std::weak_ptr<%s>>' % (DATA, DATA, FUT)
REQS = tuple('std::%s<%s>' % (c, REQ) for c in ('vector', 'deque', 'list'))
WEAK = 'std::weak_ptr<%s>' % TR
CLIENTS = tuple('std::%s<%s>' % (c, WEAK) for c in ('vector', 'deque', 'list'))
ArrB = z3.ArraySort(IntS, BoolS)
NONE = z3.K(IntS, z3.BoolVal(False))
FACT = 'scalopus::TransportLoopbackFactory'
DEST = 'scalopus::DestinationLoopback'
# index of a pending request, from the identity of its promise and of its future
ix_p = z3.Function('ix_promise', IntS, IntS)
ix_w = z3.Function('ix_future', IntS, IntS)
ix_c = z3.Function('ix_client', IntS, IntS)
IDLE, OWED, CAST = range(3)
ASSUMPTIONS = [
    "endpoint handlers throw nothing but standard exceptions, and nothing at all when given the reply to unsolicited data; they do not make requests on the transport that is calling them, and do not touch the transport's private state; a reply to unsolicited data is not answered again (documented: it ends the process)",
    "Transport::getEndpoint, haveBroadcast, popBroadcast obey their contracts (proved under C07, C08)",
    "weak_ptr: once expired stays expired; each request has a promise and a future of its own, each client is registered once; std::promise, std::mutex and the containers behave as the standard specifies",
    "a client's server_ is set before the client can be used and never changes; a worker does not hold the last reference to its own transport",
    "std::thread's constructor does not throw",
]


def leaf(v, i):
    return [x for _, _, aa in v.leaves for x in aa][i]


class LB(FnSpec):
    nparams = 0

    def install(self, e):
        base.ep_contracts(e)
        e.on_function = lambda c, st, v: None

    def this(self, e, st):
        this = e.new_obj(st, 'transport', 'param', TL)
        e.take_addr(this)
        self.me = this
        st.ghost.setdefault('transport_of', z3.Const('transport_of0', z3.ArraySort(IntS, IntS)))
        o, t = fld(e, TL, 'ongoing_requests_', lambda t: t in REQS)
        m, _ = fld(e, TL, 'request_lock_')
        self.pend = Guarded('pending requests', e.shift(this, o), t, e.shift(this, m), change=self.pend_change)
        if t not in REQS:
            raise Unsupported("representation of the pending requests changed")
        o, t = fld(e, TL, 'clients_', lambda t: t in CLIENTS)
        if t not in CLIENTS:
            raise Unsupported("representation of clients_ changed")
        m, _ = fld(e, TL, 'clients_lock_')
        self.clients = Guarded('clients', e.shift(this, o), t, e.shift(this, m), change=self.clients_change)
        self.reg = registry(e, this, TL)
        self.queue = queue(e, this, TL)
        pstate(e, st)
        o, t = fld(e, TL, 'logger_')
        x = z3.Const('logger', IntS)
        st.fact(x > 0)
        e.put_abs(st, e.shift(this, o), Tok('function', [x]), t)
        # order of the fields of a request in memory
        lv = [x[1] for x in e.T.leaves(REQ)]
        self.IN, self.ID, self.IP, self.IW = (next(i for i, x in enumerate(lv) if x.startswith(y)) for y in ('std::string', 'std::vector', 'std::promise', 'std::weak_ptr'))
        for g in (self.pend, self.clients, self.reg, self.queue):
            g.fresh(e, st)
        guard.install(e, [self.pend, self.clients, self.reg, self.queue])
        l = e.on_lock

        def lock(e, st, p, mode):
            if mkey(p) == mkey(self.pend.mutex):
                self.locking(e, st)
            l(e, st, p, mode)
            if mkey(p) == mkey(self.pend.mutex):
                self.pend_facts(e, st, st.ghost['pending requests.pre'])
            if mkey(p) == mkey(self.clients.mutex):
                self.clients_locked(e, st)
        e.on_lock = lock
        return this

    def locking(self, e, st):
        pass

    def clients_locked(self, e, st):
        pass

    def col(self, v, i):
        return leaf(v, i)

    def pend_inv(self, st, v):
        """every pending promise is unresolved, and no two requests share one"""
        j, k = z3.Const('j', IntS), z3.Const('k', IntS)
        P = st.ghost['P.state']
        p = leaf(v, self.IP)
        n = toz(v.n)
        R = lambda j: z3.And(j >= 0, j < n)
        return z3.And(n >= 0, z3.ForAll([j], z3.Implies(R(j), z3.And(z3.Select(p, j) > 0, z3.Select(P, z3.Select(p, j)) == 0)), patterns=[z3.Select(p, j)]))

    def pend_facts(self, e, st, v):
        j = z3.Const('j', IntS)
        n = toz(v.n)
        p, w = leaf(v, self.IP), leaf(v, self.IW)
        st.fact(self.pend_inv(st, v))
        st.fact(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n), z3.And(ix_p(z3.Select(p, j)) == j, z3.Select(w, j) != 0, ix_w(z3.Select(w, j)) == j)), patterns=[z3.Select(p, j)]))
        st.fact(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n), ix_w(z3.Select(w, j)) == j), patterns=[z3.Select(w, j)]))

    def pend_change(self, e, st, pre, v):
        e.oblige(st, eqv(pre, v), "pending requests are not changed")

    def clients_change(self, e, st, pre, v):
        e.oblige(st, eqv(pre, v), "the clients are not changed")

    def exc_ok(self, e, o, env):
        return False


class Request(LB):
    qual, nparams, title = TL + '::request', 2, 'TransportLoopback::request'

    def setup(self, e, st):
        this = self.this(e, st)
        out = e.new_obj(st, 'result', 'param')
        nm = e.new_obj(st, 'name', 'param')
        d = e.new_obj(st, 'data', 'param')
        self.name = e.blob_of(st, e.get_abs(st, nm, 'std::string'))
        self.data = e.blob_of(st, e.get_abs(st, d, DATA))
        self.out = out
        st.ghost['adds'] = st.ghost['prom'] = st.ghost['weak'] = z3.IntVal(0)

        def value(c, st, i, *b):
            e.oblige(st, False, "the future is resolved by the worker only")
        e.on_set_value = e.on_set_exception = value
        return [out, this, nm, d], {}

    def pend_facts(self, e, st, v):
        # the promise made here is not among those pending
        LB.pend_facts(self, e, st, v)
        j = z3.Const('j', IntS)
        p = leaf(v, self.IP)
        st.fact(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < toz(v.n)), z3.Select(p, j) < z3.Const('P.next0', IntS)), patterns=[z3.Select(p, j)]))

    def locking(self, e, st):
        # others resolve other promises only
        nx = z3.Const('P.next0', IntS)
        P0, P1 = st.ghost['P.state'], fresh('P.state', z3.ArraySort(IntS, IntS))
        x = z3.Const('x', IntS)
        st.fact(z3.ForAll([x], z3.Implies(x >= nx, z3.Select(P1, x) == z3.Select(P0, x)), patterns=[z3.Select(P1, x)]))
        st.ghost['P.state'] = P1

    def pend_change(self, e, st, pre, v):
        if same(pre, v):
            return
        g = st.ghost
        ts = [None] * 4
        n = toz(pre.n)
        p, w = z3.Select(leaf(v, self.IP), n), z3.Select(leaf(v, self.IW), n)
        ts[self.IN], ts[self.ID], ts[self.IP], ts[self.IW] = self.name, self.data, p, w
        e.oblige(st, z3.Select(leaf(v, self.IN), n) == self.name, "the request carries the endpoint name given")
        e.oblige(st, z3.Select(leaf(v, self.ID), n) == self.data, "the request carries the payload given")
        e.oblige(st, appended(pre, v, ts), "exactly one request is appended, others are left alone")
        e.oblige(st, self.pend_inv(st, v), "every pending promise is unresolved")
        g['adds'], g['prom'], g['weak'] = g['adds'] + 1, p, w

    def post(self, e, o, env):
        st = o.st
        g = st.ghost
        e.oblige(st, not st.held, "no mutex is left locked")
        e.oblige(st, g['adds'] == 1, "the request is registered once")
        v = e.get_abs(st, self.out, 'std::shared_ptr<%s>' % FUT)
        e.oblige(st, z3.Not(tob(e.is_null(v.p))), "a future is returned")
        try:
            f = e.get_abs(st, v.p, FUT)
        except NullDeref:
            return
        e.oblige(st, z3.And(toz(f.parts[0]) == g['prom'], toz(e.ptr_to_int(v.p)) == g['weak']), "the future returned belongs to the registered promise")


class Pending(LB):
    qual, nparams, title = TL + '::pendingRequests', 0, 'TransportLoopback::pendingRequests'

    def setup(self, e, st):
        return [self.this(e, st)], {}

    def post(self, e, o, env):
        pre = o.st.ghost.get('pending requests.pre')
        e.oblige(o.st, not o.st.held, "no mutex is left locked")
        e.oblige(o.st, pre is not None, "looks at the pending requests")
        if pre is not None:
            e.oblige(o.st, toz(o.ret) == toz(pre.n), "reports the number of pending requests")


class AddClient(LB):
    qual, nparams, title = TL + '::addClient', 1, 'TransportLoopback::addClient'

    def setup(self, e, st):
        this = self.this(e, st)
        c = e.new_obj(st, 'client', 'param')
        v = e.get_abs(st, c, WEAK)
        self.c = toz(e.ptr_to_int(v.p))
        st.ghost['adds'] = z3.IntVal(0)
        return [this, c], {}

    def clients_change(self, e, st, pre, v):
        if same(pre, v):
            return
        e.oblige(st, appended(pre, v, [self.c]), "exactly this client is added, others are left alone")
        st.ghost['adds'] = st.ghost['adds'] + 1

    def post(self, e, o, env):
        e.oblige(o.st, not o.st.held, "no mutex is left locked")
        e.oblige(o.st, o.st.ghost['adds'] == 1, "the client is added once")


class Work(LB):
    qual, nparams, title = TL + '::work', 0, 'TransportLoopback::work'

    def setup(self, e, st):
        e.int_candidates = False
        this = self.this(e, st)
        o, t = fld(e, TL, 'server_')
        with quiet(e):
            v = e.get_abs(st, e.shift(this, o), t)
        self.srv = toz(e.ptr_to_int(v.p))
        self.srv_off = o
        g = st.ghost
        g['state'] = z3.IntVal(IDLE)
        # the requests taken: none yet
        g['pending requests.pre'] = v = e.fresh_leaf(st, self.pend.t, 'none')
        st.fact(toz(v.n) == 0)
        g['pending requests.mod'] = g['clients.mod'] = z3.BoolVal(False)
        g['taken'] = z3.BoolVal(False)          # the requests seen have been removed from the table
        g['H'] = g['F'] = g['X'] = NONE         # handled; resolved (value or error); seen abandoned (by index)
        g['refused'] = NONE                     # handler declined to answer
        g['cur'] = z3.IntVal(-1)                # the request last seen alive
        g['resp'] = z3.Const('resp0', Blob)
        g['look.tr'] = g['look.ep'] = z3.IntVal(0)
        g['look.name'] = z3.Const('look.name0', Blob)
        g['have'] = g['seen'] = z3.BoolVal(False)
        g['cast.name'], g['cast.data'] = z3.Const('cast.name0', Blob), z3.Const('cast.data0', Blob)
        g['clients.pre'] = v = e.fresh_leaf(st, self.clients.t, 'noclients')
        g['told'] = g['gone'] = g['lacks'] = NONE       # clients (by identity) told of the broadcast; gone; without the endpoint
        self.contracts(e)
        e.invariants.append(self.loop_invs)
        self.rounds = set()
        g['polls'] = g['looks'] = z3.IntVal(0)

        def back(e, fr, lname, hs, st):
            if lname in self.rounds:
                e.oblige(st, st.ghost['polls'] > hs.ghost['polls'], "queued broadcasts are looked for in every round")
                e.oblige(st, st.ghost['looks'] > hs.ghost['looks'], "pending requests are looked for in every round")
        e.backedge_hooks.append(back)
        return [this], {}

    # ---- obligations when the worker turns to something else
    def settled(self, g, j):
        return z3.Or(z3.Select(g['H'], j), z3.Select(g['F'], j), z3.Select(g['X'], j))

    def idle(self, st, full=False):
        g = st.ghost
        j = z3.Const('j', IntS)
        v, c = g['pending requests.pre'], g['clients.pre']
        cl = leaf(c, 0)
        w = z3.Select(cl, j)
        r = [
            ("a response produced by a handler reaches its future", g['state'] != OWED),
            ("every request taken is handled or answered with an error", z3.Implies(g['taken'], z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < toz(v.n)), self.settled(g, j)), patterns=[z3.Select(leaf(v, self.IP), j)]))),
            ("a broadcast goes to the clients there are", z3.Implies(g['state'] == CAST, g['seen'])),
            ("a broadcast is delivered to every live client that has the endpoint", z3.Implies(g['state'] == CAST, z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < toz(c.n)), z3.Or(z3.Select(g['told'], w), z3.Select(g['gone'], w), z3.Select(g['lacks'], w))), patterns=[w]))),
        ]
        if full:
            r += [("a queued broadcast that was seen is taken", z3.Not(g['have'])), ("pending requests seen are taken", z3.Or(g['taken'], toz(v.n) == 0))]
        return r

    def settle(self, e, st, full=False):
        for n, f in self.idle(st, full):
            e.oblige(st, f, n)

    def locking(self, e, st):
        self.settle(e, st)
        g = st.ghost
        g['state'] = z3.If(g['state'] == CAST, z3.IntVal(IDLE), g['state'])
        g['P.state'] = fresh('P.state', z3.ArraySort(IntS, IntS))
        g['H'] = g['F'] = g['X'] = g['refused'] = NONE
        g['cur'] = z3.IntVal(-1)
        g['taken'] = z3.BoolVal(False)
        g['looks'] = g['looks'] + 1

    def pend_change(self, e, st, pre, v):
        g = st.ghost
        j = z3.Const('j', IntS)
        p = leaf(v, self.IP)
        e.oblige(st, z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < toz(v.n)), z3.Not(z3.Or(z3.Select(g['H'], ix_p(z3.Select(p, j))), z3.Select(g['F'], ix_p(z3.Select(p, j))))))), "a request that was handled is no longer pending")
        if same(pre, v):
            e.oblige(st, True, "")
            return
        if not e.entails_fast(st, toz(v.n) == 0):
            raise Unsupported("requests are removed one by one")
        g['taken'] = z3.BoolVal(True)

    def clients_locked(self, e, st):
        g = st.ghost
        g['seen'] = z3.BoolVal(True)
        # each client is registered once
        c = g['clients.pre']
        j = z3.Const('j', IntS)
        st.fact(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < toz(c.n)), ix_c(z3.Select(leaf(c, 0), j)) == j), patterns=[z3.Select(leaf(c, 0), j)]))

    def contracts(self, e):
        me = self

        def wlock(c, st, p, v, el):
            g = st.ghost
            w = toz(e.ptr_to_int(v.p))
            r = fresh('expired', BoolS)
            req = el.startswith('std::future')
            if req:
                j = ix_w(w)
                st.fact(z3.Implies(z3.Or(w == 0, z3.Select(g['X'], j)), r))
                g['X'] = z3.Store(g['X'], j, r)
                g['cur'] = z3.If(r, z3.IntVal(-1), j)
            else:
                st.fact(z3.Implies(z3.Or(w == 0, z3.Select(g['gone'], w)), r))
                g['gone'] = z3.Store(g['gone'], w, r)
            if el is None or c.sret is None:
                return r
            res = []
            for s, b in e.split(st, r, True, False):
                e.put_abs(s, c.sret, Ref('shared_ptr', el, NULL if b else v.p), 'std::shared_ptr<%s>' % el)
                res.append(Outcome(s, None))
            return res
        e.on_weak_lock = wlock

        def wexp(c, st, p, v):
            g = st.ghost
            w = toz(e.ptr_to_int(v.p))
            r = fresh('expired', BoolS)
            t = c.sig.qual
            req = 'future' in v.t
            if req:
                j = ix_w(w)
                st.fact(z3.Implies(z3.Or(w == 0, z3.Select(g['X'], j)), r))
                g['X'] = z3.Store(g['X'], j, r)
                g['cur'] = z3.If(r, z3.IntVal(-1), j)
            else:
                st.fact(z3.Implies(z3.Or(w == 0, z3.Select(g['gone'], w)), r))
                g['gone'] = z3.Store(g['gone'], w, r)
            return r
        e.on_weak_expired = wexp

        def getep(c, st):
            g = st.ghost
            x = fresh('ep')
            st.fact(x >= 0)
            p, nm = c.args[0], c.args[1]
            e.oblige(st, z3.Not(tob(e.is_null(p))), "the transport asked for an endpoint exists")
            g['look.tr'], g['look.ep'] = toz(e.ptr_to_int(p)), x
            g['look.name'] = e.blob_of(st, e.get_abs(st, nm, 'std::string'))
            g['lacks'] = z3.If(z3.And(g['state'] == CAST, g['look.name'] == g['cast.name'], x == 0), z3.Store(g['lacks'], g['look.tr'], True), g['lacks'])
            e.put_abs(st, c.sret, e.unpack_leaf(st, 'std::shared_ptr<%s>' % EP, [x]), 'std::shared_ptr<%s>' % EP)
            return None
        if find_fn(e.P, base.GetEndpoint()):
            e.contracts[TR + '::getEndpoint'] = getep

        def response(e, st, rp, refused, then):
            no = st.copy()
            refused(no)
            e.put_abs(no, rp, e.fresh_leaf(no, DATA, 'noresp'), DATA)
            bad = no.copy()
            v = e.fresh_leaf(st, DATA, 'resp')
            e.put_abs(st, rp, v, DATA)
            st.ghost['resp'] = e.blob_of(st, v)
            then(st)
            return [Outcome(no, False), Outcome(st, True), excs(bad, 'std::exception')]

        def handle(c, st):
            g = st.ghost
            p, tr, dp, rp = c.args
            x = toz(e.ptr_to_int(p))
            outs = []
            for s, cast in e.split(st, g['state'] == CAST, True, False):
                if cast:
                    # an answer to a broadcast is handed to the server's endpoint; by assumption that does not answer again
                    e.oblige(s, z3.And(s.ghost['look.ep'] == x, s.ghost['look.tr'] == toz(e.ptr_to_int(me.me)), s.ghost['look.name'] == s.ghost['cast.name']), "an answer to a broadcast goes to the server's endpoint of that name")
                    e.oblige(s, e.blob_of(s, e.get_abs(s, dp, DATA)) == s.ghost['resp'], "an answer to a broadcast is passed on as it is")
                    e.put_abs(s, rp, e.fresh_leaf(s, DATA, 'noresp'), DATA)
                    outs.append(Outcome(s, False))
                    continue
                g = s.ghost
                v = g['pending requests.pre']
                k = g['cur']
                e.oblige(s, g['state'] == IDLE, "a handler is called once for each request")
                e.oblige(s, z3.And(k >= 0, k < toz(v.n)), "only requests whose future is held are handled")
                e.oblige(s, z3.Not(z3.Select(g['H'], k)), "a request is handled once")
                e.oblige(s, z3.And(g['look.tr'] == me.srv, g['look.ep'] == x, g['look.name'] == z3.Select(leaf(v, me.IN), k)), "the handler is that of the server's endpoint the request names")
                e.oblige(s, e.blob_of(s, e.get_abs(s, dp, DATA)) == z3.Select(leaf(v, me.ID), k), "the handler gets exactly the payload given")
                e.oblige(s, toz(e.ptr_to_int(tr)) == me.srv, "the handler gets the server's transport")
                e.oblige(s, toz(e.get_abs(s, rp, DATA).n) == 0, "the handler starts with an empty response")
                g['H'] = z3.Store(g['H'], k, True)

                def ref(s):
                    s.ghost['refused'] = z3.Store(s.ghost['refused'], k, True)

                def then(s):
                    s.ghost['state'] = z3.IntVal(OWED)
                outs += response(e, s, rp, ref, then)
            return outs
        e.vcontracts[EP + '::handle'] = handle

        def unsol(c, st):
            g = st.ghost
            p, tr, dp, rp = c.args
            x, t = toz(e.ptr_to_int(p)), toz(e.ptr_to_int(tr))
            e.oblige(st, g['state'] == CAST, "unsolicited data is delivered for a broadcast only")
            e.oblige(st, z3.And(g['look.tr'] == t, g['look.ep'] == x, g['look.name'] == g['cast.name']), "a broadcast goes to the client's endpoint it names")
            e.oblige(st, e.blob_of(st, e.get_abs(st, dp, DATA)) == g['cast.data'], "a broadcast delivers exactly the payload given")
            e.oblige(st, z3.Not(z3.Select(g['told'], t)), "a broadcast is delivered once to each client")
            e.oblige(st, toz(e.get_abs(st, rp, DATA).n) == 0, "the handler starts with an empty response")
            g['told'] = z3.Store(g['told'], t, True)
            return response(e, st, rp, lambda s: None, lambda s: None)
        e.vcontracts[EP + '::unsolicited'] = unsol

        def value(c, st, i, b):
            g = st.ghost
            v = g['pending requests.pre']
            k = ix_p(i)
            e.oblige(st, z3.And(g['state'] == OWED, k == g['cur'], z3.Select(leaf(v, me.IP), k) == i), "a future gets the response to its own request")
            e.oblige(st, b == g['resp'], "a future gets exactly the handler's response")
            g['state'] = z3.IntVal(IDLE)
            g['F'] = z3.Store(g['F'], k, True)
        e.on_set_value = value

        def exc(c, st, i):
            g = st.ghost
            v = g['pending requests.pre']
            k = ix_p(i)
            missing = z3.Or(me.srv == 0, z3.And(g['look.tr'] == me.srv, g['look.ep'] == 0, g['look.name'] == z3.Select(leaf(v, me.IN), k)))
            e.oblige(st, z3.And(k >= 0, k < toz(v.n), z3.Or(z3.And(missing, z3.Not(z3.Select(g['H'], k))), z3.Select(g['refused'], k))), "an error is only reported for an endpoint the server does not have")
            g['F'] = z3.Store(g['F'], k, True)
        e.on_set_exception = exc

        def have(c, st):
            me.settle(e, st)
            b = fresh('have', BoolS)
            st.ghost['state'] = z3.IntVal(IDLE)
            st.ghost['have'] = b
            st.ghost['polls'] = st.ghost['polls'] + 1
            return b

        def pop(c, st):
            g = st.ghost
            me.settle(e, st)
            e.oblige(st, g['have'], "a broadcast is only taken from the queue when there is one")
            n, d = fresh('bc_name', Blob), fresh('bc_data', Blob)
            g['cast.name'], g['cast.data'] = n, d
            g['state'] = z3.IntVal(CAST)
            g['told'] = g['gone'] = g['lacks'] = NONE
            g['seen'] = g['have'] = z3.BoolVal(False)
            lv = e.T.leaves(PAIR)
            e.write_val(st, c.sret, [(lv[0][0], lv[0][1], e.unpack_leaf(st, lv[0][1], [n])), (lv[1][0], lv[1][1], e.unpack_leaf(st, lv[1][1], [d]))])
            return None
        if find_fn(e.P, base.HaveBroadcast()) and find_fn(e.P, base.PopBroadcast()):
            e.contracts[TR + '::haveBroadcast'] = have
            e.contracts[TR + '::popBroadcast'] = pop
        else:
            raise Unsupported("the broadcast queue's interface changed")

    def loop_invs(self, e, fr, head0, st, mod):
        res = []
        g0 = head0.ghost
        j = z3.Const('j', IntS)
        if ('g', 'polls') in mod:
            res.append(("counts", lambda s: z3.And(s.ghost['polls'] >= g0['polls'], s.ghost['looks'] >= g0['looks']), False))
        if ('g', 'polls') in mod and ('g', 'looks') in mod:
            # the worker's round
            self.rounds.add(e.cur_loop)
            for i, (n, f) in enumerate(self.idle(head0, True)):
                res.append((n, lambda s, i=i: self.idle(s, True)[i][1], True))
            return res
        if ('g', 'polls') in mod:
            for i, (n, f) in enumerate(self.idle(head0)):
                res.append((n, lambda s, i=i: self.idle(s)[i][1], False))
            return res
        v, c = g0['pending requests.pre'], g0['clients.pre']
        cl = leaf(c, 0)
        for key in mod:
            if key[0] != 'c':
                continue

            def X(s, key=key):
                x = s.mem[key[1]].cells[key[2]][1]
                if isinstance(x, Ptr):
                    x = e.to_eptr(s, x)
                if isinstance(x, EPtr):
                    x = x.idx
                if isinstance(x, bool) or not (isinstance(x, int) or (z3.is_expr(x) and x.sort() == IntS)):
                    return None
                return toz(x)

            def F(f, X=X):
                return lambda s: None if X(s) is None else f(s, X(s))
            for k, y in (('H', v), ('told', c)):
                if ('g', k) in mod:
                    res.append(("index range", F(lambda s, x, y=y: z3.And(x >= 0, x <= toz(y.n))), False))
            if ('g', 'H') in mod:
                res.append(("requests before are settled", F(lambda s, x: z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < x, j < toz(v.n)), self.settled(s.ghost, j)))), False))
                res.append(("requests after are not touched", F(lambda s, x: z3.ForAll([j], z3.Implies(z3.And(j >= x, j < toz(v.n)), z3.And(z3.Not(z3.Select(s.ghost['H'], j)), z3.Not(z3.Select(s.ghost['F'], j)))))), False))
            if ('g', 'told') in mod:
                res.append(("clients before are told", F(lambda s, x: z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < x, j < toz(c.n)), z3.Or([z3.Select(s.ghost[y], z3.Select(cl, j)) for y in ('told', 'gone', 'lacks')])))), False))
                res.append(("clients after are not", F(lambda s, x: z3.ForAll([j], z3.Implies(z3.And(j >= x, j < toz(c.n)), z3.Not(z3.Select(s.ghost['told'], z3.Select(cl, j)))))), False))
        if ('g', 'H') in mod:
            p = leaf(v, self.IP)
            res.append(("promises unresolved", lambda s: z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < toz(v.n), z3.Not(z3.Select(s.ghost['F'], j))), z3.Select(s.ghost['P.state'], z3.Select(p, j)) == 0), patterns=[z3.Select(p, j)]), False))
            res.append(("no response owed", lambda s: s.ghost['state'] == IDLE, False))
            res.append(("promises stay with their requests", lambda s: self.same_pend(e, s, v), False))
        if ('g', 'told') in mod:
            res.append(("broadcast at hand", lambda s: s.ghost['state'] == CAST, False))
        return res

    def same_pend(self, e, s, v):
        j = z3.Const('j', IntS)
        with quiet(e):
            w = self.pend.value(e, s)
        if same(w, v):
            return None
        a, b = leaf(w, self.IP), leaf(v, self.IP)
        return z3.And(toz(w.n) == toz(v.n), z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < toz(v.n)), z3.And([z3.Select(leaf(w, i), j) == z3.Select(leaf(v, i), j) for i in range(4)]))))

    def post(self, e, o, env):
        e.oblige(o.st, not o.st.held, "no mutex is left locked")
        self.settle(e, o.st)


class Life(LB):
    """constructors and destructor: exactly one worker, running on this transport, gone with it"""

    def obj(self, e, st):
        this = self.this(e, st)
        g = st.ghost
        g['works'] = z3.IntVal(0)
        g['alive'] = z3.BoolVal(False)
        me = self

        def work(c, st):
            e.oblige(st, toz(e.ptr_to_int(c.args[0])) == toz(e.ptr_to_int(me.me)), "the worker runs on this transport")
            st.ghost['works'] = st.ghost['works'] + 1
            return None
        if not find_fn(e.P, Work()):
            raise Unsupported("worker not found")
        e.contracts[TL + '::work'] = work

        def start(c, st, x):
            g = st.ghost
            n0 = g['works']
            e.oblige(st, me.running(e, st), "the worker is told to run before it starts")
            for o in thread_body(c, st.copy()):
                e.oblige(o.st, o.st.ghost['works'] == n0 + 1, "the thread started runs the worker")
            g['works'] = n0 + 1
            g['alive'] = z3.BoolVal(True)
        e.on_thread_start = start

        def join(c, st, x):
            e.oblige(st, z3.Not(me.running(e, st)), "the worker is told to stop before it is waited for")
            st.ghost['alive'] = z3.BoolVal(False)
        e.on_join = join
        e.on_access = e.on_lock = e.on_unlock = None      # construction and destruction: nobody else has the object
        e.on_atomic = self.atomic
        return this

    def atomic(self, e, st, op, p, v, order, ty):
        return None

    def running(self, e, st):
        o, t = fld(e, TL, 'running_')
        with quiet(e):
            return tob(e.to_bool(e.load(st, e.shift(self.me, o), e.mkint(8))))

    def server(self, e, st):
        o, t = fld(e, TL, 'server_')
        with quiet(e):
            return toz(e.ptr_to_int(e.get_abs(st, e.shift(self.me, o), t).p))

    def handle(self, e, st):
        o, t = fld(e, TL, 'thread_')
        with quiet(e):
            return toz(e.get_abs(st, e.shift(self.me, o), 'std::thread').parts[0])


class Ctor(Life):
    qual, nparams, title = TL + '::TransportLoopback', 0, 'TransportLoopback::TransportLoopback()'

    def setup(self, e, st):
        self.want = z3.IntVal(0)
        return [self.obj(e, st)], {}

    def post(self, e, o, env):
        st = o.st
        e.oblige(st, st.ghost['works'] == 1, "exactly one worker is started")
        e.oblige(st, self.handle(e, st) != 0, "the transport owns its worker")
        e.oblige(st, self.server(e, st) == self.want, "a client is connected to the server given, a server to none")
        with quiet(e):
            e.oblige(st, toz(self.pend.value(e, st).n) == 0, "a new transport has no pending requests")
            e.oblige(st, toz(self.clients.value(e, st).n) == 0, "a new transport has no clients")


class ClientCtor(Ctor):
    nparams, title = 1, 'TransportLoopback::TransportLoopback(Ptr)'

    def pred(self, s):
        return 'shared_ptr' in s.params[0]

    def setup(self, e, st):
        this = self.obj(e, st)
        p = e.new_obj(st, 'server', 'param')
        v = e.get_abs(st, p, 'std::shared_ptr<%s>' % TL)
        self.want = toz(e.ptr_to_int(v.p))
        return [this, p], {}


class Dtor(Life):
    qual, nparams, title = TL + '::~TransportLoopback', 0, 'TransportLoopback::~TransportLoopback'

    def setup(self, e, st):
        this = self.obj(e, st)
        o, t = fld(e, TL, 'thread_')
        h = z3.Const('worker', IntS)
        st.fact(h > 0)
        e.put_abs(st, e.shift(this, o), Tok('thread', [h]), 'std::thread')
        st.ghost['alive'] = z3.BoolVal(True)
        return [this], {}

    def post(self, e, o, env):
        e.oblige(o.st, z3.Not(o.st.ghost['alive']), "the worker has ended when the transport is gone")


class IsConnected(Life):
    qual, nparams, title = TL + '::isConnected', 0, 'TransportLoopback::isConnected'

    def setup(self, e, st):
        return [self.obj(e, st)], {}

    def post(self, e, o, env):
        e.oblige(o.st, tob(e.to_bool(o.ret)) == (self.server(e, o.st) != 0), "connected means it has a server")


class FConnect(FnSpec):
    qual, nparams, title = FACT + '::connect', 1, 'TransportLoopbackFactory::connect'

    def install(self, e):
        me = self

        def ctor(c, st):
            g = st.ghost
            g['made'] = g['made'] + 1
            g['obj'] = toz(e.ptr_to_int(c.args[0]))
            if len(c.sig.params) == 1:
                g['srv'] = toz(e.ptr_to_int(e.get_abs(st, c.args[1], 'std::shared_ptr<%s>' % TL).p))
            return None

        def add(c, st):
            g = st.ghost
            e.oblige(st, toz(e.ptr_to_int(c.args[0])) == me.srv(st), "the client is registered with the server it is connected to")
            e.oblige(st, z3.And(g['made'] == 1, toz(e.ptr_to_int(e.get_abs(st, c.args[1], WEAK).p)) == g['obj']), "the client registered is the one made")
            g['added'] = g['added'] + 1
            return None
        for S in (ClientCtor(), AddClient()):
            if not find_fn(e.P, S):
                raise Unsupported("not found: " + S.title)
        e.contracts[TL + '::TransportLoopback'] = ctor
        e.contracts[TL + '::addClient'] = add

        def wlock(c, st, p, v, el):
            w = toz(e.ptr_to_int(v.p))
            r = fresh('expired', BoolS)
            st.fact(z3.Implies(w == 0, r))
            res = []
            for s, b in e.split(st, r, True, False):
                s.ghost['dest'] = z3.IntVal(0) if b else w
                e.put_abs(s, c.sret, Ref('shared_ptr', el, NULL if b else v.p), 'std::shared_ptr<%s>' % el)
                res.append(Outcome(s, None))
            return res
        e.on_weak_lock = wlock

    def srv(self, st):
        return st.ghost['dest']

    def setup(self, e, st):
        this = e.new_obj(st, 'factory', 'param', FACT)
        out = e.new_obj(st, 'result', 'param')
        d = e.new_obj(st, 'destination', 'param')
        v = e.get_abs(st, d, 'std::shared_ptr<scalopus::Destination>')
        x = toz(e.ptr_to_int(v.p))
        import re
        self.isa = z3.And(x != 0, z3.Function('isa_' + re.sub(r'\W', '_', DEST), IntS, BoolS)(x))
        g = st.ghost
        g['made'] = g['added'] = g['obj'] = g['srv'] = g['dest'] = z3.IntVal(0)
        self.out = out
        return [out, this, d], {}

    def post(self, e, o, env):
        st = o.st
        g = st.ghost
        r = toz(e.ptr_to_int(e.get_abs(st, self.out, 'std::shared_ptr<%s>' % TR).p))
        live = z3.And(self.isa, g['dest'] != 0)
        e.oblige(st, z3.Implies(z3.Not(live), z3.And(r == 0, g['made'] == 0, g['added'] == 0)), "a destination that is gone or of another kind yields no transport")
        e.oblige(st, z3.Implies(live, z3.And(g['made'] == 1, r == g['obj'], r != 0)), "connecting yields the client made")
        e.oblige(st, z3.Implies(live, g['srv'] == g['dest']), "the client is connected to the server the destination names")
        e.oblige(st, z3.Implies(live, g['added'] == 1), "the client is registered with its server once")


def prog():
    return Program(SRCS)


ALL = (Request, Pending, AddClient, Work, Ctor, ClientCtor, Dtor, IsConnected, FConnect)


def t1(tier):
    return verify_all(prog(), [Request(), Pending(), AddClient()], tier)


def t2(tier):
    return verify_all(prog(), [Work()], tier)


def t3(tier):
    return verify_all(prog(), [S() for S in (Ctor, ClientCtor, Dtor, IsConnected, FConnect)], tier)


def c20(tier):
    return verify_all(prog(), [S() for S in ALL + base.QUEUE + (base.GetEndpoint,)], tier)
