"""C17: EndpointManagerPoll."""
import z3
from scv.spec import *
from scv import guard
from scv import lib_json as LJ
from scv.guard import Guarded, quiet, eqv
from scv.lib_std import PTR, mkey, excs
from specs.map_tracker import arrs, with_key
from specs.transport import TR, EP, fld
import specs.transport as base

MG = 'scalopus::EndpointManagerPoll'
EI = 'scalopus::EndpointIntrospect'
DEST = 'scalopus::Destination'
SRCS = ['scalopus_general/src/endpoint_manager_poll.cpp', 'scalopus_general/src/endpoint_introspect.cpp', 'scalopus_interface/src/transport.cpp', 'scalopus_interface/src/endpoint.cpp', 'scalopus_interface/src/transport_factory.cpp', 'scalopus_interface/src/destination.cpp']
DATA = 'std::vector<unsigned char>'
NAMES = 'std::vector<std::string>'
FUT = 'std::future<%s>' % DATA
SPT, SPE, SPD = ('std::shared_ptr<%s>' % x for x in (TR, EP, DEST))
EMAP = 'std::map<std::string, %s>' % SPE
NONE = z3.K(IntS, z3.BoolVal(False))
NONEB = z3.K(Blob, z3.BoolVal(False))
ZEROB = z3.K(Blob, z3.IntVal(0))
fname = z3.Function('factory_name', IntS, Blob)      # the name a factory function is registered under
hash_of = z3.Function('hash_of', IntS, IntS)         # the destination (hash code) a transport was made for
code = z3.Function('hash_code', IntS, IntS)          # hash code of a destination
ASSUMPTIONS = [
    "transport factories, endpoint factories and the logger do not throw and do not call back into the manager; a transport made by connect() is a new object",
    "a destination's hash code does not change and identifies it; discover() returns no null destinations",
    "the manager is destroyed by the thread that started the polling (is_polling_ is a plain bool)",
]


class MS(FnSpec):
    """the state of the manager"""

    def this(self, e, st, held=False):
        this = e.new_obj(st, 'manager', 'param', MG)
        e.take_addr(this)
        self.me = this
        m, _ = fld(e, MG, 'mutex_')
        mu = e.shift(this, m)
        gs = []
        for n, name in (('transports_', 'transports'), ('transport_endpoints_', 'transport endpoints'), ('endpoint_factories_', 'factories')):
            o, t = fld(e, MG, n, lambda t: 'map<' in t)
            g = Guarded(name, e.shift(this, o), t, mu, change=self.change)
            gs.append(g)
        self.T, self.E, self.F = gs
        if norm(self.T.t) not in ('std::map<unsigned long, %s>' % SPT, 'std::unordered_map<unsigned long, %s>' % SPT) or norm(self.E.t) != 'std::map<%s, %s>' % (SPT, EMAP):
            raise Unsupported("representation of the manager changed: %s %s" % (self.T.t, self.E.t))
        for g in gs:
            g.fresh(e, st)
        guard.install(e, gs)
        o, t = fld(e, MG, 'logger_')
        with quiet(e):
            self.logger = toz(e.get_abs(st, e.shift(this, o), t).parts[0])
            o, t = fld(e, MG, 'factory_')
            self.fac = toz(e.ptr_to_int(e.get_abs(st, e.shift(this, o), t).p))
        st.fact(self.fac != 0)
        l = e.on_lock
        st.ghost['sections'] = z3.IntVal(0)

        def lock(e, st, p, mode):
            l(e, st, p, mode)
            if mkey(p) == mkey(mu):
                self.locked(e, st)
        e.on_lock = lock
        if held:
            st.held[mkey(mu)] = 'ex'
            self.locked(e, st)
        g = st.ghost
        g['asked'] = z3.IntVal(0)                 # connections asked for
        g['conn.t'] = z3.IntVal(0)                # the transport made (0: refused)
        g['checked'] = g['dead'] = NONE           # transports asked whether they are connected; found dead
        return this

    def locked(self, e, st):
        g = st.ghost
        g['sections'] = g['sections'] + 1
        g['T0'], g['E0'], g['F0'] = (x.value(e, st) for x in (self.T, self.E, self.F))
        st.fact(self.J(g['T0'], g['E0']))
        k = z3.Const('k', Blob)
        f = g['F0']
        fv = arrs(f)[0]
        st.fact(z3.ForAll([k], z3.Implies(z3.Select(f.dom, k), z3.And(fname(z3.Select(fv, k)) == k, z3.Select(fv, k) != 0, z3.Select(fv, k) != self.logger)), patterns=[z3.Select(fv, k)]))

    def J(self, T, E):
        h, t = z3.Const('h', IntS), z3.Const('t', IntS)
        tv = arrs(T)[0]
        return z3.And(
            z3.ForAll([h], z3.Implies(z3.Select(T.dom, h), z3.And(z3.Select(tv, h) != 0, z3.Select(E.dom, z3.Select(tv, h)), hash_of(z3.Select(tv, h)) == h)), patterns=[z3.Select(tv, h)]),
            z3.ForAll([t], z3.Implies(z3.Select(E.dom, t), z3.And(z3.Select(T.dom, hash_of(t)), z3.Select(tv, hash_of(t)) == t)), patterns=[z3.Select(E.dom, t)]))

    def now(self, e, st):
        return self.T.value(e, st), self.E.value(e, st), self.F.value(e, st)

    def change(self, e, st, pre, v):
        pass

    def install(self, e):
        base.ep_contracts(e)
        del e.vcontracts[EP + "::setTransport"]
        me = self
        g_ = lambda st: st.ghost

        def hash_code(c, st):
            e.oblige(st, z3.Not(tob(e.is_null(c.args[0]))), "the destination exists")
            r = code(toz(e.ptr_to_int(c.args[0])))
            st.fact(z3.And(r >= 0, r < 2 ** 64))
            return r
        e.vcontracts[DEST + '::hash_code'] = hash_code

        def text(c, st):
            e.put_abs(st, c.sret, e.fresh_leaf(st, 'std::string', 'text'), 'std::string')
        e.vcontracts[DEST + '::operator std::string'] = text

        def connected(c, st):
            g = st.ghost
            t = toz(e.ptr_to_int(c.args[0]))
            e.oblige(st, t != 0, "the transport asked exists")
            r = fresh('connected', BoolS)
            st.fact(z3.Implies(z3.Select(g['dead'], t), z3.Not(r)))
            g['checked'] = z3.Store(g['checked'], t, True)
            g['dead'] = z3.Store(g['dead'], t, z3.Not(r))
            return r
        e.vcontracts[TR + '::isConnected'] = connected

        def mk(c, st):
            g = st.ghost
            e.oblige(st, toz(e.ptr_to_int(c.args[0])) == me.fac, "connections are made by the manager's factory")
            d = toz(e.ptr_to_int(e.get_abs(st, c.args[1], SPD).p))
            x = self.connecting(e, st, d)
            e.put_abs(st, c.sret, e.unpack_leaf(st, SPT, [x]), SPT)
        e.vcontracts['scalopus::TransportFactory::connect'] = mk

        def function(c, st, v):
            x = toz(v.parts[0])
            r = []
            for s, b in e.split(st, x == self.logger, True, False):
                r += [Outcome(s, None)] if b else self.factory_called(e, c, s, x)
            return r
        e.on_function = function

    def connecting(self, e, st, d):
        raise Unsupported("a connection is made here")

    def factory_called(self, e, c, st, x):
        raise Unsupported("an endpoint factory is called here")


class Connect(MS):
    qual, nparams, title = MG + '::connect', 1, 'EndpointManagerPoll::connect'

    def setup(self, e, st):
        this = self.this(e, st, True)
        d = e.new_obj(st, 'destination', 'param')
        v = e.get_abs(st, d, SPD)
        self.d = toz(e.ptr_to_int(v.p))
        st.fact(self.d != 0)
        self.h = code(self.d)
        g = st.ghost
        g['called'] = NONEB                    # endpoint factories called, by name; and the endpoint each made
        g['made'] = ZEROB
        g['added'] = NONE                      # endpoints registered with the transport
        g['offered'] = None
        g['intro'] = z3.IntVal(0)              # times the remote was asked what it offers
        g['threw'] = z3.BoolVal(False)
        self.names = e.fresh_leaf(st, NAMES, 'offered')
        st.fact(z3.And(toz(self.names.n) >= 0, toz(self.names.n) < 2 ** 58))
        self.nm = arrs(self.names)[0]
        self.pos = z3.Function('pos', Blob, IntS)
        j = z3.Const('j', IntS)
        n = toz(self.names.n)
        st.fact(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n), self.off(z3.Select(self.nm, j))), patterns=[z3.Select(self.nm, j)]))
        return [this, d], {}

    def off(self, n):
        p = self.pos(n)
        return z3.And(p >= 0, p < toz(self.names.n), z3.Select(self.nm, p) == n)

    def connecting(self, e, st, d):
        g = st.ghost
        e.oblige(st, d == self.d, "the connection is made to the destination given")
        e.oblige(st, z3.Not(z3.Select(g['T0'].dom, self.h)), "no second connection is made to a destination that has one")
        e.oblige(st, g['asked'] == 0, "one connection is made")
        g['asked'] = g['asked'] + 1
        x = fresh('transport')
        st.fact(z3.And(x >= 0, z3.Not(z3.Select(g['E0'].dom, x)), z3.Not(z3.Select(g['dead'], x)), z3.Not(z3.Select(g['checked'], x)), z3.Implies(x != 0, hash_of(x) == self.h)))
        g['conn.t'] = x
        return x

    def factory_called(self, e, c, st, x):
        g = st.ghost
        n = fname(x)
        f = g['F0']
        e.oblige(st, z3.And(z3.Select(f.dom, n), z3.Select(arrs(f)[0], n) == x), "a registered endpoint factory is called")
        e.oblige(st, z3.And(g['intro'] >= 1, z3.Not(g['threw']), self.off(n)), "only endpoints the remote offers are created")
        t = toz(e.ptr_to_int(e.get_abs(st, c.args[1], SPT).p))
        e.oblige(st, t == g['conn.t'], "an endpoint is created on the new transport")
        y = fresh('endpoint')
        st.fact(z3.And(y >= 0, z3.Implies(y != 0, z3.Not(z3.Select(g['added'], y)))))
        g['called'] = z3.Store(g['called'], n, True)
        g['made'] = z3.If(y != 0, z3.Store(g['made'], n, y), g['made'])
        e.put_abs(st, c.sret, e.unpack_leaf(st, SPE, [y]), SPE)
        return [Outcome(st, None)]

    def install(self, e):
        MS.install(self, e)

        def supported(c, st):
            g = st.ghost
            o, t = fld(e, EI, 'transport_', lambda t: t.endswith('*') or 'shared_ptr' in t)
            with quiet(e):
                p = e.shift(c.args[0], o) if not isinstance(c.args[0], EPtr) else EPtr(c.args[0].cont, c.args[0].idx, c.args[0].off + o)
                x = toz(e.ptr_to_int(e.load(st, p, PTR)))
            e.oblige(st, z3.And(x == g['conn.t'], x != 0), "the new transport is asked what it offers")
            g['intro'] = g['intro'] + 1
            bad = st.copy()
            bad.ghost['threw'] = z3.BoolVal(True)
            e.put_abs(st, c.sret, self.names, NAMES)
            r = [Outcome(st, None)]
            for t in ('scalopus::communication_error', 'nlohmann::detail::exception', 'std::future_error'):
                r.append(excs(bad.copy(), t))
            return r
        if find_fn(e.P, Supported()):
            e.contracts[EI + '::supported'] = supported

        def add(c, st):
            g = st.ghost
            e.oblige(st, toz(e.ptr_to_int(c.args[0])) == g['conn.t'], "endpoints are registered with the new transport")
            y = toz(e.ptr_to_int(e.get_abs(st, c.args[1], SPE).p))
            e.oblige(st, y != 0, "an endpoint that was created is registered")
            g['added'] = z3.Store(g['added'], y, True)
        e.contracts[TR + '::addEndpoint'] = add
        e.invariants.append(self.loop_invs)

    def mapping(self, st, E, t):
        """the endpoints kept for transport t are exactly those made"""
        g = st.ghost
        M = self.inner(st, E, t)
        n = z3.Const('n', Blob)
        d, v = M.dom, arrs(M)[0]
        return z3.ForAll([n], z3.And(z3.Select(d, n) == (z3.Select(g['made'], n) != 0), z3.Implies(z3.Select(d, n), z3.And(z3.Select(v, n) == z3.Select(g['made'], n), z3.Select(g['added'], z3.Select(v, n))))), patterns=[z3.Select(d, n)])

    def inner(self, st, E, t):
        return self.e.unpack_leaf(st, EMAP, [z3.Select(a, t) for a in arrs(E)])

    def loop_invs(self, e, fr, head0, st, mod):
        self.e = e
        res = []
        g0 = head0.ghost
        j, n, t = z3.Const('j', IntS), z3.Const('n', Blob), z3.Const('t', IntS)
        if ('g', 'called') not in mod:
            return res
        ct = g0['conn.t']
        E1 = self.E.value(e, head0)
        res.append(("endpoints kept are those made", lambda s: self.mapping(s, self.E.value(e, s), ct), False))
        def others(s):
            E = self.E.value(e, s)
            return z3.And([z3.ForAll([t], z3.And(z3.Select(E.dom, t) == z3.Select(E1.dom, t)))] + [z3.ForAll([t], z3.Implies(t != ct, z3.Select(a, t) == z3.Select(b, t))) for a, b in zip(arrs(E), arrs(E1))])
        res.append(("other transports keep their endpoints", others, False))
        res.append(("factories called", lambda s: z3.ForAll([n], z3.Implies(z3.Select(s.ghost['called'], n), z3.And(z3.Select(s.ghost['F0'].dom, n), self.off(n))), patterns=[z3.Select(s.ghost['called'], n)]), False))
        res.append(("made by factories called", lambda s: z3.ForAll([n], z3.Implies(z3.Select(s.ghost['made'], n) != 0, z3.Select(s.ghost['called'], n))), False))
        for key in mod:
            if key[0] != 'c':
                continue

            def X(s, key=key):
                x = s.mem[key[1]].cells[key[2]][1]
                if isinstance(x, Ptr):
                    x = e.to_eptr(s, x)
                if isinstance(x, EPtr):
                    x = x.idx
                if isinstance(x, bool) or not (isinstance(x, int) or (z3.is_expr(x) and x.sort() == IntS)):
                    return None
                return toz(x)

            def F(f, X=X):
                return lambda s: None if X(s) is None else f(s, X(s))
            res.append(("index range", F(lambda s, x: z3.And(x >= 0, x <= toz(self.names.n))), False))
            res.append(("names before are done", F(lambda s, x: z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < x, z3.Select(s.ghost['F0'].dom, z3.Select(self.nm, j))), z3.Select(s.ghost['called'], z3.Select(self.nm, j))))), False))
        return res

    def post(self, e, o, env):
        self.e = e
        st = o.st
        g = st.ghost
        T, E, F = self.now(e, st)
        T0, E0, F0 = g['T0'], g['E0'], g['F0']
        h, t = self.h, g['conn.t']
        known = z3.Select(T0.dom, h)
        e.oblige(st, len(st.held) == 1, "the caller's mutex stays locked, no other is left locked")
        e.oblige(st, z3.Implies(z3.Not(known), g['asked'] == 1), "a destination without a connection is connected to")
        e.oblige(st, z3.Implies(t != 0, z3.Select(g['checked'], t)), "a new transport is asked whether it is connected")
        ok = z3.And(z3.Not(known), t != 0, z3.Not(z3.Select(g['dead'], t)))
        same_ = lambda: z3.And(eqv(T0, T), eqv(E0, E))
        q, n = z3.Const('q', IntS), z3.Const('n', Blob)
        tv, tv0 = arrs(T)[0], arrs(T0)[0]
        e.oblige(st, z3.Implies(known, same_()), "a destination that has a connection is left alone")
        e.oblige(st, z3.Implies(z3.And(z3.Not(known), z3.Not(ok)), same_()), "a connection that fails changes nothing")
        dropped = z3.And(g['threw'], same_())
        for n_, f in [
            ("the transport is kept for its destination, others stay", with_key(T0, T, h, [t])),
            ("the transport has an entry, others keep theirs", z3.And([z3.ForAll([q], z3.Select(E.dom, q) == z3.Or(q == t, z3.Select(E0.dom, q)))] + [z3.ForAll([q], z3.Implies(z3.Select(E0.dom, q), z3.Select(a, q) == z3.Select(b, q))) for a, b in zip(arrs(E), arrs(E0))])),
            ("the endpoints kept are exactly those made, and registered with the transport", self.mapping(st, E, t)),
            ("the remote is asked what it offers", g['intro'] >= 1),
        ]:
            e.oblige(st, z3.Implies(z3.And(ok, z3.Not(dropped)), f), n_)
        e.oblige(st, z3.Implies(z3.And(ok, z3.Not(g['threw'])), z3.ForAll([n], z3.Implies(z3.And(self.off(n), z3.Select(F0.dom, n)), z3.Select(g['called'], n)))), "every offered endpoint with a factory is created")
        e.oblige(st, self.J(T, E), "one entry each per transport")
        e.oblige(st, eqv(F0, F), "the factories are not changed")


class Manage(MS):
    qual, nparams, title = MG + '::manage', 0, 'EndpointManagerPoll::manage'

    def setup(self, e, st):
        this = self.this(e, st)
        g = st.ghost
        g['last'] = z3.IntVal(0)          # the transport last found dead
        g['failed'] = NONE                # destinations (hash codes) that could not be connected
        g['new'] = NONE                   # transports made here
        self.E0 = None
        self.dests = e.fresh_leaf(st, 'std::vector<%s>' % SPD, 'discovered')
        self.dv = arrs(self.dests)[0]
        n = toz(self.dests.n)
        j = z3.Const('j', IntS)
        st.fact(z3.And(n >= 0, n < 2 ** 58, z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n), z3.Select(self.dv, j) > 0), patterns=[z3.Select(self.dv, j)])))
        g['found'] = z3.IntVal(0)
        return [this], {}

    def locked(self, e, st):
        MS.locked(self, e, st)
        g = st.ghost
        g['NE'] = list(arrs(g['E0']))
        for i, a in enumerate(g['NE']):
            g['NE%d' % i] = a             # the endpoints each transport came with
        self.nE = len(g['NE'])
        del g['NE']

    def change(self, e, st, pre, v):
        pass

    def install(self, e):
        MS.install(self, e)
        inner = e.vcontracts[TR + '::isConnected']

        def connected(c, st):
            g = st.ghost
            t = toz(e.ptr_to_int(c.args[0]))
            r = inner(c, st)
            g['last'] = z3.If(r, g['last'], t)
            return r
        e.vcontracts[TR + '::isConnected'] = connected

        def discover(c, st):
            e.oblige(st, toz(e.ptr_to_int(c.args[0])) == self.fac, "the manager's factory discovers")
            st.ghost['found'] = st.ghost['found'] + 1
            e.put_abs(st, c.sret, self.dests, 'std::vector<%s>' % SPD)
        e.vcontracts['scalopus::TransportFactory::discover'] = discover

        def connect(c, st):
            """EndpointManagerPoll::connect by its contract"""
            g = st.ghost
            e.oblige(st, toz(e.ptr_to_int(c.args[0])) == toz(e.ptr_to_int(self.me)), "connections are made on this manager")
            e.oblige(st, len(st.held) == 1, "the mutex is held")
            d = toz(e.ptr_to_int(e.get_abs(st, c.args[1], SPD).p))
            T, E, F = self.now(e, st)
            e.oblige(st, d != 0, "the destination exists")
            e.oblige(st, self.J(T, E), "one entry each per transport, when connecting")
            h = code(d)
            outs = []
            for s, b in e.split(st, z3.Select(T.dom, h), True, False):
                if b:
                    outs.append(Outcome(s, None))
                    continue
                no = s.copy()
                no.ghost['failed'] = z3.Store(no.ghost['failed'], h, True)
                outs.append(Outcome(no, None))
                g = s.ghost
                t = fresh('transport')
                T1, E1 = e.fresh_leaf(s, self.T.t, 'T'), e.fresh_leaf(s, self.E.t, 'E')
                e.map_facts(s, T1)
                e.map_facts(s, E1)
                q = z3.Const('q', IntS)
                s.fact(z3.And(t > 0, z3.Not(z3.Select(g['E0'].dom, t)), z3.Not(z3.Select(E.dom, t)), z3.Not(z3.Select(g['new'], t)), z3.Not(z3.Select(g['dead'], t)), hash_of(t) == h))
                s.fact(with_key(T, T1, h, [t]))
                s.fact(z3.And([z3.ForAll([q], z3.Select(E1.dom, q) == z3.Or(q == t, z3.Select(E.dom, q)))] + [z3.ForAll([q], z3.Implies(q != t, z3.Select(a, q) == z3.Select(b, q))) for a, b in zip(arrs(E1), arrs(E))]))
                s.fact(self.J(T1, E1))
                with quiet(e):
                    e.put_abs(s, self.T.ptr, T1, self.T.t)
                    e.put_abs(s, self.E.ptr, E1, self.E.t)
                g['new'] = z3.Store(g['new'], t, True)
                for i, a in enumerate(arrs(E1)):
                    g['NE%d' % i] = z3.Store(g['NE%d' % i], t, z3.Select(a, t))
                outs.append(Outcome(s, None))
            return outs
        if find_fn(e.P, Connect()):
            e.contracts[MG + '::connect'] = connect
        e.invariants.append(self.loop_invs)

    def claims(self, e, st):
        """what holds at any time of the pass"""
        g = st.ghost
        T, E, F = self.now(e, st)
        T0, E0 = g['T0'], g['E0']
        h, t = z3.Const('h', IntS), z3.Const('t', IntS)
        tv, tv0 = arrs(T)[0], arrs(T0)[0]
        ev = arrs(E)
        S = z3.Select
        return [
            ("a transport found dead is dropped", z3.ForAll([h], z3.Implies(S(T.dom, h), z3.Not(S(g['dead'], S(tv, h)))), patterns=[S(tv, h)])),
            ("others are kept", z3.ForAll([h], z3.Implies(z3.And(S(T0.dom, h), z3.Not(S(g['dead'], S(tv0, h)))), z3.And(S(T.dom, h), S(tv, h) == S(tv0, h))), patterns=[S(tv0, h)])),
            ("a transport found dead is dropped with its endpoints", z3.ForAll([t], z3.Implies(S(E.dom, t), z3.And(z3.Not(S(g['dead'], t)), z3.Or(S(E0.dom, t), S(g['new'], t)))), patterns=[S(E.dom, t)])),
            ("others keep their endpoints", z3.ForAll([t], z3.Implies(z3.Or(z3.And(S(E0.dom, t), z3.Not(S(g['dead'], t))), S(g['new'], t)), z3.And([S(E.dom, t)] + [S(a, t) == S(g['NE%d' % i], t) for i, a in enumerate(ev)])), patterns=[S(E.dom, t), S(E0.dom, t)])),
            ("others keep their endpoints", z3.ForAll([t], z3.Implies(S(E0.dom, t), z3.And([S(g['NE%d' % i], t) == S(a, t) for i, a in enumerate(arrs(E0))])), patterns=[S(E0.dom, t)])),
            ("one entry each per transport", self.J(T, E)),
        ]

    def dest_done(self, s, T, x):
        j = z3.Const('j', IntS)
        h = code(z3.Select(self.dv, j))
        return z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < x, j < toz(self.dests.n)), z3.Or(z3.Select(T.dom, h), z3.Select(s.ghost['failed'], h))), patterns=[z3.Select(self.dv, j)])

    def loop_invs(self, e, fr, head0, st, mod):
        res = []
        g0 = head0.ghost
        S = z3.Select
        h = z3.Const('h', IntS)
        if 'T0' not in g0:
            return res
        tab = ('g', 'checked') in mod or ('g', 'failed') in mod
        if tab:
            for i, (n, f) in enumerate(self.claims(e, head0)):
                res.append((n, lambda s, i=i: self.claims(e, s)[i][1], False))
        T0 = g0['T0']
        tv0 = arrs(T0)[0]
        for key in mod:
            if key[0] != 'c':
                continue
            c = head0.mem[key[1]].cells.get(key[2])
            v = c[1] if c is not None else mod[key][1]
            if isinstance(v, MapIt) and v.done is not None:
                IT = lambda s, key=key: s.mem[key[1]].cells[key[2]][1]

                def cont(s, IT=IT):
                    with quiet(e):
                        return e.get_abs(s, IT(s).cont)
                k = z3.Const('k', IntS)
                res.append(("iterator at an unvisited element", lambda s, IT=IT, cont=cont: z3.Implies(z3.Not(tob(IT(s).end)), z3.And(S(cont(s).dom, toz(IT(s).k)), z3.Not(S(IT(s).done, toz(IT(s).k))))), False))
                res.append(("everything visited at the end", lambda s, IT=IT, cont=cont: z3.Implies(tob(IT(s).end), z3.ForAll([k], z3.Implies(S(cont(s).dom, k), S(IT(s).done, k)))), False))
                if tab:
                    res.append(("transports visited are checked", lambda s, IT=IT: z3.ForAll([h], z3.Implies(z3.And(S(T0.dom, h), S(IT(s).done, h)), S(s.ghost['checked'], S(tv0, h))), patterns=[S(tv0, h)]), False))
                    res.append(("transports checked are visited", lambda s, IT=IT: z3.ForAll([h], z3.Implies(z3.And(S(T0.dom, h), S(s.ghost['checked'], S(tv0, h))), S(IT(s).done, h)), patterns=[S(tv0, h)]), False))
                    res.append(("dead ones are checked", lambda s, IT=IT: z3.ForAll([h], z3.Implies(S(s.ghost['dead'], h), S(s.ghost['checked'], h))), False))
                    res.append(("transports checked stay checked", lambda s: z3.ForAll([h], z3.Implies(z3.And(S(T0.dom, h), z3.Not(S(self.now(e, s)[0].dom, h))), S(s.ghost['checked'], S(tv0, h))), patterns=[S(tv0, h)]), False))
                else:
                    res.append(("not among the visited", lambda s, IT=IT: z3.Not(S(IT(s).done, s.ghost['last'])), False))

            def X(s, key=key):
                x = s.mem[key[1]].cells[key[2]][1]
                if isinstance(x, Ptr):
                    x = e.to_eptr(s, x)
                if isinstance(x, EPtr):
                    x = x.idx
                if isinstance(x, bool) or not (isinstance(x, int) or (z3.is_expr(x) and x.sort() == IntS)):
                    return None
                return toz(x)
            if ('g', 'failed') in mod:
                res.append(("index range", lambda s, X=X: None if X(s) is None else z3.And(X(s) >= 0, X(s) <= toz(self.dests.n)), False))
                res.append(("destinations before are done", lambda s, X=X: None if X(s) is None else self.dest_done(s, self.now(e, s)[0], X(s)), False))
        return res

    def post(self, e, o, env):
        st = o.st
        g = st.ghost
        e.oblige(st, not st.held, "no mutex is left locked")
        if not e.entails_fast(st, g['sections'] <= 1):
            raise Unsupported("the pass is split into several critical sections")
        e.oblige(st, g['sections'] >= 1, "the pass looks at the transports")
        if 'T0' not in g:
            return
        for n, f in self.claims(e, st):
            e.oblige(st, f, n)
        T, E, F = self.now(e, st)
        T0 = g['T0']
        h = z3.Const('h', IntS)
        S = z3.Select
        e.oblige(st, z3.ForAll([h], z3.Implies(S(T0.dom, h), S(g['checked'], S(arrs(T0)[0], h)))), "every transport is checked")
        e.oblige(st, g['found'] >= 1, "destinations are discovered")
        e.oblige(st, self.dest_done(st, T, toz(self.dests.n)), "every discovered destination has a transport or refused")
        e.oblige(st, eqv(g['F0'], F), "the factories are not changed")


def key(e, st):
    return LJ.key(e, st, b'endpoints')


class Supported(FnSpec):
    """what the remote offers"""
    qual, nparams, title = EI + '::supported', 0, 'EndpointIntrospect::supported'

    def install(self, e):
        e.fresh_process = True

    def setup(self, e, st):
        this = e.new_obj(st, 'endpoint', 'param', EI)
        self.out = e.new_obj(st, 'result', 'param')
        o, t = fld(e, EI, 'transport_', lambda t: t.endswith('*'))
        with quiet(e):
            self.tr = toz(e.ptr_to_int(e.load(st, e.shift(this, o), PTR)))
        fut = e.new_obj(st, 'future', 'heap')
        e.take_addr(fut)
        self.answer = z3.Const('answer', Blob)
        self.fails = z3.Const('request_fails', BoolS)
        st.ghost['asked'] = z3.IntVal(0)
        st.ghost['ready'] = z3.BoolVal(False)

        def request(c, st):
            g = st.ghost
            g['asked'] = g['asked'] + 1
            e.oblige(st, toz(e.ptr_to_int(c.args[0])) == self.tr, "the request goes over the endpoint's transport")
            e.oblige(st, e.blob_of(st, e.get_abs(st, c.args[1], 'std::string')) == LJ.key(e, st, b'introspect'), "the request goes to the introspection endpoint")
            with quiet(e):
                e.put_abs(st, fut, Tok('future', [z3.IntVal(1)]), FUT)
                e.put_abs(st, c.sret, Ref('shared_ptr', FUT, fut), 'std::shared_ptr<%s>' % FUT)
        e.vcontracts[TR + '::request'] = request

        def wait(c, st, i, r):
            st.ghost['ready'] = z3.Or(st.ghost['ready'], r == 0)
        e.on_wait = wait

        def future(c, st, i):
            return [(s, 'std::future_error' if b else self.answer) for s, b in e.split(st, self.fails, True, False)]
        e.on_future = future
        return [self.out, this], {}

    def wf(self, e, st):
        j = LJ.unbson(self.answer)
        s = LJ.at(e, st, j, b'endpoints')
        return z3.And(z3.Not(self.fails), LJ.isbson(self.answer), LJ.has(e, st, j, b'endpoints'), LJ.decode(e, st, NAMES, s)[0])

    def exc_ok(self, e, o, env):
        if o.exc.type == 'scalopus::communication_error':
            return self.tr == 0
        return z3.And(self.tr != 0, z3.Not(self.wf(e, o.st)))

    def post(self, e, o, env):
        st = o.st
        g = st.ghost
        e.oblige(st, g['asked'] == 1, "one request is made")
        v = e.get_abs(st, self.out, NAMES)
        w = e.unpack_leaf(st, NAMES, LJ.decode(e, st, NAMES, LJ.at(e, st, LJ.unbson(self.answer), b'endpoints'))[1])
        e.oblige(st, z3.Implies(g['ready'], eqv(v, w)), "the names returned are those in the answer")
        e.oblige(st, z3.Implies(z3.Not(g['ready']), toz(v.n) == 0), "without an answer nothing is offered")


class Handle(FnSpec):
    """the answer lists the server's endpoints"""
    qual, nparams, title = EI + '::handle', 3, 'EndpointIntrospect::handle'

    def install(self, e):
        e.fresh_process = True

        def endpoints(c, st):
            e.oblige(st, toz(e.ptr_to_int(c.args[0])) == self.tr, "the endpoints of the transport that is serving are listed")
            e.put_abs(st, c.sret, self.eps, EMAP)
        e.vcontracts[TR + '::endpoints'] = endpoints
        e.invariants.append(self.loop_invs)

    def setup(self, e, st):
        this = e.new_obj(st, 'endpoint', 'param', EI)
        tr = e.new_obj(st, 'transport', 'param')
        e.take_addr(tr)
        self.tr = toz(e.ptr_to_int(tr))
        rq = e.new_obj(st, 'request', 'param')
        rs = self.rs = e.new_obj(st, 'response', 'param')
        e.get_abs(st, rq, DATA)
        e.get_abs(st, rs, DATA)
        self.eps = e.fresh_leaf(st, EMAP, 'endpoints')
        e.map_facts(st, self.eps)
        st.fact(toz(self.eps.card) < 2 ** 58)
        self.o = lib_std.MapOrder(e, st, self.eps, 'endpoints')
        return [this, tr, rq, rs], {}

    def loop_invs(self, e, fr, head0, st, mod):
        res = []
        S = z3.Select
        k, j = z3.Const('k', Blob), z3.Const('j', IntS)
        o = self.o
        its, seqs, idx = [], [], []
        for key in mod:
            if key[0] != 'c':
                continue
            c = head0.mem[key[1]].cells.get(key[2])
            if c is None:
                continue
            v = c[1]
            if isinstance(v, MapIt) and v.done is not None:
                its.append(key)
            elif isinstance(v, Seq) and v.elem == 'std::string':
                seqs.append(key)
            else:
                idx.append(key)
        V = lambda key: (lambda s: s.mem[key[1]].cells[key[2]][1])
        n = toz(self.eps.card)
        for key in its:
            IT = V(key)
            at = lambda s, IT=IT: z3.If(tob(IT(s).end), n, o.pos(toz(IT(s).k)))
            res.append(("iterator at an element", lambda s, IT=IT: z3.Implies(z3.Not(tob(IT(s).end)), S(self.eps.dom, toz(IT(s).k))), False))
            res.append(("elements are visited in order", lambda s, IT=IT, at=at: z3.ForAll([k], z3.Implies(S(self.eps.dom, k), S(IT(s).done, k) == (o.pos(k) < at(s)))), False))
            for q in seqs:
                M = V(q)
                res.append(("names of those visited", lambda s, M=M, at=at: z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < at(s)), S(arrs(M(s))[0], j) == o.nth(j)), patterns=[S(arrs(M(s))[0], j)]), False))
                res.append(("one name for each", lambda s, M=M, at=at: toz(M(s).n) == at(s), False))
                res.append(("room for all", lambda s, M=M, at=at: toz(M(s).n) == n, False))
            for q in idx:
                def X(s, q=q):
                    x = V(q)(s)
                    if isinstance(x, Ptr):
                        x = e.to_eptr(s, x)
                    if isinstance(x, EPtr):
                        x = x.idx
                    if isinstance(x, bool) or not (isinstance(x, int) or (z3.is_expr(x) and x.sort() == IntS)):
                        return None
                    return toz(x)
                res.append(("index is the number visited", lambda s, X=X, at=at: None if X(s) is None else X(s) == at(s), False))
        return res

    def post(self, e, o, env):
        st = o.st
        e.oblige(st, tob(e.to_bool(o.ret)), "there is a reply")
        b = e.blob_of(st, e.get_abs(st, self.rs, DATA))
        j = LJ.unbson(b)
        s = LJ.at(e, st, j, b'endpoints')
        ok, ts = LJ.decode(e, st, NAMES, s)
        e.oblige(st, z3.And(LJ.isbson(b), LJ.has(e, st, j, b'endpoints'), ok), "the reply is well-formed")
        v = e.unpack_leaf(st, NAMES, ts)
        q, k = z3.Const('q', IntS), z3.Const('k', Blob)
        n = toz(v.n)
        S = z3.Select
        e.oblige(st, n == toz(self.eps.card), "the reply has one name for each endpoint")
        e.oblige(st, z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < n), z3.And(S(self.eps.dom, S(arrs(v)[0], q)), self.o.pos(S(arrs(v)[0], q)) == q))), "every name in the reply is that of an endpoint, each once")


class Endpoints(MS):
    qual, nparams, title = MG + '::endpoints', 0, 'EndpointManagerPoll::endpoints'

    def setup(self, e, st):
        this = self.this(e, st)
        self.out = e.new_obj(st, 'result', 'param')
        return [self.out, this], {}

    def change(self, e, st, pre, v):
        e.oblige(st, eqv(pre, v), "nothing is changed")

    def post(self, e, o, env):
        st = o.st
        e.oblige(st, not st.held, "no mutex is left locked")
        e.oblige(st, st.ghost['sections'] >= 1, "the table is read")
        if 'E0' in st.ghost:
            e.oblige(st, eqv(e.get_abs(st, self.out, self.E.t), st.ghost['E0']), "the endpoints of every transport are returned")


class AddFactory(MS):
    qual, nparams, title = MG + '::addEndpointFactory', 2, 'EndpointManagerPoll::addEndpointFactory'

    def setup(self, e, st):
        this = self.this(e, st)
        n = e.new_obj(st, 'name', 'param')
        f = e.new_obj(st, 'function', 'param')
        ft = [x for x in lib_std.targs(self.F.t)][1]
        self.name = e.blob_of(st, e.get_abs(st, n, 'std::string'))
        self.f = toz(e.get_abs(st, f, ft).parts[0])
        return [this, n, f], {}

    def pred(self, s):
        return 'std::function' in s.params[1]

    def change(self, e, st, pre, v):
        if v.vt == self.fvt(e):
            if same(pre, v):
                return
            e.oblige(st, with_key(pre, v, self.name, [self.f]), "exactly this factory is registered under its name")
            st.ghost['adds'] = st.ghost.get('adds', z3.IntVal(0)) + 1
        else:
            e.oblige(st, eqv(pre, v), "transports are not changed")

    def fvt(self, e):
        return lib_std.targs(self.F.t)[1]

    def post(self, e, o, env):
        st = o.st
        e.oblige(st, not st.held, "no mutex is left locked")
        e.oblige(st, st.ghost.get('adds', z3.IntVal(0)) == 1, "the factory is registered once")


def prog():
    return Program(SRCS)


def c17(tier):
    return verify_all(prog(), [Connect(), Manage(), Supported(), Handle(), Endpoints(), AddFactory()], tier)
