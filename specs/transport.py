"""C07 (queue), C08: the Transport base class."""
import z3
from scv.spec import *
from scv import guard
from scv.guard import Guarded, quiet, eqv, took_effect
from scv.lib_std import PTR
from specs.map_tracker import with_key, arrs, leafterms, MUTEX

SRCS = ['scalopus_interface/src/transport.cpp', 'scalopus_interface/src/endpoint.cpp']
TR = 'scalopus::Transport'
EP = 'scalopus::Endpoint'
PAIR = 'std::pair<std::string, std::vector<unsigned char>>'
ASSUMPTIONS = [
    "an endpoint reports the same name whenever asked (getName) and is not null when added",
    "only the worker thread takes broadcasts from the queue, and only after haveBroadcast()",
]
name_of = z3.Function('name_of', IntS, Blob)


def fld(e, cls, name, kinds=None):
    f = e.L.field(cls, name)
    if f is None and kinds is not None:
        c = [(o, t) for o, t, n in e.L.all_fields(cls) if kinds(norm(t))]
        if len(c) == 1:
            f = c[0]
    if f is None:
        raise Unsupported("%s::%s not found" % (cls, name))
    return f[0], norm(f[1])


def is_reg(t):
    return t == 'std::map<std::string, std::shared_ptr<scalopus::Endpoint>>' or t == 'std::unordered_map<std::string, std::shared_ptr<scalopus::Endpoint>>'


def is_queue(t):
    return t in ('std::vector<%s>' % PAIR, 'std::deque<%s>' % PAIR, 'std::list<%s>' % PAIR)


def no_null(v):
    k = z3.Const('k', v.dom.sort().domain())
    return z3.ForAll([k], z3.Implies(z3.Select(v.dom, k), z3.Select(arrs(v)[0], k) != 0), patterns=[z3.Select(v.dom, k)])


def registry(e, this, cls=TR, **kw):
    kw.setdefault('inv', no_null)
    o, t = fld(e, cls, 'endpoints_', is_reg)
    m, _ = fld(e, cls, 'endpoint_mutex_')
    return Guarded('endpoints', e.shift(this, o), t, e.shift(this, m), **kw)


def queue(e, this, cls=TR, **kw):
    o, t = fld(e, cls, 'broadcast_messages_', is_queue)
    m, _ = fld(e, cls, 'broadcast_message_mutex_')
    return Guarded('broadcast queue', e.shift(this, o), t, e.shift(this, m), **kw)


def ep_contracts(e):
    """assumed contract of Endpoint::getName; setTransport's effect is recorded"""
    def getname(c, st):
        p = c.args[0]
        v = e.unpack_leaf(st, 'std::string', [name_of(toz(e.ptr_to_int(p)))])
        e.put_abs(st, c.sret, v, 'std::string')
        return None

    def settr(c, st):
        k = toz(e.ptr_to_int(c.args[0]))
        v = toz(e.ptr_to_int(c.args[1]))
        a = st.ghost.get('transport_of', z3.Const('transport_of0', z3.ArraySort(IntS, IntS)))
        st.ghost['transport_of'] = z3.Store(a, k, v)
        return None
    e.vcontracts[EP + '::getName'] = getname
    e.vcontracts[EP + '::setTransport'] = settr


class TS(FnSpec):
    def install(self, e):
        ep_contracts(e)

    def this(self, e, st):
        this = e.new_obj(st, 'transport', 'param', TR)
        st.ghost.setdefault('transport_of', z3.Const('transport_of0', z3.ArraySort(IntS, IntS)))
        e.take_addr(this)
        self.r = registry(e, this, effect=getattr(self, 'reg_effect', None), effect_name=getattr(self, 'effect_name', None))
        self.q = queue(e, this, effect=getattr(self, 'q_effect', None), effect_name=getattr(self, 'effect_name', None), rely=getattr(self, 'q_rely', None))
        self.r.fresh(e, st)
        self.q.fresh(e, st)
        guard.install(e, [self.r, self.q])
        return this

    def unlocked(self, e, st):
        e.oblige(st, not st.held, "no mutex is left locked")


class AddEndpoint(TS):
    qual, nparams, title = TR + '::addEndpoint', 1, 'Transport::addEndpoint'
    effect_name = "adding registers exactly this endpoint under the name it reports"

    def setup(self, e, st):
        this = self.this(e, st)
        ep = e.new_obj(st, 'endpoint', 'param')
        t = 'std::shared_ptr<%s>' % EP
        v = e.get_abs(st, ep, t)
        self.ep = toz(e.ptr_to_int(v.p))
        st.fact(self.ep != 0)
        self.me = toz(e.ptr_to_int(this))
        return [this, ep], {}

    def reg_effect(self, e, st, pre, v):
        return with_key(pre, v, e.T.mkkey('std::string', [name_of(self.ep)]), [self.ep])

    def post(self, e, o, env):
        took_effect(e, o.st, self.r)
        e.oblige(o.st, z3.Select(o.st.ghost['transport_of'], self.ep) == self.me, "the endpoint refers to the transport it was added to")


class GetEndpoint(TS):
    qual, nparams, title = TR + '::getEndpoint', 1, 'Transport::getEndpoint'

    def setup(self, e, st):
        this = self.this(e, st)
        out = e.new_obj(st, 'result', 'param')
        nm = e.new_obj(st, 'name', 'param')
        e.get_abs(st, nm, 'std::string')
        self.k = e.key_at(st, 'std::string', nm)
        return [out, this, nm], dict(out=out)

    def post(self, e, o, env):
        st = o.st
        pre = st.ghost.get('endpoints.pre')
        e.oblige(st, pre is not None, "looks at the registry")
        self.unlocked(e, st)
        if pre is None:
            return
        v = e.get_abs(st, env['out'], 'std::shared_ptr<%s>' % EP)
        x = toz(e.ptr_to_int(v.p))
        e.oblige(st, z3.Implies(z3.Select(pre.dom, self.k), x == z3.Select(arrs(pre)[0], self.k)), "a registered name yields the endpoint registered under it")
        e.oblige(st, z3.Implies(z3.Not(z3.Select(pre.dom, self.k)), x == 0), "an unknown name yields nothing")


class Endpoints(TS):
    qual, nparams, title = TR + '::endpoints', 0, 'Transport::endpoints'

    def setup(self, e, st):
        this = self.this(e, st)
        out = e.new_obj(st, 'result', 'param')
        return [out, this], dict(out=out)

    def post(self, e, o, env):
        st = o.st
        pre = st.ghost.get('endpoints.pre')
        e.oblige(st, pre is not None, "looks at the registry")
        self.unlocked(e, st)
        if pre is not None:
            v = e.get_abs(st, env['out'], self.r.t)
            e.oblige(st, eqv(pre, v), "the copy returned is the registry's contents")


class SetTransport(FnSpec):
    """Endpoint::setTransport / getTransport"""
    qual, nparams, title = EP + '::setTransport', 1, 'Endpoint::setTransport'

    def pred(self, s):
        return s.params[0].endswith('*')

    def setup(self, e, st):
        this = e.new_obj(st, 'endpoint', 'param', EP)
        t = e.new_obj(st, 'transport', 'param', TR)
        return [this, t], dict(this=this, t=t)

    def post(self, e, o, env):
        off, _ = fld(e, EP, 'transport_')
        v = e.load(o.st, e.shift(env['this'], off), PTR)
        e.oblige(o.st, toz(e.ptr_to_int(v)) == toz(e.ptr_to_int(env['t'])), "the endpoint remembers the transport")


class GetTransport(FnSpec):
    qual, nparams, title = EP + '::getTransport', 0, 'Endpoint::getTransport'

    def setup(self, e, st):
        this = e.new_obj(st, 'endpoint', 'param', EP)
        off, _ = fld(e, EP, 'transport_')
        v = e.load(st, e.shift(this, off), PTR)
        return [this], dict(this=this, v=v)

    def post(self, e, o, env):
        e.oblige(o.st, toz(e.ptr_to_int(o.ret)) == toz(e.ptr_to_int(env['v'])), "the endpoint reports the transport it was given")


# ---- broadcast queue
def j():
    return z3.Const('j', IntS)


def appended(pre, v, terms):
    k = j()
    fs = [toz(v.n) == toz(pre.n) + 1]
    for a, b, t in zip([x for _, _, aa in pre.leaves for x in aa], [x for _, _, aa in v.leaves for x in aa], terms):
        fs.append(z3.Select(b, toz(pre.n)) == t)
        fs.append(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < toz(pre.n)), z3.Select(b, k) == z3.Select(a, k))))
    return z3.And(fs)


def tail(pre, v):
    k = j()
    fs = [toz(v.n) == toz(pre.n) - 1]
    for a, b in zip([x for _, _, aa in pre.leaves for x in aa], [x for _, _, aa in v.leaves for x in aa]):
        fs.append(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < toz(v.n)), z3.Select(b, k) == z3.Select(a, k + 1))))
    return z3.And(fs)


class Broadcast(TS):
    qual, nparams, title = TR + '::broadcast', 2, 'Transport::broadcast'
    effect_name = "queueing appends exactly this broadcast and alters no other"

    def setup(self, e, st):
        this = self.this(e, st)
        nm = e.new_obj(st, 'name', 'param')
        d = e.new_obj(st, 'data', 'param')
        self.terms = [e.blob_of(st, e.get_abs(st, nm, 'std::string')), e.blob_of(st, e.get_abs(st, d, 'std::vector<unsigned char>'))]
        return [this, nm, d], {}

    def q_effect(self, e, st, pre, v):
        return appended(pre, v, self.terms)

    def post(self, e, o, env):
        took_effect(e, o.st, self.q)


class PopBroadcast(TS):
    qual, nparams, title = TR + '::popBroadcast', 0, 'Transport::popBroadcast'
    effect_name = "popping removes exactly the oldest broadcast"

    def setup(self, e, st):
        this = self.this(e, st)
        out = e.new_obj(st, 'result', 'param')
        return [out, this], dict(out=out)

    def q_rely(self, v):
        return toz(v.n) >= 1

    def post(self, e, o, env):
        st = o.st
        took_effect(e, st, self.q)
        pre = st.ghost.get('broadcast queue.pre')
        if pre is None:
            return
        ts = leafterms(e, st, env['out'], PAIR)
        for x, a in zip(ts, [x for _, _, aa in pre.leaves for x in aa]):
            e.oblige(st, x == z3.Select(a, 0), "the broadcast popped is the oldest one")

    def q_effect(self, e, st, pre, v):
        return tail(pre, v)


class HaveBroadcast(TS):
    qual, nparams, title = TR + '::haveBroadcast', 0, 'Transport::haveBroadcast'

    def setup(self, e, st):
        return [self.this(e, st)], {}

    def post(self, e, o, env):
        st = o.st
        pre = st.ghost.get('broadcast queue.pre')
        e.oblige(st, pre is not None, "looks at the queue")
        self.unlocked(e, st)
        if pre is not None:
            e.oblige(st, tob(e.to_bool(o.ret)) == (toz(pre.n) > 0), "reports whether a broadcast is queued")


BASE = (AddEndpoint, GetEndpoint, Endpoints, SetTransport, GetTransport)
QUEUE = (Broadcast, PopBroadcast, HaveBroadcast)


def c08_base(tier, P=None):
    P = P or Program(SRCS)
    return verify_all(P, [S() for S in BASE], tier)


def c07_queue(tier, P=None):
    P = P or Program(SRCS)
    return verify_all(P, [S() for S in QUEUE], tier)
