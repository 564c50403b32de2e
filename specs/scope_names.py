"""C13: names of trace ids and counters."""
import z3
from scv.spec import *
from scv import guard
from scv.guard import Guarded, quiet, eqv, took_effect
from scv import lib_json as LJ
from scv.lib_std import mkey, number, concat, getseq, excs, PTR
from specs.map_tracker import arrs
from specs.transport import fld

CLS = 'scalopus::ScopeTracingProvider'
SRCS = ['scalopus_tracing/src/scope_tracing_provider.cpp', 'scalopus_tracing/src/endpoint_trace_mapping.cpp']
IDMAP = 'std::unordered_map<unsigned int, std::string>'
PMAP = 'std::map<int, %s>' % IDMAP
PAIR = 'std::pair<std::string, std::string>'


ASSUMPTIONS = [
    "std::string, std::map, std::unordered_map, std::stringstream (std::hex: lower case, no prefix, no padding) behave as the standard specifies",
    "nlohmann::json: a value stored with one type reads back as the same value with that type, to_bson/from_bson round-trip, reading a member that is missing or of another kind throws",
    "Transport::request returns a future (proved for TransportUnix under C05); the registered names behave as proved under C09; the endpoints' static names are not reassigned",
    "the default locale is in force (no digit grouping)",
]


class _C:
    def __init__(self, e):
        self.eng = e


def text(e, st, *ps):
    r = e.literal(st, b'')
    for p in ps:
        r = concat(_C(e), st, r, e.literal(st, p) if isinstance(p, bytes) else p)
    return r


class GetScopeName(FnSpec):
    qual, nparams, title = CLS + '::getScopeName', 3, 'ScopeTracingProvider::getScopeName'

    def setup(self, e, st):
        out = e.new_obj(st, 'result', 'param')
        m = e.new_obj(st, 'mapping', 'param', PMAP)
        pid, tid = z3.Const('pid', IntS), z3.Const('trace_id', IntS)
        st.fact(z3.And(pid >= 0, pid < 2 ** 32, tid >= 0, tid < 2 ** 32))
        self.map = e.get_abs(st, m, PMAP)
        self.m, self.out, self.pid, self.tid = m, out, pid, tid
        return [out, m, pid, tid], {}

    def post(self, e, o, env):
        st = o.st
        v = self.map
        kp = e.T.mkkey('int', [self.pid])
        kt = e.T.mkkey('unsigned int', [self.tid])
        inner = e.unpack_leaf(st, IDMAP, [z3.Select(a, kp) for a in arrs(v)])
        known = z3.And(z3.Select(v.dom, kp), z3.Select(inner.dom, kt))
        res = e.blob_of(st, e.get_abs(st, self.out, 'std::string'))
        e.oblige(st, z3.Implies(known, res == z3.Select(arrs(inner)[0], kt)), "[C13] a registered id resolves to exactly its name")
        want = e.blob_of(st, text(e, st, b"Unknown 0x", number(e, st, self.tid, 16)))
        e.oblige(st, z3.Implies(z3.Not(known), res == want), "[C13] an unregistered id resolves to 'Unknown 0x' and the id in hexadecimal")
        e.oblige(st, eqv(v, e.get_abs(st, self.m, PMAP)), "[C13] the mapping is not changed")


class Split(FnSpec):
    qual, nparams, title = CLS + '::splitCounterSeriesName', 1, 'ScopeTracingProvider::splitCounterSeriesName'

    def setup(self, e, st):
        out = e.new_obj(st, 'result', 'param', PAIR)
        s = e.new_obj(st, 'text', 'param')
        self.out, self.s = out, s
        self.v = e.get_abs(st, s, 'std::string')
        st.fact(toz(self.v.n) < 2 ** 63 - 1)      # std::string::max_size
        return [out, s], {}

    def install(self, e):
        e.invariants.append(self.searched)

    def searched(self, e, fr, head0, st, mod):
        """candidates: no slash before the position a modified index or iterator stands at"""
        res = []
        v = self.v
        k = z3.Const('k', IntS)
        for c in mod:
            if c[0] != 'c':
                continue

            def f(s, c=c):
                x = s.mem[c[1]].cells[c[2]][1]
                if isinstance(x, Ptr):
                    x = e.to_eptr(s, x)
                if isinstance(x, EPtr):
                    x = x.idx
                if isinstance(x, bool) or not (isinstance(x, int) or (z3.is_expr(x) and x.sort() == IntS)):
                    return None
                return z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < toz(x)), z3.Select(v.arr, k) != 47), patterns=[z3.Select(v.arr, k)])
            res.append(("no slash before %s+%d" % (head0.mem[c[1]].name, c[2]), f, False))
        return res

    def post(self, e, o, env):
        st = o.st
        v = self.v
        n, a = toz(v.n), v.arr
        i, k = z3.Const('first_slash', IntS), z3.Const('k', IntS)
        # the position of the first slash, the length when there is none
        st.fact(z3.And(i >= 0, i <= n, z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < i), z3.Select(a, k) != 47), patterns=[z3.Select(a, k)]), z3.Implies(i < n, z3.Select(a, i) == 47)))
        lv = e.T.leaves(PAIR)
        f, s = (e.get_abs(st, e.shift(self.out, x[0]), 'std::string') for x in lv)

        def part(x, off, m):
            return z3.And(toz(x.n) == m, z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < m), z3.Select(x.arr, k) == z3.Select(a, k + off)), patterns=[z3.Select(x.arr, k)]))
        e.oblige(st, z3.Implies(i < n, part(f, 0, i)), "[C13] the counter is what precedes the first slash")
        e.oblige(st, z3.Implies(i < n, part(s, i + 1, n - i - 1)), "[C13] the series is all that follows the first slash")
        e.oblige(st, z3.Implies(i == n, part(f, 0, n)), "[C13] without a slash the whole name is the counter")
        w = b"count"
        e.oblige(st, z3.Implies(i == n, z3.And([toz(s.n) == 5] + [z3.Select(s.arr, j) == w[j] for j in range(5)])), "[C13] without a slash the series is 'count'")


class GetMapping(FnSpec):
    qual, nparams, title = CLS + '::getMapping', 0, 'ScopeTracingProvider::getMapping'

    def setup(self, e, st):
        this = e.new_obj(st, 'provider', 'param', CLS)
        out = e.new_obj(st, 'result', 'param', PMAP)
        self.out = out
        o, t = fld(e, CLS, 'mapping_')
        m, _ = fld(e, CLS, 'mapping_mutex_')
        self.g = Guarded('mapping', e.shift(this, o), t, e.shift(this, m), change=lambda e, st, pre, v: e.oblige(st, eqv(pre, v), "[C13] the mapping is not changed"))
        self.g.fresh(e, st)
        guard.install(e, [self.g])
        return [out, this], {}

    def post(self, e, o, env):
        st = o.st
        e.oblige(st, not st.held, "no mutex is left locked")
        pre = st.ghost.get('mapping.pre')
        e.oblige(st, pre is not None, "[C13] the mapping is read")
        if pre is not None:
            e.oblige(st, eqv(pre, e.get_abs(st, self.out, PMAP)), "[C13] the current mapping is returned")


EM = 'scalopus::EndpointTraceMapping'
MGR = 'scalopus::EndpointManager'
DATA = 'std::vector<unsigned char>'
FUT = 'std::future<%s>' % DATA
EMAP = 'std::map<std::string, std::shared_ptr<scalopus::Endpoint>>'
TEMAP = 'std::map<std::shared_ptr<scalopus::Transport>, %s>' % EMAP
isa_em = z3.Function('isa_scalopus__EndpointTraceMapping', IntS, BoolS)


class HandleMapping(FnSpec):
    """a process answers with the names registered in it"""
    qual, nparams, title = EM + '::handle', 3, 'EndpointTraceMapping::handle'

    def setup(self, e, st):
        this = e.new_obj(st, 'endpoint', 'param', EM)
        tr = e.new_obj(st, 'transport', 'param')
        rq = e.new_obj(st, 'request', 'param')
        self.rs = rs = e.new_obj(st, 'response', 'param')
        SS = 'scalopus::StaticStringTracker'
        base = 'scalopus::MapTracker<unsigned int, std::string>'
        t = e.new_obj(st, 'names', 'heap', SS)
        e.take_addr(t)
        e.contracts[SS + '::getInstance'] = lambda c, st: t
        fs = e.L.all_fields(base)
        maps = [o for o, x, f in fs if norm(x) == IDMAP]
        mus = [o for o, x, f in fs if norm(x) in ('std::mutex', 'std::shared_timed_mutex', 'std::shared_mutex', 'std::recursive_mutex', 'std::timed_mutex')]
        if len(maps) != 1 or len(mus) != 1:
            raise Unsupported("representation of the registered names changed")
        self.g = Guarded('names', e.shift(t, maps[0]), IDMAP, e.shift(t, mus[0]), change=lambda e, st, pre, v: e.oblige(st, eqv(pre, v), "[C13] the registered names are not changed"))
        self.g.fresh(e, st)
        guard.install(e, [self.g])
        self.rq = e.get_abs(st, rq, DATA)
        e.get_abs(st, rs, DATA)
        return [this, tr, rq, rs], {}

    def post(self, e, o, env):
        st = o.st
        asked = z3.And(toz(self.rq.n) > 0, z3.Select(arrs(self.rq)[0] if hasattr(self.rq, 'leaves') else self.rq.arr, 0) == ord('m'))
        r = tob(e.to_bool(o.ret))
        e.oblige(st, not st.held, "no mutex is left locked")
        for s, b in e.split(st, asked, True, False):
            if not b:
                e.oblige(s, z3.Not(r), "[C13] only a request for the names is answered")
                continue
            e.oblige(s, r, "[C13] a request for the names is answered")
            pre = s.ghost.get('names.pre')
            e.oblige(s, pre is not None, "[C13] the registered names are read")
            if pre is None:
                continue
            rb = e.blob_of(s, e.get_abs(s, self.rs, DATA))
            j = LJ.unbson(rb)
            m = LJ.at(e, s, j, b'mapping')
            ok, ts = LJ.decode(e, s, PMAP, m)
            e.oblige(s, z3.And(LJ.isbson(rb), LJ.has(e, s, j, b'mapping'), ok), "[C13] the answer has a mapping")
            v = e.unpack_leaf(s, PMAP, ts)
            x = z3.Const('this_pid', IntS)
            kp = e.T.mkkey('int', [x])
            q = z3.Const('q', v.dom.sort().domain())
            e.oblige(s, z3.ForAll([q], z3.Select(v.dom, q) == (q == kp)), "[C13] the answer is about this process and no other")
            e.oblige(s, z3.And([z3.Select(a, kp) == y for a, y in zip(arrs(v), e.pack_leaf(s, IDMAP, pre))]), "[C13] the answer has exactly the names registered")


class Asked:
    """Transport::request for the client side of an endpoint"""
    def __init__(self, e, st, me, cls, want):
        o, t = fld(e, cls, 'transport_', lambda t: t.endswith('*'))
        with quiet(e):
            self.tr = toz(e.ptr_to_int(e.load(st, e.shift(me, o), PTR)))
        self.fut = fut = e.new_obj(st, 'future', 'heap')
        e.take_addr(fut)
        self.answer = z3.Const('answer', Blob)
        self.fails = z3.Const('request_fails', BoolS)
        st.ghost['asked'] = z3.IntVal(0)
        st.ghost['ready'] = z3.BoolVal(False)

        def request(c, st):
            g = st.ghost
            g['asked'] = g['asked'] + 1
            e.oblige(st, toz(e.ptr_to_int(c.args[0])) == self.tr, "the request goes over the endpoint's transport")
            want(c, st)
            with quiet(e):
                e.put_abs(st, fut, Tok('future', [z3.IntVal(1)]), FUT)
                e.put_abs(st, c.sret, Ref('shared_ptr', FUT, fut), 'std::shared_ptr<%s>' % FUT)
        e.vcontracts['scalopus::Transport::request'] = request

        def wait(c, st, i, r):
            st.ghost['ready'] = z3.Or(st.ghost['ready'], r == 0)
        e.on_wait = wait
        e.on_future = lambda c, st, i: [(s, 'std::future_error' if b else self.answer) for s, b in e.split(st, self.fails, True, False)]


class Mapping(FnSpec):
    """the names of the process on the other side"""
    qual, nparams, title = EM + '::mapping', 0, 'EndpointTraceMapping::mapping'

    def install(self, e):
        e.fresh_process = True

    def setup(self, e, st):
        this = e.new_obj(st, 'endpoint', 'param', EM)
        self.out = out = e.new_obj(st, 'result', 'param')

        def want(c, st):
            e.oblige(st, e.blob_of(st, e.get_abs(st, c.args[1], 'std::string')) == LJ.key(e, st, b'scope_tracing'), "[C13] the request goes to the endpoint with the names")
            d = e.get_abs(st, c.args[2], DATA)
            e.oblige(st, z3.And(toz(d.n) > 0, z3.Select(arrs(d)[0] if hasattr(d, 'leaves') else d.arr, 0) == ord('m')), "[C13] the names are asked for")
        self.a = Asked(e, st, this, EM, want)
        return [out, this], {}

    def parts(self, e, st):
        a = self.a.answer
        j = LJ.unbson(a)
        ok, ts = LJ.decode(e, st, PMAP, LJ.at(e, st, j, b'mapping'))
        return z3.And(LJ.isbson(a), LJ.has(e, st, j, b'mapping'), ok), ts

    def exc_ok(self, e, o, env):
        if o.exc.type == 'scalopus::communication_error':
            return self.a.tr == 0
        ok, _ = self.parts(e, o.st)
        return z3.And(self.a.tr != 0, z3.Or(self.a.fails, z3.Not(ok)))

    def post(self, e, o, env):
        st = o.st
        g = st.ghost
        e.oblige(st, g['asked'] == 1, "[C13] the process is asked once")
        v = e.get_abs(st, self.out, PMAP)
        ok, ts = self.parts(e, st)
        w = e.unpack_leaf(st, PMAP, ts)
        q = z3.Const('q', v.dom.sort().domain())
        e.oblige(st, z3.Implies(g['ready'], eqv(v, w)), "[C13] the mapping is the one in the answer")
        e.oblige(st, z3.Implies(z3.Not(g['ready']), z3.ForAll([q], z3.Not(z3.Select(v.dom, q)))), "[C13] without an answer no names are known")


class Update(FnSpec):
    """the names of all processes"""
    qual, nparams, title = CLS + '::updateMapping', 0, 'ScopeTracingProvider::updateMapping'

    def install(self, e):
        e.fresh_process = True
        e.invariants.append(self.loop_invs)

    def setup(self, e, st):
        this = e.new_obj(st, 'provider', 'param', CLS)
        o, t = fld(e, CLS, 'mapping_')
        m, _ = fld(e, CLS, 'mapping_mutex_')
        self.g = G = Guarded('mapping', e.shift(this, o), t, e.shift(this, m), effect=lambda e, st, pre, v: self.same(v, st.ghost['all']), effect_name="[C13] the mapping has the names of all processes that answer")
        G.fresh(e, st)
        guard.install(e, [G])
        self.there = z3.Const('manager_there', BoolS)
        self.mgr = z3.Const('manager', IntS)
        st.fact(self.mgr > 0)
        o, t = fld(e, CLS, 'manager_')
        e.put_abs(st, e.shift(this, o), Ref('weak_ptr', MGR, e.int_to_ptr(self.mgr)), t)

        def wlock(c, st, p, v, el):
            res = []
            for s, b in e.split(st, self.there, True, False):
                e.put_abs(s, c.sret, Ref('shared_ptr', el, v.p if b else NULL), 'std::shared_ptr<%s>' % el)
                res.append(Outcome(s, None))
            return res
        e.on_weak_lock = wlock
        self.eps = v = e.fresh_leaf(st, TEMAP, 'endpoints')
        self.name = LJ.key(e, st, b'scope_tracing')
        g = st.ghost
        g['all'] = a = e.fresh_leaf(st, PMAP, 'all')
        q = z3.Const('q', a.dom.sort().domain())
        st.fact(z3.And(z3.ForAll([q], z3.Not(z3.Select(a.dom, q))), toz(a.card) == 0))
        g['before'] = g['last'] = a
        g['asked'] = z3.K(IntS, z3.BoolVal(False))
        g['got'] = z3.IntVal(0)

        def endpoints(c, st):
            g = st.ghost
            e.oblige(st, g['got'] == 0, "[C13] the processes are looked up once")
            g['got'] = g['got'] + 1
            e.put_abs(st, c.sret, v, TEMAP)
        e.vcontracts[MGR + '::endpoints'] = endpoints

        def mapping(c, st):
            g = st.ghost
            x = toz(e.ptr_to_int(c.args[0]))
            e.oblige(st, z3.And(x != 0, isa_em(x)), "[C13] endpoints asked are those with names")
            g['asked'] = z3.Store(g['asked'], x, True)
            bad = st.copy()
            r = e.fresh_leaf(st, PMAP, 'names')
            a = g['all']
            w = e.fresh_leaf(st, PMAP, 'all')
            q = z3.Const('q', a.dom.sort().domain())
            st.fact(z3.ForAll([q], z3.Select(w.dom, q) == z3.Or(z3.Select(a.dom, q), z3.Select(r.dom, q)), patterns=[z3.Select(w.dom, q)]))
            for x1, y1, z1 in zip(arrs(w), arrs(a), arrs(r)):
                st.fact(z3.ForAll([q], z3.Select(x1, q) == z3.If(z3.Select(a.dom, q), z3.Select(y1, q), z3.Select(z1, q)), patterns=[z3.Select(x1, q)]))
            g['before'], g['last'] = a, r
            g['all'] = w
            e.put_abs(st, c.sret, r, PMAP)
            return [Outcome(st, None), excs(bad, 'std::exception')]
        e.contracts[EM + '::mapping'] = mapping
        return [this], {}

    def same(self, v, w):
        q = z3.Const('q', v.dom.sort().domain())
        return z3.ForAll([q], z3.And([z3.Select(v.dom, q) == z3.Select(w.dom, q)] + [z3.Implies(z3.Select(v.dom, q), z3.Select(x, q) == z3.Select(y, q)) for x, y in zip(arrs(v), arrs(w))]))

    def of(self, e, st, k):
        """the names endpoint of transport k: (there, address)"""
        inner = e.unpack_leaf(st, EMAP, [z3.Select(a, k) for a in arrs(self.eps)])
        return z3.Select(inner.dom, self.name), z3.Select(arrs(inner)[0], self.name)

    def done(self, e, s, D):
        k = z3.Const('k', IntS)
        a, b = self.of(e, s, k)
        return z3.ForAll([k], z3.Implies(z3.And(z3.Select(self.eps.dom, k), z3.Select(D, k), a, b != 0), z3.Select(s.ghost['asked'], b)), patterns=[z3.Select(self.eps.dom, k)])

    def loop_invs(self, e, fr, head0, st, mod):
        res = []
        S = z3.Select
        k = z3.Const('k', IntS)
        for key in mod:
            if key[0] != 'c':
                continue
            c = head0.mem[key[1]].cells.get(key[2])
            v = c[1] if c is not None else mod[key][1]
            if isinstance(v, MapIt) and v.done is not None and v.done.sort().domain() == IntS:
                IT = lambda s, key=key: s.mem[key[1]].cells[key[2]][1]

                def cont(s, IT=IT):
                    with quiet(e):
                        return e.get_abs(s, IT(s).cont)
                res.append(("iterator at an unvisited element", lambda s, IT=IT, cont=cont: z3.Implies(z3.Not(tob(IT(s).end)), z3.And(S(cont(s).dom, toz(IT(s).k)), z3.Not(S(IT(s).done, toz(IT(s).k))))), False))
                res.append(("everything visited at the end", lambda s, IT=IT, cont=cont: z3.Implies(tob(IT(s).end), z3.ForAll([k], z3.Implies(S(cont(s).dom, k), S(IT(s).done, k)))), False))
                res.append(("processes visited are asked", lambda s, IT=IT: self.done(e, s, IT(s).done), False))
            if isinstance(v, Map) and v.kt == 'int' and v.vt == IDMAP:
                def f(s, key=key):
                    return self.same(s.mem[key[1]].cells[key[2]][1], s.ghost['all'])
                res.append(("names collected are kept", f, False))
                for it in mod:
                    c2 = head0.mem[it[1]].cells.get(it[2]) if it[0] == 'c' and it[1] in head0.mem else None
                    v2 = c2[1] if c2 is not None else mod[it][1] if it[0] == 'c' else None
                    if isinstance(v2, MapIt) and v2.done is not None and v2.done.sort().domain() == IntS:
                        def h(s, key=key, it=it):
                            x, D = s.mem[key[1]].cells[key[2]][1], s.mem[it[1]].cells[it[2]][1].done
                            a, r = s.ghost['before'], s.ghost['last']
                            q = z3.Const('q', x.dom.sort().domain())
                            return z3.ForAll([q], z3.And([z3.Select(x.dom, q) == z3.Or(z3.Select(a.dom, q), z3.And(z3.Select(r.dom, q), z3.Select(D, q)))] +
                                                         [z3.Implies(z3.Select(x.dom, q), z3.Select(u, q) == z3.If(z3.Select(a.dom, q), z3.Select(y, q), z3.Select(z, q))) for u, y, z in zip(arrs(x), arrs(a), arrs(r))]))
                        res.append(("names visited are kept", h, False))
        return res

    def exc_ok(self, e, o, env):
        g = o.st.ghost
        e.oblige(o.st, g.get('mapping.pre') is None, "[C13] a failure leaves the mapping as it was")
        k = z3.Const('k', IntS)
        a, b = self.of(e, o.st, k)
        return z3.And(self.there, z3.Exists([k], z3.And(z3.Select(self.eps.dom, k), a, z3.Or(b == 0, z3.Not(isa_em(b))))))

    def post(self, e, o, env):
        st = o.st
        g = st.ghost
        e.oblige(st, not st.held, "no mutex is left locked")
        D = z3.K(IntS, z3.BoolVal(True))
        for s, b in e.split(st, self.there, True, False):
            if b:
                e.oblige(s, g['got'] == 1, "[C13] the processes are looked up")
                e.oblige(s, self.done(e, s, D), "[C13] every process is asked for its names")
                took_effect(e, s, self.g)
            else:
                e.oblige(s, s.ghost.get('mapping.pre') is None, "[C13] without a manager the mapping stays")


def c13(tier):
    P = Program(SRCS)
    return for_prop(verify_all(P, [GetScopeName(), Split(), GetMapping(), HandleMapping(), Mapping(), Update()], tier), 'C13')


def t(tier):
    return verify_all(Program(SRCS), [HandleMapping(), Mapping(), Update()], tier)
