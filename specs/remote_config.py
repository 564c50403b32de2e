"""C12: remote trace configuration, both ends."""
import z3
from scv.spec import *
from scv import guard
from scv import lib_json as LJ
from scv.guard import Guarded, quiet, eqv
from specs.map_tracker import arrs
from specs.transport import fld
from specs.trace_config import TC, AB, ABP, MAPT, CS, no_null, is_map, at

EC = 'scalopus::EndpointTraceConfigurator'
CFG = EC + '::TraceConfiguration'
TSTATE = 'std::map<unsigned long, bool>'
DATA = 'std::vector<unsigned char>'
FUT = 'std::future<%s>' % DATA
SRCS = ['scalopus_tracing/src/endpoint_trace_configurator.cpp', 'scalopus_tracing/src/trace_configurator.cpp', 'scalopus_interface/src/endpoint.cpp']
AI = z3.ArraySort(IntS, IntS)
ABo = z3.ArraySort(IntS, BoolS)
owner = z3.Function('owner', IntS, IntS)
ASSUMPTIONS = [
    "nlohmann::json: a value stored with one type reads back as the same value with that type, to_bson/from_bson round-trip, reading a member that is missing or of another kind throws",
    "thread ids fit a signed 64 bit number (BSON has no larger integers)",
    "Transport::request returns a future (proved for TransportUnix under C05)",
    "a flag belongs to one thread or to the process (each is allocated on its own: C10)",
]


def wellformed_cfg(e, st, j):
    m = LJ.decode(e, st, TSTATE, LJ.at(e, st, j, b't'))
    return z3.And(LJ.has(e, st, j, b'p'), LJ.has(e, st, j, b'sp'), LJ.has(e, st, j, b't'), LJ.jkind(LJ.at(e, st, j, b'p')) == LJ.BOOL,
                  LJ.jkind(LJ.at(e, st, j, b'sp')) == LJ.BOOL, m[0])


class Cfg:
    """a configuration inside a json value"""
    def __init__(self, e, st, j):
        self.p = LJ.decode(e, st, 'bool', LJ.at(e, st, j, b'p'))[1][0]
        self.sp = LJ.decode(e, st, 'bool', LJ.at(e, st, j, b'sp'))[1][0]
        self.t = e.unpack_leaf(st, TSTATE, LJ.decode(e, st, TSTATE, LJ.at(e, st, j, b't'))[1])


class Handle(CS):
    qual, nparams, title = EC + '::handle', 3, 'EndpointTraceConfigurator::handle'

    def setup(self, e, st):
        this = e.new_obj(st, 'endpoint', 'param', EC)
        tr = e.new_obj(st, 'transport', 'param')
        rq = e.new_obj(st, 'request', 'param')
        rs = e.new_obj(st, 'response', 'param')
        self.rs = rs
        conf = self.obj(e, st)
        self.instance(e, conf)
        g = self.table(e, st, conf, change=lambda e, st, pre, v: e.oblige(st, eqv(pre, v), "the table of threads is not changed"))
        # flags are objects of their own, one per thread
        inv0 = g.inv
        pf = self.pf = self.pflag(e, st, conf)
        e.take_addr(pf)
        self.pa = toz(e.ptr_to_int(pf))
        k = z3.Const('k', IntS)
        g.inv = lambda v: z3.And(inv0(v), z3.ForAll([k], z3.Implies(z3.Select(v.dom, k), z3.And(owner(z3.Select(arrs(v)[0], k)) == k, z3.Select(arrs(v)[0], k) != self.pa)), patterns=[z3.Select(v.dom, k)]))
        g.fresh(e, st)
        self.g = g
        self.tm = None
        self.rqb = e.blob_of(st, e.get_abs(st, rq, DATA))
        e.get_abs(st, rs, DATA)
        j = self.j = LJ.unbson(self.rqb)
        cmd = LJ.at(e, st, j, b'cmd')
        self.wf = z3.And(LJ.isbson(self.rqb), LJ.has(e, st, j, b'cmd'), LJ.jkind(cmd) == LJ.STR)
        self.set = LJ.jstrv(cmd) == LJ.key(e, st, b'set')
        s = LJ.at(e, st, j, b'state')
        self.wfs = z3.And(LJ.has(e, st, j, b'state'), LJ.jkind(s) == LJ.OBJ, wellformed_cfg(e, st, s))
        self.new = Cfg(e, st, s)
        gh = st.ghost
        gh['W'] = z3.K(IntS, z3.BoolVal(False))      # flags written, and their values
        gh['WV'] = z3.Const('WV0', AI)
        gh['R'] = z3.K(IntS, z3.BoolVal(False))      # flags read since they were last written here, and the value read
        gh['RV'] = z3.Const('RV0', AI)
        gh['H0'] = gh['H1'] = z3.K(IntS, z3.BoolVal(False))      # flags that were off / on at some moment of the call
        e.on_atomic = self.atomic
        return [this, tr, rq, rs], {}

    def install(self, e):
        CS.install(self, e)
        e.invariants.append(self.loop_invs)

    def atomic(self, e, st, op, p, v, order, ty):
        if at(p, self.pf):
            a = self.pa
        elif isinstance(p, EPtr) and p.cont == HEAP and p.off == 0:
            a = toz(p.idx)
        else:
            raise Unsupported("atomic access to %r" % (p,))
        g = st.ghost
        old = fresh('flag')
        st.fact(z3.And(old >= 0, old <= 1))
        if op == 'load':
            g['R'] = z3.Store(g['R'], a, True)
            g['RV'] = z3.Store(g['RV'], a, old)
            self.had(g, a, old)
        elif op in ('store', 'rmw_xchg'):
            x = toz(z3.If(tob(e.to_bool(v)), 1, 0))
            g['W'] = z3.Store(g['W'], a, True)
            g['WV'] = z3.Store(g['WV'], a, x)
            self.had(g, a, x)
            g['R'] = z3.Store(g['R'], a, False)
        else:
            raise Unsupported("atomic " + op)
        return old

    def had(self, g, a, x):
        g['H0'] = z3.Store(g['H0'], a, z3.Or(z3.Select(g['H0'], a), x == 0))
        g['H1'] = z3.Store(g['H1'], a, z3.Or(z3.Select(g['H1'], a), x == 1))

    def took(self, g, a, v):
        """flag a had the value v at some moment, and was written with that value only"""
        return z3.And(z3.Select(z3.If(v == 1, g['H1'], g['H0']), a), z3.Implies(z3.Select(g['W'], a), z3.Select(g['WV'], a) == v))

    def snap(self, st):
        return st.ghost.get('thread flags.pre')

    def wr(self, st, tm, k, D=None):
        """the flag of thread k was written iff it is listed (and visited), with the listed value"""
        g = st.ghost
        a = z3.Select(arrs(tm)[0], k)
        T = self.new.t
        listed = z3.And(self.set, z3.Select(T.dom, k))
        if D is not None:
            listed = z3.And(listed, z3.Select(D, k))
        return z3.And(z3.Implies(z3.Select(g['W'], a), listed), z3.Implies(listed, self.took(g, a, z3.Select(arrs(T)[0], k))))

    def only(self, st, tm):
        g = st.ghost
        a = z3.Const('a', IntS)
        return z3.ForAll([a], z3.Implies(z3.Select(g['W'], a), z3.Or(a == self.pa, z3.And(z3.Select(tm.dom, owner(a)), z3.Select(arrs(tm)[0], owner(a)) == a))), patterns=[z3.Select(g['W'], a)])

    def loop_invs(self, e, fr, head0, st, mod):
        tm = self.snap(head0)
        res = []
        if tm is None:
            return res
        g0 = head0.ghost
        k = z3.Const('k', IntS)
        a = z3.Const('a', IntS)
        if ('g', 'W') in mod:
            res.append(("only flags of threads are written", lambda s: self.only(s, tm), False))
            res.append(("process flag", lambda s: z3.And([z3.Select(s.ghost[x], self.pa) == z3.Select(g0[x], self.pa) for x in ('W', 'WV', 'H0', 'H1')]), False))
        if ('g', 'H0') in mod:
            for x in ('H0', 'H1'):
                res.append((x + " stays", lambda s, x=x: z3.ForAll([a], z3.Implies(z3.Select(g0[x], a), z3.Select(s.ghost[x], a))), False))
        if ('g', 'R') in mod:
            res.append(("process flag read", lambda s: z3.And(z3.Select(s.ghost['R'], self.pa) == z3.Select(g0['R'], self.pa), z3.Select(s.ghost['RV'], self.pa) == z3.Select(g0['RV'], self.pa)), False))
        its, maps = [], []
        for key in mod:
            if key[0] != 'c':
                continue
            c = head0.mem[key[1]].cells.get(key[2])
            v = c[1] if c is not None else mod[key][1]
            if isinstance(v, MapIt) and v.done is not None:
                its.append(key)
            if isinstance(v, Map) and v.kt == 'unsigned long' and v.vt == 'bool':
                maps.append(key)
        for key in its:
            IT = lambda s, key=key: s.mem[key[1]].cells[key[2]][1]
            def cont(s, IT=IT):
                with quiet(e):
                    return e.get_abs(s, IT(s).cont)
            D = lambda s, IT=IT: IT(s).done
            res.append(("iterator at an unvisited element", lambda s, IT=IT, cont=cont, D=D: z3.Implies(z3.Not(tob(IT(s).end)), z3.And(z3.Select(cont(s).dom, toz(IT(s).k)), z3.Not(z3.Select(D(s), toz(IT(s).k))))), False))
            res.append(("everything visited at the end", lambda s, IT=IT, cont=cont, D=D: z3.Implies(tob(IT(s).end), z3.ForAll([k], z3.Implies(z3.Select(cont(s).dom, k), z3.Select(D(s), k)))), False))
            res.append(("visited elements are there", lambda s, cont=cont, D=D: z3.ForAll([k], z3.Implies(z3.Select(D(s), k), z3.Select(cont(s).dom, k))), False))
            if ('g', 'W') in mod:
                res.append(("listed flags visited are written", lambda s, D=D: z3.ForAll([k], z3.Implies(z3.Select(tm.dom, k), self.wr(s, tm, k, D(s))), patterns=[z3.Select(arrs(tm)[0], k)]), False))
            if ('g', 'R') in mod:
                res.append(("visited flags are read", lambda s, D=D: z3.ForAll([k], z3.Implies(z3.And(z3.Select(tm.dom, k), z3.Select(D(s), k)), z3.Select(s.ghost['R'], z3.Select(arrs(tm)[0], k)))), False))
            for mk in maps:
                M = lambda s, mk=mk: s.mem[mk[1]].cells[mk[2]][1]
                res.append(("the visited are listed", lambda s, D=D, M=M: z3.ForAll([k], z3.Select(M(s).dom, k) == z3.Select(D(s), k)), False))
                res.append(("values listed are those read", lambda s, D=D, M=M: z3.ForAll([k], z3.Implies(z3.Select(M(s).dom, k), z3.Select(arrs(M(s))[0], k) == z3.Select(s.ghost['RV'], z3.Select(arrs(tm)[0], k)))), False))
        return res

    def exc_ok(self, e, o, env):
        st = o.st
        a = z3.Const('a', IntS)
        e.oblige(st, z3.ForAll([a], z3.Not(z3.Select(st.ghost['W'], a))), "a request that is refused changes nothing")
        return z3.Not(z3.And(self.wf, z3.Implies(self.set, self.wfs)))

    def post(self, e, o, env):
        st = o.st
        g = st.ghost
        e.oblige(st, not st.held, "no mutex is left locked")
        tm = self.snap(st)
        e.oblige(st, tm is not None, "the threads are looked up")
        if tm is None:
            return
        k = z3.Const('k', IntS)
        W, WV = g['W'], g['WV']
        n = self.new
        e.oblige(st, z3.Implies(z3.Select(W, self.pa), z3.And(self.set, n.sp == 1)), "the process flag is changed only when asked for")
        e.oblige(st, z3.Implies(z3.And(self.set, n.sp == 1), self.took(g, self.pa, n.p)), "the process flag gets the value asked for")
        e.oblige(st, z3.ForAll([k], z3.Implies(z3.Select(tm.dom, k), self.wr(st, tm, k))), "exactly the listed threads are set, to the listed values")
        e.oblige(st, self.only(st, tm), "no other flag is changed")
        e.oblige(st, tob(e.to_bool(o.ret)), "there is a reply")
        rb = e.blob_of(st, e.get_abs(st, self.rs, DATA))
        j = LJ.unbson(rb)
        s = LJ.at(e, st, j, b'state')
        e.oblige(st, z3.And(LJ.isbson(rb), LJ.has(e, st, j, b'state'), wellformed_cfg(e, st, s)), "the reply is a well-formed state")
        c = Cfg(e, st, s)
        e.oblige(st, z3.And(z3.Select(g['R'], self.pa), c.p == z3.Select(g['RV'], self.pa)), "the reply has the process flag as read after the change")
        e.oblige(st, z3.ForAll([k], z3.Select(c.t.dom, k) == z3.Select(tm.dom, k)), "the reply lists every known thread")
        fa = lambda: z3.Select(arrs(tm)[0], k)
        e.oblige(st, z3.ForAll([k], z3.Implies(z3.Select(tm.dom, k), z3.And(z3.Select(g['R'], fa()), z3.Select(arrs(c.t)[0], k) == z3.Select(g['RV'], fa())))), "the reply has every thread's flag as read after the change")


class Client(FnSpec):
    def __init__(self, op):
        self.op = op
        self.qual = EC + '::' + op + 'TraceState'
        self.nparams = 1 if op == 'set' else 0
        self.title = 'EndpointTraceConfigurator::%sTraceState' % op

    def install(self, e):
        e.fresh_process = True

    def setup(self, e, st):
        this = e.new_obj(st, 'endpoint', 'param', EC)
        out = e.new_obj(st, 'result', 'param', CFG)
        self.out = out
        o, t = fld(e, EC, 'transport_', lambda t: t.endswith('*'))
        with quiet(e):
            self.tr = toz(e.ptr_to_int(e.load(st, e.shift(this, o), lib_std.PTR)))
        fut = e.new_obj(st, 'future', 'heap')
        e.take_addr(fut)
        self.answer = z3.Const('answer', Blob)
        self.fails = z3.Const('request_fails', BoolS)
        st.ghost['asked'] = z3.IntVal(0)
        st.ghost['ready'] = z3.BoolVal(False)
        args = [out, this]
        if self.op == 'set':
            a = e.new_obj(st, 'state', 'param', CFG)
            args.append(a)
            with quiet(e):
                o, _ = fld(e, CFG, 'process_state')
                self.p = toz(e.pack_leaf(st, 'bool', e.read_leaf(st, e.shift(a, o), 'bool'))[0])
                o, _ = fld(e, CFG, 'set_process_state')
                self.sp = toz(e.pack_leaf(st, 'bool', e.read_leaf(st, e.shift(a, o), 'bool'))[0])
                o, t = fld(e, CFG, 'thread_state')
                self.t = e.get_abs(st, e.shift(a, o), t)

        def request(c, st):
            g = st.ghost
            g['asked'] = g['asked'] + 1
            e.oblige(st, toz(e.ptr_to_int(c.args[0])) == self.tr, "the request goes over the endpoint's transport")
            e.oblige(st, e.blob_of(st, e.get_abs(st, c.args[1], 'std::string')) == LJ.key(e, st, b'trace_configurator'), "the request goes to the trace configurator")
            b = e.blob_of(st, e.get_abs(st, c.args[2], DATA))
            j = LJ.unbson(b)
            cmd = LJ.at(e, st, j, b'cmd')
            e.oblige(st, z3.And(LJ.isbson(b), LJ.has(e, st, j, b'cmd'), LJ.jkind(cmd) == LJ.STR, LJ.jstrv(cmd) == LJ.key(e, st, self.op.encode())), "the command asked for is sent")
            if self.op == 'set':
                s = LJ.at(e, st, j, b'state')
                e.oblige(st, z3.And(LJ.has(e, st, j, b'state'), wellformed_cfg(e, st, s)), "a well-formed state is sent")
                x = Cfg(e, st, s)
                e.oblige(st, z3.And(x.p == self.p, x.sp == self.sp, eqv(x.t, self.t)), "the state sent is the state given")
            with quiet(e):
                e.put_abs(st, fut, Tok('future', [z3.IntVal(1)]), FUT)
                e.put_abs(st, c.sret, Ref('shared_ptr', FUT, fut), 'std::shared_ptr<%s>' % FUT)
        e.vcontracts['scalopus::Transport::request'] = request
        def wait(c, st, i, r):
            st.ghost['ready'] = z3.Or(st.ghost['ready'], r == 0)
        e.on_wait = wait

        def future(c, st, i):
            return [(s, 'std::future_error' if b else self.answer) for s, b in e.split(st, self.fails, True, False)]
        e.on_future = future
        return args, {}

    def cfg_wf(self, e, st):
        j = LJ.unbson(self.answer)
        s = LJ.at(e, st, j, b'state')
        return z3.And(z3.Not(self.fails), LJ.isbson(self.answer), LJ.has(e, st, j, b'state'), LJ.jkind(s) == LJ.OBJ, wellformed_cfg(e, st, s))

    def exc_ok(self, e, o, env):
        if o.exc.type == 'scalopus::communication_error':
            return self.tr == 0
        return z3.And(self.tr != 0, z3.Not(self.cfg_wf(e, o.st)))

    def post(self, e, o, env):
        st = o.st
        g = st.ghost
        e.oblige(st, g['asked'] == 1, "one request is made")
        def leaf(n, t):
            o, _ = fld(e, CFG, n)
            return e.read_leaf(st, e.shift(self.out, o), t)
        b = lambda n: toz(e.pack_leaf(st, 'bool', leaf(n, 'bool'))[0])
        o, tt = fld(e, CFG, 'thread_state')
        t = e.get_abs(st, e.shift(self.out, o), tt)
        e.oblige(st, (b('cmd_success') == 1) == g['ready'], "success is reported exactly when there was an answer")
        c = Cfg(e, st, LJ.at(e, st, LJ.unbson(self.answer), b'state'))
        e.oblige(st, z3.Implies(g['ready'], z3.And(b('process_state') == c.p, eqv(t, c.t))), "the state returned is the state in the answer")


def c12(tier):
    P = Program(SRCS)
    return verify_all(P, [Handle(), Client('set'), Client('get')], tier)
