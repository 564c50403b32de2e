"""C10: trace enable flags and scoped configuration."""
import z3
from scv.spec import *
from scv import guard
from scv.guard import Guarded, quiet, eqv, took_effect
from specs.map_tracker import with_key, without_key, arrs, is_empty
from specs.transport import fld

TC = 'scalopus::TraceConfigurator'
AB = 'std::atomic<bool>'
ABP = 'std::shared_ptr<%s>' % AB
MAPT = 'std::map<unsigned long, %s>' % ABP
SRCS = ['scalopus_tracing/src/trace_configurator.cpp', 'scalopus_tracing/src/trace_configuration_raii.cpp', '/verif/specs/inst/trace_config.cpp']
ASSUMPTIONS = [
    "std::shared_ptr, std::map, std::mutex and std::atomic behave as the standard specifies",
    "objects with thread storage duration are destroyed when their thread exits (the C++ runtime runs what was registered with it)",
    "two threads that exist at the same time have different pthread_self()",
]


def is_map(t):
    return t in (MAPT, MAPT.replace('std::map', 'std::unordered_map'))


def at(p, q):
    return isinstance(p, Ptr) and isinstance(q, Ptr) and p.obj == q.obj and p.off == q.off


class CS(FnSpec):
    def install(self, e):
        e.fresh_process = True
        self.e = e

    def table(self, e, st, this, **kw):
        o, t = fld(e, TC, 'thread_state_', is_map)
        m, _ = fld(e, TC, 'threads_map_mutex_', lambda t: t == 'std::mutex')
        g = Guarded('thread flags', e.shift(this, o), t, e.shift(this, m), **kw)
        g.inv = lambda v: no_null(v)
        g.fresh(e, st)
        guard.install(e, [g])
        return g

    def obj(self, e, st):
        this = e.new_obj(st, 'configurator', 'param', TC)
        e.take_addr(this)
        return this

    def pflag(self, e, st, this):
        """the process flag: an object of its own"""
        f = e.new_obj(st, 'process_flag', 'heap')
        o, t = fld(e, TC, 'process_state_', lambda t: t == ABP)
        with quiet(e):
            e.put_abs(st, e.shift(this, o), Ref('shared_ptr', AB, f), ABP)
        return f

    def instance(self, e, this):
        def get(c, st):
            with quiet(e):
                e.put_abs(st, c.sret, Ref('shared_ptr', TC, this), 'std::shared_ptr<%s>' % TC)
        e.contracts[TC + '::getInstance'] = get


def no_null(v):
    k = z3.Const('k', v.dom.sort().domain())
    return z3.ForAll([k], z3.Implies(z3.Select(v.dom, k), z3.Select(arrs(v)[0], k) != 0), patterns=[z3.Select(v.dom, k)])


class Ctor(CS):
    qual, nparams, title = TC + '::TraceConfigurator', 0, 'TraceConfigurator::TraceConfigurator'

    def setup(self, e, st):
        this = e.new_obj(st, 'configurator', 'local')
        return [this], dict(this=this)

    def post(self, e, o, env):
        st = o.st
        f, t = fld(e, TC, 'process_state_', lambda t: t == ABP)
        v = e.get_abs(st, e.shift(env['this'], f), ABP)
        e.oblige(st, z3.Not(tob(e.is_null(v.p))), "the process flag exists")
        e.oblige(st, tob(e.to_bool(e.load(st, v.p, e.mkint(8)))), "process tracing starts enabled")
        f, t = fld(e, TC, 'thread_state_', is_map)
        m = e.get_abs(st, e.shift(env['this'], f), t)
        e.oblige(st, is_empty(m), "no thread is known at the start")


class Instance(CS):
    """the first and all later calls, from every thread, give the same object"""
    qual, title = 'scv_instance', 'TraceConfigurator::getInstance'

    def setup(self, e, st):
        ps = [e.new_obj(st, 'out', 'local') for _ in range(3)]
        for p in ps:
            e.put_abs(st, p, Ref('shared_ptr', TC, NULL), 'std::shared_ptr<%s>' % TC)
        e.handlers['scv_step'] = lambda c, st: None
        e.handlers['scv_new_thread'] = lambda c, st: e.reset_tls(st)
        return ps, dict(ps=ps)

    def post(self, e, o, env):
        st = o.st
        xs = [toz(e.ptr_to_int(e.get_abs(st, p, 'std::shared_ptr<%s>' % TC).p)) for p in env['ps']]
        e.oblige(st, xs[0] != 0, "there is a configurator")
        e.oblige(st, z3.And(xs[1] == xs[0], xs[2] == xs[0]), "every call gives the same configurator")


class ThreadStatePtr(CS):
    """getThreadStatePtr on the first call of a thread and on later ones; the thread's exit"""
    def __init__(self, which):
        self.which = which
        self.qual = 'scv_thread_state' + ('' if which == 'same' else '2')
        self.title = 'TraceConfigurator::getThreadStatePtr (%s)' % which

    def setup(self, e, st):
        this = self.obj(e, st)
        self.instance(e, this)
        g = self.g = self.table(e, st, this, change=self.change)
        self.pflag(e, st, this)
        outs = [e.new_obj(st, 'out%d' % i, 'local') for i in range(2)]
        for p in outs:
            e.put_abs(st, p, Ref('shared_ptr', AB, NULL), ABP)
        gh = st.ghost
        gh['tid'] = z3.Const('tid1', IntS)
        t2 = z3.Const('tid2', IntS)
        st.fact(z3.And(gh['tid'] > 0, gh['tid'] < 2 ** 63, t2 > 0, t2 < 2 ** 63, gh['tid'] != t2))
        e.handlers['pthread_self'] = lambda c, st: st.ghost['tid']
        gh['call'] = z3.IntVal(1)
        gh['flag1'] = gh['flag2'] = z3.IntVal(0)     # flag given out by each call
        gh['gone'] = z3.IntVal(0)
        gh['atexit'] = ()
        gh['exiting'] = False
        gh['alive'] = z3.BoolVal(True)

        def step(c, st):
            st.ghost['call'] = z3.IntVal(2)

        def new_thread(c, st):
            st.ghost['call'] = z3.IntVal(2)
            st.ghost['tid'] = t2
            e.oblige(st, z3.BoolVal(len(st.ghost['atexit']) == 1), "the thread's flag is forgotten when it exits: registered once")
            st.ghost['atexit'] = ()
            e.reset_tls(st)

        def thread_exit(c, st):
            e.oblige(st, z3.BoolVal(len(st.ghost['atexit']) == 1), "the thread's flag is forgotten when it exits: registered once")
            sts = [st]
            for f, o in reversed(st.ghost['atexit']):
                nxt = []
                for s in sts:
                    s.ghost['exiting'] = True
                    fn = e.P.defs.get(f.name)
                    if fn is None:
                        raise Unsupported("thread exit function " + f.name)
                    for q in e.run(s, fn, [o], c.fr.depth + 1):
                        if q.exc is not None:
                            e.oblige(q.st, False, "no exception leaves the thread's exit")
                        else:
                            nxt.append(q.st)
                sts = nxt
            for s in sts:
                e.oblige(s, z3.Implies(s.ghost['alive'], s.ghost['gone'] >= 1), "the thread's flag is forgotten when it exits")
            return [Outcome(s, None) for s in sts]
        e.handlers.update({'scv_step': step, 'scv_new_thread': new_thread, 'scv_thread_exit': thread_exit})

        def atexit(c, st):
            if not isinstance(c.args[0], FnPtr):
                raise Unsupported("thread exit function")
            st.ghost['atexit'] = st.ghost['atexit'] + ((c.args[0], c.args[1]),)
        e.on_thread_atexit = atexit

        def wl(c, st, p, v, el):
            b = fresh('alive', BoolS)
            res = []
            for s, x in e.split(st, b, True, False):
                s.ghost['alive'] = z3.BoolVal(x)
                e.put_abs(s, c.sret, Ref('shared_ptr', el, v.p if x else NULL), 'std::shared_ptr<%s>' % el)
                res.append(Outcome(s, None))
            return res
        e.on_weak_lock = wl
        l0 = e.on_lock

        def lock(e, st, p, mode):
            l0(e, st, p, mode)
            pre = st.ghost.get('thread flags.pre')
            g = st.ghost
            if pre is not None:
                # an entry under this thread's id stays until the thread exits
                if self.which == 'same':
                    st.fact(z3.Implies(g['flag1'] != 0, z3.And(z3.Select(pre.dom, g['tid']), z3.Select(arrs(pre)[0], g['tid']) == g['flag1'])))
        e.on_lock = lock
        return [this] + outs, dict(outs=outs, this=this)

    def change(self, e, st, pre, v):
        g = st.ghost
        tid = g['tid']
        if g['exiting']:
            e.oblige(st, without_key(pre, v, tid), "exiting removes exactly this thread's flag")
            g['gone'] = g['gone'] + 1
            return
        first = g['call'] == 1
        had = z3.Select(pre.dom, tid)
        if same(pre, v):
            g['flag1'] = z3.If(z3.And(first, had), z3.Select(arrs(pre)[0], tid), g['flag1'])
            g['flag2'] = z3.If(z3.And(z3.Not(first), had), z3.Select(arrs(pre)[0], tid), g['flag2'])
            return
        x = z3.Select(arrs(v)[0], tid)
        e.oblige(st, z3.Or(eqv(pre, v), z3.And(z3.Not(had), with_key(pre, v, tid, [x]))), "nothing but the calling thread's flag is added, and none is replaced")
        e.oblige(st, x != 0, "the flag added exists")
        if e.feasible(st, z3.Not(had)):
            p = e.int_to_ptr(z3.substitute(z3.simplify(x), (z3.simplify(had), z3.BoolVal(False))))
            if not isinstance(p, Ptr) or p.obj is None:
                raise Unsupported("which flag is added")
            e.oblige(st, z3.Or(had, tob(e.to_bool(e.load(st, p, e.mkint(8))))), "a thread's tracing starts enabled")
        g['flag1'] = z3.If(first, x, g['flag1'])
        g['flag2'] = z3.If(first, g['flag2'], x)

    def post(self, e, o, env):
        st = o.st
        g = st.ghost
        e.oblige(st, not st.held, "no mutex is left locked")
        for i, p in enumerate(env['outs']):
            v = e.get_abs(st, p, ABP)
            x = toz(e.ptr_to_int(v.p))
            e.oblige(st, z3.And(x != 0, x == g['flag%d' % (i + 1)]), "the flag returned is the one kept for the calling thread")
        if self.which == 'same':
            e.oblige(st, g['flag1'] == g['flag2'], "a thread keeps its flag")


class Flags(CS):
    """get/set of one flag: strict, other threads may change flags at any time"""
    def __init__(self, kind, op):
        self.kind, self.op = kind, op
        self.qual = TC + '::' + op + kind + 'State'
        self.title = 'TraceConfigurator::' + op + kind + 'State'
        self.nparams = 1 if op == 'set' else 0

    def setup(self, e, st):
        this = self.obj(e, st)
        self.instance(e, this)
        self.table(e, st, this)
        pf = self.pflag(e, st, this)
        tf = e.new_obj(st, 'thread_flag', 'heap')
        with quiet(e):
            for f in (pf, tf):
                e.store(st, f, fresh('flag'), 1)

        def tsp(c, st):
            with quiet(e):
                e.put_abs(st, c.sret, Ref('shared_ptr', AB, tf), ABP)
        e.contracts[TC + '::getThreadStatePtr'] = tsp
        st.ghost['ops'] = ()
        mine = pf if self.kind == 'Process' else tf

        def atomic(e, st, op, p, v, order, ty):
            if not (at(p, pf) or at(p, tf)):
                return None
            old = fresh('old')
            st.fact(z3.And(old >= 0, old <= 1))
            e.oblige(st, z3.BoolVal(at(p, mine)), "only the %s flag is used" % self.kind.lower())
            w = None if op == 'load' else (v[1] if op == 'cmpxchg' else v)
            if op not in ('load', 'store', 'rmw_xchg'):
                raise Unsupported("atomic " + op)
            st.ghost['ops'] = st.ghost['ops'] + ((op, old, w),)
            return old
        e.on_atomic = atomic
        a0 = e.on_access

        def access(e, st, p, write, what):
            if a0:
                a0(e, st, p, write, what)
            if at(p, pf) or at(p, tf):
                e.oblige(st, False, "flags are only used atomically")
        e.on_access = access
        args = [this]
        if self.op == 'set':
            self.new = fresh('new_state')
            st.fact(z3.And(self.new >= 0, self.new <= 1))
            args.append(self.new if not e.bv else None)
            args[1] = self.new == 1
        return args, {}

    def post(self, e, o, env):
        st = o.st
        ops = st.ghost['ops']
        r = tob(e.to_bool(o.ret))
        if self.op == 'get':
            e.oblige(st, z3.BoolVal(len(ops) >= 1 and all(x[0] == 'load' for x in ops)), "getting a flag changes nothing")
            if ops:
                e.oblige(st, z3.Or([r == (x[1] == 1) for x in ops]), "the flag's value is returned")
        else:
            ws = [x for x in ops if x[0] != 'load']
            e.oblige(st, z3.BoolVal(len(ws) == 1), "setting a flag writes it once")
            if len(ws) == 1:
                e.oblige(st, tob(e.to_bool(ws[0][2])) == (self.new == 1), "setting a flag gives it the new value")
                e.oblige(st, z3.BoolVal(ws[0][0] == 'rmw_xchg'), "setting a flag exchanges it in one step")
                e.oblige(st, r == (ws[0][1] == 1), "setting a flag returns the value it replaced")


class ProcPtr(CS):
    qual, nparams, title = TC + '::getProcessStatePtr', 0, 'TraceConfigurator::getProcessStatePtr'

    def setup(self, e, st):
        this = self.obj(e, st)
        self.table(e, st, this)
        pf = self.pflag(e, st, this)
        out = e.new_obj(st, 'out', 'local')
        return [out, this], dict(out=out, pf=pf)

    def post(self, e, o, env):
        v = e.get_abs(o.st, env['out'], ABP)
        e.oblige(o.st, toz(e.ptr_to_int(v.p)) == toz(e.ptr_to_int(env['pf'])), "the flag returned is the process flag")


class ThreadMap(CS):
    qual, nparams, title = TC + '::getThreadMap', 0, 'TraceConfigurator::getThreadMap'

    def setup(self, e, st):
        this = self.obj(e, st)
        self.g = self.table(e, st, this)
        self.pflag(e, st, this)
        out = e.new_obj(st, 'out', 'local')
        return [out, this], dict(out=out)

    def post(self, e, o, env):
        pre = o.st.ghost.get('thread flags.pre')
        e.oblige(o.st, not o.st.held, "no mutex is left locked")
        e.oblige(o.st, pre is not None, "looks at the thread flags")
        if pre is not None:
            with quiet(e):
                v = e.get_abs(o.st, env['out'], self.g.t)
            e.oblige(o.st, eqv(pre, v), "the copy returned is the table of thread flags")


class Scope(CS):
    """a scoped configuration from construction to destruction"""
    qual, title = 'scv_scope', 'TraceConfigurationRAII'

    def setup(self, e, st):
        this = self.obj(e, st)
        self.instance(e, this)
        self.table(e, st, this)
        pf = self.pflag(e, st, this)
        tf = e.new_obj(st, 'thread_flag', 'heap')

        def tsp(c, st):
            with quiet(e):
                e.put_abs(st, c.sret, Ref('shared_ptr', AB, tf), ABP)
        e.contracts[TC + '::getThreadStatePtr'] = tsp
        self.proc, self.new = z3.Const('process', BoolS), z3.Const('new_state', BoolS)

        def val(tag):
            x = fresh(tag)
            st.fact(z3.And(x >= 0, x <= 1))
            return x
        with quiet(e):
            self.p0, self.t0 = val('p0'), val('t0')
            e.store(st, pf, self.p0, 1)
            e.store(st, tf, self.t0, 1)
        g = st.ghost
        g['body'] = z3.IntVal(0)
        me = self

        def body(c, st):
            g = st.ghost
            with quiet(e):
                p, t = (toz(e.load(st, f, e.mkint(8))) for f in (pf, tf))
                nv = z3.If(me.new, z3.IntVal(1), z3.IntVal(0))
                e.oblige(st, z3.And(p == z3.If(me.proc, nv, me.p0), t == z3.If(me.proc, me.t0, nv)), "the scope sets exactly the chosen flag to the chosen value")
                me.p1, me.t1 = fresh('p1'), fresh('t1')
                st.fact(z3.And(me.p1 >= 0, me.p1 <= 1, me.t1 >= 0, me.t1 <= 1))
                e.store(st, pf, me.p1, 1)
                e.store(st, tf, me.t1, 1)
                g['p1'], g['t1'] = me.p1, me.t1
            g['body'] = g['body'] + 1
        e.handlers['scv_body'] = body
        return [self.proc, self.new], dict(pf=pf, tf=tf)

    def post(self, e, o, env):
        st = o.st
        g = st.ghost
        e.oblige(st, g['body'] == 1, "the scope's code runs once")
        with quiet(e):
            p, t = (toz(e.load(st, env[f], e.mkint(8))) for f in ('pf', 'tf'))
        e.oblige(st, z3.And(p == z3.If(self.proc, self.p0, g['p1']), t == z3.If(self.proc, g['t1'], self.t0)), "the end of the scope puts back the chosen flag and leaves the other alone")


def c10(tier):
    P = Program(SRCS)
    return verify_all(P, [Ctor(), Instance(), ThreadStatePtr('same'), ThreadStatePtr('new'), Flags('Process', 'get'), Flags('Process', 'set'), Flags('Thread', 'get'), Flags('Thread', 'set'), ProcPtr(), ThreadMap(), Scope()], tier)
