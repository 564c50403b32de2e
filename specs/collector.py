"""C21: the native collector's buffers."""
import z3
from scv.spec import *
from scv import guard
from scv.guard import Guarded, quiet, eqv
from specs.map_tracker import with_key, without_key, arrs, is_empty, MUTEX
from specs.transport import fld

NC = 'scalopus::TracePointCollectorNative'
BUF = 'scalopus::SPSCRingBuffer<std::vector<scalopus::tracepoint_collector_types::StaticTraceEvent>>'
SRCS = ['scalopus_tracing/src/native/tracepoint_collector_native.cpp', '/verif/specs/inst/collector.cpp']
ASSUMPTIONS = [
    "std::shared_ptr, std::map, std::vector and std::mutex behave as the standard specifies",
    "objects with thread storage duration are destroyed when their thread exits (the C++ runtime runs what was registered with it)",
    "two threads that exist at the same time have different pthread_self(); a thread that starts may reuse that of one that has exited",
    "setRingbufferSize is given at least 1 (the ring buffer's constructor throws otherwise) and is not called while threads ask for their first buffer",
    "events inside a buffer are the ring buffer's (C03); cbor is a stand-in, it is not used by these functions",
]


def no_null(v):
    k = z3.Const('k', v.dom.sort().domain())
    return z3.ForAll([k], z3.Implies(z3.Select(v.dom, k), z3.Select(arrs(v)[0], k) != 0), patterns=[z3.Select(v.dom, k)])


def appended(pre, v, terms):
    """v is pre with one element more"""
    j = z3.Const('j', IntS)
    n = toz(pre.n)
    fs = [toz(v.n) == n + 1]
    for a, b, t in zip(arrs(pre), arrs(v), terms):
        fs.append(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n), z3.Select(a, j) == z3.Select(b, j))))
        fs.append(z3.Select(b, n) == t)
    return z3.And(fs)


class NS(FnSpec):
    def install(self, e):
        e.fresh_process = True
        self.e = e

    def obj(self, e, st, change=None, ochange=None):
        this = e.new_obj(st, 'collector', 'param', NC)
        e.take_addr(this)
        o, t = fld(e, NC, 'active_tid_buffers_', lambda t: 'MapTracker' in t)
        fs = e.L.all_fields(t)
        maps = [(q, norm(x)) for q, x, f in fs if 'map<' in norm(x)]
        mus = [(q, x, f) for q, x, f in fs if norm(x) in MUTEX]
        if len(mus) > 1:
            mus = [m for m in mus if m[2] == 'mutex_']
        if len(maps) != 1 or len(mus) != 1:
            raise Unsupported("MapTracker representation changed")
        at = e.shift(this, o)
        self.A = Guarded('active buffers', e.shift(at, maps[0][0]), maps[0][1], e.shift(at, mus[0][0]), inv=no_null, change=change)
        o, t = fld(e, NC, 'orphaned_tid_buffers_')
        m, _ = fld(e, NC, 'orphaned_mutex_', lambda t: norm(t) in MUTEX)
        self.O = Guarded('orphans', e.shift(this, o), t, e.shift(this, m), change=ochange)
        for g in (self.A, self.O):
            g.fresh(e, st)
        guard.install(e, [self.A, self.O])
        if len(arrs(self.O.value(e, st))) != 2:
            raise Unsupported("representation of the orphans changed")
        o, t = fld(e, NC, 'ringbuffer_size_')
        n = toz(e.load(st, e.shift(this, o), e.mkint(64)))
        st.fact(z3.And(n >= 1, n < 2 ** 48))        # the ring buffer refuses a smaller size
        return this

    def instance(self, e, this):
        def get(c, st):
            with quiet(e):
                e.put_abs(st, c.sret, Ref('shared_ptr', NC, this), 'std::shared_ptr<%s>' % NC)
        e.contracts[NC + '::getInstance'] = get


class Instance(NS):
    qual, title = 'scv_instance', 'TracePointCollectorNative::getInstance'

    def setup(self, e, st):
        ps = [e.new_obj(st, 'out', 'local') for _ in range(3)]
        for p in ps:
            e.put_abs(st, p, Ref('shared_ptr', NC, NULL), 'std::shared_ptr<%s>' % NC)
        e.handlers['scv_step'] = lambda c, st: None
        e.handlers['scv_new_thread'] = lambda c, st: e.reset_tls(st)
        return ps, dict(ps=ps)

    def post(self, e, o, env):
        st = o.st
        xs = [toz(e.ptr_to_int(e.get_abs(st, p, 'std::shared_ptr<%s>' % NC).p)) for p in env['ps']]
        e.oblige(st, xs[0] != 0, "there is a collector")
        e.oblige(st, z3.And(xs[1] == xs[0], xs[2] == xs[0]), "every call gives the same collector")


class Ctor(NS):
    qual, nparams, title = NC + '::TracePointCollectorNative', 0, 'TracePointCollectorNative::TracePointCollectorNative'

    def setup(self, e, st):
        this = e.new_obj(st, 'collector', 'local')
        return [this], dict(this=this)

    def post(self, e, o, env):
        st = o.st
        o_, t = fld(e, NC, 'orphaned_tid_buffers_')
        e.oblige(st, toz(e.get_abs(st, e.shift(env['this'], o_), t).n) == 0, "there are no orphans at the start")
        o_, t = fld(e, NC, 'ringbuffer_size_')
        e.oblige(st, toz(e.load(st, e.shift(env['this'], o_), e.mkint(64))) >= 1, "a buffer can be made")
        o_, t = fld(e, NC, 'active_tid_buffers_', lambda t: 'MapTracker' in t)
        q, x = [(q, norm(x)) for q, x, f in e.L.all_fields(t) if 'map<' in norm(x)][0]
        e.oblige(st, is_empty(e.get_abs(st, e.shift(env['this'], o_ + q), x)), "no buffer is known at the start")


class Buffer(NS):
    """getBuffer on the first call of a thread and on later ones; the thread's exit"""
    def __init__(self, which):
        self.which = which
        self.qual = 'scv_buffer' + dict(same='', new='2', reuse='3')[which]
        self.title = 'TracePointCollectorNative::getBuffer (%s)' % which

    def setup(self, e, st):
        this = self.obj(e, st, change=self.change, ochange=self.ochange)
        self.instance(e, this)
        outs = [e.new_obj(st, 'out%d' % i, 'local') for i in range(2)]
        for p in outs:
            e.put_abs(st, p, Ref('shared_ptr', BUF, NULL), 'std::shared_ptr<%s>' % BUF)
        gh = st.ghost
        gh['tid'] = z3.Const('tid1', IntS)
        t2 = z3.Const('tid2', IntS)
        st.fact(z3.And(gh['tid'] > 0, gh['tid'] < 2 ** 63, t2 > 0, t2 < 2 ** 63))
        if self.which == 'new':
            st.fact(gh['tid'] != t2)             # a thread that exists at the same time; one that comes later may have the same id
        e.handlers['pthread_self'] = lambda c, st: st.ghost['tid']
        gh['own'] = None                             # the calling thread's entry as it last left it: (present, buffer)
        gh['added'] = z3.IntVal(0)                   # entries the calling thread made
        gh['kept'] = (z3.BoolVal(False), z3.IntVal(0))
        gh['bufs'] = ()
        gh['orphaned'] = z3.IntVal(0)
        gh['atexit'] = ()
        gh['exiting'] = False
        gh['alive'] = z3.BoolVal(True)
        e.handlers['scv_step'] = lambda c, st: self.called(st)

        def registered(st):
            e.oblige(st, z3.BoolVal(len(st.ghost['atexit']) == 1), "what keeps the thread's buffer at its exit is registered once")

        def new_thread(c, st):
            if not st.ghost['exiting']:
                self.called(st)
                registered(st)
            st.ghost.update({'tid': t2, 'own': None, 'added': z3.IntVal(0), 'atexit': (), 'exiting': False, 'orphaned': z3.IntVal(0), 'kept': (z3.BoolVal(False), z3.IntVal(0))})
            e.reset_tls(st)

        def thread_exit(c, st):
            self.called(st)
            registered(st)
            st.ghost['kept'] = st.ghost['own'] or st.ghost['kept']
            sts = [st]
            for f, o in reversed(st.ghost['atexit']):
                nxt = []
                for s in sts:
                    s.ghost['exiting'] = True
                    fn = e.P.defs.get(f.name)
                    if fn is None:
                        raise Unsupported("thread exit function " + f.name)
                    for q in e.run(s, fn, [o], c.fr.depth + 1):
                        if q.exc is not None:
                            e.oblige(q.st, False, "no exception leaves the thread's exit")
                        else:
                            nxt.append(q.st)
                sts = nxt
            for s in sts:
                g = s.ghost
                e.oblige(s, z3.Implies(g['alive'], z3.And(g['own'][0] == False, g['orphaned'] == z3.If(g['kept'][0], 1, 0)) if g['own'] is not None else z3.BoolVal(False)), "the thread's buffer becomes an orphan when it exits, exactly once, and is active no more")
            return [Outcome(s, None) for s in sts]
        e.handlers.update({'scv_new_thread': new_thread, 'scv_thread_exit': thread_exit})

        def atexit(c, st):
            if not isinstance(c.args[0], FnPtr):
                raise Unsupported("thread exit function")
            st.ghost['atexit'] = st.ghost['atexit'] + ((c.args[0], c.args[1]),)
        e.on_thread_atexit = atexit

        def wl(c, st, p, v, el):
            b = fresh('alive', BoolS)
            res = []
            for s, x in e.split(st, b, True, False):
                s.ghost['alive'] = z3.BoolVal(x)
                with quiet(e):
                    e.put_abs(s, c.sret, Ref('shared_ptr', el, v.p if x else NULL), 'std::shared_ptr<%s>' % el)
                res.append(Outcome(s, None))
            return res
        e.on_weak_lock = wl
        l0 = e.on_lock

        def lock(e, st, p, mode):
            l0(e, st, p, mode)
            from scv.lib_std import mkey
            if mkey(p) == mkey(self.A.mutex):
                pre, g = st.ghost['active buffers.pre'], st.ghost
                if g['own'] is not None:
                    # nobody but the thread itself touches the entry under its id
                    had, x = g['own']
                    st.fact(z3.And(z3.Select(pre.dom, g['tid']) == had, z3.Implies(had, z3.Select(arrs(pre)[0], g['tid']) == x)))
        e.on_lock = lock
        return [this] + outs, dict(outs=outs, this=this)

    def called(self, st):
        g = st.ghost
        g['bufs'] = g['bufs'] + (g['own'],)

    def change(self, e, st, pre, v):
        g = st.ghost
        tid = g['tid']
        had, x = z3.Select(pre.dom, tid), z3.Select(arrs(v)[0], tid)
        g['own'] = (z3.Select(v.dom, tid), x)
        if same(pre, v):
            return
        if g['exiting']:
            e.oblige(st, without_key(pre, v, tid), "exiting removes exactly this thread's buffer")
            e.oblige(st, z3.Implies(had, g['orphaned'] == 1), "the buffer is among the orphans before it is active no more")
            return
        e.oblige(st, z3.Or(eqv(pre, v), z3.And(z3.Not(had), with_key(pre, v, tid, [x]))), "nothing but the calling thread's buffer is added, and none is replaced")
        e.oblige(st, x != 0, "the buffer added exists")
        g['added'] = g['added'] + 1
        e.oblige(st, g['added'] <= 1, "a thread's buffer is registered once")

    def ochange(self, e, st, pre, v):
        g = st.ghost
        if same(pre, v):
            return
        e.oblige(st, z3.BoolVal(g['exiting']), "only an exiting thread adds orphans")
        if g['own'] is None:
            e.oblige(st, False, "what becomes an orphan is the thread's own buffer")
            return
        e.oblige(st, z3.And(g['kept'][0], appended(pre, v, [g['tid'], g['kept'][1]])), "exiting adds exactly the thread's buffer to the orphans, with the thread's id")
        g['orphaned'] = g['orphaned'] + 1
        e.oblige(st, g['orphaned'] <= 1, "a buffer becomes an orphan once")

    def post(self, e, o, env):
        st = o.st
        g = st.ghost
        e.oblige(st, not st.held, "no mutex is left locked")
        xs = []
        for i, p in enumerate(env['outs']):
            x = toz(e.ptr_to_int(e.get_abs(st, p, 'std::shared_ptr<%s>' % BUF).p))
            xs.append(x)
            own = g['bufs'][i]
            e.oblige(st, z3.And(own[0], x != 0, x == own[1]) if own is not None else z3.BoolVal(False), "the buffer returned is the one registered for the calling thread")
        if self.which == 'same':
            e.oblige(st, xs[0] == xs[1], "a thread keeps its buffer")


class ActiveMap(NS):
    qual, nparams, title = NC + '::getActiveMap', 0, 'TracePointCollectorNative::getActiveMap'

    def setup(self, e, st):
        this = self.obj(e, st)
        out = e.new_obj(st, 'out', 'local')
        return [out, this], dict(out=out)

    def post(self, e, o, env):
        pre = o.st.ghost.get('active buffers.pre')
        e.oblige(o.st, not o.st.held, "no mutex is left locked")
        e.oblige(o.st, pre is not None, "looks at the active buffers")
        if pre is not None:
            with quiet(e):
                v = e.get_abs(o.st, env['out'], self.A.t)
            e.oblige(o.st, eqv(pre, v), "the copy returned is the table of active buffers")


class Retrieve(NS):
    qual, nparams, title = NC + '::retrieveAndClearOrphanedBuffers', 0, 'TracePointCollectorNative::retrieveAndClearOrphanedBuffers'

    def setup(self, e, st):
        this = self.obj(e, st, ochange=self.ochange)
        out = e.new_obj(st, 'out', 'local')
        st.ghost['taken'] = None
        self.out = out
        e.invariants.append(self.loop_invs)
        return [out, this], dict(out=out)

    def loop_invs(self, e, fr, head0, st, mod):
        """a loop that copies: what has been passed is in the result"""
        pre = head0.ghost.get('orphans.pre')
        if pre is None:
            return []

        def seqs(s):
            for ob, o in list(s.mem.items()):
                c = o.cells.get(0)
                if c is not None and isinstance(c[1], Seq) and len(c[1].leaves) == len(pre.leaves):
                    yield ob, c[1]
        res = []
        for ob, _ in list(seqs(head0)):
            get = lambda s, ob=ob: s.mem[ob].cells[0][1]
            j = z3.Const('j', IntS)

            def pfx(s, get=get):
                v = get(s)
                return z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < toz(v.n)), z3.And([z3.Select(a, j) == z3.Select(b, j) for a, b in zip(arrs(v), arrs(pre))])))
            res.append(("copied so far", pfx, False))
            for k in mod:
                if k[0] != 'c':
                    continue
                c = head0.mem[k[1]].cells.get(k[2])
                v = c[1] if c is not None else mod[k][1]
                at = lambda s, k=k: s.mem[k[1]].cells[k[2]][1]
                if isinstance(v, EPtr):
                    res.append(("as many as passed", lambda s, at=at, get=get: toz(get(s).n) == toz(at(s).idx), False))
                elif isinstance(v, int) and not isinstance(v, bool) or z3.is_expr(v) and v.sort() == IntS:
                    res.append(("as many as passed", lambda s, at=at, get=get: toz(get(s).n) == toz(at(s)), False))
        return res

    def ochange(self, e, st, pre, v):
        if same(pre, v):
            return
        e.oblige(st, st.ghost['taken'] is None, "orphans are taken in one step")
        e.oblige(st, toz(v.n) == 0, "no orphan is left behind")
        st.ghost['taken'] = pre

    def post(self, e, o, env):
        st = o.st
        e.oblige(st, not st.held, "no mutex is left locked")
        with quiet(e):
            v = e.get_abs(st, env['out'], self.O.t)
        pre = st.ghost['taken']
        if pre is None:
            pre = st.ghost.get('orphans.pre')
            e.oblige(st, pre is not None and toz(pre.n) == 0, "the orphans are taken")
        if pre is not None:
            e.oblige(st, eqv(pre, v), "all orphans are handed over, in order")


def prog():
    return Program(SRCS)


def c21(tier):
    return verify_all(prog(), [Instance(), Ctor(), Buffer('same'), Buffer('new'), Buffer('reuse'), ActiveMap(), Retrieve()], tier)
