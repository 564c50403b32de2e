"""C11: tracepoints emit exactly their own event, and only when enabled."""
import z3
from scv.spec import *
from scv.guard import quiet
from scv.lib_std import cstr
from specs.transport import fld
from specs.trace_config import TC, AB, ABP

STUBS = ['-I/verif/stubs/lttng_ust']
T = 'scalopus_tracing/src/'
LTTNG = [T + 'lttng/lttng_tracepoint.cpp', T + 'lttng/scope_tracepoint_lttng.cpp', T + 'scope_trace_raii.cpp', '/verif/specs/inst/tracepoints.cpp', '/verif/specs/inst/trace_macros.cpp']
NATIVE = [T + 'native/native_tracepoint.cpp', T + 'native/scope_tracepoint_native.cpp', T + 'scope_trace_raii.cpp', T + 'native/tracepoint_collector_native.cpp', '/verif/specs/inst/tracepoints.cpp']
ASSUMPTIONS = [
    "an lttng-ust tracepoint that is executed records its event with the fields its definition lists (the macros are replaced by recording calls that keep event name and field expressions)",
    "std::shared_ptr and std::atomic behave as the standard specifies",
    "the iwanders/cbor submodule is absent here: native tracepoints are verified against a stand-in with the same interface",
]
LEVELS = ['mark_event_global', 'mark_event_process', 'mark_event_thread']


def text(c, st, p):
    v = cstr(c, st, p)
    if v.cst is None:
        raise Unsupported("event name")
    return v.cst.rstrip(b'\0').decode()


class Seq3(FnSpec):
    """three calls of one tracepoint: twice on one thread, with any change of the flags in between, then on another"""
    def __init__(self, kind):
        self.kind, self.qual = kind, 'scv_' + kind
        self.title = dict(entry='scope_entry', exit='scope_exit', mark='mark_event', count='count_event', scope='TraceRAII')[kind]

    def install(self, e):
        e.fresh_process = True

    def setup(self, e, st):
        this = e.new_obj(st, 'configurator', 'param', TC)
        pf = e.new_obj(st, 'process_flag', 'heap')
        tfs = [e.new_obj(st, 'thread_flag%d' % i, 'heap') for i in range(2)]
        g = st.ghost
        g['thread'] = 0
        g['ev'] = ()
        g['cur'] = None
        g['seg'] = 0

        def flags(st):
            with quiet(e):
                vs = []
                for f in [pf] + tfs:
                    x = fresh('flag')
                    st.fact(z3.And(x >= 0, x <= 1))
                    e.store(st, f, x, 1)
                    vs.append(x)
            st.ghost['flags'] = tuple(vs)
        flags(st)

        def give(ptr, cls):
            def f(c, st):
                with quiet(e):
                    e.put_abs(st, c.sret, Ref('shared_ptr', cls, ptr(st)), 'std::shared_ptr<%s>' % cls)
            return f
        e.contracts[TC + '::getInstance'] = give(lambda st: this, TC)
        e.contracts[TC + '::getProcessStatePtr'] = give(lambda st: pf, AB)
        e.contracts[TC + '::getThreadStatePtr'] = give(lambda st: tfs[st.ghost['thread']], AB)

        def event(c, st):
            e.oblige(st, st.ghost['cur'] is None, "events do not nest")
            st.ghost['cur'] = (text(c, st, c.args[0]), text(c, st, c.args[1]), ())

        def field(c, st):
            p, n, fs = st.ghost['cur']
            st.ghost['cur'] = (p, n, fs + ((text(c, st, c.args[0]), toz(c.args[1]), c.args[2]),))

        def end(c, st):
            st.ghost['ev'] = st.ghost['ev'] + (st.ghost['cur'],)
            st.ghost['cur'] = None

        def step(c, st):
            self.segment(e, st)
            flags(st)

        def new_thread(c, st):
            self.segment(e, st)
            st.ghost['thread'] = 1
            e.reset_tls(st)
            flags(st)
        e.handlers.update(scv_event=event, scv_field=field, scv_event_end=end, scv_step=step, scv_new_thread=new_thread)
        self.args = []
        for i in range(1 if self.kind == 'scope' else 3):
            x = z3.Const('id%d' % i, IntS)
            st.fact(z3.And(x >= 0, x < 2 ** 32))
            a = [x]
            if self.kind == 'mark':
                l = z3.Const('level%d' % i, IntS)
                st.fact(z3.And(l >= 0, l <= 2))
                a.append(l)
            if self.kind == 'count':
                v = z3.Const('value%d' % i, IntS)
                st.fact(z3.And(v >= -2 ** 63, v < 2 ** 63))
                a.append(v)
            self.args.append(a)
        return [x for a in self.args for x in a], {}

    def decode(self, e, st, ev):
        """-> (name, id, value or None, well formed)"""
        p, n, fs = ev
        d = {k: (v, w) for k, v, w in fs}
        ok = p == 'scalopus_scope_id' and len(d) == len(fs)
        if n == 'count_event':
            ok = ok and set(d) == {'id', 'value'} and d['value'][1] == 8
        else:
            ok = ok and set(d) == {'id'}
        ok = ok and d['id'][1] == 4
        return n, d['id'][0] if 'id' in d else None, d['value'][0] if 'value' in d else None, ok

    def value(self, e, v, x):
        return v == x

    def segment(self, e, st):
        g = st.ghost
        k = g['seg']
        g['seg'] = k + 1
        evs = g['ev']
        g['ev'] = ()
        fl = g['flags']
        on = z3.And(fl[0] == 1, fl[1 + g['thread']] == 1)
        a = self.args[k] if self.kind != 'scope' else self.args[0]
        what = self.title
        e.oblige(st, on == z3.BoolVal(len(evs) > 0), "%s emits when both flags are enabled and nothing otherwise" % what)
        e.oblige(st, len(evs) <= 1, "%s emits one event" % what)
        for ev in evs[:1]:
            n, i, v, ok = self.decode(e, st, ev)
            e.oblige(st, ok and i is not None, "%s: the event carries its fields" % what)
            if i is None:
                continue
            e.oblige(st, i == a[0], "%s: the event carries the given id" % what)
            if self.kind == 'mark':
                e.oblige(st, z3.BoolVal(False) if n not in LEVELS else a[1] == LEVELS.index(n), "mark_event: the event is of the given level")
            elif self.kind == 'count':
                e.oblige(st, n == 'count_event', "count_event: the event is a counter event")
                e.oblige(st, self.value(e, v, a[1]) if v is not None else False, "count_event: the event carries the given value")
            else:
                want = 'scope_exit' if self.kind == 'exit' or self.kind == 'scope' and k == 1 else 'scope_entry'
                e.oblige(st, n == want, "%s: the event is %s" % (what, want))

    def post(self, e, o, env):
        self.segment(e, o.st)
        e.oblige(o.st, o.st.ghost['seg'] == (2 if self.kind == 'scope' else 3), "every call returns")


class Macro(Seq3):
    """a public macro: the event and its id, and that the id is registered under the given name"""
    KINDS = dict(raii=(['scope_entry', 'scope_exit'], ['alpha', 'alpha']), pretty=(['scope_entry', 'scope_exit'], ['void scv_m_pretty()'] * 2),
                 pair=(['scope_entry', 'scope_exit'], ['beta', 'beta']),
                 mark=(LEVELS, ['gamma', 'delta', 'epsilon']), count=(['count_event', 'count_event'], ['zeta/eta', 'theta/']))

    def __init__(self, kind):
        self.kind, self.qual = kind, 'scv_m_' + kind
        self.title = 'the %s macro' % dict(raii='TRACE_SCOPE_RAII', pretty='TRACE_PRETTY_FUNCTION', pair='TRACE_SCOPE_START/END', mark='TRACE_MARK_EVENT', count='TRACE_COUNT')[kind]

    def setup(self, e, st):
        super().setup(e, st)
        st.ghost['names'] = ()
        tr = e.new_obj(st, 'tracker', 'param')
        e.contracts['scalopus::StaticStringTracker::getInstance'] = lambda c, st: tr

        def insert(c, st):
            i, n = toz(e.load(st, c.args[1], e.mkint(32))), e.get_abs(st, c.args[2], 'std::string')
            if n.cst is None:
                raise Unsupported("registered name")
            st.ghost['names'] = st.ghost['names'] + ((i, n.cst.rstrip(b'\0').decode()),)
        e.contracts['scalopus::MapTracker::insert'] = insert
        self.args = []
        if self.kind == 'count':
            for i in range(2):
                v = z3.Const('value%d' % i, IntS)
                st.fact(z3.And(v >= -2 ** 31, v < 2 ** 31))
                self.args.append(v)
        return list(self.args), {}

    def segment(self, e, st):
        g = st.ghost
        k = g['seg']
        g['seg'] = k + 1
        evs, g['ev'] = g['ev'], ()
        fl = g['flags']
        on = z3.And(fl[0] == 1, fl[1] == 1)
        kinds, names = self.KINDS[self.kind]
        e.oblige(st, on == z3.BoolVal(len(evs) == 1), "%s emits one event when both flags are enabled and nothing otherwise" % self.title)
        for ev in evs[:1]:
            n, i, v, ok = self.decode(e, st, ev)
            e.oblige(st, ok and i is not None and n == kinds[k], "%s emits %s" % (self.title, kinds[k]))
            if i is None:
                continue
            reg = [x for x, m in g['names'] if m == names[k]]
            e.oblige(st, z3.And(z3.BoolVal(len(reg) > 0), z3.Or([i == x for x in reg])), "%s: the event's id is registered under the given name" % self.title)
            e.oblige(st, z3.And([z3.Implies(x == i, z3.BoolVal(m == names[k])) for x, m in g['names']]), "%s: the event's id is registered under no other name" % self.title)
            if self.kind == 'count' and v is not None:
                e.oblige(st, v == self.args[k], "%s emits the given value" % self.title)

    def post(self, e, o, env):
        self.segment(e, o.st)
        e.oblige(o.st, o.st.ghost['seg'] == len(self.KINDS[self.kind][0]), "every call returns")


TPC = 'scalopus::TracePointCollectorNative'
EV = 'scalopus::tracepoint_collector_types::StaticTraceEvent'
RB = 'scalopus::SPSCRingBuffer<std::vector<%s>>' % EV
DATA = 'std::vector<unsigned char>'
NAMES = {1: 'scope_entry', 2: 'scope_exit', 3: 'mark_event_global', 4: 'mark_event_process', 5: 'mark_event_thread', 6: 'count_event'}


class Native(Seq3):
    """the same for the native tracepoints: an event is what is pushed into the calling thread's ring buffer"""
    def __init__(self, kind):
        super().__init__(kind)
        self.title = 'native::' + self.title

    def setup(self, e, st):
        r = super().setup(e, st)
        col = e.new_obj(st, 'collector', 'param', TPC)
        bufs = [e.new_obj(st, 'buffer%d' % i, 'heap') for i in range(2)]

        def inst(c, st):
            with quiet(e):
                e.put_abs(st, c.sret, Ref('shared_ptr', TPC, col), 'std::shared_ptr<%s>' % TPC)

        def getb(c, st):
            with quiet(e):
                e.put_abs(st, c.sret, Ref('shared_ptr', RB, bufs[st.ghost['thread']]), 'std::shared_ptr<%s>' % RB)
        e.contracts[TPC + '::getInstance'] = inst
        e.contracts[TPC + '::getBuffer'] = getb

        def push(c, st):
            b, p = c.args[0], c.args[1]
            e.oblige(st, z3.BoolVal(isinstance(b, Ptr) and b.obj == bufs[st.ghost['thread']].obj), "events go to the calling thread's buffer")
            f = lambda n, w: e.load(st, e.shift(p, fld(e, EV, n)[0]), e.mkint(w))
            ty = f('trace_type', 8)
            o, t = fld(e, EV, 'dynamic_data')
            d = e.get_abs(st, e.shift(p, o), t)
            data = None if isinstance(d.p, Ptr) and d.p.obj is None else e.blob_of(st, e.get_abs(st, d.p, DATA))
            st.ghost['ev'] = st.ghost['ev'] + (dict(id=toz(f('trace_id', 32)), type=toz(ty), data=data),)
            return fresh('pushed', BoolS)
        e.contracts['scalopus::SPSCRingBuffer::push'] = push
        enc = z3.Function('cbor_int', IntS, Blob)

        def object(c, st):
            if [norm(x) for x in c.sig.params] not in (['long const&'], ['long&'], ['const long&']):
                raise Unsupported("cbor_object(%s)" % c.sig.params)
            v = toz(e.load(st, c.args[1], e.mkint(64)))
            with quiet(e):
                e.put_abs(st, e.shift(c.args[0], fld(e, 'cbor::cbor_object', 'data_')[0]), e.unpack_leaf(st, DATA, [enc(v)]), DATA)
        e.contracts['cbor::cbor_object::cbor_object'] = object
        self.enc = enc
        return r

    def decode(self, e, st, ev):
        t = z3.simplify(ev['type'])
        if not z3.is_int_value(t) or t.as_long() not in NAMES:
            return None, None, None, False
        n = NAMES[t.as_long()]
        return n, ev['id'], ev['data'], n == 'count_event' or ev['data'] is None

    def value(self, e, v, x):
        return v == self.enc(x)


def c11(tier):
    P = Program(LTTNG, STUBS)
    r = verify_all(P, [Seq3(k) for k in ('entry', 'exit', 'mark', 'count', 'scope')] + [Macro(k) for k in ('raii', 'pretty', 'pair', 'mark', 'count')], tier)
    P = Program(NATIVE)
    return r + verify_all(P, [Native(k) for k in ('entry', 'exit', 'mark', 'count', 'scope')], tier)
