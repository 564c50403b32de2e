"""C16: LttngSource."""
import z3
from scv.spec import *
from scv.lib_std import PTR, mkey, Closure
from scv.guard import quiet
from specs.map_tracker import arrs
from specs.transport import fld
from specs.babeltrace import EC, CE

LS = 'scalopus::LttngSource'
BT = 'scalopus::BabeltraceTool'
SPC = 'std::shared_ptr<%s>' % EC
EVS = 'std::vector<%s>' % CE
JS = 'std::vector<nlohmann::json>'
FUN = 'std::function<void (const %s &)>' % CE
SRCS = ['scalopus_tracing/src/lttng/lttng_source.cpp']
ASSUMPTIONS = [
    "a recording callback is called between addCallback() and the end of disable() only, with every event read (proved for BabeltraceParser under C23)",
    "the interval is started, stopped and finished by one thread",
]


def covers(e, base, size, p):
    while isinstance(p, EPtr) and p.cont != HEAP:
        p = p.cont
    return isinstance(p, Ptr) and p.obj == base.obj and base.off <= p.off < base.off + size


class LSS(FnSpec):
    def install(self, e):
        self.e = e
        e.T.opaque.add(CE)

    def this(self, e, st):
        this = e.new_obj(st, 'source', 'param', LS)
        e.take_addr(this)
        self.me = this
        o, t = fld(e, LS, 'events_', lambda t: t == EVS)
        self.ev = e.shift(this, o)
        if t != EVS:
            raise Unsupported("representation of the events changed: " + t)
        o, t = fld(e, LS, 'callback_', lambda t: t == SPC)
        self.cb = e.shift(this, o)
        if t != SPC:
            raise Unsupported("representation of the callback changed: " + t)
        o, t = fld(e, LS, 'tool_')
        self.tool = toz(e.ptr_to_int(e.get_abs(st, e.shift(this, o), t).p))
        st.fact(self.tool != 0)
        v = self.events(e, st)
        st.fact(z3.And(toz(v.n) >= 0, toz(v.n) < 2 ** 48))
        g = st.ghost
        g['cb0'] = self.callback(e, st)
        g['ev0'] = v
        st.fact(g['cb0'] >= 0)
        g['running'] = g['cb0'] != 0        # a callback is registered and may be called at any time by the reader
        g['disabled'] = z3.BoolVal(False)
        g['added'] = g['converted'] = z3.IntVal(0)
        g['new'] = z3.IntVal(0)

        def access(e, st, p, write, what):
            if g_inside[0] or not covers(e, self.ev, e.T.size(EVS), p):
                return
            e.oblige(st, z3.Not(st.ghost['running']), "the events are not touched while the reader may record one")
        g_inside = [False]
        e.on_access = access

        def disable(c, st):
            g = st.ghost
            x = toz(e.ptr_to_int(c.args[0]))
            e.oblige(st, z3.And(x != 0, x == z3.If(g['added'] == 0, g['cb0'], g['new'])), "the callback disabled is the one registered")
            # until then the reader may have recorded more
            with quiet(e):
                v = e.fresh_leaf(st, EVS, 'recorded')
                st.fact(z3.And(toz(v.n) >= 0, toz(v.n) < 2 ** 48))
                e.put_abs(st, self.ev, v, EVS)
            g['ev0'] = v
            g['running'] = z3.BoolVal(False)
            g['disabled'] = z3.BoolVal(True)
        e.contracts[EC + '::disable'] = disable

        def add(c, st):
            g = st.ghost
            e.oblige(st, toz(e.ptr_to_int(c.args[0])) == self.tool, "the callback is registered with the source's tool")
            e.oblige(st, z3.Not(g['running']), "the previous callback is disabled first")
            e.oblige(st, toz(self.events(e, st).n) == 0, "no event of an earlier interval is left")
            g['added'] = g['added'] + 1
            e.oblige(st, g['added'] == 1, "one callback is registered")
            # what the callback does with an event, whatever was recorded so far
            f = e.get_abs(st, c.args[1], FUN)
            if not isinstance(f, Closure):
                raise Unsupported("which callback is registered")
            s = st.copy()
            v = e.fresh_leaf(s, EVS, 'recorded')
            s.fact(z3.And(toz(v.n) >= 0, toz(v.n) < 2 ** 48))
            e.put_abs(s, self.ev, v, EVS)
            ev = e.new_obj(s, 'event', 'param', CE)
            x = toz(e.get_abs(s, ev, CE).parts[0])
            g_inside[0] = True
            res = e.run(s, e.P.defs[f.fn], [Ptr(f.obj, 0), ev], c.fr.depth + 1)
            g_inside[0] = False
            for o in res:
                if o.exc is not None:
                    e.oblige(o.st, False, "no exception leaves the recording callback")
                    continue
                w = self.events(e, o.st)
                j = z3.Const('j', IntS)
                n = toz(v.n)
                a, b = arrs(v)[0], arrs(w)[0]
                e.oblige(o.st, z3.And(toz(w.n) == n + 1, z3.Select(b, n) == x, z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n), z3.Select(a, j) == z3.Select(b, j)))), "an event read during the interval is recorded after those before it")
            r = fresh('callback')
            st.fact(r > 0)
            g['new'] = r
            g['running'] = z3.BoolVal(True)
            e.put_abs(st, c.sret, Ref('shared_ptr', EC, e.int_to_ptr(r)), SPC)
        e.contracts[BT + '::addCallback'] = add

        def conv(c, st):
            g = st.ghost
            e.oblige(st, z3.Not(g['running']), "no event is recorded while the recorded ones are converted")
            v, w = g['ev0'], self.events(e, st)
            e.oblige(st, z3.BoolVal(True) if same(v, w) else z3.And(toz(v.n) == toz(w.n), arrs(v)[0] == arrs(w)[0]), "all events recorded are converted")
            g['converted'] = g['converted'] + 1
            r = e.fresh_leaf(st, JS, 'entries')
            st.fact(z3.And(toz(r.n) >= 0, toz(r.n) < 2 ** 48))
            g['entries'] = r
            e.put_abs(st, c.sret, r, JS)
        e.contracts[LS + '::convertEvents'] = conv
        return this

    def events(self, e, st):
        with quiet(e):
            return e.get_abs(st, self.ev, EVS)

    def callback(self, e, st):
        with quiet(e):
            return toz(e.ptr_to_int(e.get_abs(st, self.cb, SPC).p))

    def stopped(self, e, st, what):
        g = st.ghost
        e.oblige(st, z3.Not(g['running']), what + ", and has returned")
        e.oblige(st, z3.Implies(g['cb0'] != 0, g['disabled']), what)


class Start(LSS):
    qual, nparams, title = LS + '::startInterval', 0, 'LttngSource::startInterval'

    def setup(self, e, st):
        return [self.this(e, st)], {}

    def post(self, e, o, env):
        st = o.st
        g = st.ghost
        e.oblige(st, g['added'] == 1, "recording starts")
        e.oblige(st, z3.And(g['running'], self.callback(e, st) == g['new']), "the callback registered is the one kept")
        e.oblige(st, toz(self.events(e, st).n) == 0, "the interval starts empty")


class Stop(LSS):
    qual, nparams, title = LS + '::stopInterval', 0, 'LttngSource::stopInterval'

    def setup(self, e, st):
        return [self.this(e, st)], {}

    def post(self, e, o, env):
        st = o.st
        self.stopped(e, st, "stopping disables the callback")
        e.oblige(st, self.callback(e, st) == 0, "no callback is kept")
        v, w = st.ghost['ev0'], self.events(e, st)
        e.oblige(st, z3.BoolVal(True) if same(v, w) else z3.And(toz(v.n) == toz(w.n), arrs(v)[0] == arrs(w)[0]), "what was recorded is kept")


class Finish(LSS):
    qual, nparams, title = LS + '::finishInterval', 0, 'LttngSource::finishInterval'

    def setup(self, e, st):
        this = self.this(e, st)
        out = e.new_obj(st, 'out', 'local')
        return [out, this], dict(out=out)

    def post(self, e, o, env):
        st = o.st
        self.stopped(e, st, "finishing disables the callback")
        g = st.ghost
        e.oblige(st, g['converted'] == 1, "the events are converted")
        if 'entries' in g:
            v, w = g['entries'], e.get_abs(st, env['out'], JS)
            e.oblige(st, z3.BoolVal(True) if same(v, w) else z3.And(toz(v.n) == toz(w.n), arrs(v)[0] == arrs(w)[0]), "the entries converted are returned")


class Dtor(LSS):
    qual, nparams, title = LS + '::~LttngSource', 0, 'LttngSource::~LttngSource'

    def setup(self, e, st):
        return [self.this(e, st)], {}

    def post(self, e, o, env):
        self.stopped(e, o.st, "destruction disables the callback")


def prog():
    return Program(SRCS)


def c16(tier):
    return verify_all(prog(), [Start(), Stop(), Finish(), Dtor()], tier)
