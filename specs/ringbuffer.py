"""C03, C04: the ring buffer (instantiations in specs/inst/ringbuffer.cpp; the template code is /repo's).

Representation: container of N >= 1 slots, r = read index, w = write index, c = number of unread values, 0 <= c <= N-1,
w = wrap(r + c); the abstract queue is Q[0..c) with container[wrap(r + j)] = Q[j].
C03 proves every operation against the abstract queue; C04 redoes it under interference of the other thread, with
happens-before knowledge gained only by acquire loads and given away only by release stores.
"""
import z3
from scv.spec import *
from scv import types as T

SRCS = ['/verif/specs/inst/ringbuffer.cpp']
EV = 'scalopus::tracepoint_collector_types::StaticTraceEvent'
ELEMS = ['unsigned long', EV]
ASSUMPTIONS = [
    "container of fewer than 2^62 elements",
    "verified for element types unsigned long and the repository's StaticTraceEvent in a std::vector; the template code is the same for others",
]


def wrap(x, n):
    return z3.If(x >= 2 * n, x - 2 * n, z3.If(x >= n, x - n, x))


def dist(i, r, n):
    """steps forward from index r to index i"""
    return z3.If(i >= r, i - r, i - r + n)


def J():
    return z3.Const('j', IntS)


class RB(FnSpec):
    """common symbolic pre-state"""
    elem = None
    meth = None
    conc = None          # None: sequential (C03); 'producer' / 'consumer': C04

    def __init__(self, elem, conc=None):
        self.elem = elem
        self.conc = conc
        self.ct = 'std::vector<%s>' % elem
        self.rb = 'scalopus::SPSCRingBuffer<%s>' % self.ct
        self.qual = 'scalopus::SPSCRingBuffer::' + self.meth
        self.cls = None
        self.title = '%s::%s%s' % (self.rb.split('::', 1)[1], self.meth, ' (%s)' % conc if conc else '')

    def pred(self, s):
        # exactly the instantiation for this element type
        return self.elem in s.cls if self.elem == EV else EV not in s.cls

    def fields(self, e):
        r = [e.L.field(self.rb, f) for f in ('write_index_', 'read_index_', 'container_')]
        if any(x is None for x in r):
            raise Unsupported("ring buffer representation changed")
        ms = e.L.field(self.rb, 'max_size_')
        return [x[0] for x in r] + [ms[0] if ms else None]

    def seqleaves(self, s):
        return [a for o, l, arrs in s.leaves for a in arrs]

    def state(self, e, st):
        ow, orr, oc, om = self.fields(e)
        self.offs = (ow, orr, oc, om)
        this = e.new_obj(st, 'ring', 'param', self.rb)
        seq = e.get_abs(st, e.shift(this, oc), self.ct)
        N, r, c = z3.Const('N', IntS), z3.Const('r0', IntS), z3.Const('c0', IntS)
        st.fact(z3.And(toz(seq.n) == N, N >= 1, N < 2 ** 62, r >= 0, r < N, c >= 0, c <= N - 1))
        w = wrap(r + c, N)
        e.store(st, e.shift(this, ow), w, 8)
        e.store(st, e.shift(this, orr), r, 8)
        if om is not None:
            e.store(st, e.shift(this, om), N, 8)
        Q = [z3.Const('Q%d' % i, a.sort()) for i, a in enumerate(self.seqleaves(seq))]
        j = J()
        for q, a in zip(Q, self.seqleaves(seq)):
            st.fact(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < N, dist(j, r, N) < c), z3.Select(a, j) == z3.Select(q, dist(j, r, N))), patterns=[z3.Select(a, j)]))
        self.this = this
        env = dict(this=this, N=N, r=r, c=c, w=w, Q=Q, seq=seq)
        if self.conc:
            st.ghost['rb.r'] = r
            st.ghost['rb.c'] = c            # unread values the thread may rely on (known through happens-before)
            st.ghost['rb.oc'] = c           # count according to the last value observed, ordered or not
            st.ghost['rb.moved'] = z3.IntVal(0)   # values published / consumed so far
            st.ghost['rb.seen'] = z3.BoolVal(False)   # full (producer) / empty (consumer) was observed
            st.ghost['rb.avail'] = z3.IntVal(0)
        return this, env

    # ---- C04: the atomics
    def install(self, e):
        e.invariants.append(self.loop_invs)
        if not self.conc:
            return
        spec = self
        own = {'producer': 0, 'consumer': 1}[self.conc]

        def which(p):
            if isinstance(p, Ptr) and p.obj == spec.this.obj:
                if p.off == spec.offs[0]:
                    return 0
                if p.off == spec.offs[1]:
                    return 1
            return None

        ACQ = ('acquire', 'acq_rel', 'seq_cst')
        REL = ('release', 'acq_rel', 'seq_cst')

        def vals(st):
            g = st.ghost
            return g['rb.r'], g['rb.c'], z3.Const('N', IntS)

        def load_other(e, st, order):
            r, c, N = vals(st)
            a = fresh('adv')
            if spec.conc == 'producer':
                # the consumer has consumed a more of the unread values
                st.fact(z3.And(a >= 0, a <= c))
                nr, nc = wrap(r + a, N), c - a
                st.ghost['rb.seen'] = z3.Or(st.ghost['rb.seen'], nc == N - 1)
                val = nr
                if order in ACQ:
                    st.ghost['rb.r'], st.ghost['rb.c'] = nr, nc
                else:
                    st.ghost['rb.pend'] = a
            else:
                st.fact(z3.And(a >= 0, a <= N - 1 - c))
                nc = c + a
                val = wrap(r + nc, N)
                st.ghost['rb.seen'] = z3.Or(st.ghost['rb.seen'], nc == 0)
                st.ghost['rb.avail'] = nc
                if order in ACQ:
                    take(e, st, nc)
                else:
                    st.ghost['rb.pend'] = a
            v = fresh('idx')
            st.fact(v == val)
            return v

        def take(e, st, nc):
            """consumer learns that nc values are published: the slots now hold them"""
            r, c, N = vals(st)
            p = e.shift(spec.this, spec.offs[2])
            h, e.on_access = e.on_access, None
            seq = e.get_abs(st, p)
            j = J()
            nl = []
            i = 0
            m = st.ghost['rb.moved']
            for o, l, arrs in seq.leaves:
                na = []
                for a in arrs:
                    b = fresh('slots', a.sort())
                    # own slots unchanged, newly published ones hold the values pushed
                    k = z3.Const('k', IntS)
                    st.fact(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < N, z3.Or(dist(k, r, N) < c, dist(k, r, N) == N - 1)), z3.Select(b, k) == z3.Select(a, k)), patterns=[z3.Select(b, k)]))
                    q = env_Q[0][i]
                    st.fact(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < N, dist(k, r, N) >= c, dist(k, r, N) < nc), z3.Select(b, k) == z3.Select(q, dist(k, r, N) + m)), patterns=[z3.Select(b, k)]))
                    na.append(b)
                    i += 1
                nl.append((o, l, na))
            e.put_abs(st, p, Seq(seq.elem, seq.n, nl))
            e.on_access = h
            st.ghost['rb.c'] = nc

        env_Q = self.env_Q = [None]

        def atomic(e, st, kind, p, v, order, ty):
            if kind == 'fence':
                if order in ACQ and 'rb.pend' in st.ghost:
                    r, c, N = vals(st)
                    a = st.ghost.pop('rb.pend')
                    if spec.conc == 'producer':
                        st.ghost['rb.r'], st.ghost['rb.c'] = wrap(r + a, N), c - a
                    else:
                        take(e, st, c + a)
                if order in REL:
                    st.ghost['rb.relfence'] = z3.BoolVal(True)
                return None
            i = which(p)
            if i is None:
                return None
            if kind == 'load':
                if i == own:
                    h, e.on_access = e.on_access, None
                    r_ = e.load(st, p, ty)
                    e.on_access = h
                    return r_
                return load_other(e, st, order)
            if kind == 'store':
                e.oblige(st, i == own, "each index is stored only by its own side")
                rf = st.ghost.get('rb.relfence')
                e.oblige(st, order in REL or rf is not None, "the index is published with release order")
                publish(e, st, p, v)
                return True
            raise Unsupported("atomic " + kind)

        def publish(e, st, p, v):
            r, c, N = vals(st)
            v = toz(v)
            p_c = e.shift(spec.this, spec.offs[2])
            h, e.on_access = e.on_access, None
            seq = e.get_abs(st, p_c)
            if spec.conc == 'producer':
                w = wrap(r + c, N)
                m = fresh('pubn')
                st.fact(m == dist(v, w, N))
                e.oblige(st, z3.And(v >= 0, v < N), "published index is a slot index")
                e.oblige(st, m <= N - 1 - c, "never publishes beyond the free slots")
                j = J()
                mv = st.ghost['rb.moved']
                for a, q in zip(spec.seqleaves(seq), spec.inputs):
                    e.oblige(st, z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < m), z3.Select(a, wrap(w + j, N)) == q)),
                             "every slot published holds the value pushed")
                st.ghost['rb.moved'] = mv + m
                st.ghost['rb.c'] = c + m
            else:
                m = fresh('popn')
                st.fact(m == dist(v, r, N))
                e.oblige(st, z3.And(v >= 0, v < N), "published index is a slot index")
                e.oblige(st, m <= c, "never releases slots beyond the values known to be published")
                st.ghost['rb.moved'] = st.ghost['rb.moved'] + m
                st.ghost['rb.r'] = wrap(r + m, N)
                st.ghost['rb.c'] = c - m
            e.store(st, p, v, 8)
            e.on_access = h

        def access(e, st, p, write, what):
            if isinstance(p, EPtr) and isinstance(p.cont, Ptr) and p.cont.obj == spec.this.obj and p.cont.off == spec.offs[2]:
                r, c, N = vals(st)
                d = dist(toz(p.idx), r, N)
                if spec.conc == 'producer':
                    e.oblige(st, z3.And(toz(p.idx) >= 0, toz(p.idx) < N, d >= c, d <= N - 2), "the producer touches only slots it owns (free, and known to be)")
                else:
                    e.oblige(st, z3.And(toz(p.idx) >= 0, toz(p.idx) < N, z3.Or(d < c, d == N - 1)), "the consumer touches only slots whose values were published to it (or the one slot kept empty)")
            elif isinstance(p, Ptr) and p.obj == spec.this.obj and which(p) is not None:
                e.oblige(st, False, "the indices are accessed atomically only")
        e.on_atomic = atomic
        self._access = access

    def arm(self, e, env):
        if self.conc:
            self.env_Q[0] = env['Q']
            e.on_access = self._access

    def loop_invs(self, e, fr, head0, st, mod):
        """pool: values appended to an output sequence since loop entry are the queue's next values"""
        res = []
        env = getattr(self, 'env', None)
        if env is None:
            return res
        j = J()
        N = env['N']
        ints = []
        for key in mod:
            if key[0] != 'c':
                continue
            o = head0.mem.get(key[1])
            cc = o.cells.get(key[2]) if o is not None else None
            if cc is None:
                continue
            v = cc[1]
            if (isinstance(v, int) and not isinstance(v, bool)) or (isz(v) and v.sort() == IntS):
                ints.append((key, v))
        def seqs():
            out = env.get('out')
            if out is not None:
                yield ('out', ('c', out.obj, out.off))
        for nm, key in seqs():
            if key not in mod:
                continue
            v = head0.mem[key[1]].cells[key[2]][1]
            n0 = toz(v.n)
            get = lambda s, key=key: s.mem[key[1]].cells[key[2]][1]
            res.append(("out does not shrink", lambda s, get=get, n0=n0: toz(get(s).n) >= n0, False))
            for i, q in enumerate(env['Q']):
                res.append(("appended values are the queue's", lambda s, get=get, n0=n0, i=i, q=q: z3.ForAll([j], z3.Implies(
                    z3.And(j >= n0, j < toz(get(s).n)), z3.Select(self.seqleaves(get(s))[i], j) == z3.Select(q, j - n0)), patterns=[z3.Select(self.seqleaves(get(s))[i], j)]), False))
                res.append(("earlier values stay", lambda s, get=get, n0=n0, i=i, v=v: z3.ForAll([j], z3.Implies(
                    z3.And(j >= 0, j < n0), z3.Select(self.seqleaves(get(s))[i], j) == z3.Select(self.seqleaves(v)[i], j)), patterns=[z3.Select(self.seqleaves(get(s))[i], j)]), False))
            for k2, v0 in ints:
                gi = lambda s, k2=k2: toz(s.mem[k2[1]].cells[k2[2]][1])
                z0 = toz(v0)
                res.append(("counter follows the output", lambda s, get=get, n0=n0, gi=gi, z0=z0: gi(s) - z0 == toz(get(s).n) - n0, False))
                res.append(("remaining follows the output", lambda s, get=get, n0=n0, gi=gi, z0=z0: z0 - gi(s) == toz(get(s).n) - n0, False))
                res.append(("index follows the output (wrapped)", lambda s, get=get, n0=n0, gi=gi, z0=z0: gi(s) == wrap(z0 + toz(get(s).n) - n0, N), False))
            # slots not yet moved out are still the queue's
            ck = ('c', self.this.obj, self.offs[2])
            if ck in mod:
                gs = lambda s: s.mem[ck[1]].cells[ck[2]][1]
                cnt = lambda s, get=get, n0=n0: toz(get(s).n) - n0
                cc = (lambda s: s.ghost['rb.c']) if self.conc else (lambda s: env['c'])
                for i, q in enumerate(env['Q']):
                    res.append(("slots not yet read are intact", lambda s, i=i, q=q, cnt=cnt: z3.ForAll([j], z3.Implies(
                        z3.And(j >= 0, j < N, dist(j, env['r'], N) >= cnt(s), dist(j, env['r'], N) < cc(s)), z3.Select(self.seqleaves(gs(s))[i], j) == z3.Select(q, dist(j, env['r'], N))),
                        patterns=[z3.Select(self.seqleaves(gs(s))[i], j)]), False))
                res.append(("capacity", lambda s: toz(gs(s).n) == N, False))
        return res

    # ---- helpers for postconditions
    def cells(self, e, st, env):
        h, e.on_access = e.on_access, None
        w = e.load(st, e.shift(env['this'], self.offs[0]), e.mkint(64))
        r = e.load(st, e.shift(env['this'], self.offs[1]), e.mkint(64))
        s = e.get_abs(st, e.shift(env['this'], self.offs[2]))
        om = self.offs[3]
        m = e.load(st, e.shift(env['this'], om), e.mkint(64)) if om is not None else env['N']
        e.on_access = h
        return toz(w), toz(r), s, toz(m)

    def abstract(self, e, st, env, r, c, Q, what):
        """the post-state represents queue Q[0..c) at read index r"""
        w2, r2, s2, m2 = self.cells(e, st, env)
        N = env['N']
        j = J()
        e.oblige(st, z3.And(toz(s2.n) == N, m2 == N), "frame: capacity unchanged")
        e.oblige(st, r2 == r, what + ": read position")
        e.oblige(st, w2 == wrap(r + c, N), what + ": write position")
        for a, q in zip(self.seqleaves(s2), Q):
            e.oblige(st, z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < N, dist(j, r, N) < c), z3.Select(a, j) == q(dist(j, r, N)))), what + ": stored values")


def keep(Q, off=0):
    return [(lambda j, q=q: z3.Select(q, j + off)) for q in Q]


def leaf_terms(e, st, p, t):
    ts = []
    h, e.on_access = e.on_access, None
    for o, l, v in e.read_val(st, p, t):
        ts += e.pack_leaf(st, l, v)
    e.on_access = h
    return ts


class Push(RB):
    meth = 'push'
    nparams = 1

    def setup(self, e, st):
        this, env = self.state(e, st)
        v = e.new_obj(st, 'v', 'param', self.elem)
        env['vt'] = leaf_terms(e, st, v, self.elem)
        self.inputs = env['vt']
        env['v'] = v
        self.env = env
        self.arm(e, env)
        return [this, v], env

    def post(self, e, o, env):
        st, N, r, c, Q = o.st, env['N'], env['r'], env['c'], env['Q']
        e.on_access = None
        ret = tob(e.to_bool(o.ret))
        if self.conc:
            mv = st.ghost['rb.moved']
            e.oblige(st, z3.Implies(ret, mv == 1), "accepted push publishes exactly one value")
            e.oblige(st, z3.Implies(z3.Not(ret), mv == 0), "rejected push publishes nothing")
            e.oblige(st, z3.Implies(z3.Not(ret), st.ghost['rb.seen']), "push is rejected only if the buffer was full at some moment of the call")
            w2, _, s2, _ = self.cells(e, st, env)
            e.oblige(st, w2 == wrap(env['w'] + mv, N), "own index is what was published")
            return
        e.oblige(st, ret == (c < N - 1), "push is accepted exactly when the buffer is not full")
        a, b = st.copy(), st.copy()
        a.branch(ret)
        if e.feasible(a):
            newQ = [(lambda j, q=q, t=t: z3.If(j == c, t, z3.Select(q, j))) for q, t in zip(Q, env['vt'])]
            self.abstract(e, a, env, r, c + 1, newQ, "accepted push appends the value")
        b.branch(z3.Not(ret))
        if e.feasible(b):
            self.abstract(e, b, env, r, c, keep(Q), "rejected push changes nothing")
            for x, y in zip(leaf_terms(e, b, env['v'], self.elem), env['vt']):
                e.oblige(b, x == y, "rejected push leaves the value with the caller")


class Pop(RB):
    meth = 'pop'
    nparams = 1

    def setup(self, e, st):
        this, env = self.state(e, st)
        v = e.new_obj(st, 'v', 'param', self.elem)
        env['vt'] = leaf_terms(e, st, v, self.elem)
        env['v'] = v
        self.env = env
        self.arm(e, env)
        return [this, v], env

    def post(self, e, o, env):
        st, N, r, c, Q = o.st, env['N'], env['r'], env['c'], env['Q']
        e.on_access = None
        ret = tob(e.to_bool(o.ret))
        vt = leaf_terms(e, st, env['v'], self.elem)
        if self.conc:
            mv = st.ghost['rb.moved']
            e.oblige(st, z3.Implies(ret, mv == 1), "successful pop consumes exactly one value")
            e.oblige(st, z3.Implies(z3.Not(ret), mv == 0), "failed pop consumes nothing")
            e.oblige(st, z3.Implies(z3.Not(ret), st.ghost['rb.seen']), "pop fails only if the buffer was empty at some moment of the call")
            for x, q in zip(vt, Q):
                e.oblige(st, z3.Implies(ret, x == z3.Select(q, 0)), "popped value is the oldest unread one")
            _, r2, _, _ = self.cells(e, st, env)
            e.oblige(st, r2 == wrap(r + mv, N), "own index is what was published")
            return
        e.oblige(st, ret == (c > 0), "pop succeeds exactly when a value is stored")
        a, b = st.copy(), st.copy()
        a.branch(ret)
        if e.feasible(a):
            for x, q in zip(vt, Q):
                e.oblige(a, x == z3.Select(q, 0), "popped value is the oldest one")
            self.abstract(e, a, env, wrap(r + 1, N), c - 1, keep(Q, 1), "successful pop removes the oldest value")
        b.branch(z3.Not(ret))
        if e.feasible(b):
            self.abstract(e, b, env, r, c, keep(Q), "failed pop changes nothing")
            for x, y in zip(vt, env['vt']):
                e.oblige(b, x == y, "failed pop leaves the target alone")


class PopInto(RB):
    meth = 'pop_into'
    nparams = 2

    def pred(self, s):
        return RB.pred(self, s) and 'back_insert_iterator' in s.params[0]

    def setup(self, e, st):
        this, env = self.state(e, st)
        out = e.new_obj(st, 'out', 'param')
        s = e.get_abs(st, out, self.ct)
        n = z3.Const('max_count', IntS)
        st.fact(z3.And(n >= 0, n < 2 ** 64, toz(s.n) < 2 ** 62))
        env['n'], env['out'], env['out0'] = n, out, s
        self.env = env
        self.arm(e, env)
        # the output iterator: passed by value (one pointer)
        return [this, out, n], env

    def post(self, e, o, env):
        st, N, r, c, Q, n = o.st, env['N'], env['r'], env['c'], env['Q'], env['n']
        e.on_access = None
        ret = toz(o.ret)
        s, s0 = e.get_abs(st, env['out']), env['out0']
        j = J()
        e.oblige(st, toz(s.n) == toz(s0.n) + ret, "bulk pop appends as many values as it returns")
        for a, b, q in zip(self.seqleaves(s), self.seqleaves(s0), Q):
            e.oblige(st, z3.ForAll([j], z3.Implies(z3.And(j >= toz(s0.n), j < toz(s0.n) + ret), z3.Select(a, j) == z3.Select(q, j - toz(s0.n)))), "bulk pop delivers the oldest values in order")
            e.oblige(st, z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < toz(s0.n)), z3.Select(a, j) == z3.Select(b, j))), "frame: values already in the output stay")
        if self.conc:
            mv = st.ghost['rb.moved']
            av = st.ghost['rb.avail']
            e.oblige(st, mv == ret, "bulk pop consumes what it delivers")
            e.oblige(st, z3.Or(ret == z3.If(n < av, n, av)), "bulk pop delivers min(requested, stored at some moment of the call)")
            _, r2, _, _ = self.cells(e, st, env)
            e.oblige(st, r2 == wrap(r + mv, N), "own index is what was published")
            return
        e.oblige(st, ret == z3.If(n < c, n, c), "bulk pop returns min(requested, stored)")
        self.abstract(e, st, env, wrap(r + ret, N), c - ret, [(lambda j, q=q: z3.Select(q, j + ret)) for q in Q], "bulk pop removes exactly what it returned")


class Size(RB):
    meth = 'size'
    nparams = 0

    def setup(self, e, st):
        this, env = self.state(e, st)
        self.env = env
        return [this], env

    def post(self, e, o, env):
        e.oblige(o.st, toz(o.ret) == env['c'], "size is pushed minus popped")
        self.abstract(e, o.st, env, env['r'], env['c'], keep(env['Q']), "size changes nothing")


class Empty(RB):
    meth = 'empty'
    nparams = 0

    def setup(self, e, st):
        this, env = self.state(e, st)
        self.env = env
        return [this], env

    def post(self, e, o, env):
        e.oblige(o.st, tob(e.to_bool(o.ret)) == (env['c'] == 0), "empty exactly when nothing is stored")
        self.abstract(e, o.st, env, env['r'], env['c'], keep(env['Q']), "empty changes nothing")


class Ctor(RB):
    meth = 'SPSCRingBuffer'
    nparams = 1

    def pred(self, s):
        return RB.pred(self, s) and s.params[0].endswith('&&')

    def setup(self, e, st):
        self.offs = tuple(self.fields(e))
        this = e.new_obj(st, 'ring', 'param', self.rb)
        cont = e.new_obj(st, 'container', 'param')
        s = e.get_abs(st, cont, self.ct)
        st.fact(toz(s.n) < 2 ** 62)
        self.this = this
        return [this, cont], dict(this=this, s=s, N=toz(s.n))

    def exc_ok(self, e, o, env):
        return env['N'] == 0

    def post(self, e, o, env):
        st = o.st
        e.oblige(st, env['N'] >= 1, "an empty container is refused")
        w, r, s, m = self.cells(e, st, env)
        e.oblige(st, z3.And(w == 0, r == 0, toz(s.n) == env['N'], m == env['N']), "a new ring buffer is empty and uses the given container")


def c03(tier):
    return verify_all(Program(SRCS), [S(el) for el in ELEMS for S in (Ctor, Push, Pop, PopInto, Size, Empty)], tier)


def c04(tier):
    return verify_all(Program(SRCS), [S for el in ELEMS for S in (Push(el, 'producer'), Pop(el, 'consumer'), PopInto(el, 'consumer'))], tier)
