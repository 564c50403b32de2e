"""C01, C02: the wire protocol."""
import z3
from scv.spec import *
from scv.env_io import *
from scv.types import norm

SRCS = ['scalopus_transport/src/protocol.cpp']
MSG = 'scalopus::protocol::Msg'


def le(arr, at, n):
    t = z3.IntVal(0)
    for i in range(n):
        t = t + z3.Select(arr, at + i) * (256 ** i)
    return t


def field(e, cls, name):
    f = e.L.field(cls, name)
    if f is None:
        raise Unsupported("field %s::%s not found" % (cls, name))
    return f


def stream_invariants(e, fr, head0, st, mod):
    """pool: the bytes consumed since the loop was entered are the bytes appended to / placed in a byte buffer"""
    res = []
    if 'in.pos' not in head0.ghost:
        return res
    p0 = head0.ghost['in.pos']
    k = z3.Const('k', IntS)
    if ('g', 'in.pos') in mod:
        res.append(("pos >= pos0", lambda s: s.ghost['in.pos'] >= p0, False))
        res.append(("pos <= end", lambda s: s.ghost['in.pos'] <= L_in, False))
        res.append(("no error so far", lambda s: z3.Not(s.ghost['in.err']), False))
        res.append(("no end of stream so far", lambda s: z3.Not(s.ghost['in.eof']), False))
    for key in list(mod):
        if key[0] != 'c':
            continue
        o = head0.mem.get(key[1])
        c = o.cells.get(key[2]) if o is not None else None
        if c is None:
            continue
        v = c[1]
        if isinstance(v, Seq) and v.elem in BYTES and not v.fixed:
            n0 = toz(v.n)
            get = lambda s, key=key: s.mem[key[1]].cells[key[2]][1]
            res.append(("length grows with the stream", lambda s, get=get, n0=n0: toz(get(s).n) - n0 == s.ghost['in.pos'] - p0, False))
            res.append(("buffer holds the stream (appended)", lambda s, get=get, n0=n0: z3.ForAll([k], z3.Implies(
                z3.And(k >= n0, k < n0 + s.ghost['in.pos'] - p0), z3.Select(get(s).arr, k) == z3.Select(S_in, p0 + k - n0))), False))
            res.append(("buffer holds the stream (in place)", lambda s, get=get: z3.ForAll([k], z3.Implies(
                z3.And(k >= 0, k < s.ghost['in.pos'] - p0), z3.Select(get(s).arr, k) == z3.Select(S_in, p0 + k))), False))
        if (isinstance(v, int) and not isinstance(v, bool)) or (isz(v) and v.sort() == IntS):
            v0 = toz(v)
            gi = lambda s, key=key: toz(s.mem[key[1]].cells[key[2]][1])
            res.append(("counter follows the stream", lambda s, gi=gi, v0=v0: gi(s) - v0 == s.ghost['in.pos'] - p0, False))
            res.append(("remaining counter follows the stream", lambda s, gi=gi, v0=v0: v0 - gi(s) == s.ghost['in.pos'] - p0, False))
        if isinstance(v, EPtr) and v.cont != HEAP:
            v0 = toz(v.idx)
            gi = lambda s, key=key: toz(s.mem[key[1]].cells[key[2]][1].idx)
            res.append(("pointer follows the stream", lambda s, gi=gi, v0=v0: gi(s) - v0 == s.ghost['in.pos'] - p0, False))
    return res


def progress_hook(e, fr, name, head, back):
    if 'in.pos' in head.ghost and not same(head.ghost['in.pos'], back.ghost['in.pos']):
        e.oblige(back.copy(), back.ghost['in.pos'] > head.ghost['in.pos'], "progress: every loop iteration consumes at least one byte")


class ReadData(FnSpec):
    qual = 'scalopus::protocol::readData'
    nparams = 3
    title = 'protocol::readData'

    def pred(self, s):
        return s.params == ['int', 'unsigned long', 'std::vector<unsigned char>&']

    def install(self, e):
        io_install(e)
        e.invariants.append(stream_invariants)
        e.backedge_hooks.append(progress_hook)

    def setup(self, e, st):
        io_init(e, st)
        fd = z3.Const('fd', IntS)
        n = z3.Const('length', IntS)
        st.fact(z3.And(fd >= 0, fd < 2 ** 32, n >= 0, n < 2 ** 62))
        e.io_fd = fd
        inc = e.new_obj(st, 'incoming', 'param')
        e.get_abs(st, inc, 'std::vector<unsigned char>')
        return [fd, n, inc], dict(n=n, inc=inc, p0=st.ghost['in.pos'])

    def post(self, e, o, env):
        ret = tob(e.to_bool(o.ret))
        st = o.st
        p0, n = env['p0'], env['n']
        pos = st.ghost['in.pos']
        v = e.get_abs(st, env['inc'])
        k = z3.Const('k', IntS)
        e.oblige(st, z3.Implies(ret, toz(v.n) == n), "success: exactly the requested number of bytes is delivered")
        e.oblige(st, z3.Implies(ret, pos == p0 + n), "success: exactly the requested bytes are consumed from the stream")
        e.oblige(st, z3.Implies(ret, z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < n), z3.Select(v.arr, k) == z3.Select(S_in, p0 + k)))),
                 "success: delivered bytes are the stream's bytes in order")
        e.oblige(st, z3.Implies(z3.Not(ret), z3.Or(st.ghost['in.err'], z3.And(pos == L_in, L_in < p0 + n))),
                 "failure only after a read error or end of stream before the last byte")
        e.oblige(st, z3.Implies(z3.And(ret), z3.Not(st.ghost['in.err'])), "success is not reported after a read error")
        e.oblige(st, z3.And(pos >= p0, pos <= p0 + n), "never consumes a byte beyond the requested ones")


def readdata_contract(c, st):
    """use of readData's contract at a call site"""
    e = c.eng
    fd, n, inc = c.args
    if getattr(e, 'io_fd', None) is not None:
        e.oblige(st, toz(fd) == e.io_fd, "reads from the given descriptor")
    e.oblige(st, toz(n) < 2 ** 62, "precondition of readData")
    p0 = st.ghost['in.pos']
    t = 'std::vector<unsigned char>'
    bad = st.copy()
    ch = fresh('rd_fails', BoolS)
    bad.branch(ch)
    pos = fresh('pos')
    err = fresh('err', BoolS)
    bad.fact(z3.And(pos >= p0, pos <= p0 + toz(n), pos <= L_in))
    bad.fact(z3.Or(err, z3.And(pos == L_in, L_in < p0 + toz(n))))
    bad.ghost['in.pos'] = pos
    bad.ghost['in.err'] = z3.Or(bad.ghost['in.err'], err)
    e.put_abs(bad, inc, e.fresh_leaf(bad, t, 'partial'), t)
    st.branch(z3.Not(ch))
    v = e.fresh_leaf(st, t, 'bytes')
    k = z3.Const('k', IntS)
    st.fact(v.n == toz(n))
    st.fact(p0 + toz(n) <= L_in)
    st.fact(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < toz(n)), z3.Select(v.arr, k) == z3.Select(S_in, p0 + k)), patterns=[z3.Select(v.arr, k)]))
    st.ghost['in.pos'] = p0 + toz(n)
    e.put_abs(st, inc, v, t)
    return [Outcome(bad, False), Outcome(st, True)]


class Receive(FnSpec):
    qual = 'scalopus::protocol::receive'
    nparams = 2
    title = 'protocol::receive'

    def install(self, e):
        io_install(e)
        e.invariants.append(stream_invariants)
        e.backedge_hooks.append(progress_hook)
        if find_fn(e.P, ReadData()):
            e.contracts['scalopus::protocol::readData'] = readdata_contract

    def setup(self, e, st):
        io_init(e, st)
        fd = z3.Const('fd', IntS)
        st.fact(z3.And(fd >= 0, fd < 2 ** 32))
        e.io_fd = fd
        m = e.new_obj(st, 'incoming', 'param', MSG)
        return [fd, m], dict(m=m, p0=st.ghost['in.pos'])

    def post(self, e, o, env):
        st = o.st
        ret = tob(e.to_bool(o.ret))
        p0 = env['p0']
        pos = st.ghost['in.pos']
        oi, oe, od = (field(e, MSG, x)[0] for x in ('request_id', 'endpoint', 'data'))
        rid = e.load(st, e.shift(env['m'], oi), e.mkint(64))
        ep = e.get_abs(st, e.shift(env['m'], oe), 'std::string')
        da = e.get_abs(st, e.shift(env['m'], od), 'std::vector<unsigned char>')
        k = z3.Const('k', IntS)
        nl = le(S_in, p0 + 8, 2)
        dl = le(S_in, p0 + 10 + nl, 4)
        st = st.copy()
        nlv, dlv = fresh('nl'), fresh('dl')
        st.fact(z3.And(nlv == nl, nlv >= 0, nlv < 65536))
        st.fact(z3.And(dlv == le(S_in, p0 + 10 + nlv, 4), dlv >= 0, dlv < 2 ** 32))
        I = lambda f: z3.Implies(ret, f)
        e.oblige(st, I(toz(rid) == le(S_in, p0, 8)), "received id is the encoded id")
        e.oblige(st, I(toz(ep.n) == nlv), "received name has the encoded length")
        e.oblige(st, I(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < nlv), z3.Select(ep.arr, k) == z3.Select(S_in, p0 + 10 + k)))),
                 "received name is the encoded name")
        e.oblige(st, I(toz(da.n) == dlv), "received payload has the encoded length")
        e.oblige(st, I(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < dlv), z3.Select(da.arr, k) == z3.Select(S_in, p0 + 14 + nlv + k)))),
                 "received payload is the encoded payload")
        e.oblige(st, I(pos == p0 + 14 + nlv + dlv), "exactly one message is consumed")
        e.oblige(st, I(z3.Not(st.ghost['in.err'])), "success is not reported after a read error")
        e.oblige(st, z3.Implies(z3.And(z3.Not(ret), z3.Not(st.ghost['in.err'])),
                                z3.And(pos == L_in, z3.Or(L_in < p0 + 10, L_in < p0 + 14 + nlv, L_in < p0 + 14 + nlv + dlv))),
                 "failure only after a read error or when the stream ends inside the message")


class Send(FnSpec):
    qual = 'scalopus::protocol::send'
    nparams = 2
    title = 'protocol::send'

    def install(self, e):
        io_install(e)
        e.invariants.append(out_invariants)

    def setup(self, e, st):
        io_init(e, st)
        fd = z3.Const('fd', IntS)
        st.fact(z3.And(fd >= 0, fd < 2 ** 32))
        e.io_fd = fd
        m = e.new_obj(st, 'outgoing', 'param', MSG)
        oi, oe, od = (field(e, MSG, x)[0] for x in ('request_id', 'endpoint', 'data'))
        rid = e.load(st, e.shift(m, oi), e.mkint(64))
        ep = e.get_abs(st, e.shift(m, oe), 'std::string')
        da = e.get_abs(st, e.shift(m, od), 'std::vector<unsigned char>')
        st.fact(z3.And(ep.n < 2 ** 62, da.n < 2 ** 62))
        k = z3.Const('k', IntS)
        for s in (ep, da):
            st.fact(z3.ForAll([k], z3.And(z3.Select(s.arr, k) >= 0, z3.Select(s.arr, k) <= 255), patterns=[z3.Select(s.arr, k)]))
        return [fd, m], dict(m=m, fd=fd, p0=st.ghost['out.pos'], rid=rid, ep=ep, da=da, offs=(oi, oe, od), out0=st.ghost['out.arr'])

    def post(self, e, o, env):
        st = o.st
        ret = tob(e.to_bool(o.ret))
        p0 = env['p0']
        pos, arr = st.ghost['out.pos'], st.ghost['out.arr']
        n, d = toz(env['ep'].n), toz(env['da'].n)
        k = z3.Const('k', IntS)
        I = lambda f: z3.Implies(ret, f)
        e.oblige(st, I(z3.And(n < 65536, d < 2 ** 32)), "a message the format cannot represent is refused")
        e.oblige(st, I(pos == p0 + 14 + n + d), "success: exactly one encoding is written")
        e.oblige(st, I(le(arr, p0, 8) == toz(env['rid'])), "encoded id")
        e.oblige(st, I(le(arr, p0 + 8, 2) == n), "encoded name length")
        e.oblige(st, I(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < n), z3.Select(arr, p0 + 10 + k) == z3.Select(env['ep'].arr, k)))), "encoded name")
        e.oblige(st, I(le(arr, p0 + 10 + n, 4) == d), "encoded payload length")
        e.oblige(st, I(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < d), z3.Select(arr, p0 + 14 + n + k) == z3.Select(env['da'].arr, k)))), "encoded payload")
        e.oblige(st, z3.Implies(z3.And(z3.Not(ret), z3.Not(st.ghost['out.short'])), z3.Or(n >= 65536, d >= 2 ** 32, env['fd'] == 0)),
                 "failure only for an unrepresentable message or after the kernel did not take all bytes")
        oi, oe, od = env['offs']
        ep = e.get_abs(st, e.shift(env['m'], oe), 'std::string')
        da = e.get_abs(st, e.shift(env['m'], od), 'std::vector<unsigned char>')
        e.oblige(st, z3.And(e.blob_of(st, ep) == env['ep'].blob, e.blob_of(st, da) == env['da'].blob), "frame: the message is not modified")


def out_invariants(e, fr, head0, st, mod):
    """pool: bytes sent since the loop was entered are the bytes of a buffer"""
    res = []
    if ('g', 'out.pos') not in mod:
        return res
    p0, a0 = head0.ghost['out.pos'], head0.ghost['out.arr']
    k = z3.Const('k', IntS)
    if ('g', 'out.short') in mod:
        res.append(("no short write so far", lambda s: z3.Not(s.ghost['out.short']), False))
    res.append(("out pos grows", lambda s: s.ghost['out.pos'] >= p0, False))
    res.append(("earlier output kept", lambda s: z3.ForAll([k], z3.Implies(k < p0, z3.Select(s.ghost['out.arr'], k) == z3.Select(a0, k))), False))
    for oid, o in head0.mem.items():
        for off, (sz, v) in o.cells.items():
            if isinstance(v, Seq) and v.elem in BYTES:
                res.append(("output is a prefix of %s+%d" % (o.name, off), lambda s, oid=oid, off=off: z3.ForAll([k], z3.Implies(
                    z3.And(k >= p0, k < s.ghost['out.pos']), z3.Select(s.ghost['out.arr'], k) == z3.Select(s.mem[oid].cells[off][1].arr, k - p0))), False))
    for key in mod:
        if key[0] == 'c':
            c = head0.mem[key[1]].cells.get(key[2])
            if c is None:
                continue
            v = c[1]
            if (isinstance(v, int) and not isinstance(v, bool)) or (isz(v) and v.sort() == IntS):
                v0 = toz(v)
                gi = lambda s, key=key: toz(s.mem[key[1]].cells[key[2]][1])
                res.append(("counter follows the output", lambda s, gi=gi, v0=v0: gi(s) - v0 == s.ghost['out.pos'] - p0, False))
                res.append(("remaining follows the output", lambda s, gi=gi, v0=v0: v0 - gi(s) == s.ghost['out.pos'] - p0, False))
            if isinstance(v, EPtr) and v.cont != HEAP:
                v0 = toz(v.idx)
                gi = lambda s, key=key: toz(s.mem[key[1]].cells[key[2]][1].idx)
                res.append(("pointer follows the output", lambda s, gi=gi, v0=v0: gi(s) - v0 == s.ghost['out.pos'] - p0, False))
    return res


def roundtrip(tier):
    """what receive's postcondition yields on a stream holding what send's postcondition wrote"""
    A = lambda n: z3.Const(n, z3.ArraySort(IntS, IntS))
    I = lambda n: z3.Const(n, IntS)
    ep, da, ep2, da2, w = A('ep'), A('da'), A('ep2'), A('da2'), A('wire')
    idv, n, d, p, id2, n2, d2, q = (I(x) for x in ('id', 'n', 'd', 'p', 'id2', 'n2', 'd2', 'q'))
    k = I('k')
    hy = [n >= 0, d >= 0, n < 65536, d < 2 ** 32, le(w, p, 8) == idv, le(w, p + 8, 2) == n, le(w, p + 10 + n, 4) == d,
          z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < n), z3.Select(w, p + 10 + k) == z3.Select(ep, k))),
          z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < d), z3.Select(w, p + 14 + n + k) == z3.Select(da, k))),
          id2 == le(w, p, 8), n2 == le(w, p + 8, 2), d2 == le(w, p + 10 + n2, 4), q == p + 14 + n2 + d2,
          z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < n2), z3.Select(ep2, k) == z3.Select(w, p + 10 + k))),
          z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < d2), z3.Select(da2, k) == z3.Select(w, p + 14 + n2 + k)))]
    goal = z3.And(id2 == idv, n2 == n, d2 == d, q == p + 14 + n + d,
                  z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < n), z3.Select(ep2, k) == z3.Select(ep, k))),
                  z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < d), z3.Select(da2, k) == z3.Select(da, k))))
    return lemma("round trip: receive of send's encoding yields the message and consumes exactly it", hy, goal, tier)


ASSUMPTIONS = [
    "read/recv on a stream socket deliver the peer's bytes in order, at most the requested number, 0 only at end of stream",
    "send on a stream socket appends a prefix of the given bytes to the peer's stream, or fails",
    "size_t lengths stay below 2^62; both ends use the same little-endian layout (x86-64)",
]


def c01(tier):
    P = Program(SRCS)
    return verify_all(P, [s() for s in (Send, ReadData, Receive) if s is not ReadData or find_fn(P, s())], tier) + [roundtrip(tier)]


def c02(tier):
    P = Program(SRCS)
    return verify_all(P, [s() for s in (ReadData, Receive) if s is not ReadData or find_fn(P, s())], tier)
