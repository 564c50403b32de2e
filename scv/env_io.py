"""Assumed contracts of the socket system calls: a descriptor is a byte stream."""
import z3
from .vals import *
from .engine import Outcome
from .lib_std import reg, H

ArrII = z3.ArraySort(IntS, IntS)
S_in = z3.Const('S_in', ArrII)       # bytes that the peer sends on the descriptor, in order
L_in = z3.Const('L_in', IntS)        # number of bytes until end of stream (arbitrary)
M64 = 1 << 64


def io_init(e, st):
    st.ghost['in.pos'] = z3.Const('in_pos0', IntS)
    st.ghost['in.err'] = z3.BoolVal(False)
    st.ghost['in.eof'] = z3.BoolVal(False)
    st.ghost['out.pos'] = z3.Const('out_pos0', IntS)
    st.ghost['out.short'] = z3.BoolVal(False)
    st.ghost['out.arr'] = z3.Const('out_arr0', ArrII)
    st.fact(z3.And(st.ghost['in.pos'] >= 0, st.ghost['in.pos'] <= L_in, st.ghost['out.pos'] >= 0))
    k = z3.Const('k', IntS)
    st.fact(z3.ForAll([k], z3.And(z3.Select(S_in, k) >= 0, z3.Select(S_in, k) <= 255), patterns=[z3.Select(S_in, k)]))


def io_read(c, st):
    """read/recv: -1 (error), or r <= n bytes of the stream; 0 only for n == 0 or at end of stream"""
    e = c.eng
    fd, buf, n = c.args[0], c.args[1], c.args[2]
    if len(c.args) > 3 and not (isinstance(c.args[3], int) and c.args[3] in (0, 0x100, 0x4000)):
        raise Unsupported("recv flags")
    if getattr(e, 'io_fd', None) is not None:
        e.oblige(st, toz(fd) == e.io_fd, "reads from the given descriptor")
    try:
        cont, seq, idx = e.byte_region(st, buf)
    except Unsupported:
        # a scalar variable as buffer
        return read_scalar(c, st, buf, n)
    if cont is None:
        return read_scalar(c, st, buf, n)
    e.oblige(st, z3.And(toz(idx) >= 0, toz(n) >= 0, toz(idx) + toz(n) <= toz(seq.n)), "read() stays within its buffer")
    res = []
    bad = st.copy()
    ch = fresh('read_fails', BoolS)
    bad.branch(ch)
    bad.ghost['in.err'] = z3.BoolVal(True)
    res.append(Outcome(bad, M64 - 1))
    st.branch(z3.Not(ch))
    r = fresh('nread')
    pos = st.ghost['in.pos']
    st.fact(z3.And(r >= 0, r <= toz(n), r <= L_in - pos, r < 2 ** 63, z3.Implies(r == 0, z3.Or(toz(n) == 0, pos == L_in))))
    e.write_bytes(st, cont, seq, idx, S_in, pos, r)
    st.ghost['in.pos'] = pos + r
    st.ghost['in.eof'] = z3.Or(st.ghost['in.eof'], z3.And(r == 0, toz(n) > 0))
    res.append(Outcome(st, r))
    return res


def read_scalar(c, st, buf, n):
    """read into an integer variable: all of it or a part (then its value is unspecified)"""
    e = c.eng
    if not (isinstance(n, int) and n <= 8 and isinstance(buf, (Ptr, EPtr))):
        raise Unsupported("read into %r" % (buf,))
    res = []
    bad = st.copy()
    ch = fresh('read_fails', BoolS)
    bad.branch(ch)
    bad.ghost['in.err'] = z3.BoolVal(True)
    res.append(Outcome(bad, M64 - 1))
    st.branch(z3.Not(ch))
    r = fresh('nread')
    pos = st.ghost['in.pos']
    st.fact(z3.And(r >= 0, r <= n, r <= L_in - pos, z3.Implies(r == 0, pos == L_in)))
    v = fresh('rdv')
    tot = 0
    for i in range(n):
        tot = tot + z3.Select(S_in, pos + i) * 256 ** i
    st.fact(z3.And(v >= 0, v < 256 ** n, z3.Implies(r == n, v == tot)))
    e.store(st, buf, v, n)
    st.ghost['in.pos'] = pos + r
    st.ghost['in.eof'] = z3.Or(st.ghost['in.eof'], r == 0)
    res.append(Outcome(st, r))
    return res


def io_send(c, st):
    """send/write: -1, or the first r <= n bytes are appended to the peer's stream"""
    e = c.eng
    fd, buf, n = c.args[0], c.args[1], c.args[2]
    if getattr(e, 'io_fd', None) is not None:
        e.oblige(st, toz(fd) == e.io_fd, "writes to the given descriptor")
    if c.sig.name == 'send':
        e.oblige(st, isinstance(c.args[3], int) and bool(c.args[3] & 0x4000), "a broken connection does not raise SIGPIPE (MSG_NOSIGNAL)")
        if isinstance(c.args[3], int) and c.args[3] & ~0x4000 & ~0x8000:
            raise Unsupported("send flags")
    else:
        e.oblige(st, False, "a broken connection does not raise SIGPIPE (send with MSG_NOSIGNAL)")
    if isinstance(n, int) and n == 0:
        seq = None
    else:
        cont, seq, idx = e.byte_region(st, buf)
        e.oblige(st, z3.And(toz(idx) >= 0, toz(n) >= 0, toz(idx) + toz(n) <= toz(seq.n)), "send() reads within its buffer")
    res = []
    bad = st.copy()
    ch = fresh('send_fails', BoolS)
    bad.branch(ch)
    bad.ghost['out.short'] = z3.BoolVal(True)
    res.append(Outcome(bad, M64 - 1))
    st.branch(z3.Not(ch))
    r = fresh('nsent')
    st.fact(z3.And(r >= 0, r <= toz(n)))
    st.ghost['out.short'] = z3.Or(st.ghost['out.short'], r < toz(n))
    pos, arr = st.ghost['out.pos'], st.ghost['out.arr']
    if seq is not None:
        a2 = fresh('out', ArrII)
        k = z3.Const('k', IntS)
        st.fact(z3.ForAll([k], z3.Select(a2, k) == z3.If(z3.And(k >= pos, k < pos + r), z3.Select(seq.arr, toz(idx) + k - pos), z3.Select(arr, k)),
                          patterns=[z3.Select(a2, k)]))
        st.ghost['out.arr'] = a2
        st.ghost['out.pos'] = pos + r
    res.append(Outcome(st, r))
    return res


def io_install(e):
    for n in ('read', 'recv'):
        e.handlers[n] = io_read
    for n in ('send', 'write'):
        e.handlers[n] = io_send
