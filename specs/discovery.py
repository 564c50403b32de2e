"""C19: the servers listed in the socket table."""
import z3
from scv.spec import *
from scv.guard import quiet
from scv import lib_std
from scv.lib_std import bsub_term, substr_seq, NUMK, NUMV, PTR
from specs.transport import fld

TU = 'scalopus::TransportUnix'
TF = 'scalopus::TransportUnixFactory'
DU = 'scalopus::DestinationUnix'
SRCS = ['scalopus_transport/src/transport_unix.cpp']
VEC = 'std::vector<unsigned long>'
ASSUMPTIONS = [
    "std::getline returns the lines of the file in order, any text, until it fails; istringstream >> std::string takes the next run of characters that are not white space",
    "std::strtoul/stoull of a text of digits is the number written there",
    "a line of a server is one as the kernel writes it: 'num: ref protocol 00010000 type state inode @<pid>_scalopus', with a pid of at most nine digits that does not start with 0; what is not of the form '.. .. .. 00010000 .. .. .. @<digits>_scalopus' (eight words, at most ten digits) is not; other lines (leading zeros, other white space) are left open",
]
WS = z3.Function('word_start', Blob, IntS, IntS)
WE = z3.Function('word_end', Blob, IntS, IntS)
SUF = b'_scalopus'
LISTEN = b'00010000'


def space(c):
    return z3.Or(c == 32, z3.And(c >= 9, c <= 13))


def word_axioms():
    C, p, k = z3.Const('C', Blob), z3.Const('p', IntS), z3.Const('k', IntS)
    n, S = blen(C), lambda i: z3.Select(barr(C), i)
    res = []
    for F, want, skip in ((WS, lambda c: z3.Not(space(c)), space), (WE, space, lambda c: z3.Not(space(c)))):
        r = F(C, p)
        ok = z3.And(p >= 0, p <= n)
        res.append(z3.ForAll([C, p], z3.Implies(ok, z3.And(r >= p, r <= n, z3.Implies(r < n, want(S(r))))), patterns=[r]))
        res.append(z3.ForAll([C, p, k], z3.Implies(z3.And(ok, k >= p, k < r), skip(S(k))), patterns=[z3.MultiPattern(r, S(k))]))
    return res


def words(L, n=9):
    res, p = [], z3.IntVal(0)
    for i in range(n):
        s = WS(L, p)
        p = WE(L, s)
        res.append((s, p))
    return res


def texteq(L, pos, b):
    return z3.And([z3.Select(barr(L), pos + i) == ch for i, ch in enumerate(b)])


def pid_text(L):
    s, e = words(L)[7]
    return bsub_term(L, s + 1, e - s - 10)


def server(L, strict):
    """strict: a line as the kernel writes it for a server; otherwise: the loosest form a server may be taken for"""
    w = words(L)
    n, S = blen(L), lambda i: z3.Select(barr(L), i)
    k = z3.Const('k', IntS)
    s7, e7 = w[7]
    d = e7 - s7 - 10
    digits = z3.ForAll([k], z3.Implies(z3.And(k >= s7 + 1, k < e7 - 9), z3.And(S(k) >= 48, S(k) <= 57)), patterns=[S(k)])
    c = [s7 < n, w[8][0] == n, w[3][1] - w[3][0] == 8, texteq(L, w[3][0], LISTEN), d >= 1, S(s7) == 64, texteq(L, e7 - 9, SUF), digits]
    if not strict:
        return z3.And(c + [d <= 10])
    c += [d <= 9, e7 == n, w[0][0] == 0, w[7][0] == w[6][1] + 1, S(w[0][1] - 1) == 58, S(w[6][0]) >= 49, S(w[6][0]) <= 57, S(s7 + 1) >= 49]
    c += [w[i][0] == w[i - 1][1] + 1 for i in range(1, 6)]
    c += [z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < n, space(S(k))), S(k) == 32), patterns=[S(k)])]
    return z3.And(c)


# ---- streams
def stream(e, st, p, off=8):
    o = e.obj(st, p)
    c = o.cells.get(p.off + off)
    if c is None or not isinstance(c[1], Tok):
        raise Unsupported("stream")
    return c[1]


def put_stream(e, st, p, t):
    o = e.obj(st, p)
    cells = dict(o.cells)
    cells[p.off + 8] = (8, t)
    st.mem[p.obj] = o.with_cells(cells)


def new_stream(e, st, p, t):
    vt = e.new_obj(st, 'vbase offsets', 'heap')
    e.store(st, vt, z3.IntVal(0), 8)
    e.store(st, p, e.shift(vt, 24), 8)
    put_stream(e, st, p, t)


def install_streams(e, getline):
    h = e.handlers

    def failed(c, st):
        return stream(e, st, c.args[0]).parts[-1]
    h['std::basic_ios::fail'] = h['std::basic_ios::operator!'] = failed
    h['std::basic_ios::operator bool'] = lambda c, st: z3.Not(tob(failed(c, st)))

    def isctor(c, st):
        if not c.sig.params or not c.sig.params[0].startswith('std::string'):
            raise Unsupported("string stream without text")
        v = e.get_abs(st, c.args[1], 'std::string')
        new_stream(e, st, c.args[0], Tok('istream', [e.blob_of(st, v), z3.IntVal(0), z3.BoolVal(False)]))
    for n in ('std::basic_istringstream', 'std::basic_stringstream'):
        h[n + '::' + n.split('::')[1]] = isctor
        h[n + '::~' + n.split('::')[1]] = lambda c, st: None

    def fctor(c, st):
        if not c.sig.params:
            raise Unsupported("file without a name")
        p = c.sig.params[0]
        n = e.get_abs(st, c.args[1], 'std::string') if p.startswith('std::string') else lib_std.cstr(c, st, c.args[1])
        e.oblige(st, e.blob_of(st, n) == e.blob_of(st, e.literal(st, b'/proc/net/unix')), "the socket table of the system is read")
        new_stream(e, st, c.args[0], Tok('file', [z3.BoolVal(False)]))
    h['std::basic_ifstream::basic_ifstream'] = fctor
    h['std::basic_ifstream::~basic_ifstream'] = h['std::basic_ifstream::close'] = lambda c, st: None
    h['std::basic_ifstream::is_open'] = h['std::basic_ifstream::good'] = lambda c, st: fresh('open', BoolS)

    def extract(c, st):
        if len(c.args) != 2 or not c.sig.params[1].startswith('std::string'):
            raise Unsupported("extraction of %s" % (c.sig.params,))
        t = stream(e, st, c.args[0])
        if t.kind != 'istream':
            raise Unsupported("extraction from a file")
        L, pos, fail = t.parts
        s = WS(L, toz(pos))
        p = WE(L, s)
        n = blen(L)
        ok = z3.And(z3.Not(fail), s < n)
        old = e.get_abs(st, c.args[1], 'std::string')
        whole = e.unpack_leaf(st, 'std::string', [L])
        w = substr_seq(c, st, whole, s, p - s)
        # after a failure the position is the end: the next word is empty there
        if e.entails_fast(st, toz(old.n) == 0):
            e.put_abs(st, c.args[1], w, 'std::string')
            put_stream(e, st, c.args[0], Tok('istream', [L, p, z3.Or(fail, s >= n)]))
            return c.args[0]
        good = st.copy()
        good.branch(ok)
        e.put_abs(good, c.args[1], w, 'std::string')
        put_stream(e, good, c.args[0], Tok('istream', [L, p, z3.BoolVal(False)]))
        bad = st
        bad.branch(z3.Not(ok))
        put_stream(e, bad, c.args[0], Tok('istream', [L, n, z3.BoolVal(True)]))
        return [Outcome(q, c.args[0]) for q in (good, bad) if e.feasible(q)]
    h['std::operator>>'] = extract

    def line(c, st):
        if len(c.args) != 2:
            raise Unsupported("getline with a delimiter")
        t = stream(e, st, c.args[0])
        if t.kind == 'file':
            return getline(c, st)
        L, pos, fail = t.parts
        n = blen(L)
        ok = z3.And(z3.Not(fail), toz(pos) < n)
        good = st.copy()
        good.branch(ok)
        w = substr_seq(c, good, e.unpack_leaf(good, 'std::string', [L]), toz(pos), n - toz(pos))
        e.put_abs(good, c.args[1], w, 'std::string')
        put_stream(e, good, c.args[0], Tok('istream', [L, n, z3.BoolVal(False)]))
        st.branch(z3.Not(ok))
        put_stream(e, st, c.args[0], Tok('istream', [L, n, z3.BoolVal(True)]))
        return [Outcome(q, c.args[0]) for q in (good, st) if e.feasible(q)]
    h['std::getline'] = line

    def strtoul(c, st):
        if c.args[2] != 10:
            raise Unsupported("number in another base")
        p = c.args[0]
        if not isinstance(p, EPtr):
            raise Unsupported("number at %r" % (p,))
        v = e.get_abs(st, p.cont, 'std::string')
        b = e.blob_of(st, v)
        if isinstance(p.idx, int) and p.idx == 0 or z3.is_expr(p.idx) and z3.is_true(z3.simplify(p.idx == 0)):
            pass
        else:
            b = substr_seq(c, st, v, p.idx, toz(v.n) - toz(p.idx)).blob
        r = fresh('number')
        k = z3.Const('k', IntS)
        ch = z3.Select(barr(b), k)
        st.fact(z3.And(r >= 0, r < 2 ** 64))
        st.fact(z3.Implies(z3.And(blen(b) >= 1, blen(b) <= 19, z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < blen(b)), z3.And(ch >= 48, ch <= 57)), patterns=[ch])), r == NUMV['u'](b)))
        if not (isinstance(c.args[1], Ptr) and c.args[1].obj is None):
            e.store(st, c.args[1], e.fresh_leaf(st, PTR, 'number end') if False else Ptr(None, 0), 8)
        return r
    for n in ('strtoul', '__isoc23_strtoul', 'strtoull', '__isoc23_strtoull'):
        h[n] = strtoul


class Servers(FnSpec):
    qual, nparams, title = TU + '::getTransportServers', 0, 'TransportUnix::getTransportServers()'

    def setup(self, e, st):
        self.e = e
        self.res = e.new_obj(st, 'servers', 'heap')
        for f in word_axioms():
            st.fact(f)
        g = st.ghost
        g['line'] = z3.Const('no line', Blob)
        g['have'] = g['eof'] = z3.BoolVal(False)
        g['n'] = z3.IntVal(0)
        g['a'] = z3.K(IntS, z3.IntVal(0))
        return [self.res], {}

    def vec(self, st):
        """the list so far"""
        o = st.mem[self.res.obj]
        c = o.cells.get(0)
        if c is not None and isinstance(c[1], Seq):
            return c[1]
        r = [x[1] for o in st.mem.values() for x in o.cells.values() if isinstance(x[1], Seq) and x[1].elem in ('unsigned long', 'unsigned long long', 'unsigned int', 'int') and not x[1].fixed]
        if len(r) > 1:
            raise Unsupported("several lists")
        return r[0] if r else None

    def parts(self, st):
        """what holds after a line was dealt with"""
        g = st.ghost
        v = self.vec(st)
        if v is None:
            return [("a list is kept", z3.And(z3.Not(g['have']), g['n'] == 0))]
        k = z3.Const('k', IntS)
        n0, a0, L, have = g['n'], g['a'], g['line'], g['have']
        n, a = toz(v.n), v.arr
        return [("a line adds at most one entry, the others stay", z3.And(n0 >= 0, z3.Or(n == n0, z3.And(have, n == n0 + 1)), z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < n0), z3.Select(a, k) == z3.Select(a0, k)), patterns=[z3.Select(a, k)]))),
                ("a listening server socket is listed", z3.Implies(z3.And(have, server(L, True)), n == n0 + 1)),
                ("nothing but listening server sockets is listed", z3.Implies(n == n0 + 1, server(L, False))),
                ("a server is listed with its process id", z3.Implies(n == n0 + 1, z3.Select(a, n0) == NUMV['u'](pid_text(L))))]

    def oblige(self, e, st):
        for n, f in self.parts(st):
            e.oblige(st, f, n)

    def install(self, e):
        def getline(c, st):
            self.oblige(e, st)
            g = st.ghost
            v = self.vec(st)
            g['n'] = toz(v.n) if v is not None else z3.IntVal(0)
            g['a'] = v.arr if v is not None else z3.K(IntS, z3.IntVal(0))
            end = st.copy()
            put_stream(e, end, c.args[0], Tok('file', [z3.BoolVal(True)]))
            end.ghost['eof'] = z3.BoolVal(True)
            end.ghost['have'] = z3.BoolVal(False)
            l = e.fresh_leaf(st, 'std::string', 'line')
            st.fact(z3.And(toz(l.n) >= 0, toz(l.n) < 2 ** 62))
            e.put_abs(st, c.args[1], l, 'std::string')
            g['line'] = e.blob_of(st, l)
            g['have'] = z3.BoolVal(True)
            return [Outcome(st, c.args[0]), Outcome(end, c.args[0])]
        install_streams(e, getline)
        e.invariants.append(lambda e, fr, head0, st, mod: [
            ("so far: %d" % i, lambda s, i=i: (self.parts(s)[i:] or [(0, True)])[0][1], False) for i in range(4)] + [
            ("there may be more lines", lambda s: z3.Not(s.ghost['eof']), False)])

    def post(self, e, o, env):
        self.oblige(e, o.st)
        e.oblige(o.st, o.st.ghost['eof'], "the table is read to its end")


DPID = z3.Function('destination_pid', IntS, IntS)


class Dest(FnSpec):
    """a destination is its process id"""
    qual, nparams, title = DU + '::DestinationUnix', 1, 'DestinationUnix::DestinationUnix(unsigned int)'

    def pred(self, sig):
        return sig.params and sig.params[0] in ('unsigned int', 'unsigned long', 'int', 'long')

    def setup(self, e, st):
        self.me = e.new_obj(st, 'destination', 'heap', DU)
        self.bits = 32 if 'int' in parse_sig(self.fn.demangled).params[0] else 64
        self.pid = z3.Const('pid', IntS)
        st.fact(z3.And(self.pid >= 0, self.pid < 2 ** 31))
        return [self.me, self.pid], {}

    def post(self, e, o, env):
        off, t = fld(e, DU, 'pid_')
        e.oblige(o.st, toz(e.load(o.st, e.shift(self.me, off), e.mkint(8 * e.T.size(t)))) == self.pid, "the process id is kept")


class Hash(FnSpec):
    """destinations are told apart by their process"""
    qual, nparams, title = DU + '::hash_code', 0, 'DestinationUnix::hash_code()'

    def setup(self, e, st):
        me = e.new_obj(st, 'destination', 'heap', DU)
        off, t = fld(e, DU, 'pid_')
        self.pid = toz(e.load(st, e.shift(me, off), e.mkint(8 * e.T.size(t))))
        return [me], {}

    def post(self, e, o, env):
        e.oblige(o.st, toz(o.ret) == self.pid, "the hash code is the process id")


class Discover(FnSpec):
    qual, nparams, title = TF + '::discover', 0, 'TransportUnixFactory::discover()'
    RES = 'std::vector<std::shared_ptr<scalopus::Destination>>'

    def setup(self, e, st):
        self.e = e
        self.res = e.new_obj(st, 'destinations', 'heap')
        me = e.new_obj(st, 'factory', 'param', TF)
        st.ghost['asked'] = z3.IntVal(0)
        self.S = None
        return [self.res, me], {}

    def install(self, e):
        def servers(c, st):
            v = e.fresh_leaf(st, VEC, 'servers')
            k = z3.Const('k', IntS)
            st.fact(z3.And(toz(v.n) >= 0, toz(v.n) < 2 ** 40))
            st.fact(z3.ForAll([k], z3.And(z3.Select(v.arr, k) >= 0, z3.Select(v.arr, k) < 2 ** 64), patterns=[z3.Select(v.arr, k)]))
            self.S = v
            st.ghost['asked'] = st.ghost['asked'] + 1
            e.put_abs(st, c.sret, v, VEC)
        e.contracts[TU + '::getTransportServers'] = servers

        def make(c, st):
            if c.sig.targs[0] != DU or len(c.args) != 1:
                return NotImplemented
            p = c.sig.params[0]
            t = p.rstrip('&').replace(' const', '')
            if e.T.size(t) not in (4, 8):
                return NotImplemented
            v = toz(e.load(st, c.args[0], e.mkint(8 * e.T.size(t)))) if p.endswith('&') else toz(c.args[0])
            i = fresh('destination')
            st.fact(z3.And(i > 0, DPID(i) == v % 2 ** 32))
            from scv.lib_std import put
            from scv.vals import Ref
            put(c, st, c.sret, Ref('shared_ptr', DU, EPtr(HEAP, i, 0)), 'std::shared_ptr<%s>' % DU)
        old = e.handlers['std::make_shared']

        def mk(c, st):
            r = make(c, st)
            return old(c, st) if r is NotImplemented else r
        e.handlers['std::make_shared'] = mk
        e.invariants.append(self.loop_invs)

    def vec(self, st):
        o = st.mem[self.res.obj]
        c = o.cells.get(0)
        if c is not None and isinstance(c[1], Seq):
            return c[1]
        raise Unsupported("no list")

    def good(self, st):
        k = z3.Const('k', IntS)
        v = self.vec(st)
        x = z3.Select(v.leaves[0][2][0], k)
        return z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < toz(v.n)), z3.And(x > 0, z3.Implies(z3.Select(self.S.arr, k) < 2 ** 31, DPID(x) == z3.Select(self.S.arr, k)))), patterns=[x])

    def loop_invs(self, e, fr, head0, st, mod):
        if self.S is None:
            return []
        res = [("destinations are servers", self.good, False)]
        for k in mod:
            if k[0] != 'c':
                continue
            c = head0.mem[k[1]].cells.get(k[2])
            v = c[1] if c is not None else mod[k][1]
            get = lambda s, k=k: s.mem[k[1]].cells[k[2]][1]
            if isinstance(v, EPtr):
                res.append(("as many as passed", lambda s, get=get: toz(self.vec(s).n) == toz(get(s).idx), False))
            elif isinstance(v, int) and not isinstance(v, bool) or z3.is_expr(v) and v.sort() == IntS:
                res.append(("as many as passed", lambda s, get=get: toz(self.vec(s).n) == toz(get(s)), False))
        return res

    def post(self, e, o, env):
        e.oblige(o.st, o.st.ghost['asked'] == 1, "the socket table is read")
        if self.S is None:
            return
        e.oblige(o.st, toz(self.vec(o.st).n) == toz(self.S.n), "there is one destination per server")
        e.oblige(o.st, self.good(o.st), "the destinations are those of the servers, in order")


def prog():
    return Program(SRCS)


def c19(tier):
    return verify_all(prog(), [Servers(), Discover(), Dest(), Hash()], tier)
