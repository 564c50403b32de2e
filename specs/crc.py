"""C14: the checksum behind trace ids is the standard CRC-32."""
import z3
import zlib
from scv.spec import *

SRCS = ['/verif/specs/inst/crc.cpp']
QUAL = 'scalopus::crcdetail::compute'
B8, B32 = z3.BitVecSort(8), z3.BitVecSort(32)
POLY = 0xEDB88320            # 0x04C11DB7 reflected
ASSUMPTIONS = [
    "char is 8 bits wide; the length is at most 2^32 - 1 (the type of compute's parameter)",
    "CRC32_STR and the id macros are checked on the literals of specs/inst/crc.cpp (the compiler evaluates them); that they hand text and length to compute is read off those, compute itself is proved for all inputs",
]
REG = z3.Function('reg', IntS, B32)      # the register after the first k bytes
TT = z3.Function('crc_of_byte', B8, B32)  # eight steps of the polynomial division on one byte


def steps(r):
    """eight steps of the reflected division: the definition of the checksum"""
    for _ in range(8):
        r = z3.If(z3.Extract(0, 0, r) == 1, z3.LShR(r, 1) ^ POLY, z3.LShR(r, 1))
    return r


def byte_steps(n):
    for _ in range(8):
        n = (n >> 1) ^ POLY if n & 1 else n >> 1
    return n


def next_reg(r, b):
    """one byte: equal to steps(r ^ zero-extended b) (lemma 'a byte at a time')"""
    return TT(z3.Extract(7, 0, r) ^ b) ^ z3.LShR(r, 8)


class Compute(FnSpec):
    qual, nparams, title = QUAL, 3, 'crcdetail::compute'

    def setup(self, e, st):
        d = e.new_obj(st, 'data', 'param')
        n = z3.Const('len', IntS)
        size = z3.Const('size', IntS)
        st.fact(z3.And(n >= 0, n < 2 ** 32, size >= n))
        self.D = z3.Const('bytes', z3.ArraySort(IntS, B8))
        st.mem[d.obj] = st.mem[d.obj].with_cells({0: (1 << 40, Seq('char', size, [(0, 'char', [self.D])], fixed=True))})
        c = z3.Const('crc', B32)
        st.fact(REG(0) == c ^ 0xFFFFFFFF)
        self.n = n

        def access(e, st, p, write, what):
            if isinstance(p, (Ptr, EPtr)) and getattr(p, 'obj', None) != d.obj and not (isinstance(p, EPtr) and isinstance(p.cont, Ptr) and p.cont.obj == d.obj):
                return
            if isinstance(p, Ptr):
                k = z3.IntVal(p.off)
            else:
                k = toz(p.idx)
            e.oblige(st, not write, "[C14] the text is not changed")
            e.oblige(st, z3.And(k >= 0, k < self.n), "[C14] only the given bytes are read")
            b = z3.Select(self.D, k)
            st.fact(REG(k + 1) == next_reg(REG(k), b))
            st.fact(REG(k + 1) == steps(REG(k) ^ z3.ZeroExt(24, b)))      # the same by definition
        e.on_access = access

        def table(e, st, tab, i):
            m = i.size()
            ok = len(tab) == 256
            if not ok:
                raise Unsupported("another table")
            for j, v in enumerate(tab):
                if v != byte_steps(j):
                    e.oblige(st, z3.BoolVal(False), "[C14] the table entry for byte 0x%02x is its checksum" % j)
            e.oblige(st, z3.BoolVal(all(v == byte_steps(j) for j, v in enumerate(tab))), "[C14] every table entry is the checksum of its byte")
            e.oblige(st, z3.ULT(i, z3.BitVecVal(256, m)) if m > 8 else z3.BoolVal(True), "[C14] the table is read within its bounds")
            return TT(z3.Extract(7, 0, i))
        e.on_table = table
        e.invariants.append(self.invs)
        return [EPtr(Ptr(d.obj, 0), 0, 0), n, c], {}

    def invs(self, e, fr, head0, st, mod):
        res = []

        def val(s, k):
            c = s.mem[k[1]].cells.get(k[2])
            return None if c is None else c[1]
        keys = [k for k in mod if k[0] == 'c']
        regs, pos = [], []
        for k in keys:
            v = mod[k][1]
            if isz(v) and z3.is_bv(v) and v.size() == 32:
                regs.append(k)
            if isinstance(v, EPtr) or isz(v) and v.sort() == IntS or isinstance(v, int):
                pos.append(k)

        def num(s, k):
            v = val(s, k)
            if isinstance(v, (Ptr, EPtr)):
                v = e.to_eptr(s, v)
                return toz(v.idx)
            return toz(v)
        for p in pos:
            for k in regs:
                for nm, f in (('position', lambda s, p=p: num(s, p)), ('remaining', lambda s, p=p: self.n - num(s, p))):
                    res.append(("%s %s gives the register" % (nm, p[2]), lambda s, k=k, f=f: e.bvc(val(s, k), 32) == REG(f(s)), False))
                    res.append(("%s %s gives the complemented register" % (nm, p[2]), lambda s, k=k, f=f: e.bvc(val(s, k), 32) == ~REG(f(s)), False))
            for q in pos:
                if q != p:
                    res.append(("together the length", lambda s, p=p, q=q: num(s, p) + num(s, q) == self.n, False))
                    res.append(("together one less", lambda s, p=p, q=q: num(s, p) + num(s, q) == self.n - 1, False))
            res.append(("within", lambda s, p=p: num(s, p) <= self.n, False))
        return res

    def post(self, e, o, env):
        e.oblige(o.st, e.bvc(o.ret, 32) == ~REG(self.n), "[C14] the result is the standard CRC-32 of the bytes, continued from the value given")


class Default(FnSpec):
    qual, nparams, title = 'scv_crc0', 2, 'crcdetail::compute without a previous value'

    def setup(self, e, st):
        d = e.new_obj(st, 'data', 'param')
        n = z3.Const('len', IntS)
        st.fact(z3.And(n >= 0, n < 2 ** 32))
        self.seen = []

        def con(c, st):
            x = c.args[2]
            e.oblige(st, e.bvc(x, 32) == 0, "[C14] a checksum starts from the standard initial value")
            e.oblige(st, z3.And(tob(e.ptr_eq(c.args[0], d)), toz(c.args[1]) == n), "[C14] the whole text is used")
            r = fresh('crc', B32)
            st.ghost['r'] = r
            return r
        st.ghost['r'] = z3.Const('r0', B32)
        e.contracts[QUAL] = con
        return [d, n], {}

    def post(self, e, o, env):
        e.oblige(o.st, e.bvc(o.ret, 32) == o.st.ghost['r'], "[C14] the checksum is returned")


class Literal(FnSpec):
    nparams = 0

    def __init__(self, fn, want, what):
        self.qual, self.want, self.title = fn, want % 2 ** 32, what

    def setup(self, e, st):
        return [], {}

    def post(self, e, o, env):
        e.oblige(o.st, e.bvc(o.ret, 32) == self.want if isz(o.ret) and z3.is_bv(o.ret) else toz(o.ret) == self.want, "[C14] " + self.title)


def lemmas(tier):
    r, b = z3.BitVec('r', 32), z3.BitVec('b', 8)
    x = z3.BitVec('x', 32)
    res = []
    # TT is eight steps on the byte; division is linear, so a byte can be taken out of the register
    t = lambda v: steps(z3.ZeroExt(24, v))
    res.append(lemma("a byte at a time: eight division steps on register xor byte", [],
                     steps(r ^ z3.ZeroExt(24, b)) == t(z3.Extract(7, 0, r) ^ b) ^ z3.LShR(r, 8), tier))
    R2 = z3.Function('reg2', IntS, B32)
    k, n = z3.Ints('k n')
    D = z3.Const('bytes', z3.ArraySort(IntS, B8))
    res.append(lemma("in pieces: the second piece continues where the first ended", [R2(0) == ~(~REG(n))], R2(0) == REG(n), tier))
    res.append(lemma("in pieces: and stays in step", [n >= 0, k >= 0, R2(k) == REG(n + k), R2(k + 1) == next_reg(R2(k), z3.Select(D, n + k)), REG(n + k + 1) == next_reg(REG(n + k), z3.Select(D, n + k))],
                     R2(k + 1) == REG(n + k + 1), tier))
    return res


def c14(tier):
    P = Program(SRCS)
    c = zlib.crc32
    src = open(SRCS[0], 'rb').read()
    dots = src.count(b'.', src.index(b'entries '), src.index(b'#line'))
    long = b"\x80\xff\x7f\x01 high bytes, and a text that is longer than the table has entries " + b"." * dots
    F = b"scv_file_name"
    lits = [Literal('scv_lit0', c(b''), 'CRC32_STR of an empty text'), Literal('scv_lit1', c(b'123456789'), 'CRC32_STR("123456789")'),
            Literal('scv_lit2', c(b'a\0b'), 'CRC32_STR of a text with a zero byte'), Literal('scv_lit3', c(long), 'CRC32_STR of a long text with high bytes'),
            Literal('scv_id_line', c(F) + 77, 'a trace id is the checksum of the file name plus the line'),
            Literal('scv_id_str', c(F) + c(b'some name'), 'a named trace id is the sum of the checksums of file name and name')]
    return for_prop(verify_all(P, [Compute(), Default()] + lits, tier) + lemmas(tier), 'C14')
