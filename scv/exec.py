"""Instruction execution, control flow, loops, calls and exceptions."""
import sys, time, re
import z3
from .vals import *
from .vals import _ctr
from . import types as T
from .engine import *
from .llvm import demangle, Ty
from .types import parse_sig, norm, tbase, targs

sys.setrecursionlimit(20000)


class Frame:
    __slots__ = ("fn", "args", "depth", "loops", "rpo", "allocas")

    def __init__(self, fn, args, depth):
        self.fn, self.args, self.depth = fn, args, depth


class Pt:
    __slots__ = ("st", "regs", "prev", "blk")

    def __init__(self, st, regs, prev, blk):
        self.st, self.regs, self.prev, self.blk = st, regs, prev, blk


class Loop:
    __slots__ = ("header", "blocks")


def analyse(fn):
    """reverse post order and natural loops (header -> set of block indices)"""
    if hasattr(fn, '_cfg'):
        return fn._cfg
    blocks = fn.blocks
    n = len(blocks)
    order, state = [], [0] * n
    stack = [(blocks[0], iter(blocks[0].succs))]
    state[0] = 1
    back = []
    while stack:
        b, it = stack[-1]
        adv = False
        for s in it:
            if state[s.idx] == 0:
                state[s.idx] = 1
                stack.append((s, iter(s.succs)))
                adv = True
                break
            elif state[s.idx] == 1:
                back.append((b.idx, s.idx))
        if not adv:
            state[b.idx] = 2
            order.append(b.idx)
            stack.pop()
    order.reverse()
    rpo = {b: i for i, b in enumerate(order)}
    preds = {}
    for b in blocks:
        if b.idx in rpo:
            for s in b.succs:
                preds.setdefault(s.idx, []).append(b.idx)
    loops = {}
    for t, h in back:
        body = loops.setdefault(h, {h})
        todo = [t]
        while todo:
            x = todo.pop()
            if x in body:
                continue
            body.add(x)
            todo += preds.get(x, [])
    # make the order respect loop nesting: handled by running loops as units
    fn._cfg = (rpo, loops)
    return fn._cfg


class Exec(Engine):

    # ------------------------------------------------------------------ operands
    def zero_of(self, ty):
        if ty.k == 'ptr':
            return NULL
        if ty.k == 'int':
            return False if ty.bits == 1 else 0
        if ty.k == 'struct':
            return tuple(self.zero_of(e) for e in ty.elems)
        if ty.k == 'array':
            return tuple(self.zero_of(ty.elem) for _ in range(ty.n))
        if ty.k == 'float':
            return z3.Const('fzero', FSort)
        raise Unsupported("zero of %r" % ty)

    def undef_of(self, st, ty):
        if ty.k == 'struct':
            return tuple(self.undef_of(st, e) for e in ty.elems)
        if ty.k == 'array':
            return tuple(self.undef_of(st, ty.elem) for _ in range(ty.n))
        if ty.k in ('ptr', 'int', 'float'):
            return self.fresh_scalar(st, ty, 'undef')
        raise Unsupported("undef of %r" % ty)

    def val(self, st, fr, regs, o):
        k = o[0]
        if k == 'inst':
            if o[1] not in regs:
                raise Unsupported("use of an undefined register")
            return regs[o[1]]
        if k == 'arg':
            return fr.args[o[1]]
        return self.const(st, fr.fn.mod, o)

    def const(self, st, mod, o):
        k = o[0]
        if k == 'int':
            if o[2].bits == 1:
                return bool(o[1])
            if self.bv and o[2].bits in (8, 16, 32, 64):
                return o[1]
            return o[1]
        if k == 'null':
            return NULL
        if k == 'undef':
            return self.undef_of(st, o[1])
        if k == 'zero':
            return self.zero_of(o[1])
        if k == 'func':
            n = mod.aliases.get(o[1], o[1])
            return FnPtr(n)
        if k == 'global':
            return self.global_ptr(st, mod, o[1])
        if k == 'fp':
            return self.fconst(o[1])
        if k == 'cexpr':
            op, ops, src, ty = o[1], o[2], o[3], o[4]
            if op == 'gep':
                base = self.const(st, mod, ops[0])
                return self.gep(st, base, src, [(x, x[2] if x[0] == 'int' else None) for x in ops[1:]],
                                lambda x: self.const(st, mod, x))
            if op in ('bitcast', 'addrspacecast'):
                return self.const(st, mod, ops[0])
            if op == 'inttoptr':
                return self.int_to_ptr(self.const(st, mod, ops[0]))
            if op == 'ptrtoint':
                return self.ptr_to_int(self.const(st, mod, ops[0]))
            a = [self.const(st, mod, x) for x in ops]
            if op in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr'):
                return self.arith(st, op, a[0], a[1], ty.bits)
            raise Unsupported("constant expression " + str(op))
        if k == 'agg':
            return tuple(self.const(st, mod, x) for x in o[1])
        if k == 'bytes':
            return tuple(o[1])
        if k == 'md':
            return ('md', o[1])
        raise Unsupported("constant %r" % (o,))

    def fconst(self, v):
        return z3.Const("f_%r" % v, FSort)

    def global_ptr(self, st, mod, name):
        key = name
        g = self.P.global_var(mod, name)
        if g is not None and not name.startswith('_Z') and name.startswith('.'):
            key = (id(mod), name)
        elif g is not None and name.startswith('_ZL'):
            key = (id(mod), name)
        if key not in self.gobj:
            self.objctr += 1
            self.gobj[key] = self.objctr
            self.gname[self.objctr] = name
        i = self.gobj[key]
        if i not in st.mem:
            cells = {}
            kind = 'global'
            if g is not None and g.const:
                kind = 'const'
                init = g.initializer() if not g.decl else None
                if init is not None:
                    self.init_cells(st, g.mod, cells, 0, init, g.ty)
            elif g is not None and self.fresh_process and not g.decl:
                # the program starts: static storage has its initial value
                init = g.initializer()
                if init is not None:
                    self.init_cells(st, g.mod, cells, 0, init, g.ty)
            st.mem[i] = Obj(i, 'g_' + name[-30:], kind, None, cells, False, g.ty.size if g else None)
            if self.global_hook:
                self.global_hook(self, st, name, demangle(name), Ptr(i, 0))
        return Ptr(i, 0)

    def reset_tls(self, st):
        """from here on another thread runs: its thread-local objects are as at thread start"""
        for key, i in self.gobj.items():
            if i in st.mem:
                g = next((m.globals.get(self.gname[i]) for m in self.P.mods if m.globals.get(self.gname[i]) is not None and not m.globals.get(self.gname[i]).decl), None)
                if g is not None and g.tls:
                    del st.mem[i]

    def init_cells(self, st, mod, cells, off, c, ty):
        if c[0] == 'bytes':
            cells[off] = (ty.size, self.const_seq(st, c[1]))
        elif c[0] == 'agg' and ty.k == 'array' and ty.elem.k == 'int' and all(x[0] == 'int' for x in c[1]):
            e = {8: 'unsigned char', 16: 'unsigned short', 32: 'unsigned int', 64: 'unsigned long'}[ty.elem.bits]
            cells[off] = (ty.size, self.const_seq(st, [x[1] for x in c[1]], e))
        elif c[0] == 'agg':
            for i, x in enumerate(c[1]):
                if ty.k == 'array':
                    self.init_cells(st, mod, cells, off + i * ty.elem.size, x, ty.elem)
                else:
                    self.init_cells(st, mod, cells, off + ty.offs[i], x, ty.elems[i])
        elif c[0] == 'zero' and ty.k in ('struct', 'array'):
            if ty.k == 'array' and ty.elem.k == 'int' and ty.elem.bits >= 8:
                e = {8: 'unsigned char', 16: 'unsigned short', 32: 'unsigned int', 64: 'unsigned long'}[ty.elem.bits]
                cells[off] = (ty.size, Seq(e, ty.n, [(0, e, [z3.K(IntS, z3.IntVal(0))])], fixed=True))
            elif ty.k == 'array':
                for i in range(ty.n):
                    self.init_cells(st, mod, cells, off + i * ty.elem.size, ('zero', ty.elem), ty.elem)
            else:
                for i, e in enumerate(ty.elems):
                    self.init_cells(st, mod, cells, off + ty.offs[i], ('zero', e), e)
        elif c[0] == 'undef':
            pass
        else:
            try:
                v = self.const(st, mod, c)
            except Unsupported:
                return
            cells[off] = (ty.size, v)

    # ------------------------------------------------------------------ gep
    def as_signed64(self, st, i, ty):
        bits = ty.bits if ty is not None else 64
        if isinstance(i, int):
            return self.signed(i, bits)
        if z3.is_bv(i):
            if z3.is_app_of(i, z3.Z3_OP_ZERO_EXT):
                return z3.BV2Int(i.arg(0))
            i = z3.BV2Int(i)
        if z3.is_int_value(i):
            return self.signed(i.as_long(), bits)
        if self.entails_fast(st, i < (1 << (bits - 1))):
            return i
        return self.signed(i, bits)

    def gep(self, st, p, src, idxs, ev):
        """idxs: [(operand, type)]"""
        if isinstance(p, VTab):
            i = ev(idxs[-1][0])
            return VTab(p.ptr, p.cls, p.slot + i)
        coff = 0
        sym = []     # (index term, element size)
        ty = src
        first = True
        for o, ity in idxs:
            i = ev(o)
            i = self.as_signed64(st, i, ity)
            if first:
                sz = ty.size
                first = False
            elif ty.k == 'struct':
                coff += ty.offs[i]
                ty = ty.elems[i]
                continue
            elif ty.k == 'array':
                ty = ty.elem
                sz = ty.size
            else:
                raise Unsupported("gep into %r" % ty)
            if isinstance(i, int):
                coff += i * sz
            else:
                sym.append((i, sz))
        return self.padd(st, p, coff, sym)

    def padd(self, st, p, coff, sym=()):
        sym = list(sym)
        if isinstance(p, (int,)) or isz(p):
            p = self.int_to_ptr(p)
        if isinstance(p, Ptr):
            if p.obj is None:
                if not sym:
                    return Ptr(None, coff) if coff else NULL
                raise Unsupported("arithmetic on null")
            o = st.mem.get(p.obj)
            if not sym:
                q = Ptr(p.obj, p.off + coff)
                return q
            s = self.find_seq(o, p.off) if o is not None else None
            if not s:
                raise Unsupported("symbolic offset into %s+%d" % (o.name if o else '?', p.off))
            es = self.T.size(s[1].elem)
            rel = p.off - s[0]
            return self.padd(st, EPtr(Ptr(p.obj, s[0]), rel // es, rel % es), coff, sym)
        if isinstance(p, EPtr):
            if p.cont == HEAP:
                if sym:
                    raise Unsupported("symbolic offset on a heap pointer")
                return EPtr(HEAP, p.idx, p.off + coff)
            c = self.peek_cont(st, p.cont)
            es = self.T.size(c.elem) if isinstance(c, Seq) else None
            if es is None:
                if sym:
                    raise Unsupported("symbolic offset into a map node")
                return EPtr(p.cont, p.idx, p.off + coff)
            idx = p.idx
            off = p.off + coff
            for i, sz in sym:
                if sz % es == 0:
                    idx = self.addi(idx, self.muli(i, sz // es))
                else:
                    raise Unsupported("symbolic offset inside an element")
            if off < 0 or off >= es:
                idx = self.addi(idx, off // es)
                off = off % es
            return EPtr(p.cont, idx, off)
        if isinstance(p, (MapIt, Abs)) and coff == 0 and not sym:
            return p
        raise Unsupported("pointer arithmetic on %r" % (p,))

    def peek_cont(self, st, c):
        if isinstance(c, Ptr):
            o = st.mem.get(c.obj)
            x = o.cells.get(c.off) if o is not None else None
            return x[1] if x else None
        if isinstance(c, EPtr):
            f = self.on_access
            self.on_access = None
            try:
                return self.get_abs(st, c)
            finally:
                self.on_access = f
        return None

    def addi(self, a, b):
        if isinstance(a, int) and isinstance(b, int):
            return a + b
        if isinstance(b, int) and b == 0:
            return a
        if isinstance(a, int) and a == 0:
            return b
        return z3.simplify(toz(a) + toz(b))

    def muli(self, a, k):
        if isinstance(a, int):
            return a * k
        return a if k == 1 else a * k

    # ------------------------------------------------------------------ aggregates
    def load_any(self, st, p, ty):
        if ty.k in ('struct', 'array'):
            r = []
            if ty.k == 'struct':
                for e, o in zip(ty.elems, ty.offs):
                    r.append(self.load_any(st, self.padd(st, p, o), e))
            else:
                for i in range(ty.n):
                    r.append(self.load_any(st, self.padd(st, p, i * ty.elem.size), ty.elem))
            return tuple(r)
        return self.load(st, p, ty)

    def store_any(self, st, p, v, ty):
        if ty.k == 'struct':
            for e, o, x in zip(ty.elems, ty.offs, v):
                self.store_any(st, self.padd(st, p, o), x, e)
        elif ty.k == 'array':
            for i in range(ty.n):
                self.store_any(st, self.padd(st, p, i * ty.elem.size), v[i], ty.elem)
        else:
            if ty.k == 'int' and ty.bits == 1:
                v = self.zext(v, 1)
            self.store(st, p, v, ty.size)

    def zext(self, v, bits):
        if isinstance(v, bool):
            return int(v)
        if isz(v) and z3.is_bool(v):
            return z3.If(v, z3.IntVal(1), z3.IntVal(0))
        return v

    # ------------------------------------------------------------------ function execution
    def run(self, st, fn, args, depth=0):
        """symbolically execute the body of fn -> outcomes"""
        if depth > self.max_depth:
            raise Unsupported("inlining depth exceeded in " + fn.demangled)
        rpo, loops = analyse(fn)
        fr = Frame(fn, args, depth)
        self.stack.append(fn.demangled)
        saved_line = self.cur_line
        try:
            outs = []
            pend = {0: [Pt(st, {}, None, fn.blocks[0])]}
            self.region(fr, pend, None, None, outs, None)
            return outs
        finally:
            self.stack.pop()
            self.cur_line = saved_line

    def region(self, fr, pend, inside, header, outs, exits):
        """run pending points inside the block set `inside` (None = whole function).
        points that leave it go to exits (list), back edges to header are collected there too as ('back', pt)"""
        rpo, loops = analyse(fr.fn)
        while pend:
            self.check_time()
            b = min(pend, key=lambda i: rpo[i])
            pts = pend.pop(b)
            if b in loops and b != header:
                pts = self.merge_all(pts, 1)
                for pt in pts:
                    for q in self.cut_loop(fr, pt, b, loops[b], outs):
                        self.route(q, pend, inside, header, exits)
                continue
            if len(pts) > self.merge_threshold:
                pts = self.merge_all(pts, self.merge_threshold)
            for pt in pts:
                for q in self.block(fr, pt, outs):
                    self.route(q, pend, inside, header, exits)

    def route(self, q, pend, inside, header, exits):
        i = q.blk.idx
        if inside is not None and (i == header or i not in inside):
            exits.append(q)
        else:
            pend.setdefault(i, []).append(q)

    # ------------------------------------------------------------------ one basic block
    def block(self, fr, pt, outs):
        """execute a block; returns successor points, appends function outcomes to outs"""
        states = [(pt.st, pt.regs)]
        blk = pt.blk
        # phis
        phis = []
        i = 0
        while blk.instrs[i].op == 'phi':
            ins = blk.instrs[i]
            for b, v in ins.x:
                if b is pt.prev:
                    phis.append((ins.id, self.val(pt.st, fr, pt.regs, v)))
                    break
            else:
                raise Unsupported("phi without matching predecessor")
            i += 1
        if phis:
            pt.regs = dict(pt.regs)
            for k, v in phis:
                pt.regs[k] = v
        res = []
        self.body(fr, blk, i, pt.st, pt.regs, pt, res, outs)
        return res

    def body(self, fr, blk, i, st, regs, pt, res, outs):
        n = len(blk.instrs)
        while i < n:
            ins = blk.instrs[i]
            if ins.line:
                self.cur_line = ins.line
                self.cur_fn = fr.fn
            op = ins.op
            try:
                if op in ('call', 'invoke'):
                    ocs = self.do_call(fr, ins, st, regs)
                    if ocs is None:
                        i += 1
                        continue
                    if op == 'call':
                        norms = []
                        for oc in ocs:
                            if oc.exc is not None:
                                outs.append(oc)
                            else:
                                norms.append(oc)
                        norms = self.merge_outcomes(norms)
                        if not norms:
                            return
                        for oc in norms[1:]:
                            r2 = dict(regs)
                            r2[ins.id] = oc.ret
                            self.body(fr, blk, i + 1, oc.st, r2, pt, res, outs)
                        st = norms[0].st
                        if len(norms) > 1:
                            regs = dict(regs)
                        regs[ins.id] = norms[0].ret
                        i += 1
                        continue
                    norms = self.merge_outcomes([o for o in ocs if o.exc is None])
                    for oc in norms:
                        r2 = dict(regs)
                        r2[ins.id] = oc.ret
                        res.append(Pt(oc.st, r2, blk, ins.x['normal']))
                    for oc in ocs:
                        if oc.exc is None:
                            continue
                        r2 = dict(regs)
                        oc.st.ghost['inflight'] = oc.exc
                        res.append(Pt(oc.st, r2, blk, ins.x['unwind']))
                    return
                if op == 'ret':
                    v = self.val(st, fr, regs, ins.ops[0]) if ins.ops else None
                    outs.append(Outcome(st, v))
                    return
                if op == 'br':
                    if not ins.ops:
                        res.append(Pt(st, regs, blk, ins.x['succs'][0]))
                        return
                    c = self.val(st, fr, regs, ins.ops[0])
                    t, f = ins.x['succs']
                    # LLVM stores operands of a conditional branch reversed; getSuccessor is in order (true, false)
                    for s2, blk2 in self.split(st, c, t, f, ins.line):
                        res.append(Pt(s2, dict(regs), blk, blk2))
                    return
                if op == 'switch':
                    c = self.val(st, fr, regs, ins.ops[0])
                    succs = ins.x['succs']
                    rest = st
                    for v, b in zip(ins.x['vals'], succs[1:]):
                        if rest is None:
                            break
                        cond = self.icmp('eq', c, v[1], self.mkint(v[2].bits))
                        sp = self.split(rest, cond, b, None, ins.line)
                        rest = None
                        for s2, blk2 in sp:
                            if blk2 is None:
                                rest = s2
                            else:
                                res.append(Pt(s2, dict(regs), blk, blk2))
                    if rest is not None:
                        res.append(Pt(rest, dict(regs), blk, succs[0]))
                    return
                if op == 'resume':
                    v = self.val(st, fr, regs, ins.ops[0])
                    e = v[0]
                    if not isinstance(e, Exc):
                        raise Unsupported("resume of %r" % (e,))
                    outs.append(Outcome(st, None, e))
                    return
                if op == 'unreachable':
                    if not self.noreturn_ok(st):
                        self.oblige(st, False, "unreachable code is not reached")
                    return
                if op == 'landingpad':
                    lps = self.landingpad(st, ins)
                    # continue unwinding if nothing matches
                    first = None
                    for s2, v in lps:
                        if v is None:
                            e = s2.ghost.pop('inflight')
                            outs.append(Outcome(s2, None, e))
                        elif first is None:
                            first = (s2, v)
                        else:
                            r2 = dict(regs)
                            r2[ins.id] = v
                            self.body(fr, blk, i + 1, s2, r2, pt, res, outs)
                    if first is None:
                        return
                    st = first[0]
                    regs[ins.id] = first[1]
                    i += 1
                    continue
                regs[ins.id] = self.simple(fr, ins, st, regs)
            except NullDeref:
                self.oblige(st, False, "no null pointer dereference")
                return
            i += 1

    def noreturn_ok(self, st):
        return True

    def mkint(self, bits):
        t = Ty('int')
        t.bits = bits
        t.size = (bits + 7) // 8
        return t

    def split(self, st, c, a, b, line=0):
        """-> feasible [(state, target)]"""
        if isinstance(c, bool):
            return [(st, a if c else b)]
        c = self.to_bool(c)
        if isinstance(c, bool):
            return [(st, a if c else b)]
        nc = z3.simplify(z3.Not(c))
        r = []
        if c.get_id() in st.fact_ids:
            return [(st, a)]
        if self.feasible(st, c):
            if not self.feasible(st, nc):
                st.branch(c)
                return [(st, a)]
            s2 = st.copy()
            s2.branch(c)
            s2.path = s2.path + ((line, True),)
            st.branch(nc)
            st.path = st.path + ((line, False),)
            return [(s2, a), (st, b)]
        st.branch(nc)
        return [(st, b)] if self.feasible(st) else []

    # ------------------------------------------------------------------ exceptions
    def exc_matches(self, t, catch):
        """True / False / None (unknown)"""
        if catch is None:
            return True
        if t == 'any':
            return None
        x = t
        while x is not None:
            if x == catch:
                return True
            if x in self.exc_base:
                x = self.exc_base[x]
            else:
                b = self.L.bases_of(x)[1:]
                if catch in b:
                    return True
                x = b[0] if b else None
        return False

    def typeid(self, name):
        if name not in self._tids:
            self._tids[name] = len(self._tids) + 1
        return self._tids[name]

    def ti_name(self, c):
        """catch clause constant -> class name or None for catch-all"""
        if c[0] == 'null':
            return None
        if c[0] == 'global':
            d = demangle(c[1])
            return norm(re.sub(r'^typeinfo for ', '', d))
        return 'unknown-clause'

    def landingpad(self, st, ins):
        e = st.ghost.get('inflight')
        x = ins.x
        res = []
        cur = st
        for cl in x['clauses']:
            if cl[0] in ('zero', 'agg'):
                # exception specification filter (noexcept): treated as terminate
                continue
            n = self.ti_name(cl)
            m = self.exc_matches(e.type, n)
            if m is False:
                continue
            sel = self.typeid(n if n is not None else '...')
            if m is True:
                cur.ghost.pop('inflight', None)
                res.append((cur, (e, sel)))
                return res
            s2 = cur.copy()
            s2.branch(fresh('exc_is_' + re.sub(r'\W', '_', str(n)), BoolS))
            s2.ghost.pop('inflight', None)
            res.append((s2, (Exc(n, e.ptr, e.info), sel)))
        if x['cleanup']:
            cur.ghost.pop('inflight', None)
            res.append((cur, (e, 0)))
        else:
            res.append((cur, None))
        return res

    # ------------------------------------------------------------------ simple instructions
    def simple(self, fr, ins, st, regs):
        op = ins.op
        V = lambda o: self.val(st, fr, regs, o)
        if op == 'alloca':
            return self.alloca(st, ins.x, ins.name)
        if op == 'load':
            p = V(ins.ops[0])
            if isinstance(p, VTab):
                return VFn(p.ptr, p.cls, p.slot)
            if isinstance(p, (int,)) or (isz(p)):
                p = self.int_to_ptr(p)
            if ins.ty.k == 'ptr' and ins.name.startswith('vtable') and isinstance(p, (Ptr, EPtr)):
                if isinstance(p, Ptr) and p.obj in st.mem:
                    c = st.mem[p.obj].cells.get(p.off)
                    if c is not None and isinstance(c[1], Ptr) and c[1].obj in st.mem and st.mem[c[1].obj].name == 'vbase offsets':
                        return c[1]
                if isinstance(p, EPtr) and p.cont == HEAP and not isinstance(p.idx, int):
                    p = self.deref(st, p)
                if isinstance(p, Ptr):
                    o = self.obj(st, p)
                    c = o.cells.get(p.off)
                    if c is not None and isinstance(c[1], Ptr) and c[1].obj in self.gname:
                        d = demangle(self.gname[c[1].obj])
                        if d.startswith('vtable for '):
                            return VTab(p, ('dyn', norm(d[len('vtable for '):])), 0)
                    if o.cls is not None and p.off == 0:
                        return VTab(p, ('dyn', o.cls), 0)
                return VTab(p, None, 0)
            if ins.x[0] != 'na' and self.on_atomic is not None:
                r = self.on_atomic(self, st, 'load', p, None, ins.x[0], ins.x[1])
                if r is not None:
                    return r
            return self.load_any(st, p, ins.ty)
        if op == 'store':
            v, p = V(ins.ops[0]), V(ins.ops[1])
            if isinstance(p, (int,)) or (isz(p)):
                p = self.int_to_ptr(p)
            if ins.x[0] != 'na' and self.on_atomic is not None:
                r = self.on_atomic(self, st, 'store', p, v, ins.x[0], ins.x[1])
                if r is not None and r is not False:
                    return None
            self.store_any(st, p, v, ins.x[1])
            return None
        if op == 'gep':
            tys = []
            for o in ins.ops[1:]:
                tys.append((o, self.opty(fr, o)))
            return self.gep(st, V(ins.ops[0]), ins.x, tys, V)
        if op == 'icmp':
            a, b = V(ins.ops[0]), V(ins.ops[1])
            if self.cmp_log is not None:
                for x in (a, b):
                    if isz(x) and x.sort() == IntS:
                        self.cmp_log.append(x)
            return self.icmp(ins.x[0], a, b, ins.x[1])
        if op in ('add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor'):
            a, b = V(ins.ops[0]), V(ins.ops[1])
            if op == 'sub' and isinstance(a, tuple) and isinstance(b, tuple) and a and b and a[0] == 'pint' and b[0] == 'pint':
                return self.ptr_diff(st, a[1], b[1])
            a, b = self.unpint(a), self.unpint(b)
            if op in ('sdiv',) and isinstance(b, int) and isz(a) and self.pdiffs.get(a.get_id()) is not None:
                pass
            return self.arith(st, op, a, b, ins.ty.bits)
        if op in ('trunc', 'zext', 'sext'):
            v = V(ins.ops[0])
            fb, tb = ins.x.bits, ins.ty.bits
            v = self.unpint(v)
            if op == 'trunc':
                if tb == 1:
                    return self.to_bool(v)
                if isinstance(v, int):
                    return v % (1 << tb)
                if z3.is_bv(v):
                    return z3.Extract(tb - 1, 0, v)
                if z3.is_bool(v):
                    return self.zext(v, tb)
                if self.entails_fast(st, v < (1 << tb)):
                    return v
                return v % (1 << tb)
            if op == 'zext':
                if z3.is_bv(v) if isz(v) else False:
                    return z3.ZeroExt(tb - fb, v)
                if self.bv and isz(v) and z3.is_bool(v):
                    return z3.If(v, z3.BitVecVal(1, tb), z3.BitVecVal(0, tb))
                return self.zext(v, tb)
            # sext
            if isinstance(v, bool):
                return (1 << tb) - 1 if v else 0
            if isinstance(v, int):
                return self.signed(v, fb) % (1 << tb)
            if z3.is_bool(v):
                return z3.If(v, z3.IntVal((1 << tb) - 1), z3.IntVal(0))
            if z3.is_bv(v):
                return z3.SignExt(tb - fb, v)
            if self.entails_fast(st, v < (1 << (fb - 1))):
                return v
            return z3.If(v >= (1 << (fb - 1)), v + ((1 << tb) - (1 << fb)), v)
        if op == 'ptrtoint':
            p = V(ins.ops[0])
            if isinstance(p, (EPtr,)) and p.cont != HEAP:
                return ('pint', p)
            if isinstance(p, Ptr) and p.obj is not None:
                return ('pint', p)
            if isinstance(p, (VFn, VTab)):
                return ('pint', p)
            return self.ptr_to_int(p)
        if op == 'inttoptr':
            v = V(ins.ops[0])
            if isinstance(v, tuple) and v[0] == 'pint':
                return v[1]
            return self.int_to_ptr(v)
        if op in ('bitcast', 'freeze', 'addrspacecast'):
            return V(ins.ops[0])
        if op == 'select':
            c, a, b = (V(o) for o in ins.ops)
            if isinstance(c, bool):
                return a if c else b
            return self.ite_val(st, c, a, b)
        if op == 'extractvalue':
            v = V(ins.ops[0])
            for k in ins.x:
                v = v[k]
            return v
        if op == 'insertvalue':
            agg, v = V(ins.ops[0]), V(ins.ops[1])
            return self.insval(agg, ins.x, v)
        if op == 'atomicrmw':
            p, v = V(ins.ops[0]), V(ins.ops[1])
            if self.on_atomic is not None:
                r = self.on_atomic(self, st, 'rmw_' + ins.x[0], p, v, ins.x[1], ins.x[2])
                if r is not None:
                    return r
            old = self.load(st, p, ins.x[2])
            new = v if ins.x[0] == 'xchg' else self.arith(st, ins.x[0], old, v, ins.x[2].bits)
            self.store(st, p, new, ins.x[2].size)
            return old
        if op == 'cmpxchg':
            p, e, n = (V(o) for o in ins.ops[:3])
            if self.on_atomic is not None:
                r = self.on_atomic(self, st, 'cmpxchg', p, (e, n), ins.x[0], ins.x[2])
                if r is not None:
                    return r
            old = self.load(st, p, ins.x[2])
            ok = self.icmp('eq', old, e, ins.x[2])
            self.store(st, p, self.ite_val(st, ok, n, old), ins.x[2].size)
            return (old, ok)
        if op == 'fence':
            if self.on_atomic is not None:
                self.on_atomic(self, st, 'fence', None, None, ins.x, None)
            return None
        if op in ('sitofp', 'uitofp'):
            v = self.unpint(V(ins.ops[0]))
            f = z3.Function('itof_' + op, IntS, FSort)
            if op == 'sitofp':
                v = self.signed(v, ins.x.bits)
            return f(toz(v))
        if op in ('fadd', 'fsub', 'fmul', 'fdiv'):
            f = z3.Function(op, FSort, FSort, FSort)
            return f(V(ins.ops[0]), V(ins.ops[1]))
        if op in ('fpext', 'fptrunc'):
            return V(ins.ops[0])
        if op in ('fptosi', 'fptoui'):
            f = z3.Function(op + str(ins.ty.bits), FSort, IntS)
            r = f(V(ins.ops[0]))
            st.fact(z3.And(r >= 0, r < 2 ** ins.ty.bits))
            return r
        if op == 'fneg':
            return z3.Function('fneg', FSort, FSort)(V(ins.ops[0]))
        if op == 'fcmp':
            return z3.Function('fcmp_' + ins.x[0], FSort, FSort, BoolS)(V(ins.ops[0]), V(ins.ops[1]))
        raise Unsupported("instruction " + op)

    def unpint(self, v):
        if isinstance(v, tuple) and v and v[0] == 'pint':
            self.take_addr(v[1])
            return self.ptr_to_int(v[1])
        return v

    def ptr_diff(self, st, a, b):
        """byte distance between two pointers into one sequence"""
        if isinstance(a, EPtr) and isinstance(b, EPtr) and ckey(a.cont) == ckey(b.cont):
            c = self.peek_cont(st, a.cont)
            if isinstance(c, Seq):
                es = self.T.size(c.elem)
                d = (toz(a.idx) - toz(b.idx)) * es + (a.off - b.off)
                d = z3.simplify(d)
                if z3.is_int_value(d):
                    return d.as_long() % (1 << 64)
                if self.entails_fast(st, d >= 0):
                    return d
                return z3.If(d < 0, d + (1 << 64), d)
        if isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj == b.obj:
            return (a.off - b.off) % (1 << 64)
        raise Unsupported("difference of unrelated pointers")

    def insval(self, agg, idx, v):
        l = list(agg)
        if len(idx) == 1:
            l[idx[0]] = v
        else:
            l[idx[0]] = self.insval(agg[idx[0]], idx[1:], v)
        return tuple(l)

    def opty(self, fr, o):
        if o[0] == 'int':
            return o[2]
        if o[0] == 'inst':
            if not hasattr(fr.fn, '_itys'):
                fr.fn._itys = {i.id: i.ty for b in fr.fn.blocks for i in b.instrs}
            return fr.fn._itys[o[1]]
        if o[0] == 'arg':
            return fr.fn.args[o[1]][1]
        return None

    def alloca(self, st, ty, name):
        cells = {}
        self.raw_arrays(ty, 0, cells)
        self.objctr += 1
        i = self.objctr
        for off in cells:
            e, n, sz = cells[off]
            if e == 'fd_set':
                cells[off] = (sz, Tok('fd_set', [z3.Const("fdset%d_%d" % (i, off), z3.ArraySort(IntS, BoolS))]))
                continue
            cells[off] = (sz, Seq(e, n, [(0, e, [z3.Const("raw%d_%d" % (i, off), z3.ArraySort(IntS, IntS))])], fixed=True))
        st.mem[i] = Obj(i, name or 'tmp', 'stack', None, cells, False, ty.size)
        return Ptr(i, 0)

    def raw_arrays(self, ty, off, cells):
        """integer arrays inside plain aggregates become fixed sequences (not inside library classes)"""
        if ty.k == 'array' and ty.elem.k == 'int' and ty.elem.bits >= 8:
            e = {8: 'char', 16: 'unsigned short', 32: 'unsigned int', 64: 'unsigned long'}.get(ty.elem.bits)
            if e:
                cells[off] = (e, ty.n, ty.size)
        elif ty.k == 'struct' and ty.name == 'struct.fd_set':
            cells[off] = ('fd_set', 1, ty.size)
        elif ty.k == 'struct' and ty.elems:
            if ty.name and not ty.name.startswith('struct.std::array') and (ty.name.startswith(('class.std::', 'struct.std::', 'class.nlohmann')) or 'basic_string' in ty.name):
                return
            for e, o in zip(ty.elems, ty.offs or []):
                self.raw_arrays(e, off + o, cells)

    # ------------------------------------------------------------------ merging
    def ite_val(self, st, c, a, b):
        if same(a, b):
            return a
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b) and not (a and isinstance(a[0], str) and a[0] in ('pint', 'md')):
            return tuple(self.ite_val(st, c, x, y) for x, y in zip(a, b))
        if isinstance(a, Abs) or isinstance(b, Abs):
            if type(a) is type(b) and a.key() == b.key():
                ts = [ite(c, x, y) for x, y in zip(a.terms(), b.terms())]
                return a.rebuild(ts)
            if isinstance(a, (Ptr, EPtr)) and isinstance(b, (Ptr, EPtr)):
                ha = isinstance(a, EPtr) and a.cont == HEAP or (isinstance(a, Ptr) and a.obj is None and a.off == 0)
                hb = isinstance(b, EPtr) and b.cont == HEAP or (isinstance(b, Ptr) and b.obj is None and b.off == 0)
                if ha and hb and getattr(a, 'off', 0) == getattr(b, 'off', 0):
                    return EPtr(HEAP, ite(c, toz(a.idx) if isinstance(a, EPtr) else z3.IntVal(0),
                                          toz(b.idx) if isinstance(b, EPtr) else z3.IntVal(0)), a.off)
            if isinstance(a, Ref) and isinstance(b, Ref) and a.kind == b.kind and a.t == b.t:
                return Ref(a.kind, a.t, self.ite_val(st, c, a.p, b.p))
            if isinstance(a, Seq) and isinstance(b, Seq) and a.elem == b.elem and a.fixed == b.fixed and len(a.leaves) == len(b.leaves):
                a2 = Seq(a.elem, a.n, a.leaves, None, None, a.fixed)
                b2 = Seq(b.elem, b.n, b.leaves, None, None, b.fixed)
                if a.blob is not None or b.blob is not None:
                    bl = ite(c, self.blob_of(st, a), self.blob_of(st, b))
                    return Seq(a.elem, blen(bl), [(0, a.elem, [barr(bl)])], bl)
                return a2.rebuild([ite(c, x, y) for x, y in zip(a2.terms(), b2.terms())])
            raise NoMerge("%r / %r" % (a, b))
        if a is None or b is None:
            return None
        if isinstance(a, (str, Exc)) or isinstance(b, (str, Exc)) or isinstance(a, dict):
            raise NoMerge("opaque")
        if isinstance(a, tuple) or isinstance(b, tuple):
            raise NoMerge("tuple")
        # sorts must agree
        za, zb = toz(a), toz(b)
        if za.sort() != zb.sort():
            if z3.is_bool(za) and zb.sort() == IntS:
                za = self.zext(za, 8)
            elif z3.is_bool(zb) and za.sort() == IntS:
                zb = self.zext(zb, 8)
            elif z3.is_bv(za) and zb.sort() == IntS and z3.is_int_value(zb):
                zb = z3.BitVecVal(zb.as_long(), za.size())
            elif z3.is_bv(zb) and za.sort() == IntS and z3.is_int_value(za):
                za = z3.BitVecVal(za.as_long(), zb.size())
            else:
                raise NoMerge("sorts")
        return ite(c, za, zb)

    def merge2(self, a, b, ra, rb):
        """merge states a and b (and register dicts / result values); raises NoMerge"""
        if set(a.held) != set(b.held) or any(not same_plain(a.held[k], b.held[k]) for k in a.held):
            raise NoMerge("locks")
        sel = fresh('sel', BoolS)
        m = State()
        m.path = a.path[:-1]
        ida = {f.get_id() for _, f in a.pc}
        idb = {f.get_id() for _, f in b.pc}
        for t, f in a.pc:
            if f.get_id() in idb:
                m.pc.append((t, f))
                m.fact_ids.add(f.get_id())
        onlya = [(t, f) for t, f in a.pc if f.get_id() not in idb]
        onlyb = [(t, f) for t, f in b.pc if f.get_id() not in ida]
        for c, only in ((sel, onlya), (z3.Not(sel), onlyb)):
            for t, f in only:
                m.branch(z3.Implies(c, f)) if t == 'b' else m.fact(z3.Implies(c, f))
        ida_ = set(a.mem)
        for oid in ida_ | set(b.mem):
            x, y = a.mem.get(oid), b.mem.get(oid)
            if x is None or y is None:
                m.mem[oid] = x or y
                continue
            if x is y:
                m.mem[oid] = x
                continue
            cells = {}
            offs = set(x.cells) | set(y.cells)
            for off in offs:
                cx, cy = x.cells.get(off), y.cells.get(off)
                if cx is None or cy is None:
                    # untouched on one side: initial value there; keep it only if it is the initial value on the other
                    c = cx or cy
                    if x.kind == 'stack':
                        # dead or uninitialised temporary on the other path
                        cells[off] = c
                        continue
                    ini = self.initial_cell(m, x, off, c)
                    if ini is None:
                        raise NoMerge("cell %s+%d" % (x.name, off))
                    if cx is None:
                        cx = ini
                    else:
                        cy = ini
                if cx[0] != cy[0]:
                    raise NoMerge("cell size")
                try:
                    cells[off] = (cx[0], self.ite_val(m, sel, cx[1], cy[1]))
                except NoMerge:
                    if x.kind == 'stack' and not self.live_hint(x):
                        continue
                    raise
            m.mem[oid] = x.with_cells(cells)
        for k in set(a.heap) | set(b.heap):
            x, y = a.heap.get(k), b.heap.get(k)
            if x is None or y is None:
                base = self._heap0[k]
                x, y = x or base, y or base
            m.heap[k] = [ite(sel, p, q) for p, q in zip(x, y)]
        m.held = dict(a.held)
        for k in set(a.ghost) | set(b.ghost):
            x, y = a.ghost.get(k), b.ghost.get(k)
            if k in ('caught', 'inflight'):
                if not same_plain(x, y):
                    raise NoMerge("exceptions in flight")
                m.ghost[k] = x
                continue
            if x is None or y is None:
                if x is None and y is None:
                    m.ghost[k] = None
                    continue
                raise NoMerge("ghost " + str(k))
            m.ghost[k] = self.ite_val(m, sel, x, y)
        rr = None
        if isinstance(ra, dict):
            rr = {}
            for k in ra:
                if k in rb:
                    try:
                        rr[k] = self.ite_val(m, sel, ra[k], rb[k])
                    except NoMerge:
                        pass
        elif ra is not None:
            rr = self.ite_val(m, sel, ra, rb)
        return m, rr

    def live_hint(self, o):
        return True

    def initial_cell(self, st, o, off, c):
        v = c[1]
        if o.zero:
            return None
        if isinstance(v, Abs):
            try:
                t = self.type_of_abs(v)
            except Unsupported:
                return None
            if isinstance(v, (Ptr, EPtr)):
                return None
            return (c[0], self.fresh_leaf(st, t, "%s#%d_%d" % (o.name, o.id, off), True))
        ty = self.mkint(c[0] * 8)
        if isz(v) and v.sort() == FSort:
            return None
        return (c[0], self.fresh_scalar(st, ty, "%s#%d_%d" % (o.name, o.id, off), True))

    def merge_all(self, pts, limit):
        """merge points at one block as far as possible (phis must be resolved first)"""
        if len(pts) <= limit:
            return pts
        blk = pts[0].blk
        if blk.instrs[0].op == 'phi':
            # resolve phis before merging: group by predecessor
            groups = {}
            for p in pts:
                groups.setdefault(id(p.prev), []).append(p)
            if len(groups) > 1:
                res = []
                for g in groups.values():
                    res += self.merge_all(g, 1) if len(g) > 1 else g
                return res
        res = []
        for p in pts:
            done = False
            for q in res:
                if blk.instrs[0].op == 'phi' and q.prev is not p.prev:
                    continue
                if blk.instrs[0].op == 'landingpad' and not same_plain(q.st.ghost.get('inflight'), p.st.ghost.get('inflight')):
                    continue
                try:
                    st, regs = self.merge2(q.st, p.st, q.regs, p.regs)
                except NoMerge as e:
                    if DEBUG:
                        print("   nomerge:", e)
                    continue
                q.st, q.regs = st, regs
                done = True
                break
            if not done:
                res.append(p)
        return res

    def merge_outcomes(self, ocs):
        if len(ocs) <= self.merge_threshold:
            return ocs
        res = []
        for o in ocs:
            done = False
            for q in res:
                if (q.ret is None) != (o.ret is None):
                    continue
                try:
                    st, r = self.merge2(q.st, o.st, (q.ret,) if q.ret is not None else None, (o.ret,) if o.ret is not None else None)
                except NoMerge:
                    continue
                q.st, q.ret = st, r[0] if r is not None else None
                done = True
                break
            if not done:
                res.append(o)
        return res

    # ------------------------------------------------------------------ loops
    def diff(self, a, b, mod):
        """locations whose value differs between a (head) and b (back edge); adds to mod; True if anything new"""
        new = False
        for oid, o in a.mem.items():
            p = b.mem.get(oid)
            if p is None or p is o:
                continue
            for off in set(o.cells) | set(p.cells):
                x, y = o.cells.get(off), p.cells.get(off)
                if ('c', oid, off) in mod:
                    m = mod[('c', oid, off)]
                    if len(m) > 2 and m[2] is not None:
                        ch = self.seq_changes(x, y)
                        if ch is None or not ch <= m[2]:
                            mod[('c', oid, off)] = (m[0], m[1], None if ch is None else m[2] | ch)
                            new = True
                    continue
                if x is not None and y is not None and x[0] == y[0] and same(x[1], y[1]):
                    continue
                if x is None:
                    # lazily created or first written inside the loop
                    ini = self.initial_cell(a, o, off, y)
                    if ini is not None and same(ini[1], y[1]):
                        continue
                v = y if y is not None else x
                mod[('c', oid, off)] = (v[0], v[1], self.seq_changes(x, y))
                new = True
        for k in b.heap:
            x, y = a.heap.get(k), b.heap[k]
            if x is None:
                x = self._heap0[k]
            if not all(p.eq(q) for p, q in zip(x, y)) and ('h', k) not in mod:
                mod[('h', k)] = y
                new = True
        for k, y in b.ghost.items():
            if k in ('inflight', 'caught'):
                continue
            x = a.ghost.get(k)
            if not same(x, y) and ('g', k) not in mod:
                mod[('g', k)] = y
                new = True
        return new

    def seq_changes(self, x, y):
        """which components (-1: length, i: i-th leaf array) of a sequence differ; None: cannot tell"""
        if x is None or y is None:
            return None
        x, y = x[1], y[1]
        if isinstance(x, Map) and isinstance(y, Map) and x.key() == y.key():
            return frozenset(i for i, (p, q) in enumerate(zip(x.terms(), y.terms())) if not p.eq(q))
        if not (isinstance(x, Seq) and isinstance(y, Seq)) or x.elem != y.elem or x.elem in BYTES:
            return None
        ax = [a for o, l, aa in x.leaves for a in aa]
        ay = [a for o, l, aa in y.leaves for a in aa]
        if len(ax) != len(ay):
            return None
        ch = {i for i, (p, q) in enumerate(zip(ax, ay)) if not p.eq(q)}
        if not same(x.n, y.n):
            ch.add(-1)
        return frozenset(ch)

    def havoc_val(self, st, v, name):
        """fresh value of the same shape"""
        if isinstance(v, tuple):
            return tuple(self.havoc_val(st, x, name) for x in v)
        if isinstance(v, Ref):
            p = self.havoc_val(st, v.p, name)
            return Ref(v.kind, v.t, p)
        if isinstance(v, (FnPtr, VTab, VFn, Closure)):
            raise Unsupported("loop changes %r" % (v,))
        if isinstance(v, Ptr):
            x = fresh(name + '!hv')
            st.fact(x >= 0)
            return EPtr(HEAP, x, 0)
        if isinstance(v, Seq):
            if v.elem in BYTES and not v.fixed:
                return self.unpack_leaf(st, 'std::string' if v.elem == 'char' else 'std::vector<%s>' % v.elem, [fresh(name + '!hv', Blob)])
            leaves = [(o, t, [fresh(name + '!hv', a.sort()) for a in aa]) for o, t, aa in v.leaves]
            n = v.n if v.fixed else fresh(name + '_n!hv')
            if not v.fixed:
                st.fact(n >= 0)
            return Seq(v.elem, n, leaves, None, None, v.fixed)
        if isinstance(v, Map):
            m = v.rebuild([fresh(name + '!hv', t.sort()) for t in v.terms()])
            self.map_facts(st, m)
            return m
        if isinstance(v, MapIt):
            r = v.rebuild([fresh(name + '!hv', t.sort()) for t in v.terms()])
            return r
        if isinstance(v, Abs):
            r = v.rebuild([fresh(name + '!hv', t.sort()) for t in v.terms()])
            return r
        if isinstance(v, bool):
            return fresh(name, BoolS)
        if isinstance(v, int):
            x = fresh(name)
            return x
        if isz(v):
            return fresh(name, v.sort())
        raise Unsupported("loop changes %r" % (v,))

    def gen_pair(self, st, x, y):
        """representation that can hold both the value before the loop (x) and the value after an iteration (y)"""
        if x is None:
            return y
        if isinstance(y, Abs) and isinstance(x, Abs):
            if isinstance(x, Ref) and isinstance(y, Ref):
                return Ref(x.kind, x.t, self.gen_pair(st, x.p, y.p))
            if isinstance(x, (Ptr, EPtr)) and isinstance(y, (Ptr, EPtr)):
                if x.key() == y.key():
                    return y
                if isinstance(x, Ptr) and isinstance(y, EPtr) and y.cont != HEAP or \
                   isinstance(y, Ptr) and isinstance(x, EPtr) and x.cont != HEAP or \
                   isinstance(x, Ptr) and isinstance(y, Ptr) and x.obj == y.obj and x.obj is not None:
                    a = self.to_eptr(st, x)
                    b = self.to_eptr(st, y)
                    if a is not None and b is not None and a.key() == b.key():
                        return b
                return EPtr(HEAP, z3.IntVal(0), 0)
            if isinstance(x, Seq) and isinstance(y, Seq) and x.elem == y.elem:
                return y
            if x.key() == y.key():
                return y
            raise Unsupported("loop changes the shape of %r / %r" % (x, y))
        return y

    def to_eptr(self, st, p):
        if isinstance(p, EPtr):
            return p
        o = st.mem.get(p.obj)
        if o is None:
            return None
        s = self.find_seq(o, p.off)
        if not s:
            # one past the end
            for co, (sz, v) in o.cells.items():
                if isinstance(v, Seq) and v.fixed and co + sz == p.off:
                    s = (co, v)
        if not s:
            return None
        es = self.T.size(s[1].elem)
        return EPtr(Ptr(p.obj, s[0]), (p.off - s[0]) // es, (p.off - s[0]) % es)

    def havoc(self, st, mod):
        """havoc the locations in mod"""
        for key, proto in mod.items():
            if key[0] == 'c':
                _, oid, off = key
                o = st.mem[oid]
                c = o.cells.get(off)
                if c is None and isinstance(proto[1], Abs) and o.kind == 'stack':
                    # temporary first created inside the loop body: not live at the head
                    continue
                if c is None and o.kind == 'stack':
                    continue
                x = c[1] if c is not None else None
                g = self.gen_pair(st, x, proto[1])
                nm = "%s_%d" % (o.name, off)
                v = self.havoc_val(st, g, nm)
                if len(proto) > 2 and proto[2] is not None and isinstance(x, Seq) and isinstance(v, Seq):
                    i, lv = 0, []
                    for (o1, l1, xa), (o2, l2, va) in zip(x.leaves, v.leaves):
                        na = []
                        for p, q in zip(xa, va):
                            na.append(q if i in proto[2] else p)
                            i += 1
                        lv.append((o1, l1, na))
                    v = Seq(v.elem, v.n if -1 in proto[2] else x.n, lv, None, None, v.fixed)
                if len(proto) > 2 and proto[2] is not None and isinstance(x, Map) and isinstance(v, Map):
                    v = x.rebuild([q if i in proto[2] else p for i, (p, q) in enumerate(zip(x.terms(), v.terms()))])
                    self.map_facts(st, v)
                if isz(v) and v.sort() == IntS:
                    st.fact(z3.And(v >= 0, v < 2 ** (8 * proto[0])))
                st.mem[oid] = st.mem[oid].with_cells({**st.mem[oid].cells, off: (proto[0], v)})
            elif key[0] == 'h':
                st.heap[key[1]] = [fresh('heap!hv', a.sort()) for a in proto]
            elif key[0] == 'g':
                st.ghost[key[1]] = self.havoc_val(st, proto, 'gh_' + str(key[1]).replace(' ', '_'))

    def cut_loop(self, fr, pt, h, blocks, outs):
        """verify one loop from a single head state; returns exit points"""
        fn = fr.fn
        hb = fn.blocks[h]
        head0 = pt.st
        # resolve phis of the header with the entry edge (headers with loop-carried phis do not occur at -O0)
        if hb.instrs[0].op == 'phi':    # destruction of the elements of an array: executed
            r = self.unroll(fr, pt, h, hb, blocks, outs)
            if r is None:
                raise Unsupported("loop-carried phi")
            return r
        lname = "%s:loop@%s" % (parse_sig(fn.demangled).name, hb.name)
        r = self.unroll(fr, pt, h, hb, blocks, outs)
        if r is not None:
            return r
        mod = {}
        self.dry += 1
        ctr0 = _ctr[0]
        log0, self.cmp_log = self.cmp_log, []
        try:
            for rnd in range(8):
                st = head0.copy()
                del self.cmp_log[:]
                self.havoc(st, mod)
                self.assume_loop_basics(st, head0, mod)
                exits, os = [], []
                self.region(fr, {h: [Pt(st.copy(), dict(pt.regs), pt.prev, hb)]}, blocks, h, os, exits)
                new = False
                for q in exits:
                    if q.blk.idx == h:
                        new = self.diff(st, q.st, mod) or new
                if not new:
                    break
            else:
                raise Unsupported("modified set of a loop did not stabilise")
        finally:
            self.dry -= 1
            cmps, self.cmp_log = self.cmp_log, log0
        if self.dry:
            # only the modified set of an enclosing loop is being collected: no invariant needed (over-approximation)
            outs += os
            return [q for q in exits if q.blk.idx != h]
        # candidate invariants
        self.loop_bounds = []
        for x in cmps:
            if z3.is_int_value(x) or any(x.eq(y) for y in self.loop_bounds):
                continue
            if all(int(n.rsplit('!', 1)[1]) <= ctr0 for n in const_names(x) if '!' in n and n.rsplit('!', 1)[1].isdigit()):
                self.loop_bounds.append(x)
        st = head0.copy()
        self.havoc(st, mod)
        self.assume_loop_basics(st, head0, mod)
        self.cur_loop = lname
        cands = self.candidates(fr, head0, st, mod, pt)
        live = []
        for nm, f, req in cands:
            try:
                g0 = f(head0)
            except (Unsupported, KeyError, AttributeError, NullDeref, z3.Z3Exception) as e:
                if DEBUG:
                    print("   cand error", nm, e)
                continue
            if g0 is None:
                continue
            if g0 is not True and not self.entails_full(head0, g0):
                if req:
                    self.oblige(head0.copy(), g0, "loop invariant holds on entry: " + nm)
                continue
            live.append((nm, f, req))
        while True:
            hs = st.copy()
            bad_eval = []
            for c in live:
                nm, f, req = c
                g = f(hs)
                if g is not None and g is not True:
                    hs.fact(g)
            n_obl = len(self.obls)
            self.loop_depth += 1
            exits, os = [], []
            try:
                self.region(fr, {h: [Pt(hs.copy(), dict(pt.regs), pt.prev, hb)]}, blocks, h, os, exits)
            finally:
                self.loop_depth -= 1
            drop = set()
            for q in exits:
                if q.blk.idx != h:
                    continue
                for i, (nm, f, req) in enumerate(live):
                    if i in drop:
                        continue
                    try:
                        g = f(q.st)
                    except (Unsupported, KeyError, AttributeError, NullDeref, z3.Z3Exception):
                        g = False
                    if g is None or g is True:
                        continue
                    if g is False or not self.entails_full(q.st, g):
                        drop.add(i)
                        if DEBUG:
                            print("   drop", lname, nm)
            hard = [i for i in drop if live[i][2]]
            soft = [i for i in drop if not live[i][2]]
            if not soft:
                if hard and not self.dry:
                    for q in exits:
                        if q.blk.idx == h:
                            for i in hard:
                                g = live[i][1](q.st)
                                if g is not None:
                                    self.oblige(q.st.copy(), g if g is not True else True, "loop invariant preserved: " + live[i][0])
                break
            del self.obls[n_obl:]
            live = [c for i, c in enumerate(live) if i not in soft]
        if not self.dry:
            self.loops_cut.append((fn.demangled, hb.name, [c[0] for c in live]))
            for nm, f, req in live:
                self.inv_count += 1
            for q in exits:
                if q.blk.idx == h:
                    for hook in self.backedge_hooks:
                        hook(self, fr, lname, hs, q.st)
        outs += os
        return [q for q in exits if q.blk.idx != h]

    UNROLL = 16

    def unroll(self, fr, pt, h, hb, blocks, outs):
        """a loop whose number of iterations is a small constant is executed, not cut; None when it is not such a loop"""
        for real in (False, True):
            pts, res, os = [pt], [], []
            if not real:
                self.dry += 1
            try:
                for n in range(self.UNROLL + 1):
                    exits = []
                    self.region(fr, {h: [Pt(p.st.copy() if not real else p.st, dict(p.regs), p.prev, hb) for p in pts]}, blocks, h, os, exits)
                    back = [q for q in exits if q.blk.idx == h]
                    gone = [q for q in exits if q.blk.idx != h]
                    if back and (gone or os):
                        return None
                    if not back:
                        res = gone
                        break
                    pts = back
                else:
                    return None
            except Unsupported:
                if not real:
                    return None
                raise
            finally:
                if not real:
                    self.dry -= 1
        outs += os
        return res

    def assume_loop_basics(self, st, head0, mod):
        pass

    def entails_full(self, st, g):
        """entailment with quantified facts (used for invariants)"""
        if g is True:
            return True
        if g is False:
            return not self.feasible(st)
        if g.get_id() in st.fact_ids:
            return True
        self.quick_inv = not self.patient
        try:
            r = self.prove(st, g, timeout=min(self.timeout_ms, (4000 if self.tier == 'quick' else 10000) if self.patient else 4000))
        finally:
            self.quick_inv = False
        return r[0] == 'proved'

    def candidates(self, fr, head0, st, mod, pt):
        """[(name, f(state) -> formula, required)]"""
        res = []
        cells = [k for k in mod if k[0] == 'c']

        def intval(s, k):
            o = s.mem[k[1]]
            c = o.cells.get(k[2])
            if c is None:
                return None
            v = c[1]
            if isinstance(v, bool) or (isz(v) and z3.is_bool(v)):
                return None
            if isinstance(v, int) or (isz(v) and v.sort() == IntS):
                return toz(v)
            if isinstance(v, EPtr) and v.cont != HEAP:
                return toz(v.idx)
            return None
        ints = []
        for k in cells:
            v = intval(head0, k)
            if v is None:
                e = head0.mem[k[1]].cells.get(k[2])
                if e is not None and isinstance(e[1], Ptr):
                    q = self.to_eptr(head0, e[1])
                    if q is not None:
                        v = toz(q.idx)
            if v is not None:
                ints.append((k, v))
        # terms to compare with: other integer cells of live stack objects and lengths of sequences
        def getint(s, k):
            v = intval(s, k)
            if v is None:
                e = s.mem[k[1]].cells.get(k[2])
                if e is not None and isinstance(e[1], Ptr):
                    q = self.to_eptr(s, e[1])
                    if q is not None:
                        return toz(q.idx)
            return v
        others = []
        for oid, o in head0.mem.items():
            if o.kind not in ('stack', 'this', 'param'):
                continue
            for off, (sz, v) in o.cells.items():
                if ('c', oid, off) in mod and not isinstance(v, Seq):
                    continue
                if isinstance(v, Seq):
                    others.append(("len(%s+%d)" % (o.name, off), lambda s, oid=oid, off=off: toz(s.mem[oid].cells[off][1].n)))
                elif isz(v) and v.sort() == IntS or (isinstance(v, int) and not isinstance(v, bool)):
                    others.append(("%s+%d" % (o.name, off), lambda s, oid=oid, off=off: toz(s.mem[oid].cells[off][1])))
                elif isinstance(v, EPtr) and v.cont != HEAP:
                    others.append(("idx(%s+%d)" % (o.name, off), lambda s, oid=oid, off=off: toz(s.mem[oid].cells[off][1].idx)))
        others = others[:40]
        for x in self.loop_bounds[:12]:
            others.append((str(x)[:40].replace('\n', ' '), lambda s, x=x: x))

        def nm(k):
            return "%s+%d" % (head0.mem[k[1]].name, k[2])
        for k, v0 in ints if self.int_candidates else ():
            res.append(("%s >= init" % nm(k), lambda s, k=k, v0=v0: getint(s, k) >= v0, False))
            res.append(("%s <= init" % nm(k), lambda s, k=k, v0=v0: getint(s, k) <= v0, False))
            res.append(("%s >= 0" % nm(k), lambda s, k=k: getint(s, k) >= 0, False))
            for on, of in others:
                res.append(("%s <= %s" % (nm(k), on), lambda s, k=k, of=of: getint(s, k) <= of(s), False))
            for k2, w0 in ints:
                if k2 < k or (k2 != k and True):
                    if k < k2:
                        res.append(("%s - init = %s - init" % (nm(k), nm(k2)),
                                    lambda s, k=k, k2=k2, v0=v0, w0=w0: getint(s, k) - v0 == getint(s, k2) - w0, False))
                    res.append(("%s <= %s" % (nm(k), nm(k2)), lambda s, k=k, k2=k2: getint(s, k) <= getint(s, k2), False))
        # sequences modified: length unchanged, length relations
        for k in cells:
            o = head0.mem[k[1]]
            c = o.cells.get(k[2])
            if c is not None and isinstance(c[1], Seq) and not c[1].fixed:
                n0 = toz(c[1].n)
                gl = lambda s, k=k: toz(s.mem[k[1]].cells[k[2]][1].n)
                res.append(("len(%s) unchanged" % nm(k), lambda s, gl=gl, n0=n0: gl(s) == n0, False))
        for gen in self.invariants:
            res += gen(self, fr, head0, st, mod)
        return res

    # ------------------------------------------------------------------ calls
    def do_call(self, fr, ins, st, regs):
        """-> list of outcomes, or None when fully handled (intrinsics without effect)"""
        cal = ins.x['callee']
        mod = fr.fn.mod
        if cal[0] == 'func':
            name = mod.aliases.get(cal[1], cal[1])
            if name.startswith('llvm.'):
                return self.intrinsic(fr, ins, st, regs, name)
            args = [self.val(st, fr, regs, o) for o in ins.ops]
            f = self.P.resolve(mod, name)
            return self.call_named(st, name, f, args, ins, fr)
        if cal[0] == 'asm':
            raise Unsupported("inline assembly")
        target = self.val(st, fr, regs, cal)
        args = [self.val(st, fr, regs, o) for o in ins.ops]
        if isinstance(target, FnPtr):
            f = self.P.resolve(mod, target.name)
            return self.call_named(st, target.name, f, args, ins, fr)
        if isinstance(target, VFn):
            return self.call_virtual(st, target, args, ins, fr)
        raise Unsupported("indirect call of %r" % (target,))

    def wrap(self, r, st):
        if isinstance(r, list):
            return r
        return [Outcome(st, r)]

    def mkcall(self, name, sig, args, ins, fn, fr):
        c = Call()
        c.name, c.sig, c.args, c.instr, c.fn, c.eng = name, sig, args, ins, fn, self
        c.sret = None
        if ins is not None and ins.x.get('sret'):
            c.sret = args[0]
            c.args = args[1:]
        c.argtys = ins.x['argtys'] if ins is not None else None
        c.retty = ins.ty if ins is not None else None
        c.fr = fr
        return c

    def call_named(self, st, name, f, args, ins, fr):
        d = demangle(name)
        sig = parse_sig(d)
        for pat, h in self.overrides:
            if pat == sig.qual:
                self.used_contracts.add(sig.qual)
                return self.wrap(h(self.mkcall(name, sig, args, ins, f, fr), st), st)
        con = self.contracts.get(sig.qual)
        if con is not None:
            self.used_contracts.add(sig.qual)
            return self.wrap(con(self.mkcall(name, sig, args, ins, f, fr), st), st)
        h = self.find_handler(name, sig)
        if h is not None:
            c = self.mkcall(name, sig, args, ins, f, fr)
            r = h(c, st)
            if r is not NotImplemented:
                self.trusted.add(sig.qual)
                return self.wrap(r, st)
        if f is not None and not f.decl:
            if any(x == f.demangled for x in self.stack.__iter__()) and self.stack.count(f.demangled) > 2:
                raise Unsupported("recursion in " + f.demangled)
            self.inlined.add(f.demangled)
            return self.run(st, f, args, fr.depth + 1)
        raise Unsupported("call of %s without contract" % d)

    def find_handler(self, name, sig):
        h = self.handlers.get(name)
        if h is not None:
            return h
        return self.handlers.get(sig.qual)

    def call_virtual(self, st, t, args, ins, fr):
        cls = t.cls
        if cls is None:
            raise Unsupported("virtual call on an object of unknown class")
        dyn = None
        if isinstance(cls, tuple):
            dyn = cls[1] if cls[0] == 'dyn' else None
            static = cls[2] if len(cls) > 2 else cls[1]
        else:
            static = cls
        desc = self.L.virtual(dyn or static, t.slot)
        if desc is None:
            raise Unsupported("unknown virtual slot %d of %s" % (t.slot, static))
        m = re.search(r"([\w:~<>, *&]+)\(", desc)
        if dyn:
            q = self.vmethod(desc)
            qual = q
        else:
            qual = self.vmethod(desc)
        con = self.vcontracts.get(qual) or self.contracts.get(qual)
        sig = parse_sig(qual + "()")
        if con is not None:
            self.used_contracts.add(qual)
            return self.wrap(con(self.mkcall(qual, sig, args, ins, None, fr), st), st)
        if dyn or self.devirt.get(qual):
            fs = self.P.find(qual)
            if len(fs) > 1:
                fs = [f for f in fs if len(f.args if f._blocks else (f.blocks and f.args)) == len(args)]
            if '~' in qual:
                want = 'D0' if 'deleting' in desc else ('D1', 'D2')
                fs = [f for f in self.P.find(qual) if ('D0' in f.name) == (want == 'D0')]
            if fs:
                self.inlined.add(fs[0].demangled)
                return self.call_named(st, fs[0].name, fs[0], args, ins, fr)
        h = self.handlers.get(qual)
        if h is not None:
            self.trusted.add(qual)
            return self.wrap(h(self.mkcall(qual, sig, args, ins, None, fr), st), st)
        raise Unsupported("virtual call of %s without contract" % qual)

    def vmethod(self, desc):
        """'std::string scalopus::Endpoint::getName() const [pure]' -> 'scalopus::Endpoint::getName'"""
        s = desc
        i = s.find('(')
        # skip template parens is not needed here
        head = s[:i]
        m = re.search(r'([\w:]+::)operator ', head)
        if m:
            return m.group(1) + 'operator ' + ('std::string' if 'string' in head[m.end():] else head[m.end():])
        depth = 0
        cut = 0
        for j, ch in enumerate(head):
            if ch == '<':
                depth += 1
            elif ch == '>':
                depth -= 1
            elif ch == ' ' and depth == 0:
                cut = j + 1
        return head[cut:].lstrip('*&')

    def intrinsic(self, fr, ins, st, regs, name):
        if name.startswith(('llvm.dbg', 'llvm.lifetime', 'llvm.assume', 'llvm.experimental.noalias', 'llvm.donothing',
                            'llvm.stacksave', 'llvm.stackrestore')):
            if name.startswith('llvm.stacksave'):
                regs[ins.id] = NULL
            return None
        if name.startswith('llvm.type.test') or name.startswith('llvm.public.type.test'):
            o = ins.ops[0]
            v = self.val(st, fr, regs, o)
            md = ins.ops[1]
            cls = norm(re.sub(r'^typeinfo name for ', '', demangle(md[1]))) if md[1] else None
            if isinstance(v, VTab) and o[0] == 'inst' and cls:
                if isinstance(v.cls, tuple):
                    regs[o[1]] = VTab(v.ptr, ('dyn', v.cls[1], cls), v.slot)
                else:
                    regs[o[1]] = VTab(v.ptr, cls, v.slot)
            regs[ins.id] = True
            return None
        if name.startswith('llvm.threadlocal.address'):
            regs[ins.id] = self.val(st, fr, regs, ins.ops[0])
            return None
        if name.startswith('llvm.eh.typeid.for'):
            regs[ins.id] = self.typeid(self.ti_name(ins.ops[0]) if ins.ops[0][0] != 'inst' else '?')
            return None
        if name.startswith(('llvm.memcpy', 'llvm.memmove')):
            a = [self.val(st, fr, regs, o) for o in ins.ops]
            self.memcpy(st, a[0], a[1], a[2])
            return None
        if name.startswith('llvm.memset'):
            a = [self.val(st, fr, regs, o) for o in ins.ops]
            self.memset(st, a[0], a[1], a[2])
            return None
        if name.startswith('llvm.trap') or name.startswith('llvm.ubsantrap'):
            self.oblige(st, False, "trap not reached")
            return []
        if name.startswith(('llvm.umul.with.overflow', 'llvm.uadd.with.overflow')):
            a, b = (self.val(st, fr, regs, o) for o in ins.ops)
            bits = ins.ty.elems[0].bits
            full = a * b if 'umul' in name and isinstance(a, int) and isinstance(b, int) else (toz(a) * toz(b) if 'umul' in name else toz(a) + toz(b))
            if isinstance(full, int):
                regs[ins.id] = (full % (1 << bits), full >= (1 << bits))
            else:
                regs[ins.id] = (full % (1 << bits), full >= (1 << bits))
            return None
        if name.startswith('llvm.expect') or name.startswith('llvm.launder') or name.startswith('llvm.strip'):
            regs[ins.id] = self.val(st, fr, regs, ins.ops[0])
            return None
        if name.startswith(('llvm.umax', 'llvm.umin')):
            a, b = (self.val(st, fr, regs, o) for o in ins.ops)
            c = self.icmp('ugt' if 'umax' in name else 'ult', a, b, ins.ty)
            regs[ins.id] = self.ite_val(st, c, a, b) if not isinstance(c, bool) else (a if c else b)
            return None
        if name.startswith('llvm.is.constant'):
            regs[ins.id] = False
            return None
        raise Unsupported("intrinsic " + name)

    # raw memory ------------------------------------------------------------------
    def memset(self, st, p, v, n):
        if isinstance(n, int) and isinstance(p, Ptr):
            o = self.obj(st, p)
            self.access(st, p, True, 'memset')
            cells = dict(o.cells)
            for co in list(cells):
                sz, x = cells[co]
                if co < p.off + n and p.off < co + sz:
                    if isinstance(x, Seq) and x.fixed:
                        if p.off <= co and co + sz <= p.off + n and isinstance(v, int):
                            es = self.T.size(x.elem)
                            w = int.from_bytes(bytes([v & 255]) * es, 'little')
                            cells[co] = (sz, Seq(x.elem, x.n, [(0, x.elem, [z3.K(IntS, z3.IntVal(w))])], None,
                                                 bytes([v & 255] * x.n) if es == 1 and x.n <= 4096 else None, True))
                            continue
                        raise Unsupported("partial memset of an array")
                    if isinstance(x, Abs) and not isinstance(x, (Ptr, EPtr)):
                        raise Unsupported("memset over an object")
                    del cells[co]
            if v == 0:
                zero = o.zero or (p.off == 0 and o.size is not None and n >= o.size)
                if not zero:
                    # explicit zero words
                    off = p.off
                    covered = sorted((co, co + cells[co][0]) for co in cells)
                    while off < p.off + n:
                        hit = [e for s_, e in covered if s_ <= off < e]
                        if hit:
                            off = hit[0]
                            continue
                        step = 8 if off % 8 == 0 and off + 8 <= p.off + n else 1
                        cells[off] = (step, 0)
                        off += step
                no = o.with_cells(cells)
                no.zero = zero
                st.mem[o.id] = no
                return
            raise Unsupported("memset with a non-zero value")
        r = self.byte_region(st, p)
        if r[0] is not None and (isinstance(v, int) or isz(v)):
            c = r[1]
            self.oblige(st, z3.And(toz(r[2]) >= 0, toz(n) >= 0, toz(r[2]) + toz(n) <= toz(c.n)), "memset within bounds")
            self.write_bytes(st, r[0], c, r[2], z3.K(IntS, toz(v)), 0, n)
            return
        raise Unsupported("memset")

    def memcpy(self, st, d, s, n):
        if isinstance(n, int) and n == 0:
            return
        if isinstance(n, int) and isinstance(d, Ptr) and isinstance(s, Ptr):
            so, do = self.obj(st, s), self.obj(st, d)
            sc = self.find_seq(so, s.off)
            dc = self.find_seq(do, d.off)
            if not sc and not dc:
                cells = dict(do.cells)
                for co in list(cells):
                    if co < d.off + n and d.off < co + cells[co][0]:
                        del cells[co]
                hit = False
                for co, (sz, v) in so.cells.items():
                    if s.off <= co and co + sz <= s.off + n:
                        cells[d.off + co - s.off] = (sz, v)
                        hit = True
                    elif co < s.off + n and s.off < co + sz:
                        if s.off == co and not isinstance(v, Abs):
                            cells[d.off] = (n, self.low(v, n * 8))
                        else:
                            raise Unsupported("memcpy splits a cell")
                self.access(st, s, False, 'memcpy')
                self.access(st, d, True, 'memcpy')
                st.mem[do.id] = do.with_cells(cells)
                return
            if sc and dc and sc[0] == s.off and dc[0] == d.off and n == so.cells[sc[0]][0] == do.cells[dc[0]][0]:
                v = sc[1]
                st.mem[do.id] = do.with_cells({**do.cells, d.off: (n, Seq(dc[1].elem, v.n, v.leaves if dc[1].elem == v.elem else [(0, dc[1].elem, v.leaves[0][2])], v.blob, v.cst, True))})
                return
            if sc and not dc:
                # bytes into a scalar or struct of scalars
                if sc[1].elem in BYTES and n in (1, 2, 4, 8):
                    i = s.off - sc[0]
                    v = self.load_seq(st, sc[1], i, 0, n, self.mkint(8 * n))
                    self.store(st, d, v, n)
                    return
        if isinstance(n, int) and n in (1, 2, 4, 8) and isinstance(d, Ptr) and isinstance(s, EPtr):
            v = self.load(st, s, self.mkint(8 * n))
            self.store(st, d, v, n)
            return
        if isinstance(n, int) and isinstance(s, EPtr) and isinstance(d, EPtr) and s.cont != HEAP and d.cont != HEAP:
            cs, cd = self.peek_cont(st, s.cont), self.peek_cont(st, d.cont)
            if isinstance(cs, Seq) and isinstance(cd, Seq) and cs.elem == cd.elem and cs.elem not in BYTES and n == self.T.size(cs.elem):
                for o, l in self.T.leaves(cs.elem):
                    self.put_abs(st, self.shift(d, o), self.get_abs(st, self.shift(s, o)))
                return
        if isinstance(n, int) and self.memcpy_leaves(st, d, s, n):
            return
        rs = self.byte_region(st, s)
        rd = self.byte_region(st, d)
        self.oblige(st, z3.And(toz(rs[2]) >= 0, toz(n) >= 0, toz(rs[2]) + toz(n) <= toz(rs[1].n)), "memory copy reads within bounds")
        self.oblige(st, z3.And(toz(rd[2]) >= 0, toz(rd[2]) + toz(n) <= toz(rd[1].n)), "memory copy writes within bounds")
        if rd[0] is None:
            raise Unsupported("memcpy into a scalar")
        self.write_bytes(st, rd[0], rd[1], rd[2], rs[1].arr, rs[2], n)


    def elem_leaves(self, st, p, n):
        """leaves of the sequence element p points into, within n bytes: [(relative offset, type)] or None"""
        if isinstance(p, EPtr) and p.cont != HEAP:
            c = self.peek_cont(st, p.cont)
            if isinstance(c, Seq) and c.elem not in BYTES:
                r = [(o - p.off, l) for o, l, a in c.leaves if p.off <= o < p.off + n]
                if r and p.off + n <= self.T.size(c.elem):
                    return r
        return None

    def memcpy_leaves(self, st, d, s, n):
        """member-wise copy of (a prefix of) a plain struct that is a sequence element on at least one side"""
        ls, ld = self.elem_leaves(st, s, n), self.elem_leaves(st, d, n)
        lv = ls or ld
        if lv is None or (ls and ld and ls != ld):
            return False
        if any(self.T.kind(l) not in ('scalar', 'enum?') for o, l in lv):
            return False
        for o, l in lv:
            self.write_leaf(st, self.shift(d, o), l, self.read_leaf(st, self.shift(s, o), l))
        return True


class NoMerge(Exception):
    pass


def same_plain(a, b):
    if a is b:
        return True
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(same_plain(a[k], b[k]) for k in a)
    if isinstance(a, Exc) and isinstance(b, Exc):
        return a.type == b.type and same_plain(a.ptr, b.ptr)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same_plain(x, y) for x, y in zip(a, b))
    return same(a, b)
