"""Verification-condition generator: symbolic execution of LLVM IR against contracts.

 * one function at a time; calls go to the callee's contract when it has one, to an assumed library contract
   (std/libc), or - for unspecified helpers of the repository - to the callee's body (as if it were written inline)
 * loops are cut: candidate invariants are filtered to an inductive subset, everything the loop modifies is havocked
 * every check is an Obligation discharged by an SMT solver
"""
import time, sys, os, subprocess, tempfile
import z3
from .vals import *
from . import types as T
from .llvm import demangle

DEBUG = bool(os.environ.get("SCV_DEBUG"))
HEAPMAX = 1 << 40


class NullDeref(Exception):
    pass


class Obj:
    __slots__ = ("id", "name", "cells", "kind", "cls", "zero", "size")

    def __init__(self, id, name, kind, cls=None, cells=None, zero=False, size=None):
        self.id, self.name, self.kind, self.cls = id, name, kind, cls
        self.cells = cells if cells is not None else {}
        self.zero = zero
        self.size = size

    def with_cells(self, cells):
        return Obj(self.id, self.name, self.kind, self.cls, cells, self.zero, self.size)


class State:
    __slots__ = ("mem", "heap", "pc", "held", "ghost", "fact_ids", "path")

    def __init__(self):
        self.mem = {}
        self.heap = {}
        self.pc = []          # list of (tag, formula)
        self.held = {}        # lock key -> info dict
        self.ghost = {}
        self.fact_ids = set()
        self.path = ()

    def copy(self):
        s = State.__new__(State)
        s.mem = dict(self.mem)
        s.heap = dict(self.heap)
        s.pc = list(self.pc)
        s.held = dict(self.held)
        s.ghost = dict(self.ghost)
        s.fact_ids = set(self.fact_ids)
        s.path = self.path
        return s

    def fact(self, f):
        if f is True:
            return
        if f is False:
            f = z3.BoolVal(False)
        i = f.get_id()
        if i in self.fact_ids:
            return
        self.fact_ids.add(i)
        self.pc.append(('f', f))

    def branch(self, f):
        if f is True:
            return
        if f is False:
            f = z3.BoolVal(False)
        i = f.get_id()
        if i in self.fact_ids:
            return
        self.fact_ids.add(i)
        self.pc.append(('b', f))

    def formulas(self):
        return [f for _, f in self.pc]


class Outcome:
    __slots__ = ("st", "ret", "exc")

    def __init__(self, st, ret=None, exc=None):
        self.st, self.ret, self.exc = st, ret, exc


class Exc:
    """an exception in flight"""
    __slots__ = ("type", "ptr", "info")

    def __init__(self, type, ptr=None, info=None):
        self.type, self.ptr, self.info = type, ptr, info

    def __repr__(self):
        return "Exc(%s)" % self.type


class Call:
    __slots__ = ("sig", "name", "args", "argtys", "retty", "instr", "fn", "eng", "sret", "fr")


class Obligation:
    __slots__ = ("fn", "name", "line", "status", "time", "backend", "model", "smt", "path")


class Contract:
    """Base: subclasses give setup/post for verification and apply for use at call sites."""


def _exc_base_table():
    d = {}
    d.update({'std::out_of_range': 'std::logic_error', 'std::invalid_argument': 'std::logic_error',
              'std::length_error': 'std::logic_error', 'std::logic_error': 'std::exception',
              'std::runtime_error': 'std::exception', 'std::bad_alloc': 'std::exception',
              'std::future_error': 'std::logic_error', 'std::bad_function_call': 'std::exception',
              'std::bad_weak_ptr': 'std::exception', 'std::system_error': 'std::runtime_error',
              'nlohmann::detail::exception': 'std::exception',
              'nlohmann::detail::parse_error': 'nlohmann::detail::exception',
              'nlohmann::detail::type_error': 'nlohmann::detail::exception',
              'nlohmann::detail::out_of_range': 'nlohmann::detail::exception',
              'nlohmann::detail::other_error': 'nlohmann::detail::exception',
              'nlohmann::detail::invalid_iterator': 'nlohmann::detail::exception'})
    return d


class Engine:
    def __init__(self, program, tier='quick'):
        self.P = program
        self.L = program.layouts
        self.T = TypeDB(self.L)
        self.contracts = {}
        self.handlers = {}
        self.obls = []
        self.dry = 0
        self.stack = []
        self.objctr = 0
        self.addr_taken = []
        self.obj_at = {}
        self.literals = {}
        self.exc_base = _exc_base_table()
        self.invariants = []      # candidate invariant generators: f(eng, st, loopctx) -> [(name, formula-fn)]
        self.cmp_log = None
        self.guards = {}          # (class) -> {mutex field: [fields]}
        self.on_access = None
        self.on_table = None     # reads of constant tables at a bit-vector index
        self.on_lock = None
        self.on_unlock = None
        self.global_hook = None
        self.fresh_process = False     # static storage starts with its initial values
        self.solver_time = {'z3': 0.0, 'cvc5': 0.0}
        self.nqueries = 0
        self.tier = tier
        self.trusted = set()      # assumed library contracts used
        self.inlined = set()      # helper functions verified as part of their callers
        self.under_contract = set()
        self.used_contracts = set()
        self.max_depth = 30
        self.bv = False
        self.timeout_ms = int(os.environ.get("SCV_TIMEOUT_MS", "6000"))
        self.deadline = None
        self.path_count = 0
        self.cur_line = 0
        self.loop_info = {}
        self.need_decrease = set()
        self.merge_threshold = 4
        self.terminating = False
        self.gobj = {}
        self.gname = {}
        self._tids = {}
        self.on_atomic = None
        self.overrides = []
        self.vcontracts = {}
        self.devirt = {}
        self.loop_depth = 0
        self.loops_cut = []
        self.inv_count = 0
        self.backedge_hooks = []
        self.patient = False      # spend more solver time on loop invariant candidates
        self.quick_inv = False
        self._symcache = {}
        self.int_candidates = True
        self.pdiffs = {}
        self.cur_fn = None

    # ---------------------------------------------------------------- solver
    @staticmethod
    def assert_all(s, fs):
        a, c, sv = z3.Z3_solver_assert.__defaults__[0].f, s.ctx.ref(), s.solver
        for f in fs:
            a(c, sv, f.ast)

    def check_time(self):
        if self.deadline and time.time() > self.deadline:
            raise Unsupported("analysis budget exhausted")

    def _is_q(self, f):
        k = f.get_id()
        c = self._qcache.get(k) if hasattr(self, '_qcache') else None
        if not hasattr(self, '_qcache'):
            self._qcache = {}
        if c is not None:
            return c[0]
        seen = set()
        todo = [f]
        r = False
        while todo:
            x = todo.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_quantifier(x):
                if x.is_lambda():
                    continue
                r = True
                break
            todo += x.children()
        self._qcache[k] = (r, f)
        return r

    def feasible(self, st, extra=None):
        """over-approximate feasibility (quantified facts are ignored)"""
        self.check_time()
        s = z3.Solver()
        s.set("timeout", 2000)
        self.assert_all(s, [f for f in st.formulas() if not self._is_q(f)])
        if extra is not None:
            s.add(extra)
        t = time.time()
        r = s.check()
        self.solver_time['z3'] += time.time() - t
        self.nqueries += 1
        return r != z3.unsat

    def entails_fast(self, st, f):
        """cheap, quantifier-free entailment; False means unknown"""
        if f is True:
            return True
        if f is False:
            return False
        s = z3.Solver()
        s.set("timeout", 1000)
        self.assert_all(s, [g for g in st.formulas() if not self._is_q(g)])
        s.add(z3.Not(f))
        t = time.time()
        r = s.check()
        self.solver_time['z3'] += time.time() - t
        self.nqueries += 1
        return r == z3.unsat

    def prove(self, st, goal, timeout=None):
        """-> (status, backend, model/None, seconds); status proved | failed | timeout"""
        self.check_time()
        if goal is True:
            return 'proved', 'const', None, 0.0
        if goal is False:
            goal = z3.BoolVal(False)
        t0 = time.time()
        goals = self.split_goal(goal)
        model = None
        status = 'proved'
        backend = 'z3'
        for g in goals:
            r, m, b = self._prove1(st, g, timeout)
            if b != 'z3':
                backend = b
            if r != 'proved':
                status, model = r, m
                break
        return status, backend, model, time.time() - t0

    def split_goal(self, g):
        if z3.is_and(g):
            r = []
            for c in g.children():
                r += self.split_goal(c)
            return r
        if z3.is_quantifier(g) and g.is_forall():
            vs = [fresh('sk_' + g.var_name(i), g.var_sort(i)) for i in range(g.num_vars())]
            b = z3.substitute_vars(g.body(), *reversed(vs))
            return self.split_goal(b)
        if z3.is_implies(g):
            a, b = g.children()
            return [z3.Implies(a, x) for x in self.split_goal(b)]
        return [g]

    def _syms(self, f):
        """names of the uninterpreted symbols of f"""
        c = self._symcache.get(f.get_id())
        if c is not None:
            return c[0]
        seen, todo, r = set(), [f], set()
        while todo:
            x = todo.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_quantifier(x):
                todo.append(x.body())
            elif z3.is_app(x):
                d = x.decl()
                if d.kind() == z3.Z3_OP_UNINTERPRETED:
                    r.add(d.name())
                todo += x.children()
        r = frozenset(r)
        self._symcache[f.get_id()] = (r, f)
        return r

    def slices(self, fs, g):
        """growing parts of the facts, by shared symbols (a goal that follows from a part follows from all of them)"""
        count = {}
        ss = [self._syms(f) for f in fs]
        for x in ss:
            for y in x:
                count[y] = count.get(y, 0) + 1
        rare = max(12, len(fs) // 12)
        cur = set(self._syms(g))
        if not cur:
            return
        prev = 0
        for hop in range(2):
            part = [i for i, x in enumerate(ss) if x & cur]
            if len(part) > prev and len(part) < len(fs) * 0.8:
                yield [fs[i] for i in part]
            prev = len(part)
            for i in part:
                cur |= {y for y in ss[i] if count[y] <= rare}

    def _prove1(self, st, g, timeout):
        to = timeout or self.timeout_ms
        s = z3.Solver()
        fs = st.formulas()
        hasq = any(self._is_q(f) for f in fs)
        self.assert_all(s, fs)
        s.add(z3.Not(g))
        t = time.time()
        first = min(to, 300)
        s.set("timeout", first)
        r = s.check()
        self.nqueries += 1
        if r == z3.unknown and first < to and s.reason_unknown() in ('timeout', 'canceled'):
            for part in self.slices(fs, g):
                s3 = z3.Solver()
                s3.set("timeout", 1000)
                self.assert_all(s3, part)
                s3.add(z3.Not(g))
                self.nqueries += 1
                if s3.check() == z3.unsat:
                    r = z3.unsat
                    break
            else:
                s = z3.Solver()
                self.assert_all(s, fs)
                s.add(z3.Not(g))
                s.set("timeout", to)
                r = s.check()
        dt = time.time() - t
        self.solver_time['z3'] += dt
        if r == z3.unsat:
            return 'proved', None, 'z3'
        if r == z3.sat:
            return 'failed', s.model(), 'z3'
        reason = s.reason_unknown()
        if self.quick_inv:
            return 'timeout', None, 'z3'
        # second back end
        r2 = self.cvc5(s, to)
        if r2 == 'unsat':
            return 'proved', None, 'cvc5'
        model = None
        # try for a candidate model without the quantified facts
        s2 = z3.Solver()
        s2.set("timeout", 2000)
        self.assert_all(s2, [f for f in fs if not self._is_q(f)])
        s2.add(z3.Not(g))
        if s2.check() == z3.sat:
            model = s2.model()
        if r2 == 'sat':
            return 'failed', model, 'cvc5'
        if hasq and model is not None:
            # not provable by either back end, and refuted by a model of the quantifier-free facts
            return 'failed', model, 'z3'
        return 'timeout', model, 'z3'

    def cvc5(self, solver, to):
        txt = solver.to_smt2()
        t = time.time()
        try:
            p = subprocess.run(["cvc5", "--lang=smt2", "--tlimit=%d" % to, "--arrays-exp", "--full-saturate-quant"],
                               input="(set-logic ALL)\n" + txt, capture_output=True, text=True, timeout=to / 1000 + 5)
            out = p.stdout.strip().split('\n')[-1] if p.stdout.strip() else ''
        except Exception:
            out = ''
        self.solver_time['cvc5'] += time.time() - t
        if out in ('unsat', 'sat'):
            return out
        return 'unknown'

    # ------------------------------------------------------------ obligations
    def oblige(self, st, goal, name, line=None):
        """prove goal in st; recorded unless in a dry run; continues assuming it"""
        if isinstance(goal, z3.ExprRef) and goal.get_id() in st.fact_ids:
            return
        if self.dry:
            if goal is not True and goal is not False:
                st.fact(goal)
            elif goal is False:
                st.fact(z3.BoolVal(False))
            return
        o = Obligation()
        o.fn = self.stack[0] if self.stack else '?'
        o.name = name
        o.line = line if line is not None else self.cur_line
        o.path = st.path[-12:]
        o.smt = None
        status, backend, model, dt = self.prove(st, goal)
        o.status, o.backend, o.time = status, backend, dt
        o.model = None
        if status != 'proved':
            o.model = self.fmt_model(model)
            if DEBUG:
                print("!! FAILED", o.fn, o.name, "line", o.line, status)
        self.obls.append(o)
        if goal is not True:
            st.fact(goal if goal is not False else z3.BoolVal(False))

    def fmt_model(self, m):
        if m is None:
            return None
        out = []
        for d in m.decls():
            if d.arity() == 0:
                try:
                    v = str(m[d])
                except Exception:
                    v = '?'
                if len(v) < 200:
                    out.append("%s = %s" % (d.name(), v))
        return sorted(out)[:120]

    # ---------------------------------------------------------------- objects
    def new_obj(self, st, name, kind='heap', cls=None, cells=None, zero=False, size=None):
        self.objctr += 1
        i = self.objctr
        st.mem[i] = Obj(i, name, kind, cls, cells, zero, size)
        return Ptr(i, 0)

    def take_addr(self, p):
        if isinstance(p, Ptr) and p.obj is not None and (p.obj, p.off) not in self.addr_taken:
            self.addr_taken.append((p.obj, p.off))

    def ptr_to_int(self, p):
        if isinstance(p, Ptr):
            if p.obj is None:
                return 0
            return (1 << 40) + p.obj * (1 << 24) + p.off
        if isinstance(p, EPtr) and p.cont == HEAP:
            return p.idx if p.off == 0 else toz(p.idx) + p.off
        if isinstance(p, FnPtr):
            return (1 << 39) + (hash(p.name) % (1 << 30)) * 16
        raise Unsupported("pointer to integer: %r" % (p,))

    def int_to_ptr(self, v):
        if isz(v):
            v = z3.simplify(v)
            if z3.is_int_value(v):
                v = v.as_long()
        if isinstance(v, int):
            if v == 0:
                return NULL
            if v >= (1 << 40):
                w = v - (1 << 40)
                return Ptr(w >> 24, w & ((1 << 24) - 1))
            return EPtr(HEAP, v, 0)
        return EPtr(HEAP, v, 0)

    def is_null(self, p):
        if isinstance(p, Ptr):
            return p.obj is None
        if isinstance(p, EPtr) and p.cont == HEAP:
            if isinstance(p.idx, int):
                return p.idx == 0 and p.off == 0
            return toz(p.idx) == 0 if p.off == 0 else False
        return False

    def ptr_eq(self, a, b):
        if isinstance(a, FnPtr) or isinstance(b, FnPtr):
            return same(a, b)
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            return a.obj == b.obj and a.off == b.off
        if isinstance(a, EPtr) and isinstance(b, EPtr) and a.cont != HEAP and b.cont != HEAP:
            if ckey(a.cont) == ckey(b.cont):
                if a.off != b.off:
                    return False
                e = toz(a.idx) == toz(b.idx)
                if isinstance(a.cont, EPtr):
                    e = z3.And(e, *[x == y for x, y in zip(a.cont.terms(), b.cont.terms())])
                return z3.simplify(e) if z3.is_true(z3.simplify(e)) else e
            return False
        try:
            x, y = toz(self.ptr_to_int(a)), toz(self.ptr_to_int(b))
        except Unsupported:
            return False
        r = z3.simplify(x == y)
        if z3.is_true(r):
            return True
        if z3.is_false(r):
            return False
        return r

    def deref(self, st, p):
        """a heap pointer about to be dereferenced: not null, and not one of the concrete objects"""
        if isinstance(p.idx, int):
            q = self.int_to_ptr(p.idx + p.off)
            if isinstance(q, Ptr) and q.obj is None:
                raise NullDeref()
            return q if isinstance(q, Ptr) else p
        self.oblige(st, toz(p.idx) != 0, "no null pointer dereference")
        if self.addr_taken and not self.entails_fast(st, toz(p.idx) < HEAPMAX):
            for a in self.addr_taken:
                if self.entails_fast(st, toz(p.idx) == self.ptr_to_int(Ptr(a[0], a[1]))):
                    return Ptr(a[0], a[1] + p.off)
            raise Unsupported("pointer that may designate a local object: %r" % (p,))
        return p

    # -------------------------------------------------- typed values and packing
    def fresh_leaf(self, st, t, name, init=False):
        """fresh symbolic value of leaf type t (init: the deterministic initial value of a memory cell)"""
        if init:
            ts = [z3.Const("%s@%d" % (name, i), s) for i, s in enumerate(self.T.sorts(t))]
        else:
            ts = [fresh(name, s) for s in self.T.sorts(t)]
        return self.unpack_leaf(st, t, ts)

    def unpack_leaf(self, st, t, ts):
        k = self.T.kind(t)
        b = T.tbase(t)
        if t in ('double', 'float'):
            return ts[0]
        if t.endswith('*') or t.endswith('&'):
            self.ptr_facts(st, ts[0])
            return self.int_to_ptr(ts[0])
        if t == 'bool' or (b in ('std::atomic', 'std::__atomic_base') and T.targs(t)[0] == 'bool'):
            x = ts[0]
            st.fact(z3.And(x >= 0, x <= 1)) if not z3.is_int_value(x) else None
            return x
        if k in ('scalar', 'enum?'):
            x = ts[0]
            if not z3.is_int_value(z3.simplify(x)):
                n = self.T.size(t) if k == 'scalar' and not b.startswith('std::chrono') else (8 if k == 'scalar' else 4)
                st.fact(z3.And(x >= 0, x < 2 ** (8 * n)))
            return x
        if k == 'seq':
            e = 'char' if t == 'std::string' else T.targs(t)[0]
            if e in BYTES:
                bl = ts[0]
                st.fact(blen(bl) >= 0)
                return Seq(e, blen(bl), [(0, e, [barr(bl)])], blob=bl)
            st.fact(ts[0] >= 0)
            lv = []
            i = 1
            for o, l in self.T.leaves(e):
                n = len(self.T.sorts(l))
                lv.append((o, l, list(ts[i:i + n])))
                i += n
            return Seq(e, ts[0], lv)
        if k == 'map':
            a = T.targs(t)
            kind = b
            vt = a[1] if b in ('std::map', 'std::unordered_map') else None
            lv = []
            i = 2
            if vt:
                for o, l in self.T.leaves(vt):
                    n = len(self.T.sorts(l))
                    lv.append((o, l, list(ts[i:i + n])))
                    i += n
            m = Map(kind, a[0], vt, ts[0], ts[1], lv)
            self.map_facts(st, m)
            return m
        if k == 'ref':
            self.ptr_facts(st, ts[0])
            return Ref(b.split('::')[-1], T.targs(t)[0], self.int_to_ptr(ts[0]))
        if k == 'tok':
            return Tok(b.split('::')[-1], ts)
        if k == 'json':
            return Tok('json', ts)
        raise Unsupported("unpack " + t)

    def ptr_facts(self, st, x):
        """pointers that were in memory at the start are below HEAPMAX (addresses of fresh objects are above)"""
        todo = [x]
        while todo:
            y = todo.pop()
            if z3.is_app_of(y, z3.Z3_OP_ITE):
                todo += y.children()[1:]
            elif z3.is_select(y):
                a, k = y.children()
                while z3.is_store(a):
                    todo.append(a.children()[2])
                    a = a.children()[0]
                if z3.is_app_of(a, z3.Z3_OP_ITE):
                    todo += [z3.Select(b, k) for b in a.children()[1:]]
                elif z3.is_const(a) and a.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    b = z3.Select(a, k)
                    st.fact(b >= 0)
                    if '!hv' not in a.decl().name():
                        st.fact(b < HEAPMAX)
            elif z3.is_const(y) and y.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                st.fact(y >= 0)
                if '!hv' not in y.decl().name():
                    st.fact(y < HEAPMAX)

    def map_facts(self, st, m):
        st.fact(toz(m.card) >= 0)
        k = z3.Const('mk', m.dom.sort().domain())
        st.fact(z3.Implies(toz(m.card) == 0, m.dom == z3.K(m.dom.sort().domain(), False)))
        st.fact(z3.ForAll([k], z3.Implies(z3.Select(m.dom, k), toz(m.card) >= 1), patterns=[z3.Select(m.dom, k)]))

    def pack_leaf(self, st, t, v):
        k = self.T.kind(t)
        if isinstance(v, bool) or (isz(v) and z3.is_bool(v)):
            return [ite(v, 1, 0) if isz(v) else z3.IntVal(1 if v else 0)]
        if k in ('scalar', 'enum?'):
            if isinstance(v, (Ptr, EPtr, FnPtr)):
                self.take_addr(v)
                return [toz(self.ptr_to_int(v))]
            if isz(v) and v.sort() == FSort:
                return [v]
            if isinstance(v, Abs):
                raise Unsupported("pack %r as %s" % (v, t))
            return [toz(v)]
        if k == 'seq':
            if not isinstance(v, Seq):
                raise Unsupported("pack %r as %s" % (v, t))
            e = 'char' if t == 'std::string' else T.targs(t)[0]
            if e in BYTES:
                return [self.blob_of(st, v)]
            r = [toz(v.n)]
            for o, l, a in v.leaves:
                r += a
            return r
        if k == 'map':
            r = [v.dom, toz(v.card)]
            for o, l, a in v.leaves:
                r += a
            return r
        if k == 'ref':
            self.take_addr(v.p)
            return [toz(self.ptr_to_int(v.p))]
        if k in ('tok', 'json'):
            if isinstance(v, Closure):
                return [z3.IntVal((1 << 38) + v.obj)]
            return [toz(x) for x in v.parts[:1]]
        raise Unsupported("pack " + t)

    def blob_of(self, st, v):
        if v.blob is not None:
            return v.blob
        if v.cst is not None:
            return self.literal(st, v.cst).blob
        # content-addressed: definitional fresh blob
        key = (toz(v.n).get_id(), v.arr.get_id())
        c = self._blobs.get(key) if hasattr(self, '_blobs') else None
        if not hasattr(self, '_blobs'):
            self._blobs = {}
        if c is None:
            c = (fresh('blob', Blob), v)
            self._blobs[key] = c
        k = z3.Const('k', IntS)
        st.fact(blen(c[0]) == toz(v.n))
        st.fact(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < toz(v.n)), z3.Select(barr(c[0]), k) == z3.Select(v.arr, k)),
                          patterns=[z3.Select(barr(c[0]), k), z3.Select(v.arr, k)] if not z3.is_K(v.arr) and not z3.is_store(v.arr) else [z3.Select(barr(c[0]), k)]))
        return c[0]

    def literal(self, st, b):
        """constant byte string"""
        if b not in self.literals:
            bl = z3.Const("lit_%d_%s" % (len(self.literals), ''.join(chr(c) if 32 < c < 127 and chr(c) not in '|\\' else '_' for c in b[:24])), Blob)
            self.literals[b] = bl
        bl = self.literals[b]
        self.literal_facts(st, b)
        return Seq('char', len(b), [(0, 'char', [barr(bl)])], blob=bl, cst=b)

    def literal_facts(self, st, b):
        bl = self.literals[b]
        fs = [blen(bl) == len(b)]
        for i, c in enumerate(b[:64]):
            fs.append(z3.Select(barr(bl), i) == c)
        st.fact(z3.And(fs))
        others = [o for k, o in self.literals.items() if k != b]
        for o in others:
            st.fact(bl != o)

    def const_seq(self, st, data, elem='char', fixed=True):
        arr = z3.K(IntS, z3.IntVal(0))
        for i, c in enumerate(data):
            arr = z3.Store(arr, i, z3.IntVal(c))
        s = Seq(elem, len(data), [(0, elem, [arr])], cst=bytes(data) if elem in BYTES and all(0 <= x < 256 for x in data) else None, fixed=fixed)
        s.table = tuple(data)
        return s

    def empty_of(self, st, t):
        """default constructed value of leaf type t"""
        k = self.T.kind(t)
        b = T.tbase(t)
        if k in ('scalar', 'enum?'):
            if t in ('double', 'float'):
                return z3.Const('fzero', FSort)
            return NULL if t.endswith('*') else 0
        if k == 'seq':
            e = 'char' if t == 'std::string' else T.targs(t)[0]
            if e in BYTES:
                l = self.literal(st, b'')
                return Seq(e, 0, [(0, e, [l.arr])], blob=l.blob, cst=b'')
            lv = []
            for o, l in self.T.leaves(e):
                lv.append((o, l, [fresh('emp', z3.ArraySort(IntS, s)) for s in self.T.sorts(l)]))
            return Seq(e, 0, lv)
        if k == 'map':
            a = T.targs(t)
            ks = self.T.keysort(a[0])
            vt = a[1] if b in ('std::map', 'std::unordered_map') else None
            lv = []
            if vt:
                for o, l in self.T.leaves(vt):
                    lv.append((o, l, [fresh('empm', z3.ArraySort(ks, s)) for s in self.T.sorts(l)]))
            return Map(b, a[0], vt, z3.K(ks, z3.BoolVal(False)), 0, lv)
        if k == 'ref':
            return Ref(b.split('::')[-1], T.targs(t)[0], NULL)
        if k in ('tok',):
            return Tok(b.split('::')[-1], [0])
        if k == 'json':
            return Tok('json', [z3.Const('jnull', JSort)])
        raise Unsupported("default value of " + t)

    # ---------------------------------------------------------------- memory
    def obj(self, st, p):
        if p.obj is None:
            raise NullDeref()
        o = st.mem.get(p.obj)
        if o is None:
            raise Unsupported("dangling object %s" % p)
        return o

    def find_seq(self, o, off):
        """raw array cell covering off"""
        for co, (sz, v) in o.cells.items():
            if isinstance(v, Seq) and v.fixed and co <= off < co + sz:
                return co, v
        return None

    def access(self, st, p, write, what):
        if self.on_access is not None:
            self.on_access(self, st, p, write, what)

    def load(self, st, p, ty):
        """load a scalar of IR type ty"""
        size = ty.size
        self.access(st, p, False, ty)
        if isinstance(p, Ptr):
            o = self.obj(st, p)
            c = o.cells.get(p.off)
            if c is not None:
                sz, v = c
                if isinstance(v, Seq) and v.fixed:
                    return self.load_seq(st, v, 0, 0, size, ty)
                if sz == size or isinstance(v, Abs):
                    return self.coerce(st, v, ty)
                if isz(v) or isinstance(v, int):
                    if size < sz and not isinstance(v, bool):
                        return self.low(v, size * 8) if ty.k == 'int' else self._unsup("partial load")
                raise Unsupported("load of %d bytes from a %d byte cell %s+%d" % (size, sz, o.name, p.off))
            s = self.find_seq(o, p.off)
            if s:
                es = self.T.size(s[1].elem)
                return self.load_seq(st, s[1], (p.off - s[0]) // es, (p.off - s[0]) % es, size, ty)
            if o.zero:
                return 0 if ty.k == 'int' and ty.bits > 1 else (False if ty.k == 'int' else NULL)
            # containing scalar cell?
            for co, (sz, v) in o.cells.items():
                if co < p.off < co + sz and not isinstance(v, Abs):
                    raise Unsupported("misaligned load")
            v = self.fresh_scalar(st, ty, "%s#%d_%d" % (o.name, o.id, p.off), True)
            st.mem[o.id] = o.with_cells({**o.cells, p.off: (size, v)})
            return v
        if isinstance(p, EPtr):
            if p.cont == HEAP:
                q = self.deref(st, p)
                if q is not p:
                    return self.load(st, q, ty)
                lt = self.irleaf(ty)
                arrs = self.heap_arr(st, p.off, lt)
                return self.coerce(st, self.unpack_leaf(st, lt, [z3.Select(a, toz(p.idx)) for a in arrs]), ty)
            c = self.get_abs(st, p.cont)
            if isinstance(c, Seq):
                self.oblige(st, self.inb(c, p.idx), "index within bounds on read")
                return self.load_seq(st, c, p.idx, p.off, size, ty)
            if isinstance(c, Map):
                return self.coerce(st, self.get_abs(st, p), ty)
            raise Unsupported("load through %r" % (p,))
        if isinstance(p, MapIt):
            return self.coerce(st, self.map_leaf(st, p, 0, None), ty)
        raise Unsupported("load through %r" % (p,))

    def _unsup(self, m):
        raise Unsupported(m)

    def inb(self, c, idx):
        if isinstance(idx, int) and isinstance(c.n, int):
            return 0 <= idx < c.n
        return z3.And(toz(idx) >= 0, toz(idx) < toz(c.n))

    def irleaf(self, ty):
        if ty.k == 'ptr':
            return 'void*'
        if ty.k == 'int':
            return {1: 'bool', 8: 'unsigned char', 16: 'unsigned short', 32: 'unsigned int', 64: 'unsigned long'}[ty.bits]
        if ty.k == 'float':
            return 'double'
        raise Unsupported("leaf of %r" % ty)

    def heap_arr(self, st, off, lt):
        size = self.T.size(lt) if self.T.kind(lt) == 'scalar' else 0
        k = (off, tuple(str(s) for s in self.T.sorts(lt)))
        if k not in st.heap:
            base = self._heap0.get(k) if hasattr(self, '_heap0') else None
            if not hasattr(self, '_heap0'):
                self._heap0 = {}
            if base is None:
                base = [fresh('heap%d' % off, z3.ArraySort(IntS, s)) for s in self.T.sorts(lt)]
                self._heap0[k] = base
            st.heap[k] = base
        return st.heap[k]

    def heap_key(self, off, lt):
        return (off, tuple(str(s) for s in self.T.sorts(lt)))

    def fresh_scalar(self, st, ty, name, init=False):
        mk = (lambda n, s=IntS: z3.Const("%s@%s" % (n, s), s)) if init else fresh
        if ty.k == 'ptr':
            x = mk(name)
            st.fact(z3.And(x >= 0, x < HEAPMAX))
            return EPtr(HEAP, x, 0)
        if ty.k == 'int':
            if ty.bits == 1:
                return mk(name, BoolS)
            if self.bv:
                return mk(name, z3.BitVecSort(ty.bits))
            v = mk(name)
            st.fact(z3.And(v >= 0, v < 2 ** ty.bits))
            return v
        if ty.k == 'float':
            return mk(name, FSort)
        raise Unsupported("fresh %r" % ty)

    def coerce(self, st, v, ty):
        """adapt a cell value to the type of the load"""
        if ty.k == 'ptr':
            if isinstance(v, (Ptr, EPtr, FnPtr, MapIt, VTab, VFn, Exc)):
                return v
            if isinstance(v, Ref):
                return v.p
            if isinstance(v, int) or isz(v):
                return self.int_to_ptr(v)
            if isinstance(v, Abs):
                return v
            raise Unsupported("load ptr from %r" % (v,))
        if ty.k == 'int':
            if isinstance(v, (Ptr, EPtr)):
                return self.ptr_to_int(v)
            if isinstance(v, Abs):
                raise Unsupported("integer load from abstract object %r" % (v,))
            if ty.bits == 1:
                return self.to_bool(v)
            if isinstance(v, bool) or (isz(v) and z3.is_bool(v)):
                return ite(v, 1, 0) if isz(v) else int(v)
            return v
        if ty.k == 'float':
            return v
        raise Unsupported("load of %r" % ty)

    def to_bool(self, v):
        if isinstance(v, bool) or (isz(v) and z3.is_bool(v)):
            return v
        if isinstance(v, int):
            return bool(v & 1)
        if z3.is_app_of(v, z3.Z3_OP_ITE):
            a, b, c = v.children()
            if z3.is_int_value(b) and z3.is_int_value(c):
                x, y = b.as_long() & 1, c.as_long() & 1
                if x and not y:
                    return a
                if y and not x:
                    return z3.Not(a)
                return bool(x)
        if z3.is_bv(v):
            return z3.Extract(0, 0, v) == 1
        return v % 2 == 1

    def load_seq(self, st, c, idx, off, size, ty):
        es = self.T.size(c.elem)
        if c.elem in BYTES:
            if size == 1:
                if c.cst is not None and isinstance(idx, int):
                    return c.cst[idx] if idx < len(c.cst) else 0
                v = z3.Select(c.arr, toz(idx))
                if z3.is_bv(v):
                    return v
                st.fact(z3.And(v >= 0, v <= 255))
                return self.coerce(st, v, ty)
            tot = 0
            self.oblige(st, z3.And(toz(idx) >= 0, toz(idx) + size <= toz(c.n)), "multi-byte read within bounds")
            for i in range(size):
                v = z3.Select(c.arr, toz(idx) + i)
                st.fact(z3.And(v >= 0, v <= 255))
                tot = tot + v * (256 ** i)
            r = fresh('le')
            st.fact(z3.And(r == tot, r >= 0, r < 256 ** size))
            return r
        if self.on_table is not None and isz(idx) and z3.is_app_of(idx, z3.Z3_OP_BV2INT) and c.table is not None and off == 0:
            return self.on_table(self, st, c.table, idx.arg(0))
        for o, l, a in c.leaves:
            if o == off:
                v = self.unpack_leaf(st, l, [z3.Select(x, toz(idx)) for x in a])
                return self.coerce(st, v, ty)
        raise Unsupported("load at offset %d of element %s" % (off, c.elem))

    def store_seq(self, st, c, idx, off, v):
        nl = []
        hit = False
        for o, l, a in c.leaves:
            if o == off:
                hit = True
                ts = self.pack_leaf(st, l, v)
                nl.append((o, l, [z3.Store(x, toz(idx), t) for x, t in zip(a, ts)]))
            else:
                nl.append((o, l, a))
        if not hit:
            raise Unsupported("store at offset %d of element %s" % (off, c.elem))
        cst = None
        if c.cst is not None and isinstance(idx, int) and isinstance(v, int) and idx < len(c.cst):
            cst = c.cst[:idx] + bytes([v & 255]) + c.cst[idx + 1:]
        return Seq(c.elem, c.n, nl, None, cst, c.fixed)

    def store(self, st, p, v, size):
        self.access(st, p, True, size)
        if isinstance(p, Ptr):
            o = self.obj(st, p)
            if o.kind == 'const':
                self.oblige(st, False, "write to constant memory")
                return
            c = o.cells.get(p.off)
            if c is not None and isinstance(c[1], Seq) and c[1].fixed and size == self.T.size(c[1].elem):
                nv = self.store_seq(st, c[1], 0, 0, v)
                st.mem[o.id] = o.with_cells({**o.cells, p.off: (c[0], nv)})
                return
            s = self.find_seq(o, p.off)
            if s and s[0] != p.off:
                es = self.T.size(s[1].elem)
                nv = self.store_seq(st, s[1], (p.off - s[0]) // es, (p.off - s[0]) % es, v)
                st.mem[o.id] = o.with_cells({**o.cells, s[0]: (o.cells[s[0]][0], nv)})
                return
            cells = dict(o.cells)
            # drop overlapped cells
            for co in list(cells):
                sz = cells[co][0]
                if co != p.off and co < p.off + size and p.off < co + sz:
                    if isinstance(cells[co][1], Abs) and not isinstance(cells[co][1], (Ptr, EPtr)):
                        raise Unsupported("raw store into abstract object at %s+%d" % (o.name, co))
                    del cells[co]
            cells[p.off] = (size, v)
            st.mem[o.id] = o.with_cells(cells)
            return
        if isinstance(p, EPtr):
            if p.cont == HEAP:
                q = self.deref(st, p)
                if q is not p:
                    return self.store(st, q, v, size)
                lt = 'void*' if isinstance(v, (Ptr, EPtr, FnPtr)) else {1: 'unsigned char', 2: 'unsigned short', 4: 'unsigned int', 8: 'unsigned long'}[size]
                if isz(v) and v.sort() == FSort:
                    lt = 'double'
                k = self.heap_key(p.off, lt)
                arrs = self.heap_arr(st, p.off, lt)
                ts = self.pack_leaf(st, lt, v)
                st.heap[k] = [z3.Store(a, toz(p.idx), t) for a, t in zip(arrs, ts)]
                return
            c = self.get_abs(st, p.cont)
            if isinstance(c, Seq):
                self.oblige(st, self.inb(c, p.idx), "index within bounds on write")
                self.put_abs(st, p.cont, self.store_seq(st, c, p.idx, p.off, v))
                return
            if isinstance(c, Map):
                return self.put_abs(st, p, v)
            raise Unsupported("store through %r" % (p,))
        raise Unsupported("store through %r" % (p,))

    # abstract objects -----------------------------------------------------------------
    def get_abs(self, st, p, t=None):
        """abstract value of the library object at p (created on demand when its type t is known)"""
        self.access(st, p, False, 'abs')
        if isinstance(p, Ptr):
            o = self.obj(st, p)
            c = o.cells.get(p.off)
            if c is not None and (isinstance(c[1], Abs) or t is None or self.T.kind(t) in ('scalar', 'enum?')):
                return c[1]
            if c is not None:
                raise Unsupported("object at %s+%d is not a %s" % (o.name, p.off, t))
            if t is None:
                raise Unsupported("unknown object at %s+%d" % (o.name, p.off))
            if o.zero and self.T.kind(t) in ('ref', 'scalar', 'tok', 'map', 'seq'):
                v = self.empty_of(st, t)
            else:
                v = self.fresh_leaf(st, t, "%s#%d_%d" % (o.name, o.id, p.off), True)
            o = st.mem[p.obj]
            st.mem[o.id] = o.with_cells({**o.cells, p.off: (self.T.size(t), v)})
            return v
        if isinstance(p, EPtr):
            if p.cont == HEAP:
                q = self.deref(st, p)
                if q is not p:
                    return self.get_abs(st, q, t)
                if t is None:
                    raise Unsupported("untyped heap object")
                arrs = self.heap_arr(st, p.off, t)
                return self.unpack_leaf(st, t, [z3.Select(a, toz(p.idx)) for a in arrs])
            c = self.get_abs(st, p.cont, 'nlohmann::json' if t == 'nlohmann::json' and isz(p.idx) and p.idx.sort() == Blob else None)
            if isinstance(c, Tok) and c.kind == 'json':
                from . import lib_json
                return lib_json.element(self, st, p.cont, p.idx)
            if isinstance(c, Seq):
                self.oblige(st, self.inb(c, p.idx), "index within bounds on access")
                for o, l, a in c.leaves:
                    if o == p.off:
                        return self.unpack_leaf(st, l, [z3.Select(x, toz(p.idx)) for x in a])
            if isinstance(c, Map):
                self.oblige(st, z3.Select(c.dom, toz(p.idx)), "element accessed is in the container")
                return self.map_leaf_at(st, c, p.idx, p.off)
            raise Unsupported("object inside %r" % (p,))
        raise Unsupported("object through %r" % (p,))

    def map_voff(self, m):
        if m.vt is None:
            return None
        return self.T.align_up(self.T.size(m.kt), self.T.align(m.vt))

    def map_leaf_at(self, st, m, key, off):
        if m.vt is None or off < self.map_voff(m):
            i = 0
            ts = self.T.unkey(m.kt, toz(key))
            for o, l in self.T.leaves(m.kt):
                n = len(self.T.sorts(l))
                if o == off:
                    return self.unpack_leaf(st, l, ts[i:i + n])
                i += n
            raise Unsupported("key offset %d" % off)
        vo = self.map_voff(m)
        for o, l, a in m.leaves:
            if o + vo == off:
                return self.unpack_leaf(st, l, [z3.Select(x, toz(key)) for x in a])
        raise Unsupported("map value offset %d" % off)

    def put_abs(self, st, p, v, t=None):
        self.access(st, p, True, 'abs')
        if isinstance(p, Ptr):
            o = self.obj(st, p)
            c = o.cells.get(p.off)
            size = c[0] if c is not None else (self.T.size(t) if t else self.abs_size(v))
            st.mem[o.id] = o.with_cells({**o.cells, p.off: (size, v)})
            return
        if isinstance(p, EPtr):
            if p.cont == HEAP:
                q = self.deref(st, p)
                if q is not p:
                    return self.put_abs(st, q, v, t)
                if t is None:
                    t = self.type_of_abs(v)
                k = self.heap_key(p.off, t)
                arrs = self.heap_arr(st, p.off, t)
                ts = self.pack_leaf(st, t, v)
                st.heap[k] = [z3.Store(a, toz(p.idx), x) for a, x in zip(arrs, ts)]
                return
            c = self.get_abs(st, p.cont)
            if isinstance(c, Tok) and c.kind == 'json':
                from . import lib_json
                return lib_json.set_element(self, st, p.cont, p.idx, v)
            if isinstance(c, Seq):
                self.oblige(st, self.inb(c, p.idx), "index within bounds on object write")
                self.put_abs(st, p.cont, self.store_seq(st, c, p.idx, p.off, v))
                return
            if isinstance(c, Map):
                vo = self.map_voff(c)
                nl = []
                hit = False
                for o, l, a in c.leaves:
                    if o + vo == p.off:
                        hit = True
                        ts = self.pack_leaf(st, l, v)
                        nl.append((o, l, [z3.Store(x, toz(p.idx), tt) for x, tt in zip(a, ts)]))
                    else:
                        nl.append((o, l, a))
                if not hit:
                    raise Unsupported("map write at offset %d" % p.off)
                self.put_abs(st, p.cont, Map(c.kind, c.kt, c.vt, c.dom, c.card, nl))
                return
        raise Unsupported("object write through %r" % (p,))

    def type_of_abs(self, v):
        if isinstance(v, Seq):
            return 'std::string' if v.elem == 'char' else 'std::vector<%s>' % v.elem
        if isinstance(v, Map):
            return "%s<%s%s>" % (v.kind, v.kt, ", " + v.vt if v.vt else '')
        if isinstance(v, Ref):
            return "std::%s<%s>" % (v.kind, v.t)
        if isinstance(v, Tok) and v.kind == 'json':
            return 'nlohmann::json'
        if isinstance(v, (Tok,)):
            return 'std::%s<x>' % v.kind if v.kind != 'thread' else 'std::thread'
        if isinstance(v, Closure):
            return 'std::function<x>'
        raise Unsupported("type of %r" % (v,))

    def abs_size(self, v):
        return self.T.size(self.type_of_abs(v))

    def read_val(self, st, p, t):
        """all leaves of a C++ object of type t at p -> list of (off, leaftype, value)"""
        r = []
        for o, l in self.T.leaves(t):
            r.append((o, l, self.read_leaf(st, self.shift(p, o), l)))
        return r

    def read_leaf(self, st, p, l):
        if self.T.kind(l) in ('scalar', 'enum?'):
            from .llvm import Ty
            if isinstance(p, EPtr) and p.cont != HEAP:
                return self.get_abs(st, p, l)
            ty = Ty('ptr') if l.endswith('*') or l.endswith('&') else (Ty('float') if l in ('double', 'float') else Ty('int'))
            ty.size = self.T.size(l) if self.T.kind(l) == 'scalar' and not l.startswith('std::chrono') else (8 if l.startswith('std::chrono') else 4)
            ty.bits = ty.size * 8
            return self.load(st, p, ty)
        return self.get_abs(st, p, l)

    def write_leaf(self, st, p, l, v):
        if self.T.kind(l) in ('scalar', 'enum?') and not (isinstance(p, EPtr) and p.cont != HEAP):
            size = self.T.size(l) if self.T.kind(l) == 'scalar' and not l.startswith('std::chrono') else (8 if l.startswith('std::chrono') else 4)
            self.store(st, p, v, size)
        else:
            self.put_abs(st, p, v, l)

    def write_val(self, st, p, leaves):
        for o, l, v in leaves:
            self.write_leaf(st, self.shift(p, o), l, v)

    def pack_val(self, st, t, p):
        ts = []
        for o, l, v in self.read_val(st, p, t):
            ts += self.pack_leaf(st, l, v)
        return ts

    def key_at(self, st, t, p):
        return self.T.mkkey(t, self.pack_val(st, t, p))

    def default_val(self, st, t):
        return [(o, l, self.empty_of(st, l)) for o, l in self.T.leaves(t)]

    def shift(self, p, n):
        if n == 0:
            return p
        if isinstance(p, Ptr):
            return Ptr(p.obj, p.off + n)
        if isinstance(p, EPtr):
            return EPtr(p.cont, p.idx, p.off + n)
        raise Unsupported("offset from %r" % (p,))

    def byte_region(self, st, p):
        """(container pointer or None, Seq, index) for a char*-like pointer"""
        if isinstance(p, EPtr) and p.cont != HEAP:
            c = self.get_abs(st, p.cont)
            if isinstance(c, Seq) and c.elem in BYTES:
                return p.cont, c, p.idx
            raise Unsupported("byte region in %r" % (p,))
        if isinstance(p, Ptr) and p.obj is not None:
            o = self.obj(st, p)
            s = self.find_seq(o, p.off)
            if s and s[1].elem in BYTES:
                return Ptr(p.obj, s[0]), s[1], p.off - s[0]
            c = o.cells.get(p.off)
            if c is not None and (isz(c[1]) or isinstance(c[1], int)) and not isinstance(c[1], bool) and not (isz(c[1]) and z3.is_bool(c[1])):
                # bytes of a scalar (little endian), read-only view
                n, v = c
                arr = fresh('leb', z3.ArraySort(IntS, IntS))
                tot = 0
                for i in range(n):
                    b = z3.Select(arr, i)
                    st.fact(z3.And(b >= 0, b <= 255))
                    tot = tot + b * 256 ** i
                st.fact(tot == toz(v))
                return None, Seq('unsigned char', n, [(0, 'unsigned char', [arr])]), 0
        raise Unsupported("byte region at %r" % (p,))

    def write_bytes(self, st, cont, c, idx, src_arr, src_idx, n):
        """copy n bytes into c[idx..]; returns the new Seq stored"""
        arr2 = fresh('cp', c.arr.sort())
        k = z3.Const('k', IntS)
        i0, n0, s0 = toz(idx), toz(n), toz(src_idx)
        st.fact(z3.ForAll([k], z3.Select(arr2, k) == z3.If(z3.And(k >= i0, k < i0 + n0),
                                                          z3.Select(src_arr, k - i0 + s0), z3.Select(c.arr, k)),
                          patterns=[z3.Select(arr2, k)]))
        ns = Seq(c.elem, c.n, [(0, c.elem, [arr2])], None, None, c.fixed)
        self.put_abs(st, cont, ns)
        return ns

    # ---------------------------------------------------------------- integers
    def low(self, v, bits):
        if isinstance(v, int):
            return v % (1 << bits)
        if z3.is_bv(v):
            return z3.Extract(bits - 1, 0, v)
        return v % (1 << bits)

    def signed(self, v, bits):
        if isinstance(v, int):
            return v - (1 << bits) if v >= (1 << (bits - 1)) else v
        return z3.If(v >= (1 << (bits - 1)), v - (1 << bits), v)

    def bvc(self, v, bits):
        if isinstance(v, int):
            return z3.BitVecVal(v, bits)
        if isz(v) and v.sort() == IntS:
            return z3.Int2BV(v, bits)
        return v

    def arith(self, st, op, a, b, bits):
        if isinstance(a, bool) or (isz(a) and z3.is_bool(a)) or isinstance(b, bool) or (isz(b) and z3.is_bool(b)):
            if bits == 1:
                x, y = tob(self.to_bool(a)), tob(self.to_bool(b))
                if op == 'and':
                    return z3.simplify(z3.And(x, y)) if not (isz(a) and isz(b)) else z3.And(x, y)
                if op == 'or':
                    return z3.Or(x, y)
                if op in ('xor', 'add', 'sub'):
                    return z3.simplify(z3.Xor(x, y))
                raise Unsupported("i1 " + op)
        if z3.is_bv(a) or z3.is_bv(b):
            x, y = self.bvc(a, bits), self.bvc(b, bits)
            return {'add': lambda: x + y, 'sub': lambda: x - y, 'mul': lambda: x * y, 'and': lambda: x & y,
                    'or': lambda: x | y, 'xor': lambda: x ^ y, 'shl': lambda: x << y, 'lshr': lambda: z3.LShR(x, y),
                    'ashr': lambda: x >> y, 'udiv': lambda: z3.UDiv(x, y), 'urem': lambda: z3.URem(x, y)}[op]()
        M = 1 << bits
        if isinstance(a, int) and isinstance(b, int):
            if op == 'add': return (a + b) % M
            if op == 'sub': return (a - b) % M
            if op == 'mul': return (a * b) % M
            if op == 'and': return a & b
            if op == 'or': return a | b
            if op == 'xor': return a ^ b
            if op == 'shl': return (a << b) % M if b < bits else 0
            if op == 'lshr': return a >> b
            if op == 'ashr': return (self.signed(a, bits) >> b) % M
            if op == 'udiv': return a // b if b else 0
            if op == 'urem': return a % b if b else 0
            sa, sb = self.signed(a, bits), self.signed(b, bits)
            if op == 'sdiv': return int(sa / sb) % M if sb else 0
            if op == 'srem': return (abs(sa) % abs(sb) * (1 if sa >= 0 else -1)) % M if sb else 0
        x, y = toz(a), toz(b)
        if op == 'add':
            if isinstance(b, int) and b >= M // 2:     # adding a negative constant
                d = x - (M - b)
                if self.entails_fast(st, d >= 0):
                    return d
                return z3.If(d < 0, d + M, d)
            s = x + y
            if self.entails_fast(st, s < M):
                return s
            return z3.If(s >= M, s - M, s)
        if op == 'sub':
            d = x - y
            if self.entails_fast(st, d >= 0):
                return d
            return z3.If(d < 0, d + M, d)
        if op == 'mul':
            m = x * y
            if self.entails_fast(st, m < M):
                return m
            if isinstance(a, int) or isinstance(b, int):
                return m % M
            raise Unsupported("non-linear multiplication")
        if op in ('udiv', 'urem'):
            self.oblige(st, y != 0, "no division by zero")
            if isinstance(b, int):
                return x / y if op == 'udiv' else x % y
            # symbolic divisor: exact on [0, 2b), otherwise only the defining range
            if op == 'urem':
                if self.entails_fast(st, x < y):
                    return x
                r = fresh('rem')
                st.fact(z3.And(r >= 0, r < y, z3.Implies(x < y, r == x), z3.Implies(z3.And(x >= y, x < 2 * y), r == x - y),
                               r <= x))
                q = self._rem_uf(x, y)
                st.fact(r == q)
                return r
            q = fresh('quot')
            st.fact(z3.And(q >= 0, q <= x, z3.Implies(x < y, q == 0), z3.Implies(z3.And(x >= y, x < 2 * y), q == 1)))
            return q
        if op in ('sdiv', 'srem') and isinstance(b, int):
            sb = self.signed(b, bits)
            sa = self.signed(a, bits)
            if sb > 0 and self.entails_fast(st, sa >= 0):
                return x / y if op == 'sdiv' else x % y
            if sb > 0:
                q = z3.If(sa >= 0, sa / sb, -((-sa) / sb))
                r = q if op == 'sdiv' else sa - q * sb
                return z3.If(r < 0, r + M, r)
        if op == 'and':
            for c, v in ((a, y), (b, x)):
                if isinstance(c, int):
                    if c == 0:
                        return 0
                    if (c + 1) & c == 0:
                        return v % (c + 1)
                    inv = (M - 1) ^ c
                    if (inv + 1) & inv == 0:
                        return v - v % (inv + 1)
        if op == 'shl' and isinstance(b, int):
            m = x * (1 << b)
            return m if self.entails_fast(st, m < M) else m % M
        if op == 'lshr' and isinstance(b, int):
            return x / (1 << b)
        if op == 'ashr' and isinstance(b, int) and self.entails_fast(st, x < M // 2):
            return x / (1 << b)
        if op == 'or':
            if isinstance(a, int) and a == 0:
                return b
            if isinstance(b, int) and b == 0:
                return a
            # disjoint bits: (x << k) | y with y < 2^k
            for p, q in ((x, y), (y, x)):
                for k in (1, 8, 16, 24, 32):
                    if self.entails_fast(st, z3.And(p % (1 << k) == 0, q < (1 << k))):
                        return p + q
        if op == 'xor':
            if isinstance(b, int) and b == M - 1:
                return (M - 1) - x
            if isinstance(b, int) and b == 0:
                return a
        raise Unsupported("%s on symbolic %d-bit operands" % (op, bits))

    def _rem_uf(self, x, y):
        f = z3.Function('urem_', IntS, IntS, IntS)
        return f(x, y)

    def icmp(self, pred, a, b, ty):
        if ty.k == 'ptr':
            e = self.ptr_cmp(pred, a, b)
            return e
        bits = ty.bits
        if bits == 1 or isinstance(a, bool) or isinstance(b, bool) or (isz(a) and z3.is_bool(a)) or (isz(b) and z3.is_bool(b)):
            x, y = tob(self.to_bool(a)), tob(self.to_bool(b))
            e = x == y
            if pred == 'ne':
                e = z3.Not(e)
            elif pred != 'eq':
                raise Unsupported("icmp %s on i1" % pred)
            return self.sb(e)
        if z3.is_bv(a) or z3.is_bv(b):
            x, y = self.bvc(a, bits), self.bvc(b, bits)
            return self.sb({'eq': lambda: x == y, 'ne': lambda: x != y, 'ult': lambda: z3.ULT(x, y),
                            'ule': lambda: z3.ULE(x, y), 'ugt': lambda: z3.UGT(x, y), 'uge': lambda: z3.UGE(x, y),
                            'slt': lambda: x < y, 'sle': lambda: x <= y, 'sgt': lambda: x > y, 'sge': lambda: x >= y}[pred]())
        if pred[0] == 's':
            a, b = self.signed(a, bits), self.signed(b, bits)
        if isinstance(a, int) and isinstance(b, int):
            return {'eq': a == b, 'ne': a != b, 'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b}[
                pred if pred in ('eq', 'ne') else pred[1:]]
        x, y = toz(a), toz(b)
        p = pred if pred in ('eq', 'ne') else pred[1:]
        return self.sb({'eq': lambda: x == y, 'ne': lambda: x != y, 'lt': lambda: x < y, 'le': lambda: x <= y,
                        'gt': lambda: x > y, 'ge': lambda: x >= y}[p]())

    def sb(self, e):
        s = z3.simplify(e)
        if z3.is_true(s):
            return True
        if z3.is_false(s):
            return False
        return e

    def ptr_cmp(self, pred, a, b):
        if isinstance(a, int) or isz(a):
            a = self.int_to_ptr(a)
        if isinstance(b, int) or isz(b):
            b = self.int_to_ptr(b)
        if pred in ('eq', 'ne'):
            if isinstance(a, (MapIt, VTab, VFn)) or isinstance(b, (MapIt, VTab, VFn)):
                raise Unsupported("comparison of %r" % (a,))
            e = self.ptr_eq(a, b)
            if pred == 'ne':
                e = (not e) if isinstance(e, bool) else z3.Not(e)
            return e
        if isinstance(a, EPtr) and isinstance(b, EPtr) and ckey(a.cont) == ckey(b.cont) and a.off == b.off:
            x, y = toz(a.idx), toz(b.idx)
            return {'lt': x < y, 'le': x <= y, 'gt': x > y, 'ge': x >= y}[pred[1:]]
        raise Unsupported("pointer ordering")


