"""Specification framework: functions under contract, verification driver, results."""
import time, traceback, os
import z3
from .vals import *
from .engine import *
from .exec import Exec
from . import lib_std
from .program import Program, CompileError
from .types import parse_sig, norm


class FnSpec:
    """contract of one function.

    setup(e, st) -> (args, env): symbolic pre-state satisfying the precondition
    post(e, o, env): postcondition obligations for outcome o
    """
    qual = None
    cls = None
    nparams = None
    title = ''

    def pred(self, sig):
        return True

    def setup(self, e, st):
        raise NotImplementedError

    def post(self, e, o, env):
        pass

    def install(self, e):
        """contracts of callees, assumed contracts of the environment, invariants"""

    def exc_ok(self, e, o, env):
        """may this exception leave the function?"""
        return False


class Result:
    def __init__(self, fn):
        self.fn = fn
        self.obls = []
        self.status = 'undecided'    # proved | failed | undecided
        self.reason = ''
        self.time = 0.0
        self.solver = {}
        self.queries = 0
        self.trusted = set()
        self.inlined = set()
        self.used = set()
        self.loops = []
        self.invs = 0
        self.paths = 0
        self.name = fn


def find_fn(P, spec):
    fs = P.find(spec.qual, spec.cls, spec.nparams, spec.pred)
    # constructors/destructors come in C1/C2, D0/D1/D2 variants
    if len(fs) > 1:
        pref = [f for f in fs if ('C2' in f.name or 'D2' in f.name)]
        if pref:
            fs = pref
    return fs


JOBS = int(os.environ.get('SCV_JOBS', '8'))
# attempts at a proof: (patient, solver seed). The first runs alone; the others, side by side, when it does not succeed.
VARIANTS = [(False, 0), (True, 0), (False, 7), (True, 11)]


def _child(w, P, spec, tier, budget, variant):
    import pickle
    try:
        import resource
        resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
    except Exception:
        pass
    patient, seed = variant
    if seed:
        z3.set_param('smt.random_seed', seed)
        z3.set_param('sat.random_seed', seed)
    r = verify1(P, spec, tier, budget, None, patient)
    for o in r.obls:
        o.smt = None
        o.model = [str(x) for x in o.model] if o.model else None
        o.path = [tuple(str(y) for y in x) if isinstance(x, tuple) else str(x) for x in o.path]
        o.name, o.fn = str(o.name), str(o.fn)
    r.loops = [str(x) for x in r.loops]
    r.solver = {str(k): float(v) for k, v in r.solver.items()}
    for k in ('trusted', 'inlined', 'used'):
        setattr(r, k, {str(x) for x in getattr(r, k)})
    b = pickle.dumps(r)
    off = 0
    while off < len(b):
        off += os.write(w, b[off:off + 65536])


class Job:
    """one attempt, in a process of its own: what other proofs did before does not influence the solver"""

    def __init__(self, P, spec, tier, budget, variant):
        self.spec = spec
        rd, w = os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            try:
                os.close(rd)
                _child(w, P, spec, tier, budget, variant)
            except BaseException:
                if os.environ.get('SCV_TRACE'):
                    traceback.print_exc()
            finally:
                os._exit(0)
        os.close(w)
        self.fd, self.buf, self.limit = rd, b'', time.time() + budget + 60

    def stop(self):
        import signal
        try:
            os.kill(self.pid, signal.SIGKILL)
        except OSError:
            pass
        os.waitpid(self.pid, 0)
        os.close(self.fd)

    def result(self):
        import pickle
        try:
            return pickle.loads(self.buf)
        except Exception:
            r = Result(self.spec.title or self.spec.qual)
            r.reason = 'the prover process ended without an answer'
            return r


def run_jobs(todo, done):
    """todo: list of (key, make job); done(key, result) -> keys of jobs no longer needed, more jobs"""
    import select
    run = {}
    todo = list(todo)
    while todo or run:
        while todo and len(run) < JOBS:
            k, mk = todo.pop(0)
            j = mk()
            run[j.fd] = (k, j)
        rs, _, _ = select.select(list(run), [], [], 1)
        fin = []
        for fd in rs:
            b = os.read(fd, 1 << 20)
            run[fd][1].buf += b
            if not b:
                fin.append(fd)
        fin += [fd for fd, (k, j) in run.items() if fd not in fin and time.time() > j.limit]
        for fd in fin:
            if fd not in run:
                continue
            k, j = run.pop(fd)
            j.stop()
            drop, more = done(k, j.result())
            for f2, (k2, j2) in list(run.items()):
                if k2 in drop:
                    del run[f2]
                    j2.stop()
            todo = [x for x in todo if x[0] not in drop] + more


PHASE = [0]      # 0: all attempts at once; 1: the first attempt only; 2: the other attempts at what the first did not prove
_memo, _calls = {}, [0]


def phase(n):
    PHASE[0] = n
    _calls[0] = 0


def verify_all(P, specs, tier='quick', budget=240):
    specs = list(specs)
    best, spent, attempts = {}, {}, {}
    call = _calls[0]
    _calls[0] += 1

    def mk(i, v):
        p = P[i] if isinstance(P, list) else P
        return ((i, v), lambda: Job(p, specs[i], tier, budget, v))

    def done(key, r):
        i, v = key
        spent[i] = spent.get(i, 0) + r.time
        attempts[i] = attempts.get(i, 0) + 1
        b = best.get(i)
        rank = {'proved': 2, 'failed': 1, 'undecided': 0}
        if b is None or rank[r.status] > rank[b.status] or (r.status == b.status == 'failed' and v == (True, 0)):
            best[i] = r
        if r.status == 'proved':
            return [(i, x) for x in VARIANTS], []
        if PHASE[0] != 1 and v == VARIANTS[0] and (r.loops or any(o.status == 'timeout' for o in r.obls)) and r.time < budget * 0.75:
            return [], [mk(i, x) for x in VARIANTS[1:]]
        return [], []
    todo = []
    if PHASE[0] == 2:
        for i in range(len(specs)):
            r = best[i] = _memo[call, i]
            spent[i], attempts[i] = r.time, 1
            if r.status != 'proved' and (r.loops or any(o.status == 'timeout' for o in r.obls)) and r.time < budget * 0.75:
                todo += [mk(i, x) for x in VARIANTS[1:]]
    else:
        todo = [mk(i, VARIANTS[0]) for i in range(len(specs))]
    run_jobs(todo, done)
    if PHASE[0] == 1:
        import copy
        for i in range(len(specs)):
            _memo[call, i] = copy.copy(best[i])
    res = []
    for i in range(len(specs)):
        best[i].time = spent[i]
        res.append(best[i])
    return res


def verify(P, spec, tier='quick', budget=240):
    return verify_all(P, [spec], tier, budget)[0]


def verify1(P, spec, tier, budget, fn, patient):
    r = Result(spec.title or spec.qual)
    t0 = time.time()
    e = Exec(P, tier)
    lib_std.install(e)
    e.deadline = t0 + budget
    e.patient = patient
    if tier == 'thorough':
        e.timeout_ms = 30000
    try:
        if fn is None:
            fs = find_fn(P, spec)
            if len(fs) != 1:
                raise Unsupported("%s: %d matching functions" % (spec.qual, len(fs)))
            fn = fs[0]
        r.name = fn.demangled
        fn.blocks
        spec.fn = fn
        spec.install(e)
        st = State()
        args, env = spec.setup(e, st)
        if not e.feasible(st):
            raise Unsupported("precondition is unsatisfiable")
        outs = e.run(st, fn, args, 0)
        r.paths = len(outs)
        e.stack.append(fn.demangled)
        live = 0
        for o in outs:
            if e.feasible(o.st):
                live += 1
            if o.exc is not None:
                ok = spec.exc_ok(e, o, env)
                if ok is not True:
                    e.oblige(o.st, ok if ok is not False else False, "no exception (%s) leaves the function" % o.exc.type)
            else:
                spec.post(e, o, env)
        if hasattr(spec, 'final'):
            spec.final(e, outs, env)
        if live == 0 and not getattr(spec, 'noreturn', False) and not any(o.status != 'proved' for o in e.obls):
            raise Unsupported("no path reaches the end of the function (vacuous)")
        bad = [o for o in e.obls if o.status == 'failed']
        und = [o for o in e.obls if o.status == 'timeout']
        r.status = 'failed' if bad else ('undecided' if und else 'proved')
        if und and not bad:
            r.reason = "solver timeout on: " + und[0].name
        if not e.obls:
            r.status, r.reason = 'undecided', 'no obligations generated'
    except Unsupported as x:
        bad = [o for o in e.obls if o.status == 'failed']
        r.status = 'undecided'
        r.reason = "%s (line %s)" % (x, e.cur_line)
        if os.environ.get('SCV_TRACE'):
            traceback.print_exc()
    except (KeyError, AttributeError, TypeError, IndexError, z3.Z3Exception, RecursionError, AssertionError, ValueError) as x:
        r.status = 'undecided'
        r.reason = "internal: %s %s (line %s)" % (type(x).__name__, x, e.cur_line)
        if os.environ.get('SCV_TRACE'):
            traceback.print_exc()
    r.obls = e.obls
    r.time = time.time() - t0
    r.solver = dict(e.solver_time)
    r.queries = e.nqueries
    r.trusted = set(e.trusted)
    r.inlined = set(e.inlined)
    r.used = set(e.used_contracts)
    r.loops = e.loops_cut
    r.invs = e.inv_count
    return r


GUARDS = {'endpoints': 'C08', 'pending requests': 'C05', 'broadcast queue': 'C07'}


def for_prop(results, prop):
    """what of these proofs decides one property: obligations tagged "[C05,C06] ..." belong to the properties named, the
    monitor obligations of a guarded object to the property of that object, untagged ones (safety of the code, loop
    invariants) to every property that depends on the function"""
    import re
    for r in results:
        keep = []
        for o in r.obls:
            m = re.search(r'\[(C\d+(?:,C\d+)*)\]', o.name)
            ps = m.group(1).split(',') if m else None
            if ps is None:
                g = [p for n, p in GUARDS.items() if o.name.startswith(n + ' ') or o.name == 'invariant of %s at unlock' % n]
                ps = g or None
            if ps is None or prop in ps:
                keep.append(o)
        r.obls = keep
        if r.status == 'failed' and not any(o.status == 'failed' for o in keep):
            r.status, r.reason = 'proved', ''
        if r.status == 'proved' and any(o.status == 'timeout' for o in keep):
            r.status = 'undecided'
        if r.status == 'undecided' and r.reason.startswith('solver timeout on') and keep and not any(o.status == 'timeout' for o in keep):
            r.status, r.reason = 'proved', ''
    return [r for r in results if r.obls or r.status != 'proved']


def lemma(name, hyps, goal, tier='quick'):
    """stand-alone lemma over contracts"""
    class P0:
        layouts = None
    r = Result(name)
    from .types import Layouts
    P0.layouts = Layouts()
    e = Exec(P0, tier)
    lib_std.install(e)
    st = State()
    for h in hyps:
        st.fact(h)
    t0 = time.time()
    e.stack.append('lemma ' + name)
    if not e.feasible(st):
        r.reason = 'hypotheses unsatisfiable'
        return r
    e.oblige(st, goal, name)
    r.obls = e.obls
    r.status = {'proved': 'proved', 'failed': 'failed', 'timeout': 'undecided'}[e.obls[0].status]
    r.time = time.time() - t0
    r.solver = dict(e.solver_time)
    r.queries = e.nqueries
    return r


def show(r, verbose=False):
    n = len(r.obls)
    ok = sum(o.status == 'proved' for o in r.obls)
    print("%-9s %s  %d/%d obligations, %d paths, %d inv, %.1fs (z3 %.1fs cvc5 %.1fs, %d queries) %s" % (
        r.status.upper(), r.name[:100], ok, n, r.paths, r.invs, r.time, r.solver.get('z3', 0), r.solver.get('cvc5', 0), r.queries, r.reason))
    for o in r.obls:
        if o.status != 'proved':
            print("    %s: %s (line %s, in %s) path %s" % (o.status, o.name, o.line, o.fn[:60], list(o.path)))
            if verbose and o.model:
                print("       ", "; ".join(o.model[:60]))
