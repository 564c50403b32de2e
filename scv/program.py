"""Compiles translation units of the repository's working tree to IR and indexes their functions."""
import os, subprocess, hashlib, glob, shutil
from concurrent.futures import ThreadPoolExecutor
from . import llvm, types as T

REPO = os.environ.get("SCV_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(VERIF, "build")


def includes(repo=None):
    repo = repo or REPO
    inc = []
    for c in ("interface", "general", "tracing", "transport", "catapult", "examples"):
        for d in ("include", "include_consumer", "src"):
            p = "%s/scalopus_%s/%s" % (repo, c, d)
            if os.path.isdir(p):
                inc.append("-I" + p)
    for d in ("src/native/include", "src/lttng/include", "src/native", "src/lttng"):
        p = "%s/scalopus_tracing/%s" % (repo, d)
        if os.path.isdir(p):
            inc.append("-I" + p)
    for d in glob.glob(repo + "/vendor/*") + glob.glob(repo + "/vendor/*/include"):
        if os.path.isdir(d):
            inc.append("-I" + d)
    inc.append('-I' + os.path.join(VERIF, 'stubs'))   # only for headers of submodules that are absent here
    return inc


def tree_hash(repo=None):
    repo = repo or REPO
    h = hashlib.sha256()
    for root, dirs, files in os.walk(repo):
        dirs[:] = sorted(d for d in dirs if d not in ('.git', 'build', '_build', '.vp', 'test', 'tests'))
        for f in sorted(files):
            if f.endswith(('.cpp', '.h', '.hpp', '.cc', '.in')):
                p = os.path.join(root, f)
                h.update(p.encode())
                with open(p, 'rb') as fh:
                    h.update(fh.read())
    return h.hexdigest()[:16]


class CompileError(Exception):
    pass


FLAGS = ["-std=gnu++17", "-O0", "-Xclang", "-disable-O0-optnone", "-Xclang", "-disable-llvm-passes",
         "-fno-discard-value-names", "-gline-tables-only", "-flto", "-fwhole-program-vtables", "-fvisibility=hidden",
         "-Xclang", "-fdump-vtable-layouts", "-Xclang", "-fdump-record-layouts", "-w", "-pthread"]


def compile_tu(src, extra=(), th=None):
    """-> (bc path, layout text)"""
    os.makedirs(BUILD, exist_ok=True)
    with open(src, 'rb') as f:
        body = f.read()
    shim = b''
    for e in extra:
        if os.path.isfile(e):
            with open(e, 'rb') as f:
                shim += f.read()
    key = hashlib.sha256((th or tree_hash()).encode() + src.encode() + body + repr((FLAGS, extra)).encode() + shim).hexdigest()[:24]
    bc = os.path.join(BUILD, key + ".bc")
    lay = os.path.join(BUILD, key + ".lay")
    if not (os.path.exists(bc) and os.path.exists(lay)):
        p = subprocess.run(["clang++"] + FLAGS + list(extra) + includes() + ["-c", src, "-o", bc + ".tmp%d" % os.getpid()],
                           capture_output=True, text=True)
        if p.returncode != 0:
            raise CompileError("%s: %s" % (src, p.stderr[-2000:]))
        with open(lay + ".tmp%d" % os.getpid(), 'w') as f:
            f.write(p.stdout)
        os.replace(bc + ".tmp%d" % os.getpid(), bc)
        os.replace(lay + ".tmp%d" % os.getpid(), lay)
    with open(lay) as f:
        return bc, f.read()


class Program:
    def __init__(self, srcs, extra=()):
        """srcs: paths relative to /repo, or absolute paths of instantiation units under /verif"""
        self.layouts = T.Layouts()
        self.mods = []
        self.defs = {}
        th = tree_hash()
        paths = [s if s.startswith('/') else os.path.join(REPO, s) for s in srcs]
        with ThreadPoolExecutor(8) as ex:
            res = list(ex.map(lambda p: compile_tu(p, tuple(extra), th), paths))
        for bc, lay in res:
            self.layouts.parse(lay)
            m = llvm.Module(bc)
            self.mods.append(m)
            for n, f in m.funcs.items():
                if not f.decl:
                    self.defs.setdefault(n, f)
        self.by_qual = {}
        for n, f in self.defs.items():
            s = T.parse_sig(f.demangled)
            self.by_qual.setdefault(s.qual, []).append(f)

    def resolve(self, mod, name):
        """definition of a symbol as seen from module mod"""
        name = mod.aliases.get(name, name)
        f = mod.funcs.get(name)
        if f is not None and not f.decl:
            return f
        g = self.defs.get(name)
        if g is None:
            for m in self.mods:
                if name in m.aliases:
                    g = self.defs.get(m.aliases[name])
                    break
        return g if g is not None else f

    def find(self, qual, cls=None, nparams=None, pred=None):
        """functions with this qualified name (no template arguments); constructors: the complete object (C1/C2) one"""
        r = self.by_qual.get(qual, [])
        if cls is not None:
            r = [f for f in r if T.parse_sig(f.demangled).cls == cls]
        if nparams is not None:
            r = [f for f in r if len(T.parse_sig(f.demangled).params or []) == nparams]
        if pred is not None:
            r = [f for f in r if pred(T.parse_sig(f.demangled))]
        return r

    def global_var(self, mod, name):
        g = mod.globals.get(name)
        if g is not None and not g.decl:
            return g
        for m in self.mods:
            h = m.globals.get(name)
            if h is not None and not h.decl:
                return h
        return g
