"""builds a replay harness from the working tree of the repository and runs its cases"""
import os, subprocess, hashlib, time
from concurrent.futures import ThreadPoolExecutor
from .program import REPO, VERIF, BUILD, includes, tree_hash

BASE = ['-std=gnu++17', '-O1', '-g', '-w', '-pthread']


class HarnessError(Exception):
    pass


def _obj(src, flags, th, cxx):
    with open(src, 'rb') as f:
        body = f.read()
    hb = b''
    hd = os.path.join(VERIF, 'harness')
    for n in sorted(os.listdir(hd)):
        if n.endswith('.h'):
            with open(os.path.join(hd, n), 'rb') as f:
                hb += f.read()
    key = hashlib.sha256(th.encode() + src.encode() + body + hb + repr((cxx, BASE, flags)).encode()).hexdigest()[:24]
    o = os.path.join(BUILD, 'h_' + key + '.o')
    if not os.path.exists(o):
        tmp = o + '.tmp%d' % os.getpid()
        p = subprocess.run([cxx] + BASE + flags + includes() + ['-I' + hd, '-c', src, '-o', tmp], capture_output=True, text=True, timeout=600)
        if p.returncode != 0:
            raise HarnessError("harness does not compile: %s\n%s" % (src, p.stderr[-3000:]))
        os.replace(tmp, o)
    return o


def build(name, spec):
    os.makedirs(BUILD, exist_ok=True)
    th = tree_hash()
    flags = list(spec.get('flags', []))
    cxx = spec.get('cxx', 'g++')
    srcs = [os.path.join(VERIF, 'harness', name + '.cpp')]
    for s in spec.get('srcs', []):
        if s.startswith('/'):
            srcs.append(s)
        elif os.path.exists(os.path.join(REPO, s)):
            srcs.append(os.path.join(REPO, s))
    with ThreadPoolExecutor(8) as ex:
        objs = list(ex.map(lambda s: _obj(s, flags, th, cxx), srcs))
    exe = os.path.join(BUILD, 'h_%s_%s' % (name, hashlib.sha256(repr(objs).encode()).hexdigest()[:16]))
    if not os.path.exists(exe):
        tmp = exe + '.tmp%d' % os.getpid()
        p = subprocess.run([cxx] + BASE + flags + objs + ['-o', tmp, '-ldl'] + list(spec.get('libs', [])), capture_output=True, text=True, timeout=300)
        if p.returncode != 0:
            raise HarnessError("harness does not link: %s" % p.stderr[-3000:])
        os.replace(tmp, exe)
    return exe


def run(exe, prop, tier, seed, model=None, timeout=300):
    """-> (cases run, [failure lines], full output)"""
    env = dict(os.environ)
    env.update(VH_PROP=prop, VH_TIER=tier, VH_SEED=str(seed))
    env.setdefault('TSAN_OPTIONS', 'halt_on_error=1:exitcode=66')
    if model:
        env['VH_MODEL'] = ';'.join(model)[:8000]
    try:
        p = subprocess.run([exe], capture_output=True, text=True, errors='replace', timeout=timeout, env=env)
        out, rc = p.stdout + p.stderr, p.returncode
    except subprocess.TimeoutExpired as x:
        raise HarnessError("harness did not finish within %ds" % timeout)
    cases = [l[5:] for l in out.split('\n') if l.startswith('CASE ')]
    fails = [l[5:] for l in out.split('\n') if l.startswith('FAIL ')]
    if rc not in (0, 1) or not cases:
        raise HarnessError("harness error (exit %d): %s" % (rc, out[-1500:]))
    return cases, fails, out
