#!/usr/bin/env python3
"""development aid: applies edits to scratch copies of /repo and shows what the checks say.
usage: mut.py <muts file> [name-substring]
A muts file is python: M = [dict(name, props, kind='bug'|'same', edits=[(file, old, new)])]"""
import sys, os, subprocess, shutil, importlib.util, tempfile
from concurrent.futures import ThreadPoolExecutor
sp = importlib.util.spec_from_file_location('m', sys.argv[1]); m = importlib.util.module_from_spec(sp); sp.loader.exec_module(m)
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
flt = sys.argv[2] if len(sys.argv) > 2 else ''
R = os.environ.get('MUT_REPO', '/repo')
def one(x):
    d = tempfile.mkdtemp(prefix='mut_', dir='/tmp')
    try:
        subprocess.run(['cp', '-a'] + [R + '/' + f for f in os.listdir(R) if f not in ('_build', '.git')] + [d], check=True)
        for f, old, new in x['edits']:
            p = os.path.join(d, f); s = open(p).read()
            if s.count(old) < 1: return (x, None, 'EDIT DOES NOT APPLY: ' + old)
            open(p, 'w').write(s.replace(old, new, 1))
        out = ''; verdicts = []
        for prop in x['props']:
            env = dict(os.environ, SCV_REPO=d, SCV_OUT=d + '/out_v')
            p = subprocess.run(['./check', prop, 'quick'], cwd=V, env=env, capture_output=True, text=True)
            out += p.stdout + p.stderr
            v = [l for l in p.stdout.split('\n') if l.startswith('VIOLATION')]
            verdicts.append('ALARM' + ('(noinput)' if v and 'no-failing' in v[0] else '') if p.returncode == 1 and v else ('quiet' if p.returncode == 0 else 'ERROR'))
            rp = d + '/out_v/replay/out/%s.txt' % prop
            if os.path.exists(rp) and os.environ.get('MUT_V'): out += open(rp).read()[:3000]
        return (x, verdicts, out)
    finally:
        shutil.rmtree(d)
with ThreadPoolExecutor(int(os.environ.get('MUT_J', '4'))) as ex:
    for x, v, out in ex.map(one, [x for x in m.M if flt in x['name']]):
        want = 'quiet' if x['kind'] == 'same' else 'ALARM'
        ok = v is not None and all(y.startswith(want) for y in v)
        print("%-4s %-5s %-60s %s" % ('ok' if ok else '!!', x['kind'], x['name'], list(zip(x['props'], v)) if v else ''))
        if not ok or os.environ.get('MUT_V') or 'UNDECIDED' in out: print('      ' + '\n      '.join(l for l in out.strip().split('\n') if not l.startswith('PROVED') or os.environ.get('MUT_V')))
