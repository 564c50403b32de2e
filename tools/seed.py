#!/usr/bin/env python3
"""development aid: (re)creates /verif/seeded/<id>/patch.diff and demo.sh from edits and confirms it in a scratch copy.
usage: seed.py <seeds file> [id]   seeds file: S = [dict(id, property, needs, breaks, edits=[(file, old, new)], srcs=[...], flags='', libs='')]; demo source: tools/seeds/<id>.cpp"""
import sys, os, subprocess, shutil, importlib.util, tempfile, json
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sp = importlib.util.spec_from_file_location('m', sys.argv[1]); m = importlib.util.module_from_spec(sp); sp.loader.exec_module(m)
INC = ' '.join('-Iscalopus_%s/%s' % (c, d) for c in ('interface', 'general', 'tracing', 'transport', 'catapult') for d in ('include', 'include_consumer', 'src')) + ' -Iscalopus_tracing/src/native -Iscalopus_tracing/src/lttng -Iscalopus_tracing/src/native/include -Iscalopus_tracing/src/lttng/include'
for x in m.S:
    if len(sys.argv) > 2 and x['id'] != sys.argv[2]: continue
    dst = V + '/seeded/' + x['id']
    shutil.rmtree(dst, ignore_errors=True); os.makedirs(dst)
    t = tempfile.mkdtemp(prefix='seed_', dir='/tmp')
    try:
        w = t + '/repo'
        subprocess.run(['git', '-C', '/repo', 'worktree', 'add', '-q', '--detach', w], check=True)
        src = os.path.join(os.path.dirname(os.path.abspath(sys.argv[1])), x.get('demo', x['id']) + '.cpp')
        shutil.copy(src, dst + '/demo.cpp')
        for n in x.get('extra', ()):
            (shutil.copytree(V + '/' + n, dst + '/' + os.path.basename(n)) if os.path.isdir(V + '/' + n) else shutil.copy(V + '/' + n, dst))
        with open(dst + '/demo.sh', 'w') as f:
            f.write('#!/bin/bash\n# exit 0: the property holds for this history; non-zero: it is broken\nD=$(cd "$(dirname "$0")" && pwd)\nT=$(mktemp -d)\ntrap \'rm -rf "$T"\' EXIT\n'
                    'g++ -std=c++14 -O1 -g -w -pthread %s -I"$D" %s "$D/demo.cpp" %s -o "$T/demo" -ldl %s || exit 3\ntimeout 100 "$T/demo"\n' % (x.get('flags', ''), INC, ' '.join(x['srcs']), x.get('libs', '')))
        os.chmod(dst + '/demo.sh', 0o755)
        r0 = subprocess.run(['bash', dst + '/demo.sh'], cwd=w, capture_output=True, text=True)
        for f, old, new in x['edits']:
            p = os.path.join(w, f); s = open(p).read(); assert s.count(old) >= 1, (x['id'], old)
            open(p, 'w').write(s.replace(old, new, 1))
        d = subprocess.run(['git', '-C', w, 'diff'], capture_output=True, text=True).stdout
        open(dst + '/patch.diff', 'w').write(d)
        r1 = subprocess.run(['bash', dst + '/demo.sh'], cwd=w, capture_output=True, text=True)
        json.dump(dict(property=x['property'], needs=x['needs'], what_it_breaks=x['breaks']), open(dst + '/meta.json', 'w'), indent=1)
        ok = r0.returncode == 0 and r1.returncode not in (0, 3)
        print("%s %s: unchanged %d, patched %d  %s" % ('ok' if ok else '!!', x['id'], r0.returncode, r1.returncode, (r1.stdout + r1.stderr).strip().split('\n')[-1][:150]))
        if not ok: print(r0.stdout[-1500:], r0.stderr[-1500:])
    finally:
        subprocess.run(['git', '-C', '/repo', 'worktree', 'remove', '--force', t + '/repo'])
        shutil.rmtree(t, ignore_errors=True)
