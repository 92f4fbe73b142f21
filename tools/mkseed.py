"""Helper used while planting bugs: seed(id, property, edits, needs, breaks, demo, sources) writes seeded/<id>/."""
import os, subprocess, json, shutil, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def seed(sid, prop, edits, needs, breaks, demo, sources='', flags='', libs='-lfmt'):
    d = os.path.join(ROOT, 'seeded', sid); os.makedirs(d, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix='mkseed')
    diff = ''
    for f in sorted({e[0] for e in edits}):
        s = open('/repo/' + f).read(); o = s
        for g, a, b in edits:
            if g != f: continue
            assert s.count(a) == 1, (sid, f, a, s.count(a))
            s = s.replace(a, b)
        for side, t in (('a', o), ('b', s)):
            p = os.path.join(tmp, side, f); os.makedirs(os.path.dirname(p), exist_ok=True); open(p, 'w').write(t)
        diff += 'diff --git a/%s b/%s\n' % (f, f) + subprocess.run(['diff', '-u', 'a/' + f, 'b/' + f], cwd=tmp, stdout=subprocess.PIPE, text=True).stdout
    shutil.rmtree(tmp)
    import re
    diff = re.sub(r'^((?:---|\+\+\+) \S+)\t.*$', r'\1', diff, flags=re.M)
    open(os.path.join(d, 'patch.diff'), 'w').write(diff)
    open(os.path.join(d, 'demo.cpp'), 'w').write(demo)
    open(os.path.join(d, 'demo.sh'), 'w').write('''#!/bin/bash
# exit 0 when the code behaves, nonzero when it does not (run with cwd /repo)
here=$(cd "$(dirname "$0")" && pwd)
out=$(mktemp -d) || exit 3
trap 'rm -rf "$out"' EXIT
g++ -std=gnu++17 -O1 -w -DNDEBUG -DFMT_DEPRECATED_OSTREAM -DCHECK_THROW -fopenmp -I. -I/usr/include/eigen3 %s "$here/demo.cpp" %s -o "$out/demo" %s || exit 3
timeout 60 "$out/demo"
''' % (flags, sources, libs))
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(os.path.join(d, 'meta.json'), 'w'), indent=1)
    r = subprocess.run(['git', '-C', '/repo', 'apply', '--check', os.path.join(d, 'patch.diff')]); assert r.returncode == 0, sid
    print('seed', sid)
