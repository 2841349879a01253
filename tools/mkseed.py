"""mkseed.py: helper used while planting bugs: mk(id, property, [(file, old, new)], demo_cc, needs, breaks) writes /verif/seeded/<id>/ (patch against /repo HEAD)."""
import subprocess, os, json, tempfile, shutil
REPO = os.environ.get('SEED_REPO', '/repo'); OUT = os.environ.get('SEED_OUT', '/verif/seeded')
SH = r'''#!/bin/bash
# exits 0 when the behaviour is right; links the demonstration with the library that build.sh made
set -e
HERE=$(cd "$(dirname "$0")" && pwd); R=${PWD}
T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
INC=""; for p in $R/projects/*/public; do INC="$INC -I$p"; done
g++ -std=c++17 -O1 -w $INC -I$R/vendor/rk -I$R/vendor/crundec3 $(python3-config --includes 2>/dev/null || true) "$HERE/demo.cc" -o "$T/demo" -L$R/_build -lSIREN -Wl,-rpath,$R/_build @LIBS@
cd "$T" && exec timeout 250 ./demo
'''
def mk(id, prop, edits, demo_cc=None, needs='', breaks='', demo_sh=None, files={}, libs=''):
    d = OUT + '/' + id; os.makedirs(d, exist_ok=True)
    assert subprocess.run(['git', '-C', REPO, 'status', '--porcelain'], capture_output=True, text=True).stdout == '', 'repo dirty'
    try:
        for f, a, b in edits:
            p = os.path.join(REPO, f); s = open(p).read()
            assert s.count(a) == 1, (id, f, s.count(a), a)
            open(p, 'w').write(s.replace(a, b))
        diff = subprocess.run(['git', '-C', REPO, 'diff'], capture_output=True, text=True).stdout
    finally:
        subprocess.run(['git', '-C', REPO, 'checkout', '--', '.'])
    open(d + '/patch.diff', 'w').write(diff)
    if demo_cc: open(d + '/demo.cc', 'w').write(demo_cc)
    open(d + '/demo.sh', 'w').write(demo_sh or SH.replace('@LIBS@', libs))
    for n, t in files.items(): open(d + '/' + n, 'w').write(t)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + '/meta.json', 'w'), indent=1)
    print('wrote', d, len(diff))
