"""Author-side helper: writes seeded/<id>/ from a description and verifies it (never used by the checks)."""
import os, subprocess, json, sys, shutil
V = '/verif'; R = '/repo'
DEMO = '''#!/bin/bash
# run with cwd /repo after build.sh: exit 0 on the unchanged tree, nonzero with the patch
D=$(cd "$(dirname "$0")" && pwd); R=$PWD; B=$R/build/release; T=$(mktemp -d /tmp/demo.XXXXXX); trap 'rm -rf "$T"' EXIT
F="-include /opt/vp/cmake/compat.h -DIMPLICIT_CTDS_32BIT -DHAVE_AIPSPP -DHAVE_QDBM -DMAKE_LOFAR_SYMBOLS_GLOBAL -DSTRIP_CUDA -DUSE_STD_COMPLEX -DUSE_THREADS -D_GNU_SOURCE -O1 -DNDEBUG -fPIC -w -fpermissive -std=c++17"
I="-I$B/include -I/usr/include/casacore -I/usr/lib/python3/dist-packages/numpy/core/include -I/usr/include/python3.12"
for p in %(incs)s; do I="$I -I$B/$p"; done
L=""; for l in %(libs)s; do d=$(dirname $(find $B -name lib$l.so | head -1)); L="$L -L$d -l$l -Wl,-rpath,$d"; done
X=""; for p in TimBase DMI OCTOPUSSY MEQ MeqNodes MeqServer VisCube MeqMPI OCTOPython AppAgent/AppAgent AppAgent/AppUtils; do X="$X -Wl,-rpath-link,$B/$p -Wl,-rpath,$B/$p"; done
g++ $F $I -o $T/demo "$D/demo.cc" -Wl,--no-as-needed $L $X -lpthread -ldl || exit 3
cd $T && timeout %(to)d ./demo
'''
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def mk(id, prop, edits, needs, breaks, demo, libs='dmi timbase', incs='DMI', to=60):
    """edits: list of (file, old, new)"""
    assert not sh('git -C %s status --porcelain' % R).stdout.strip(), 'dirty repo'
    for f, o, n in edits:
        p = os.path.join(R, f); s = open(p, errors='surrogateescape').read(); assert s.count(o) == 1, (f, o, s.count(o)); open(p, 'w', errors='surrogateescape').write(s.replace(o, n))
    d = os.path.join(V, 'seeded', id); os.makedirs(d, exist_ok=True)
    open(d + '/patch.diff', 'w').write(sh('git -C %s diff' % R).stdout); sh('git -C %s checkout -- .' % R)
    open(d + '/demo.cc', 'w').write(demo); open(d + '/demo.sh', 'w').write(DEMO % dict(incs=incs, libs=libs, to=to)); os.chmod(d + '/demo.sh', 0o755)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + '/meta.json', 'w'), indent=1)
def demo(id):
    T = '/tmp/seedrun'; sh('rm -rf /tmp/seedrun'); shutil.copytree(os.path.join(V, 'seeded', id), T, ignore=shutil.ignore_patterns('*.diff', 'meta.json')); r = sh('bash %s/demo.sh' % T, cwd=R); return r.returncode, (r.stdout + r.stderr)[-600:]
def verify(ids, tests=True, check=True):
    assert sh('bash /opt/vp/build.sh').returncode == 0
    for i in ids: print(i, 'clean demo', demo(i), flush=True)
    for i in ids:
        d = os.path.join(V, 'seeded', i); m = json.load(open(d + '/meta.json'))
        a = sh('git -C %s apply %s/patch.diff' % (R, d))
        if a.returncode: print(i, 'DOES NOT APPLY', a.stderr); continue
        try:
            b = sh('bash /opt/vp/build.sh')
            if b.returncode: print(i, 'BUILD FAILS', b.stdout[-1500:]); continue
            print(i, 'patched demo', demo(i), flush=True)
            if tests:
                sh('bash /opt/vp/test.sh /tmp/seedtest.json'); t = json.load(open('/tmp/seedtest.json')); base = set(json.load(open('/opt/vp/BASELINE.json'))['stable']); print(i, 'tests missing', base - set(t['passed']), flush=True)
            if check:
                c = sh('python3 tools/check.py --property %s' % m['property'], cwd=V); print(i, 'CHECK rc', c.returncode, [l for l in c.stdout.splitlines()][:3], flush=True)
        finally: sh('git -C %s checkout -- .' % R)
    sh('bash /opt/vp/build.sh')
if __name__ == '__main__':
    a = sys.argv[1:]; t = '--no-tests' not in a; c = '--no-check' not in a; ids = [x for x in a if not x.startswith('--')] or sorted(os.listdir(V + '/seeded')); verify(ids, t, c)
