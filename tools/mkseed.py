"""mkseed.py DEFS.py: make planted-bug folders from definitions, testing each in a scratch
clone (/tmp/sr).  DEFS.py calls seed(id, prop, [(file, old, new)..], needs, breaks, demo_c)."""
import json, os, subprocess, sys
SR, OUT = '/tmp/sr', '/verif/seeded'
DEMO = '''#!/bin/bash
# exit 0 when the library behaves, nonzero otherwise; run from the repository root after the build
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 1
trap 'rm -rf "$t"' EXIT
gcc -O1 -g -w -D_GNU_SOURCE -fsanitize=address,undefined -fno-sanitize-recover=all -Iinclude -I_build/generated -Iarch/generic/include \\
  "$d/demo.c" _build/libbfdev.a -lm -lpthread -o "$t/demo" || exit 1
ASAN_OPTIONS=detect_leaks=0 timeout 120 "$t/demo"
'''


def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)


def prep():
    if not os.path.isdir(SR):
        sh('git clone -q /repo %s' % SR)
    sh('git -C %s fetch -q origin; git -C %s reset -q --hard origin/HEAD; git -C %s checkout -q -- .' % (SR, SR, SR))
    head = sh('git -C /repo rev-parse HEAD').stdout.strip()
    sh('git -C %s reset -q --hard %s' % (SR, head))
    build()


def build():
    if not os.path.exists(SR + '/_build/build.ninja'):
        sh('CC=/usr/bin/gcc cmake -S %s -B %s/_build -G Ninja -DCMAKE_BUILD_TYPE=RelWithDebInfo -DBFDEV_EXAMPLES=ON -DBFDEV_TESTSUITE=ON -DBFDEV_ASAN=ON -DBFDEV_UBSAN=ON -DBFDEV_STRICT=OFF' % (SR, SR))
    r = sh('ninja -C %s/_build' % SR)
    sh('ninja -C %s/_build' % SR)
    return r.returncode == 0, r.stdout[-800:]


ready = False
only = sys.argv[2:]


def seed(id, prop, edits, needs, breaks, demo):
    global ready
    if only and id not in only:
        return
    if not ready:
        prep()
        ready = True
    d = os.path.join(OUT, id)
    os.makedirs(d, exist_ok=True)
    open(d + '/demo.c', 'w').write(demo)
    open(d + '/demo.sh', 'w').write(DEMO)
    os.chmod(d + '/demo.sh', 0o755)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
    r0 = sh('bash %s/demo.sh' % d, cwd=SR)
    for f, o, n in edits:
        s = open(SR + '/' + f).read()
        if s.count(o) != 1:
            print(id, 'EDIT not unique/absent in', f, s.count(o))
            sh('git -C %s checkout -- .' % SR)
            return
        open(SR + '/' + f, 'w').write(s.replace(o, n))
    open(d + '/patch.diff', 'w').write(sh('git -C %s diff' % SR).stdout)
    ok, o = build()
    ts = rs = None
    if ok:
        r = sh('ctest --test-dir %s/_build/examples -j8 --timeout 60 2>&1 | tail -15' % SR)
        ts = [l for l in r.stdout.split('\n') if 'tests passed' in l or 'Failed' in l]
        r1 = sh('bash %s/demo.sh' % d, cwd=SR)
        rt = sh('ctest --test-dir %s/_build/testsuite -j8 --timeout 60 2>&1 | grep "tests passed\|(Failed"' % SR)
        rs = rt.stdout.strip()
        print('%-22s %s demo: clean rc=%d patched rc=%d | %s | testsuite %s' % (id, prop, r0.returncode, r1.returncode, ts, rs))
        if r0.returncode:
            print(r0.stdout[-600:], r0.stderr[-900:])
        if r1.returncode == 0:
            print('  DEMO DOES NOT FAIL', r1.stdout[-300:])
    else:
        print(id, 'BUILD FAILS', o)
    sh('git -C %s checkout -- .' % SR)
    build()


exec(open(sys.argv[1]).read())
