#!/usr/bin/env python3
"""Author/validate seeded bugs. Usage: mkseed.py FILE.py...  Each FILE defines SEEDS=[dict(id,prop,edits=[(file,old,new)],demo=cpp,needs,breaks)].
Validates in a scratch copy: builds, 16 tests pass, demo 0 unchanged / nonzero patched; then writes /verif/seeded/<id>/."""
import sys, os, subprocess, shutil, json, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/sh
# run with cwd = the repository root, after the build
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
g++ -std=c++11 -g -O1 %s -I. -Iinclude -Isrc "$here/demo.cpp" -o "$tmp/demo" librtmfp.a -lpthread || exit 3
timeout 60 "$tmp/demo"
'''
def sh(c, cwd=None): return subprocess.run(c, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
def main():
    bad = 0
    for fn in sys.argv[1:]:
        ns = {}; exec(open(fn).read(), ns)
        for s in ns['SEEDS']:
            d = tempfile.mkdtemp(prefix='seed.'); w = d + '/repo'; q = d + '/q'; os.mkdir(q)
            try:
                sh('cp -a /repo %s' % w)
                open(q + '/demo.cpp', 'w').write(s['demo']); open(q + '/demo.sh', 'w').write(DEMO % s.get('flags', '')); os.chmod(q + '/demo.sh', 0o755)
                r0 = sh(q + '/demo.sh', cwd=w)
                if r0.returncode: print(s['id'], 'DEMO FAILS UNCHANGED', r0.returncode, r0.stdout[-600:]); bad = 1; continue
                ok = True
                for (f, a, b) in s['edits']:
                    t = open(w + '/' + f).read()
                    if t.count(a) != 1: print(s['id'], 'edit count', t.count(a), f, repr(a)); ok = False; break
                    open(w + '/' + f, 'w').write(t.replace(a, b))
                if not ok: bad = 1; continue
                p = sh('git diff', cwd=w).stdout
                sh('git add -A; git -c user.email=x -c user.name=x commit -qm x', cwd=w)
                # build+tests on the scratch copy through the official scripts' own commands
                b = sh('make -j8 >/dev/null 2>%s/err && cd test && make -j8 tests >/dev/null 2>>%s/err' % (d, d), cwd=w)
                if b.returncode: print(s['id'], 'BUILD FAILS', open(d + '/err').read()[-800:]); bad = 1; continue
                fails = []
                if not os.environ.get('NOTEST'):
                    ps = [(t, subprocess.Popen(['timeout', '60', './' + t], cwd=w + '/test', stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, stdin=subprocess.DEVNULL)) for t in 'tis testperform testchecksums testlist testvlu testaddress testhex testamf testtcmsg testflowsync testreorder testmedia testuriparse testratetracker testretainer testcollect'.split()]
                    fails = [t for t, x in ps if x.wait()]
                if fails: print(s['id'], 'TESTS FAIL', fails); bad = 1; continue
                r1 = sh(q + '/demo.sh', cwd=w)
                if r1.returncode == 0 or r1.returncode == 3: print(s['id'], 'DEMO DOES NOT FAIL', r1.returncode, r1.stdout[-600:]); bad = 1; continue
                o = os.path.join(V, 'seeded', s['id']); os.makedirs(o, exist_ok=True)
                open(o + '/patch.diff', 'w').write(p)
                shutil.copy(q + '/demo.cpp', o); shutil.copy(q + '/demo.sh', o)
                json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(o + '/meta.json', 'w'), indent=1)
                print(s['id'], 'ok: demo', r1.returncode, r1.stdout.strip()[-100:])
            finally:
                shutil.rmtree(d)
    return bad
sys.exit(main())
