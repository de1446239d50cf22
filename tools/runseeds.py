#!/usr/bin/env python3
"""Run checks against seeded bugs in scratch copies of /repo: runseeds.py [ID-REGEX] """
import sys, os, re, json, subprocess, shutil, tempfile, time
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rx = re.compile(sys.argv[1] if len(sys.argv) > 1 else '.')
def one(i):
    m = json.load(open('%s/seeded/%s/meta.json' % (V, i))); d = tempfile.mkdtemp(prefix='rs.')
    try:
        subprocess.run('git clone -q /repo %s/repo && git -C %s/repo apply %s/seeded/%s/patch.diff' % (d, d, V, i), shell=True, check=True)
        t = time.time()
        r = subprocess.run(['python3', V + '/run.py', m['property']], env=dict(os.environ, REPO=d + '/repo'), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
        u = [l for l in r.stdout.splitlines() if 'UNDECIDED' in l]
        return i, r.returncode, len(v), sum('no-failing-input' in l for l in v), time.time() - t, (v or u or [''])[0][:150]
    finally: shutil.rmtree(d)
with ThreadPoolExecutor(int(os.environ.get('J', '2'))) as ex:
    for r in ex.map(one, sorted(i for i in os.listdir(V + '/seeded') if rx.search(i))): print('%-28s rc=%d viol=%d (noinput %d) %.0fs %s' % r, flush=True)
