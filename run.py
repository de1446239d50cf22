#!/usr/bin/env python3
"""Check one property: build the contract harnesses against /repo's current sources, generate and discharge
every verification condition with irvc, replay counterexamples natively, write the evidence file."""
import sys, os, re, json, glob, signal, subprocess, tempfile, shutil, time, fcntl
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
IRVC = os.path.join(BUILD, 'irvc')
CXX = 'clang++-18'
OPT = 'opt-18'
CFLAGS = ['-std=c++11', '-O1', '-Xclang', '-disable-llvm-passes', '-fno-exceptions', '-ffp-contract=off',
          '-gline-tables-only', '-fno-vectorize', '-fno-slp-vectorize', '-fno-unroll-loops', '-Wno-everything',
          '-emit-llvm', '-c']
NPROC = os.cpu_count() or 4


def sh(cmd, timeout=None, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, text=True, errors='replace', **kw)


def build_engine():
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, '.lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        r = sh(['make', '-s', '-j4', '-C', os.path.join(VERIF, 'engine'), 'OUT=' + BUILD])
        if r.returncode:
            sys.stderr.write(r.stdout + r.stderr)
            print('ERROR: engine build failed')
            sys.exit(2)


def entries_for(pid, tier):
    out = []
    for f in sorted(glob.glob(os.path.join(VERIF, 'harness', '*.cpp'))):
        if os.path.basename(f) == 'native_rt.cpp':
            continue
        txt = open(f).read()
        flags = []
        m = re.search(r'^// flags: (.*)$', txt, re.M)
        if m:
            flags = m.group(1).split()
        for m in re.finditer(r'^ENTRY\s+([hb]t?_%s_\w+)\s*\(' % pid, txt, re.M):
            n = m.group(1)
            if n[1] == 't' and tier != 'thorough':
                continue
            out.append((f, tuple(flags), n))
    return out


def compile_tu(src, flags, tier, work):
    bc = os.path.join(work, os.path.basename(src) + '.bc')
    cmd = [CXX] + CFLAGS + list(flags) + (['-DV_THOROUGH'] if tier == 'thorough' else []) + \
        ['-I' + REPO, '-I' + os.path.join(REPO, 'include'), '-I' + os.path.join(REPO, 'src'), '-I' + os.path.join(VERIF, 'harness'),
         '-DREPO=' + REPO, src, '-o', bc]
    r = sh(cmd)
    return bc if r.returncode == 0 else None, r.stderr


def run_entry(bc, entry, work, procs, end):
    left = lambda: max(60, end - time.time())
    r = run_entry1(bc, entry, work, procs, left(), [])
    if any(v.get('abs') for v in r['viol']):
        # an obligation failed after a loop was replaced by its inferred invariant: decide with the loop unrolled (bounded)
        r2 = run_entry1(bc, entry, work, procs, left(), ['-noinv'])
        r2['bounds']['inferred loop invariant too weak; bounded exploration instead'] = 1
        return r2
    return r


def run_entry1(bc, entry, work, procs, secs, extra):
    d = os.path.join(work, entry + ''.join(extra))
    os.makedirs(d, exist_ok=True)
    res = {'entry': entry, 'obl': [], 'viol': [], 'errors': {}, 'bounds': {}, 'covers': {}, 'funcs': {}, 'assumed': {},
           'loops': {}, 'ends': {}, 'solver': {}, 'prep': ''}
    r = sh([IRVC, 'prep', bc, '-entry', entry, '-o', d + '/p.bc'])
    if r.returncode:
        res['errors']['prep: ' + (r.stderr.strip()[:400] or 'failed')] = 1
        return res
    r = sh([OPT, '-passes=default<O1>', d + '/p.bc', '-o', d + '/o.bc'])
    if r.returncode:
        res['errors']['opt failed: ' + r.stderr[:300]] = 1
        return res
    t = time.time()
    with open(d + '/stderr', 'w+') as ef:
        p = subprocess.Popen([IRVC, 'run', d + '/o.bc', '-name', entry, '-out', d, '-procs', str(procs), '-secs', str(secs)] + extra, stdout=ef, stderr=ef, start_new_session=True)
        try:
            rc = p.wait(secs + 45)
            if rc:
                ef.seek(0)
                res['errors']['engine exit %d %s' % (rc, ef.read()[-300:])] = 1
        except subprocess.TimeoutExpired:
            res['errors']['engine timeout'] = 1
            os.killpg(p.pid, signal.SIGKILL)
            p.wait()
    res['wall'] = time.time() - t
    obl = {}
    n = 0
    for f in glob.glob(d + '/r.*.json'):
        n += 1
        try:
            j = json.load(open(f))
        except Exception as e:
            res['errors']['bad result file'] = 1
            continue
        for o in j['obl']:
            k = tuple(o[:3])
            a = obl.setdefault(k, [0] * 5)
            for i in range(5):
                a[i] += o[3 + i]
        for key in ('errors', 'bounds', 'covers', 'funcs', 'assumed', 'loops', 'ends', 'solver'):
            for k, v in j[key].items():
                res[key][k] = res[key].get(k, 0) + v
        res['viol'] += j['viol']
    if n == 0:
        res['errors']['no result'] = 1
    res['obl'] = [list(k) + v for k, v in obl.items()]
    return res


def native_build(bc, entry, work):
    d = os.path.join(work, entry)
    r = sh([IRVC, 'prep', bc, '-entry', entry, '-native', '-o', d + '/n.bc'])
    if r.returncode:
        return None, r.stderr
    exe = d + '/replay'
    r = sh([CXX, '-O0', '-g1', '-fsanitize=address', '-Wno-everything', d + '/n.bc', '-c', '-o', d + '/n.o'])
    if r.returncode:
        return None, r.stderr
    r = sh([CXX, '-O0', '-std=c++11', '-fsanitize=address', '-I' + VERIF + '/harness', VERIF + '/harness/native_rt.cpp', d + '/n.o', '-o', exe, '-lcrypto', '-lpthread', '-Wl,--allow-multiple-definition'])
    if r.returncode:
        return None, r.stderr
    return exe, ''


def replay(exe, v, path):
    with open(path, 'w') as f:
        for name, kind, val in v['nondet']:
            f.write('%s\t%s\t%s\n' % (name, kind, val))
    outs = []
    for fill in ('0', '255', '165', '1'):
        try:
            r = sh(['setpriv', '--reuid=65534', '--regid=65534', '--clear-groups', exe, path, fill] if False else [exe, path, fill], timeout=60,
                   env={'ASAN_OPTIONS': 'alloc_dealloc_mismatch=0:abort_on_error=0:detect_leaks=0:exitcode=76', 'PATH': '/usr/bin:/bin'})
            rc, err = r.returncode, r.stderr[-6000:]
        except subprocess.TimeoutExpired:
            rc, err = 'timeout', ''
        outs.append((rc, err))
        if rc in (77, 'timeout') or (rc == 76 and 'out of memory' not in err and 'allocation-size-too-big' not in err) or (isinstance(rc, int) and (rc < 0 or rc == 134)):
            return True, outs
    return False, outs


def main():
    pid = sys.argv[1]
    tier = 'quick'
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    only = sys.argv[sys.argv.index('--only') + 1] if '--only' in sys.argv else None
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    budget = 560 if tier == 'quick' else 3 * 3600
    build_engine()
    ents = entries_for(pid, tier)
    if only:
        ents = [e for e in ents if re.search(only, e[2])]
    if not ents:
        print('ERROR: no entries for', pid)
        return 2
    work = tempfile.mkdtemp(prefix='irvc-%s-' % pid)
    rc = 2
    try:
        rc = go(pid, tier, seed, t0, budget, ents, work)
    finally:
        if '--keep' not in sys.argv:
            shutil.rmtree(work, ignore_errors=True)
        else:
            print('kept', work)
    return rc


def go(pid, tier, seed, t0, budget, ents, work):
    tus = {}
    with ThreadPoolExecutor(NPROC) as ex:
        futs = {}
        for f, fl, e in ents:
            if (f, fl) not in futs:
                futs[(f, fl)] = ex.submit(compile_tu, f, fl, tier, work)
        for k, fu in futs.items():
            tus[k] = fu.result()
    undecided = []
    jobs = []
    for f, fl, e in ents:
        bc, err = tus[(f, fl)]
        if not bc:
            undecided.append('%s: does not compile against the current sources: %s' % (e, err.strip().split('\n')[0][:300]))
        else:
            jobs.append((bc, e))
    procs = max(1, min(NPROC, (2 * NPROC) // max(1, min(len(jobs), NPROC))))
    results = []
    with ThreadPoolExecutor(NPROC) as ex:
        fs = [(bc, ex.submit(run_entry, bc, e, work, procs, t0 + budget)) for bc, e in jobs]
        for bc, fu in fs:
            r = fu.result()
            r['bc'] = bc
            results.append(r)
    known = []
    kp = os.path.join(VERIF, 'known_findings.json')
    if os.path.exists(kp):
        known = [k for k in json.load(open(kp)).get('findings', []) if k.get('property') == pid]
    tot = dict(obligations=0, discharged=0, by_interp=0, by_solver=0)
    btot = dict(obligations=0, discharged=0)
    names, bnames, funcs, assumed, loops, bounds, covers = [], [], {}, {}, {}, {}, {}
    solver = {}
    samples = []
    viols = []
    paths = 0
    per_entry = []
    for r in results:
        e = r['entry']
        bounded = e[0] == 'b' or bool(r['bounds'])
        n = sum(o[3] for o in r['obl'])
        d = sum(o[4] + o[5] for o in r['obl'])
        tgt = btot if bounded else tot
        tgt['obligations'] += n
        tgt['discharged'] += d
        if not bounded:
            tot['by_interp'] += sum(o[4] for o in r['obl'])
            tot['by_solver'] += sum(o[5] for o in r['obl'])
        (bnames if bounded else names).append(e)
        for k in r['funcs']:
            funcs[k] = funcs.get(k, 0) + r['funcs'][k]
        assumed.update(r['assumed'])
        loops.update(r['loops'])
        for k in r['bounds']:
            bounds[e + ': ' + k] = r['bounds'][k]
        covers[e] = r['covers']
        for k, v in r['solver'].items():
            solver[k] = solver.get(k, 0) + v
        paths += sum(v for k, v in r['ends'].items() if k in ('done', 'stop'))
        for k, v in r['errors'].items():
            undecided.append('%s: %s' % (e, k))
        unk = [o for o in r['obl'] if o[7]]
        for o in unk:
            undecided.append('%s: solver gave no answer on %s' % (e, o[:3]))
        if not r['viol'] and not r['errors'] and (n == 0 or not r['covers']):
            undecided.append('%s: vacuous (no obligations or no cover reached)' % e)
        per_entry.append({'entry': e, 'bounded': bounded, 'obligations': n, 'discharged': d, 'paths': sum(r['ends'].values()), 'wall_s': round(r.get('wall', 0), 2), 'ends': r['ends']})
        seen = set()
        # pick up to 3 counterexamples per failed obligation
        for v in r['viol']:
            viols.append((r, v))
    # ---- replay
    edir = os.path.join(VERIF, 'evidence')
    rdir = os.path.join(edir, 'replay')
    os.makedirs(rdir, exist_ok=True)
    for f in glob.glob(os.path.join(rdir, pid + '-*')):
        os.remove(f)
    exes = {}
    byob = {}
    for r, v in viols:
        byob.setdefault((v['entry'], v['kind'], v['label'], v['loc']), []).append((r, v))
    reported = []
    knownhit = {}
    for i, (k, lst) in enumerate(sorted(byob.items(), key=lambda x: (x[0][1] != 'assert', x[0]))):
        kf = None
        for kk in known:
            if re.search(kk['entry'], k[0]) and re.search(kk['obligation'], k[2] + ' @' + k[3]):
                kf = kk
        if kf:
            knownhit.setdefault(kf['id'], kf)
            continue
        if len(reported) >= 6:
            reported.append((k, None, False))
            continue
        ok = False
        outs = []
        best = lst[0][1]
        path = os.path.join(rdir, '%s-%d.txt' % (pid, i))
        for r, v in lst:
            if r['entry'] not in exes:
                exes[r['entry']] = native_build(r['bc'], r['entry'], work)
            exe, err = exes[r['entry']]
            if not exe:
                outs.append(('build', err[-1500:]))
                continue
            ok, o = replay(exe, v, path)
            outs += o
            best = v
            if ok:
                break
        with open(path, 'w') as f:
            f.write('# property %s, failed obligation [%s] %s at %s in entry %s (%s)\n' % (pid, k[1], k[2], k[3], k[0], best.get('func')))
            f.write('# %s\n' % ('counterexample reproduced on the compiled real code' if ok else 'no failing input reproduced natively'))
            f.write('# stack: %s\n# notes: %s\n' % (' <- '.join(best['stack'][:12]), best['notes']))
            for name, kind, val in best['nondet']:
                f.write('%s\t%s\t%s\n' % (name, kind, val))
            f.write('# native output:\n')
            for o in outs[-2:]:
                f.write('# rc=%s\n' % (o[0],) + ''.join('#   ' + l + '\n' for l in str(o[1]).split('\n')[:60]))
        reported.append((k, path, ok))
    for kf in knownhit.values():
        print('KNOWN-FINDING: property=%s %s' % (pid, kf['what']))
    nviol = 0
    for k, path, ok in sorted(reported, key=lambda x: not x[2]):
        nviol += 1
        if nviol <= 5 and path:
            print('failed obligation [%s] %s at %s (%s)' % (k[1], k[2], k[3] or 'spec', k[0]))
            print('VIOLATION property=%s replay=%s%s' % (pid, path, '' if ok else ' no-failing-input-found'))
    level = 'proof' if tot['obligations'] and not [n for n in bnames if 0] else 'other'
    man = os.path.join(VERIF, 'MANIFEST.json')
    if os.path.exists(man):
        for c in json.load(open(man))['checks']:
            if c['property'] == pid:
                level = c['level']
    repo_funcs = sorted(k for k in funcs if 'zenomt' in k and 'anonymous' not in k)
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': level,
          'coverage': {
              'obligations': tot['obligations'], 'discharged': tot['discharged'],
              'checker_cmd': 'python3 run.py %s --tier %s' % (pid, tier),
              'trusted_base': ['clang 18 front end and LLVM O1 scalar passes (IR of the real sources)', 'irvc expression simplifier, memory model and path enumeration (/verif/engine)', 'z3 5.3.2', 'harness/rt.hpp models of out-of-line libstdc++ (tree and list primitives)'],
              'discharged_by': {'simplifier': tot['by_interp'], 'z3': tot['by_solver']},
              'bounded_obligations': btot['obligations'], 'bounded_discharged': btot['discharged'],
              'unbounded_entries': names, 'bounded_entries': bnames,
              'functions_under_contract': repo_funcs, 'functions_count': len(repo_funcs),
              'paths': paths, 'solver': solver, 'loops': loops, 'bounds_hit': bounds, 'covers': covers, 'entries': per_entry,
              'evaluations': paths, 'distinct_nontrivial': sum(1 for p in per_entry if p['obligations']),
              'rule': 'one evaluation = one feasible symbolic path of a contract harness run to its end; distinct_nontrivial = harness entries with at least one obligation',
              'samples': [json.dumps(o) for r in results[:3] for o in sorted(r['obl'])[:4]],
              'explanation': 'contract harnesses over the real sources; obligations of entries named b_* or of entries with bounds_hit are bounded and counted separately',
              'undecided': undecided,
          },
          'assumptions': sorted(assumed) + ['floating point treated as real arithmetic', 'compiled with -fno-exceptions: a throw is an abort obligation', 'operator new never fails for sizes up to 2^38 and larger requests are not modelled', 'single thread of execution'],
          'wall_s': round(time.time() - t0, 2), 'violations': nviol}
    with open(os.path.join(edir, pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print('%s %s: %d/%d obligations discharged (unbounded, %d entries), %d/%d (bounded, %d entries), %d functions, %d paths, solver %.1fs, wall %.1fs' % (
        pid, tier, tot['discharged'], tot['obligations'], len(names), btot['discharged'], btot['obligations'], len(bnames), len(repo_funcs), paths, solver.get('secs', 0), time.time() - t0))
    for u in undecided:
        print('UNDECIDED', u)
    if '-v' in sys.argv:
        for p in per_entry:
            print(' ', p)
        for b in bounds:
            print('  bound', b, bounds[b])
        for r in results:
            print('  covers', r['entry'], r['covers'])
    if nviol:
        return 1
    decided = [r for r in results if not r['errors']]
    if undecided and not decided:
        return 2
    if undecided and os.environ.get('IRVC_STRICT'):
        return 3
    return 0


if __name__ == '__main__':
    sys.exit(main())
