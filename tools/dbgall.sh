#!/bin/bash
# dbgall.sh harness.cpp regex secs : compile once, run every matching entry
set -e; V=$(cd "$(dirname "$0")/.." && pwd); REPO=${REPO:-/repo}
FL=$(sed -n 's,^// flags: ,,p' $1 | head -1); b=/tmp/dbgall.$$; mkdir -p $b
clang++-18 -std=c++11 -O1 -Xclang -disable-llvm-passes -fno-exceptions -ffp-contract=off -gline-tables-only -fno-vectorize -fno-slp-vectorize -fno-unroll-loops -Wno-everything -emit-llvm -c $FL -I${REPO:-/repo} -I${REPO:-/repo}/include -I${REPO:-/repo}/src -I$V/harness -DREPO=$REPO $1 -o $b/a.bc
for e in $(sed -n 's/^ENTRY \([hb][A-Za-z0-9_]*\).*/\1/p' $1 | grep -E "$2"); do
 echo "== $e"; d=/tmp/dbg.$e; rm -rf $d; mkdir -p $d
 $V/build/irvc prep $b/a.bc -entry $e -o $d/p.bc; opt-18 '-passes=default<O1>' $d/p.bc -o $d/o.bc
 (time timeout ${3:-60} $V/build/irvc run $d/o.bc -name $e -out $d -procs 8 -secs ${3:-60} | cut -c1-2000) 2>&1 | grep -v "^user\|^sys\|^$" || true
 python3 - $d <<'P'
import glob,json,sys
n=0; seen={}
for f in glob.glob(sys.argv[1]+'/r.*.json'):
    try: j=json.load(open(f))
    except Exception as e: print('bad',f); continue
    n+=sum(o[4] for o in j['obl'])
    for k in ('errors','bounds'):
        for e in j[k]: seen.setdefault((k,str(e)[:300]),[0])[0]+=1
    for v in j['viol']: seen.setdefault(('VIOL',v['loc'],v['label']),[0,[str(x[0])+'='+str(x[2]) for x in v['nondet']],[y.split('(')[0].split('::')[-1] for y in v['stack']]])[0]+=1
for k,v in list(seen.items())[:6]: print(*k,str(v)[:700])
print('obl',n)
P
 rm -rf $d
done
rm -rf $b
