#!/bin/bash
# dbg.sh harness.cpp entry secs : compile one entry and run irvc on it
set -e; V=$(cd "$(dirname "$0")/.." && pwd); REPO=${REPO:-/repo}
d=/tmp/dbg.$2; rm -rf $d; mkdir -p $d
FL=$(sed -n 's,^// flags: ,,p' $1 | head -1)
clang++-18 -std=c++11 -O1 -Xclang -disable-llvm-passes -fno-exceptions -ffp-contract=off -gline-tables-only -fno-vectorize -fno-slp-vectorize -fno-unroll-loops -Wno-everything -emit-llvm -c $FL -I$REPO -I$REPO/include -I$REPO/src -I$V/harness -DREPO=$REPO $1 -o $d/a.bc
$V/build/irvc prep $d/a.bc -entry $2 -o $d/p.bc
opt-18 '-passes=default<O1>' $d/p.bc -o $d/o.bc
(time timeout ${3:-60} $V/build/irvc run $d/o.bc -name $2 -out $d -procs 8 -secs ${3:-60} ${@:4} | cut -c1-2000)
python3 - $d <<'P'
import glob,json,sys
n=0; seen={}
for f in glob.glob(sys.argv[1]+'/r.*.json'):
    try: j=json.load(open(f))
    except Exception as e: print('bad',f); continue
    n+=sum(o[4] for o in j['obl'])
    for k in ('errors','bounds'):
        for e in j[k]: seen.setdefault((k,str(e)[:300]),[0])[0]+=1
    for v in j['viol']: seen.setdefault(('VIOL',v['loc'],v['label']),[0,[str(x[0])+'='+str(x[2]) for x in v['nondet']],[y.split('(')[0].split('::')[-1] for y in v['stack']]])[0]+=1
for k,v in list(seen.items())[:8]: print(*k,str(v)[:700])
print('obl',n)
P
