#!/bin/bash
# developer helper: mk.sh harness.cpp [-Dx] -- symx args      (compiles /repo + harness into /tmp/bc, runs symx, prints a summary)
VD=$(cd "$(dirname "$0")"; pwd); h=$1; shift
cd $VD; D=/tmp/bc$(echo $VD | tr / _); mkdir -p $D; R=${REPO:-/repo}; T=${TAG:-}
DEFS=${DEFS:-}
CC="clang++-18 -std=gnu++17 -O1 -g -w -Xclang -disable-llvm-passes -emit-llvm -ferror-limit=2 -fno-caret-diagnostics -I$R -I$VD/rt -I$VD/harness -DYRMCDS_VERIF -DCACHELINE_SIZE=64 $DEFS -DDEFAULT_CONFIG=\"/x\""
X=""; while [ $# -gt 0 ] && [ "$1" != -- ]; do X="$X $1"; T="$T$1"; shift; done; shift
T=$(echo "$T" | tr -c 'A-Za-z0-9\n' _)
F=()
cd $R; for s in $(find cybozu src -name '*.cpp' ! -name main.cpp); do o=$D/r$T$(echo $s|tr / _).bc; F+=($o); n=$(find $o -newer $s 2>/dev/null); hd=$(find cybozu src -name '*.hpp' -newer $o 2>/dev/null | head -1); if [ -z "$n" ] || [ -n "$hd" ]; then echo "$CC $X -c $s -o $o"; fi; done > /tmp/mk.cmds
cd $VD; for r in env rt rt_thread sxlog sxios; do o=$D/$r.bc; if [ ! $o -nt rt/$r.cpp ] || [ ! $o -nt rt/env.hpp ]; then echo "$CC -fno-builtin -c $VD/rt/$r.cpp -o $o"; fi; done >> /tmp/mk.cmds
echo "$CC $X -c $VD/harness/$h -o $D/h$T$h.bc" >> /tmp/mk.cmds
(cd $R; xargs -P8 -d '\n' -I{} sh -c '{} || exit 255' < /tmp/mk.cmds) || exit 1
${SYMX:-engine/symx} $D/env.bc $D/h$T$h.bc $D/rt.bc $D/rt_thread.bc $D/sxlog.bc $D/sxios.bc "${F[@]}" -o /tmp/o$T.json "$@"
echo "exit $?"
python3 -c "
import json;d=json.load(open('/tmp/o$T.json'))
print(' '.join('%s=%s'%(k,v) for k,v in d.items() if k not in('functions','violations','samples')))
for v in d['violations']:
  print('VIOL',v['kind'],v['msg'],v['loc']); print('   ',' '.join('%s=%s'%(a,c) for a,b,c in v['inputs'])[:700])
  for s in v['stack'][:int('${STK:-4}')]: print('      ',s)
" 
