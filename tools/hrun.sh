#!/bin/bash
# dev helper: build the harness and run one property:  hrun.sh C01 secs [extra flags]
set -e
D=/tmp/hrun; mkdir -p $D
python3 - <<'P'
import glob,json,os
json.dump({'Replace':{'/repo/verifh_/'+os.path.basename(f):f for f in glob.glob('/verif/harness/verifh/*.go')}|{'/repo/'+os.path.basename(f)[:-7]+'/zz_verifx_export.go':f for f in glob.glob('/verif/harness/verifx/*.go.txt')}},open('/tmp/hrun/o.json','w'))
P
cd /repo && GOPROXY=off GOFLAGS=-mod=readonly go build -tags verifx -overlay $D/o.json -o $D/verifh ./verifh_ && GOPROXY=off GOFLAGS=-mod=readonly go build -o $D/plugin .
[ -n "$1" ] || exit 0
cd $D; P=$1; T=$2; shift 2
VERIFH_PLUGIN=$D/plugin VERIFH_TMP=$D ./verifh -prop $P -time $T "$@" -out $D/r.json || true
python3 - <<'P'
import json
r=json.load(open('/tmp/hrun/r.json'))
print(r['property'],r['evaluations'],r['distinct_nontrivial'],r['per_sub'])
for f in r['failures'] or []:
    print('--',f['sub'],f['seed'],f['n']); print('  ',' ; '.join((f['input'] or []))[:900]); print('  =>',' | '.join(f['fails'])[:700])
P
