#!/bin/bash
# dev helper: mut.sh PROP FILE PY-EXPR-OLD PY-EXPR-NEW  -- one textual change in a scratch copy, verified with the dev build
rm -rf /tmp/mrepo; cp -a /repo /tmp/mrepo
python3 - "$2" "$3" "$4" <<'P'
import sys
p='/tmp/mrepo/'+sys.argv[1]; s=open(p).read()
assert sys.argv[2] in s, 'pattern not found'
open(p,'w').write(s.replace(sys.argv[2],sys.argv[3],1))
P
(cd /tmp/mrepo && GOPROXY=off GOFLAGS=-mod=readonly go build -o /dev/null . ) || exit 9
/tmp/gocv -repo /tmp/mrepo -prop $1 -v -out /tmp/rm.json | grep -v ^proved
