#!/usr/bin/env python3
"""dev helper: mkseed.py SPEC.py  -- SPEC defines SEEDS = [dict(id, prop, pkg, edits=[(file, old, new)], needs, breaks, test)].
Makes /verif/seeded/<id>/ after confirming in a scratch copy: builds, stable tests pass,
the demonstration passes without and fails with the change."""
import json, os, runpy, shutil, subprocess, sys
REPO = '/repo'
S = '/tmp/seedrepo'
def sh(c, **k): return subprocess.run(c, shell=isinstance(c, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
DEMO = '''#!/bin/bash
# run with cwd /repo, after the build
D=$(cd "$(dirname "$0")" && pwd)
R=$PWD
. /opt/vp/env.sh >/dev/null 2>&1
cd "$R" || exit 2
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
printf '{"Replace":{"%%s/%s":"%%s/demo_test.go"}}' "$R" "$D" > "$T/o.json"
GOFLAGS=-mod=readonly timeout 250 go test -overlay "$T/o.json" -vet=off -count=1 -run '^TestSeedDemo$' %s
'''
spec = runpy.run_path(sys.argv[1])
only = sys.argv[2:]
env = dict(os.environ, PATH='/opt/veriftools/go1.27.3/bin:' + os.environ['PATH'], GOFLAGS='-mod=readonly', GOPROXY='off', GOTOOLCHAIN='local')
base = json.load(open('/opt/vp/BASELINE.json'))
for s in spec['SEEDS']:
    if only and s['id'] not in only: continue
    shutil.rmtree(S, ignore_errors=True)
    shutil.copytree(REPO, S, symlinks=True)
    ok = True
    for f, o, n in s['edits']:
        p = os.path.join(S, f); t = open(p).read()
        if t.count(o) != 1:
            print(s['id'], 'EDIT matches', t.count(o), 'times:', o[:60]); ok = False; break
        open(p, 'w').write(t.replace(o, n))
    if not ok: continue
    patch = sh(['git', '-C', S, 'diff']).stdout
    d = os.path.join('/tmp/seedout', s['id']); shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    pkg = s['pkg']
    open(d + '/patch.diff', 'w').write(patch)
    open(d + '/demo_test.go', 'w').write(s['test'])
    rel = (pkg + '/' if pkg != '.' else '') + 'zz_seeddemo_test.go'
    open(d + '/demo.sh', 'w').write(DEMO % (rel, './' + pkg if pkg != '.' else '.'))
    json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'), indent=1)
    r = sh("go build $(go list -e ./... | grep -vE 'constdp/app|dp/example')", cwd=S, env=env)
    if r.returncode: print(s['id'], 'BUILD', r.stdout[-800:]); continue
    # demo: unchanged
    r = sh(['bash', d + '/demo.sh'], cwd=REPO, env=env)
    if r.returncode: print(s['id'], 'DEMO fails unchanged:', r.stdout[-1500:]); continue
    r = sh(['bash', d + '/demo.sh'], cwd=S, env=env)
    if r.returncode == 0: print(s['id'], 'DEMO passes with the change'); continue
    why = [l for l in r.stdout.splitlines() if 'demo_test' in l or 'panic' in l][:2]
    if 'build failed' in r.stdout: print(s['id'], 'DEMO does not build', r.stdout[-800:]); continue
    # stable tests with the change
    t0 = sh("git -C /repo apply %s/patch.diff && bash /opt/vp/test.sh /tmp/seedtest.json | tail -1; git -C /repo checkout -- ." % d)
    line = t0.stdout.strip().splitlines()[-1]
    if ' 0 failed' not in line: print(s['id'], 'TESTS', line); continue
    dst = '/verif/seeded/' + s['id']; shutil.rmtree(dst, ignore_errors=True); shutil.copytree(d, dst)
    print(s['id'], 'ok', line, '|', ' '.join(why)[:200])
shutil.rmtree(S, ignore_errors=True)
